"""Hard wrapping (W..)."""
import absint, models, fw
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import OPT, norm
from render import Run1, rd, fidx, place, kind_mode, prefix_width, split_enum, KIND, MODE
from crop import fn_named, index_in, fold_flags, const_bool

FC = "termimad::composite::FmtComposite"
GW = ("GH", "wrap")
(CUR, COUNT, OLD, NPUSH, MAXW, TOK, PEND, PBLANK, GAP, PWIDE, LWIDE, EMPTY, HASOLD, OWIDE, OEMPTY, FIRST, SUM, OSUM) = range(18)
T, F = BoolV(TRUE), BoolV(FALSE)


class Wrap:
    """specification variables: index of the last token taken, number of compounds of the line under construction, of the
    line completed but not yet pushed, number of composites pushed, width limit of the tokens; and flags: are there tokens,
    is the last token still to be placed, is it blank, was something dropped since the last token placed, is the last token
    a single char wider than the limit, is the line made only of such a token, is it empty; the same for the line completed
    but not pushed; has no composite been pushed yet; total width of the tokens of the line, of the line completed"""

    def __init__(self, c, P, width, compounds, case, what):
        self.what = what
        self.P, self.width, self.vec, self.case = P, width, compounds, case
        self.bad = {}
        self.events = 0
        self.tk = next(p for p in P.adts if p.endswith("::tokens::Token"))
        self.f = {n: fidx(P, self.tk, n) for n in ("compound", "blank", "width", "start_in_compound", "end_in_compound")}
        self.cty = self.f["compound"][3]
        self.cpath = P.types[self.cty]["path"]
        self.cfields = [fidx(P, self.cpath, x["name"]) for x in P.adts[self.cpath]["variants"][0]["fields"]]
        self.csrc = next(x for x in self.cfields if x[4] == "src")
        self.fc = {n: fidx(P, FC, n) for n in ("kind", "visible_length", "compounds", "spacing")}
        self.tokens = ("tokens",)

    def fail(self, E, key, text):
        if E.recording is not False:
            self.bad.setdefault(key, text)

    def start(self, st):
        z = Lin(0)
        st.mem[GW] = Agg("ghost", None, (Lin(-1), z, z, z, z, F, F, F, F, F, F, T, F, F, F, T, z, z))

    def part(self, E, st):
        out = []
        for root, v in list(st.mem.items()):
            if root == GW:
                fl = []
                nv = fold_flags(E, st, v, fl)
                if nv is not v:
                    st.mem[root] = nv
                out.append((repr(root), tuple(fl)))
            elif root[0] == "L" and isinstance(v, BoolV):
                k = E.truth(st, v.f)
                if k is not None:
                    st.mem[root] = T if k else F
                out.append((repr(root), k))
        return tuple(sorted(out, key=repr))

    def is_fc(self, v):
        return isinstance(v, Agg) and v.path == FC

    def facts(self, E, st):
        g = st.mem.get(GW)
        if g is None:
            return {}
        f = g.fields
        out = {}
        for root, v in list(st.mem.items()):
            if isinstance(v, VecV) and v.ety is not None and self.P.types[v.ety].get("path") == FC:
                out[root, "n"] = v.len - f[NPUSH]
            if isinstance(v, Agg) and v.path == "m:own" and all(isinstance(x, Lin) for x in v.fields[1:]):
                out[root, "it"] = v.fields[1] - f[CUR] - 1
            if isinstance(v, Agg) and v.path.endswith("::Range") and v.fields and isinstance(v.fields[0], Lin):
                out[root, "range"] = v.fields[0] - f[CUR] - 1
            if isinstance(v, Lin) and root[0] == "L":
                out[root, "i"] = v - f[CUR] - 1
            if self.is_fc(v):
                vl, cs = v.fields[self.fc["visible_length"][1]], v.fields[self.fc["compounds"][1]]
                if isinstance(vl, Lin):
                    out[root, "fit"] = ("ge", self.width - vl)
                    p = self.prefix(E, st, v.fields[self.fc["kind"][1]]) if self.what == "width" else None
                    if p is not None:
                        out[root, "sum"] = vl - p - f[SUM]
                if isinstance(cs, VecV):
                    out[root, "len"] = cs.len - f[COUNT]
                    out[root, "empty"] = cs.len
        return out

    def ntokens(self, E):
        return E.nat(("len", self.tokens))

    def on_call(self, E, fr, blk, st, path, fn, args):
        if path.endswith("::tokens::tokenize") and GW in st.mem:
            g = list(st.mem[GW].fields)
            if g[TOK].f == TRUE:
                self.fail(E, "twice", "the compounds are tokenized twice")
            if E.content(st, args[0]) != self.vec.term or not isinstance(args[1], Lin):
                self.fail(E, "source", "what's tokenized isn't the compounds of the composite")
                return None
            g[TOK], g[MAXW] = T, args[1]
            st.mem[GW] = Agg("ghost", None, g)
            ety = next(i for i, t in enumerate(self.P.types) if t.get("path") == self.tk)
            return [(st, VecV(self.tokens, self.ntokens(E), (), ety))]
        if norm(path) in ("Index::index", "slice::get") and GW in st.mem and isinstance(args[1], Lin):
            r, vec = models.vec_at(E, st, args[0], None)
            if vec is not None and vec.term == self.tokens and r is not None:
                i, cur = args[1], st.mem[GW].fields[CUR]
                if E.entails_eq0(st, i - cur - 1) and E.entails(st, vec.len - i - 1):
                    ref = Ref(r.root, r.path + (("e", i, self.tty()),), self.tty())
                    return [(s, ref if norm(path) == "Index::index" else models.some(ref)) for s in self.on_item(E, st, r, i, E.read(st, ref.root, ref.path, ref.ty), False)]
            return None
        if norm(path) == "Vec::push" and GW in st.mem:
            r, vec = models.vec_at(E, st, args[0], None)
            v = args[1]
            p = v.path if isinstance(v, Agg) else self.P.types[v.ty].get("path") if isinstance(v, Sym) and v.ty is not None else None
            if p == self.cpath:
                self.push_compound(E, st, vec, v)
            elif p == FC:
                self.push_composite(E, st, vec, v)
        return None

    def get(self, E, st, i, name):
        t = E.elem(st, VecV(self.tokens, self.ntokens(E), (), self.tty()), i, self.tty())
        return E.proj(st, t, self.f[name])

    def tty(self):
        return next(i for i, t in enumerate(self.P.types) if t.get("path") == self.tk)

    def text(self, E, st, i):
        """the text of token i"""
        c = self.get(E, st, i, "compound")
        t = E.content(st, E.proj(st, c, self.csrc))
        s, e = self.get(E, st, i, "start_in_compound"), self.get(E, st, i, "end_in_compound")
        return E.subvec(st, VecV(t, E.nat(("len", t))), s, e), s, e

    def on_item(self, E, st, r, i, x, back):
        v = x
        while isinstance(v, Ref):
            v = E.read(st, v.root, v.path, v.ty)
        if GW not in st.mem or not (isinstance(v, (Sym, Agg)) and index_in(E.termof(v), self.tokens) is not None):
            return [st]
        if back:
            self.fail(E, "order", "the tokens aren't taken in order")
            return [st]
        f = list(st.mem[GW].fields)
        if not E.entails_eq0(st, i - f[CUR] - 1):
            self.fail(E, "order", "the tokens aren't all taken, in order")
        self.settle(E, st, f)
        f[CUR], f[PEND] = i, T
        w = self.get(E, st, i, "width")
        tx, s, e = self.text(E, st, i)
        src = tx.term[1] if tx.term[0] == "sub" else tx.term
        for l in (s, e - s - 1, E.nat(("len", src)) - e):
            E.add_ge(st, l, False)
        E.add_eq(st, w - E.nat(("width", tx.term)))
        out = []
        for s0, blank in self.split(E, st, self.get(E, st, i, "blank")) if self.what == "text" else [(st, False)]:
            for wide in (False, True) if self.what == "width" else (None,):
                s2 = s0.copy()
                if wide is None:
                    g = list(f)
                    g[PBLANK] = T if blank else F
                    s2.mem[GW] = Agg("ghost", None, g)
                    out.append(s2)
                    continue
                if not E.add_ge(s2, w - f[MAXW] - 1 if wide else f[MAXW] - w) or not E.feasible(s2, []):
                    continue
                g = list(f)
                g[PWIDE] = T if wide else F
                s2.mem[GW] = Agg("ghost", None, g)
                out.append(s2)
        return out

    def split(self, E, st, b):
        k = E.truth(st, E.asf(b))
        if k is not None:
            return [(st, k)]
        return [(s, v) for v in (True, False) for s in E.assume(st.copy(), E.asf(b), v)]

    def settle(self, E, st, f):
        """the last token, if it wasn't placed, is dropped: it must be blank"""
        if f[PEND].f == TRUE:
            if f[PBLANK].f != TRUE and self.what == "text":
                self.fail(E, "dropped", "a token which isn't blank may be dropped")
            if self.what == "text":
                f[GAP] = T
        f[PEND], f[PBLANK], f[PWIDE] = F, F, F

    def push_compound(self, E, st, vec, v):
        f = list(st.mem[GW].fields)
        if f[TOK].f != TRUE:
            return
        if E.recording is not False:
            self.events += 1
        if f[PEND].f != TRUE:
            self.fail(E, "again", "a token may be written twice")
            return
        tx, s, e = self.text(E, st, f[CUR])
        t = self.get(E, st, f[CUR], "compound")
        for x in self.cfields:
            got = E.content(st, E.proj(st, v, x))
            if x is self.csrc:
                if got != tx.term:
                    self.fail(E, "text", "what's added to a line isn't the text of the token")
            elif got != E.content(st, E.proj(st, t, x)):
                self.fail(E, "style", "a wrapped part loses its style (%s)" % x[4])
        new = vec is not None and E.entails_eq0(st, vec.len)
        if vec is None or not (new or E.entails_eq0(st, vec.len - f[COUNT])):
            self.fail(E, "line", "a token isn't added at the end of the line under construction")
            return
        if f[GAP].f == TRUE and not new:
            self.fail(E, "joined", "a blank may be dropped elsewhere than at a change of line, joining two words")
        if new and f[EMPTY].f != TRUE:
            if f[HASOLD].f == TRUE:
                self.fail(E, "lost", "a line may be lost")
            f[HASOLD], f[OLD], f[OWIDE], f[OEMPTY], f[OSUM] = T, f[COUNT], f[LWIDE], f[EMPTY], f[SUM]
            f[COUNT], f[SUM] = Lin(0), Lin(0)
        if new or f[LWIDE].f == TRUE and not E.entails_eq0(st, self.get(E, st, f[CUR], "width")):
            f[LWIDE] = f[PWIDE] if new else F
        f[COUNT] = f[COUNT] + 1
        if self.what == "width":
            f[SUM] = f[SUM] + self.get(E, st, f[CUR], "width")
        f[EMPTY], f[PEND], f[GAP], f[PBLANK], f[PWIDE] = F, F, F, F, F
        st.mem[GW] = Agg("ghost", None, f)

    def push_composite(self, E, st, vec, v):
        f = list(st.mem[GW].fields)
        if E.recording is not False:
            self.events += 1
        vl = E.proj(st, v, self.fc["visible_length"])
        cs = E.proj(st, v, self.fc["compounds"])
        kind = E.proj(st, v, self.fc["kind"])
        if vec is None or not E.entails_eq0(st, vec.len - f[NPUSH]):
            self.fail(E, "result", "the lines aren't gathered in order")
        exempt = False
        total = None
        if f[TOK].f == TRUE:
            k = OLD if f[HASOLD].f == TRUE else COUNT
            if not isinstance(cs, VecV) or not E.entails_eq0(st, cs.len - f[k]):
                self.fail(E, "lost", "a line isn't made of the tokens added since the previous one")
            if k == OLD:
                exempt = f[OWIDE].f == TRUE or f[OEMPTY].f == TRUE
                total = f[OSUM]
                f[HASOLD], f[OLD], f[OWIDE], f[OEMPTY], f[OSUM] = F, Lin(0), F, F, Lin(0)
            else:
                exempt = f[LWIDE].f == TRUE or f[EMPTY].f == TRUE
                total = f[SUM]
                f[COUNT], f[LWIDE], f[EMPTY], f[SUM] = Lin(0), F, T, Lin(0)
        elif isinstance(cs, VecV) and cs.len.is_const():
            total = Lin(0)
            for j in range(cs.len.c):
                total = total + E.nat(("width", E.content(st, E.proj(st, E.elem(st, cs, Lin(j), self.cty), self.csrc))))
        if self.what == "width":
            p = self.prefix(E, st, kind)
            if total is None or p is None or not E.entails_eq0(st, vl - p - total):
                self.fail(E, "measure", "a line isn't as wide as announced: %s for %s of text and the mark %s" % (
                    E.showlin(vl), total and E.showlin(total), p and E.showlin(p)))
        if self.what == "width" and not exempt and not E.entails(st, self.width - vl):
            self.fail(E, "wide", "a line may be wider than the width (visible length: %s)" % E.showlin(vl))
        if self.what == "text":
            self.looks(E, st, f, v, kind)
        f[FIRST] = F
        f[NPUSH] = f[NPUSH] + 1
        st.mem[GW] = Agg("ghost", None, f)

    def prefix(self, E, st, kind):
        vi = E.variant_of(st, kind)
        if vi is None:
            return None
        return prefix_width(self.P, E, st, kind, self.P.adts[KIND]["variants"][vi]["name"], vi, self.case[3])

    def looks(self, E, st, f, v, kind):
        names = [x["name"] for x in self.P.adts[KIND]["variants"]]
        vi = E.variant_of(st, kind)
        kn = self.case[0]
        want = kn if f[FIRST].f == TRUE or kn != "ListItem" else "ListItemFollowUp"
        if vi is None or names[vi] != want:
            self.fail(E, "kind", "a wrapped line doesn't have the kind of its position")
        elif want in ("ListItem", "ListItemFollowUp", "Header") and \
                E.content(st, E.proj(st, kind, ("f", 0, vi, None, "0"))) != self.case[1]:
            self.fail(E, "level", "a wrapped line doesn't have the level of the composite")
        if E.content(st, E.proj(st, v, self.fc["spacing"])) != self.case[2]:
            self.fail(E, "spacing", "a wrapped line doesn't keep the spacing of the composite")

    def finish(self, E, st, res):
        f = list(st.mem[GW].fields)
        if f[TOK].f == TRUE:
            self.settle(E, st, f)
            if f[EMPTY].f != TRUE or f[HASOLD].f == TRUE:
                self.fail(E, "last", "the last line may be lost")
            if not E.entails_eq0(st, f[CUR] + 1 - self.ntokens(E)):
                self.fail(E, "all", "some tokens may not be examined")
        if not isinstance(res, VecV) or not E.entails_eq0(st, res.len - f[NPUSH]):
            self.fail(E, "result", "what's returned isn't the lines built")
            return
        if f[TOK].f != TRUE:
            self.direct(E, st, res)

    def direct(self, E, st, res):
        """without tokenization: whole compounds, in order, only whitespace ones dropped"""
        seq = []
        for k in range(len(res.writes)):
            v = E.elem(st, res, Lin(k), res.ety)
            cs = E.proj(st, v, self.fc["compounds"])
            if not isinstance(cs, VecV) or not cs.len.is_const():
                self.fail(E, "direct", "the compounds of a line can't be followed")
                return
            for j in range(cs.len.c):
                x = E.content(st, E.elem(st, cs, Lin(j), self.cty))
                seq.append((k, j, x))
        i = 0
        n = self.vec.len
        ne = next((k for k in range(7) if E.entails_eq0(st, n - k)), None)
        if ne is None:
            self.fail(E, "direct", "lines are built without knowing the number of compounds")
            return
        for k, j, x in seq:
            while i < ne and E.content(st, E.elem(st, self.vec, Lin(i), self.vec.ety)) != x:
                if j != 0:
                    self.fail(E, "joined", "a compound is dropped elsewhere than at a change of line")
                self.white(E, st, i)
                i += 1
            if i == ne:
                self.fail(E, "direct", "a line isn't made of the compounds of the composite, in order")
                return
            i += 1
        while i < ne:
            self.white(E, st, i)
            i += 1

    def white(self, E, st, i):
        s = E.content(st, E.proj(st, E.elem(st, self.vec, Lin(i), self.vec.ety), self.csrc))
        if st.bs.get(("allchars", s, "is_whitespace", False)) or E.entails_eq0(st, E.nat(("len", ("trim", s)))):
            return
        self.fail(E, "white", "a compound which isn't only whitespace may be dropped")


def wrap_cases(c, P):
    b = fn_named(c, P, "wrap::hard_wrap_composite")
    r = Run1(P, b, c)
    E = r.E
    fc, sk = E.toref(r.by["FmtComposite"]), E.toref(r.by["MadSkin"])
    kp = place(P, FC, "kind")
    kind = rd(E, r.init, fc, kp, kp[-1][3])
    for st, kn, ki, mn in kind_mode(P, E, r.init, kind, sk):
        yield b, kn, ki, mn


def analyse(c, P, b, kn, ki, mn, what):
    r = Run1(P, b, c, unroll=0, loop_each=False)
    E = r.E
    fc, sk = E.toref(r.by["FmtComposite"]), E.toref(r.by["MadSkin"])
    pl = {n: place(P, FC, n) for n in ("kind", "visible_length", "compounds", "spacing")}
    kind = rd(E, r.init, fc, pl["kind"], pl["kind"][-1][3])
    width = r.by["uint"]
    bad, n, ev = {}, 0, 0
    for st, kn2, ki2, mn2 in list(kind_mode(P, E, r.init, kind, sk)):
        if (kn2, mn2) != (kn, mn):
            continue
        vec = rd(E, st, fc, pl["compounds"], pl["compounds"][-1][3])
        lvl = E.content(st, E.proj(st, kind, ("f", 0, ki, None, "0")))
        sp = E.content(st, rd(E, st, fc, pl["spacing"], pl["spacing"][-1][3]))
        w = Wrap(c, P, width, vec, (kn, lvl, sp, mn), what)
        E.on_call, E.on_item, E.loop_facts, E.loop_part = w.on_call, w.on_item, w.facts, w.part
        E.add_ge(st, width - prefix_width(P, E, st, kind, kn, ki, mn))
        w.start(st)
        for s, v in E.call_body(st, b, list(r.args)):
            vi = E.variant_of(s, v)
            if vi is None:
                w.fail(E, "ret", "returned value can't be followed")
            elif vi == 1:
                if not E.entails(s, Lin(2) - width):
                    w.fail(E, "err", "an error is returned for a width of 3 or more")
            else:
                if not E.entails(s, width - 3):
                    w.fail(E, "narrow", "wrapping succeeds with a width less than 3")
                w.finish(E, s, E.proj(s, v, ("f", 0, 0, None, "0")))
            n += 1
        bad.update(w.bad)
        ev += w.events
    return n, bad, ev



def wrapped(c, what):
    P = c.prog()
    cases = list(wrap_cases(c, P))
    for (b, kn, ki, mn), (n, bad, ev) in zip(cases, fw.pmap(lambda x: analyse(c, P, *x, what), cases)):
        c.count("paths", n)
        c.count("events", ev)
        c.count("cases")
        for k, x in bad.items():
            if (k in WIDTHS) == (what == "width"):
                c.violate("wrap:%s" % k, "%s:%d hard_wrap_composite (%s, %s): %s" % (b.file, b.line, kn, mn, x))
    c.floor("cases", 12)
    c.floor("paths", 24)


# the failures of the bookkeeping (a token which isn't taken, a line lost...) concern the text
WIDTHS = ("wide", "measure", "narrow", "err", "ret")


def w01(c):
    wrapped(c, "width")


def w02(c):
    wrapped(c, "text")


LINE = "termimad::line::FmtLine"
GL = ("GH", "lines")
LCUR, LPUSH, LPEND, LWR, LIDX = range(5)


class Lines:
    """specification variables: index of the last source line taken, number of lines pushed, is the last line taken still to
    be placed, was it wrapped (and its composites are being placed), number of its composites placed"""

    def __init__(self, P, src, width, skin):
        self.P, self.src, self.width, self.skin = P, src, width, skin
        self.bad = {}
        self.events = 0
        self.fc = {n: fidx(P, FC, n) for n in ("kind", "visible_length")}
        self.vi = {x["name"]: i for i, x in enumerate(P.adts[LINE]["variants"])}
        self.normal = P.adts[LINE]["variants"][self.vi["Normal"]]["fields"][0]
        self.fcty = self.normal["ty"]
        self.lty = next(i for i, t in enumerate(P.types) if t.get("path") == LINE)

    def fail(self, E, key, text):
        if E.recording is not False:
            self.bad.setdefault(key, text)

    def start(self, st):
        st.mem[GL] = Agg("ghost", None, (Lin(-1), Lin(0), F, F, Lin(0)))

    def part(self, E, st):
        g = st.mem.get(GL)
        return () if g is None else tuple(x.f for x in g.fields if isinstance(x, BoolV))

    def facts(self, E, st):
        g = st.mem.get(GL)
        if g is None:
            return {}
        f = g.fields
        out = {}
        for root, v in list(st.mem.items()):
            if isinstance(v, VecV) and v.ety is not None and self.P.types[v.ety].get("path") == LINE:
                out[root, "n"] = v.len - f[LPUSH]
            if isinstance(v, Agg) and v.path in ("m:own", "m:slice") and all(isinstance(x, Lin) for x in v.fields[1:]):
                out[root, "it"] = v.fields[1] - f[LCUR] - 1
                out[root, "in"] = v.fields[1] - f[LIDX]
        if f[LWR].f == TRUE:
            out["done"] = self.wrapped(E, f[LCUR]).len - f[LIDX]
        return out

    def line(self, E, st, i):
        return E.elem(st, VecV(self.src.term, self.src.len, (), self.lty), i, self.lty)

    def comp(self, E, st, i):
        return E.proj(st, self.line(E, st, i), ("f", 0, self.vi["Normal"], self.fcty, "0"))

    def margins(self, E, st, i):
        k = ("margins", E.content(st, E.proj(st, self.comp(E, st, i), self.fc["kind"])))
        return E.nat(("left", k)), E.nat(("right", k))

    def wrapped(self, E, i):
        t = ("wrapped", i)
        return VecV(t, E.nat(("len", t)), (), self.fcty)

    def on_call(self, E, fr, blk, st, path, fn, args):
        if GL not in st.mem:
            return None
        f = list(st.mem[GL].fields)
        if path.endswith("::line_style"):
            return [(st, Ref(("d", ("ls", E.content(st, args[1]))), (), None))] if len(args) == 2 else None
        if path.endswith("::margins_in"):
            r = E.toref(args[0])
            w = args[1]
            w0 = E.proj(st, w, ("f", 0, 1, None, "0"))
            if r is None or not isinstance(r.root[1], tuple) or r.root[1][0] != "ls" or E.variant_of(st, w) != 1 or \
                    not isinstance(w0, Lin) or not E.entails_eq0(st, w0 - self.width):
                self.fail(E, "margins", "the margins aren't those of the line, in the width available")
                return None
            k = ("margins", r.root[1][1])
            left, right = E.nat(("left", k)), E.nat(("right", k))
            # proven by R04
            E.add_ge(st, self.width - left - right)
            return [(st, Agg("()", None, (left, right)))]
        if path.endswith("::hard_wrap_composite"):
            fc = E.content(st, args[0])
            if E.recording is not False:
                self.events += 1
            left, right = self.margins(E, st, f[LCUR])
            c = self.comp(E, st, f[LCUR])
            if f[LPEND].f != TRUE or fc != E.content(st, c):
                self.fail(E, "source", "what's wrapped isn't the current line")
            vl = E.proj(st, c, self.fc["visible_length"])
            if not E.entails(st, vl + left + right - self.width - 1):
                self.fail(E, "fits", "a line fitting the width may be wrapped")
            if not isinstance(args[1], Lin) or not E.entails_eq0(st, args[1] - (self.width - left - right)):
                self.fail(E, "width", "a line isn't wrapped to the width minus its margins")
            s2 = st.copy()
            g = list(f)
            g[LPEND], g[LWR], g[LIDX] = F, T, Lin(0)
            s2.mem[GL] = Agg("ghost", None, g)
            RES = "core::result::Result"
            return [(s2, Agg(RES, 0, (self.wrapped(E, f[LCUR]),))), (st, Agg(RES, 1, (Sym(("wraperror",), None),)))]
        if norm(path) == "Vec::push":
            r, vec = models.vec_at(E, st, args[0], None)
            if vec is not None and vec.ety is not None and self.P.types[vec.ety].get("path") == LINE:
                self.push(E, st, vec, args[1], f)
        return None

    def push(self, E, st, vec, v, f):
        if E.recording is not False:
            self.events += 1
        if not E.entails_eq0(st, vec.len - f[LPUSH]):
            self.fail(E, "order", "the lines aren't gathered in order")
        got = E.content(st, v)
        cur = self.line(E, st, f[LCUR])
        if f[LPEND].f == TRUE:
            f[LPEND] = F
            left, right = self.margins(E, st, f[LCUR])
            vi = None
            for s1, name, k in split_enum(E, self.P, st.copy(), cur, LINE):
                if name == "Normal":
                    vi = k
                    if not E.entails(s1, self.width - left - right -
                                     E.proj(s1, self.comp(E, s1, f[LCUR]), self.fc["visible_length"])):
                        self.fail(E, "toowide", "a line may be kept whole while it doesn't fit the width with its margins")
            if got == E.content(st, cur):
                pass
            elif vi == self.vi["Normal"] and E.variant_of(st, v) == vi and \
                    E.content(st, E.proj(st, v, ("f", 0, vi, self.fcty, "0"))) == E.content(st, self.comp(E, st, f[LCUR])):
                pass
            else:
                self.fail(E, "changed", "a line which needn't be wrapped is changed")
        elif f[LWR].f == TRUE:
            w = self.wrapped(E, f[LCUR])
            if E.variant_of(st, v) != self.vi["Normal"] or E.content(st, E.proj(st, v, (
                    "f", 0, self.vi["Normal"], self.fcty, "0"))) != E.content(st, E.elem(st, w, f[LIDX] - 1, self.fcty)):
                self.fail(E, "wrapped", "a wrapped line isn't replaced by its parts, in order")
        else:
            self.fail(E, "twice", "a line may be given twice")
        f[LPUSH] = f[LPUSH] + 1
        st.mem[GL] = Agg("ghost", None, f)

    def settle(self, E, st, f):
        if f[LPEND].f == TRUE:
            self.fail(E, "lost", "a line may be lost")
        if f[LWR].f == TRUE and not E.entails_eq0(st, self.wrapped(E, f[LCUR]).len - f[LIDX]):
            self.fail(E, "parts", "parts of a wrapped line may be lost")
        f[LPEND], f[LWR], f[LIDX] = F, F, Lin(0)

    def on_item(self, E, st, r, i, x, back):
        v = x
        while isinstance(v, Ref):
            v = E.read(st, v.root, v.path, v.ty)
        if GL not in st.mem or not isinstance(v, (Sym, Agg)):
            return [st]
        t = E.termof(v)
        f = list(st.mem[GL].fields)
        if index_in(t, self.src.term) is not None:
            if back or not E.entails_eq0(st, i - f[LCUR] - 1):
                self.fail(E, "order", "the lines aren't all taken, in order")
            self.settle(E, st, f)
            f[LCUR], f[LPEND] = i, T
        elif t[0] == "e" and isinstance(t[1], tuple) and t[1][0] == "wrapped":
            if back or not E.entails_eq0(st, i - f[LIDX]):
                self.fail(E, "wrapped", "the parts of a wrapped line aren't taken in order")
            f[LIDX] = i + 1
        else:
            return [st]
        st.mem[GL] = Agg("ghost", None, f)
        return [st]

    def finish(self, E, st, res):
        f = list(st.mem[GL].fields)
        self.settle(E, st, f)
        if not E.entails_eq0(st, f[LCUR] + 1 - self.src.len):
            self.fail(E, "lost", "some lines may not be examined")
        if not isinstance(res, VecV) or not E.entails_eq0(st, res.len - f[LPUSH]):
            self.fail(E, "result", "what's returned isn't the lines gathered")


def w03(c):
    P = c.prog()
    b = fn_named(c, P, "wrap::hard_wrap_lines")
    r = Run1(P, b, c, unroll=0, loop_each=False)
    E = r.E
    src = next(a for a in r.args if isinstance(a, VecV))
    w = Lines(P, src, r.by["uint"], r.by["MadSkin"])
    E.on_call, E.on_item, E.loop_facts, E.loop_part = w.on_call, w.on_item, w.facts, w.part
    st = r.init.copy()
    w.start(st)
    for s, v in E.call_body(st, b, list(r.args)):
        c.count("paths")
        vi = E.variant_of(s, v)
        if vi == 0:
            w.finish(E, s, E.proj(s, v, ("f", 0, 0, None, "0")))
        elif vi == 1:
            if "wraperror" not in repr(E.content(s, v)):
                w.fail(E, "error", "an error is returned which isn't one of a line which can't be wrapped")
        else:
            w.fail(E, "ret", "what's returned can't be followed")
    c.count("events", w.events)
    c.floor("events", 4)
    c.floor("paths", 2)
    for k, x in w.bad.items():
        c.violate("lines:%s" % k, "%s:%d hard_wrap_lines: %s" % (b.file, b.line, x))
