"""What fits in a width: StrFit, CropWriter, Filling, tokens (C..)."""
import absint, models
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import OPT, NONE, some, norm, runs
from render import Run1, Wr, rd, fidx, place, showruns, norm_runs, equal_runs, same_text, SPACE
from skin import CS, os_field, show
from outmod import chkey, canon, RAW

GH = ("GH", "chars")
TAB, BS = 9, 8


class Ghost:
    """specification variables carried along the iteration over the chars of a string: end of the chars consumed (bytes),
    their number, their width, whether there's a tab among them; and the same before the last consumed char"""
    N = 4

    def __init__(self, tab=2, bs=-1):
        self.tab, self.bs = tab, bs

    def on_chars(self, E, st, v):
        z = (Lin(0), Lin(0), Lin(0), BoolV(FALSE))
        st.mem[GH] = Agg("ghost", None, z + z + (Sym(v.term, None),))

    def on_char(self, E, st, src, pos, l, c, back):
        g = st.mem.get(GH)
        if g is None or g.fields[8] != src or back:
            st.mem.pop(GH, None)
            return [st]
        out = []
        cur = g.fields[4:8]
        if not E.entails_eq0(st, pos - cur[0]):
            st.mem.pop(GH, None)
            return [st]
        for s, w, t in self.widths(E, st, c):
            s.mem[GH] = Agg("ghost", None, cur + (cur[0] + l, cur[1] + 1, cur[2] + w, BoolV(TRUE) if t else cur[3], src))
            out.append(s)
        return out

    def widths(self, E, st, c):
        """[(state, width of c by the documented rules, is it a tab)]"""
        out = []
        if self.tab is not None:
            s = st.copy()
            if E.add_eq(s, c - TAB) and E.feasible(s, []):
                out.append((s, Lin(self.tab), True))
        if self.bs is not None:
            s = st.copy()
            if E.add_eq(s, c - BS) and E.feasible(s, []):
                out.append((s, Lin(self.bs), False))
        rest = [st.copy()]
        for k, v in ((self.tab, TAB), (self.bs, BS)):
            if k is not None:
                rest = [s for r in rest for s in E.assume(r, E.cmp("Ne", c, Lin(v)), True)]
        for s in rest:
            t = ("cwidth", E.content(s, c))
            d = E.atom(("disc", ("cwidthopt", t)))
            for i in (0, 1):
                s2 = s.copy()
                if E.add_eq(s2, d - i) and E.feasible(s2, []):
                    out.append((s2, E.atom(t, None, 0, 2) if i else Lin(0), False))
        return out


def ghost(st):
    """(before the last consumed char, now, source): each (bytes, chars, width, tab)"""
    g = st.mem.get(GH)
    if g is None:
        return None
    return g.fields[:4], g.fields[4:8], g.fields[8]


def fn_named(c, P, suffix):
    b = next((b for b in P.bodies.values() if b.kind == "fn" and b.path.endswith(suffix)), None)
    return c.need(b, suffix)


def strip_text(t):
    """the term of a text behind references and conversions"""
    while isinstance(t, tuple) and t:
        if t[0] in ("ref",) and isinstance(t[1], tuple) and t[1][0] == "S" and t[2] == ():
            t = t[1][1]
        elif t[0] == "agg" and t[1] == "alloc::borrow::Cow" and len(t[3]) == 1:
            t = t[3][0]
        elif t[0] in ("to_string", "to_owned", "into", "clone", "from", "into_owned") and len(t) == 2:
            t = t[1]
        elif t[0] == "*" and isinstance(t[1], tuple) and t[1][0] in ("S",):
            t = t[1][1]
        else:
            break
    return t


def slice_of(t, src):
    """(start, end) when t is a part of src (whole: None)"""
    if t == src:
        return (Lin(0), None)
    if isinstance(t, tuple) and len(t) == 4 and t[0] == "sub" and t[1] == src:
        return (t[2], t[3])
    return None


def tabs_done(t, rep="  "):
    """(text, True) when t is text with its tabs replaced by the replacement"""
    if isinstance(t, tuple) and len(t) == 4 and t[0] == "replace" and t[2] == ("lin", Lin(TAB)) and t[3] == ("str", rep):
        return t[1], True
    return t, False


class Fit:
    """a text cut from src: where it ends and what it covers, in the terms of the ghost"""

    def __init__(self, E, st, src_term, src_len, cols_max, text=None, end=None):
        self.err = None
        self.width = None
        g = ghost(st)
        if g is None or g[2].term != src_term:
            self.err = "the chars of the string aren't all examined in order"
            return
        prev, cur, _ = g
        self.replaced = False
        if text is not None:
            text, self.replaced = tabs_done(strip_text(text))
            sl = slice_of(text, src_term)
            if sl is None or sl[0] != Lin(0):
                self.err = "the text isn't the start of the string: %s" % absint.show(text)[:90]
                return
            end = sl[1] if sl[1] is not None else src_len
        self.end = end
        at = None
        for x in (prev, cur):
            if E.entails_eq0(st, end - x[0]):
                at = x
                if x is cur:
                    break
        if at is None:
            self.err = "the end of the text isn't at the end of the chars examined"
            return
        self.at = at
        self.width = at[2]
        full = E.entails_eq0(st, end - src_len)
        over = at is prev and E.entails(st, cur[2] - cols_max - 1)
        # a cut before the last examined char is right only if that char overflows
        if not full and not over:
            self.err = "the string is cut while the next char fits"
        if not E.entails(st, cols_max - at[2]):
            self.err = "the text is wider than the columns given"
        if text is not None and not self.replaced:
            if E.truth(st, at[3].f) is not False and E.truth(st, cur[3].f) is not False:
                self.err = "the text may contain a tab, which isn't replaced"


def cols_ok(E, st, w, cols):
    """cols == max(0, w)"""
    s = st.copy()
    if E.add_ge(s, w) and E.feasible(s, []) and not E.entails_eq0(s, cols - w):
        return False
    s = st.copy()
    if E.add_ge(s, -w - 1) and E.feasible(s, []) and not E.entails_eq0(s, cols):
        return False
    return True


def c01(c):
    c.rule = ("The loop over the chars is analysed with specification variables (bytes, columns and tabs of the chars consumed so "
              "far, by the documented widths), for which inductive invariants are inferred; on every path to a return the "
              "text or the byte count returned must end either at the end of the string or just before a char overflowing the "
              "columns, the columns returned must be the columns of that part, and it may hold no tab.")
    P = c.prog()
    for name in ("count_fitting", "make_string", "make_cow"):
        b = fn_named(c, P, "StrFit::" + name)
        g = Ghost()
        r = Run1(P, b, c, on_chars=g.on_chars, on_char=g.on_char, unroll=0)
        E = r.E
        s, mx = r.args[0], r.args[1]
        outs = c.need(r.go() or None, "a path of StrFit::" + name)
        for st, v in outs:
            src = E.content(st, s)
            ln = E.nat(("len", src))
            x0 = E.proj(st, v, ("f", 0, None, None, "0"))
            x1 = E.proj(st, v, ("f", 1, None, None, "1"))
            c.count("paths")
            if name == "count_fitting":
                f = Fit(E, st, src, ln, mx, end=x0)
            else:
                f = Fit(E, st, src, ln, mx, text=E.content(st, x0))
            if f.err is None and not cols_ok(E, st, f.width, x1):
                f.err = "the number of columns returned, %s, isn't the width of the text" % E.showlin(x1)
            if f.err:
                c.violate("fit:%s" % name, "%s:%d StrFit::%s: %s" % (b.file, b.line, name, f.err))
    c.floor("paths", 12)


# ------------------------------------------------------------------ C02: CropWriter
CW = "termimad::fit::crop_writer::CropWriter"
FILL = "termimad::fit::filling::Filling"


def filling_calls(P):
    """Filling::queue_* by their specification (C03): `len` times the char of the filling, in the style given"""
    f = os_field(P)

    def oc(E, fr, blk, st, path, fn, args):
        if not path.startswith(FILL) or path.split("::")[-1] not in ("queue_styled", "queue_unstyled"):
            return None
        if not E.out.is_dest(st, args[1]) or not isinstance(args[-1], Lin):
            return None
        me = E.toref(args[0])
        sty = RAW
        if path.endswith("queue_styled"):
            sty = E.content(st, rd(E, st, E.toref(args[2]), (f,), f[3]))
        s = st.copy()
        E.out.put(s, ("o", sty, ("filling", me.root, me.path)), args[-1])
        return [(s, models.ok(models.UNIT))]
    return oc


class Cropped:
    """a method of CropWriter on a symbolic writer"""

    def __init__(self, c, P, b, ghost):
        from outmod import Out
        self.P, self.b = P, b
        self.o = Out(P, on_call=filling_calls(P), on_chars=ghost.on_chars, on_char=ghost.on_char, unroll=0, max_states=400)
        self.E = E = self.o.E
        self.init = self.o.init()
        self.args = [E.mk(("arg", i + 1), b.locals[i + 1]["t"]) for i in range(b.argc)]
        self.me = E.toref(self.args[0])
        self.wp, self.ap, self.tp = (place(P, CW, x) for x in ("w", "allowed", "tab_replacement"))
        E.write(self.init, self.me.root, self.me.path + self.wp, self.o.dest())
        self.allowed = rd(E, self.init, self.me, self.ap, self.ap[-1][3])
        self.tabrep = E.content(self.init, rd(E, self.init, self.me, self.tp, self.tp[-1][3]))

    def arg(self, pred):
        return next((self.args[i] for i in range(1, self.b.argc) if pred(self.P.types[self.b.locals[i + 1]["t"]])), None)

    def go(self):
        return [(s, v) for s, v in self.E.call_body(self.init.copy(), self.b, list(self.args)) if self.E.variant_of(s, v) != 1]


def c02(c):
    c.rule = ("Each writing method of CropWriter is run on a symbolic writer whose destination is a buffer: on every success path "
              "the columns of what was written (counted by specification variables on the chars) are at most the columns allowed "
              "before, and `allowed` decreases by exactly them; strings are the longest fitting part of the text given (or the "
              "tab replacement), in the style given; fillings and repetitions write min(len, allowed) chars.")
    P = c.prog()
    bs = [b for b in P.bodies.values() if b.kind == "fn" and P.self_adt(b) == CW and b.reach]
    done = 0
    for b in sorted(bs, key=lambda b: b.path):
        name = b.path.split("::")[-1]
        a0 = P.types[b.locals[1]["t"]] if b.argc else {"k": ""}
        if a0["k"] != "ref" or not a0["mut"] or P.types[a0["ty"]].get("path") != CW:
            continue
        if name in ("queue_fg", "queue_bg"):
            continue
        done += 1
        cropped(c, P, b, name)
    c.count("methods", done)
    c.floor("methods", 11)
    c.floor("paths", 40)


def cropped(c, P, b, name):
    gentle = "_g_" in name
    g = Ghost() if not gentle else Ghost(tab=None, bs=None)
    r = Cropped(c, P, b, g)
    E = r.E
    cs = r.arg(lambda t: t["k"] == "ref" and P.types[t["ty"]].get("path") == CS)
    sty = RAW
    if cs is not None:
        f = os_field(P)
        sty = E.content(r.init, rd(E, r.init, E.toref(cs), (f,), f[3]))
    ch = r.arg(lambda t: t["k"] == "char")
    n = r.arg(lambda t: t["k"] == "uint")
    s = r.arg(lambda t: t["k"] == "str" or t["k"] == "ref" and P.types[t["ty"]]["k"] == "str" or t.get("path", "").endswith("::String"))
    fl = r.arg(lambda t: t["k"] == "ref" and P.types[t["ty"]].get("path") == FILL)
    outs = c.need(r.go() or None, "a success path of CropWriter::" + name)
    for st, v in outs:
        c.count("paths")
        got = norm_runs(E, st, r.o.runs(st))
        after = rd(E, st, r.me, r.ap, r.ap[-1][3])
        bad = None
        if not E.entails(st, after):
            bad = "`allowed` may underflow"
        if len(got) > 1:
            bad = "several texts are written: " + showruns(E, got)
        elif not got:
            if not E.entails_eq0(st, after - r.allowed):
                bad = "`allowed` changes while nothing is written"
            elif ch is not None:
                # only a char which doesn't leave a column may be dropped
                pass
            elif n is not None:
                if not E.entails_eq0(st, r.allowed) and not E.entails_eq0(st, n):
                    bad = "nothing is written"
            elif not E.entails_eq0(st, r.allowed):
                bad = "nothing is written while there are columns left"
        else:
            (u, k), = got
            if u[0] in ("o", "os", "on") and u[1] != sty:
                bad = "not written in the style given"
            elif u[0] == "o" and u[2][0] == "filling":
                if not E.entails_eq0(st, r.allowed - after - k):
                    bad = "`allowed` doesn't decrease by what's written"
                elif n is None and not E.entails_eq0(st, after) or n is not None and not \
                        (E.entails_eq0(st, k - n) or E.entails_eq0(st, after)):
                    bad = "fills %s columns" % E.showlin(k)
                want = fl is not None and ("filling",) + (lambda q: (q.root, q.path))(E.toref(fl))
                if want and u[2] != want:
                    bad = "not filled with the filling given"
            elif u[0] == "o" and ch is not None:
                w = E.atom(("cwidth", E.content(st, ch)), None, 0, 2)
                opt = E.atom(("disc", ("cwidthopt", ("cwidth", E.content(st, ch)))))
                if E.entails_eq0(st, opt):
                    w = Lin(0)
                if u[2] != chkey(canon(E, E.termof(ch))) or k != Lin(1):
                    bad = "another char is written: " + showruns(E, got)
                elif not E.entails_eq0(st, r.allowed - after - w):
                    bad = "`allowed` doesn't decrease by the width of the char"
                elif not E.entails(st, r.allowed - w):
                    bad = "the char is written while it doesn't fit"
                elif E.feasible_eq(st, ch - TAB):
                    bad = "a raw tab may be written"
            elif u[0] == "os":
                src = E.content(r.init, s) if s is not None else None
                text = u[2]
                base = tabs_done(strip_text(text))[0]
                if slice_of(base, src) is None and slice_of(base, r.tabrep) is not None and ch is not None:
                    src = r.tabrep
                    if E.feasible_ne(st, ch - TAB):
                        bad = "the tab replacement is written for another char"
                if slice_of(base, src) is None:
                    bad = "the text written isn't a part of the string: %s" % absint.show(text)[:90]
                elif gentle:
                    bad = bad or gentle_text(E, st, base, src, r.allowed, after)
                else:
                    f = Fit(E, st, src, E.nat(("len", src)), r.allowed, text=text)
                    if f.err is None and not cols_ok(E, st, f.width, r.allowed - after):
                        f.err = "`allowed` doesn't decrease by the width of what's written"
                    bad = bad or f.err
            else:
                bad = "writes " + showruns(E, got)
        if bad:
            c.violate("crop:%s:%s" % (name, bad.split(":")[0][:50]), "%s:%d CropWriter::%s: %s" % (b.file, b.line, name, bad))


def gentle_text(E, st, t, src, allowed, after):
    g = ghost(st)
    if g is None or g[2].term != src:
        return "the chars of the string aren't all counted"
    prev, cur, _ = g
    sl = slice_of(t, src)
    ln = E.nat(("len", src))
    end = sl[1] if sl[1] is not None else ln
    if sl[0] != Lin(0):
        return "the text isn't the start of the string"
    for x in (cur, prev):
        if E.entails_eq0(st, end - x[0]):
            full = E.entails_eq0(st, end - ln)
            if not full and not E.entails_eq0(st, x[1] - allowed):
                return "the string is cut before the allowed number of chars"
            if not E.entails_eq0(st, allowed - after - x[1]):
                return "`allowed` doesn't decrease by the number of chars written"
            return None
    return "the end of the text isn't at the end of the chars counted"


# ------------------------------------------------------------------ C03: Filling
def c03(c):
    c.rule = ("Filling::from_char is analysed (loop invariant on the repetition count): the filling string is N times the char, "
              "char_size its UTF-8 length. On a Filling of this form, queue_styled and queue_unstyled are run with their writer "
              "replaced by a buffer: the inferred invariant `written + remaining = len` gives exactly `len` chars, in the style "
              "given, whatever len and char; each slice is within the filling string.")
    P = c.prog()
    b = c.need(P.method(FILL, "from_char"), "Filling::from_char")
    fs = P.adts[FILL]["variants"][0]["fields"]
    si = next((i for i, f in enumerate(fs) if P.types[f["ty"]].get("path", "").endswith("::String")), None)
    ni = next((i for i, f in enumerate(fs) if P.types[f["ty"]]["k"] == "uint"), None)
    c.need(si if ni is not None else None, "the string and the char size of a Filling")
    r = Run1(P, b, c, unroll=0)
    E = r.E
    chars = None
    for st, v in c.need(r.go() or None, "a path of from_char"):
        c.count("obligations", 2)
        s = E.proj(st, v, ("f", si, None, fs[si]["ty"], fs[si]["name"]))
        n = E.proj(st, v, ("f", ni, None, fs[ni]["ty"], fs[ni]["name"]))
        rs = runs(s.term) if isinstance(s, VecV) else []
        k = None
        if len(rs) == 1 and rs[0][0] == ("ch", E.termof(r.args[0])):
            lo = [x for x in (1, 8, 16, 32, 64, 100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096) if E.entails_eq0(st, rs[0][1] - x)]
            k = lo[0] if lo else rs[0][1]
        if k is None:
            c.violate("filling:string", "%s:%d the filling string isn't a repetition of the char" % (b.file, b.line))
        if not E.entails_eq0(st, n - models.utf8len(E, st, r.args[0])):
            c.violate("filling:size", "%s:%d char_size isn't the number of bytes of the char" % (b.file, b.line))
        chars = k
    for name in ("queue_unstyled", "queue_styled"):
        b = c.need(P.method(FILL, name), "Filling::" + name)
        w = Wr(c, P, b, unroll=0)
        E = w.E
        me = E.toref(w.args[0])
        ch = E.atom(("fillchar",), None, 0, 0x10ffff)
        l = models.utf8len(E, None, ch)
        N = chars if isinstance(chars, int) else 1000
        t = models.unruns([(("ch", E.termof(ch)), Lin(N))])
        root_ty = P.types[b.locals[1]["t"]]["ty"]
        E.root_val(w.init, me.root, root_ty)
        E.write(w.init, me.root, me.path + (("f", si, None, fs[si]["ty"], fs[si]["name"]),), VecV(t, l.scale(N)))
        E.write(w.init, me.root, me.path + (("f", ni, None, fs[ni]["ty"], fs[ni]["name"]),), l)
        n = next(a for i, a in enumerate(w.args) if P.types[b.locals[i + 1]["t"]]["k"] == "uint")
        sty = RAW
        if name == "queue_styled":
            f = os_field(P)
            sty = E.content(w.init, rd(E, w.init, E.toref(w.by["CompoundStyle"]), (f,), f[3]))
        slices = []
        E.on_reps = lambda st, k: slices.append(E.entails(st, Lin(N) - k))
        for st, v in c.need(w.go() or None, "a success path of Filling::" + name):
            c.count("obligations")
            got = norm_runs(E, st, w.o.runs(st))
            if not equal_runs(E, st, got, [(("o", sty, chkey(E.termof(ch))), n)]):
                c.violate("filling:" + name, "%s:%d Filling::%s writes %s instead of `len` times its char" %
                          (b.file, b.line, name, showruns(E, got)))
        c.count("slices", len(slices))
        if not all(slices):
            c.violate("filling:%s:slice" % name, "%s:%d Filling::%s may slice its filling string out of its bounds" % (b.file, b.line, name))
    c.floor("obligations", 4)


# ------------------------------------------------------------------ C04: tokens
GT = ("GH", "tok")


def const_bool(E, st, v):
    return E.truth(st, E.asf(v)) if v is not None else None


def fold_flags(E, st, v, fl):
    """known flags become constants"""
    fs, ch = [], False
    for f in v.fields:
        n = f
        if isinstance(f, BoolV):
            k = E.truth(st, f.f)
            fl.append(k)
            if k is not None and f.f[0] != "c":
                n = BoolV(TRUE if k else FALSE)
        elif isinstance(f, Agg) and f.vi is None or isinstance(f, Agg) and v.path == OPT:
            n = fold_flags(E, st, f, fl)
        ch = ch or n is not f
        fs.append(n)
    return Agg(v.path, v.vi, fs, v.base, v.ty) if ch else v


def option_part(E, st):
    """partition of the loop states by the variants of the Options held by the locals, and the flags they hold"""
    out = []
    for root, v in st.mem.items():
        if root[0] in ("L", "GH") and isinstance(v, Agg) and (v.path == OPT and v.vi is not None or root[0] == "GH"):
            fl = []
            nv = fold_flags(E, st, v, fl)
            if nv is not v:
                st.mem[root] = nv
            out.append((repr(root), v.vi, tuple(fl)))
    return tuple(sorted(out))


def index_in(t, base):
    """the index i when the term t is inside the element i of the vector `base`"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "e" and t[1] == base:
            return t[2]
        for x in t:
            r = index_in(x, base)
            if r is not None:
                return r
    return None


IDX, START, LAST, END, LEN, NONE_, ONE, TWO, BLANK, LBLANK = range(10)


class Tok:
    """specification variables of the tokenization: index of the compound, start of the token under construction, start of
    its last char, end of the last char read, length of the source, is there no char in the token, is there exactly one,
    are there exactly two, blankness of the token, blankness of the last char"""

    def __init__(self, P, compounds, maxw):
        self.P, self.maxw = P, maxw
        self.vec = compounds
        self.bad = {}
        self.events = 0
        tk = next(p for p in P.adts if p.endswith("::tokens::Token"))
        self.tk = tk
        self.f = {n: fidx(P, tk, n) for n in ("compound", "blank", "width", "start_in_compound", "end_in_compound")}
        self.cty = self.f["compound"][3]

    def fail(self, E, key, text):
        if E.recording:
            self.bad.setdefault(key, text)

    def fresh(self, k, ln):
        z = Lin(0)
        no = BoolV(FALSE)
        return Agg("ghost", None, (k, z, z, z, ln, BoolV(TRUE), no, no, no, no))

    def start(self, st):
        st.mem[GT] = self.fresh(Lin(-1), Lin(0))

    def src(self, E, st, i):
        cv = E.elem(st, self.vec, i, self.vec.ety)
        t = E.content(st, E.proj(st, cv, self.cfield("src")))
        return VecV(t, E.nat(("len", t)))

    def cfield(self, name):
        t = self.P.types[self.vec.ety]
        for i, f in enumerate(self.P.adts[t["path"]]["variants"][0]["fields"]):
            if f["name"] == name:
                return ("f", i, None, f["ty"], name)

    def textwidth(self, E, st, src, lo, hi):
        return E.nat(("width", E.subvec(st, src, lo, hi).term))

    def facts(self, E, st):
        g = st.mem.get(GT)
        if g is None:
            return {}
        f = g.fields
        out = {"done": f[LEN] - f[END]}
        for root, v in list(st.mem.items()):
            if root[0] == "L" and isinstance(v, Agg) and str(v.path).startswith("m:char") and len(v.fields) == 3 and isinstance(v.fields[1], Lin):
                out[root, "pos"] = v.fields[1] - f[END]
            if root[0] == "L" and isinstance(v, Agg) and v.path == OPT and v.vi == 1 and isinstance(v.fields[0], Agg) \
                    and v.fields[0].path == self.tk:
                t = v.fields[0]
                x = {n: t.fields[i[1]] if i[1] < len(t.fields) else None for n, i in self.f.items()}
                s, e, w = x["start_in_compound"], x["end_in_compound"], x["width"]
                if isinstance(s, Lin) and isinstance(e, Lin) and isinstance(w, Lin):
                    out[root, "start"] = s - f[START]
                    out[root, "end"] = e - f[END]
                    i = index_in(E.content(st, x["compound"]), self.vec.term)
                    if i is not None:
                        out[root, "width"] = w - self.textwidth(E, st, self.src(E, st, i), s, e)
                    out[root, "max"] = ("ge", self.maxw - w)
        return out

    def settle(self, E, st, g):
        """the last char read, if no token was pushed since, is in the token under construction"""
        f = list(g.fields)
        if f[NONE_].f == TRUE or f[ONE].f == TRUE:
            return f
        if const_bool(E, st, f[BLANK]) is None or const_bool(E, st, f[BLANK]) != const_bool(E, st, f[LBLANK]):
            self.fail(E, "mixed", "a token may mix blanks and other chars")
        return f

    def on_chars(self, E, st, v):
        g = st.mem.get(GT)
        if g is None:
            return
        i = index_in(v.term, self.vec.term)
        if i is None:
            return
        self.finish(E, st, g)
        k = g.fields[IDX] + 1
        if E.recording:
            self.events += 1
        if not E.entails_eq0(st, i - k):
            self.fail(E, "order", "the compounds aren't tokenized one after the other")
        elif self.src(E, st, i).term != v.term:
            self.fail(E, "source", "what's tokenized isn't the source of the compound")
        st.mem[GT] = self.fresh(k, v.len)

    def on_char(self, E, st, src, pos, l, c, back):
        g = st.mem.get(GT)
        i = index_in(src.term, self.vec.term)
        if g is None or back or i is None:
            st.mem.pop(GT, None)
            return [st]
        if not E.entails_eq0(st, pos - g.fields[END]):
            self.fail(E, "skip", "a char isn't examined")
        f0 = self.settle(E, st, g)
        out = []
        code = E.proj(st, E.elem(st, self.vec, i, self.vec.ety), self.cfield("code"))
        ws = BoolV(("s", ("methods::is_whitespace", E.content(st, c))))
        for s1, isws in self.split(E, st, ws):
            for s2, iscode in self.split(E, s1, code):
                blank = BoolV(TRUE if isws and not iscode else FALSE)
                f = list(f0)
                first = f[NONE_].f == TRUE
                f[TWO] = f0[ONE]
                f[ONE] = BoolV(TRUE if first else FALSE)
                if first:
                    f[START], f[BLANK] = pos, blank
                f[NONE_], f[LAST], f[END], f[LBLANK] = BoolV(FALSE), pos, pos + l, blank
                s2.mem[GT] = Agg("ghost", None, f)
                out.append(s2)
        return out

    def split(self, E, st, b):
        k = E.truth(st, E.asf(b))
        if k is not None:
            return [(st, k)]
        out = []
        for v in (True, False):
            for s in E.assume(st.copy(), E.asf(b), v):
                out.append((s, v))
        return out

    def on_call(self, E, fr, blk, st, path, fn, args):
        if norm(path) != "Vec::push":
            return None
        v = args[1]
        if not isinstance(v, (Agg, Sym)) or not (isinstance(v, Agg) and v.path == self.tk or v.ty is not None and self.P.types[v.ty].get("path") == self.tk):
            return None
        g = st.mem.get(GT)
        if g is None:
            self.fail(E, "lost", "a token is pushed outside of the iteration on chars")
            return None
        if E.recording:
            self.events += 1
        get = lambda n: E.proj(st, v, self.f[n])
        s, e, w, b = get("start_in_compound"), get("end_in_compound"), get("width"), get("blank")
        f = list(g.fields)
        if f[NONE_].f == TRUE:
            self.fail(E, "empty", "an empty token is pushed")
            return None
        if not E.entails_eq0(st, s - f[START]):
            self.fail(E, "start", "a token doesn't start where the previous one ends")
        one = f[ONE].f == TRUE
        bl = f[BLANK]
        i = index_in(E.content(st, get("compound")), self.vec.term)
        if E.entails_eq0(st, e - f[END]):
            if not E.entails_eq0(st, f[END] - f[LEN]):
                self.fail(E, "cut", "a token may be ended without looking whether it could take the next char")
            self.settle(E, st, g)
            z = Lin(0)
            f[START], f[LAST] = f[END], z
            no = BoolV(FALSE)
            f[NONE_], f[ONE], f[TWO], f[BLANK], f[LBLANK] = BoolV(TRUE), no, no, no, no
        elif E.entails_eq0(st, e - f[LAST]) and not one:
            one = f[TWO].f == TRUE
            k1, k2 = const_bool(E, st, f[BLANK]), const_bool(E, st, f[LBLANK])
            if (k1 is None or k2 is None or k1 == k2) and not (i is not None and E.entails(
                    st, self.textwidth(E, st, self.src(E, st, i), s, f[END]) - self.maxw - 1)):
                self.fail(E, "cut", "a token may be ended while it could take the next char")
            f[START] = f[LAST]
            f[ONE], f[TWO], f[BLANK] = BoolV(TRUE), BoolV(FALSE), f[LBLANK]
        else:
            self.fail(E, "end", "a token doesn't end at the end of the chars read")
            return None
        comp = get("compound")
        cv = E.elem(st, self.vec, f[IDX], self.vec.ety)
        if i is None or not self.same_elem(E, st, E.content(st, comp), E.content(st, cv)):
            self.fail(E, "compound", "a token isn't attached to the compound it comes from")
        elif not isinstance(w, Lin) or not E.entails_eq0(st, w - self.textwidth(E, st, self.src(E, st, i), s, e)):
            self.fail(E, "width", "the width of a token isn't the one of its text")
        if not one and not E.entails(st, self.maxw - w):
            self.fail(E, "wide", "a token of several chars may be wider than the limit")
        if const_bool(E, st, b) is None or const_bool(E, st, b) != const_bool(E, st, bl):
            self.fail(E, "blank", "the blankness of a token isn't the one of its chars")
        st.mem[GT] = Agg("ghost", None, f)
        return None

    def same_elem(self, E, st, a, b):
        if a == b:
            return True
        i = index_in(a, self.vec.term)
        return isinstance(a, tuple) and len(a) == 3 and a[0] == "e" and a[1] == self.vec.term and \
            isinstance(b, tuple) and len(b) == 3 and b[0] == "e" and E.entails_eq0(st, i - b[2])

    def finish(self, E, st, g):
        if g.fields[NONE_].f != TRUE:
            self.fail(E, "last", "the last token of a compound isn't pushed")
        if not E.entails_eq0(st, g.fields[END] - g.fields[LEN]):
            self.fail(E, "rest", "the end of a compound isn't tokenized")


def c04(c):
    c.rule = ("tokenize is analysed with specification variables describing the token under construction; inductive invariants are "
              "inferred at both loop heads. Each token pushed must start where the previous one ends, end at the last char read (or "
              "just before it), have the width and the blankness of exactly these chars, hold the compound they come from; each "
              "source must be read and tokenized to its end; a token of more than one char is never wider than the limit.")
    P = c.prog()
    b = fn_named(c, P, "tokens::tokenize")
    r = Run1(P, b, c, unroll=0, loop_part=option_part, loop_each=False)
    E = r.E
    ref = E.toref(r.by["slice"])
    vec = E.read(r.init, ref.root, ref.path, P.types[b.locals[r.ix["slice"] + 1]["t"]]["ty"])
    t = Tok(P, vec, r.by["uint"])
    E.on_chars, E.on_char, E.on_call, E.loop_facts = t.on_chars, t.on_char, t.on_call, t.facts
    t.start(r.init)
    outs = c.need(r.go() or None, "a path of tokenize")
    for st, v in outs:
        c.count("return paths")
        g = st.mem.get(GT)
        if g is None:
            t.bad.setdefault("lost", "the iteration on the chars can't be followed")
            continue
        E.recording = True
        t.finish(E, st, g)
        if not E.entails_eq0(st, g.fields[IDX] + 1 - vec.len):
            t.bad.setdefault("compounds", "not all compounds are tokenized")
    for k, x in t.bad.items():
        c.violate("tokenize:" + k, "%s:%d tokenize: %s" % (b.file, b.line, x))
    c.count("pushes and sources checked", t.events)
    c.floor("pushes and sources checked", 3)
    c.floor("return paths", 1)
