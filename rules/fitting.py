"""Fitting composites (F01): what's removed is replaced by ellipses, what remains is as it was.

Fitter::fit is interpreted on composites of 0, 1, 2... compounds with arbitrary contents, the removal of the middle of a
zone (Zone::cut, looked at apart) being replaced by an arbitrary number of gains; the compounds it leaves are
compared with the initial ones.
"""
import absint, fw
from absint import Agg, Sym, Ref, VecV, BoolV, Lin, TRUE, FALSE
from models import NONE, some, norm, UNIT, nxt
from render import Run1, place, split_enum
from seqs import Seqs
from views import panics

FC = "termimad::composite::FmtComposite"
FIT = "termimad::fit::composite_fit::Fitter"
ALIGN = "minimad::markdown::align::Alignment"
# the bounds of the slices of texts come from the positions of their chars
SKIP = ("overflow:Add", "slice")
GF = ("ghost", "cut")
FLAGS = ("bold", "italic", "code", "strikeout")
ELL = "…"


def adt(P, name):
    return next((p for p in P.adts if p.endswith("::" + name)), None)


def strip(t):
    while isinstance(t, tuple) and len(t) == 2 and t[0] in ("*", "S"):
        t = t[1]
    return t


class Comp:
    """the compounds, seen by a run"""

    def __init__(self, P, E, q):
        self.P, self.E, self.q = P, E, q
        self.path = next(p for p in P.adts if p.endswith("::Compound"))
        self.ty = next(i for i, t in enumerate(P.types) if t.get("path") == self.path)

    def make(self, st, n):
        ps = []
        for i in range(n):
            ps.append(self.q.item(st, self.E.mk(("cmp", i), self.ty)))
        return self.q.make(ps, self.ty)

    def orig(self, i):
        return self.E.mk(("cmp", i), self.ty)

    def get(self, st, x, f):
        return self.E.proj(st, x, place(self.P, self.path, f)[0])

    def src(self, st, x):
        return strip(self.E.content(st, self.get(st, x, "src")))

    def list(self, st, v):
        """the compounds of a vector, in order; None if they aren't known"""
        out = self.q.flat(st, v)
        if not out or len(out) != 1:
            return None
        res = []
        for u, n in out[0][1]:
            if u[0] != "it":
                return None
            res.append(self.q.vals[u[1]])
        return res

    def ellipsis(self, st, x):
        t = self.src(st, x)
        return t == ("str", ELL) and all(isinstance(self.get(st, x, f), BoolV) and self.get(st, x, f).f == FALSE for f in FLAGS)

    def which(self, st, x):
        """(index of the compound it's a part of, start, end), None if it isn't a part of a compound; the ends which are those of the
        compound being None"""
        t = self.src(st, x)
        for i in range(9):
            o = self.orig(i)
            s = self.src(st, o)
            lo = hi = None
            u, cut = t, []
            while isinstance(u, tuple) and u and u[0] == "sub" and u != s:
                cut.append((u, u[2], u[3]))
                u = strip(u[1])
            if u != s:
                continue
            for u, a, b in reversed(cut):
                base = u[1]
                if isinstance(b, Lin) and any(self.E.entails_eq0(st, b - self.E.nat(("len", x))) for x in (strip(base), base, ("*", strip(base)), ("S", strip(base)))) or \
                        hi is not None and isinstance(hi, Lin) and isinstance(b, Lin) and self.E.entails_eq0(st, hi - (lo or Lin(0)) - b):
                    pass
                else:
                    hi = (lo or Lin(0)) + b
                if a != Lin(0):
                    lo = (lo or Lin(0)) + a
            if all(self.E.content(st, self.get(st, x, f)) == self.E.content(st, self.get(st, o, f)) for f in FLAGS):
                return i, lo, hi
        return None


class Fit:
    def __init__(self, c, P, n, align, mid, name="fit"):
        self.c, self.P, self.n, self.align, self.mid = c, P, n, align, mid
        self.b = b = c.need(P.method(FIT, name), "Fitter::" + name)
        self.r = Run1(P, b, c, on_call=self.calls, unroll=6, max_states=600, adaptors=True, loop_part=self.part, unroll_for=self.turns, unroll_paths=60)
        self.E = E = self.r.E
        self.q = Seqs(E, P)
        self.k = Comp(P, E, self.q)
        st = self.st = self.r.init
        self.fc = E.toref(self.r.by["FmtComposite"])
        self.vp, self.cp, self.kp, self.sp = (place(P, FC, x)[0] for x in ("visible_length", "compounds", "kind", "spacing"))
        E.read(st, self.fc.root, self.fc.path, None)
        E.write(st, self.fc.root, self.fc.path + (self.cp,), self.k.make(st, n))
        self.before = E.read(st, self.fc.root, self.fc.path, None)
        me = [i for i in range(b.argc) if P.types[b.locals[i + 1]["t"]].get("path") == FIT or
              P.types[b.locals[i + 1]["t"]]["k"] == "ref" and P.types[P.types[b.locals[i + 1]["t"]]["ty"]].get("path") == FIT]
        c.need(me or None, "the fitter")
        self.me = me[0]
        fs = P.adts[FIT]["variants"][0]["fields"]
        al = next((i for i, v in enumerate(P.adts[ALIGN]["variants"]) if v["name"] == align), None)
        vals = []
        for f in fs:
            t = P.types[f["ty"]]
            if t.get("path") == ALIGN:
                vals.append(Agg(ALIGN, al, (), f["ty"]))
            elif t["k"] == "bool":
                vals.append(BoolV(TRUE if mid else FALSE))
            else:
                vals.append(E.mk(("fitter", f["name"]), f["ty"]))
        v = Agg(FIT, None, tuple(vals))
        self.args = list(self.r.args)
        if P.types[b.locals[self.me + 1]["t"]]["k"] == "ref":
            r = E.toref(self.args[self.me])
            E.write(st, r.root, r.path, v)
        else:
            self.args[self.me] = v
        ws = [a for i, a in enumerate(self.r.args) if isinstance(a, Lin)]
        self.max = c.need(ws or None, "the width to fit")[0]
        st.setg("cuts", 0)

    def part(self, E, st):
        return tuple((k, len(v.term[1]) if v.term[0] == "seq" else 0) for k, v in sorted(st.mem.items(), key=lambda x: repr(x[0]))
                     if isinstance(v, VecV) and v.ety == self.k.ty)

    def turns(self, E, fr, head, sts):
        """the loops on the chars of a compound have any number of turns"""
        return 0 if any(isinstance(v, VecV) and v.term[0] == "infos" for s in sts for v in s.mem.values()) else self.n + 2

    def calls(self, E, fr, blk, st, path, fn, args):
        n = norm(path)
        m = path.split("::")[-1]
        if n.startswith("Zone::") or "::Zone::" in path:
            if m == "cut":
                # either nothing, or a gain
                s = st.copy()
                g = E.nat(E.fresh("gain"))
                E.add_ge(s, g - 1)
                s.setg("cuts", 1)
                return [(st, Lin(0)), (s, g)]
            if m.startswith("biggest"):
                zt = adt(self.P, "Zone")
                ty = next(i for i, t in enumerate(self.P.types) if t.get("path") == zt)
                return [(st, NONE), (st.copy(), some(E.mk(E.fresh("zone"), ty)))]
        if m == "visible_composite_length":
            v = None
            r = E.toref(args[2])
            v = E.read(st, r.root, r.path, None) if r is not None else None
            if not isinstance(v, VecV):
                return None
            ks = self.k.list(st, v)
            t = ("vcl", E.content(st, args[1]), tuple(E.content(st, x) for x in ks) if ks is not None else E.content(st, v), st.g("cuts"))
            return [(st, E.nat(t))]
        if m == "str_char_infos":
            t = strip(E.content(st, args[0]))
            ct = next(i for i, x in enumerate(self.P.types) if x.get("path") == adt(self.P, "CharInfo"))
            if isinstance(t, tuple) and t[0] == "str":
                us = [f["name"] for f in self.P.adts[adt(self.P, "CharInfo")]["variants"][0]["fields"]]
                if set(us) == {"byte_idx", "width"}:
                    ps, at = [], 0
                    for ch in t[1]:
                        vs = {"byte_idx": Lin(at), "width": Lin(1) if ch == ELL else self.E.nat(("char width", ch))}
                        ps.append(self.q.item(st, Agg(adt(self.P, "CharInfo"), None, tuple(vs[u] for u in us), ct)))
                        at += len(ch.encode())
                    return [(st, self.q.make(ps, ct))]
            # (one char at least if there are bytes)
            ln = E.nat(("chars", t))
            n = E.nat(("len", t))
            out = []
            s = st.copy()
            if E.add_eq(s, n) and E.add_eq(s, ln):
                out.append((s, VecV(("infos", t), Lin(0), (), ct)))
            s = st.copy()
            if E.add_ge(s, ln - 1) and E.add_ge(s, n - ln):
                out.append((s, VecV(("infos", t), ln, (), ct)))
            return out
        return self.q.on_call(E, fr, blk, st, path, fn, args)

    def fail(self, what):
        self.c.violate("fit:%s:%s" % (self.align, what), "%s:%d fitting a composite%s: %s" % (
            self.b.file, self.b.line, "" if self.align == "Unspecified" else " aligned " + self.align.lower(), what))

    def check(self):
        E, P, c, k = self.E, self.P, self.c, self.k
        n = 0
        for s, _ in E.call_body(self.st.copy(), self.b, self.args):
            if not E.feasible(s, []):
                continue
            n += 1
            c.count("ends of fit")
            after = E.read(s, self.fc.root, self.fc.path, None)
            for p, w in ((self.kp, "kind"), (self.sp, "spacing")):
                if E.content(s, E.proj(s, after, p)) != E.content(s, E.proj(s, self.before, p)):
                    self.fail("the %s changes" % w)
            v0, v1 = E.proj(s, self.before, self.vp), E.proj(s, after, self.vp)
            ks = k.list(s, E.proj(s, after, self.cp))
            if ks is None:
                raise fw.Missing("the compounds left by fit")
            parts = [("…",) if k.ellipsis(s, x) else k.which(s, x) for x in ks]
            if None in parts:
                self.fail("what's left isn't made of parts of the compounds, in their style, and of ellipses")
                continue
            whole = [(i, None, None) for i in range(self.n)]
            same = parts == whole and not s.g("cuts")
            # the cases
            a = s.copy()
            if E.add_ge(a, self.max - v0) and E.feasible(a, []):
                c.count("fitting ones")
                if not same or not E.entails_eq0(a, v1 - v0):
                    self.fail("a composite which fits changes")
            b = s.copy()
            if not E.add_ge(b, v0 - self.max - 1) or not E.feasible(b, []):
                continue
            z = b.copy()
            if E.add_eq(z, self.max) and E.feasible(z, []):
                c.count("null widths")
                if parts or not E.entails_eq0(z, v1):
                    self.fail("a composite isn't empty with a null width")
            z = b.copy()
            if E.add_eq(z, self.max - 1) and E.feasible(z, []):
                c.count("widths of 1")
                if parts != [("…",)] or not E.entails_eq0(z, v1 - 1):
                    self.fail("a composite isn't an ellipsis with a width of 1")
            if not E.add_ge(b, self.max - 2) or not E.feasible(b, []):
                continue
            c.count("cut ones")
            want = E.nat(("vcl", E.content(s, E.proj(s, after, self.kp)), tuple(E.content(s, x) for x in ks), s.g("cuts")))
            if not isinstance(v1, Lin) or not E.entails_eq0(b, v1 - want):
                self.fail("the visible length isn't the one of what's left")
            if parts == whole:
                if not s.g("cuts"):
                    self.fail("a too wide composite isn't cut")
                continue
            left = bool(parts) and parts[0] == ("…",) and (self.align in ("Right", "Center"))
            mids = list(parts)
            if self.align == "Right":
                good = mids and mids.pop(0) == ("…",)
                lc, rc = True, False
            elif self.align == "Center":
                good = mids and mids.pop() == ("…",)
                lc = bool(mids) and mids[0] == ("…",)
                if lc:
                    mids.pop(0)
                rc = True
            else:
                good = mids and mids.pop() == ("…",)
                lc, rc = False, True
            if not good:
                self.fail("there's no ellipsis at the cut end")
                continue
            if ("…",) in mids:
                self.fail("there's an ellipsis where nothing is cut")
                continue
            ix = [x[0] for x in mids]
            if ix != list(range(ix[0], ix[0] + len(ix)) if ix else ()):
                self.fail("compounds are lost or moved")
                continue
            if mids and not lc and ix[0] != 0 or mids and not rc and ix[-1] != self.n - 1:
                self.fail("the wrong end is cut")
            for j, (i, lo, hi) in enumerate(mids):
                if lo is not None and not (lc and j == 0) or hi is not None and not (rc and j == len(mids) - 1):
                        self.fail("a compound is cut at the wrong end")
        c.need(n or None, "an end of fit")
        panics(c, E, "fit", SKIP)


class Cut:
    """Zone::cut"""

    def __init__(self, c, P, n, i):
        self.c, self.P, self.n, self.i = c, P, n, i
        zt = c.need(adt(P, "Zone"), "Zone")
        self.b = b = c.need(P.method(zt, "cut"), "Zone::cut")
        self.r = Run1(P, b, c, on_call=self.calls, unroll=0, max_states=400, loop_facts=self.facts)
        self.E = E = self.r.E
        self.q = Seqs(E, P)
        self.k = Comp(P, E, self.q)
        st = self.st = self.r.init
        z = E.toref(self.r.args[0])
        self.zp = {f["name"]: place(P, zt, f["name"])[0] for f in P.adts[zt]["variants"][0]["fields"]}
        E.read(st, z.root, z.path, None)
        E.write(st, z.root, z.path + (self.zp["compound_idx"],), Lin(i))
        self.zone = E.read(st, z.root, z.path, None)
        v = E.toref(self.r.args[1])
        self.v = v
        E.write(st, v.root, v.path, self.k.make(st, n))
        self.start = E.proj(st, self.zone, self.zp["byte_start_idx"])
        self.infos = E.proj(st, self.zone, self.zp["char_infos"])
        ci = c.need(adt(P, "CharInfo"), "CharInfo")
        self.cty = next(i for i, t in enumerate(P.types) if t.get("path") == ci)
        self.bp = c.need(place(P, ci, "byte_idx"), "the byte index of a char")[0]
        st.setg("m", False)

    def byte(self, st, i):
        """the byte index, in the compound, of a char of the zone"""
        E = self.E
        return self.start + E.proj(st, E.elem(st, self.infos, i, self.cty), self.bp)

    def facts(self, E, st):
        ls = [(r, x) for r, x in st.mem.items() if r[0] == "L" and isinstance(x, Lin)]
        out = {}
        for r, x in ls:
            out[r, "in"] = ("ge", x - 1)
            out[r, "out"] = ("ge", self.infos.len - 1 - x)
            for s, y in ls:
                if r != s:
                    out[r, s, "lt"] = ("ge", y - x - 1)
        if st.g("m") and GF in st.mem:
            lo, hi, w = st.mem[GF].fields
            for r, x in ls:
                out[r, "w"] = w - x
                if E.entails(st, x) and E.entails(st, self.infos.len - 1 - x):
                    y = self.byte(st, x)
                    out[r, "lo"] = lo - y
                    out[r, "hi"] = hi - y
        return out

    def calls(self, E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m == "width" and args:
            t = strip(E.content(st, args[0]))
            src = self.k.src(st, self.k.orig(self.i))
            w = E.nat(("width", t))
            if isinstance(t, tuple) and t[0] == "sub" and strip(t[1]) == src and isinstance(t[2], Lin) and isinstance(t[3], Lin):
                st.setg("m", True)
                st.mem[GF] = Agg("ghost", None, (t[2], t[3], w))
            return [(st, w)]
        return self.q.on_call(E, fr, blk, st, path, fn, args)

    def fail(self, what):
        self.c.violate("cut:%s" % what, "%s:%d removing the middle of a zone: %s" % (self.b.file, self.b.line, what))

    def info(self, st, l):
        """the index of the char a byte index is the one of"""
        E = self.E
        d = l - self.start
        ci = E.proj(st, self.zone, self.zp["char_infos"])
        if len(d.t) == 1 and d.c == 0 if hasattr(d, "t") else False:
            pass
        for a in range(len(E.A.terms)):
            t = E.A.terms[a]
            if isinstance(t, tuple) and t and t[0] == "f" and isinstance(t[1], tuple) and t[1][0] == "e" and t[-1] == "byte_idx" and t[1][1] == ci.term:
                if isinstance(t[1][2], Lin) and E.entails_eq0(st, d - E.nat(t)):
                    return t[1][2]
        return None

    def check(self):
        E, c, k = self.E, self.c, self.k
        ci = E.proj(self.st, self.zone, self.zp["char_infos"])
        for s, g in E.call_body(self.st.copy(), self.b, list(self.r.args)):
            c.count("ends of cut")
            ks = k.list(s, E.read(s, self.v.root, self.v.path, None))
            if ks is None:
                raise fw.Missing("the compounds left by cut")
            parts = [("…",) if k.ellipsis(s, x) else k.which(s, x) for x in ks]
            if None in parts:
                self.fail("what's left isn't made of parts of the compounds, in their style, and of an ellipsis")
                continue
            if parts == [(j, None, None) for j in range(self.n)]:
                if not E.entails_eq0(s, g):
                    self.fail("there's a gain but nothing is removed")
                continue
            i = self.i
            if len(parts) != self.n + 2 or parts[:i] != [(j, None, None) for j in range(i)] or \
                    parts[i + 3:] != [(j, None, None) for j in range(i + 1, self.n)] or parts[i + 1] != ("…",) or \
                    len(parts[i]) != 3 or len(parts[i + 2]) != 3 or parts[i][0] != i or parts[i + 2][0] != i or parts[i][1] is not None or parts[i + 2][2] is not None:
                self.fail("the compound of the zone isn't replaced by its head, an ellipsis and its tail")
                continue
            a, b = parts[i][2], parts[i + 2][1]
            if not isinstance(a, Lin) or not isinstance(b, Lin):
                self.fail("nothing is removed")
                continue
            x, y = self.info(s, a), self.info(s, b)
            if x is None or y is None:
                self.fail("the cut isn't between two chars of the zone")
                continue
            if not E.entails(s, y - x - 1):
                self.fail("the tail may not be after the head")
            if not E.entails(s, x - 1) or not E.entails(s, ci.len - 1 - y):
                self.fail("no char may be left at an end of the zone")
            src = k.src(s, k.orig(i))
            c.count("gains")
            lo, hi, w = s.mem[GF].fields if s.g("m") else (None, None, None)
            if w is None or not isinstance(g, Lin) or not E.entails_eq0(s, g - w + 1) or not E.entails_eq0(s, lo - a) or not E.entails_eq0(s, hi - b):
                self.fail("the gain isn't the width of what's removed minus the one of the ellipsis")
        panics(c, E, "cut", SKIP)


def zones(c, P, name):
    """the zones are parts of the compounds they say"""
    zt = c.need(adt(P, "Zone"), "Zone")
    b = c.need(P.method(zt, name), "Zone::" + name)
    ct = next(i for i, x in enumerate(P.types) if x.get("path") == adt(P, "CharInfo"))

    seen = []

    def look(st, z):
        if isinstance(z, (Agg,)) and z.path == zt:
            seen.append((st, z))

    def calls(E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m == "str_char_infos":
            t = strip(E.content(st, args[0]))
            n = E.nat(("chars", t))
            return [(st, VecV(("infos", t), n, (), ct))]
        if m == "width" and args:
            return [(st, E.nat(("width", strip(E.content(st, args[0])))))]
        if norm(path) == "Vec::push" and len(args) == 2:
            look(st, args[1])
        if m == "collect" and args and isinstance(args[0], Agg) and args[0].path.startswith("m:"):
            for s, _, x in nxt(E, fr, blk, st.copy(), args[0], None):
                if x is not None:
                    look(s, x)
        return None

    r = Run1(P, b, c, on_call=calls, unroll=0, max_states=400, adaptors=True)
    E = r.E
    k = Comp(P, E, Seqs(E, P))
    cr = E.toref(r.args[0])
    st = r.init
    base = E.read(st, cr.root, cr.path, None)
    f = {x["name"]: place(P, zt, x["name"])[0] for x in P.adts[zt]["variants"][0]["fields"]}
    where = "%s:%d " % (b.file, b.line)
    outs = r.go()
    for s, v in outs:
        if isinstance(v, VecV):
            for w, x in v.writes:
                look(s, x)
    c.need(seen or None, "a zone made by " + b.path)
    for s, z in seen:
        c.count("zones")
        i = E.proj(s, z, f["compound_idx"])
        t = E.content(s, E.proj(s, z, f["char_infos"]))
        a = E.proj(s, z, f["byte_start_idx"])
        if t[0] != "infos" or not isinstance(i, Lin) or not isinstance(a, Lin):
            c.violate("zone:%s:unknown" % name, where + "a zone isn't a known part of a compound")
            continue
        t = t[1]
        lo = Lin(0)
        if t[0] == "sub":
            lo, t = t[2], t[1]
        if not E.entails_eq0(s, a - lo):
            c.violate("zone:%s:start" % name, where + "a zone doesn't start where it says")
        cty = k.ty
        x = E.elem(s, base, i, cty)
        t, u = strip(t), k.src(s, x)
        same = t == u
        if not same and isinstance(t, tuple) and t[0] == "f" == u[0] and t[2:] == u[2:] and t[1][0] == "e" == u[1][0] and t[1][1] == u[1][1]:
            # the index may be another quantity with the same value
            j, m = t[1][2], u[1][2]
            same = isinstance(j, Lin) and isinstance(m, Lin) and E.entails_eq0(s, j - m)
        if not same:
            c.violate("zone:%s:compound" % name, where + "a zone isn't a part of the compound it says")


def infos(c, P):
    """the positions and widths of the chars of a text"""
    ci = c.need(adt(P, "CharInfo"), "CharInfo")
    cty = next(i for i, t in enumerate(P.types) if t.get("path") == ci)
    bs = [b for b in P.bodies.values() if b.path.endswith("::str_char_infos")]
    b = c.need(bs or None, "str_char_infos")[0]
    G = ("ghost", "char")

    def look(E, st, x):
        x = E.deref(st, x) if isinstance(x, Ref) else x
        c.count("chars looked at")
        i, w = (E.proj(st, x, place(P, ci, f)[0]) for f in ("byte_idx", "width"))
        pos, wid = st.mem[G].fields if G in st.mem else (None, None)
        if pos is None or not isinstance(i, Lin) or not E.entails_eq0(st, i - pos):
            c.violate("infos:position", "%s:%d the position of a char isn't the one in bytes" % (b.file, b.line))
        if wid is None or not isinstance(w, Lin) or not E.entails_eq0(st, w - wid):
            c.violate("infos:width", "%s:%d the width of a char isn't its one" % (b.file, b.line))

    def on_char(E, st, src, pos, l, ch, back):
        st.mem[G] = Agg("ghost", None, (pos, Lin(0)))
        return [st]

    def calls(E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m == "width" and len(args) == 1 and G in st.mem:
            s = st.copy()
            w = E.nat(E.fresh("char width"))
            s.mem[G] = Agg("ghost", None, (st.mem[G].fields[0], w))
            return [(st, NONE), (s, some(w))]
        if norm(path) == "Vec::push" and len(args) == 2:
            look(E, st, args[1])
        if m in ("collect", "extend") and args and isinstance(args[-1], Agg) and args[-1].path.startswith("m:"):
            for s, _, x in nxt(E, fr, blk, st.copy(), args[-1], None):
                if x is not None:
                    look(E, s, x)
        return None
    r = Run1(P, b, c, on_call=calls, on_char=on_char, unroll=0, adaptors=True)
    r.go()


def simple(c, P):
    """for_align, fit_width, fill_width"""
    b = c.need(P.method(FIT, "for_align"), "Fitter::for_align")
    r = Run1(P, b, c, unroll=0)
    E = r.E
    fp = {f["name"]: place(P, FIT, f["name"])[0] for f in P.adts[FIT]["variants"][0]["fields"]}
    alf = next(n for n, p in fp.items() if P.types[p[3]].get("path") == ALIGN)
    for s0, v in c.need(r.go() or None, "for_align"):
        for s, an, ai in split_enum(E, P, s0, r.args[0], ALIGN):
            c.count("fitters")
            got = E.variant_of(s, E.proj(s, v, fp[alf]))
            if got != ai:
                c.violate("for_align:align", "%s:%d the alignment of a fitter isn't the one asked" % (b.file, b.line))
            for n, p in fp.items():
                if P.types[p[3]]["k"] == "bool":
                    x = E.proj(s, v, p)
                    want = an == "Unspecified"
                    if not isinstance(x, BoolV) or E.truth(s, x.f) is not want:
                        c.violate("for_align:%s" % n, "%s:%d a fitter for the alignment %s %s" % (b.file, b.line, an, "doesn't cut the middles" if want else "may cut the middles"))
    for name, want in (("fit_width", ["fit"]), ("fill_width", ["fit_width", "extend_width"])):
        b = c.need(P.method(FC, name), "FmtComposite::" + name)

        def calls(E, fr, blk, st, path, fn, args, name=name):
            m = path.split("::")[-1]
            if m == "for_align":
                return [(st, Sym(("fitter", E.content(st, args[0])), None))]
            if m in ("fit", "extend_width") or m == "fit_width" and name == "fill_width":
                st.setg("log", st.g("log", ()) + ((m,) + tuple(E.content(st, a) if not isinstance(a, Lin) else ("n", repr(E.termof(a))) for a in args),))
                if m == "fit" and name == "fill_width":
                    pass
                return [(st, UNIT)]
            return None
        r = Run1(P, b, c, on_call=calls, unroll=0)
        E = r.E
        al = next(a for i, a in enumerate(r.args) if P.types[b.locals[i + 1]["t"]].get("path") == ALIGN)
        w = next(a for a in r.args if isinstance(a, Lin))
        wn = ("n", repr(E.termof(w)))
        for s, v in c.need(r.go() or None, name):
            c.count("adjustments")
            log = s.g("log", ())
            me, alc = E.content(s, r.args[0]), E.content(s, al)
            names = [x[0] for x in log]
            ok = True
            if name == "fit_width":
                ok = names == ["fit"] and log[0][1] == ("fitter", alc) and wn in log[0] and me in log[0][1:]
            else:
                ok = names in (["fit_width", "extend_width"], ["fit", "extend_width"]) and all(wn in x and me in x[1:] for x in log) and alc in log[1] and \
                    (alc in log[0] or ("fitter", alc) in log[0])
            if not ok:
                c.violate("%s" % name, "%s:%d %s doesn't do what it's made of" % (b.file, b.line, name))


def padding(c, P):
    """extend_width"""
    b = c.need(P.method(FC, "extend_width"), "FmtComposite::extend_width")
    r = Run1(P, b, c, unroll=0)
    E = r.E
    me = E.toref(r.args[0])
    al = next(a for i, a in enumerate(r.args) if P.types[b.locals[i + 1]["t"]].get("path") == ALIGN)
    w = next(a for a in r.args if isinstance(a, Lin))
    v0 = E.read(r.init, me.root, me.path, None)
    fs = [f["name"] for f in P.adts[FC]["variants"][0]["fields"]]
    sp = adt(P, "Spacing")

    def both(s, v):
        """[(state, the spacing or None)]"""
        x = E.proj(s, v, place(P, FC, "spacing")[0])
        out = []
        for s2, name, vi in split_enum(E, P, s, x, "core::option::Option"):
            out.append((s2, None if name == "None" else E.proj(s2, x, ("f", 0, vi, None, "0"))))
        return out

    for s, _ in c.need(r.go() or None, "extend_width"):
        v1 = E.read(s, me.root, me.path, None)
        for f in fs:
            if f != "spacing" and E.content(s, E.proj(s, v0, place(P, FC, f)[0])) != E.content(s, E.proj(s, v1, place(P, FC, f)[0])):
                c.violate("extend:" + f, "%s:%d padding a composite changes its %s" % (b.file, b.line, f))
        vis = E.proj(s, v0, place(P, FC, "visible_length")[0])
        for s1, old in both(s, v0):
            for s2, new in both(s1, v1):
                if not E.feasible(s2, []):
                    continue
                c.count("paddings")
                if new is None:
                    if old is not None or not E.entails(s2, vis - w):
                        c.violate("extend:none", "%s:%d a composite too short isn't padded" % (b.file, b.line))
                    continue
                nw, na = (E.proj(s2, new, place(P, sp, f)[0]) for f in ("width", "align"))
                if E.content(s2, na) != E.content(s2, al):
                    c.violate("extend:align", "%s:%d a padded composite isn't aligned as asked" % (b.file, b.line))
                if old is None:
                    if not E.entails_eq0(s2, nw - w):
                        c.violate("extend:width", "%s:%d a composite isn't padded up to the width" % (b.file, b.line))
                    continue
                ow = E.proj(s2, old, place(P, sp, "width")[0])
                if not E.entails(s2, nw - w) or not E.entails(s2, nw - ow):
                    c.violate("extend:width", "%s:%d a composite isn't padded up to the width, or is less than before" % (b.file, b.line))
                m = s2.copy()
                if E.add_ge(m, nw - w - 1) and E.add_ge(m, nw - ow - 1) and E.feasible(m, []):
                    c.violate("extend:more", "%s:%d a composite is padded more than asked" % (b.file, b.line))


def job(a):
    kind, tier = a[:2]
    c = fw.Check("F01", tier)
    P = c.prog()
    try:
        if kind == "fit":
            Fit(c, P, a[2], a[3], a[4]).check()
        elif kind == "cut":
            Cut(c, P, a[2], a[3]).check()
        else:
            zones(c, P, a[2])
    except fw.Missing as e:
        c.violate("anchor:%s:%s" % (kind, a[2]), str(e))
    return c.viol, c.counts


def f01(c):
    c.rule = ("Fitter::fit is interpreted on composites of a few compounds with arbitrary contents, for each alignment, with and without removal of middles; "
              "Zone::cut on any zone of one of the compounds. The compounds left must be parts of the initial ones, in their style and order, with ellipses where something was removed.")
    P = c.prog()
    n = 3 if c.tier == "quick" else 4
    jobs = [("fit", c.tier, k, al, mid) for k in range(n) for al, mid in (("Unspecified", True), ("Left", False), ("Center", False), ("Right", False)) if k < 3 or al != "Center"]
    jobs += [("cut", c.tier, k, i) for k in range(1, n + 1) for i in range(k)]
    jobs += [("zones", c.tier, "token"), ("zones", c.tier, "compounds")]
    for viol, counts in fw.pmap(job, jobs):
        for k, x in viol.items():
            c.violate(k, x)
        for k, m in counts.items():
            c.count(k, m)
    simple(c, P)
    infos(c, P)
    padding(c, P)
    c.floor("ends of fit", 40)
    c.floor("ends of cut", 4)
    c.floor("gains", 2)
    c.floor("zones", 2)
    c.floor("fitters", 4)
    c.floor("chars looked at", 1)
    c.floor("paddings", 3)
