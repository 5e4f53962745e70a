"""The content of an input field: cursor, selection and edits (I..)."""
import absint
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import OPT, NONE, some, norm
from render import Run1, rd, place
from views import method, get, panics, truthful
from seqs import Seqs

IFC = "termimad::views::input_field_content::InputFieldContent"
LINE = "termimad::views::input_field_content::Line"
POS = "termimad::views::pos::Pos"
RANGE = "termimad::views::pos::Range"


class Content:
    """a valid content: at least a line, the cursor and the selection's other end being in the lines"""

    def __init__(self, c, P, name, split=False, sel=None, **opts):
        self.c, self.P, self.name = c, P, name
        self.b = method(c, P, IFC, name)
        self.mine = None
        self.q = None
        self.pts = []

        def oc(E, fr, blk, st, path, fn, args):
            r = self.mine(E, fr, blk, st, path, fn, args) if self.mine else None
            return self.q.on_call(E, fr, blk, st, path, fn, args) if r is None else r
        self.r = Run1(P, self.b, c, on_call=oc, unroll=0, max_states=3000, loop_facts=self.facts, **opts)
        self.E = E = self.r.E
        self.q = Seqs(E, P)
        self.args = list(self.r.args)
        self.me = E.toref(self.args[0])
        st = self.st = self.r.init
        E.root_val(st, self.me.root, P.types[self.b.locals[1]["t"]]["ty"])
        self.lty = next(i for i, t in enumerate(P.types) if t.get("path") == LINE)
        self.pty = next(i for i, t in enumerate(P.types) if t.get("path") == POS)
        self.U = next(i for i, t in enumerate(P.types) if t["s"] == "usize")
        self.L0 = self.lines(st)
        self.q.base(self.L0)
        self.n0 = self.L0.len
        self.x0, self.y0 = self.pos(st)
        p = place(P, IFC, "lines")
        E.write(st, self.me.root, self.me.path + tuple(p), self.L0)
        # the cursor is kept as two numbers
        pp = place(P, IFC, "pos")
        E.write(st, self.me.root, self.me.path + tuple(pp), self.mkpos(self.x0, self.y0))
        for l in (self.n0 - 1, self.x0, self.y0, self.n0 - self.y0 - 1):
            E.add_ge(st, l)
        self.C = self.chars0(st, self.y0)
        self.len0 = self.C.len
        E.add_ge(st, self.len0 - self.x0)
        E.add_ge(st, Lin(1 << 60) - self.len0)
        E.add_ge(st, Lin(1 << 60) - self.n0)
        self.tail0 = self.tail(st)
        self.sel = sel
        if sel is not None:
            # with or without a selection
            st.disc[E.termof(self.tail0)] = 1 if sel else 0
            E.add_eq(st, E.discr(st, self.tail0) - (1 if sel else 0))
            if sel:
                self.tx0, self.ty0 = self.xy(st, E.proj(st, self.tail0, ("f", 0, 1, self.pty, "0")))
                if sel == "same":
                    E.add_eq(st, self.ty0 - self.y0)
                    self.ty0 = self.y0
                elif sel in ("above", "below"):
                    E.add_ge(st, (self.y0 - self.ty0 if sel == "above" else self.ty0 - self.y0) - 1)
                T = self.chars0(st, self.ty0)
                self.T = T
                for l in (self.tx0, self.ty0, self.n0 - self.ty0 - 1, T.len - self.tx0):
                    E.add_ge(st, l)
                tp = place(P, IFC, "selection_tail")
                E.write(st, self.me.root, self.me.path + tuple(tp), some(self.mkpos(self.tx0, self.ty0)))
        if split:
            # the line of the cursor is in two parts
            self.q.hold = True
            v = self.q.make([(("pre", self.C.term), self.x0), (("suf", self.C.term), self.len0 - self.x0)], self.C.ety)
            E.write(st, self.me.root, self.me.path + tuple(p) + (("e", self.y0, self.lty),) + tuple(place(P, LINE, "chars")), v)
            self.split = self.lines(st)

    def facts(self, E, st):
        out = {}
        try:
            x, y = self.pos(st)
            v = self.line_of(st, y)
        except Exception:
            return out
        if self.sel:
            try:
                t = self.tail(st)
                if E.variant_of(st, t) == 1:
                    tx, ty = self.xy(st, E.proj(st, t, ("f", 0, 1, self.pty, "0")))
                    w = self.line_of(st, ty)
                    if isinstance(tx, Lin) and isinstance(w, VecV):
                        out["t"] = ("ge", w.len - tx)
                        out["ty"] = ("ge", self.lines(st).len - ty - 1)
                        out["ty="] = ("ge", ty - y)
            except Exception:
                pass
        if isinstance(x, Lin) and isinstance(v, VecV):
            out["x"] = ("ge", v.len - x)
            out["x<"] = ("ge", v.len - x - 1)
            out["x>"] = ("ge", x - 1)
            if v.term[0] == "seq":
                k = v.term[1][0]
                out["cut"] = k[1] - x
        for r, l in st.mem.items():
            if r[0] == "L" and isinstance(l, Lin):
                out[r, "c"] = ("ge", self.len0 - l - 1)
                out[r, "C"] = ("ge", self.len0 - l)
                out[r, "x0"] = ("ge", self.x0 - l)
                out[r, "X0"] = ("ge", l - self.x0)
        return out

    def fail(self, key, what):
        self.c.violate("content:%s:%s" % (self.name, key), "%s:%d InputFieldContent::%s: %s" % (self.b.file, self.b.line, self.name, what))

    # values
    def get(self, st, f):
        return get(self.P, self.E, st, self.me, IFC, f)

    def lines(self, st):
        p = place(self.P, IFC, "lines")
        return rd(self.E, st, self.me, p, p[-1][3])

    def xy(self, st, pos):
        return tuple(self.E.proj(st, pos, place(self.P, POS, f)[0]) for f in ("x", "y"))

    def mkpos(self, x, y):
        ix = {f: place(self.P, POS, f)[0][1] for f in ("x", "y")}
        fs = [None, None]
        fs[ix["x"]], fs[ix["y"]] = x, y
        return Agg(POS, None, tuple(fs), None, self.pty)

    def mkline(self, chars):
        return Agg(LINE, None, (chars,), None, self.lty)

    def pos(self, st):
        return self.xy(st, self.get(st, "pos"))

    def tail(self, st):
        return self.get(st, "selection_tail")

    def chars0(self, st, i):
        """the chars of the line i, at the start"""
        v = self.E.proj(st, self.E.elem(st, self.L0, i, self.lty), place(self.P, LINE, "chars")[0])
        self.q.base(v)
        return v

    def line_of(self, st, i):
        """the chars of the line i; what it is must be known"""
        return self.E.proj(st, self.E.elem(st, self.lines(st), i, self.lty), place(self.P, LINE, "chars")[0])

    def line_cases(self, st, i):
        """[(state, chars of the line i)]"""
        r = Ref(self.me.root, self.me.path + tuple(place(self.P, IFC, "lines")), None)
        out = [(s, self.line_of(s, i)) for s in self.q.known(st.copy(), r, self.lines(st), i)]
        for _, v in out:
            if isinstance(v, VecV) and v.term[0] == "f":
                self.q.base(v)
        return [(s, v) for s, v in out if self.congruent(s)]

    def congruent(self, st):
        """the lines of equal indexes have the same length (in place)"""
        E = self.E
        bs = []
        for a in E.A.terms:
            t = a[1] if isinstance(a, tuple) and a[0] == "len" and isinstance(a[1], tuple) else ()
            if len(t) > 1 and t[0] == "f" and isinstance(t[1], tuple) and t[1][0] == "e" and t[1][1] == self.L0.term and isinstance(t[1][2], Lin):
                bs.append((E.nat(a), t[1][2]))
        for k, (t, i) in enumerate(bs):
            for u, j in bs[:k]:
                if i != j and E.entails_eq0(st, i - j) and not E.add_eq(st, t - u):
                    return False
        return E.feasible(st, []) and not any(E.entails_eq0(st, n) for n in st.ne)

    def go(self, states=None, ok=None):
        out = []
        for st in states or [self.st]:
            out += self.E.call_body(st.copy(), self.b, list(self.args))
        for _ in self.c.need(out or None, "a path of " + self.b.path):
            self.c.count("paths")
        return out

    def invalid(self, st, x, y):
        """the reason why a position isn't valid"""
        E = self.E
        n = self.lines(st).len
        if not isinstance(x, Lin) or not isinstance(y, Lin):
            return "isn't known"
        if not E.entails(st, n - y - 1):
            return "may be after the last line"
        if not E.entails(st, y) or not E.entails(st, x):
            return "may be negative"
        for s, v in self.line_cases(st, y):
            if not isinstance(v, VecV) or not E.entails(s, v.len - x):
                return "may be after the end of its line"
        return None

    def valid(self, st):
        E = self.E
        self.c.count("validity obligations")
        n = self.lines(st).len
        if not E.entails(st, n - 1):
            self.fail("lines", "there may be no line any more")
        d = self.invalid(st, *self.pos(st))
        if d:
            self.fail("cursor", "the cursor " + d)
        t = self.tail(st)
        vi = E.variant_of(st, t)
        if E.content(st, t) == E.content(self.st, self.tail0) and vi is None:
            self.fail("tail", "the other end of the selection isn't known to be valid")
        elif vi is None:
            self.fail("tail", "the other end of the selection isn't known")
        elif vi == 1:
            d = self.invalid(st, *self.xy(st, E.proj(st, t, ("f", 0, 1, self.pty, "0"))))
            if d:
                self.fail("tail", "the other end of the selection " + d)


PURE = ("cursor_pos", "selection", "has_selection")


def methods(c, P):
    """the methods taking &mut self, public or not"""
    out = []
    for b in P.bodies.values():
        if b.kind == "fn" and P.self_adt(b) == IFC and not (b.impl_of or "").strip() and b.argc:
            t = P.types[b.locals[1]["t"]]
            if t["k"] == "ref" and t.get("mut") and P.types[t["ty"]].get("path") == IFC:
                out.append(b.name)
    return sorted(out)
