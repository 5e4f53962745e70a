"""What a function writes, as a sequence of runs: the formatter or writer given to the function is replaced by a buffer
kept in the abstract state; each write appends (unit, count) runs.  Units:
("o", style, char)   a char with a style (None: raw)           repeated `count` times
("os", style, text)  a string of unknown content with a style
("on", style, x)     the decimal form of a number
("cmd", name, args)  a terminal command
Loops generalise on the counts (Gen.gen_runs); vectors given with a constant length are unrolled."""
import absint, models
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, Budget
from models import norm, ok, UNIT, runs, unruns

OUT = ("L", "out", 0)
RAW = None


def key(st_or_none, v):
    return v


class Out:
    def __init__(self, P, **opts):
        self.P = P
        opts.setdefault("max_states", 2400)
        opts.setdefault("max_depth", 12)
        opts.setdefault("unroll", 6)
        opts.setdefault("loop_each", True)
        self.user_on_call = opts.pop("on_call", None)
        self.stop = opts.pop("stop", {})        # path -> handler(E, st, args) giving the unit to append
        self.E = absint.Eng(P, on_call=self.on_call, **opts)
        self.E.write_errors = False
        self.disp = {}
        for b in P.bodies.values():
            if b.kind == "fn" and b.name == "fmt" and (b.impl_of or "").endswith("fmt::Display"):
                self.disp[P.self_adt(b)] = b
        self.unknown = []

    def init(self):
        st = State()
        st.mem[OUT] = VecV(("empty",), Lin(0), ())
        return st

    def dest(self):
        return Ref(OUT, (), None)

    def is_dest(self, st, v):
        for _ in range(5):
            if not isinstance(v, Ref):
                return False
            if v.root == OUT:
                return True
            v = self.E.read(st, v.root, v.path)
        return False

    def put(self, st, unit, n=Lin(1)):
        v = st.mem[OUT]
        t = unruns(runs(v.term) + [(unit, n)])
        if t is None:
            raise Budget("output too long")
        st.mem[OUT] = VecV(t, Lin(0), ())

    def runs(self, st):
        return runs(st.mem[OUT].term)

    # ---------------------------------------------------------------- emission
    def emit(self, fr, blk, st, x, ty, style=RAW, opts=None, kind=None):
        """states after the display of x"""
        E, P = self.E, self.P
        st = st.copy()
        for _ in range(8):
            if ty is not None and P.types[ty]["k"] == "ref":
                r = E.toref(x)
                ty = P.types[ty]["ty"]
                if r is not None:
                    if E.vecish(ty) and r.root[0] == "str":
                        x = E.read(st, r.root, r.path, ty)
                    else:
                        x = E.read(st, r.root, r.path, ty)
                continue
            if isinstance(x, Ref) and (ty is None or not E.vecish(ty)):
                x = E.read(st, x.root, x.path, x.ty)
                continue
            break
        if isinstance(x, Ref):
            x = E.read(st, x.root, x.path, ty)
        t = P.types[ty] if ty is not None else {"k": "?"}
        if isinstance(x, Agg) and x.path.endswith("::StyledContent") or t["k"] == "adt" and t["path"].endswith("::StyledContent"):
            sty, con = E.proj(st, x, ("f", 0, None, None, "style")), E.proj(st, x, ("f", 1, None, None, "content"))
            cty = t["args"][0] if t.get("args") else None
            cty = cty if isinstance(cty, int) else models.payload_ty(E, ty, 0) if ty is not None else None
            return self.emit(fr, blk, st, con, cty, E.content(st, sty))
        if isinstance(x, Agg) and x.path.endswith("::PrintStyledContent") or isinstance(x, Agg) and x.path.endswith("style::Print"):
            cty = models.payload_ty(E, x.ty if x.ty is not None else ty, 0)
            inner = x.fields[0]
            if x.path.endswith("::PrintStyledContent"):
                sty, con = E.proj(st, inner, ("f", 0, None, None, "style")), E.proj(st, inner, ("f", 1, None, None, "content"))
                return self.emit(fr, blk, st, con, cty, E.content(st, sty))
            return self.emit(fr, blk, st, inner, cty, style)
        path = t.get("path") if t["k"] == "adt" else (x.path if isinstance(x, Agg) else None)
        if path in self.stop:
            self.put(st, self.stop[path](E, st, x))
            return [st]
        if path in self.disp:
            ref = self.E.fresh("disp")
            root = ("L", ref, 0)
            st.mem[root] = x
            if style is not RAW:
                self.unknown.append("a %s displayed inside a style" % path)
            outs = E.call_body(st, self.disp[path], [Ref(root, (), ty), self.dest()], fr, blk)
            return [s for s, v in outs if E.variant_of(s, v) != 1]
        if isinstance(x, VecV):
            for u, n in runs(x.term):
                if u[0] == "ch":
                    self.put(st, ("o", style, chkey(canon(E, u[1]))), n)
                elif u[0] == "str":
                    for ch in u[1]:
                        self.put(st, ("o", style, ("c", ord(ch))))
                else:
                    self.put(st, ("os", style, u), n)
            return [st]
        if t["k"] == "char" or (ty is not None and P.ts(ty) == "char"):
            self.put(st, ("o", style, chkey(E.termof(x))))
            return [st]
        if isinstance(x, Lin):
            if t["k"] not in ("int", "uint") and style is not RAW:
                self.put(st, ("o", style, chkey(E.termof(x))))
            else:
                self.put(st, ("on", style, ("lin", x)))
            return [st]
        con = E.content(st, x)
        if isinstance(con, tuple) and con and con[0] in ("str",):
            return self.emit(fr, blk, st, E.mk(con, None) if False else VecV(con, Lin(len(con[1].encode()))), None, style)
        self.put(st, ("os", style, con))
        return [st]

    def template(self, fr, blk, st, a):
        parts = models.fmt_parts(self.E, st, a)
        if parts is None:
            st = st.copy()
            self.put(st, ("os", RAW, ("fmt", self.E.fresh("fmt"))))
            self.unknown.append("an unreadable format template")
            return [st]
        sts = [st]
        av = models.fmt_args(self.E, st, a)
        for p in parts:
            if p[0] == "lit":
                nxt = []
                for s in sts:
                    s = s.copy()
                    for ch in p[1]:
                        self.put(s, ("o", RAW, ("c", ord(ch))))
                    nxt.append(s)
                sts = nxt
            else:
                val, ty = av[p[4]]
                nxt = []
                for s in sts:
                    if p[2]:
                        s = s.copy()
                        self.put(s, ("os", RAW, ("padded", p[1], p[2])))
                        nxt.append(s)
                    else:
                        nxt += self.emit(fr, blk, s, val, ty)
                sts = nxt
        return sts

    # ---------------------------------------------------------------- interception
    def on_call(self, E, fr, blk, st, path, fn, args):
        n = norm(path)
        m = n.split("::")[-1]
        if self.user_on_call is not None:
            self.E.out = self
            r = self.user_on_call(E, fr, blk, st, path, fn, args)
            if r is not None:
                return r
        if not args or not self.is_dest(st, args[0]) and not (m == "fmt" and len(args) == 2 and self.is_dest(st, args[1])):
            return None
        good = lambda sts: [(s, ok(UNIT)) for s in sts]
        b = self.P.bodies.get(fn.get("rid") or fn.get("id"))
        if m == "write_fmt":
            return good(self.template(fr, blk, st, args[1]))
        if m in ("write_str", "write_char", "pad", "write_all"):
            ty = None
            if m == "write_char":
                s = st.copy()
                self.put(s, ("o", RAW, chkey(E.termof(args[1]))))
                return good([s])
            return good(self.emit(fr, blk, st, args[1], None))
        if m == "queue" and b is None or m == "execute" and b is None:
            cmd = args[1]
            p = cmd.path if isinstance(cmd, Agg) else None
            if p is not None and p.split("::")[-1] in ("Print", "PrintStyledContent"):
                return [(s, ok(args[0])) for s in self.emit(fr, blk, st, cmd, None)]
            s = st.copy()
            name = p.split("::")[-1] if p else "?"
            self.put(s, ("cmd", name, tuple(E.content(st, f) for f in cmd.fields) if isinstance(cmd, Agg) else E.content(st, cmd)))
            return [(s, ok(args[0]))]
        if m == "fmt" and b is None:
            ty = None
            aty = fn.get("self_ty")
            return good(self.emit(fr, blk, st, args[0], aty))
        if m == "flush":
            return good([st.copy()])
        if m in ("by_ref", "deref_mut", "borrow_mut", "as_mut"):
            return [(st, self.dest())]
        return None


def canon(E, t):
    """a number that is a single atom, by the term of the atom"""
    return E.termof(t[1]) if isinstance(t, tuple) and len(t) == 2 and t[0] == "lin" else t


def chkey(t):
    """char term: ("c", codepoint) when constant"""
    if isinstance(t, tuple) and t and t[0] == "lin":
        l = t[1]
        if not l.t:
            return ("c", l.c)
    return t


def cells(E, st, rs):
    """number of terminal columns of a list of runs: Lin, with one atom per string ("width", text); commands count 0"""
    tot = Lin(0)
    for u, n in rs:
        if u[0] == "o":
            tot = tot + n
        elif u[0] in ("os", "on"):
            w = E.nat(("width", u[2]))
            tot = tot + (w if n == Lin(1) else w.scale(n.c) if n.is_const() else E.nat(("width", ("rep", u[2], n))))
    return tot


def showrun(E, r):
    u, n = r
    k = "" if n == Lin(1) else "×(%s)" % E.showlin(n)
    if u[0] == "o":
        ch = chr(u[2][1]) if u[2][0] == "c" else "char %s" % absint.show(u[2])
        return "%r%s" % (ch, k)
    if u[0] == "cmd":
        return "%s%s" % (u[1], absint.show(u[2]) if u[2] else "")
    return "<%s>%s" % (absint.show(u[2])[:60], k)
