"""Abstract interpreter over MIR.

Domain: values are symbolic value numbers (terms), aggregates of them, references to abstract
locations, vectors with a length expression; numeric facts are a conjunction of linear
inequalities over value numbers (lin.py decides entailment); discriminant and boolean facts are
finite maps.  Bounded trace partitioning between joins; loops are solved to a post-fixpoint with
weakening (candidate invariants that are not preserved are dropped).  Calls to functions of the
crate are analysed in context (so helper extraction is invisible); library calls use the
transfer functions of models.py; anything else returns an unknown value and forgets whatever it
could have mutated.
"""
import sys
from math import gcd
from lin import Lin, Atoms, infeasible, norm
from mir import callee

sys.setrecursionlimit(20000)

RANGES = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
          "u128": (0, None), "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
          "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "char": (0, 0x10ffff), "i128": (None, None)}

EMPTY = frozenset()
TRUE = ("c", True)
FALSE = ("c", False)


class Sym:
    __slots__ = ("term", "ty")

    def __init__(self, term, ty):
        self.term = term
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, Sym) and self.term == o.term

    def __hash__(self):
        return hash(self.term)

    def __repr__(self):
        return "Sym(%s)" % show(self.term)


class Agg:
    """struct / tuple / closure / enum variant (vi is the variant index or None)"""
    __slots__ = ("path", "vi", "fields", "base", "ty")

    def __init__(self, path, vi, fields, base=None, ty=None):
        self.path = path
        self.vi = vi
        self.fields = tuple(fields)
        self.base = base
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, Agg) and self.path == o.path and self.vi == o.vi and self.fields == o.fields \
            and (self.base == o.base or None not in self.fields)

    def __hash__(self):
        return hash((self.path, self.vi, len(self.fields)))

    def __repr__(self):
        return "%s%s{%s}" % (self.path.split("::")[-1], "" if self.vi is None else "#%d" % self.vi,
                             ", ".join(map(repr, self.fields)))


class Ref:
    __slots__ = ("root", "path", "ty")

    def __init__(self, root, path=(), ty=None):
        self.root = root
        self.path = tuple(path)
        self.ty = ty  # pointee type (may be None)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return "&%s%s" % (show(self.root), "".join("." + show(p) for p in self.path))


class VecV:
    """vector / slice / string content: `term` names the content, `len` its length (bytes for
    strings), `writes` the element stores since, most recent last"""
    __slots__ = ("term", "len", "writes", "ety")

    def __init__(self, term, len_, writes=(), ety=None):
        self.term = term
        self.len = len_
        self.writes = tuple(writes)
        self.ety = ety

    def __eq__(self, o):
        return isinstance(o, VecV) and self.term == o.term and self.len == o.len and self.writes == o.writes

    def __hash__(self):
        return hash((self.term, self.len))

    def __repr__(self):
        return "Vec<%s; len=%r%s>" % (show(self.term), self.len, ", w%d" % len(self.writes) if self.writes else "")


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, FnV) and self.fn.get("id") == o.fn.get("id")

    def __hash__(self):
        return hash(self.fn.get("id"))

    def __repr__(self):
        return "fn(%s)" % self.fn.get("path")


class BoolV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, BoolV) and self.f == o.f

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return "Bool%r" % (self.f,)


def show(t):
    if isinstance(t, tuple):
        if not t:
            return "()"
        if t[0] == "d" and len(t) == 2:
            return "*" + show(t[1])
        if t[0] == "f" and len(t) >= 4:
            return "%s.%s" % (show(t[1]), t[-1] if isinstance(t[-1], str) else t[3])
        return "%s(%s)" % (t[0], ",".join(show(x) for x in t[1:]))
    return str(t)


def fnot(f):
    if f[0] == "c":
        return ("c", not f[1])
    if f[0] == "not":
        return f[1]
    if f[0] == "ge":
        return ("ge", -f[1] - 1)
    return ("not", f)


def fand(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return ("and", a, b)


def f_or(a, b):
    if a == TRUE or b == TRUE:
        return TRUE
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    return ("or", a, b)


class State:
    __slots__ = ("mem", "ge", "eq", "ne", "bs", "disc", "alias", "ghost", "dead")

    def __init__(self):
        self.mem = {}
        self.ge = ()
        self.eq = ()
        self.ne = ()
        self.bs = {}
        self.disc = {}
        self.alias = {}
        self.ghost = ()
        self.dead = False

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.ge, s.eq, s.ne = self.ge, self.eq, self.ne
        s.bs = dict(self.bs)
        s.disc = dict(self.disc)
        s.alias = dict(self.alias)
        s.ghost = self.ghost
        return s

    # ghost: tuple of (key, value) pairs, sorted
    def g(self, k, d=None):
        for a, b in self.ghost:
            if a == k:
                return b
        return d

    def setg(self, k, v):
        d = dict(self.ghost)
        d[k] = v
        self.ghost = tuple(sorted(d.items(), key=lambda x: str(x[0])))


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("id", "body", "depth", "chain", "n0")

    def __init__(self, id, body, depth, chain, n0=0):
        self.n0 = n0
        self.id = id
        self.body = body
        self.depth = depth
        self.chain = chain


class Eng:
    def __init__(self, prog, **o):
        self.P = prog
        self.A = Atoms()
        self.n = 0
        self.nframe = 0
        self.max_states = o.get("max_states", 48)
        self.max_depth = o.get("max_depth", 9)
        self.max_steps = o.get("max_steps", 400000)
        self.inline_ok = o.get("inline_ok", lambda b: True)
        self.on_call = o.get("on_call")        # (eng, frame, blk, st, path, fn, args) -> None or list[(st,val)]
        self.on_event = o.get("on_event")
        self.after_call = o.get("after_call")
        self.on_write = o.get("on_write")
        self.split_ret = o.get("split_ret", True)
        self.unroll = o.get("unroll", 0)
        self.disc_n = {}
        self.unroll_paths = o.get("unroll_paths", 4)
        self.adaptors = o.get("adaptors", False)    # iterator adaptors which search or filter are loops
        self.loop_each = o.get("loop_each", False)
        self.on_reps = None                    # (st, count) when a repeated char is sliced
        self.on_chars = o.get("on_chars")      # (eng, st, source) at the creation of a char iterator
        self.on_char = o.get("on_char")        # (eng, st, source, pos, len, char, back) -> list of states
        self.on_item = o.get("on_item")        # (E, st, ref of the vector, index, item, from the end?) -> [states]
        self.loop_facts = o.get("loop_facts")  # state -> {name: linear expression = 0, or ("ge", expression >= 0)} worth keeping
        self.at_head = o.get("at_head")
        self.seqs = None
        self.max_writes = o.get("max_writes", 8)   # elements pushed one by one which are remembered
        self.unroll_for = o.get("unroll_for")  # (eng, frame, head, states) -> how many turns to do exactly
        self.loop_part = o.get("loop_part")    # state -> extra key of the loop head partition
        self.recording = True
        self.oblig = {}
        self.steps = 0
        self.cache_inf = {}
        self.cache_entail = {}
        self._loops = {}
        self._ids, self._lids, self._aids, self._vids = {}, {}, {}, {}
        self.visited = set()
        self.unmodelled = {}
        self.analysed = set()
        self.notes = []
        import models
        self.models = models

    # ---------------------------------------------------------------- terms and values
    def fresh(self, tag="v"):
        self.n += 1
        return ("#", tag, self.n)

    def tyk(self, ty):
        return self.P.types[ty]["k"] if ty is not None else None

    def is_int(self, ty):
        return self.tyk(ty) in ("int", "uint", "char")

    def range_of(self, ty):
        return RANGES.get(self.P.types[ty]["s"], (None, None))

    def atom(self, term, ty=None, lo=None, hi=None):
        if ty is not None:
            lo, hi = self.range_of(ty)
        return Lin(0, ((self.A.get(term, lo, hi), 1),))

    def nat(self, term):
        return Lin(0, ((self.A.get(term, 0, 2**63 - 1), 1),))

    def strip_ref(self, ty):
        t = self.P.types[ty]
        return t["ty"] if t["k"] in ("ref", "ptr") else None

    def is_box(self, ty):
        t = self.P.types[ty]
        return t["k"] == "adt" and t["path"] == "alloc::boxed::Box"

    def vecish(self, ty):
        if ty is None:
            return False
        t = self.P.types[ty]
        if t["k"] in ("slice", "str"):
            return True
        if t["k"] == "array":
            return True
        return t["k"] == "adt" and t["path"] in ("alloc::vec::Vec", "alloc::string::String")

    def elem_ty(self, ty):
        t = self.P.types[ty]
        if t["k"] in ("slice", "array"):
            return t["ty"]
        if t["k"] == "adt" and t["path"] == "alloc::vec::Vec":
            return t["args"][0]
        return None

    def mk(self, term, ty):
        """unknown value of a type, named by a term"""
        if ty is None:
            return Sym(term, None)
        k = self.tyk(ty)
        if k in ("int", "uint", "char"):
            return self.atom(term, ty)
        if k == "bool":
            return BoolV(("s", term))
        if k == "tuple" and not self.P.types[ty]["args"]:
            return Agg("()", None, ())
        if k == "fndef":
            return Sym(term, ty)
        if self.vecish(ty):
            t = self.P.types[ty]
            if t["k"] == "array" and t.get("len") is not None:
                return VecV(term, Lin(t["len"]), (), self.elem_ty(ty))
            return VecV(term, self.nat(("len", term)), (), self.elem_ty(ty))
        return Sym(term, ty)

    def coerce(self, v, ty):
        if isinstance(v, Sym) and ty is not None:
            k = self.tyk(ty)
            if k in ("int", "uint", "char", "bool") or self.vecish(ty) or v.ty is None or \
                    self.tyk(v.ty) in ("param", "other"):
                return self.mk(v.term, ty)
        return v

    def fresh_val(self, ty, tag="v"):
        return self.mk(self.fresh(tag), ty)

    def termof(self, v):
        """a hashable term naming a value (content-based)"""
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, Lin):
            if not v.c and len(v.t) == 1 and v.t[0][1] == 1:
                return self.A.terms[v.t[0][0]]
            return ("lin", v)
        if isinstance(v, BoolV):
            if v.f[0] == "s":
                return v.f[1]
            return ("bool", v.f)
        if isinstance(v, VecV):
            if not v.writes:
                return v.term
            return ("vec", v.term, v.len, tuple((i, self.termof(x)) for i, x in v.writes))
        if isinstance(v, Agg):
            if v.base is not None and all(f is None for f in v.fields):
                return v.base
            ts = tuple(None if f is None else self.termof(f) for f in v.fields)
            if v.base is None and ts and type(ts[0]) is tuple and len(ts[0]) == 5 and ts[0][0] == "f" and ts[0][3] == 0:
                # a copy, field by field
                b, vi = ts[0][1], ts[0][2]
                a = self.P.adts.get(v.path)
                if a is not None and (vi == v.vi or vi is None and len(a["variants"]) == 1):
                    fs = a["variants"][v.vi or 0]["fields"]
                    if len(fs) == len(ts) and all(t == ("f", b, vi, i, f["name"]) for i, (t, f) in enumerate(zip(ts, fs))):
                        return b
            return ("agg", v.path, v.vi, ts, v.base)
        if isinstance(v, Ref):
            if not v.path and isinstance(v.root, tuple) and v.root[0] == "d":
                return v.root[1]
            return ("ref", v.root, v.path)
        if isinstance(v, FnV):
            return ("fn", v.fn.get("id"))
        return ("?", str(v))

    def content(self, st, v, depth=6):
        """content term of a value, looking through references (for pure functions of contents)"""
        while isinstance(v, (Ref, Sym)) and depth:
            if isinstance(v, Sym):
                if v.ty is not None and self.tyk(v.ty) == "ref":
                    v = self.deref(st, v)
                else:
                    break
            else:
                if isinstance(v.root, tuple) and v.root[0] == "str" and not v.path:
                    return v.root
                v = self.read(st, v.root, v.path)
            depth -= 1
        return self.termof(v)

    def toref(self, v):
        if isinstance(v, Ref):
            return v
        if isinstance(v, Sym):
            pt = None
            if v.ty is not None:
                t = self.P.types[v.ty]
                if t["k"] in ("ref", "ptr"):
                    pt = t["ty"]
                elif self.is_box(v.ty):
                    pt = t["args"][0]
            return Ref(("d", v.term), (), pt)
        return None

    def deref(self, st, v):
        """value behind a reference (recursively one level)"""
        r = self.toref(v)
        if r is None:
            return v
        return self.read(st, r.root, r.path, r.ty)

    def peel(self, st, v):
        """value behind all the references"""
        n = 0
        while n < 8:
            if isinstance(v, Ref):
                v = self.read(st, v.root, v.path, v.ty)
            elif isinstance(v, Sym) and v.ty is not None and (self.tyk(v.ty) == "ref"):
                v = self.deref(st, v)
            else:
                return v
            n += 1
        return v

    # ---------------------------------------------------------------- memory
    def root_val(self, st, root, ty=None):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "str":
                b = root[1].encode()
                v = VecV(root, Lin(len(b)), ())
            elif root[0] == "static" and root[1] in self.P.bodies and ty is not None and self.tyk(ty) != "adt":
                v = self.promoted(st, root[1], ty)
            else:
                term = ("*", root[1]) if root[0] == "d" else root
                v = self.mk(term, ty)
                if isinstance(v, Sym) and ty is None:
                    return v  # type unknown yet: do not freeze
            st.mem[root] = v
        elif isinstance(v, Sym) and v.ty is None and ty is not None:
            v = self.coerce(v, ty)
            st.mem[root] = v
        return v

    def read(self, st, root, path, ty=None):
        """ty: type of the root when known (only used at creation when path is empty)"""
        v = self.root_val(st, root, ty if not path else None)
        for i, e in enumerate(path):
            v = self.proj(st, v, e)
        if ty is not None:
            v = self.coerce(v, ty)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == "f":
            _, idx, vi, fty, name = e
            if isinstance(v, Agg):
                if idx < len(v.fields):
                    x = v.fields[idx]
                    if x is not None:
                        return self.coerce(x, fty)
                if v.base is not None:
                    return self.mk(self.fterm(v.base, vi, idx, name), fty)
                return self.fresh_val(fty, "badproj")
            if isinstance(v, Sym):
                return self.mk(self.fterm(v.term, vi, idx, name), fty)
            if isinstance(v, VecV):
                return self.mk(("f", v.term, vi, idx, name), fty)
            if isinstance(v, Ref) and idx == 0 and vi is None and name == "0":
                return v        # the pointer in a box
            return self.fresh_val(fty, "badproj")
        if k == "e":
            idx, ety = e[1], e[2]
            return self.elem(st, v, idx, ety)
        if k == "sub":
            return self.subvec(st, v, e[1], e[2])
        return self.fresh_val(None, "proj")

    def fterm(self, base, vi, idx, name):
        return ("f", base, vi, idx, name)

    def constval(self, st, l):
        """the expression with the variables whose value is known replaced"""
        while l.t:
            for a, k in l.t:
                v = next((-e.c * e.t[0][1] for e in st.eq if len(e.t) == 1 and e.t[0][0] == a and abs(e.t[0][1]) == 1), None)
                if v is not None:
                    l = l - Lin(0, ((a, k),)) + v * k
                    break
            else:
                break
        return l

    @staticmethod
    def elem_term(t, idx):
        """an element of a part of a sequence is an element of the sequence"""
        while isinstance(t, tuple) and t[0] == "sub" and len(t) == 4 and isinstance(t[2], Lin) and isinstance(idx, Lin):
            t, idx = t[1], t[2] + idx
        return ("e", t, idx)

    def elem(self, st, v, idx, ety):
        if idx is not None and idx.t:
            idx = self.constval(st, idx)
        if isinstance(v, VecV):
            if ety is None:
                ety = v.ety
            for (wi, wv) in reversed(v.writes):
                if wi is None:
                    return self.fresh_val(ety, "elem")
                if wi == idx:
                    return self.coerce(wv, ety)
                if idx is None:
                    return self.fresh_val(ety, "elem")
                d = wi - idx
                if d.is_const():
                    if d.c == 0:
                        return self.coerce(wv, ety)
                    continue
                if self.entails_eq0(st, d):
                    return self.coerce(wv, ety)
                if self.entails(st, d - 1) or self.entails(st, -d - 1):
                    continue
                return self.fresh_val(ety, "elem")
            if idx is None:
                return self.fresh_val(ety, "elem")
            if v.term[0] == "seq" and self.seqs is not None:
                x = self.seqs.elem(st, v, idx, ety)
                if x is not None:
                    return x
            return self.mk(self.elem_term(v.term, idx), ety)
        if isinstance(v, Sym) and idx is not None:
            return self.mk(self.elem_term(v.term, idx), ety)
        if isinstance(v, Agg) and idx is not None and idx.is_const() and idx.c < len(v.fields) and v.fields[idx.c] is not None:
            return v.fields[idx.c]
        return self.fresh_val(ety, "elem")

    def subvec(self, st, v, lo, hi):
        if isinstance(v, VecV):
            if not v.writes:
                if lo == Lin(0) and hi == v.len:
                    return v
                k = self.reps_in(v, hi) if lo == Lin(0) and v.ety is None else None
                if k is not None:
                    if self.on_reps is not None:
                        self.on_reps(st, k)
                    t = self.models.unruns([(self.models.runs(v.term)[0][0], k)])
                    if t is not None:
                        return VecV(t, hi)
                return VecV(("sub", v.term, lo, hi), hi - lo, (), v.ety)
            return VecV(self.fresh("sub"), hi - lo, (), v.ety)
        return VecV(("sub", self.termof(v), lo, hi), hi - lo, ())

    def reps_in(self, v, n):
        """k when n bytes are k times the repeated char of the string v"""
        rs = self.models.runs(v.term)
        if len(rs) != 1 or rs[0][0][0] != "ch" or rs[0][1] == Lin(1) or len(n.t) != 1 or n.c:
            return None
        l = self.models.utf8len(self, None, Sym(rs[0][0][1], None) if not (rs[0][0][1][0] == "lin") else rs[0][0][1][1])
        a, q = n.t[0]
        if len(l.t) == 1 and l.t[0] == (a, 1):
            return Lin(q)
        t = self.A.terms[a]
        if t[0] == "mul" and q == 1 and l in t[1:]:
            return t[2] if t[1] == l else t[1]
        return None

    def write(self, st, root, path, val):
        if self.on_write and self.recording is not None:
            self.on_write(self, st, root, path, val)
        if root in st.alias:
            for (r2, p2) in st.alias[root]:
                self.havoc_loc(st, r2, p2)
        if not path:
            st.mem[root] = val
            return
        v = self.root_val(st, root)
        st.mem[root] = self._upd(st, v, path, 0, val)

    def _upd(self, st, v, path, i, val):
        if i == len(path):
            return val
        e = path[i]
        if e[0] == "f":
            _, idx, vi, fty, name = e
            if isinstance(v, Agg):
                fs = list(v.fields)
                base = v.base
                p, avi = v.path, v.vi
            else:
                base = self.termof(v)
                fs = []
                p, avi = self.path_of(v), vi
            while len(fs) <= idx:
                fs.append(None)
            old = fs[idx]
            if i + 1 == len(path):
                fs[idx] = val
            else:
                if old is None:
                    old = self.mk(self.fterm(base, vi, idx, name), fty) if base is not None else self.fresh_val(fty)
                fs[idx] = self._upd(st, old, path, i + 1, val)
            return Agg(p, avi, fs, base, getattr(v, "ty", None))
        if e[0] == "e":
            idx, ety = e[1], e[2]
            if i + 1 == len(path):
                new = val
            else:
                new = self._upd(st, self.elem(st, v, idx, ety), path, i + 1, val)
            if isinstance(v, Agg) and idx is not None and idx.is_const() and idx.c < len(v.fields):
                fs = list(v.fields)
                fs[idx.c] = new
                return Agg(v.path, v.vi, fs, v.base, v.ty)
            if not isinstance(v, VecV):
                v = VecV(self.termof(v), self.nat(("len", self.termof(v))), (), ety)
            if idx is None:
                return VecV(self.fresh("vec"), v.len, (), v.ety)
            w = [x for x in v.writes if x[0] != idx]
            w.append((idx, new))
            if len(w) > 6 and not (v.len.is_const() and v.len.c <= 16):
                # forget the oldest
                return VecV(self.fresh("vec"), v.len, tuple((a, b) for a, b in w[-1:]), v.ety)
            return VecV(v.term, v.len, w, v.ety)
        # sub-slices: forget the content
        if isinstance(v, VecV):
            return VecV(self.fresh("vec"), v.len, (), v.ety)
        return self.fresh_val(None)

    def path_of(self, v):
        if isinstance(v, Sym) and v.ty is not None:
            t = self.P.types[v.ty]
            return t.get("path", t["s"])
        return "?"

    def havoc_loc(self, st, root, path, ty=None):
        old = self.read(st, root, path, ty)
        if isinstance(old, Lin):
            t = self.fresh("hv")
            lo = min([self.A.lo[a] for a in old.atoms() if self.A.lo[a] is not None], default=None)
            new = self.atom(t, None, 0 if lo is not None and lo >= 0 else None, None)
            if ty is not None:
                new = self.mk(t, ty)
        elif isinstance(old, BoolV):
            new = BoolV(("s", self.fresh("hv")))
        elif isinstance(old, VecV):
            t = self.fresh("hv")
            new = VecV(t, self.nat(("len", t)), (), old.ety)
        elif isinstance(old, Agg):
            new = Sym(self.fresh("hv"), old.ty)
        elif isinstance(old, Ref):
            new = Sym(self.fresh("hv"), None)
        else:
            new = Sym(self.fresh("hv"), old.ty if isinstance(old, Sym) else ty)
        a = st.alias.pop(root, None)
        self.write(st, root, path, new)
        if a is not None:
            st.alias[root] = a

    def havoc_reach(self, st, v, ty, depth=0):
        """an unknown callee got value v of type ty: forget everything it can mutate"""
        if depth > 4 or ty is None:
            if isinstance(v, Ref) and ty is None:
                self.havoc_loc(st, v.root, v.path)
            return
        t = self.P.types[ty]
        if t["k"] == "ref":
            if t["mut"]:
                r = self.toref(v)
                if r is not None:
                    inner = self.read(st, r.root, r.path, t["ty"])
                    if isinstance(inner, Agg):
                        self.havoc_agg(st, inner, depth)
                    self.havoc_loc(st, r.root, r.path, t["ty"])
            return
        if isinstance(v, Agg):
            self.havoc_agg(st, v, depth)

    def havoc_agg(self, st, v, depth):
        if v.path.startswith("closure:"):
            self.models.havoc_closures(self, st, v)
            return
        for f in v.fields:
            if isinstance(f, Ref):
                # mutability unknown: closures capture &mut; be conservative
                if f.ty is not None and getattr(f, "ty", None) is not None and f.path is not None:
                    pass
                if v.path.startswith("m:"):
                    self.havoc_loc(st, f.root, f.path)
            elif isinstance(f, Agg):
                self.havoc_agg(st, f, depth + 1)

    # ---------------------------------------------------------------- facts
    def _component(self, st, goal_atoms):
        atoms = set(goal_atoms)
        rest = list(st.ge) + list(st.eq)
        eqset = set(st.eq)
        ge, eq = [], []
        ch = True
        while ch:
            ch = False
            nr = []
            for l in rest:
                if any(a in atoms for a, _ in l.t):
                    (eq if l in eqset else ge).append(l)
                    for a, _ in l.t:
                        if a not in atoms:
                            atoms.add(a)
                            ch = True
                else:
                    nr.append(l)
            rest = nr
        return ge, eq

    def entails(self, st, l):
        """facts |= l >= 0"""
        if l.is_const():
            return l.c >= 0
        # cheap interval test
        lo = l.c
        for a, k in l.t:
            b = self.A.lo[a] if k > 0 else self.A.hi[a]
            if b is None:
                lo = None
                break
            lo += k * b
        if lo is not None and lo >= 0:
            return True
        ge, eq = self._component(st, l.atoms())
        key = (frozenset(ge), frozenset(eq), l, st.ne)
        r = self.cache_entail.get(key)
        if r is not None:
            return r
        neg = -l - 1
        r = infeasible(ge + [neg], eq, self.A)
        if not r and st.ne:
            at = set(l.atoms())
            for g in ge + eq:
                at.update(g.atoms())
            for n in st.ne:
                if set(n.atoms()) <= at:
                    # split on the disequality
                    if infeasible(ge + [neg, n - 1], eq, self.A) and infeasible(ge + [neg, -n - 1], eq, self.A):
                        r = True
                        break
        self.cache_entail[key] = r
        return r

    def entails_eq0(self, st, l):
        if l.is_const():
            return l.c == 0
        return self.entails(st, l) and self.entails(st, -l)

    def feasible(self, st, atoms):
        ge, eq = self._component(st, atoms)
        key = (frozenset(ge), frozenset(eq))
        r = self.cache_inf.get(key)
        if r is None:
            r = infeasible(ge, eq, self.A)
            self.cache_inf[key] = r
        return not r

    def feasible_eq(self, st, l):
        """may l be 0"""
        s = st.copy()
        return bool(self.add_eq(s, l)) and bool(self.feasible(s, []))

    def feasible_ne(self, st, l):
        """may l differ from 0"""
        return not self.entails_eq0(st, l)

    def add_ge(self, st, l, check=True):
        """assume l >= 0; returns False when contradictory"""
        if l.is_const():
            return l.c >= 0
        if l in st.ge:
            return True
        st.ge = st.ge + (l,)
        if check and not self.feasible(st, l.atoms()):
            return False
        # strengthen with disequalities
        for n in st.ne:
            if n == l or n == -l:
                st.ge = st.ge + (l - 1,)
                return self.feasible(st, l.atoms())
        return True

    def add_eq(self, st, l, check=True):
        if l.is_const():
            return l.c == 0
        if l in st.eq or -l in st.eq:
            return True
        for n in st.ne:
            if n == l or n == -l:
                return False
        st.eq = st.eq + (l,)
        ok = not check or self.feasible(st, l.atoms())
        if ok:
            self.disc_from_eq(st, l)
        return ok

    def disc_from_eq(self, st, l):
        if len(l.t) == 1 and abs(l.t[0][1]) == 1:
            term = self.A.terms[l.t[0][0]]
            if isinstance(term, tuple) and term[0] == "disc":
                v = -l.c if l.t[0][1] == 1 else l.c
                st.disc[term[1]] = v

    def add_ne(self, st, l):
        if l.is_const():
            return l.c != 0
        if self.entails(st, l):
            return self.add_ge(st, l - 1)
        if self.entails(st, -l):
            return self.add_ge(st, -l - 1)
        if l not in st.ne:
            st.ne = st.ne + (l,)
        return True

    def assume(self, st, f, truth=True):
        """returns the list of states in which f has the given truth value (st is consumed)"""
        k = f[0]
        if k == "c":
            return [st] if f[1] == truth else []
        if k == "not":
            return self.assume(st, f[1], not truth)
        if k == "ge":
            l = f[1] if truth else -f[1] - 1
            return [st] if self.add_ge(st, l) else []
        if k == "eq":
            if truth:
                return [st] if self.add_eq(st, f[1]) else []
            return [st] if self.add_ne(st, f[1]) else []
        if k == "s":
            cur = st.bs.get(f[1])
            if cur is not None:
                return [st] if cur == truth else []
            st.bs[f[1]] = truth
            return self.derived_bool(st, f[1], truth)
        if k == "and":
            if truth:
                r = []
                for s in self.assume(st, f[1], True):
                    r += self.assume(s, f[2], True)
                return r
            a = self.assume(st.copy(), f[1], False)
            r = a
            for s in self.assume(st, f[1], True):
                r = r + self.assume(s, f[2], False)
            return r
        if k == "or":
            return self.assume(st, ("and", fnot(f[1]), fnot(f[2])), not truth)
        raise AssertionError(f)

    def derived_bool(self, st, term, truth):
        # ("streq", content, "literal"): at most one literal can match
        if term[0] == "streq" and truth:
            for t, v in list(st.bs.items()):
                if t != term and t[0] == "streq" and t[1] == term[1] and v:
                    return []
            for t in list(st.bs):
                pass
        if term[0] == "streq" and not truth:
            return [st]
        return [st]

    def truth(self, st, f):
        """True / False / None"""
        k = f[0]
        if k == "c":
            return f[1]
        if k == "not":
            r = self.truth(st, f[1])
            return None if r is None else not r
        if k == "ge":
            if self.entails(st, f[1]):
                return True
            if self.entails(st, -f[1] - 1):
                return False
            return None
        if k == "eq":
            if self.entails_eq0(st, f[1]):
                return True
            if f[1] in st.ne or -f[1] in st.ne or self.entails(st, f[1] - 1) or self.entails(st, -f[1] - 1):
                return False
            return None
        if k == "s":
            c = st.bs.get(f[1])
            if c is None and f[1][0] == "streq":
                for t, v in st.bs.items():
                    if v and t[0] == "streq" and t[1] == f[1][1] and t != f[1]:
                        return False
            return c
        if k == "and":
            a, b = self.truth(st, f[1]), self.truth(st, f[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            a, b = self.truth(st, f[1]), self.truth(st, f[2])
            if a or b:
                return True
            return False if a is False and b is False else None

    # ---------------------------------------------------------------- enums
    def variants(self, path):
        a = self.P.adts.get(path)
        return a["variants"] if a and a["kind"] == "enum" else None

    def discr_val(self, path, vi):
        vs = self.variants(path)
        if vs and vi < len(vs) and vs[vi].get("discr") is not None:
            return int(vs[vi]["discr"])
        return vi

    def discr(self, st, v, ty=None):
        """discriminant as Lin"""
        if isinstance(v, Agg) and v.vi is not None:
            return Lin(self.discr_val(v.path, v.vi))
        t = self.termof(v)
        d = st.disc.get(t)
        if isinstance(d, int):
            return Lin(d)
        tys = [x for x in (ty, getattr(v, "ty", None)) if x is not None]
        for x in tys:
            a = self.P.adts.get(self.P.types[x].get("path"))
            if a is not None and len(a["variants"]) > 1 and all(str(w.get("discr")) == str(i) for i, w in enumerate(a["variants"])):
                self.disc_n[t] = len(a["variants"])
        return self.atom(("disc", t))

    def variant_of(self, st, v):
        """known variant index or None"""
        if isinstance(v, Agg):
            return v.vi
        if isinstance(v, Sym):
            d = st.disc.get(v.term)
            if d is not None:
                return d
            l = self.atom(("disc", v.term))
            for k in (0, 1):
                if self.entails_eq0(st, l - k):
                    return k
        return None

    def split_variant(self, st, v, path, nvar=2):
        """states for each variant of an enum value: [(st, vi)]"""
        k = self.variant_of(st, v)
        if k is not None:
            return [(st, k)]
        out = []
        l = self.atom(("disc", self.termof(v)))
        for i in range(nvar):
            s2 = st.copy()
            if self.add_eq(s2, l - self.discr_val(path, i)):
                s2.disc[self.termof(v)] = self.discr_val(path, i)
                out.append((s2, i))
        return out

    # ---------------------------------------------------------------- places and operands
    def loc(self, st, fr, pl):
        """place -> (root, path, type)"""
        root = ("L", fr.id, pl["l"])
        path = []
        ty = fr.body.locals[pl["l"]]["t"]
        vi = None
        proj = pl["p"]
        for n, e in enumerate(proj):
            k = e[0]
            if k == "*":
                v = self.read(st, root, path, None if path else ty)
                t = self.P.types[ty] if ty is not None else None
                inner = None
                if t is not None:
                    if t["k"] in ("ref", "ptr"):
                        inner = t["ty"]
                    elif self.is_box(ty):
                        inner = t["args"][0]
                r = self.toref(v)
                if r is None:
                    # boxed value stored in place
                    root, path = root, list(path)
                else:
                    root, path = r.root, list(r.path)
                    if not path and inner is not None:
                        self.root_val(st, root, inner)
                ty = inner
                vi = None
            elif k == "f":
                path.append(("f", e[1], vi, e[4], e[2]))
                ty = e[4]
                vi = None
            elif k == "d":
                vi = e[1]
            elif k == "i":
                iv = self.read(st, ("L", fr.id, e[1]), (), fr.body.locals[e[1]]["t"])
                ety = self.elem_ty(ty) if ty is not None else None
                path.append(("e", iv if isinstance(iv, Lin) else None, ety))
                ty = ety
            elif k == "ci":
                ety = self.elem_ty(ty) if ty is not None else None
                if e[2]:
                    v = self.read(st, root, path, None)
                    idx = v.len - e[1] if isinstance(v, VecV) else None
                else:
                    idx = Lin(e[1])
                path.append(("e", idx, ety))
                ty = ety
            elif k == "sub":
                v = self.read(st, root, path, None)
                ln = v.len if isinstance(v, VecV) else self.nat(("len", self.termof(v)))
                lo = Lin(e[1])
                hi = ln - e[2] if e[3] else Lin(e[2])
                path.append(("sub", lo, hi))
            else:
                path.append(("?",))
                ty = None
        return root, tuple(path), pl.get("t", ty)

    def rd(self, st, fr, pl):
        root, path, ty = self.loc(st, fr, pl)
        v = self.read(st, root, path, ty)
        return self.coerce(v, ty)

    def const(self, st, fr, k):
        ty = k["ty"]
        if "fn" in k:
            return FnV(k["fn"])
        if "closure" in k:
            return Agg("closure:" + k["closure"], None, ())
        if "promoted" in k:
            return self.promoted(st, k["promoted"], ty)
        v = k.get("val")
        if v is None or "opaque" in v:
            n = k.get("named")
            if n and n in self.P.bodies:
                return self.promoted(st, n, ty)
            return self.mk(("const", n or str(k)), ty)
        if "int" in v and "char" not in v:
            return Lin(v["int"])
        if "char" in v:
            return Lin(v["int"])
        if "bool" in v:
            return BoolV(("c", v["bool"]))
        if "str" in v:
            return Ref(("str", v["str"]), (), None)
        if "float" in v:
            return Sym(("flt", v["float"]), ty)
        if "bytes" in v:
            return Sym(("bytes", tuple(v["bytes"])), ty)
        if "static" in v:
            return Ref(("static", v["static"]), (), self.strip_ref(ty))
        if "zst" in v:
            t = self.P.types[ty]
            if t["k"] == "tuple":
                return Agg("()", None, ())
            if t["k"] == "adt":
                a = self.P.adts.get(t["path"])
                if a and a["kind"] == "struct":
                    return Agg(t["path"], None, (), None, ty)
                if a and a["kind"] == "enum" and len(a["variants"]) == 1:
                    return Agg(t["path"], 0, (), None, ty)
            return self.mk(("zst", t["s"]), ty)
        if "bits" in v:
            t = self.P.types[ty]
            if t["k"] == "adt":
                a = self.P.adts.get(t["path"])
                if a and a["kind"] == "enum":
                    for i, vr in enumerate(a["variants"]):
                        if vr.get("discr") == v["bits"] and not vr["fields"]:
                            return Agg(t["path"], i, (), None, ty)
            return self.mk(("bits", t["s"], v["bits"]), ty)
        return self.mk(("const", k.get("named") or str(v)), ty)

    def promoted(self, st, pid, ty):
        b = self.P.bodies.get(pid)
        if b is None or len(b.blocks) > 60:
            return self.mk(("prom", pid), ty)
        fid = ("prom", pid)
        key = ("L", fid, 0)
        if key in st.mem:
            return st.mem[key]
        fr = Frame(fid, b, 0, (), self.n)
        rec, self.recording = self.recording, None
        try:
            outs = {}
            s0 = st.copy()
            self.region(fr, 0, set(b.rpo()), [s0], outs, None)
            rs = outs.get("ret", [])
            if len(rs) == 1:
                s1 = rs[0]
                for r, v in s1.mem.items():
                    if r[0] == "L" and r[1] == fid or r not in st.mem:
                        st.mem[r] = v
                st.ge, st.eq, st.ne = s1.ge, s1.eq, s1.ne
                v = st.mem.get(key)
                if v is not None:
                    return v
        finally:
            self.recording = rec
        return self.mk(("prom", pid), ty)

    def op(self, st, fr, o):
        if "cp" in o:
            return self.rd(st, fr, o["cp"])
        if "mv" in o:
            return self.rd(st, fr, o["mv"])
        if "k" in o:
            return self.const(st, fr, o["k"])
        return self.fresh_val(None, "op")

    def opty(self, fr, o):
        p = o.get("cp") or o.get("mv")
        if p is not None:
            return p.get("t")
        return o["k"]["ty"] if "k" in o else None

    # ---------------------------------------------------------------- rvalues
    def asf(self, v):
        """formula of a boolean value"""
        if isinstance(v, BoolV):
            return v.f
        if isinstance(v, Lin):
            if v.is_const():
                return ("c", v.c != 0)
            return ("not", ("eq", v))
        return ("s", self.termof(v))

    def known(self, st, f):
        k = self.truth(st, f)
        return f if k is None else TRUE if k else FALSE

    def cmp(self, op, a, b):
        d = a - b
        if op == "Eq":
            return ("eq", d) if d.t else ("c", d.c == 0)
        if op == "Ne":
            return fnot(("eq", d)) if d.t else ("c", d.c != 0)
        l = {"Ge": d, "Gt": d - 1, "Le": -d, "Lt": -d - 1}[op]
        return ("ge", l) if l.t else ("c", l.c >= 0)

    def binop(self, st, op, a, b, ty):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, Lin) and isinstance(b, Lin):
                return BoolV(self.cmp(op, a, b))
            if isinstance(a, BoolV) or isinstance(b, BoolV):
                fa, fb = self.asf(a), self.asf(b)
                if fb[0] == "c" or fa[0] == "c":
                    if fa[0] == "c":
                        fa, fb = fb, fa
                    r = fa if fb[1] else fnot(fa)
                    return BoolV(r if op == "Eq" else fnot(r)) if op in ("Eq", "Ne") else BoolV(("s", self.fresh()))
                e = f_or(fand(fa, fb), fand(fnot(fa), fnot(fb)))
                return BoolV(e if op == "Eq" else fnot(e)) if op in ("Eq", "Ne") else BoolV(("s", self.fresh()))
            return BoolV(("s", ("cmp", op, self.termof(a), self.termof(b))))
        if op.endswith("WithOverflow"):
            r = self.arith(st, op[:-12], a, b, None)
            lo, hi = None, None
            return Agg("tuple", None, (r, BoolV(("s", self.fresh("ovf")))))
        if op in ("BitAnd", "BitOr", "BitXor") and (isinstance(a, BoolV) or isinstance(b, BoolV)):
            fa, fb = self.known(st, self.asf(a)), self.known(st, self.asf(b))
            if op == "BitAnd":
                return BoolV(fand(fa, fb))
            if op == "BitOr":
                return BoolV(f_or(fa, fb))
            return BoolV(f_or(fand(fa, fnot(fb)), fand(fnot(fa), fb)))
        return self.arith(st, op, a, b, ty)

    def arith(self, st, op, a, b, ty):
        if op in ("AddUnchecked",):
            op = "Add"
        if op in ("SubUnchecked",):
            op = "Sub"
        if isinstance(a, Lin) and isinstance(b, Lin):
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mul":
                if a.is_const():
                    return b.scale(a.c)
                if b.is_const():
                    return a.scale(b.c)
                x, y = sorted((a, b), key=repr)
                m = self.atom(("mul", x, y))
                if self.entails(st, a) and self.entails(st, b):
                    self.add_ge(st, m, False)
                    if self.entails(st, b - 1):
                        self.add_ge(st, m - a, False)
                    if self.entails(st, a - 1):
                        self.add_ge(st, m - b, False)
                return m
            if op == "Shr" and b.is_const() and 0 <= b.c < 64 and self.entails(st, a):
                return self.arith(st, "Div", a, Lin(1 << b.c), ty)
            if op == "Div":
                if b.is_const() and b.c > 0:
                    if a.is_const() and a.c >= 0:
                        return Lin(a.c // b.c)
                    q = self.atom(("div", a, b))
                    if self.entails(st, a):
                        self.add_ge(st, a - q.scale(b.c), False)
                        self.add_ge(st, q.scale(b.c) + (b.c - 1) - a, False)
                        self.add_ge(st, q, False)
                    return q
                q = self.atom(("div", a, b))
                if self.entails(st, a) and self.entails(st, b - 1):
                    self.add_ge(st, q, False)
                    self.add_ge(st, a - q, False)
                return q
            if op == "Rem":
                if a.is_const() and b.is_const() and b.c > 0 and a.c >= 0:
                    return Lin(a.c % b.c)
                if b.is_const() and b.c > 0 and self.entails(st, a):
                    q = self.arith(st, "Div", a, b, ty)
                    return a - q.scale(b.c)
                r = self.atom(("rem", a, b))
                if self.entails(st, a):
                    self.add_ge(st, r, False)
                    self.add_ge(st, a - r, False)
                    if self.entails(st, b - 1):
                        self.add_ge(st, b - r - 1, False)
                return r
            t = ("bin", op, a, b)
            return self.mk(t, ty) if ty is not None else self.atom(t)
        t = ("bin", op, self.termof(a), self.termof(b))
        return self.mk(t, ty)

    def cast(self, st, kind, v, from_ty, to_ty):
        k = self.tyk(to_ty)
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or "Unsize" in kind or \
                kind.startswith("Transmute") or kind.startswith("Subtype"):
            return v if not kind.startswith("Transmute") else (v if k not in ("int", "uint") else self.fresh_val(to_ty))
        if isinstance(v, BoolV):
            b = self.truth(st, v.f)
            if b is not None:
                return Lin(1 if b else 0)
            a = self.atom(("b2i", v.f), None, 0, 1)
            return a
        if isinstance(v, Lin) and k in ("int", "uint", "char"):
            lo, hi = self.range_of(to_ty)
            if v.is_const():
                if (lo is None or v.c >= lo) and (hi is None or v.c <= hi):
                    return v
                if k == "uint" and hi is not None:
                    return Lin(v.c % (hi + 1))
            fl, fh = self.range_of(from_ty) if from_ty is not None and self.is_int(from_ty) else (None, None)
            okl = lo is None or (fl is not None and fl >= lo) or self.entails(st, v - lo)
            okh = hi is None or (fh is not None and fh <= hi) or self.entails(st, Lin(hi) - v)
            if okl and okh:
                return v
            c = self.mk(("cast", self.P.types[to_ty]["s"], v), to_ty)
            # truncation of a non-negative value never grows
            if okl and k == "uint":
                self.add_ge(st, v - c, False)
            return c
        if kind.startswith("IntToFloat") or kind.startswith("FloatToFloat"):
            return self.mk(("cast", self.P.types[to_ty]["s"], self.termof(v)), to_ty)
        if kind.startswith("FloatToInt"):
            return self.mk(("f2i", self.P.types[to_ty]["s"], self.termof(v)), to_ty)
        if isinstance(v, Agg) and v.vi is not None and k in ("int", "uint"):
            return Lin(self.discr_val(v.path, v.vi))
        if isinstance(v, Sym) and k in ("int", "uint"):
            return self.mk(("cast", self.P.types[to_ty]["s"], v.term), to_ty)
        return v if k == "ptr" or k == "ref" else self.fresh_val(to_ty)

    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.op(st, fr, r[1])
        if k == "bin":
            return self.binop(st, r[1], self.op(st, fr, r[2]), self.op(st, fr, r[3]), dty)
        if k == "un":
            v = self.op(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(v, BoolV):
                    return BoolV(fnot(v.f))
                return self.mk(("not", self.termof(v)), dty)
            if r[1] == "Neg":
                if isinstance(v, Lin):
                    return -v
                return self.mk(("neg", self.termof(v)), dty)
            if r[1] == "PtrMetadata":
                x = self.peel(st, v)
                if isinstance(x, VecV):
                    return x.len
                return self.nat(("len", self.termof(x)))
            return self.fresh_val(dty)
        if k == "cast":
            return self.cast(st, r[1], self.op(st, fr, r[2]), self.opty(fr, r[2]), r[3])
        if k in ("ref", "rawptr"):
            pl = r[2] if k == "ref" else r[1]
            root, path, ty = self.loc(st, fr, pl)
            return Ref(root, path, ty)
        if k == "discr":
            v = self.rd(st, fr, r[1])
            return self.discr(st, v, r[1].get("t"))
        if k == "agg":
            vals = [self.op(st, fr, o) for o in r[2]]
            kk = r[1]["k"]
            if kk == "adt":
                a = self.P.adts.get(r[1]["path"])
                vi = r[1]["vi"] if a and a["kind"] == "enum" else None
                return Agg(r[1]["path"], vi, vals, None, dty)
            if kk == "tuple":
                return Agg("tuple" if vals else "()", None, vals)
            if kk == "closure":
                return Agg("closure:" + r[1]["path"], None, vals)
            if kk == "array":
                ety = self.elem_ty(dty) if dty is not None and self.tyk(dty) == "array" else None
                return VecV(("arr", tuple(self.termof(v) for v in vals)), Lin(len(vals)),
                            tuple((Lin(i), v) for i, v in enumerate(vals)), ety)
            return self.fresh_val(dty)
        if k == "repeat":
            v = self.op(st, fr, r[1])
            n = r[2]
            return VecV(("vrep", self.termof(v), n), Lin(n) if n is not None else self.nat(self.fresh("n")))
        return self.fresh_val(dty, "rv")

    # ---------------------------------------------------------------- obligations
    def site(self, fr, blk, kind):
        """stable key of an obligation: function + kind + ordinal among the same kind"""
        b = fr.body
        key = (b.id, blk, kind)
        if not hasattr(self, "_ord"):
            self._ord = {}
        if b.id not in self._ord:
            o, cnt = {}, {}
            for i in range(len(b.blocks)):
                t = b.blocks[i]["t"]
                kk = None
                if t["k"] == "assert":
                    kk = t["msg"]
                elif t["k"] == "call":
                    f = callee(t)
                    kk = "call:" + (f["path"] if f else "?")
                if kk:
                    cnt[kk] = cnt.get(kk, 0) + 1
                    o[i] = (kk, cnt[kk])
            self._ord[b.id] = o
        return key

    def obligation(self, fr, blk, kind, ok, detail=""):
        if self.recording is not True:
            return
        key = self.site(fr, blk, kind)
        o = self.oblig.get(key)
        if o is None:
            o = self.oblig[key] = {"fn": fr.body.path, "file": fr.body.file, "line": fr.body.ln(blk), "kind": kind,
                                   "ok": True, "n": 0, "detail": "", "chain": ()}
        o["n"] += 1
        if not ok and o["ok"]:
            o["ok"] = False
            o["detail"] = detail
            o["chain"] = fr.chain

    # ---------------------------------------------------------------- execution
    def loops(self, b):
        if b.id in self._loops:
            return self._loops[b.id]
        dom = b.doms()
        L = {}
        for u in b.rpo():
            for v in b.succ(u):
                if v in dom.get(u, ()):
                    body = L.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(b.pred(x))
        self._loops[b.id] = L
        return L

    def region(self, fr, head, blocks, in_states, exits, loop_head):
        b = fr.body
        loops = self.loops(b)
        pend = {head: list(in_states)}
        skip = set()
        backs = []

        def route(t, ss):
            if loop_head is not None and t == loop_head:
                backs.extend(ss)
            elif t == "ret":
                exits.setdefault("ret", []).extend(ss)
            elif t in blocks:
                pend.setdefault(t, []).extend(ss)
            else:
                exits.setdefault(t, []).extend(ss)

        for blk in b.rpo():
            if blk not in blocks or blk in skip:
                continue
            sts = pend.pop(blk, None)
            if not sts:
                continue
            if blk in loops and blk != loop_head:
                inner = loops[blk]
                skip |= inner
                ex = {}
                self.loop(fr, blk, inner, sts, ex)
                for t, ss in ex.items():
                    route(t, ss)
                continue
            if len(sts) > 1 and (len(sts) > self.max_states or len(b.pred(blk)) > 1):
                for s in sts:
                    self.gc(s, fr.n0, (), fr, blk)
                sts = self.limit(sts)
            for st in sts:
                for (t, s2) in self.step(fr, blk, st):
                    route(t, [s2])
        return backs

    def limit(self, sts):
        # identical states are merged; above the budget, join per ghost/variant key
        out, seen = [], set()
        for s in sts:
            k = self.statekey(s)
            if k in seen:
                continue
            seen.add(k)
            out.append(s)
        if len(out) <= self.max_states:
            return out
        groups = {}
        for s in out:
            groups.setdefault(s.ghost, []).append(s)
        res = []
        per = max(1, self.max_states // (2 * len(groups)))
        for g in groups.values():
            if len(g) <= per:
                res += g
            else:
                # split in `per` chunks of neighbours
                n = (len(g) + per - 1) // per
                for i in range(0, len(g), n):
                    res.append(self.join(g[i:i + n]))
        return res

    def statekey(self, s):
        return (tuple(sorted(((k, self.vkey(v)) for k, v in s.mem.items()), key=lambda x: repr(x[0]))),
                frozenset(s.ge), frozenset(s.eq), frozenset(s.ne), frozenset(s.bs.items()),
                frozenset((k, v) for k, v in s.disc.items()), s.ghost)

    def vkey(self, v):
        return v

    def opened_bool(self, st, fr, r):
        v = self.op(st, fr, r[2])
        if isinstance(v, BoolV) and self.truth(st, v.f) is None:
            return v.f
        return None

    def step(self, fr, blk, st, i0=0):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exhausted in %s" % fr.body.path)
        b = fr.body
        bl = b.blocks[blk]
        for i, s in enumerate(bl["s"]):
            if i < i0:
                continue
            if s[0] == "=":
                if s[2][0] == "cast":
                    f = self.opened_bool(st, fr, s[2])
                    if f is not None:
                        # the number made of an unknown boolean: one state per value
                        out = []
                        for s2 in self.assume(st.copy(), f, True) + self.assume(st, f, False):
                            out += self.step(fr, blk, s2, i)
                        return out
                v = self.rvalue(st, fr, s[2], s[1].get("t"))
                root, path, ty = self.loc(st, fr, s[1])
                self.write(st, root, path, v)
            elif s[0] == "dead":
                st.mem.pop(("L", fr.id, s[1]), None)
        t = bl["t"]
        k = t["k"]
        if k == "goto" or k == "drop":
            return [(t["to"], st)]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "resume", "other"):
            return []
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "assert":
            return self.do_assert(fr, blk, t, st)
        if k == "call":
            return self.do_call(fr, blk, t, st)
        return []

    def switch(self, fr, t, st):
        v = self.op(st, fr, t["d"])
        out = []
        if isinstance(v, BoolV):
            # arms: [0, bb] else
            rest = st
            f = v.f
            arms = t["arms"]
            if len(arms) == 1 and arms[0][0] == 0:
                tr = self.truth(st, f)
                if tr is not True:
                    for s in self.assume(st.copy(), f, False):
                        out.append((arms[0][1], s))
                if tr is not False:
                    for s in self.assume(st.copy(), f, True):
                        out.append((t["else"], s))
                return out
        if not isinstance(v, Lin):
            if isinstance(v, BoolV):
                v = self.cast(st, "b", v, None, t["ty"])
            else:
                v = self.atom(("sw", self.termof(v)))
        if v.is_const():
            for a in t["arms"]:
                if a[0] == v.c or (v.c < 0 and a[0] == v.c % (1 << 64)) or (v.c < 0 and a[0] == v.c % (1 << 32)):
                    return [(a[1], st)]
            return [(t["else"], st)]
        term = self.A.terms[v.t[0][0]] if (len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0) else None
        isd = isinstance(term, tuple) and term[0] == "disc"
        rest = st.copy()
        alive = True
        for a in t["arms"]:
            s2 = st.copy()
            s2.ne = rest.ne
            if self.add_eq(s2, v - a[0]):
                if isd:
                    s2.disc[term[1]] = a[0]
                out.append((a[1], s2))
            if alive and not self.add_ne(rest, v - a[0]):
                alive = False
        if alive and fr.body.term(t["else"])["k"] != "unreachable":
            if isd and term[1] in self.disc_n:
                # the only variant left
                left = [k for k in range(self.disc_n[term[1]]) if all(a[0] != k for a in t["arms"])]
                if not left:
                    return out
                if len(left) == 1:
                    if not self.add_eq(rest, v - left[0]):
                        return out
                    rest.disc[term[1]] = left[0]
            out.append((t["else"], rest))
        return out

    def do_assert(self, fr, blk, t, st):
        msg = t["msg"]
        kind = msg
        ops = [self.op(st, fr, o) for o in t["ops"]]
        ok = False
        cond = None
        if msg.startswith("overflow:"):
            opn = msg.split(":")[1]
            oty = self.opty(fr, t["ops"][0])
            if all(isinstance(o, Lin) for o in ops) and oty is not None:
                lo, hi = self.range_of(oty)
                if opn == "Neg":
                    r = -ops[0]
                else:
                    r = None
                    if opn in ("Add", "Sub", "Mul"):
                        r = self.arith(st, opn, ops[0], ops[1], None)
                if r is not None:
                    if opn == "Sub" and lo == 0:
                        cond = [r]
                    elif opn in ("Add", "Mul"):
                        cond = [Lin(hi) - r] if hi is not None else []
                        if lo is not None and lo < 0:
                            cond.append(r - lo)
                    else:
                        cond = ([r - lo] if lo is not None else []) + ([Lin(hi) - r] if hi is not None else [])
        elif msg == "bounds":
            if all(isinstance(o, Lin) for o in ops):
                cond = [ops[0] - ops[1] - 1]
        elif msg in ("divzero", "remzero"):
            pass
        if cond is None:
            f = self.asf(self.op(st, fr, t["c"]))
            if not t["exp"]:
                f = fnot(f)
            ok = self.truth(st, f) is True
            self.obligation(fr, blk, kind, ok, str(f)[:200])
            return [(t["to"], s) for s in self.assume(st, f, True)]
        ok = all(self.entails(st, c) for c in cond)
        self.obligation(fr, blk, kind, ok, "" if ok else "not proven: " + " ; ".join(self.showlin(c) + " >= 0" for c in cond))
        for c in cond:
            if not self.add_ge(st, c):
                return []
        return [(t["to"], st)]

    def showlin(self, l):
        parts = []
        for a, k in l.t:
            parts.append("%+d*%s" % (k, show(self.A.terms[a])[:80]))
        if l.c or not parts:
            parts.append("%+d" % l.c)
        return " ".join(parts)

    # ---------------------------------------------------------------- calls
    def do_call(self, fr, blk, t, st):
        args = [self.op(st, fr, a) for a in t["args"]]
        atys = [self.opty(fr, a) for a in t["args"]]
        fn = callee(t)
        if fn is None:
            fv = self.op(st, fr, t["f"])
            if isinstance(fv, FnV):
                fn = fv.fn
            elif isinstance(fv, Agg) and fv.path.startswith("closure:"):
                pass
        dty = t["dst"].get("t")
        res = self.call(fr, blk, st, fn, args, atys, dty)
        out = []
        for (s, v) in res:
            if t.get("to") is None:
                continue
            root, path, ty = self.loc(s, fr, t["dst"])
            self.write(s, root, path, v)
            out.append((t["to"], s))
        return out

    def call(self, fr, blk, st, fn, args, atys, dty):
        """-> list of (state, value)"""
        if fn is None:
            for a, ty in zip(args, atys):
                self.havoc_reach(st, a, ty)
            return [(st, self.fresh_val(dty, "ind"))]
        path = fn["path"]
        if self.on_call is not None:
            r = self.on_call(self, fr, blk, st, path, fn, args)
            if r is not None:
                return r
        r = self.call_inner(fr, blk, st, fn, path, args, atys, dty)
        if self.after_call is not None:
            r2 = []
            for (s, v) in r:
                x = self.after_call(self, fr, blk, s, path, fn, args, v)
                if x is None:
                    r2.append((s, v))
                else:
                    r2.extend(x)
            r = r2
        return r

    def call_inner(self, fr, blk, st, fn, path, args, atys, dty):
        m = self.models.lookup(self, fn)
        if m is not None:
            r = m(self, fr, blk, st, fn, args, atys, dty)
            if r is not None:
                return r
        rid = fn.get("rid") or fn.get("id")
        b = self.P.bodies.get(rid)
        if b is not None and fn.get("rkind") != "virtual" and fr.depth < self.max_depth and \
                b.id not in [x for x, _ in fr.chain] and b.id != fr.body.id and self.inline_ok(b):
            if b.kind == "closure" and len(args) == 2 and str(fn.get("trait")).split("::")[-1] in ("Fn", "FnMut", "FnOnce") and \
                    isinstance(args[1], Agg) and args[1].vi is None:
                # the arguments of a call by trait are in a tuple
                args = [args[0]] + list(args[1].fields)
                t0 = b.locals[1]["t"]
                if self.tyk(t0) == "ref" and not isinstance(args[0], Ref):
                    return self.call_closure(fr, blk, st, args[0], args[1:])
            return self.call_body(st, b, args, fr, blk)
        return self.opaque(st, fn, args, atys, dty)

    def opaque(self, st, fn, args, atys, dty, pure=False):
        if not pure:
            self.unmodelled[fn["path"]] = self.unmodelled.get(fn["path"], 0) + 1
            for a, ty in zip(args, atys):
                self.havoc_reach(st, a, ty)
        t = self.fresh("call:" + fn["path"].split("::")[-1])
        v = self.mk(t, dty)
        # a returned &mut may alias a &mut argument
        if dty is not None:
            rt = self.P.types[dty]
            if "&" in rt["s"] and "mut" in rt["s"]:
                locs = []
                for a, ty in zip(args, atys):
                    if ty is not None and self.tyk(ty) == "ref" and self.P.types[ty]["mut"]:
                        r = self.toref(a)
                        if r is not None:
                            locs.append((r.root, r.path))
                if locs:
                    st.alias[("d", t)] = tuple(locs)
                    st.alias[("d", ("f", t, 1, 0, "0"))] = tuple(locs)
        return [(st, v)]

    def call_closure(self, fr, blk, st, cv, args):
        """call a closure / fn value with a list of argument values -> [(st, val)]"""
        if isinstance(cv, Ref):
            inner = self.read(st, cv.root, cv.path)
            if isinstance(inner, (Agg, FnV)):
                cref = cv
                cv = inner
            else:
                cref = None
        else:
            cref = None
        if isinstance(cv, FnV):
            fn = cv.fn
            # constructors used as functions
            b = self.P.bodies.get(fn.get("rid") or fn.get("id"))
            if b is None:
                c = self.ctor(fn, args)
                if c is not None:
                    return [(st, c)]
            return self.call(fr, blk, st, fn, args, [None] * len(args), None)
        if isinstance(cv, Agg) and cv.path.startswith("closure:"):
            b = self.P.bodies.get(cv.path[8:])
            if b is not None and fr.depth < self.max_depth:
                t0 = b.locals[1]["t"] if b.argc >= 1 else None
                envv = cv
                if t0 is not None and self.tyk(t0) == "ref":
                    if cref is None:
                        root = ("C", self.fresh("env"))
                        st.mem[root] = cv
                        cref = Ref(root, ())
                        r = self.call_body(st, b, [cref] + list(args), fr, blk)
                        for s, _ in r:
                            s.mem.pop(root, None)
                        return r
                    envv = cref
                # closure args after env are untupled in MIR
                return self.call_body(st, b, [envv] + list(args), fr, blk)
        return [(st, self.fresh_val(None, "closure"))]

    def ctor(self, fn, args):
        p = fn["path"]
        for suffix, adt, vi in (("Option::Some", "core::option::Option", 1), ("Result::Ok", "core::result::Result", 0),
                                ("Result::Err", "core::result::Result", 1)):
            if p.endswith(suffix):
                return Agg(adt, vi, args)
        i = fn.get("id", "")
        # Adt::Variant::{constructor#0}
        segs = i.split("::")
        if segs and segs[-1].startswith("{constructor"):
            a = self.P.adts.get("::".join(segs[:-1]))
            if a:
                return Agg(a["path"], None, args)
            a = self.P.adts.get("::".join(segs[:-2]))
            if a:
                for k, v in enumerate(a["variants"]):
                    if v["name"] == segs[-2]:
                        return Agg(a["path"], k, args)
        return None

    def call_body(self, st, b, args, fr=None, blk=None):
        self.nframe += 1
        fid = self.nframe
        chain = (fr.chain + ((fr.body.id, blk),)) if fr is not None else ()
        f2 = Frame(fid, b, fr.depth + 1 if fr is not None else 0, chain, self.n)
        self.analysed.add(b.id)
        for i, a in enumerate(args):
            ty = b.locals[i + 1]["t"] if i + 1 < len(b.locals) else None
            st.mem[("L", fid, i + 1)] = self.coerce(a, ty) if a is not None else self.fresh_val(ty)
        # closures called with a tuple
        outs = {}
        self.region(f2, 0, set(b.rpo()), [st], outs, None)
        res = []
        rets = outs.get("ret", [])
        for s in rets:
            v = s.mem.get(("L", fid, 0))
            if v is None:
                v = self.fresh_val(b.locals[0]["t"], "ret")
            res.append((s, v))
        # drop the frame
        for s, _ in res:
            for k in [k for k in s.mem if k[0] == "L" and k[1] == fid]:
                # keep locals that are still referenced (temporaries promoted by reference)
                del s.mem[k]
        for s, v in res:
            self.gc(s, f2.n0, (v,))
        if len(res) > 1:
            res = self.merge_results(res, b)
        return res

    def merge_results(self, res, b):
        """identical results merged; joined by (ghost, returned variant) above the budget"""
        seen, out = set(), []
        for s, v in res:
            k = (self.statekey(s), v)
            if k in seen:
                continue
            seen.add(k)
            out.append((s, v))
        lim = max(2, self.max_states // 3)
        if len(out) <= lim:
            return out
        RV = ("RV", b.id)
        groups = {}
        for s, v in out:
            tag = (s.ghost, self.shape(v))
            s.mem[RV] = v
            groups.setdefault(tag, []).append(s)
        r = []
        per = max(1, lim // len(groups))
        for g in groups.values():
            n = (len(g) + per - 1) // per
            for i in range(0, len(g), n):
                ch = g[i:i + n]
                s = self.join(ch) if len(ch) > 1 else ch[0]
                r.append((s, s.mem.pop(RV)))
        return r

    def shape(self, v):
        if isinstance(v, Agg):
            return (v.path, v.vi) + tuple(self.shape(f) if isinstance(f, Agg) else None for f in v.fields)
        if isinstance(v, BoolV) and v.f[0] == "c":
            return v.f
        if isinstance(v, Lin) and v.is_const():
            return ("int",)
        return type(v).__name__

    # ---------------------------------------------------------------- garbage collection
    def ids(self, t):
        """fresh identifiers occurring in a term (cached by object identity)"""
        if not isinstance(t, tuple):
            if isinstance(t, Lin):
                return self.lin_ids(t)
            return EMPTY
        c = self._ids.get(id(t))
        if c is not None:
            return c[1]
        if len(t) == 3 and t[0] == "#":
            r = frozenset((t[2],))
        else:
            r = EMPTY
            for x in t:
                if isinstance(x, tuple):
                    y = self.ids(x)
                elif isinstance(x, Lin):
                    y = self.lin_ids(x)
                elif isinstance(x, (Sym, Agg, Ref, VecV, BoolV)):
                    y = self.val_ids(x)
                else:
                    continue
                if y and not y <= r:
                    r = r | y
        self._ids[id(t)] = (t, r)
        return r

    def lin_ids(self, l):
        r = self._lids.get(l)
        if r is None:
            r = EMPTY
            for a, _ in l.t:
                r = r | self.atom_ids(a)
            self._lids[l] = r
        return r

    def atom_ids(self, a):
        r = self._aids.get(a)
        if r is None:
            r = self._aids[a] = self.ids(self.A.terms[a])
        return r

    def val_ids(self, v):
        if isinstance(v, Lin):
            return self.lin_ids(v)
        if isinstance(v, Sym):
            return self.ids(v.term)
        if isinstance(v, BoolV):
            return self.ids(v.f)
        if isinstance(v, FnV) or v is None:
            return EMPTY
        if isinstance(v, tuple):
            return self.ids(v)
        if isinstance(v, Ref):
            r = self.ids(v.root)
            for e in v.path:
                if e[0] in ("e", "sub"):
                    r = r | self.ids(e)
            return r
        if isinstance(v, VecV):
            r = self.ids(v.term) | self.lin_ids(v.len)
            for i, x in v.writes:
                if isinstance(i, Lin):
                    r = r | self.lin_ids(i)
                r = r | self.val_ids(x)
            return r
        if isinstance(v, Agg):
            c = self._vids.get(id(v))
            if c is not None:
                return c[1]
            r = self.ids(v.base) if isinstance(v.base, tuple) else EMPTY
            for x in v.fields:
                if x is not None:
                    r = r | self.val_ids(x)
            self._vids[id(v)] = (v, r)
            return r
        return EMPTY

    def refs_in(self, v, out):
        """roots referenced by a value"""
        if isinstance(v, Ref):
            out.add(v.root)
        elif isinstance(v, Agg):
            for x in v.fields:
                if isinstance(x, (Ref, Agg, VecV)):
                    self.refs_in(x, out)
        elif isinstance(v, VecV):
            for i, x in v.writes:
                self.refs_in(x, out)

    def gc(self, st, n0, extra=(), fr=None, blk=None):
        """forget roots and facts that depend on identifiers created after n0 and no longer
        reachable from a live local (nor from the extra values)"""
        live = set()
        pend = []
        lroots = None
        if fr is not None and blk is not None:
            lroots = fr.body.live_in()[blk]
            dead = [r for r in st.mem if r[0] == "L" and r[1] == fr.id and r[2] not in lroots]
            if dead:
                refd = set()
                ds = set(dead)
                for r, v in st.mem.items():
                    if r not in ds:
                        self.refs_in(v, refd)
                for ls in st.alias.values():
                    refd.update(r2 for r2, _ in ls)
                ch = True
                while ch:
                    ch = False
                    for r in list(ds):
                        if r in refd:
                            ds.discard(r)
                            self.refs_in(st.mem[r], refd)
                            ch = True
                for r in ds:
                    del st.mem[r]
        ss = {r for r in st.mem if r[0] == "S"}
        if ss:
            # slices nobody refers to any more
            refd = set()
            for r, v in st.mem.items():
                if r[0] != "S":
                    self.refs_in(v, refd)
            for v in extra:
                self.refs_in(v, refd)
            for ls in st.alias.values():
                refd.update(r2 for r2, _ in ls)
            todo = [r for r in ss if r in refd]
            while todo:
                r = todo.pop()
                ss.discard(r)
                new = set()
                self.refs_in(st.mem[r], new)
                todo += [x for x in new if x in ss]
            for r in ss:
                del st.mem[r]
        for root, v in st.mem.items():
            if root[0] in ("L", "RV"):
                live |= self.val_ids(v)
            else:
                pend.append(root)
        for v in extra:
            live |= self.val_ids(v)
        for k, v in st.ghost:
            live |= self.ids(k) if isinstance(k, tuple) else EMPTY
            live |= self.ids(v) if isinstance(v, tuple) else self.val_ids(v) if not isinstance(v, (str, int, frozenset, type(None))) else EMPTY

        def ok(i):
            return all(x <= n0 or x in live for x in i)
        ch = True
        kept = []
        while ch:
            ch = False
            np = []
            for root in pend:
                if ok(self.ids(root)):
                    live |= self.val_ids(st.mem[root])
                    for (r2, p2) in st.alias.get(root, ()):
                        live |= self.ids(r2)
                    ch = True
                else:
                    np.append(root)
            pend = np
        for root in pend:
            del st.mem[root]
        for r in [r for r in st.alias if not ok(self.ids(r))]:
            del st.alias[r]
        dead = set()
        for l in st.ge + st.eq + st.ne:
            for a, _ in l.t:
                if a not in dead and not ok(self.atom_ids(a)):
                    dead.add(a)
        if dead:
            lost = [k for k in st.bs if isinstance(k, tuple) and not ok(self.ids(k))]
            if lost:
                self.rescue(st, lost, dead, ok)
            self.project(st, dead)
        for d in (st.bs, st.disc):
            for k in [k for k in d if not ok(self.ids(k))]:
                del d[k]

    def rescue(self, st, lost, dead, ok):
        """facts on the elements at indexes nobody knows any more are kept as facts on equal indexes"""
        same = {}
        want = set()

        def atoms(t):
            if isinstance(t, Lin):
                want.update(a for a, _ in t.t if a in dead)
            elif isinstance(t, tuple):
                for x in t:
                    atoms(x)
        for k in lost:
            atoms(k)
        for a in want:
            near = {b for l in st.ge + st.eq if len(l.t) == 2 and any(x == a for x, _ in l.t) for b, _ in l.t} - {a}
            far = {b for l in st.ge + st.eq if len(l.t) == 2 and any(x in near for x, _ in l.t) for b, _ in l.t} - {a} - near
            for b in sorted(near) + sorted(far):
                if b not in dead and self.entails_eq0(st, Lin(0, ((a, 1),)) + Lin(0, ((b, -1),))):
                    same[a] = Lin(0, ((b, 1),))
                    break
        if not same:
            return

        def sub(t):
            if isinstance(t, Lin):
                return t.subst(same) if any(a in same for a, _ in t.t) else t
            if isinstance(t, tuple):
                return tuple(sub(x) for x in t)
            return t
        for k in lost:
            k2 = sub(k)
            if k2 != k and ok(self.ids(k2)) and k2 not in st.bs:
                st.bs[k2] = st.bs[k]

    def project(self, st, dead):
        """eliminate the dead atoms from the facts"""
        eqs, ges = list(st.eq), list(st.ge)
        nes = [n for n in st.ne if not any(a in dead for a, _ in n.t)]
        for a in dead:
            e0 = None
            for e in eqs:
                k = e.coef(a)
                if abs(k) == 1:
                    e0 = (e, k)
                    break
            if e0 is None:
                have = set(ges)
                for e in ges:       # two opposite inequalities are an equality
                    k = e.coef(a)
                    if abs(k) == 1 and -e in have:
                        e0 = (e, k)
                        break
            if e0:
                e, k = e0
                m = {a: Lin(e.c, tuple(x for x in e.t if x[0] != a)).scale(-k)}
                if self.A.lo[a] is not None:
                    ges.append(Lin(-self.A.lo[a], ((a, 1),)))
                if self.A.hi[a] is not None and self.A.hi[a] < 2**62:
                    ges.append(Lin(self.A.hi[a], ((a, -1),)))
                eqs = [x.subst(m) for x in eqs if x is not e]
                ges = [x.subst(m) for x in ges]
                continue
            for e in [e for e in eqs if e.coef(a)]:
                ges += [e, -e]
            eqs = [e for e in eqs if not e.coef(a)]
            pos = [l for l in ges if l.coef(a) > 0]
            neg = [l for l in ges if l.coef(a) < 0]
            ges = [l for l in ges if not l.coef(a)]
            if self.A.lo[a] is not None:
                pos.append(Lin(-self.A.lo[a], ((a, 1),)))
            if self.A.hi[a] is not None and self.A.hi[a] < 2**62:
                neg.append(Lin(self.A.hi[a], ((a, -1),)))
            n = len(pos) * len(neg)
            if n <= 400:
                for p in pos:
                    for q in neg:
                        # when there are many, only the simple consequences are worth it
                        if n > 36 and len({x for x, _ in p.t} | {x for x, _ in q.t}) > 4:
                            continue
                        kp, kn = p.coef(a), -q.coef(a)
                        g = gcd(kp, kn)
                        r = norm(p.scale(kn // g) + q.scale(kp // g))
                        if n <= 36 or len(r.t) <= 2:
                            ges.append(r)
        st.eq = tuple(dict.fromkeys(e for e in eqs if e.t))
        best = {}
        for l in ges:
            if not l.t:
                continue
            # implied by the bounds of the atoms
            lo = l.c
            for a, k in l.t:
                b = self.A.lo[a] if k > 0 else self.A.hi[a]
                if b is None:
                    lo = None
                    break
                lo += k * b
            if lo is not None and lo >= 0:
                continue
            if l.t not in best or l.c < best[l.t]:
                best[l.t] = l.c
        st.ge = tuple(Lin(c, t) for t, c in best.items())
        st.ne = tuple(nes)

    # ---------------------------------------------------------------- joins and loops
    def join(self, states):
        g = Gen(self, states[0])
        g.extend_many(states[1:])
        return g.result()

    def unrolled(self, fr, head, inner, sts, exits):
        """loops whose trip count is known on the given states are executed exactly"""
        out = {}
        cur = [s.copy() for s in sts]
        for s in cur:
            self.gc(s, fr.n0, (), fr, head)
        for it in range((self.unroll_for(self, fr, head, sts) if self.unroll_for else self.unroll) + 1):
            cur = self.heads(fr, head, self.region(fr, head, inner, cur, out, head))
            if not cur:
                for t, ss in out.items():
                    exits.setdefault(t, []).extend(ss)
                return True
            if len(cur) > self.unroll_paths * max(1, len(sts)) or sum(len(x) for x in out.values()) > 16 * self.unroll_paths:
                return False
            for s in cur:
                self.gc(s, fr.n0, (), fr, head)
        return False

    def heads(self, fr, head, sts):
        """the rule's specification variables are moved when a loop's head is reached"""
        if self.at_head is None:
            return sts
        out = []
        for s in sts:
            r = self.at_head(self, fr, head, s)
            out += [s] if r is None else r
        return out

    def loop(self, fr, head, inner, sts, exits):
        sts = self.heads(fr, head, sts)
        self.loop_(fr, head, inner, sts, exits)

    def loop_(self, fr, head, inner, sts, exits):
        if self.loop_each and len(sts) > 1:
            # each entry state by itself: what was written before the loop stays distinct
            for s in sts:
                self.gc(s, fr.n0, (), fr, head)
            for s in self.limit(sts):
                self.loop_(fr, head, inner, [s], exits)
            return
        if self.unroll and self.unrolled(fr, head, inner, sts, exits):
            return
        groups = {}
        for s in sts:
            self.gc(s, fr.n0, (), fr, head)
            groups.setdefault(self.loopkey(s), []).append(s)
        cur = {}
        for k, g in groups.items():
            gen = Gen(self, g[0], loop=True)
            if len(g) > 1:
                gen.extend_many(g[1:])
            cur[k] = gen
        rec = self.recording
        self.recording = False if rec is not None else None
        try:
            for it in range(30):
                changed = False
                for k in list(cur):
                    gen = cur[k]
                    backs = self.heads(fr, head, self.region(fr, head, inner, [gen.state()], {}, head))
                    by = {}
                    for s in backs:
                        self.gc(s, fr.n0, (), fr, head)
                        by.setdefault(self.loopkey(s), []).append(s)
                    for k2, ss in by.items():
                        if k2 not in cur:
                            cur[k2] = Gen(self, ss[0], loop=True)
                            if len(ss) > 1:
                                cur[k2].extend_many(ss[1:])
                            changed = True
                        else:
                            if cur[k2].extend_many(ss):
                                changed = True
                if not changed:
                    break
                if len(cur) > 64:
                    raise Budget("too many loop partitions in %s" % fr.body.path)
            else:
                raise Budget("loop does not stabilise in %s" % fr.body.path)
        finally:
            self.recording = rec
        for k in cur:
            self.region(fr, head, inner, [cur[k].state()], exits, head)

    def few(self, st, it):
        """does the iterator go through a known and small number of items?"""
        for _ in range(8):
            if not isinstance(it, Agg):
                return False
            if it.path in ("m:slice", "m:own") and all(isinstance(x, Lin) for x in it.fields[1:]):
                n = it.fields[2] - it.fields[1]
                return n.is_const() and n.c <= self.unroll
            if not it.path.startswith("m:") or not it.fields:
                return False
            it = it.fields[0]
        return False

    def synth(self, fr, blk, st, it, acc, step, keep=()):
        """a loop done by an adaptor: step(state, iterator, accumulator) -> [(state, iterator or None at the end, accumulator)];
        returns the [(state, accumulator)] of the ends"""
        self.nsyn = getattr(self, "nsyn", 0) + 1
        rit, racc = ("L", ("syn", self.nsyn), 0), ("L", ("syn", self.nsyn), 1)
        rkeep = ("L", ("syn", self.nsyn), 2)
        head = ("syn", blk)
        ends = []

        def run(sts, last):
            backs = []
            for s in sts:
                s = s.copy()
                i, a = s.mem.pop(rit), s.mem.pop(racc, None)
                # what the step holds is still known of in the loops it does itself
                s.mem[rkeep] = Agg("m:kept", None, (i, a) + tuple(keep))
                for s2, i2, a2 in step(s, i, a):
                    s2.mem.pop(rkeep, None)
                    if i2 is None:
                        if last:
                            ends.append((s2, a2))
                        continue
                    s2.mem[rit] = i2
                    if a2 is not None:
                        s2.mem[racc] = a2
                    backs.append(s2)
            return backs
        st = st.copy()
        st.mem[rit] = it
        if acc is not None:
            st.mem[racc] = acc
        if self.adaptors and self.unroll and self.few(st, it):
            # as many turns as there are items
            now = [st]
            for n in range(self.unroll + 1):
                nxt = []
                for s in now:
                    s = s.copy()
                    i, a = s.mem.pop(rit), s.mem.pop(racc, None)
                    s.mem[rkeep] = Agg("m:kept", None, (i, a) + tuple(keep))
                    for s2, i2, a2 in step(s, i, a):
                        s2.mem.pop(rkeep, None)
                        if i2 is None:
                            ends.append((s2, a2))
                            continue
                        s2.mem[rit] = i2
                        if a2 is not None:
                            s2.mem[racc] = a2
                        nxt.append(s2)
                now = nxt
                if not now:
                    return ends
                if len(now) + len(ends) > self.max_states:
                    break
            ends.clear()
        cur = {}
        for s in self.heads(fr, head, [st]):
            cur[self.loopkey(s)] = Gen(self, s, loop=True)
        rec = self.recording
        self.recording = False if rec is not None else None
        try:
            for n in range(30):
                changed = False
                for k in list(cur):
                    by = {}
                    for s in self.heads(fr, head, run([cur[k].state()], False)):
                        self.gc(s, fr.n0)
                        by.setdefault(self.loopkey(s), []).append(s)
                    for k2, ss in by.items():
                        if k2 not in cur:
                            cur[k2] = Gen(self, ss[0], loop=True)
                            changed = True
                            ss = ss[1:]
                        if ss and cur[k2].extend_many(ss):
                            changed = True
                if not changed:
                    break
                if len(cur) > 64:
                    raise Budget("too many loop partitions in %s" % fr.body.path)
            else:
                raise Budget("loop does not stabilise in %s" % fr.body.path)
        finally:
            self.recording = rec
        for k in cur:
            run([cur[k].state()], True)
        return ends

    def loopkey(self, s):
        return (s.ghost, self.loop_part(self, s)) if self.loop_part else s.ghost


class Gen:
    """A generalised (joined) state: base state, havocked locations with phi atoms, and the
    candidate facts that hold in every state merged so far."""

    def __init__(self, eng, base, loop=False):
        self.E = eng
        self.st = base.copy()
        self.phis = {}      # phi atom index -> location description
        self.phiterms = set()
        self.redundant = []     # relations implied by the facts when they were found
        self.loop = loop

    def state(self):
        return self.st.copy()

    def result(self):
        return self.st

    def extend_many(self, others):
        """weaken so that it covers the other states; returns True when something changed"""
        if not others:
            return False
        E = self.E
        st = self.st
        self.others = others
        changed = False
        hints = E.loop_facts(E, st) if E.loop_facts else {}
        # 1. roots: keep those present in all
        subs = [dict() for _ in others]     # phi atom -> Lin in each state
        self.bsub, self.bmemo = {}, {}
        self.extra = []                     # facts worth trying: start <= end of the ranges
        bases = {}                          # new phi atom -> Lin in the base
        for root in list(st.mem):
            vals = []
            miss = False
            for o in others:
                v = o.mem.get(root)
                if v is None:
                    miss = True
                    break
                vals.append(v)
            if miss:
                # a local not initialised on some path is dead there; a materialised root equals its default
                if root[0] in ("L", "C", "RV"):
                    del st.mem[root]
                    changed = True
                else:
                    vals = [E.root_default(o, root, st.mem[root]) for o in others]
                    nv, ch = self.gen(st.mem[root], vals, subs, bases, root)
                    if ch:
                        st.mem[root] = nv
                        changed = True
                continue
            nv, ch = self.gen(st.mem[root], vals, subs, bases, root)
            if ch:
                st.mem[root] = nv
                changed = True
        for o in others:
            for root in o.mem:
                if root[0] not in ("L", "C", "RV") and root not in st.mem:
                    # written in the other state only?
                    dv = E.root_default(st, root, o.mem[root])
                    st.mem[root] = dv
                    nv, ch = self.gen(dv, [x.mem.get(root) if root in x.mem else dv for x in others], subs, bases, root)
                    if ch:
                        st.mem[root] = nv
                        changed = True
        # 2. facts
        base_ge, base_eq, base_ne = st.ge, st.eq, st.ne
        base_probe = None
        cand = []
        if bases:
            base_probe = State()
            base_probe.ge, base_probe.eq, base_probe.ne = base_ge, base_eq, base_ne
            cand = self.candidates(base_probe, bases, others, subs)
            cand += [l for l in self.extra if E.entails(base_probe, l.subst(bases))]
        keep_ge, keep_eq = [], []

        def holds(l, eq, oi):
            o = others[oi]
            x = l.subst(subs[oi])
            if eq:
                return x in o.eq or -x in o.eq or E.entails_eq0(o, x)
            return x in o.ge or E.entails(o, x)

        for l in base_eq:
            if all(holds(l, True, i) for i in range(len(others))):
                keep_eq.append(l)
            else:
                for x in (l, -l):
                    if all(holds(x, False, i) for i in range(len(others))):
                        keep_ge.append(x)
        for l in base_ge:
            if all(holds(l, False, i) for i in range(len(others))):
                keep_ge.append(l)
        keep_ne = []
        for l in base_ne:
            ok = True
            for i, o in enumerate(others):
                x = l.subst(subs[i])
                if not (x in o.ne or -x in o.ne or E.entails(o, x - 1) or E.entails(o, -x - 1)):
                    ok = False
                    break
            if ok:
                keep_ne.append(l)
        lost = len(keep_ge) < len(base_ge) or len(keep_eq) < len(base_eq)
        if lost:
            # facts of the others that the base had in other words
            old = State()
            old.ge, old.eq, old.ne = base_ge, base_eq, base_ne
            have = set(keep_ge)
            o0 = others[0]
            extra = list(o0.ge) + [x for e in o0.eq for x in (e, -e)]
            moved = set(bases) | set(self.phis)
            for l in extra[:60]:
                if l not in have and not moved & set(l.atoms()) and E.entails(old, l) and \
                        all(holds(l, False, i) for i in range(1, len(others))):
                    keep_ge.append(l)
                    have.add(l)
            # relations that weren't worth keeping as long as the lost facts implied them
            new = State()
            new.ge, new.eq, new.ne = tuple(dict.fromkeys(keep_ge)), tuple(dict.fromkeys(keep_eq)), tuple(keep_ne)
            for l in self.redundant:
                if l not in have and E.entails(old, l) and not E.entails(new, l) and \
                        all(holds(l, False, i) for i in range(len(others))):
                    keep_ge.append(l)
                    have.add(l)
                    new.ge = new.ge + (l,)
        st.ge, st.eq, st.ne = tuple(dict.fromkeys(keep_ge)), tuple(dict.fromkeys(keep_eq)), tuple(keep_ne)
        for l in cand:
            # l holds in the base (with bases substituted); test the others
            if all(holds(l, False, i) for i in range(len(others))):
                if l in self.extra and l not in st.ge or not E.entails(st, l):
                    st.ge = st.ge + (l,)
                elif len(self.redundant) < 400:
                    self.redundant.append(l)
        if hints:
            # facts suggested by the rule, kept when they hold in all states
            old = State()
            old.ge, old.eq, old.ne = base_ge, base_eq, base_ne

            def ok(s, x):
                return E.entails(s, x[1]) if isinstance(x, tuple) else E.entails_eq0(s, x)
            hints = {k: x for k, x in hints.items() if ok(old, x)}
            for o in others:
                ho = E.loop_facts(E, o) if hints else {}
                hints = {k: x for k, x in hints.items() if k in ho and ok(o, ho[k])}
            if hints:
                hs = E.loop_facts(E, st)
                for k in hints:
                    if k in hs and not ok(st, hs[k]):
                        if isinstance(hs[k], tuple):
                            st.ge = st.ge + (hs[k][1],)
                        else:
                            st.eq = st.eq + (hs[k],)
        # what was lost may be implied by the rest
        if not changed:
            changed = not (all(l in st.ge or E.entails(st, l) for l in base_ge) and
                           all(l in st.eq or E.entails_eq0(st, l) for l in base_eq) and
                           all(l in keep_ne or -l in keep_ne or E.entails(st, l - 1) or E.entails(st, -l - 1) for l in base_ne))
        # 3. booleans, discriminants
        for d, name in ((st.bs, "bs"), (st.disc, "disc")):
            for k in list(d):
                if any(getattr(o, name).get(k) != d[k] for o in others):
                    if name == "disc" and all(self.disc_is(o, k, d[k]) for o in others):
                        continue
                    del d[k]
                    changed = True
        for o in others:
            for r, ls in o.alias.items():
                if r not in st.alias:
                    st.alias[r] = ls
                    changed = True
        return changed

    def disc_is(self, o, term, vi):
        return o.disc.get(term) == vi

    def newphi(self, lo=None, hi=None):
        E = self.E
        t = E.fresh("phi")
        l = E.atom(t, None, lo, hi)
        a = l.t[0][0]
        self.phis[a] = t
        return l, a

    def gen(self, b, vals, subs, bases, where):
        """generalise base value b with the others' values; returns (value, changed)"""
        E = self.E
        # existing phi: record its value in the others
        if isinstance(b, Lin) and len(b.t) == 1 and b.t[0][1] == 1 and b.c == 0 and b.t[0][0] in self.phis \
                and all(isinstance(v, Lin) for v in vals):
            a = b.t[0][0]
            if all(a not in subs[i] or subs[i][a] == v for i, v in enumerate(vals)):
                for i, v in enumerate(vals):
                    subs[i][a] = v
                return b, False
        if all(v == b for v in vals):
            return b, False
        if isinstance(b, Lin) and all(isinstance(v, Lin) for v in vals):
            lo = min([E.A.lo[a] for a in b.atoms() if E.A.lo[a] is not None], default=None)
            lo = 0 if self.nonneg(b, vals) else None
            l, a = self.newphi(lo, None)
            bases[a] = b
            for i, v in enumerate(vals):
                subs[i][a] = v
            return l, True
        if isinstance(b, BoolV) and all(isinstance(v, BoolV) for v in vals):
            # flags which always have the same value keep sharing it
            vs = tuple(v.f for v in vals)
            if b.f[0] == "s" and b.f[1] in self.phiterms and self.bsub.setdefault(b.f[1], vs) == vs:
                return b, False
            t = self.bmemo.get((b.f, vs))
            if t is None:
                t = self.bmemo[(b.f, vs)] = E.fresh("phi")
                self.phiterms.add(t)
                self.bsub[t] = vs
            return BoolV(("s", t)), True
        if isinstance(b, Agg) and all(isinstance(v, Agg) and v.path == b.path and v.vi == b.vi for v in vals):
            n = max([len(b.fields)] + [len(v.fields) for v in vals])
            fs, ch = [], False
            bf = list(b.fields) + [None] * (n - len(b.fields))
            for i in range(n):
                x = bf[i]
                ys = [v.fields[i] if i < len(v.fields) else None for v in vals]
                if x is None and all(y is None for y in ys):
                    if all(v.base == b.base for v in vals):
                        fs.append(None)
                        continue
                    fs.append(None)
                    ch = True
                    continue
                # materialise lazily projected fields
                if x is None:
                    y0 = next(y for y in ys if y is not None)
                    x = self.lazy(b, i, y0)
                ys = [self.lazy(v, i, x) if y is None else y for v, y in zip(vals, ys)]
                nx, c = self.gen(x, ys, subs, bases, where)
                fs.append(nx)
                ch = ch or c
            if len(fs) > 1 and b.path and b.path.split("::")[-1].startswith("Range") and isinstance(fs[0], Lin) and isinstance(fs[1], Lin):
                self.extra.append(fs[1] - fs[0])
            if any(v.base != b.base for v in vals):
                # unmaterialised fields differ
                if b.base is not None and b.base in self.phiterms:
                    return Agg(b.path, b.vi, fs, b.base, b.ty), ch
                t = E.fresh("phi")
                self.phiterms.add(t)
                if b.base is not None or any(v.base is not None for v in vals):
                    return Agg(b.path, b.vi, fs, t, b.ty), True
            return Agg(b.path, b.vi, fs, b.base, b.ty), ch
        if isinstance(b, VecV) and all(isinstance(v, VecV) for v in vals):
            ts = [v.term for v in [b] + list(vals)]
            if b.term[0] == "seq" and any(v.term != b.term for v in vals) and all(t[0] == "seq" for t in ts) and all([u for u, _ in t[1]] == [u for u, _ in ts[0][1]] for t in ts) and \
                    not any(v.writes for v in [b] + list(vals)):
                ps, c2, ln = [], False, Lin(0)
                for k, (u, n) in enumerate(ts[0][1]):
                    m, c3 = self.gen(n, [t[1][k][1] for t in ts[1:]], subs, bases, (where, "n", k))
                    if not isinstance(m, Lin):
                        break
                    ps.append((u, m))
                    ln = ln + m
                    c2 = c2 or c3
                else:
                    return VecV(("seq", tuple(ps)), ln, (), b.ety), c2
            # length and content separately
            nl, c1 = self.gen(b.len, [v.len for v in vals], subs, bases, where)
            if all(v.term == b.term and v.writes == b.writes for v in vals):
                return VecV(b.term, nl, b.writes, b.ety), c1
            if all(t == ts[0] for t in ts) and all([w for w, _ in v.writes] == [w for w, _ in b.writes] for v in vals):
                # the same elements are written
                ws, c2 = [], False
                for k, (w, x) in enumerate(b.writes):
                    y, c3 = self.gen(x, [v.writes[k][1] for v in vals], subs, bases, (where, "w", k))
                    ws.append((w, y))
                    c2 = c2 or c3
                return VecV(b.term, nl, tuple(ws), b.ety), c1 or c2
            if b.term in self.phiterms and not b.writes:
                return VecV(b.term, nl, (), b.ety), c1
            if b.ety is None and not b.writes and not any(v.writes for v in vals):
                r = self.gen_runs(b.term, [v.term for v in vals], subs, bases, where)
                if r is not None:
                    return VecV(r[0], nl, (), None), c1 or r[1]
            t = E.fresh("phi")
            self.phiterms.add(t)
            return VecV(t, nl, (), b.ety), True
        if isinstance(b, Sym) and b.term in self.phiterms:
            return b, False
        r = self.same_variant(b, vals)
        if r is not None:
            return self.gen(r[0], r[1], subs, bases, where)[0], True
        t = E.fresh("phi")
        self.phiterms.add(t)
        ty = b.ty if isinstance(b, (Sym, Agg)) else None
        if ty is None:
            for v in vals:
                if isinstance(v, (Sym, Agg)) and v.ty is not None:
                    ty = v.ty
        refs = [v for v in [b] + list(vals) if isinstance(v, (Ref,))]
        if refs:
            self.st.alias[("d", t)] = tuple((r.root, r.path) for r in refs)
            return Sym(t, None), True
        return E.mk(t, ty), True

    def same_variant(self, b, vals):
        """the values as aggregates, when they are of one variant and some are symbolic"""
        E = self.E
        if not all(isinstance(v, (Sym, Agg)) for v in vals) or not isinstance(b, (Sym, Agg)):
            return None
        a = next((v for v in [b] + list(vals) if isinstance(v, Agg)), None)
        if a is None or a.vi is None:
            return None
        out = []
        for s, v in zip([self.st] + list(self.others), [b] + list(vals)):
            if isinstance(v, Sym):
                if v.ty is None or E.tyk(v.ty) != "adt" or E.P.types[v.ty].get("path") != a.path or E.variant_of(s, v) != a.vi:
                    return None
                v = Agg(a.path, a.vi, (), v.term, v.ty)
            elif v.path != a.path or v.vi != a.vi:
                return None
            out.append(v)
        return out[0], out[1:]

    def gen_runs(self, b, vals, subs, bases, where):
        """strings which differ by the number of repetitions of one unit"""
        m = self.E.models
        rs = [m.runs(x) for x in [b] + list(vals)]
        k = 0
        while all(len(r) > k for r in rs) and all(r[k] == rs[0][k] for r in rs):
            k += 1
        rest = [r[k:] for r in rs]
        units = {r[0][0] for r in rest if r}
        if any(len(r) > 1 for r in rest) or len(units) != 1:
            return None
        u = next(iter(units))
        if u[0] in ("#",):
            return None
        ns = [r[0][1] if r else Lin(0) for r in rest]
        n, ch = self.gen(ns[0], ns[1:], subs, bases, where)
        if not isinstance(n, Lin):
            return None
        rep = [("rep", u, n)]
        t = m.unruns(rs[0][:k] + [(u, n)])
        return (t, ch) if t is not None else None

    def lazy(self, agg, i, like):
        E = self.E
        if agg.base is None:
            return Sym(E.fresh("uninit"), None)
        ty = like.ty if isinstance(like, (Sym, Agg)) else None
        term = None
        # field name and type from the layout when known
        a = E.P.adts.get(agg.path)
        name, fty = str(i), ty
        if a and a["variants"]:
            v = a["variants"][agg.vi or 0]
            if i < len(v["fields"]):
                name = v["fields"][i]["name"]
                fty = v["fields"][i].get("ty", ty)
        elif agg.path in ("tuple",):
            name = str(i)
        term = E.fterm(agg.base, agg.vi, i, name)
        if fty is None or E.tyk(fty) in ("param", "other"):
            if isinstance(like, Lin):
                lo = 0 if self.nonneg(like, []) else None
                return E.atom(term, None, lo, None)
            if isinstance(like, BoolV):
                return BoolV(("s", term))
            if isinstance(like, VecV):
                return VecV(term, E.nat(("len", term)), (), like.ety)
        return E.mk(term, fty)

    def nonneg(self, b, vals):
        E = self.E
        for v in [b] + list(vals):
            if v.is_const():
                if v.c < 0:
                    return False
                continue
            # every unsigned program value is >= 0 by typing; recognise it syntactically
            lo = v.c
            for a, k in v.t:
                x = E.A.lo[a] if k > 0 else E.A.hi[a]
                if x is None:
                    lo = None
                    break
                lo += k * x
            if lo is None or lo < 0:
                return False
        return True

    def settled(self, base, d):
        """d with the atoms of former generalisations replaced thanks to the known equalities"""
        E = self.E
        eqs = list(base.eq)
        ge = set(base.ge)
        eqs += [l for l in base.ge if -l in ge]
        for _ in range(3):
            for a, _k in d.t:
                if not E.atom_ids(a):
                    continue
                for e in eqs:
                    k = e.coef(a)
                    if abs(k) != 1 or d.is_const():
                        continue
                    n = d - e.scale(d.coef(a) * k)
                    if len(n.t) < len(d.t) or sum(1 for x, _ in n.t if E.atom_ids(x)) < sum(1 for x, _ in d.t if E.atom_ids(x)):
                        d = n
                        break
                else:
                    continue
                break
            else:
                break
        return d

    def candidates(self, base, bases, others, subs):
        E = self.E
        out = []
        phis = {a: Lin(0, ((a, 1),)) for a in bases}
        pool = set()
        # bounds against the base value, and 0
        rel = set()
        for a, p in phis.items():
            pool.add(p)
            pool.add(p - bases[a])
            pool.add(bases[a] - p)
        # facts of the base and of the others, with values rewritten to phis
        def rewrite(facts, val):
            # val: atom -> Lin ; when val is an atom (+const) replace it
            inv = {}
            for a, v in val.items():
                if len(v.t) == 1 and abs(v.t[0][1]) == 1:
                    x, k = v.t[0]
                    # v = k*x + c -> x = k*(phi - c)
                    inv.setdefault(x, []).append(phis.get(a, Lin(0, ((a, 1),))).scale(k) - v.c * k)
            for l in facts:
                for x, reps in inv.items():
                    if l.coef(x):
                        for r in reps:
                            yield l.subst({x: r})
        facts = list(base.ge)
        for e in base.eq:
            facts += [e, -e]
        for l in rewrite(facts, bases):
            pool.add(l)
        for i, o in enumerate(others):
            fs = [g for g in o.ge]
            for e in o.eq:
                fs += [e, -e]
            for l in rewrite(fs, {a: subs[i][a] for a in bases if a in subs[i]}):
                pool.add(l)
            # relation of the other's value to the base value's constant distance
            for a in bases:
                if a in subs[i]:
                    d = subs[i][a]
                    pool.add(phis[a] - d) if not d.atoms() else None
                    pool.add(d - phis[a]) if not d.atoms() else None
        # pairwise relations between phis
        al = list(bases) + [a for a in self.phis if a not in bases and len(self.phis) < 14]
        for i, a in enumerate(al):
            for b in al[i + 1:]:
                pa, pb = Lin(0, ((a, 1),)), Lin(0, ((b, 1),))
                va, vb = bases.get(a), bases.get(b)
                pool.add(pa - pb)
                pool.add(pb - pa)
                if va is not None and vb is not None:
                    d = va - vb
                    for d in {d, self.settled(base, d)}:
                        pool.add(pa - pb - d)
                        pool.add(d - (pa - pb))
                    s = va + vb
                    pool.add(pa + pb - s)
                    pool.add(s - pa - pb)
        # upper bounds by other atoms occurring in the facts
        atoms = set()
        for l in list(base.ge) + list(base.eq):
            atoms.update(l.atoms())
        for o in others[:2]:
            for l in o.ge + o.eq:
                atoms.update(l.atoms())
        atoms = [a for a in atoms if not str(E.A.terms[a][:1]).startswith("('disc")]
        if len(atoms) <= 40:
            for a, p in phis.items():
                for x in atoms:
                    if x != a:
                        X = Lin(0, ((x, 1),))
                        pool.add(X - p)
                        pool.add(X - p - 1)
                        pool.add(p - X)
        for l in pool:
            l0 = l.subst(bases)
            if (l0.is_const() and l0.c >= 0) or (not l0.is_const() and E.entails(base, l0)):
                if not l.is_const():
                    out.append(l)
        return out


def _root_default(self, st, root, like):
    """value of a non-local root that a state has not materialised"""
    if root[0] == "str":
        return self.root_val(st, root)
    if root[0] == "static" and isinstance(like, Ref) and root[1] in self.P.bodies:
        v = self.promoted(st, root[1], None)
        if isinstance(v, Ref):
            return v
    term = ("*", root[1]) if root[0] == "d" else root
    if isinstance(like, Agg):
        return Sym(term, like.ty) if like.base != term else Agg(like.path, like.vi, (), term, like.ty)
    if isinstance(like, VecV):
        return VecV(term, self.nat(("len", term)), (), like.ety)
    if isinstance(like, Lin):
        return self.atom(term)
    if isinstance(like, BoolV):
        return BoolV(("s", term))
    return Sym(term, getattr(like, "ty", None))


Eng.root_default = _root_default
