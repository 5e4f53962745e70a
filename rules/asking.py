"""Questions (T04)."""
import absint, fw
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import OPT, NONE, some, norm, vec_at
from render import Run1, rd, place
from views import method, get
from seqs import Seqs
from fields import variants, bools
from events import G, RES

Q = "termimad::ask::Question"
ANS = "termimad::ask::Answer"
UNITV = Agg("()", None, ())
OWN = ("to_string", "to_owned", "clone", "into", "from", "to_str", "as_str", "deref", "borrow", "as_ref")


class Quest:
    def __init__(self, c, P, name, default=None):
        self.c, self.P, self.name = c, P, name
        self.b = method(c, P, Q, name)
        self.k = 0
        self.memo = {}
        self.r = Run1(P, self.b, c, on_call=self.calls, at_head=self.head, loop_facts=self.facts, unroll=0, max_states=2000)
        self.E = E = self.r.E
        self.q = Seqs(E, P)
        st = self.st = self.r.init
        self.args = self.r.args
        self.me = E.toref(self.args[0])
        E.root_val(st, self.me.root, P.types[self.b.locals[1]["t"]].get("ty"))
        self.a0 = self.get(st, "answers")
        self.q.base(self.a0)
        E.write(st, self.me.root, self.me.path + tuple(place(P, Q, "answers")), self.a0)
        E.add_ge(st, Lin(1 << 60) - self.a0.len)
        st.mem[G] = Agg("ghost", None, (Lin(0), None))
        self.d0 = self.get(st, "default_answer")
        if default is not None:
            sty = P.types[self.ofty()]["args"][0]
            v = some(self.string(("default",), sty)) if default else NONE
            E.write(st, self.me.root, self.me.path + tuple(place(P, Q, "default_answer")), v)
            self.d0 = v
        self.wanted = None

    def ofty(self):
        return place(self.P, Q, "default_answer")[-1][4 - 1] if False else next(
            f["ty"] for f in self.P.adts[Q]["variants"][0]["fields"] if f["name"] == "default_answer")

    def string(self, term, ty):
        return self.E.mk(term, ty)

    def get(self, st, f):
        return get(self.P, self.E, st, self.me, Q, f)

    def fail(self, what):
        self.c.violate("question:%s:%s" % (self.name, what), "%s:%d Question::%s: %s" % (self.b.file, self.b.line, self.name, what))

    def val(self, st, x):
        """the value behind references"""
        E = self.E
        for _ in range(4):
            if not isinstance(x, Ref):
                r = E.toref(x) if isinstance(x, Sym) and x.ty is not None and E.tyk(x.ty) == "ref" else None
                if r is None:
                    return x
                x = r
            x = E.read(st, x.root, x.path, x.ty)
        return x

    def key(self, st, x):
        v = self.val(st, x)
        if isinstance(v, VecV) and not v.writes:
            return v.term
        return self.E.content(st, v)

    def calls(self, E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        n = norm(path)
        if G not in st.mem:
            return None
        if "minimad::" in path or "_print" in path or "MadSkin::" in path or path.endswith("io::stdin") or "fmt::" in path:
            self.k += 1
            return [(st, Sym(("shown", self.k), None))]
        if m in ("read_line",):
            self.c.count("lines read")
            self.k += 1
            r = E.toref(args[1])
            k, _ = st.mem[G].fields
            cur = E.read(st, r.root, r.path, r.ty)
            if not isinstance(cur, VecV) or not E.entails_eq0(st, cur.len):
                self.fail("reads a line after something else")
            out = []
            for what in ("line", "eof", "error"):
                s = st.copy()
                s.mem[G] = Agg("ghost", None, (k, (what, self.k)))
                if what == "line":
                    v = VecV(("line", self.k), E.nat(("line len", self.k)), (), cur.ety)
                    cnt = E.nat(("read", self.k))
                    E.add_ge(s, cnt - 1)
                    E.write(s, r.root, r.path, v)
                    out.append((s, Agg(RES, 0, (cnt,))))
                elif what == "eof":
                    out.append((s, Agg(RES, 0, (Lin(0),))))
                else:
                    out.append((s, Agg(RES, 1, (Sym(("io error", self.k), None),))))
            return out
        if m == "trim_end" and args:
            v = self.val(st, args[0])
            if isinstance(v, VecV):
                if E.entails_eq0(st, v.len):
                    return [(st, args[0])]
                t = ("trimmed", v.term)
                w = VecV(t, E.nat(("trimmed len", v.term)), (), v.ety)
                s = st.copy()
                E.add_ge(s, v.len - w.len)
                s.mem[("S", t)] = w
                return [(s, Ref(("S", t), (), None))]
        if m == "truncate" and len(args) == 2 and isinstance(args[1], Lin):
            r = E.toref(args[0])
            v = E.read(st, r.root, r.path, r.ty)
            if isinstance(v, VecV):
                if E.entails_eq0(st, v.len - args[1]):
                    return [(st, UNITV)]
                w = st.mem.get(("S", ("trimmed", v.term)))
                if w is not None and E.entails_eq0(st, w.len - args[1]):
                    s = st.copy()
                    E.write(s, r.root, r.path, w)
                    return [(s, UNITV)]
        if m in ("to_string", "to_owned", "clone", "into", "from", "from_str") and len(args) == 1:
            v = self.val(st, args[0])
            if isinstance(v, (VecV, Sym)):
                return [(st, v)]
        if m in ("eq", "ne") and len(args) == 2:
            return self.eq(st, self.val(st, args[0]), self.val(st, args[1]), m == "eq")
        if m in ("any", "find", "position", "all") and len(args) == 2:
            return self.search(fr, blk, st, m, args)
        return self.q.on_call(E, fr, blk, st, path, fn, args)

    def eq(self, st, a, b, yes):
        E = self.E
        out = []
        opts = [isinstance(x, Agg) and x.path == OPT or isinstance(x, Sym) and x.ty is not None and self.P.types[x.ty].get("path") == OPT for x in (a, b)]
        if all(opts):
            for s, n, _ in variants(self, st, a, OPT):
                for s2, m, _ in variants(self, s, b, OPT):
                    if n == m == "Some":
                        x, y = (self.val(s2, E.proj(s2, z, ("f", 0, 1, None, "0"))) for z in (a, b))
                        out += self.eq(s2, x, y, yes)
                    else:
                        out.append((s2, BoolV(TRUE if (n == m) is yes else FALSE)))
            return out
        if any(opts):
            return None
        ta, tb = self.key(st, a), self.key(st, b)
        if isinstance(ta, Lin) or isinstance(tb, Lin):
            return None
        f = ("s", ("same text",) + tuple(sorted((ta, tb), key=str)))
        if ta == tb:
            return [(st, BoolV(TRUE if yes else FALSE))]
        for same in (True, False):
            for s in E.assume(st.copy(), f, same):
                if isinstance(a, VecV) and isinstance(b, VecV) and same:
                    if not E.add_eq(s, a.len - b.len) or not E.feasible(s, []):
                        continue
                out.append((s, BoolV(TRUE if same is yes else FALSE)))
        return out

    def is_same(self, st, a, b):
        """are the texts of those terms told equal, or different? (the indexes are compared in the state)"""
        for f, v in st.bs.items():
            if isinstance(f, tuple) and f[0] == "same text" and len(f) == 3:
                for x, y in ((f[1], f[2]), (f[2], f[1])):
                    if self.q.eqt(st, x, a) and self.q.eqt(st, y, b):
                        return v
        return None

    def key_at(self, st, i):
        E = self.E
        a = E.elem(st, self.a0, i, self.a0.ety)
        return self.key(st, E.proj(st, a, place(self.P, ANS, "key")[0]))

    def search(self, fr, blk, st, m, args):
        """any, find, position on the answers"""
        E = self.E
        it = self.val(st, args[0])
        if not isinstance(it, Agg) or it.path != "m:slice" or it.fields[1] != Lin(0):
            return None
        r = it.fields[0]
        v = E.read(st, r.root, r.path)
        if not isinstance(v, VecV) or v.term != self.a0.term or self.wanted is None:
            return None
        out = []
        self.k += 1
        i = E.nat(("found", self.k))
        sound = True
        s = st.copy()
        E.add_ge(s, v.len - i - 1)
        x = Ref(r.root, r.path + (("e", i, v.ety),), v.ety)
        a = x
        if m == "find":
            s.mem[("S", ("item", self.k))] = x
            a = Ref(("S", ("item", self.k)), ())
        for z, y in E.call_closure(fr, blk, s, args[1], [a]):
            for yes in (True, False):
                for w in E.assume(z.copy(), E.asf(y), yes):
                    if not E.feasible(w, []):
                        continue
                    same = self.is_same(w, self.key_at(w, i), self.wanted)
                    if yes is not (m == "all"):
                        out.append((w, {"any": BoolV(TRUE), "all": BoolV(FALSE), "find": some(x), "position": some(i)}[m]))
                    elif same is not False:
                        sound = False
        s = st.copy()
        if sound:
            k, tr = s.mem[G].fields
            s.mem[G] = Agg("ghost", None, (v.len, tr))
        out.append((s, {"any": BoolV(FALSE), "all": BoolV(TRUE)}.get(m, NONE)))
        return out

    # the loops
    def reads(self, b, head):
        k = (b.id, head)
        if k not in self.memo:
            self.memo[k] = any("read_line" in str(b.blocks[x]["t"].get("f")) for x in self.E.loops(b).get(head, ()))
        return self.memo[k]

    def advance(self, st):
        k, tr = st.mem[G].fields
        E = self.E
        if isinstance(k, Lin) and self.wanted_in(st) is not None:
            for _ in range(2):
                if self.is_same(st, self.key_at(st, k), self.wanted_in(st)) is not False:
                    break
                k = k + 1
            st.mem[G] = Agg("ghost", None, (k, tr))
        return k, tr

    def wanted_in(self, st):
        return self.wanted

    def head(self, E, fr, head, st):
        k, tr = self.advance(st)
        if self.reads(fr.body, head):
            if tr is not None:
                self.again(st, k, tr)
            st.mem[G] = Agg("ghost", None, (Lin(0), None))
        return None

    def facts(self, E, st):
        out = {}
        g = st.mem.get(G)
        if g is None or not isinstance(g.fields[0], Lin):
            return out
        k = g.fields[0]
        for root, w in st.mem.items():
            if root[0] == "L" and isinstance(w, Agg) and w.path in ("m:own", "m:slice") and isinstance(w.fields[1], Lin):
                out[root, "i"] = w.fields[1] - k
            if root[0] == "L" and isinstance(w, Lin):
                out[root, "v"] = w - k
        out["k"] = ("ge", self.a0.len - k)
        return out

    def all_seen(self, st, k):
        return isinstance(k, Lin) and self.E.entails_eq0(st, self.a0.len - k)


class Ask(Quest):
    def __init__(self, c, P, default):
        super().__init__(c, P, "ask", default)
        self.default = default

    def text(self, tr):
        return ("trimmed", ("line", tr[1])) if tr[0] == "line" else ("empty",)

    def wanted_in(self, st):
        tr = st.mem[G].fields[1]
        return self.text(tr) if tr else None

    def search(self, fr, blk, st, m, args):
        self.wanted = self.wanted_in(st)
        return super().search(fr, blk, st, m, args)

    def empty(self, st, tr):
        """is the text empty? [(yes, state)]"""
        E = self.E
        if tr[0] == "eof":
            return [(True, st)]
        n = E.nat(("trimmed len", ("line", tr[1])))
        out = []
        for yes, l in ((True, -n), (False, n - 1)):
            s = st.copy()
            if E.add_ge(s, l) and E.feasible(s, []):
                out.append((yes, s))
        return out

    def again(self, st, k, tr):
        """the question is asked again"""
        self.c.count("asked again")
        if tr[0] == "eof":
            self.fail("asks again, forever, at the end of the input")
            return
        for e, s in self.empty(st, tr):
            if e and self.default:
                self.fail("asks again instead of giving the default answer")
            elif not self.all_seen(s, k):
                self.fail("asks again without having compared the input with the key of every answer")

    def end(self, st, r):
        E, P = self.E, self.P
        k, tr = self.advance(st)
        for s, n, _ in variants(self, st, r, RES):
            self.c.count("answers")
            if tr is None:
                self.fail("answers without reading anything")
                continue
            if n == "Err":
                if tr[0] == "line":
                    self.fail("fails on a line which was read")
                elif tr[0] == "eof" and not (not self.default and self.all_seen(s, k)):
                    self.fail("fails instead of giving an answer")
                continue
            if tr[0] == "error":
                self.fail("answers while the reading failed")
                continue
            got = self.key(s, E.proj(s, r, ("f", 0, 0, None, "0")))
            for e, z in self.empty(s, tr):
                if e and self.default:
                    if got != ("default",):
                        self.fail("doesn't give the default answer when nothing is typed")
                    continue
                t = self.text(tr)
                ok = got == t or e and got in (t, ("empty",))
                if not ok:
                    self.fail("the answer isn't what was typed")
                elif not any(v and isinstance(f, tuple) and f[0] == "same text" and (t in f or e and ("empty",) in f) and self.is_key(f)
                             for f, v in z.bs.items()):
                    self.fail("the answer isn't the key of an answer")

    def is_key(self, f):
        """one of the two texts is the key of an answer"""
        return any(isinstance(x, tuple) and x[-1] == "key" and isinstance(x[1], tuple) and x[1][:2] == ("e", self.a0.term) for x in f[1:])


class Exotic(Quest):
    def __init__(self, c, P, default):
        super().__init__(c, P, "has_exotic_default", default)
        self.default = default
        self.wanted = ("default",) if default else None

    def again(self, st, k, tr):
        pass

    def end(self, st, r):
        E = self.E
        k, _ = self.advance(st)
        for b, s in bools(self, st, r):
            self.c.count("exotic cases")
            if not self.default:
                if b:
                    self.fail("true without default")
                continue
            if b and not self.all_seen(s, k):
                self.fail("true without having compared the default with the key of every answer")
            if not b and not any(v and isinstance(f, tuple) and f[0] == "same text" and ("default",) in f and Ask.is_key(self, f)
                                 for f, v in s.bs.items()):
                self.fail("false while the default isn't the key of an answer")


def builders(c, P):
    for name in ("add_answer", "set_default"):
        v = Quest(c, P, name)
        E = v.E
        n = 0
        for s, r in v.r.go():
            n += 1
            w = v.get(s, "answers")
            ps = v.q.flat(s, w)
            ps = ps[0][1] if ps and len(ps) == 1 else ()
            d = v.get(s, "default_answer")
            if name == "set_default":
                if w.term != v.a0.term or w.writes:
                    v.fail("changes the answers")
                if [x for _, x, _ in variants(v, s, d, OPT)] != ["Some"] or \
                        v.key(s, E.proj(s, d, ("f", 0, 1, None, "0"))) != v.key(s, v.args[1]):
                    v.fail("the default isn't the given one")
                continue
            if E.content(s, d) != E.content(s, v.d0):
                v.fail("changes the default")
            if len(ps) != 2 or ps[0][0] != ("pre", v.a0.term) or not E.entails_eq0(s, ps[0][1] - v.a0.len) or ps[1][0][0] != "it":
                v.fail("doesn't add just an answer")
                continue
            a = v.q.vals[ps[1][0][1]]
            for f, i in (("key", 1), ("md", 2)):
                if v.key(s, E.proj(s, a, place(P, ANS, f)[0])) != v.key(s, v.args[i]):
                    v.fail("the %s isn't the given one" % f)
        if not n:
            v.fail("never returns")


def t04(c):
    P = c.prog()
    for d in (True, False):
        for cls in (Ask, Exotic):
            v = cls(c, P, d)
            for s, r in v.r.go():
                v.end(s, r)
    builders(c, P)
    c.floor("lines read", 2)
    c.floor("asked again", 2)
    c.floor("answers", 5)
    c.floor("exotic cases", 3)
