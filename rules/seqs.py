"""Exact edits of vectors: the content of a vector is a sequence of pieces of the vectors there were at the start and of single
elements, with symbolic lengths. Installed as a call hook, on top of the models of the engine."""
import absint
from absint import Agg, Sym, Ref, VecV, BoolV, Lin
from models import vec_at, norm, some, NONE, UNIT, range_bounds, check_range, siteroot

# pieces: ("pre", base) k: the k first elements; ("suf", base) k: the k last ones; ("sub", base, lo) k; ("it", key) 1


class Seqs:
    def __init__(self, E, P):
        self.E, self.P = E, P
        self.blen = {}
        self.vals = {}
        self.btys = {}
        self.seen = {}
        E.seqs = self
        self.hold = False       # keep the beginning and the end of a vector apart, for loops

    # ------------------------------------------------------------------ pieces
    def base(self, v):
        if v.term not in self.blen and v.term[0] != "seq":
            self.blen[v.term] = v.len
            self.btys[v.term] = v.ety
        return v.term

    def item(self, st, x):
        k = self.E.content(st, x)
        self.vals[k] = x
        return (("it", k), Lin(1))

    def make(self, ps, ety):
        out = []
        for u, n in ps:
            if n == Lin(0):
                continue
            if not self.hold and out and out[-1][0][0] == "pre" and u == ("suf", out[-1][0][1]) and out[-1][1] + n == self.blen.get(u[1]):
                out[-1] = (("pre", u[1]), out[-1][1] + n)
                continue
            if out and out[-1][0][0] in ("pre", "sub") and u[0] == "sub" and out[-1][0][1] == u[1] and \
                    (out[-1][0][2] if out[-1][0][0] == "sub" else Lin(0)) + out[-1][1] == u[2]:
                out[-1] = (out[-1][0], out[-1][1] + n)
                continue
            out.append((u, n))
        ln = Lin(0)
        for _, n in out:
            ln = ln + n
        if not out:
            return VecV(("empty",), Lin(0), (), ety)
        if len(out) == 1 and out[0][0][0] == "pre" and out[0][1] == self.blen.get(out[0][0][1]):
            return VecV(out[0][0][1], out[0][1], (), ety)
        return VecV(("seq", tuple(out)), ln, (), ety)

    def flat(self, st, v):
        """[(state, pieces)] of a vector, its writes being made items"""
        if v.term == ("empty",):
            ps = []
        elif v.term[0] == "seq":
            ps = list(v.term[1])
        else:
            ps = [(("pre", self.base(v)), v.len)]
        out = [(st, ps)]
        ln = Lin(0)
        for _, n in ps:
            ln = ln + n
        for w, x in v.writes:
            nxt = []
            for s, q in out:
                if w is None:
                    return None
                tot = Lin(0)
                for _, n in q:
                    tot = tot + n
                if self.E.entails_eq0(s, w - tot):
                    # pushed
                    nxt.append((s, q + [self.item(s, x)]))
                    continue
                for s2, a, b in self.split(s, q, w):
                    for s3, m, c in self.split(s2, b, Lin(1)):
                        nxt.append((s3, a + [self.item(s3, x)] + c))
            out = nxt
        return out

    def cut(self, u, n, o):
        """a piece cut at the offset o"""
        if u[0] == "it":
            return None
        if u[0] == "pre":
            b = ("suf", u[1]) if n == self.blen.get(u[1]) else ("sub", u[1], o)
            return [(u, o)], [(b, n - o)]
        if u[0] == "sub":
            b = ("suf", u[1]) if u[2] + n == self.blen.get(u[1]) else ("sub", u[1], u[2] + o)
            return [(u, o)], [(b, n - o)]
        return [(("sub", u[1], self.blen[u[1]] - n), o)], [(u, n - o)]

    def split(self, st, ps, i):
        """[(state, pieces before the index i, pieces from it)]"""
        E = self.E
        out = []
        c = Lin(0)
        for k, (u, n) in enumerate(ps):
            if E.entails_eq0(st, i - c):
                out.append((st, ps[:k], ps[k:]))
                return out
            # c <= i here
            s = st.copy()
            if E.add_ge(s, c + n - i - 1) and E.feasible(s, []):
                if u[0] == "it":
                    if E.add_ge(s, c - i) and E.feasible(s, []):
                        out.append((s, ps[:k], ps[k:]))
                else:
                    a, b = self.cut(u, n, i - c)
                    s0 = s.copy()
                    if E.add_ge(s0, c - i) and E.feasible(s0, []):
                        out.append((s0, ps[:k], ps[k:]))
                    if E.add_ge(s, i - c - 1) and E.feasible(s, []):
                        out.append((s, ps[:k] + a, b + ps[k + 1:]))
            st = st.copy()
            if not E.add_ge(st, i - c - n) or not E.feasible(st, []):
                return out
            c = c + n
        out.append((st, ps, []))
        return out

    def first(self, st, ps, ety):
        """[(state, the first element, the other pieces)]"""
        out = []
        for s, a, b in self.split(st, ps, Lin(1)):
            # a is made of one element, and of empty pieces
            x = None
            for u, n in a:
                if not self.E.entails_eq0(s, n):
                    x = self.value(s, u, n, ety)
                    break
            if x is not None:
                out.append((s, x, b))
        return out

    def value(self, st, u, n, ety):
        """the first element of a piece"""
        if u[0] == "it":
            return self.vals[u[1]]
        lo = Lin(0) if u[0] == "pre" else u[2] if u[0] == "sub" else self.blen[u[1]] - n
        return self.E.elem(st, VecV(u[1], self.blen.get(u[1], lo + n), (), ety), lo, ety)

    # ------------------------------------------------------------------ calls
    def on_call(self, E, fr, blk, st, path, fn, args):
        n = norm(path)
        m = n.split("::")[-1]
        if not args:
            return None
        if m in ("index", "index_mut", "get", "get_mut", "get_unchecked"):
            return self.index(E, fr, blk, st, m, fn, args)
        if n.split("::")[0] not in ("Vec", "slice") and m not in ("extend", "append", "swap", "extend_from_slice"):
            return None
        f = getattr(self, "m_" + m, None)
        if f is None:
            return None
        atys = [None] * len(args)
        r, v = vec_at(E, st, args[0], None)
        if r is None or not isinstance(v, VecV):
            return None
        self.seen[m] = self.seen.get(m, 0) + 1
        return f(fr, blk, st, r, v, args)

    def keep(self, st, r, ps, ety):
        v = self.make(ps, ety)
        self.E.write(st, r.root, r.path, v)
        return v

    def index(self, E, fr, blk, st, m, fn, args):
        i = args[1] if len(args) > 1 else None
        if not isinstance(i, Lin):
            return None
        r, v = vec_at(E, st, args[0], None)
        if r is None or not isinstance(v, VecV):
            return None
        out = []
        opt = m.startswith("get")
        st = st.copy()
        if opt:
            s = st.copy()
            if E.add_ge(s, i - v.len) and E.feasible(s, []):
                out.append((s, NONE))
        else:
            E.obligation(fr, blk, "index", E.entails(st, v.len - i - 1), "index < len not proven: " + E.showlin(v.len - i - 1))
        if not E.add_ge(st, v.len - i - 1) or not E.feasible(st, []):
            return out
        for s in self.known(st, r, v, i):
            x = Ref(r.root, r.path + (("e", i, v.ety),), v.ety)
            out.append((s, some(x) if opt else x))
        return out

    def known(self, st, r, v, i):
        """states where the element of index i is either the one of a write, or one no write changes"""
        E = self.E
        todo = [st]
        for w, _ in v.writes:
            nxt = []
            for s in todo:
                if w is None:
                    return [s]
                d = i - w
                if E.entails_eq0(s, d) or E.entails(s, d - 1) or E.entails(s, -d - 1):
                    nxt.append(s)
                    continue
                a = s.copy()
                if E.add_eq(a, d) and E.feasible(a, []):
                    nxt.append(a)
                for l in (d - 1, -d - 1):
                    a = s.copy()
                    if E.add_ge(a, l) and E.feasible(a, []):
                        nxt.append(a)
            todo = nxt
        if v.term[0] != "seq":
            return todo
        out = []
        for s in todo:
            if any(E.entails_eq0(s, i - w) for w, _ in v.writes):
                out.append(s)
                continue
            for s2, a, b in self.split(s, list(v.term[1]), i):
                for s3, x, _ in self.first(s2, b, v.ety):
                    out.append(s3)
        return out

    def elem(self, st, v, i, ety):
        """an element of a sequence, when the piece it's in is known"""
        E = self.E
        c = Lin(0)
        for u, n in v.term[1]:
            if E.entails(st, i - c) and E.entails(st, c + n - 1 - i):
                if u[0] == "it":
                    return self.vals[u[1]]
                lo = Lin(0) if u[0] == "pre" else u[2] if u[0] == "sub" else self.blen[u[1]] - n
                return E.elem(st, VecV(u[1], self.blen.get(u[1]), (), ety), lo + i - c, ety)
            c = c + n
        return None

    def m_insert(self, fr, blk, st, r, v, args):
        E, i = self.E, args[1]
        if not isinstance(i, Lin):
            return None
        E.obligation(fr, blk, "insert", E.entails(st, v.len - i), "index <= len not proven: " + E.showlin(v.len - i))
        out = []
        for s, ps in self.flat(st, v) or []:
            s = s.copy()
            if not E.add_ge(s, v.len - i):
                continue
            for s2, a, b in self.split(s, ps, i):
                s2 = s2.copy()
                self.keep(s2, r, a + [self.item(s2, args[2])] + b, v.ety)
                out.append((s2, UNIT))
        return out

    def m_remove(self, fr, blk, st, r, v, args):
        E, i = self.E, args[1]
        if not isinstance(i, Lin):
            return None
        E.obligation(fr, blk, "remove", E.entails(st, v.len - i - 1), "index < len not proven: " + E.showlin(v.len - i - 1))
        out = []
        for s, ps in self.flat(st, v) or []:
            s = s.copy()
            if not E.add_ge(s, v.len - i - 1):
                continue
            for s2, a, b in self.split(s, ps, i):
                for s3, x, c in self.first(s2, b, v.ety):
                    s3 = s3.copy()
                    self.keep(s3, r, a + c, v.ety)
                    out.append((s3, x))
        return out

    def m_pop(self, fr, blk, st, r, v, args):
        E = self.E
        out = []
        for s, ps in self.flat(st, v) or []:
            s0 = s.copy()
            if E.add_eq(s0, v.len) and E.feasible(s0, []):
                out.append((s0, NONE))
            s = s.copy()
            if not E.add_ge(s, v.len - 1) or not E.feasible(s, []):
                continue
            for s2, a, b in self.split(s, ps, v.len - 1):
                for s3, x, _ in self.first(s2, b, v.ety):
                    s3 = s3.copy()
                    self.keep(s3, r, a, v.ety)
                    out.append((s3, some(x)))
        return out

    def m_push(self, fr, blk, st, r, v, args):
        out = []
        for s, ps in self.flat(st, v) or []:
            s = s.copy()
            self.keep(s, r, ps + [self.item(s, args[1])], v.ety)
            out.append((s, UNIT))
        return out

    def m_append(self, fr, blk, st, r, v, args):
        r2, w = vec_at(self.E, st, args[1], None)
        if not isinstance(w, VecV):
            return None
        out = []
        for s, ps in self.flat(st, v) or []:
            for s2, qs in self.flat(s, w) or []:
                s2 = s2.copy()
                self.keep(s2, r, ps + qs, v.ety)
                if r2 is not None:
                    self.E.write(s2, r2.root, r2.path, VecV(("empty",), Lin(0), (), w.ety))
                out.append((s2, UNIT))
        return out

    def m_extend(self, fr, blk, st, r, v, args):
        E = self.E
        w = args[1]
        if isinstance(w, Agg) and w.path in ("m:own", "m:slice", "m:copied", "m:cloned"):
            it = w.fields[0] if w.path in ("m:copied", "m:cloned") else w
            if not (isinstance(it, Agg) and it.path in ("m:own", "m:slice")):
                return None
            rr = E.toref(it.fields[0])
            x = E.read(st, rr.root, rr.path)
            lo, hi = it.fields[1:]
        elif isinstance(w, (VecV, Ref)):
            x = w if isinstance(w, VecV) else E.read(st, w.root, w.path)
            if not isinstance(x, VecV):
                return None
            lo, hi = Lin(0), x.len
        else:
            return None
        if not isinstance(x, VecV):
            return None
        out = []
        for s, ps in self.flat(st, v) or []:
            for s2, qs in self.flat(s, x) or []:
                for s3, a, b in self.split(s2, qs, lo):
                    for s4, c, d in self.split(s3, b, hi - lo):
                        s4 = s4.copy()
                        self.keep(s4, r, ps + c, v.ety)
                        out.append((s4, UNIT))
        return out
    m_extend_from_slice = m_extend

    def m_split_off(self, fr, blk, st, r, v, args):
        E, i = self.E, args[1]
        if not isinstance(i, Lin):
            return None
        E.obligation(fr, blk, "split_off", E.entails(st, v.len - i), "at <= len not proven: " + E.showlin(v.len - i))
        out = []
        for s, ps in self.flat(st, v) or []:
            s = s.copy()
            if not E.add_ge(s, v.len - i):
                continue
            for s2, a, b in self.split(s, ps, i):
                s2 = s2.copy()
                self.keep(s2, r, a, v.ety)
                out.append((s2, self.make(b, v.ety)))
        return out

    def m_truncate(self, fr, blk, st, r, v, args):
        E, i = self.E, args[1]
        if not isinstance(i, Lin):
            return None
        out = []
        s = st.copy()
        if E.add_ge(s, i - v.len) and E.feasible(s, []):
            out.append((s, UNIT))
        st = st.copy()
        if not E.add_ge(st, v.len - i - 1) or not E.feasible(st, []):
            return out
        for s, ps in self.flat(st, v) or []:
            for s2, a, b in self.split(s, ps, i):
                s2 = s2.copy()
                self.keep(s2, r, a, v.ety)
                out.append((s2, UNIT))
        return out

    def m_clear(self, fr, blk, st, r, v, args):
        self.E.write(st, r.root, r.path, VecV(("empty",), Lin(0), (), v.ety))
        return [(st, UNIT)]

    def m_drain(self, fr, blk, st, r, v, args):
        E = self.E
        b = range_bounds(E, st, args[1], v.len)
        if b is None or not all(isinstance(x, Lin) for x in b):
            return None
        lo, hi = b
        st = st.copy()
        if not check_range(E, fr, blk, st, lo, hi, v.len, "drain"):
            return []
        out = []
        for s, ps in self.flat(st, v) or []:
            for s2, a, b in self.split(s, ps, lo):
                for s3, c, d in self.split(s2, b, hi - lo):
                    s3 = s3.copy()
                    self.keep(s3, r, a + d, v.ety)
                    root = siteroot(E, fr, blk, s3, "drained")
                    w = self.make(c, v.ety)
                    s3.mem[root] = w
                    out.append((s3, Agg("m:own", None, (Ref(root, ()), Lin(0), w.len))))
        return out

    def m_swap(self, fr, blk, st, r, v, args):
        E, i, j = self.E, args[1], args[2]
        if not isinstance(i, Lin) or not isinstance(j, Lin):
            return None
        for k in (i, j):
            E.obligation(fr, blk, "swap", E.entails(st, v.len - k - 1), "index < len not proven: " + E.showlin(v.len - k - 1))
        out = []
        for lo, hi in ((i, j), (j, i), (None, None)):
            s = st.copy()
            if lo is None:
                if E.add_eq(s, i - j) and E.feasible(s, []):
                    out.append((s, UNIT))
                continue
            if not E.add_ge(s, hi - lo - 1) or not E.add_ge(s, v.len - hi - 1) or not E.feasible(s, []):
                continue
            for s1, ps in self.flat(s, v) or []:
                for s2, a, b in self.split(s1, ps, lo):
                    for s3, x, c in self.first(s2, b, v.ety):
                        for s4, d, e in self.split(s3, c, hi - lo - 1):
                            for s5, y, f in self.first(s4, e, v.ety):
                                s5 = s5.copy()
                                self.keep(s5, r, a + [self.item(s5, y)] + d + [self.item(s5, x)] + f, v.ety)
                                out.append((s5, UNIT))
        return out

    # ------------------------------------------------------------------ equality
    def intervals(self, st, ps):
        """[(state, [("iv", base, lo, hi) or ("it", value)])], without empty intervals"""
        E = self.E
        outs = [(st, [])]
        for u, n in ps:
            nxt = []
            for s, l in outs:
                if u[0] == "it":
                    nxt.append((s, l + [("it", self.vals[u[1]])]))
                    continue
                lo = Lin(0) if u[0] == "pre" else u[2] if u[0] == "sub" else self.blen[u[1]] - n
                if E.entails_eq0(s, n):
                    nxt.append((s, l))
                    continue
                a = s
                if not E.entails(s, n - 1):
                    z = s.copy()
                    if E.add_eq(z, n) and E.feasible(z, []):
                        nxt.append((z, l))
                    a = s.copy()
                    if not E.add_ge(a, n - 1) or not E.feasible(a, []):
                        continue
                nxt.append((a, l + [("iv", u[1], lo, lo + n)]))
            outs = nxt
        return outs

    def merged(self, st, l):
        E = self.E
        out = []
        for x in l:
            if x[0] == "it" and isinstance(x[1], Agg):
                x = self.whole(st, x[1]) or x
            if x[0] == "it" and isinstance(x[1], Sym) and x[1].term[0] == "e" and isinstance(x[1].term[2], Lin):
                # an element of a base
                x = ("iv", x[1].term[1], x[1].term[2], x[1].term[2] + 1)
            if x[0] == "iv" and out and out[-1][0] == "iv" and self.eqt(st, out[-1][1], x[1]) and E.entails_eq0(st, out[-1][3] - x[2]):
                out[-1] = ("iv", x[1], out[-1][2], x[3])
            else:
                out.append(x)
        return out

    def whole(self, st, agg):
        """a structure with a vector which is the unchanged one of an element of a base, as that element"""
        v = agg.fields[0] if len(agg.fields) == 1 else None
        if v is None and agg.base is not None and agg.base[0] == "e" and isinstance(agg.base[2], Lin):
            return ("iv", agg.base[1], agg.base[2], agg.base[2] + 1)
        if not isinstance(v, VecV):
            return None
        for s, ps in self.flat(st, v)[:1]:
            iv = self.intervals(s, ps)
            if len(iv) == 1:
                m = self.merged(s, iv[0][1])
                t = m[0][1] if len(m) == 1 and m[0][0] == "iv" else None
                if not m and v.term[0] == "f":
                    t = v.term
                if t is not None and t[0] == "f" and isinstance(t[1], tuple) and t[1][0] == "e" and isinstance(t[1][2], Lin):
                    if not m or self.E.entails_eq0(st, m[0][2]) and self.E.entails_eq0(st, m[0][3] - self.blen[t]):
                        return ("iv", t[1][1], t[1][2], t[1][2] + 1)
        return None

    def same(self, st, v, w):
        """is the content of two vectors the same?"""
        fa, fb = None, None
        for s, a in self.flat(st, v) or [(None, None)]:
            if s is None:
                return False
            for s2, b in self.flat(s, w) or [(None, None)]:
                if s2 is None:
                    return False
                for s3, x in self.intervals(s2, a):
                    for s4, y in self.intervals(s3, b):
                        if self.E.feasible(s4, []) and not self.eq(s4, self.merged(s4, x), self.merged(s4, y)):
                            return False
        return True

    def eq(self, st, x, y):
        """are two lists of intervals and of items the same? (walking both)"""
        E = self.E
        if not x or not y:
            return not x and not y
        a, b = x[0], y[0]
        if a[0] == "it" and b[0] == "it":
            return self.eqv(st, a[1], b[1]) and self.eq(st, x[1:], y[1:])
        if a[0] == "it" or b[0] == "it":
            if a[0] == "it":
                x, y, a, b = y, x, b, a
            # the first element of the interval (which isn't empty), and the item
            if not self.eqv(st, self.elem_like(st, a[1], a[2], b[1]), b[1]):
                return False
            return self.eqs(st, [("iv", a[1], a[2] + 1, a[3])] + x[1:], y[1:])
        if not self.eqt(st, a[1], b[1]) or not E.entails_eq0(st, a[2] - b[2]):
            return False
        d = a[3] - b[3]
        if E.entails_eq0(st, d):
            return self.eq(st, x[1:], y[1:])
        for l, k in ((d, 0), (d - 1, 1), (-d - 1, 2)):
            s = st.copy()
            if not (E.add_eq(s, l) if k == 0 else E.add_ge(s, l)) or not E.feasible(s, []):
                continue
            if k == 0:
                ok = self.eq(s, x[1:], y[1:])
            elif k == 1:
                ok = self.eq(s, [("iv", a[1], b[3], a[3])] + x[1:], y[1:])
            else:
                ok = self.eq(s, x[1:], [("iv", a[1], a[3], b[3])] + y[1:])
            if not ok:
                return False
        return True

    def eqs(self, st, x, y):
        """the same, the first interval of x being maybe empty"""
        E = self.E
        d = x[0][3] - x[0][2]
        s = st.copy()
        if E.add_eq(s, d) and E.feasible(s, []) and not self.eq(s, x[1:], y):
            return False
        s = st.copy()
        return not (E.add_ge(s, d - 1) and E.feasible(s, [])) or self.eq(s, x, y)

    def elem_like(self, st, base, i, x):
        """the element i of a base, with a vector as x if it has one"""
        if isinstance(x, Agg) and len(x.fields) == 1 and isinstance(x.fields[0], VecV):
            ts = [t for t in self.blen if t[0] == "f" and isinstance(t[1], tuple) and t[1][0] == "e" and t[1][1] == base]
            ts.sort(key=lambda t: not self.E.entails_eq0(st, t[1][2] - i))
            for t in ts:
                if isinstance(t[1][2], Lin):
                    # (the one of the same index, if any)
                    u = t if self.E.entails_eq0(st, t[1][2] - i) else ("f", ("e", base, i)) + t[2:]
                    n = self.E.nat(("len", u))
                    v = VecV(u, n, (), x.fields[0].ety)
                    self.base(v)
                    return Agg(x.path, x.vi, (v,), x.base, x.ty) if hasattr(x, "ty") else Agg(x.path, x.vi, (v,))
        return self.E.elem(st, VecV(base, self.blen.get(base, i + 1), (), self.btys.get(base)), i, self.btys.get(base))

    def eqt(self, st, a, b):
        """are two terms the same, in this state?"""
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.E.entails_eq0(st, a - b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eqt(st, x, y) for x, y in zip(a, b))
        return a == b

    def eqv(self, st, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.E.entails_eq0(st, a - b)
        if isinstance(a, VecV) and isinstance(b, VecV):
            return self.same(st, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.vi == b.vi and len(a.fields) == len(b.fields):
            return all(p is not None and q is not None and self.eqv(st, p, q) for p, q in zip(a.fields, b.fields))
        return self.eqt(st, self.E.content(st, a), self.E.content(st, b))
