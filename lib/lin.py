"""Linear expressions over interned atoms and an entailment test for conjunctions of
linear inequalities over the integers (Gaussian substitution of equalities, then
Fourier-Motzkin elimination with gcd tightening).  No external solver."""
from math import gcd


class Atoms:
    def __init__(self):
        self.idx = {}
        self.terms = []
        self.lo = []
        self.hi = []

    def get(self, term, lo=None, hi=None):
        i = self.idx.get(term)
        if i is None:
            i = len(self.terms)
            self.idx[term] = i
            self.terms.append(term)
            self.lo.append(lo)
            self.hi.append(hi)
        return i


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t  # tuple of (atom index, coef) sorted, coef != 0
        self._h = hash((c, t))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __rsub__(self, o):
        return Lin(o) - self

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((a, c * k) for a, c in self.t))

    def atoms(self):
        return [a for a, _ in self.t]

    def coef(self, a):
        for x, k in self.t:
            if x == a:
                return k
        return 0

    def subst(self, m):
        """m: atom -> Lin"""
        if not any(a in m for a, _ in self.t):
            return self
        r = Lin(self.c, tuple((a, k) for a, k in self.t if a not in m))
        for a, k in self.t:
            if a in m:
                r = r + m[a].scale(k)
        return r

    def __repr__(self):
        return "Lin(%d,%r)" % (self.c, self.t)


def norm(l):
    """tighten l >= 0 by the gcd of its coefficients"""
    if not l.t:
        return l
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
    if g > 1:
        return Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    return l


MAXC = 1500


def infeasible(ineqs, eqs, atoms):
    """True only if {l >= 0 for l in ineqs} and {e == 0 for e in eqs} has no integer solution."""
    eqs = list(eqs)
    ineqs = list(ineqs)
    # Gaussian elimination with unit-coefficient atoms
    pend = []
    while eqs:
        e = eqs.pop()
        if not e.t:
            if e.c != 0:
                return True
            continue
        g = 0
        for _, k in e.t:
            g = gcd(g, abs(k))
        if e.c % g:
            return True
        if g > 1:
            e = Lin(e.c // g, tuple((a, k // g) for a, k in e.t))
        u = None
        for a, k in e.t:
            if abs(k) == 1:
                u = (a, k)
                break
        if u is None:
            pend.append(e)
            continue
        a, k = u
        # k*a + rest = 0  ->  a = -rest/k
        rest = Lin(e.c, tuple(x for x in e.t if x[0] != a))
        m = {a: rest.scale(-k)}
        # keep the atom's own bounds
        if atoms.lo[a] is not None:
            ineqs.append(Lin(-atoms.lo[a], ((a, 1),)))
        if atoms.hi[a] is not None:
            ineqs.append(Lin(atoms.hi[a], ((a, -1),)))
        eqs = [x.subst(m) for x in eqs]
        pend = [x.subst(m) for x in pend]
        ineqs = [x.subst(m) for x in ineqs]
    for e in pend:
        ineqs.append(e)
        ineqs.append(-e)
    cur = set()
    for l in ineqs:
        l = norm(l)
        if not l.t:
            if l.c < 0:
                return True
            continue
        cur.add(l)
    used = set()
    for l in cur:
        for a, _ in l.t:
            used.add(a)
    for a in used:
        if atoms.lo[a] is not None:
            cur.add(Lin(-atoms.lo[a], ((a, 1),)))
        if atoms.hi[a] is not None:
            cur.add(Lin(atoms.hi[a], ((a, -1),)))
    cur = _dedup(cur)
    if cur is None:
        return True
    while True:
        pos, neg = {}, {}
        for l in cur:
            for a, k in l.t:
                if k > 0:
                    pos.setdefault(a, []).append(l)
                else:
                    neg.setdefault(a, []).append(l)
        al = set(pos) | set(neg)
        if not al:
            return False
        # atoms bounded on one side only can be dropped with their constraints
        one = [a for a in al if a not in pos or a not in neg]
        if one:
            o = set(one)
            cur = {l for l in cur if not any(a in o for a, _ in l.t)}
            continue
        best = min(al, key=lambda a: len(pos[a]) * len(neg[a]) - len(pos[a]) - len(neg[a]))
        if len(pos[best]) * len(neg[best]) > MAXC:
            return False
        new = {l for l in cur if not any(a == best for a, _ in l.t)}
        for p in pos[best]:
            kp = p.coef(best)
            for n in neg[best]:
                kn = -n.coef(best)
                g = gcd(kp, kn)
                r = norm(p.scale(kn // g) + n.scale(kp // g))
                if not r.t:
                    if r.c < 0:
                        return True
                    continue
                new.add(r)
        cur = _dedup(new)
        if cur is None:
            return True
        if len(cur) > MAXC:
            return False


def _dedup(cur):
    best = {}
    for l in cur:
        o = best.get(l.t)
        if o is None or l.c < o:
            best[l.t] = l.c
    # opposite constraints contradiction test
    for t, c in best.items():
        nt = tuple((a, -k) for a, k in t)
        o = best.get(nt)
        if o is not None and c + o < 0:
            return None
    return {Lin(c, t) for t, c in best.items()}
