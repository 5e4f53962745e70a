"""Inequalities with products and quotients: a goal is refuted with the axioms of the integer divisions and the products of
the facts by the non negative factors (degree 2)."""
from lin import Lin, infeasible

BIG = 1 << 20


def term_of(E, a):
    return E.A.terms[a]


def mul(E, st, x, y):
    """x*y expanded over atoms; None when of degree 3"""
    out = Lin(x.c * y.c)
    for a, k in x.t:
        out = out + Lin(0, ((a, k * y.c),)) if y.c else out
    for b, k in y.t:
        out = out + Lin(0, ((b, k * x.c),)) if x.c else out
    for a, k in x.t:
        for b, q in y.t:
            if any(isinstance(term_of(E, i), tuple) and term_of(E, i)[0] == "mul" for i in (a, b)):
                return None
            out = out + E.arith(st, "Mul", Lin(0, ((a, 1),)), Lin(0, ((b, 1),)), None).scale(k * q)
    return out


def prove(E, st, goal, factors):
    """facts |= goal >= 0; factors: non negative Lins to multiply the facts by"""
    if E.entails(st, goal):
        return True
    st = st.copy()
    neg = -goal - 1
    dens, axioms = [], []
    for l in list(st.ge) + list(st.eq) + [goal]:
        for a, _ in l.t:
            t = term_of(E, a)
            if isinstance(t, tuple) and t[0] == "div" and (t, a) not in dens:
                dens.append((t, a))
    for t, a in dens:
        num, den = t[1], t[2]
        q = Lin(0, ((a, 1),))
        qd = mul(E, st, q, den)
        if qd is None or not E.entails(st, num) or not E.entails(st, den - 1):
            continue
        axioms += [num - qd, qd + den - 1 - num]
    small = [l for l in st.ge if abs(l.c) < BIG and all(abs(k) < 8 for _, k in l.t)]
    eqs = [l for l in st.eq if abs(l.c) < BIG]
    prods = []
    for f in factors:
        for l in small + [neg]:
            p = mul(E, st, l, f)
            if p is not None:
                prods.append(p)
        for l in list(eqs):
            p = mul(E, st, l, f)
            if p is not None:
                eqs.append(p)
    ineqs = small + [neg] + axioms + prods
    # keep what's connected to the goal through products
    return infeasible(ineqs, eqs, E.A)
