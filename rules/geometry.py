"""Areas, positions and ranges (V05)."""
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin
from models import OPT
from render import Run1, rd, place
from views import AREA, method, get, panics
from content import POS, RANGE


def alive(E, s):
    return E.feasible(s, []) and not any(E.entails_eq0(s, n) for n in s.ne)


def exactly(E, st, v, cases):
    """the boolean v is the one of the case (conditions, boolean); the cases cover everything"""
    f = E.asf(v)
    for conds, want in cases:
        s = st.copy()
        if not all(E.add_ge(s, l) for l in conds) or not alive(E, s):
            continue
        for z in E.assume(s, f, not want):
            if alive(E, z):
                return False
    return True


def fields(P, E, st, adt, v, names):
    """the fields of a struct, behind a reference or not"""
    r = E.toref(v)
    if r is not None:
        return [get(P, E, st, r, adt, n) for n in names]
    return [E.proj(st, v, place(P, adt, n)[0]) for n in names]


def anyof(E, st, l, bits=16):
    E.add_ge(st, l)
    E.add_ge(st, Lin((1 << bits) - 1) - l)


class At:
    """an area in the screen"""

    def __init__(self, c, P, name, **opts):
        self.c, self.P, self.name = c, P, name
        self.b = method(c, P, AREA, name)
        self.r = Run1(P, self.b, c, **opts)
        self.E, self.st = self.r.E, self.r.init
        self.args = list(self.r.args)
        self.me = self.args[0]
        t = P.types[self.b.locals[1]["t"]]
        if t["k"] == "ref":
            self.E.root_val(self.st, self.E.toref(self.me).root, t["ty"])
        if t["k"] == "ref" or t.get("path") == AREA:
            self.l, self.t, self.w, self.h = fields(P, self.E, self.st, AREA, self.me, ("left", "top", "width", "height"))
            for x in (self.l, self.t, self.w, self.h):
                anyof(self.E, self.st, x)
            self.E.add_ge(self.st, Lin(65535) - self.l - self.w)
            self.E.add_ge(self.st, Lin(65535) - self.t - self.h)

    def fail(self, key, what):
        self.c.violate("geometry:%s:%s" % (self.name, key), "%s:%d Area::%s %s" % (self.b.file, self.b.line, self.name, what))

    def ends(self):
        out = [(s, v) for s, v in self.E.call_body(self.st.copy(), self.b, list(self.args)) if self.E.feasible(s, [])]
        for _ in self.c.need(out or None, "an end of Area::" + self.name):
            self.c.count("ends")
        return out

    def after(self, s):
        return fields(self.P, self.E, s, AREA, self.me, ("left", "top", "width", "height"))


def reads(c, P):
    for name in ("right", "bottom", "contains"):
        v = At(c, P, name)
        E = v.E
        if name == "contains":
            x, y = v.args[1:]
            anyof(E, v.st, x), anyof(E, v.st, y)
            inx, iny = [x - v.l, v.l + v.w - 1 - x], [y - v.t, v.t + v.h - 1 - y]
            cases = [(inx + iny, True), ([v.l - x - 1], False), ([x - v.l - v.w], False), ([v.t - y - 1], False), ([y - v.t - v.h], False)]
        for s, r in v.ends():
            if name == "contains":
                if not exactly(E, s, r, cases):
                    v.fail("bool", "doesn't tell exactly whether the cell is in the area")
            elif not E.entails_eq0(s, r - (v.l + v.w if name == "right" else v.t + v.h)):
                v.fail("edge", "isn't the one of the area")
        panics(c, E, name)


def makers(c, P):
    v = At(c, P, "new")
    for s, r in v.ends():
        if [E_ for E_ in fields(P, v.E, s, AREA, r, ("left", "top", "width", "height"))] != list(v.args):
            v.fail("fields", "doesn't put its arguments in the fields they name")
    b = method(c, P, AREA, "full_screen")

    def size(E, fr, blk, st, path, fn, args):
        if path.endswith("area::terminal_size"):
            return [(st, Agg(None, None, (E.atom(("columns",), None, 0, 65535), E.atom(("rows",), None, 0, 65535)), None, fn.get("ret")))]
    r = Run1(P, b, c, on_call=size)
    E = r.E
    for s, v in c.need(r.go() or None, "an end of Area::full_screen"):
        c.count("ends")
        got = fields(P, E, s, AREA, v, ("left", "top", "width", "height"))
        if got != [Lin(0), Lin(0), E.atom(("columns",), None, 0, 65535), E.atom(("rows",), None, 0, 65535)]:
            c.violate("geometry:full_screen", "%s:%d the area of the full screen isn't the one of the terminal" % (b.file, b.line))


def shrinks(c, P):
    v = At(c, P, "pad")
    E, st = v.E, v.st
    dx, dy = v.args[1:]
    for l in (dx, dy, v.w - dx - dx, v.h - dy - dy):
        E.add_ge(st, l)
    for s, _ in v.ends():
        for n, a, w in zip(("left", "top", "width", "height"), v.after(s), (v.l + dx, v.t + dy, v.w - dx - dx, v.h - dy - dy)):
            if not isinstance(a, Lin) or not E.entails_eq0(s, a - w):
                v.fail(n, "doesn't remove the columns and rows asked on each side (%s)" % n)
    panics(c, E, "pad")
    v = At(c, P, "pad_for_max_width")
    E, st = v.E, v.st
    mx = v.args[1]
    anyof(E, st, mx)
    for s0, _ in v.ends():
        l, t, w, h = v.after(s0)
        for conds, narrow in (([mx - v.w], False), ([v.w - mx - 1], True)):
            s = s0.copy()
            if not all(E.add_ge(s, x) for x in conds) or not E.feasible(s, []):
                continue
            c.count("cases")
            if not all(isinstance(x, Lin) for x in (l, w)) or not E.entails_eq0(s, w - (mx if narrow else v.w)):
                v.fail("width", "doesn't limit the width to the one given")
                continue
            if not E.entails_eq0(s, t - v.t) or not E.entails_eq0(s, h - v.h):
                v.fail("rows", "changes the rows")
            a, z = l - v.l, v.l + v.w - l - w
            # the columns removed on both sides are the same, or there's one more on a side
            if not (E.entails_eq0(s, a) if not narrow else E.entails(s, a) and E.entails(s, z) and E.entails(s, z - a + 1) and E.entails(s, a - z + 1)):
                v.fail("sides", "doesn't remove as much on both sides")
    panics(c, E, "pad_for_max_width")


def bar(c, P):
    """Area::scrollbar is the one of its rows"""
    got = []

    def call(E, fr, blk, st, path, fn, args):
        if path.endswith("area::compute_scrollbar"):
            got.append(1)
            return [(st, E.mk(("bar",) + tuple(E.content(st, a) for a in args), fn.get("ret")))]
    v = At(c, P, "scrollbar", on_call=call)
    want = ("bar",) + tuple(v.E.content(v.st, a) for a in v.args[1:] + [v.h, v.t])
    for s, r in v.ends():
        if v.E.content(s, r) != want:
            v.fail("bar", "isn't the scrollbar of its scroll and content for the rows of the area")


def order(c, P):
    """positions are ordered by lines, then by columns"""
    for name in ("cmp", "partial_cmp", "eq"):
        bs = [b for b in P.bodies.values() if b.name == name and P.self_adt(b) == POS]
        for b in c.need(bs or None, "%s of the positions" % name):
            r = Run1(P, b, c)
            E, st = r.E, r.init
            for a in r.args:
                E.root_val(st, E.toref(a).root, P.types[b.locals[1]["t"]]["ty"])
            (x, y), (x2, y2) = [fields(P, E, st, POS, a, ("x", "y")) for a in r.args]
            for l in (x, y, x2, y2):
                anyof(E, st, l, 60)
            less, more = [[y2 - y - 1], [y2 - y, y - y2, x2 - x - 1]], [[y - y2 - 1], [y2 - y, y - y2, x - x2 - 1]]
            same = [[y2 - y, y - y2, x2 - x, x - x2]]
            for s, v in c.need([(s, v) for s, v in r.go() if E.feasible(s, [])] or None, "an end of " + name):
                c.count("ends")
                if name == "eq":
                    if not exactly(E, s, v, [(k, False) for k in less + more] + [(k, True) for k in same]):
                        c.violate("order:eq", "%s:%d positions are equal, or not, otherwise than by their line and column" % (b.file, b.line))
                    continue
                if name == "partial_cmp":
                    if E.variant_of(s, v) != 1:
                        c.violate("order:none", "%s:%d two positions may not be ordered" % (b.file, b.line))
                        continue
                    v = E.proj(s, v, ("f", 0, 1, None, "0"))
                d = E.discr(s, v) if not isinstance(v, Lin) else v
                for ks, w in ((less, -1), (same, 0), (more, 1)):
                    for k in ks:
                        z = s.copy()
                        if all(E.add_ge(z, l) for l in k) and alive(E, z):
                            c.count("cases")
                            if not E.entails_eq0(z, d - w) and not (w < 0 and E.entails_eq0(z, d - 255)):
                                c.violate("order:" + name, "%s:%d the order of the positions isn't the one of the text" % (b.file, b.line))


def within(c, P):
    for name in ("contains", "contains_pos"):
        b = method(c, P, RANGE, name)
        r = Run1(P, b, c)
        E, st = r.E, r.init
        me = E.toref(r.args[0])
        E.root_val(st, me.root, P.types[b.locals[1]["t"]]["ty"])
        ends = []
        for f in ("min", "max"):
            for k in ("x", "y"):
                w = tuple(place(P, RANGE, f)) + tuple(place(P, POS, k))
                ends.append(rd(E, st, me, w, w[-1][3]))
        x0, y0, x1, y1 = ends
        args = list(r.args)
        if name == "contains":
            x, y = args[1:]
        else:
            at = {n: E.atom(("at", n), None, 0, 1 << 60) for n in ("x", "y")}
            x, y = at["x"], at["y"]
            args[1] = Agg(POS, None, tuple(at[f["name"]] for f in P.adts[POS]["variants"][0]["fields"]), None, b.locals[2]["t"])
        for l in (x0, y0, x1, y1, x, y):
            anyof(E, st, l, 60)
        for order_ in ([y1 - y0 - 1], [y1 - y0, y0 - y1, x1 - x0]):
            s0 = st.copy()
            if not all(E.add_ge(s0, l) for l in order_):
                continue
            after = [[y - y0 - 1], [y - y0, y0 - y, x - x0]]
            before = [[y1 - y - 1], [y1 - y, y - y1, x1 - x]]
            cases = [(a + z, True) for a in after for z in before]
            cases += [([y0 - y - 1], False), ([y - y0, y0 - y, x0 - x - 1], False), ([y - y1 - 1], False), ([y - y1, y1 - y, x - x1 - 1], False)]
            for s, v in c.need([(s, v) for s, v in E.call_body(s0, b, list(args)) if E.feasible(s, [])] or None, "an end of Range::" + name):
                c.count("ends")
                if not exactly(E, s, v, cases):
                    c.violate("range:" + name, "%s:%d Range::%s doesn't tell exactly whether the position is from the first to the last one" % (b.file, b.line, name))
        panics(c, E, name)


def v05(c):
    c.rule = ("The methods of areas are interpreted on any area in the screen, the order of the positions on any two of them, the ranges on any "
              "ordered ends and any position: the booleans, edges and sizes must be the specified ones in every case of the specification.")
    P = c.prog()
    reads(c, P)
    makers(c, P)
    shrinks(c, P)
    bar(c, P)
    order(c, P)
    within(c, P)
    c.floor("ends", 12)
    c.floor("cases", 6)
