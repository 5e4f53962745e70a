"""Views: scroll of TextView, MadView, ListView; scrollbars; areas (V..)."""
import re
import fw
import absint, models
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import OPT, NONE, some, norm, runs
from render import Run1, Wr, rd, fidx, place, showruns, style_term, SPACE
from outmod import chkey, canon
from skin import SKIN, SC, CS, os_field, sc_fields, coherent
from crop import fn_named, filling_calls

AREA = "termimad::area::Area"
TV = "termimad::views::text_view::TextView"
MV = "termimad::views::mad_view::MadView"
FT = "termimad::text::FmtText"


def method(c, P, adt, name):
    b = P.method(adt, name)
    return c.need(b, "%s::%s" % (adt.split("::")[-1], name))


def field(P, adt, name):
    return place(P, adt, name)


def get(P, E, st, ref, adt, name):
    p = place(P, adt, name)
    return rd(E, st, ref, p, p[-1][3])


def follow(E, st, v):
    """the ref behind references"""
    r = E.toref(v)
    return r


def ge0(E, st, l):
    return E.entails(st, l)


def cases(E, st, conds):
    """[(state, index)]: the states where the index-th condition (Lin >= 0 conjunctions) holds, the conditions being exclusive"""
    out = []
    for i, cs in enumerate(conds):
        s = st.copy()
        if all(E.add_ge(s, l) for l in cs) and E.feasible(s, []):
            out.append((s, i))
    return out


def check_value(E, st, got, conds):
    """got == the value of each (condition, value) pair, in every case"""
    for s, i in cases(E, st, [x[0] for x in conds]):
        if not E.entails_eq0(s, got - conds[i][1]):
            return i
    return None


def clamp(x, hi):
    """cases of clamp(x, 0, max(0, hi))"""
    return [([-x], Lin(0)), ([-hi, x - 1], Lin(0)), ([hi - 1, x - 1, hi - x], x), ([hi - 1, x - hi - 1], hi)]


def truthful(E, st, v, cond):
    """the boolean v is true exactly when cond (a Lin) >= 0"""
    f = E.asf(v)
    for s in E.assume(st.copy(), f, True):
        if E.feasible(s, []) and not E.entails(s, cond):
            return False
    for s in E.assume(st.copy(), f, False):
        if E.feasible(s, []) and not E.entails(s, -cond - 1):
            return False
    return True


def panics(c, E, what, skip=("overflow:Add",)):
    """the panics the compiler or the callees would raise, not shown impossible"""
    for o in E.oblig.values():
        if any(o["kind"].startswith(k) for k in skip):
            continue
        c.count("panic obligations")
        if not o["ok"]:
            c.violate("panic:%s:%s" % (o["fn"].split("::")[-1], o["kind"]), "%s:%d %s may panic (%s) in %s: %s" % (
                o["file"], o["line"], o["fn"], o["kind"], what, o["detail"][:160]))


class TView:
    """a scrollable view with a valid scroll: 0 <= scroll <= max(0, content - height)"""

    def __init__(self, c, P, adt, name, **opts):
        self.c, self.P, self.adt = c, P, adt
        self.b = method(c, P, adt, name)
        self.txt = None
        self.computing = None
        comp = opts.pop("on_compute", False)
        self.r = Run1(P, self.b, c, on_call=self.compute if comp else self.area_text, **opts)
        self.E = E = self.r.E
        self.me = E.toref(self.r.args[0])
        st = self.r.init
        E.root_val(st, self.me.root, P.types[self.b.locals[1]["t"]]["ty"])
        self.S = get(P, E, st, self.me, adt, "scroll")
        self.h = self.height(st)
        self.ch = self.content(st)
        if self.ch is not None:
            self.M = self.ch - self.h

    def compute(self, E, fr, blk, st, path, fn, args):
        if path.endswith("area::compute_scrollbar"):
            self.computing(st, args)
            return [(st, E.mk(("computed bar",), fn.get("ret")))]

    def area_text(self, E, fr, blk, st, path, fn, args):
        """the text of the skin, the markdown and the area of the view"""
        if not path.endswith("MadSkin::area_text") or self.adt != MV:
            return None
        P = self.P
        want = [(self.me.root, self.me.path + tuple(place(P, MV, x))) for x in ("skin", "area")]
        got = [(x.root, x.path) for x in (E.toref(args[0]), E.toref(args[2])) if x is not None]
        mp = place(P, MV, "markdown")
        if got != want or E.content(st, args[1]) != E.content(st, rd(E, st, self.me, mp, mp[-1][3])):
            return [(st, E.mk(("another text",), fn.get("ret") or self.txt.ty))]
        return [(st, self.txt)]

    def height(self, st):
        P, E = self.P, self.E
        ap = place(P, self.adt, "area")
        a = rd(E, st, self.me, ap, ap[-1][3])
        if P.types[ap[-1][3]]["k"] == "ref":
            r = E.toref(a)
        else:
            r = Ref(self.me.root, self.me.path + tuple(ap), ap[-1][3])
        return get(P, E, st, r, AREA, "height")

    def content(self, st):
        P, E = self.P, self.E
        if self.adt != TV:
            b = method(self.c, P, "termimad::skin::MadSkin", "area_text")
            self.txt = E.mk(("area text",), b.locals[0]["t"])
            v = E.proj(st, self.txt, place(P, FT, "lines")[0])
            return v.len
        tp = place(P, TV, "text")
        t = E.toref(rd(E, st, self.me, tp, tp[-1][3]))
        lp = place(P, FT, "lines")
        v = rd(E, st, t, lp, lp[-1][3])
        return v.len

    def valid(self, st, S=None):
        """the states where the scroll is valid"""
        S = self.S if S is None else S
        out = []
        for s, i in cases(self.E, st, [[self.M], [-self.M - 1]]):
            ok = self.E.add_ge(s, self.M - S) if i == 0 else self.E.add_eq(s, S)
            if ok and self.E.feasible(s, []):
                out.append(s)
        return out

    def after(self, st):
        return get(self.P, self.E, st, self.me, self.adt, "scroll")

    def go(self):
        out = []
        self.E.add_ge(self.r.init, self.h - 1)
        for s in self.valid(self.r.init) if self.ch is not None else [self.r.init]:
            out += self.E.call_body(s.copy(), self.b, list(self.r.args))
        return self.c.need(out or None, "a path of " + self.b.path)

    def is_valid(self, st, S):
        return check_value(self.E, st, Lin(0), []) is None and all(
            self.E.entails(s, S) and (self.E.entails(s, self.M - S) if i == 0 else self.E.entails_eq0(s, S))
            for s, i in cases(self.E, st, [[self.M], [-self.M - 1]]))


def spec(name, S, h, M, n=None):
    """(cases of the new scroll, condition of a change)"""
    want = {"line_up": [([-S], Lin(0)), ([S - 1], S - 1)],
            "line_down": [([M - S - 1], S + 1), ([S - M], S)],
            "page_up": [([h - S], Lin(0)), ([S - h - 1], S - h)],
            "page_down": [([M - S - h], S + h), ([M - S - 1, S + h - M - 1], M), ([S - M], S)]}.get(name)
    if name == "set_scroll":
        want = clamp(n, M)
    elif name == "try_scroll_lines":
        want = clamp(S + n, M)
    return want, {"line_up": S - 1, "page_up": S - 1, "line_down": M - S - 1, "page_down": M - S - 1}.get(name)


def scroll_path(E, st, v, name, after, res, n=None):
    want, change = spec(name, v.S, v.h, v.M, n)
    if want is None:
        if not v.is_valid(st, after):
            return "the scroll may be out of the text"
    elif check_value(E, st, after, want) is not None:
        return "the scroll isn't the one specified, it's %s" % E.showlin(after)
    if change is not None and not truthful(E, st, res, change):
        return "the result doesn't tell whether the scroll changed"
    if name == "set_scroll" and not E.entails_eq0(st, res - after):
        return "the result isn't the scroll"
    return None


def v01(c):
    c.rule = ("Each scrolling method of TextView and MadView is analysed on a symbolic view whose scroll is valid (0 <= scroll <= "
              "max(0, lines - height)), the area having at least a row: on every path the scroll is the specified function of "
              "the one before (±1, ± the height, + the number given, clamped to the valid ones), the boolean returned is true "
              "exactly when it changed, and no subtraction, negation or product overflows. Each key combination leads to the "
              "scroll of its key; the others change nothing and return false.")
    P = c.prog()
    for adt, names in ((TV, ("line_up", "line_down", "page_up", "page_down", "set_scroll", "try_scroll_lines", "try_scroll_pages",
                             "apply_key_combination", "apply_key_event")),
                       (MV, ("try_scroll_lines", "try_scroll_pages", "apply_key_combination", "apply_key_event"))):
        for name in names:
            scrolling(c, P, adt, name)
    c.floor("paths", 80)
    c.floor("keys", 10)


KEYS = {"Up": "line_up", "Down": "line_down", "PageUp": "page_up", "PageDown": "page_down"}


def scrolling(c, P, adt, name):
    v = TView(c, P, adt, name)
    E = v.E
    n = next((a for i, a in enumerate(v.r.args) if i and isinstance(a, Lin)), None)
    label = "%s::%s" % (adt.split("::")[-1], name)
    seen = set()
    for st, res in v.go():
        c.count("paths")
        a = v.after(st)
        if name.startswith("apply_key"):
            k = pressed(P, E, st)
            m = KEYS.get(k)
            if m is None:
                bad = None
                if not E.entails_eq0(st, a - v.S):
                    bad = "a key which isn't one of the scrolling ones changes the scroll"
                elif E.truth(st, E.asf(res)) is not False:
                    bad = "a key which isn't one of the scrolling ones is consumed"
            else:
                seen.add(k)
                bad = scroll_path(E, st, v, m, a, res)
                bad = bad and "%s: %s" % (k, bad)
        else:
            bad = scroll_path(E, st, v, name, a, res, n)
        if bad:
            c.violate("scroll:%s:%s" % (label, bad[:30]), "%s:%d %s: %s" % (v.b.file, v.b.line, label, bad))
    if name.startswith("apply_key"):
        c.count("keys", len(seen))
        for k in set(KEYS) - seen:
            c.violate("scroll:%s:%s" % (label, k), "%s:%d %s never does what %s should" % (v.b.file, v.b.line, label, k))
    panics(c, E, label)


def pressed(P, E, st):
    """the name of the key pressed alone, without modifier, when the path says it's known; else None"""
    names = [x["name"] for x in P.adts["crossterm::event::KeyCode"]["variants"]]
    alone = False
    for f, t in st.bs.items():
        if isinstance(f, tuple) and f and f[0] == "eqv" and "KeyModifiers" in str(f[1]) + str(f[2]):
            if any(isinstance(x, tuple) and x[:1] == ("bits",) and x[2] == "0" for x in f[1:]):
                alone = t is True
        elif isinstance(f, tuple) and f and isinstance(f[0], str) and f[0].split("::")[-1] == "is_empty" and t is True and \
                "modifiers" in str(f[1]):
            alone = True
    for t, a in list(E.A.idx.items()):
        # compared as numbers
        if isinstance(t, tuple) and t[0] == "f" and t[-1] == "0" and isinstance(t[1], tuple) and t[1][0] == "f" and \
                isinstance(t[1][1], tuple) and t[1][1][0] == "f" and t[1][1][-1] == "modifiers" and \
                E.entails_eq0(st, Lin(0, ((a, 1),))):
            alone = True
    if not alone:
        return None
    for t, d in st.disc.items():
        # codes.0 where codes is One
        if isinstance(t, tuple) and t[0] == "f" and t[-1] == "0" and isinstance(t[1], tuple) and t[1][0] == "f" and \
                t[1][-1] == "codes" and st.disc.get(t[1]) == 0:
            return names[d]
    return None


# ------------------------------------------------------------------ V02: scrollbars
def v02(c):
    c.rule = ("compute_scrollbar is analysed on symbolic scroll, heights and position; each path to a return is checked for a "
              "valid scroll and at least a row, the products and divisions being reasoned upon with the axioms of the integer "
              "division and products of inequalities: no thumb exactly when the content fits; the first row of the thumb is in "
              "the track, is the top one only when not scrolled; the last row isn't before the first, isn't after the track, "
              "and it's the last one of the track when scrolled to the end, and otherwise (tracks of more than 3 rows) only if "
              "the thumb starts there. The drawing of an input field and TextView::scrollbar compute the one of their scroll, of their "
              "number of lines and of their area's height and top.")
    import nonlin
    P = c.prog()
    b = fn_named(c, P, "area::compute_scrollbar")
    r = Run1(P, b, c, max_states=2000)
    E = r.E
    into = None
    for b2 in (b,):
        us = [i for i, t in enumerate(P.types) if t["k"] == "uint" and t["s"] == "usize"] if isinstance(P.types, list) else \
            [i for i, t in P.types.items() if t["k"] == "uint" and t["s"] == "usize"]
    U = c.need(us or None, "usize")[0]
    s, ch, a, top = [E.mk(("into", ("arg", i + 1), U), U) for i in range(4)]
    st0 = r.init
    for l in (a - 1, Lin(65535) - a, Lin(65535) - top, Lin(1 << 31) - ch, Lin(1 << 31) - s):
        E.add_ge(st0, l)
    some_ = none = 0
    for st, v in c.need(r.go() or None, "a path of compute_scrollbar"):
        c.count("paths")
        vi = E.variant_of(st, v)
        if vi == 0:
            none += 1
            if not E.entails(st, a - ch):
                c.violate("scrollbar:none", "%s:%d there may be no thumb while the content doesn't fit" % (b.file, b.line))
            continue
        some_ += 1
        if not E.entails(st, ch - a - 1):
            c.violate("scrollbar:some", "%s:%d there may be a thumb while the content fits" % (b.file, b.line))
        if not E.add_ge(st, ch - a - s) or not E.feasible(st, []):
            continue
        x = E.proj(st, v, ("f", 0, 1, None, "0"))
        lo, hi = (native(E, E.content(st, E.proj(st, x, ("f", i, None, None, str(i))))) for i in (0, 1))
        if lo is None or hi is None:
            c.violate("scrollbar:value", "%s:%d the rows aren't conversions of numbers" % (b.file, b.line))
            continue
        P_ = lambda st, l: nonlin.prove(E, st, l, [a, ch, s])
        last = top + a - 1
        want = [("the thumb may start over the track", lo - top), ("the thumb may start under the track", last - lo),
                ("the thumb may end before its start", hi - lo), ("the thumb may end under the track", last - hi)]
        for msg, l in want:
            c.count("obligations")
            if not P_(st, l):
                c.violate("scrollbar:%s" % msg[:40], "%s:%d %s" % (b.file, b.line, msg))
        z = st.copy()
        if E.add_eq(z, s) and E.feasible(z, []):
            c.count("obligations")
            if not P_(z, top - lo):
                c.violate("scrollbar:top", "%s:%d the thumb isn't at the top when the content isn't scrolled" % (b.file, b.line))
        z = st.copy()
        if E.add_ge(z, s - 1) and E.add_ge(z, a - 2) and E.feasible(z, []):
            c.count("obligations")
            if not P_(z, lo - top - 1):
                c.violate("scrollbar:scrolled", "%s:%d the thumb may be at the top when the content is scrolled" % (b.file, b.line))
        z = st.copy()
        if E.add_eq(z, ch - a - s) and E.feasible(z, []):
            c.count("obligations")
            if not P_(z, hi - last):
                c.violate("scrollbar:end", "%s:%d the thumb may be over the bottom when scrolled to the end" % (b.file, b.line))
        z = st.copy()
        if E.add_ge(z, ch - a - s - 1) and E.add_ge(z, a - 4) and E.add_ge(z, hi - lo - 1) and E.feasible(z, []):
            c.count("obligations")
            if not P_(z, last - 1 - hi):
                c.violate("scrollbar:notend", "%s:%d the thumb may be at the bottom while not scrolled to the end" % (b.file, b.line))
    c.floor("obligations", 30)
    if not some_ or not none:
        c.violate("scrollbar:paths", "%s:%d there's never, or always, a thumb" % (b.file, b.line))
    m = method(c, P, AREA, "scrollbar")
    # Area::scrollbar gives its own height and top
    seen = []

    def rec(E, fr, blk, st, path, fn, args):
        if path.endswith("area::compute_scrollbar"):
            seen.append((st.copy(), args))
        return None
    r = Run1(P, m, c, on_call=rec)
    E = r.E
    me = E.toref(r.args[0])
    r.go()
    for st, args in c.need(seen or None, "the call of compute_scrollbar in Area::scrollbar"):
        c.count("obligations")
        h, t = (get(P, E, st, me, AREA, x) for x in ("height", "top"))
        ok = [E.content(st, args[0]) == E.content(st, r.args[1]), E.content(st, args[1]) == E.content(st, r.args[2]),
              isinstance(args[2], Lin) and E.entails_eq0(st, args[2] - h), isinstance(args[3], Lin) and E.entails_eq0(st, args[3] - t)]
        if not all(ok):
            c.violate("scrollbar:area", "%s:%d Area::scrollbar doesn't compute the scrollbar of the area" % (m.file, m.line))
    of_view(c, P)
    of_field(c, P)


def of_field(c, P):
    """the scrollbar of an input field is computed for its scroll, its lines and its area"""
    from fields import Field, IF
    b = method(c, P, IF, "display_on")
    v = Field(c, P, b)
    got = []

    def calls(E, fr, blk, st, path, fn, args):
        if path.endswith("area::compute_scrollbar"):
            got.append(1)
            c.count("obligations")
            wants = (("scroll", v.scroll(st)[1]), ("number of lines", v.lines(st).len),
                     ("height", v.area(st, "height")), ("top", v.area(st, "top")))
            for x, (what, want) in zip(args, wants):
                if not isinstance(x, Lin) or not E.entails_eq0(st, x - want):
                    c.violate("scrollbar:field:" + what, "%s:%d the scrollbar of an input field isn't computed for its %s" % (b.file, b.line, what))
            return []
        return None
    v.on.append(calls)
    v.E.call_body(v.st, b, list(v.args))
    c.need(got or None, "the computation of the scrollbar of an input field")


def of_view(c, P):
    """the scrollbar of a text view is computed for its scroll, its lines and its area, unless it's hidden"""
    v = TView(c, P, TV, "scrollbar", on_compute=True)
    E = v.E
    got = []
    ap = place(P, TV, "area")
    area = E.toref(rd(E, v.r.init, v.me, ap, ap[-1][3])) if P.types[ap[-1][3]]["k"] == "ref" else Ref(v.me.root, v.me.path + tuple(ap), ap[-1][3])

    def calls(st, args):
        got.append(1)
        c.count("obligations")
        top = get(P, E, st, area, AREA, "top")
        for x, want, what in zip(args, (v.S, v.ch, v.h, top), ("scroll", "number of lines", "height", "top")):
            if not isinstance(x, Lin) or not E.entails_eq0(st, x - want):
                c.violate("scrollbar:view:" + what, "%s:%d the scrollbar of a text view isn't computed for its %s" % (v.b.file, v.b.line, what))
    v.computing = calls
    for l in (v.S, v.ch):
        E.add_ge(v.r.init, l)
    show = get(P, E, v.r.init, v.me, TV, "show_scrollbar")
    for want in (True, False):
        for s0 in E.assume(v.r.init.copy(), E.asf(show), want):
            for st, r in E.call_body(s0, v.b, list(v.r.args)):
                bar = "computed bar" in str(E.content(st, r))
                if bar != want or not want and E.variant_of(st, r) != 0:
                    c.violate("scrollbar:view", "%s:%d the scrollbar of a text view isn't the one of its lines, or is there when hidden" % (v.b.file, v.b.line))
    c.need(got or None, "the computation of the scrollbar of a text view")


def native(E, t):
    """the number behind conversions: try_into(x).unwrap()"""
    while isinstance(t, tuple) and t:
        if t[0] == "f" and isinstance(t[1], tuple) and t[1][0] in ("try_into", "try_from"):
            t = t[1][1]
        elif t[0] in ("try_into", "try_from"):
            t = t[1]
        elif t[0] == "lin":
            return t[1]
        else:
            return E.atom(t)
    return None


# ------------------------------------------------------------------ V03: drawing stays in the area and fills it
from outmod import Out
PEN = ("GH", "pen")
CURSOR = ("GH", "cursor")


def pkey(path):
    """a place path, whatever the lifetimes in the types"""
    return tuple(("f", e[1], e[2]) if e[0] == "f" else e[:2] for e in path)


def is_space(u):
    return u[2] == ("c", 32) or u[2][0] == "filling" and "SPACE_FILLING" in str(u[2][1])


class Pen(Out):
    """a writer which only knows where the cursor is: each write must stay in the area, each row is written from the left to
    the right before the next one is begun"""

    def __init__(self, P, **opts):
        self.bad = {}
        self.nw = 0
        self.expect = None      # (state, x, y, unit, n) -> problem
        self.pre = ()           # what's known of the area
        self.skips = None       # may a MoveTo skip cells of the row?
        fc = filling_calls(P)
        mine = opts.pop("on_call", None)

        def oc(E, fr, blk, st, path, fn, args):
            r = fc(E, fr, blk, st, path, fn, args)
            return r if r is not None or mine is None else mine(E, fr, blk, st, path, fn, args)
        super().__init__(P, on_call=oc, loop_facts=self.facts, **opts)

    def facts(self, E, st):
        g = st.mem.get(PEN)
        if g is None:
            return {}
        x, y = g.fields
        R, B = self.L + self.W, self.T + self.H
        k = st.mem.get(CURSOR)
        cur = {}
        if k is not None:
            for r, v in st.mem.items():
                # the position of the cursor in a variable
                if r[0] == "L" and isinstance(v, Agg) and v.path == OPT and v.vi == 1 and v.fields and isinstance(v.fields[0], Agg):
                    for i, f in enumerate(v.fields[0].fields[:2]):
                        if isinstance(f, Lin):
                            cur[("cursor", r, i)] = f - k.fields[i]
        return {**cur, **{("pre", l): ("ge", l) for l in self.pre}, "x-": ("ge", x - self.L), "x+": ("ge", R - x), "y-": ("ge", y - self.T), "y+": ("ge", B - 1 - y),
                "y++": ("ge", B - 2 - y), "full": x - R}

    def setup(self, st, left, top, width, height):
        self.L, self.T, self.W, self.H = left, top, width, height
        st.mem[PEN] = Agg("pen", None, (left + width, top - 1))

    def problem(self, st, what, detail=""):
        if self.E.recording is True:
            self.bad.setdefault(what, detail)

    def pen(self, st):
        return st.mem[PEN].fields

    def width_of(self, st, u):
        """columns of a unit"""
        E = self.E
        if u[0] == "o":
            if u[2][0] == "c":
                cp = u[2][1]
                if cp < 32 or cp == 127:
                    self.problem(st, "a control char is written")
                return Lin(1)
            return Lin(1)
        return None

    def put(self, st, unit, n=Lin(1)):
        E = self.E
        x, y = self.pen(st)
        if unit[0] == "cmd":
            if unit[1] == "MoveTo":
                nx, ny = (t[1] if t[0] == "lin" else E.atom(t) for t in unit[2])
                self.move(st, x, y, nx, ny)
            elif unit[1] not in ("SetBackgroundColor", "SetForegroundColor", "SetAttribute", "SetAttributes", "ResetColor"):
                self.problem(st, "the command %s is sent" % unit[1])
            return
        self.nw += 1
        w = self.width_of(st, unit)
        if w is None:
            self.problem(st, "something of unknown width is written", absint.show(unit)[:100])
            w = E.nat(("width", unit))
        w = w if n == Lin(1) else n.scale(w.c) if w.is_const() else w.scale(n.c) if n.is_const() else E.nat(("width", unit, n))
        if not E.entails(st, x - self.L):
            self.problem(st, "something may be written before the first column of the area")
        if not E.entails(st, self.L + self.W - x - w):
            self.problem(st, "something may be written after the last column of the area", E.showlin(x + w))
        if not E.entails(st, y - self.T) or not E.entails(st, self.T + self.H - 1 - y):
            self.problem(st, "something may be written over or under the area", E.showlin(y))
        if self.expect is not None:
            d = self.expect(st, x, y, unit, n)
            if d:
                self.problem(st, d)
        st.mem[PEN] = Agg("pen", None, (x + w, y))

    def move(self, st, x, y, nx, ny):
        E = self.E
        if E.entails_eq0(st, ny - y):
            if self.skips is None or not self.skips(st, x, nx):
                self.problem(st, "cells of a row are skipped")
        else:
            if not E.entails_eq0(st, ny - y - 1):
                self.problem(st, "the rows aren't drawn one after the other", E.showlin(ny))
            if not E.entails_eq0(st, nx - self.L):
                self.problem(st, "a row isn't drawn from the first column of the area")
            if not E.entails_eq0(st, x - self.L - self.W):
                self.problem(st, "a row isn't drawn up to the last column of the area", E.showlin(x))
        st.mem[PEN] = Agg("pen", None, (nx, ny))

    def finish(self, st):
        E = self.E
        x, y = self.pen(st)
        if not E.entails_eq0(st, y - self.T - self.H + 1):
            self.problem(st, "the last row of the area isn't drawn", E.showlin(y))
        if not E.entails_eq0(st, x - self.L - self.W):
            self.problem(st, "the last row isn't drawn up to the last column of the area", E.showlin(x))


def penned(c, P, b, areapath, pre, extra=None, mk=Pen, tag=None, **opts):
    """analyses the drawing function b; areapath: (adt, field) of the area"""
    o = mk(P, unroll=0, **opts)
    E = o.E
    st = o.init()
    args = []
    w = False
    for i in range(b.argc):
        t = P.types[b.locals[i + 1]["t"]]
        u = P.types[t["ty"]] if t["k"] == "ref" else t
        if i > 0 and not w and u["k"] == "param":
            args.append(o.dest())
            w = True
        else:
            args.append(E.mk(("arg", i + 1), b.locals[i + 1]["t"]))
    me = E.toref(args[0])
    ap = place(P, areapath, "area")
    if P.types[ap[-1][3]]["k"] == "ref":
        ar = E.toref(rd(E, st, me, ap, ap[-1][3]))
    else:
        ar = Ref(me.root, me.path + tuple(ap), ap[-1][3])
    L, T, W, H = (get(P, E, st, ar, AREA, f) for f in ("left", "top", "width", "height"))
    o.setup(st, L, T, W, H)
    # the area is on the screen
    for l in (Lin(65535) - L - W, Lin(65535) - T - H):
        E.add_ge(st, l)
    o.pre = tuple(pre(L, T, W, H))
    for l in o.pre:
        E.add_ge(st, l)
    if extra:
        extra(o, st, me)
    outs = [(s, v) for s, v in E.call_body(st, b, args) if E.variant_of(s, v) != 1]
    c.need(outs or None, "a success path of " + b.path)
    for s, v in outs:
        c.count("paths")
        o.finish(s)
    c.count("writes", o.nw)
    for k, d in o.bad.items():
        c.violate("draw:%s:%s" % (tag or b.name, k), "%s:%d %s: %s%s" % (b.file, b.line, b.path, k, " (%s)" % d if d else ""))
    return o, outs


RECT = "termimad::rect::Rect"
RBS = "termimad::rect::RectBorderStyle"


def v03_rect(c, P):
    b = method(c, P, RECT, "draw")

    def extra(o, st, me):
        E = o.E
        fp = place(P, RECT, "fill")
        f = E.asf(rd(E, st, me, fp, fp[-1][3]))

        def skips(s, x, nx):
            if E.truth(s, f) is not False:
                return False
            return E.entails_eq0(s, x - o.L - 1) and E.entails_eq0(s, nx - o.L - o.W + 1)
        o.skips = skips
        bp = place(P, RECT, "border_style")
        bs = E.toref(rd(E, st, me, bp, bp[-1][3]))
        ch = {}
        for x in ("top_left", "top", "top_right", "right", "bottom_right", "bottom", "bottom_left", "left"):
            q = place(P, RBS, x)
            ch[x] = chkey(canon(E, E.termof(rd(E, st, bs, q, q[-1][3]))))
        cp = place(P, RECT, "colors")
        sty = E.content(st, rd(E, st, me, tuple(cp) + (os_field(P),), os_field(P)[3]))

        def expect(s, x, y, unit, n):
            if unit[0] != "o" or unit[1] != sty:
                return "something isn't written in the colors of the rect"
            b0, b1 = y - o.T, o.T + o.H - 1 - y
            row = "top" if E.entails_eq0(s, b0) else "bottom" if E.entails_eq0(s, b1) else ""
            if not row and not (E.entails(s, b0 - 1) and E.entails(s, b1 - 1)):
                return "it isn't clear whether a row is a border"
            if E.entails_eq0(s, x - o.L):
                col = "left"
            elif E.entails_eq0(s, x - o.L - o.W + 1):
                col = "right"
            elif E.entails(s, o.L + o.W - 1 - x - n):
                col = ""
            else:
                return "it isn't clear whether a char is on a border"
            want = ch.get("_".join(k for k in (row, col) if k))
            if want is None:
                if not is_space(unit) or E.truth(s, f) is not True:
                    return "the inside is filled while it shouldn't, or not with spaces"
            elif unit[2] != want or n != Lin(1) and col:
                return "a char of the border isn't the one of its place"
            return None
        o.expect = expect
    penned(c, P, b, RECT, lambda L, T, W, H: (W - 2, H - 2), extra)


DL = "termimad::displayable_line::DisplayableLine"


def bar_calls(P, E_, adts=("scrollbar",), only=None):
    """Area::scrollbar by its specification (V02): none, or two rows"""
    def oc(E, fr, blk, st, path, fn, args):
        if not path.endswith("Area::scrollbar"):
            return None
        s1, s2 = st.copy(), st.copy()
        rows = tuple(E.atom(("thumb", i), None, 0, 65535) for i in (0, 1))
        E.add_ge(s2, rows[1] - rows[0])
        s1.setg("bar", False)
        s2.setg("bar", True)
        r = [(s1, NONE), (s2, some(Agg("tuple", None, rows)))]
        return r if only is None else [r[1 if only else 0]]
    return oc


def thumb_or_track(P, o, st, y, unit, n, terms):
    """the scrollbar's cell of the row y"""
    E = o.E
    top, bottom = (E.atom(("thumb", i), None, 0, 65535) for i in (0, 1))
    if unit[0] != "o" or n != Lin(1):
        return "the scrollbar's cell isn't one char"
    for s, i in cases(E, st, [[y - top, bottom - y], [top - y - 1], [y - bottom - 1]]):
        if (unit[1], unit[2]) != terms[0 if i == 0 else 1]:
            return "the scrollbar's cell isn't the thumb exactly on the rows of the thumb"
    return None


def bar_terms(P, E, st, sbar):
    """(style, char) as written of the thumb and of the track of a ScrollBarStyle, whose cached contents are coherent"""
    out = []
    f, k, _ = sc_fields(P)
    for x in ("thumb", "track"):
        p = place(P, SB, x)
        coherent(P, E, st, sbar.root, sbar.path + tuple(p))
        ch = rd(E, st, sbar, tuple(p) + (k,), k[3])
        out.append((E.content(st, rd(E, st, sbar, tuple(p) + (f, os_field(P)))), chkey(canon(E, E.termof(ch)))))
    return out


SB = "termimad::scrollbar_style::ScrollBarStyle"


def v03_text(c, P):
    b = method(c, P, TV, "write_on")

    def stop(E, st, x):
        w, l, k = (E.proj(st, x, place(P, DL, f)[0]) for f in ("width", "line", "skin"))
        return ("dl", w, l, k)

    class TPen(Pen):
        def width_of(self, st, u):
            E = self.E
            if u[0] == "dl":
                v = u[1]
                return E.proj(st, v, ("f", 0, 1, None, "0")) if E.variant_of(st, v) == 1 else None
            return super().width_of(st, u)

    def extra(o, st, me):
        E = o.E
        tp = place(P, TV, "text")
        t = E.toref(rd(E, st, me, tp, tp[-1][3]))
        lp = place(P, FT, "lines")
        lines = rd(E, st, t, lp, lp[-1][3])
        kp = place(P, FT, "skin")
        skin = E.toref(rd(E, st, t, kp, kp[-1][3]))
        sp = place(P, TV, "scroll")
        S = rd(E, st, me, sp, sp[-1][3])

        bars = bar_terms(P, E, st, Ref(skin.root, skin.path + tuple(place(P, SKIN, "scrollbar")), None))
        blank = style_term(P, E, st, skin, "paragraph.compound_style.object_style")

        def expect(st, x, y, unit, n):
            E = o.E
            bar = st.g("bar")
            if E.entails_eq0(st, x - o.L):
                i = S + y - o.T
                w = o.W - 1 if bar else o.W
                if unit[0] == "dl":
                    r = E.toref(unit[2])
                    base = (E.toref(Ref(t.root, t.path + tuple(lp))))
                    if not r.path or r.path[-1][0] != "e" or (r.root, pkey(r.path[:-1])) != (base.root, pkey(base.path)) or \
                            not E.entails_eq0(st, r.path[-1][1] - i):
                        return "a row doesn't show the line of the text at the scroll plus the row"
                    k = E.toref(unit[3])
                    if (k.root, pkey(k.path)) != (skin.root, pkey(skin.path)):
                        return "the lines aren't displayed with the skin of the text"
                    if not E.entails_eq0(st, E.proj(st, unit[1], ("f", 0, 1, None, "0")) - w):
                        return "the lines aren't displayed with the width of the area less the scrollbar"
                elif unit[0] == "o" and is_space(unit):
                    st.setg("blank", True)
                    if not E.entails(st, i - lines.len):
                        return "a row may be blank while there's a line to display"
                    if unit[1] != blank:
                        return "a blank row isn't in the style of paragraphs"
                else:
                    return "something else than a line of the text is written"
                return None
            if bar and E.entails_eq0(st, x - o.L - o.W + 1):
                return thumb_or_track(P, o, st, y, unit, n, bars)
            return "something is written after a line of the text"
        o.expect = expect
    penned(c, P, b, TV, lambda L, T, W, H: (W - 2, H - 1), extra, mk=TPen, stop={DL: stop}, on_call=bar_calls(P, None))


IF = "termimad::views::input_field::InputField"
IFC = "termimad::views::input_field_content::InputFieldContent"


class CharPen(Pen):
    """the chars of the content are of any width"""

    def width_of(self, st, u):
        E = self.E
        if u[0] == "o" and u[2][0] != "c" and not is_space(u) and not re.search("scrollbar|thumb|track", str(u[2])):
            t = u[2]
            ch = E.atom(t)
            cw = ("cwidth", E.content(st, ch))
            if E.feasible_eq(st, ch - 9):
                self.problem(st, "a raw tab may be written", repr(u)[:200] + str([E.showlin(l) for l in st.ne]))
            d = E.atom(("disc", ("cwidthopt", cw)))
            if E.entails_eq0(st, d):
                return Lin(0)
            if E.entails_eq0(st, d - 1):
                return E.atom(cw, None, 0, 2)
            return None
        return super().width_of(st, u)

    def put(self, st, unit, n=Lin(1)):
        super().put(st, unit, n)
        if self.E.entails_eq0(st, self.pen(st)[0] - self.L - self.W):
            st.setg("first", "done" if dict(st.ghost).get("first") is True else "full")


def compound_style(P, E, st, me, dotted):
    p = place(P, IF, dotted)
    return E.content(st, rd(E, st, me, p, p[-1][3]))


class Sub:
    """what's found in a process of its own"""

    def __init__(self, c):
        self.c, self.n, self.bad = c, {}, {}

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def violate(self, k, what):
        self.bad.setdefault(k, what)

    def need(self, x, what):
        return self.c.need(x, what)

    def to(self, c, r):
        for k, n in r[0].items():
            c.count(k, n)
        for k, x in r[1].items():
            c.violate(k, x)


def v03_input(c, P):
    b = method(c, P, IF, "display_on")
    # the geometry; the chars in password mode; the position of the cursor
    cases_ = [(f, None, s) for f in (True, False) for s in (True, False)] + [(None, True, False)] + [(True, None, s, True) for s in (True, False)]
    for r in fw.pmap(lambda x: input_case(Sub(c), P, b, *x), cases_):
        c.count("cases")
        Sub.to(None, c, r)


def input_case(c, P, b, focus, mask, bar, track=False):
    """the field is focused or not, in password mode or not, with or without scrollbar; track: the cursor's position"""
    bars = bar_calls(P, None, only=bar)

    def extra(o, st, me):
        E = o.E
        for f, on in (("password_mode", mask), ("focused", focus)):
            if on is not None:
                E.write(st, me.root, me.path + tuple(place(P, IF, f)), BoolV(TRUE if on else FALSE))
        cur = compound_style(P, E, st, me, "cursor_style.object_style")

        def expect(s, x, y, unit, n):
            if E.entails_eq0(s, x - o.L):
                # what's first on a row is kept distinct along the loops
                s.setg("first", unit[2] == ("c", 0x2026))
            if unit[0] != "o" or unit[2][0] == "c" or is_space(unit) or re.search("scrollbar|thumb|track", str(unit[2])):
                pass
            elif mask:
                return "a char of the content may be written in password mode"
            if unit[1] == cur:
                if focus is False:
                    return "the cursor may be drawn when the field isn't focused"
                if not track:
                    return None
                s.mem[CURSOR] = Agg("cursor", None, (x, y))
                s.setg("cur", True)
        o.expect = expect
        if track:
            st.mem[CURSOR] = Agg("cursor", None, (Lin(0), Lin(0)))
        st.setg("first", "full")

    def calls(E, fr, blk, st, path, fn, args):
        r = bars(E, fr, blk, st, path, fn, args)
        if r is not None:
            return r
        if path.endswith("pos::Range::contains"):
            return [(st, BoolV(("s", ("selected",) + tuple(E.content(st, a) for a in args[1:]))))]
        if path.endswith("::get_default_skin"):
            return [(st, E.mk(("default skin",), None))]
        return None
    o, outs = penned(c, P, b, IF, lambda L, T, W, H: (W - 4, H - 1), extra, mk=CharPen, on_call=calls, loop_each=False, max_states=300)
    E = o.E
    for st, v in outs:
        if not track:
            break
        c.count("obligations")
        opt = E.proj(st, v, ("f", 0, 0, None, "0"))
        var = E.variant_of(st, opt)
        if not st.g("cur"):
            if var != 0:
                c.violate("draw:cursor:none", "%s:%d %s: a cursor position may be returned though no cursor is drawn" % (b.file, b.line, b.path))
            continue
        if var != 1:
            c.violate("draw:cursor:some", "%s:%d %s: the position of the drawn cursor may not be returned" % (b.file, b.line, b.path))
            continue
        t = E.proj(st, opt, ("f", 0, 1, None, "0"))
        got = [E.proj(st, t, ("f", i, None, None, str(i))) for i in (0, 1)]
        want = st.mem[CURSOR].fields
        if not all(isinstance(a, Lin) and E.entails_eq0(st, a - w) for a, w in zip(got, want)):
            c.violate("draw:cursor:pos", "%s:%d %s: the position returned isn't where the cursor is drawn" % (b.file, b.line, b.path))
    if track or mask:
        # the geometry is checked in the other cases
        c.bad = {k: v for k, v in c.bad.items() if k.startswith("draw:cursor") or "password" in k}
    return c.n, c.bad


def v03(c):
    c.rule = ("Rect::draw (a rectangle of at least 2x2 on the screen) and TextView::write_on (an area of at least 2x1) are "
              "analysed with the writer replaced by a cursor: every unit written must start and end within the area, MoveTo may "
              "only go to the first column of the next row once the previous one is complete, the last row must be complete at "
              "the end. Each unit is compared with what's specified at its position: the border's char in its style, nothing "
              "else than spaces inside; or the line at scroll + row in the text's skin at the width left by the scrollbar, "
              "blanks only past the last line, and the thumb on exactly the rows given by Area::scrollbar.")
    P = c.prog()
    v03_rect(c, P)
    v03_text(c, P)
    c.floor("paths", 6)
    c.floor("writes", 60)


def v04(c):
    c.rule = ("InputField::display_on is analysed with the writer replaced by a cursor for each combination of focus and "
              "scrollbar, over symbolic content, scrolls and area (at least 4 columns): nothing is written out of the area, "
              "nor a tab, every row is complete. With password_mode set no char of the content may reach the writer. The "
              "cursor's style is only used when focused, and the position returned is the one of the last cell written with it.")
    P = c.prog()
    v03_input(c, P)
    c.floor("cases", 7)
    c.floor("paths", 12)
    c.floor("writes", 2000)
