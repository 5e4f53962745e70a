"""Input fields: visibility of the cursor, consumption of the events (I05, I06)."""
import absint, fw
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import OPT, NONE, some, norm
from render import Run1, rd, place
from views import method, get, panics, truthful, AREA, cases
from content import IFC, LINE, POS

IF = "termimad::views::input_field::InputField"
# where the pointer is, the cursor is assumed to be visible
CLICKS = ("apply_click_event", "apply_mouse_event")
EXCLUDED = ("scroll_up", "scroll_down") + CLICKS
BIG = 1 << 40
SETTLED = ("GH", "settled")


class Field:
    """an input field, of valid content. The content's own methods are replaced by what's known of them (I01..I04): the ones
    returning false change nothing, the other ones leave some valid content."""

    def __init__(self, c, P, b, focused=None, **opts):
        self.c, self.P, self.b = c, P, b
        self.k = 0
        self.on = []
        self.r = Run1(P, b, c, on_call=self.calls, unroll=0, max_states=3000, **opts)
        self.E = E = self.r.E
        self.args = list(self.r.args)
        self.me = E.toref(self.args[0])
        st = self.st = self.r.init
        E.root_val(st, self.me.root, P.types[b.locals[1]["t"]]["ty"])
        self.bool = next(i for i, t in enumerate(P.types) if t["s"] == "bool")
        self.lty = next(i for i, t in enumerate(P.types) if t.get("path") == LINE)
        self.pty = next(i for i, t in enumerate(P.types) if t.get("path") == POS)
        self.mono = [P.types[l["t"]]["s"] for l in b.locals[:b.argc + 1]]
        self.set_content(st, ("content0",))
        sx, sy = self.scroll(st)
        self.write(st, "scroll", self.mkpos(sx, sy))
        for l in (sx, sy):
            E.add_ge(st, Lin(BIG) - l)
        if focused is not None:
            self.write(st, "focused", BoolV(TRUE if focused else FALSE))
        self.known(st)

    # the fields
    def write(self, st, f, v):
        p = place(self.P, IF, f)
        self.E.write(st, self.me.root, self.me.path + tuple(p), v)

    def get(self, st, f):
        return get(self.P, self.E, st, self.me, IF, f)

    def area(self, st, f):
        ap = place(self.P, IF, "area")
        return get(self.P, self.E, st, Ref(self.me.root, self.me.path + tuple(ap), ap[-1][3]), AREA, f)

    def sub(self, f):
        p = place(self.P, IF, f)
        return Ref(self.me.root, self.me.path + tuple(p), p[-1][3])

    def xy(self, st, f):
        v = self.get(st, f) if f == "scroll" else get(self.P, self.E, st, self.sub("content"), IFC, f)
        return tuple(self.E.proj(st, v, place(self.P, POS, k)[0]) for k in ("x", "y"))

    def scroll(self, st):
        return self.xy(st, "scroll")

    def pos(self, st):
        return self.xy(st, "pos")

    def lines(self, st):
        return get(self.P, self.E, st, self.sub("content"), IFC, "lines")

    def mkpos(self, x, y):
        ix = {f: place(self.P, POS, f)[0][1] for f in ("x", "y")}
        fs = [None, None]
        fs[ix["x"]], fs[ix["y"]] = x, y
        return Agg(POS, None, tuple(fs), None, self.pty)

    def set_content(self, st, term):
        """some other valid content"""
        E, P = self.E, self.P
        cp = place(P, IF, "content")
        self.write(st, "content", E.mk(term, cp[-1][3]))
        n = self.lines(st).len
        x, y = self.pos(st)
        cref = self.sub("content")
        E.write(st, cref.root, cref.path + tuple(place(P, IFC, "pos")), self.mkpos(x, y))
        for l in (x, y, n - y - 1, Lin(BIG) - n, Lin(BIG) - x):
            E.add_ge(st, l)
        w = self.chars(st)
        E.add_ge(st, w.len - x)

    def chars(self, st):
        """the chars of the line of the cursor"""
        x, y = self.pos(st)
        l = self.E.elem(st, self.lines(st), y, self.lty)
        return self.E.proj(st, l, place(self.P, LINE, "chars")[0])

    def cols(self, st):
        """(columns before the cursor, columns of its line)"""
        E = self.E
        w = self.chars(st)
        x, _ = self.pos(st)
        W = E.nat(("width", w.term))
        C = E.nat(("col", w.term, x))
        E.add_ge(st, W - C)
        E.add_ge(st, Lin(BIG) - W)
        return C, W

    def known(self, st):
        self.cols(st)

    def isme(self, r, f):
        p = self.sub(f) if f else self.me
        return r is not None and r.root == p.root and r.path == p.path

    # calls
    def calls(self, E, fr, blk, st, path, fn, args):
        for f in self.on:
            r = f(E, fr, blk, st, path, fn, args)
            if r is not None:
                return r
        b = self.P.body_of(fn) if hasattr(self.P, "body_of") else None
        rid = fn.get("rid") or ""
        m = path.split("::")[-1]
        adt = self.adt(fn)
        if adt == LINE and m in ("width", "char_idx_to_col") and args:
            r = E.toref(args[0])
            w = E.read(st, r.root, r.path + tuple(place(self.P, LINE, "chars")), None)
            if not isinstance(w, VecV):
                return None
            W = E.nat(("width", w.term))
            E.add_ge(st, Lin(BIG) - W)
            if m == "width":
                return [(st, W)]
            E.obligation(fr, blk, "slice", E.entails(st, w.len - args[1]), "index <= len not proven")
            C = E.nat(("col", w.term, args[1]))
            E.add_ge(st, W - C)
            return [(st, C)]
        if adt == LINE and m == "col_to_char_idx" and args:
            r = E.toref(args[0])
            w = E.read(st, r.root, r.path + tuple(place(self.P, LINE, "chars")), None)
            t = E.nat(("idx", w.term, args[1]))
            out = []
            s = st.copy()
            if E.add_ge(s, w.len - t - 1) and E.feasible(s, []):
                out.append((s, some(t)))
            if E.add_ge(st, t - w.len) and E.feasible(st, []):
                out.append((st, NONE))
            return out
        if adt == IFC and args:
            r = E.toref(args[0])
            if not self.isme(r, "content"):
                return None
            body = self.body(fn)
            t = self.P.types[body.locals[1]["t"]] if body is not None and body.argc else None
            if t is not None and t["k"] == "ref" and not t.get("mut"):
                rt = body.locals[0]["t"]
                if (self.P.types[rt].get("path") or "").endswith("String"):
                    return [(st, E.mk(("text", m, E.content(st, self.get(st, "content"))), rt))]
                return None
            if t is None or t["k"] != "ref":
                return None
            return self.edit(E, fr, blk, st, m, args, body)
        if adt == IF and args and self.isme(E.toref(args[0]), None):
            return self.nested(E, fr, blk, st, m, args, self.body(fn))
        return None

    def nested(self, E, fr, blk, st, m, args, body):
        """another public method, itself checked: changes nothing, or leaves the cursor visible"""
        t = self.P.types[body.locals[1]["t"]]
        if body.vis != "pub" or m in EXCLUDED and m not in CLICKS or not t.get("mut"):
            return None
        self.k += 1
        term = ("field", m, blk, self.k)
        rt = body.locals[0]["t"]
        s = st.copy()
        self.set_content(s, term)
        for f in ("area", "focused"):
            p = place(self.P, IF, f)
            self.write(s, f, E.mk((f,) + term, p[-1][3]))
        sx, sy = E.nat(("sx",) + term), E.nat(("sy",) + term)
        for l in (sx, sy):
            E.add_ge(s, Lin(BIG) - l)
        self.write(s, "scroll", self.mkpos(sx, sy))
        s.mem[SETTLED] = Agg("ghost", None, tuple(self.snap(s)))
        ret = lambda k: E.mk(("ret", k) + term, rt)
        if self.P.types[rt]["s"] == "bool":
            return [(s.copy(), BoolV(TRUE)), (s, BoolV(FALSE)), (st.copy(), BoolV(TRUE)), (st, BoolV(FALSE))]
        return [(s, ret(1)), (st, ret(2))]

    def snap(self, st):
        """what the visibility depends on"""
        E = self.E
        return [E.content(st, self.get(st, f)) for f in ("area", "scroll", "focused")] + [self.pos(st), E.content(st, self.lines(st))]

    def edit(self, E, fr, blk, st, m, args, body):
        """a method of the content changing it"""
        ret = self.P.types[body.locals[0]["t"]]["s"]
        self.k += 1
        term = ("content", m, fr.b.name if hasattr(fr, "b") else "", blk, self.k)
        if m in ("make_selection", "unselect", "set_selection_tail"):
            p = self.sub("content")
            tp = place(self.P, IFC, "selection_tail")
            E.write(st, p.root, p.path + tuple(tp), E.mk(("tail",) + term, tp[-1][3]))
            return [(st, Agg("tuple", None, ()))]
        s = st.copy()
        self.set_content(s, term)
        self.log(s, m)
        if ret == "bool":
            self.log(st, m)
            return [(s, BoolV(TRUE)), (st, BoolV(FALSE))]
        return [(s, E.mk(("ret",) + term, body.locals[0]["t"]))]

    def log(self, st, m):
        pass

    def adt(self, fn):
        b = self.body(fn)
        return self.P.self_adt(b) if b is not None else None

    def body(self, fn):
        return self.P.bodies.get(fn.get("rid"))

    def go(self):
        return self.E.call_body(self.st.copy(), self.b, list(self.args))

    # visibility
    def visible(self, st):
        """[(conditions, obligations, what)] of the cursor's visibility"""
        x, y = self.scroll(st)
        px, py = self.pos(st)
        n, h, w = self.lines(st).len, self.area(st, "height"), self.area(st, "width")
        C, W = self.cols(st)
        out = [([h - 1], [py - y], "the cursor is above the first line shown"),
               ([h - 1], [y + h - py - 1], "the cursor is below the last line shown"),
               ([h - n], [-y], "scrolled while all the lines fit"),
               ([n - h - 1], [n - h - y], "scrolled after the last line")]
        for k, bar in (([n - h - 1], 1), ([h - n], 0)):
            v = w - bar
            out += [(k + [v - 1], [C - x], "the cursor is before the first column shown"),
                    (k + [v - 1], [x + v - C - 1], "the cursor is after the last column shown"),
                    (k + [v - 5, x - 1], [C - x - 1], "the cursor is under the ellipsis"),
                    (k + [v - W - 1], [-x], "scrolled while the line fits")]
        return out

    def unseen(self, st):
        E = self.E
        for conds, obs, what in self.visible(st):
            s = st.copy()
            if not all(E.add_ge(s, l) for l in conds) or not E.feasible(s, []):
                continue
            if not all(E.entails(s, l) for l in obs):
                return what
        return None

    def suppose(self, st):
        """the states in which the cursor is visible"""
        E = self.E
        out = [st]
        for conds, obs, what in self.visible(st):
            nxt = []
            for s in out:
                # the condition doesn't hold, or the obligation does
                for k, l in enumerate(conds):
                    a = s.copy()
                    if all(E.add_ge(a, x) for x in conds[:k]) and E.add_ge(a, -l - 1) and E.feasible(a, []):
                        nxt.append(a)
                a = s.copy()
                if all(E.add_ge(a, x) for x in conds + obs) and E.feasible(a, []):
                    nxt.append(a)
            out = nxt
        return out


def field_methods(c, P):
    """the public methods changing a field"""
    out = []
    for b in P.bodies.values():
        if b.kind == "fn" and P.self_adt(b) == IF and not (b.impl_of or "").strip() and b.argc and b.vis == "pub":
            t = P.types[b.locals[1]["t"]]
            if t["k"] == "ref" and P.types[t["ty"]].get("path") == IF and t.get("mut"):
                out.append(b.name)
    return sorted(out)




def settled(c, v, ends):
    """the cursor of a focused field is visible, if anything changed"""
    E = v.E
    before = v.snap(v.st)
    for st, r in ends:
        c.count("end states")
        now = v.snap(st)
        if now == before:
            c.count("unchanged")
            continue
        g = st.mem.get(SETTLED)
        if g is not None and list(g.fields) == now:
            c.count("by another method")
            continue
        for s in E.assume(st.copy(), E.asf(v.get(st, "focused")), True):
            if not E.feasible(s, []):
                continue
            c.count("visibility obligations")
            w = v.unseen(s)
            if w:
                c.violate("field:%s:%s" % (v.b.name, w), "%s:%d InputField::%s: %s" % (v.b.file, v.b.line, v.b.name, w))


def job(args):
    kind, name, tier = args
    c = fw.Check("I", tier)
    P = c.prog()
    try:
        JOBS[kind](c, P, name)
    except fw.Missing as e:
        c.violate("anchor:%s" % name, str(e))
    return c.viol, c.counts


def spread(c, jobs):
    for viol, counts in fw.pmap(job, [j + (c.tier,) for j in jobs]):
        for k, x in viol.items():
            c.violate(k, x)
        for k, n in counts.items():
            c.count(k, n)


def stays(c, P, name):
    v = Field(c, P, method(c, P, IF, name))
    settled(c, v, v.go())
    panics(c, v.E, name)


def focusing(c, P, name):
    """the click which gives the focus"""
    v = Field(c, P, method(c, P, IF, name), focused=False)
    settled(c, v, v.go())


JOBS = {"stays": stays, "focusing": focusing}


def i05(c):
    c.rule = ("Every public method changing an input field is analysed on a field of any valid content, area, scroll and focus: at "
              "each end, either what the visibility depends on is unchanged, or another checked method changed it last, or the "
              "cursor of a focused field is in the lines and columns shown.")
    P = c.prog()
    ms = [m for m in field_methods(c, P) if m not in EXCLUDED]
    c.count("methods", len(ms))
    c.floor("methods", 30)
    spread(c, [("stays", m) for m in ms] + [("focusing", m) for m in CLICKS])


# ------------------------------------------------------------------ I06
TRACE = ("GH", "trace")
KC = "crossterm::event::KeyCode"


class Traced(Field):
    """a field on which the changes of the content are recorded, in order; the state of the selection is known: none, on the cursor
    (point) or wide"""

    def __init__(self, c, P, b, sel=None, **o):
        super().__init__(c, P, b, **o)
        self.memo = {}
        E, st = self.E, self.st
        st.mem[TRACE] = Agg("ghost", None, ())
        p = self.sub("content")
        tp = place(P, IFC, "selection_tail")
        x, y = self.pos(st)
        if sel == "none":
            v = NONE
        elif sel == "point":
            v = some(self.mkpos(x, y))
        elif sel:
            tx, ty = E.nat(("tail x",)), E.nat(("tail y",))
            v = some(self.mkpos(tx, ty))
            l = {"left": x - tx, "right": tx - x, "above": y - ty, "below": ty - y}[sel] - 1
            E.add_ge(st, l)
            if sel in ("left", "right"):
                E.add_eq(st, ty - y)
        if sel:
            E.write(st, p.root, p.path + tuple(tp), v)
        self.wide = sel not in (None, "none", "point")
        self.scroll0 = self.scroll(st)

    def nested(self, E, fr, blk, st, m, args, body):
        """a method which only changes the scroll"""
        if body.vis == "pub" or len(args) != 1 or self.P.types[body.locals[0]["t"]]["s"] != "()" or not self.scrolls(body):
            return None
        self.k += 1
        t = ("scroll", blk, self.k)
        self.write(st, "scroll", self.mkpos(E.nat(("sx",) + t), E.nat(("sy",) + t)))
        return [(st, Agg("tuple", None, ()))]

    def scrolls(self, body):
        if body.name not in self.memo:
            v = Field(self.c, self.P, body)
            keep = lambda st: [v.E.content(st, v.get(st, f)) for f in ("area", "focused", "content")]
            self.memo[body.name] = all(keep(st) == keep(v.st) for st, r in v.go())
        return self.memo[body.name]

    def edit(self, E, fr, blk, st, m, args, body):
        ret = self.P.types[body.locals[0]["t"]]["s"]
        self.k += 1
        term = ("content", m, blk, self.k)
        out = []
        vals = [True, False] if ret == "bool" else [None]
        a = tuple(self.val(st, x) for x in args[1:])
        for v in vals:
            s = st.copy()
            if v is not False:
                self.set_content(s, term + (v,))
            s.mem[TRACE] = Agg("ghost", None, s.mem[TRACE].fields + ((m, a, v),))
            out.append((s, E.mk(("ret",) + term, body.locals[0]["t"]) if v is None else BoolV(TRUE if v else FALSE)))
        return out

    def val(self, st, x):
        if isinstance(x, Agg) and x.path == POS:
            return ("pos",) + tuple(self.E.proj(st, x, place(self.P, POS, k)[0]) for k in ("x", "y"))
        return x if isinstance(x, Lin) else self.E.content(st, x)

    def trace(self, st):
        return st.mem[TRACE].fields

    def same(self, st, but=()):
        """nothing changes"""
        E = self.E
        return not self.trace(st) and all(E.content(st, self.get(st, f)) == E.content(self.st, self.get(self.st, f))
                                          for f in ("content", "area", "focused", "scroll") if f not in but)

    def fail(self, what):
        self.c.violate("field:%s:%s" % (self.b.name, what), "%s:%d InputField::%s: %s" % (self.b.file, self.b.line, self.b.name, what))


def variants(v, st, val, path):
    """[(state, variant name, index)]"""
    E = v.E
    vs = v.P.adts[path]["variants"]
    k = E.variant_of(st, val)
    out = []
    for i, x in enumerate(vs):
        if k is not None:
            if i == k:
                out.append((st, x["name"], i))
            continue
        s = st.copy()
        if E.add_eq(s, E.discr(s, val) - E.discr_val(path, i)) and E.feasible(s, []) and \
                not any(E.entails_eq0(s, n) for n in s.ne):
            s.disc[E.termof(val)] = E.discr_val(path, i)
            out.append((s, x["name"], i))
    return out


def bits(t):
    """the value of a constant set of flags"""
    if isinstance(t, tuple) and t and t[0] == "bits":
        return int(t[2])
    if isinstance(t, tuple) and len(t) == 3 and str(t[0]).split("::")[-1].lower() in ("bitor", "union", "bor"):
        a, b = bits(t[1]), bits(t[2])
        return None if a is None or b is None else a | b
    return None


def modset(v, st, m):
    """the values the modifiers may have on that path"""
    E = v.E
    t = E.termof(m)
    n = bits(t)
    if n is not None:
        return {n}
    may = set(range(64))
    for f, b in st.bs.items():
        if not isinstance(f, tuple) or t not in f:
            continue
        k = str(f[0]).split("::")[-1]
        o = [bits(x) for x in f[1:] if x != t]
        n = o[0] if o else None
        test = {"is_empty": lambda x: x == 0, "eqv": n is not None and (lambda x: x == n),
                "contains": n is not None and f[1] == t and (lambda x: x & n == n),
                "intersects": n is not None and (lambda x: x & n != 0)}.get(k)
        if test:
            may = {x for x in may if test(x) is bool(b)}
    raw = E.A.get(("f", ("f", t, None, 0, "0"), None, 0, "0"))
    if len(may) > 1 and any(a == raw for l in st.ge + st.eq + st.ne for a, _ in l.t):
        keep = set()
        for x in may:
            s = st.copy()
            if E.add_eq(s, Lin(-x, ((raw, 1),))) and E.feasible(s, []) and not any(E.entails_eq0(s, w) for w in s.ne):
                keep.add(x)
        may = keep
    return may


def mods(v, st, m):
    """what the modifiers may be on that path: none, shift, other"""
    return {{0: "none", 1: "shift"}.get(x, "other") for x in modset(v, st, m)}


MOVES = {"Home": "move_to_line_start", "End": "move_to_line_end", "Up": "move_up", "Down": "move_down", "Left": "move_left",
         "Right": "move_right"}
SELS = ("none", "point", "left", "right", "above", "below")


def arg_ok(v, st, got, want):
    if callable(want):
        return want(st, got)
    if isinstance(got, Lin) and isinstance(want, Lin):
        return v.E.entails_eq0(st, got - want)
    return got == want


def ops_ok(v, st, r, ops, res):
    """the changes made to the content, and the result: None when they are as told"""
    E = v.E
    tr = v.trace(st)
    names = [x[0] for x in tr]
    if names != [o[0] for o in ops]:
        return "does %s instead of %s" % (" then ".join(names) or "nothing", " then ".join(o[0] for o in ops) or "nothing")
    for x, o in zip(tr, ops):
        if len(x[1]) != len(o) - 1 or not all(arg_ok(v, st, g, w) for g, w in zip(x[1], o[1:])):
            return "calls %s with another argument" % x[0]
    if res == "last":
        res = tr[-1][2]
    if res is not None and E.truth(st, E.asf(r)) is not res:
        return "doesn't return %s" % {True: "true", False: "false"}[res]
    return None


def key_spec(v, code, k, c, shift):
    """(changes, result)"""
    if code in ("Backspace", "Delete"):
        return [("del_selection",) if v.wide else ("del_char_left" if code == "Backspace" else "del_char_below",)], "last"
    if code == "Char":
        return ([("del_selection",)] if v.wide else []) + [("insert_char", c)], True
    sel = ("make_selection" if shift else "unselect",)
    if code in MOVES:
        return [sel, (MOVES[code],)], "last"
    if code in ("PageUp", "PageDown"):
        return [sel, ("move_lines_up" if code == "PageUp" else "move_lines_down", v.area(v.st, "height"))], "last"
    return None, False


def key_check(v, st, r, code, shift):
    E = v.E
    chty = next(i for i, t in enumerate(v.P.types) if t["s"] == "char")
    for s, name, k in variants(v, st, code, KC):
        v.c.count("keys")
        c = E.proj(s, code, ("f", 0, k, chty, "0")) if name == "Char" else None
        ops, res = key_spec(v, name, k, c, shift)
        if ops is None:
            if any(x[0] not in ("make_selection", "unselect") for x in v.trace(s)) or E.truth(s, E.asf(r)) is not False:
                v.fail("a key which isn't handled changes the text or is consumed")
            continue
        w = ops_ok(v, s, r, ops, res)
        if w:
            v.fail("%s: %s" % (name, w))


def ignored(v, st, r, what):
    if not v.same(st) or v.E.truth(st, v.E.asf(r)) is not False:
        v.fail("%s, but the field changes or tells that the event is used" % what)


def bools(v, st, b):
    return [(x, s) for x in (True, False) for s in v.E.assume(st.copy(), v.E.asf(b), x) if v.E.feasible(s, [])]


def focus(v, st):
    return bools(v, st, v.get(v.st, "focused"))


def key_event(c, v, st, r, code, m):
    for f, s in focus(v, st):
        if not f:
            ignored(v, s, r, "not focused")
            continue
        for k in sorted(mods(v, s, m)):
            if k == "other":
                ignored(v, s, r, "other modifiers than shift")
            else:
                key_check(v, s, r, code, k == "shift")


def pointed(v, col, row):
    """the position at a column and a row of the screen, in the text"""
    E, st = v.E, v.st
    sx, sy = v.scroll0
    n = v.lines(st).len

    def ok(s, got):
        if not isinstance(got, tuple) or got[0] != "pos":
            return False
        x, y = got[1:]
        if not isinstance(x, Lin) or not isinstance(y, Lin):
            return False
        want = row - v.area(st, "top") + sy
        for cond, val in ((n - 1 - want, want), (want - n, n - 1)):
            a = s.copy()
            if not E.add_ge(a, cond) or not E.feasible(a, []):
                continue
            if not E.entails_eq0(a, y - val):
                return False
            l = E.elem(a, v.lines(st), y, v.lty)
            w = E.proj(a, l, place(v.P, LINE, "chars")[0])
            t = E.nat(("idx", w.term, col - v.area(st, "left") + sx))
            for cs, to in ((w.len - t - 1, t), (t - w.len, w.len)):
                b = a.copy()
                if E.add_ge(b, cs) and E.feasible(b, []) and not E.entails_eq0(b, x - to):
                    return False
        return True
    return ok


def inside(v, st, col, row):
    """(in the area, state)"""
    E = v.E
    l, t, w, h = (v.area(v.st, k) for k in ("left", "top", "width", "height"))
    out = []
    for ok, cs in ((True, [col - l, l + w - col - 1, row - t, t + h - row - 1]), (False, [l - col - 1]), (False, [col - l - w]),
                   (False, [t - row - 1]), (False, [row - t - h])):
        s = st.copy()
        if all(E.add_ge(s, x) for x in cs) and E.feasible(s, []):
            out.append((ok, s))
    return out


def unscrolled(v, st, d=0):
    E = v.E
    x, y = v.scroll(st)
    x0, y0 = v.scroll0
    return E.entails_eq0(st, x - x0) and E.entails_eq0(st, y - y0 - d)


def scroll_spec(v, st, down):
    """the scroll is what it should be"""
    E = v.E
    _, y0 = v.scroll0
    can = v.lines(v.st).len - y0 - v.area(v.st, "height") - 1 if down else y0 - 1
    for cond, d in ((can, 1 if down else -1), (-can - 1, 0)):
        s = st.copy()
        if E.add_ge(s, cond) and E.feasible(s, []) and not unscrolled(v, s, d):
            return "doesn't scroll as it should"
    return None


MEK = "crossterm::event::MouseEventKind"
MB = "crossterm::event::MouseButton"


def mouse_event(c, v, st, r, ev, double):
    E, P = v.E, v.P
    ME = "crossterm::event::MouseEvent"
    kind, col, row, m = (E.proj(st, ev, place(P, ME, f)[0]) for f in ("kind", "column", "row", "modifiers"))
    at = pointed(v, col, row)
    for ok, s in inside(v, st, col, row):
        if not ok:
            ignored(v, s, r, "the pointer is out of the field")
            continue
        if E.truth(s, E.asf(r)) is not True:
            v.fail("an event in the field isn't used")
        for s, kn, k in variants(v, s, kind, MEK):
            left = [(False, s)]
            if kn in ("Down", "Up", "Drag"):
                bt = next(f["ty"] for f in P.adts[MEK]["variants"][k]["fields"]) if "fields" in P.adts[MEK]["variants"][k] else None
                b = E.proj(s, kind, ("f", 0, k, bt, "0"))
                left = [(n == "Left", z) for z, n, _ in variants(v, s, b, MB)]
            for isleft, s in left:
                for f, s in focus(v, s):
                    c.count("mouse cases")
                    mouse_case(v, s, r, kn if isleft or kn.startswith("Scroll") else None, f, at, m, double)


def mouse_case(v, st, r, kn, focused, at, m, double):
    E = v.E
    if not focused:
        now = E.truth(st, E.asf(v.get(st, "focused")))
        if kn == "Down":
            if now is not True or not v.same(st, ("focused", "scroll")):
                v.fail("a click in a field without focus doesn't just focus it")
        elif not v.same(st):
            v.fail("a field without focus changes")
        return
    if kn == "Down":
        for k in sorted(mods(v, st, m)):
            w = ops_ok(v, st, r, [("make_selection" if k == "shift" else "unselect",), ("set_cursor_pos", at)], True)
            if w:
                v.fail("pressing the button %s" % w)
    elif kn == "Drag":
        w = ops_ok(v, st, r, [("make_selection",), ("set_cursor_pos", at)], True)
        if w:
            v.fail("dragging %s" % w)
    elif kn == "Up":
        for d, s in bools(v, st, double):
            if d:
                w = ops_ok(v, s, r, [("set_cursor_pos", at), ("select_word_around",)], True)
            else:
                w = None if v.same(s) else "changes something without double click"
            if w:
                v.fail("releasing the button %s" % w)
    elif kn in ("ScrollDown", "ScrollUp"):
        w = scroll_spec(v, st, kn == "ScrollDown")
        if w or not v.same(st, ("scroll",)):
            v.fail("%s: %s" % (kn, w or "changes something else"))
    elif not v.same(st):
        v.fail("changes on an event which means nothing to it")


def events(c, P, name, sel):
    b = method(c, P, IF, name)
    v = Traced(c, P, b, sel=sel)
    E, a = v.E, v.args
    EV = "crossterm::event::Event"
    KE = "crossterm::event::KeyEvent"

    def event(st, r, e, double):
        for s, n, k in variants(v, st, e, EV):
            c.count("events")
            if n in ("Key", "Mouse"):
                ty = P.adts[EV]["variants"][k]["fields"][0]["ty"]
                x = E.proj(s, e, ("f", 0, k, ty, "0"))
            if n == "Key":
                key_event(c, v, s, r, *(E.proj(s, x, place(P, KE, f)[0]) for f in ("code", "modifiers")))
            elif n == "Mouse":
                mouse_event(c, v, s, r, x, double)
            else:
                ignored(v, s, r, "neither a key nor the mouse")
    for st, r in v.go():
        c.count("paths")
        if name == "apply_keycode_event":
            for sh, s in bools(v, st, a[2]):
                key_check(v, s, r, a[1], sh)
        elif name == "apply_mouse_event":
            mouse_event(c, v, st, r, a[1], a[2])
        elif name == "apply_event":
            event(st, r, E.read(st, E.toref(a[1]).root, E.toref(a[1]).path, E.toref(a[1]).ty), a[2])
        elif name == "apply_timed_event":
            TE = "termimad::events::timed_event::TimedEvent"
            f = lambda k: get(P, E, st, E.toref(a[1]), TE, k)
            event(st, r, f("event"), f("double_click"))
        elif name == "apply_click_event":
            at = pointed(v, a[1], a[2])
            for ok, s in inside(v, st, a[1], a[2]):
                if not ok:
                    ignored(v, s, r, "the pointer is out of the field")
                    continue
                for f, s in focus(v, s):
                    c.count("mouse cases")
                    if f:
                        w = ops_ok(v, s, r, [("set_cursor_pos", at)], True)
                        if w:
                            v.fail("a click %s" % w)
                    elif E.truth(s, E.asf(v.get(s, "focused"))) is not True or not v.same(s, ("focused", "scroll")) or \
                            E.truth(s, E.asf(r)) is not True:
                        v.fail("a click in a field without focus doesn't just focus it")
    panics(c, E, name)


JOBS["events"] = lambda c, P, name: events(c, P, *name.split("/"))


SAME_NAME = ("move_up", "move_down", "move_left", "move_right", "move_to_start", "move_to_end", "move_to_line_start", "move_to_line_end",
             "move_word_left", "move_word_right", "del_char_below", "del_selection", "del_char_left", "del_word_left", "del_word_right",
             "move_current_line_up", "move_current_line_down", "select_word_around", "clear")
OTHERS = ("page_up", "page_down", "insert_new_line", "put_char", "insert_str", "set_str", "replace_selection", "cut_selection",
          "copy_selection", "scroll_up", "scroll_down", "set_focus", "set_area", "change_area", "apply_key_combination")


def from_arg(v, st, i):
    """the argument i, or what's behind it"""
    t = v.E.termof(v.args[i])

    def has(x):
        return x == t or isinstance(x, tuple) and any(has(y) for y in x)
    return lambda s, got: has(got) if isinstance(got, tuple) else has(v.E.termof(got))


def method_case(c, P, name, sel):
    v = Traced(c, P, method(c, P, IF, name), sel=sel)
    E, a = v.E, v.args
    h = v.area(v.st, "height")
    for st, r in v.go():
        c.count("paths")
        w = None
        if name == "clear":
            w = ops_ok(v, st, r, [("clear",)], None)
        elif name in SAME_NAME:
            w = ops_ok(v, st, r, [(name,)], "last")
        elif name in ("page_up", "page_down"):
            w = ops_ok(v, st, r, [("move_lines_up" if name == "page_up" else "move_lines_down", h)], "last")
        elif name == "insert_new_line":
            w = ops_ok(v, st, r, [("insert_new_line",)], True)
        elif name == "put_char":
            w = ops_ok(v, st, r, [("insert_char", a[1])], True)
        elif name in ("insert_str", "set_str"):
            w = ops_ok(v, st, r, [(name, from_arg(v, st, 1))], None)
        elif name == "replace_selection":
            w = ops_ok(v, st, r, ([("del_selection",)] if v.wide else []) + [("insert_str", from_arg(v, st, 1))], None)
        elif name in ("cut_selection", "copy_selection"):
            w = ops_ok(v, st, r, [("del_selection",)] if name == "cut_selection" else [], None)
            t = v.E.termof(r)
            if not w and t != ("text", "selection_string", E.content(v.st, v.get(v.st, "content"))):
                w = "doesn't return the text which is selected"
        elif name in ("scroll_up", "scroll_down"):
            w = scroll_spec(v, st, name == "scroll_down") or (None if v.same(st, ("scroll",)) else "changes something else")
            n, y0 = v.lines(v.st).len, v.scroll0[1]
            if not w and not truthful(E, st, r, n - y0 - h - 1 if name == "scroll_down" else y0 - 1):
                w = "doesn't tell whether it scrolls"
        elif name == "set_focus":
            for x, s in bools(v, st, a[1]):
                if E.truth(s, E.asf(v.get(s, "focused"))) is not x or not v.same(s, ("focused", "scroll")):
                    w = "the focus isn't the one given, or something else changes"
        elif name in ("set_area", "change_area"):
            if not v.same(st, ("area", "scroll")):
                w = "something else than the area changes"
            for f in ("left", "top", "width", "height"):
                now = v.area(st, f)
                if name == "set_area":
                    want = E.proj(st, a[1], place(P, AREA, f)[0])
                else:
                    want = dict(left=a[1], top=a[2], width=a[3], height=h)[f]
                if name == "set_area" and v.same(st) and any(
                        b and isinstance(t, tuple) and t[0] == "eqv" and set(t[1:]) == {E.termof(a[1]), E.termof(v.get(v.st, "area"))}
                        for t, b in st.bs.items()):
                    continue  # it's the same area
                if not (now == want or isinstance(now, Lin) and isinstance(want, Lin) and E.entails_eq0(st, now - want)):
                    w = "the %s of the area isn't the one given" % f
        elif name == "apply_key_combination":
            w = combination(c, v, st, r)
        if w:
            v.fail(w)


def eqs(a, k):
    return [a - k, -a + k]


def combination(c, v, st, r):
    """a new line key inserts a line, another one goes through apply_keycode_event"""
    for f, s in focus(v, st):
        if not f:
            ignored(v, s, r, "not focused")
            continue
        new = [b for t, b in s.bs.items() if isinstance(t, tuple) and "contains" in str(t[0])]
        if True in new:
            w = ops_ok(v, s, r, [("insert_new_line",)], True)
            if w:
                return "a key for a new line " + w
            continue
        tr = v.trace(s)
        if not new and tr:
            return "a key is used without looking at the ones for new lines"
        KEY = "crokey::key_combination::KeyCombination"
        kt = next(i for i, t in enumerate(v.P.types) if t.get("path") == KEY)
        key = v.E.mk(("into", v.E.termof(v.args[1]), kt), kt)
        codes, m = (v.E.proj(s, key, place(v.P, KEY, f)[0]) for f in ("codes", "modifiers"))
        u8 = next(i for i, t in enumerate(v.P.types) if t["s"] == "u8")
        t = v.E.termof(m)
        m = v.E.atom(("f", ("f", t, None, 0, "0"), None, 0, "0"), u8)  # their bits
        for bits, conds in ((0, eqs(m, 0)), (1, eqs(m, 1)), (2, [m - 2])):
            z = s.copy()
            if not all(v.E.add_ge(z, l) for l in conds) or not v.E.feasible(z, []) or any(v.E.entails_eq0(z, n) for n in z.ne):
                continue
            one = v.P.types[place(v.P, KEY, "codes")[-1][3]]["path"]
            for z, n, k in variants(v, z, codes, one):
                c.count("combinations")
                if bits == 2 or n != "One":
                    ignored(v, z, r, "several keys or other modifiers than shift")
                    continue
                key_check(v, z, r, v.E.proj(z, codes, ("f", 0, k, None, "0")), bits == 1)
    return None


JOBS["method"] = lambda c, P, name: method_case(c, P, *name.split("/"))


def i06(c):
    c.rule = ("Every changing method of an input field is analysed on any valid content, for each state of the selection; on every path, "
              "for every kind of event, key, button, modifier and focus this path may be for, the sequence of changes made to the "
              "content (with their arguments), the focus, the area, the scroll and the result must be the expected ones.")
    spread(c, [("method", "%s/%s" % (m, s)) for m in SAME_NAME + OTHERS for s in SELS] +
           [("events", "%s/%s" % (m, s)) for m in ("apply_keycode_event", "apply_mouse_event", "apply_event", "apply_timed_event",
                                                  "apply_click_event") for s in SELS])
    c.floor("paths", 500)
    c.floor("keys", 500)
    c.floor("combinations", 100)
    c.floor("mouse cases", 300)
