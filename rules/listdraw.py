"""Drawing of a list view: the rows, in order, and the scrollbar (L03)."""
import absint
from absint import Agg, Ref, Lin, TRUE
from models import OPT, NONE, some, ok, UNIT
from render import rd, place, style_term
from outmod import Out
from views import method, get, AREA, bar_terms, thumb_or_track
from lists import LV, ROW, inner_slice, shift
from skin import SKIN

PEN = ("GH", "rowpen")          # (line being drawn, number of rows after the first visible one which are accounted for)


class RowPen(Out):
    """the line y is given a row: the next displayed one, or cleared when there's none"""

    def __init__(self, P, c, b, **opts):
        self.c, self.b = c, b
        self.bad = {}
        self.counts = {}
        super().__init__(P, on_call=self.calls, loop_facts=self.facts, at_head=self.advance, unroll=0, adaptors=True, **opts)

    def problem(self, st, what):
        if self.E.recording is True:
            self.bad.setdefault(what, "")

    def seen(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def facts(self, E, st):
        g = st.mem.get(PEN)
        if g is None:
            return {}
        y, p = g.fields
        out = {"y-": ("ge", y - self.T - 1), "y+": ("ge", self.T + self.H - 1 - y), "p": ("ge", p), "p+": ("ge", self.n - self.start - p)}
        if st.g("drawn") is True:
            # the row has been taken, the next one follows
            p = p + 1
        for r, v in st.mem.items():
            if r[0] != "L":
                continue
            if isinstance(v, Lin):
                out[r, "p"] = v - self.start - p
                out[r, "y"] = v - (y + 1 - self.T)
                out[r, "Y"] = v - (y + 1)
            elif isinstance(v, Agg) and v.path == "core::ops::range::Range" and all(isinstance(x, Lin) for x in v.fields[:2]):
                out[r, "y"] = v.fields[0] - (y + 1 - self.T)
                out[r, "Y"] = v.fields[0] - (y + 1)
            else:
                w = inner_slice(v)
                if w is not None:
                    out[r, "p"] = w.fields[1] - self.start - p
                    out[r, "n"] = w.fields[2] - self.n
                n = 0
                while isinstance(v, Agg) and v.path.startswith("m:") and v.fields and n < 6:
                    if v.path == "m:enum" and isinstance(v.fields[1], Lin):
                        out[r, "idx", n] = v.fields[1] - self.start - p
                    v = v.fields[0]
                    n += 1
        return out

    def known(self, st, i):
        """is the row i displayed?"""
        for term, t in st.bs.items():
            k = term[1][2] if term[0] == "f" and term[-1] == "displayed" and isinstance(term[1], tuple) and \
                term[1][:2] == ("e", self.rows.term) else None
            if isinstance(k, Lin) and self.E.entails_eq0(st, k - i):
                return t
        return None

    def advance(self, E, fr, head, st):
        g = st.mem.get(PEN)
        if g is None or st.g("drawn"):
            return None
        y, p = g.fields
        for _ in range(2):
            if not isinstance(p, Lin) or self.known(st, self.start + p) is not False:
                break
            p = p + 1
        st.mem[PEN] = Agg("pen", None, (y, p))
        return None

    def calls(self, E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if path.endswith("::first_visible_row"):
            return [(st, self.start)]
        if m == "skip" and "Iterator" in path and len(args) == 2 and isinstance(args[1], Lin) and E.entails_eq0(st, args[1] - self.scroll):
            # the displayed rows, less as many as the scroll: what's left begins at the first visible one
            it = self.from_start(E, fr, blk, st, args[0])
            return it and [(st, it)]
        if path.endswith("ListView::<'t, T>::scrollbar") or path.endswith("ListView::scrollbar"):
            s1, s2 = st.copy(), st.copy()
            rows = tuple(E.atom(("thumb", i), None, 0, 65535) for i in (0, 1))
            E.add_ge(s2, rows[1] - rows[0])
            s1.setg("bar", False)
            s2.setg("bar", True)
            return [(s1, NONE), (s2, some(Agg("tuple", None, rows)))]
        if m in ("call", "call_mut", "call_once") and "Fn" in path and len(args) == 2:
            x = E.proj(st, args[1], ("f", 0, None, None, "0"))
            r = E.toref(x)
            self.row(st, r)
            return None
        if ("Spacing::" in path or m in ("write_str", "write_counted_str")) and len(args) > 2 and any(self.is_dest(st, a) for a in args):
            return [(st, ok(UNIT))]
        return None

    def from_start(self, E, fr, blk, st, it):
        from models import nxt
        if not (isinstance(it, Agg) and it.path == "m:filter"):
            return None
        w = inner_slice(it)
        if w is None or not E.entails_eq0(st, w.fields[1]) or not E.entails_eq0(st, w.fields[2] - self.n):
            return None
        i = E.nat(E.fresh("any"))
        at, there = shift(E, it.fields[0], i), shift(E, it.fields[0], self.start)
        s = st.copy()
        if at is None or not E.add_ge(s, self.n - i - 1):
            return None
        for s1, _, x in nxt(E, fr, blk, s, at, None):
            if x is None:
                continue
            s1.mem[("GH", "item")] = x
            for s2, y in E.call_closure(fr, blk, s1, it.fields[1], [Ref(("GH", "item"), (), None)]):
                e = E.elem(s2, self.rows, i, self.rty)
                if E.asf(y) != E.asf(E.proj(s2, e, place(self.P, ROW, "displayed")[0])):
                    return None
        return Agg(it.path, None, (there,) + tuple(it.fields[1:]))

    def row(self, st, r):
        E = self.E
        self.seen("rows")
        i = [e[1] for e in r.path if e[0] == "e"] if r is not None else []
        if len(i) != 1 or i[0] is None:
            self.problem(st, "the row which is drawn isn't known")
            return
        self.advance(E, None, None, st)
        y, p = st.mem[PEN].fields
        if not E.entails_eq0(st, i[0] - self.start - p):
            self.problem(st, "a line may not show the row after the one of the line above")
        elif self.known(st, i[0]) is not True:
            self.problem(st, "a line may show a row which isn't displayed")
        st.setg("drawn", True)

    def put(self, st, unit, n=Lin(1)):
        E = self.E
        y, p = st.mem[PEN].fields
        if unit[0] == "cmd":
            if unit[1] == "MoveTo":
                nx, ny = (t[1] if t[0] == "lin" else E.atom(t) for t in unit[2])
                self.move(st, y, p, nx, ny)
            elif unit[1] == "Clear":
                self.seen("blank")
                self.advance(E, None, None, st)
                y, p = st.mem[PEN].fields
                if st.g("phase") and not E.entails_eq0(st, self.start + p - self.n):
                    self.problem(st, "a line may be blank while there's a row to display")
                st.setg("drawn", "blank")
            return
        if st.g("at") == "bar":
            self.seen("bar")
            d = thumb_or_track(self.P, self, st, y - 2, unit, n, self.bars)
            if d:
                self.problem(st, d)
            st.setg("at", None)
            st.setg("barred", True)

    def move(self, st, y, p, nx, ny):
        E = self.E
        if not st.g("phase"):
            # titles and separator
            if E.entails(st, self.T + 1 - ny):
                return
            st.setg("phase", True)
            y = self.T + 1
        if E.entails_eq0(st, ny - y) and E.entails_eq0(st, nx - self.L - self.W + 1) and not E.entails_eq0(st, ny - self.T - 1):
            if not st.g("bar"):
                self.problem(st, "there may be a scrollbar's cell without scrollbar")
            st.setg("at", "bar")
        elif E.entails_eq0(st, ny - y - 1) and E.entails_eq0(st, nx - self.L):
            p = self.line_done(st, y, p)
            y = y + 1
        else:
            self.problem(st, "the lines aren't drawn one after the other from the left of the area, with the scrollbar in the last column")
        st.mem[PEN] = Agg("pen", None, (y, p))

    def line_done(self, st, y, p):
        E = self.E
        d = st.g("drawn")
        if not E.entails_eq0(st, y - self.T - 1):
            if d is None:
                self.problem(st, "a line may be left as it was")
            if st.g("bar") and not st.g("barred"):
                self.problem(st, "a line may have no scrollbar")
        st.setg("drawn", None)
        st.setg("barred", None)
        return p + 1 if d is True else p


def l03(c):
    c.rule = ("ListView::write_on is analysed on a writer which only knows the line being drawn: two specification variables, the "
              "line and the number of rows accounted for since the first visible one, are followed through the loops (inferred "
              "invariants). Each row drawn (argument of a column's function) must be displayed and be the next such one; a "
              "line is blank only when there's none; the lines follow each other down to the last one of the area; on each, when "
              "there's a scrollbar, the cell of the last column is the thumb exactly on the thumb's rows. ListView::scrollbar is "
              "the one (V02) of the displayed rows, the scroll, and the height and top of the list.")
    P = c.prog()
    b = method(c, P, LV, "write_on")
    o = RowPen(P, c, b)
    E = o.E
    st = o.init()
    me_ = E.mk(("arg", 1), b.locals[1]["t"])
    me = E.toref(me_)
    E.root_val(st, me.root, P.types[b.locals[1]["t"]]["ty"])
    ap = place(P, LV, "area")
    ar = Ref(me.root, me.path + tuple(ap), ap[-1][3])
    o.L, o.T, o.W, o.H = (get(P, E, st, ar, AREA, f) for f in ("left", "top", "width", "height"))
    rp = place(P, LV, "rows")
    o.rows = rd(E, st, me, rp, rp[-1][3])
    o.n = o.rows.len
    cp = place(P, LV, "columns")
    cols = rd(E, st, me, cp, cp[-1][3])
    o.rty = next(i for i, t in enumerate(P.types) if t.get("path") == ROW)
    o.scroll = get(P, E, st, me, LV, "scroll")
    o.start = E.nat(("first visible row",))
    for l in (Lin(65535) - o.L - o.W, Lin(65535) - o.T - o.H, o.W - 1, o.H - 3, o.n - o.start, cols.len - 1):
        E.add_ge(st, l)
    kp = place(P, LV, "skin")
    skin = E.toref(rd(E, st, me, kp, kp[-1][3]))
    o.bars = bar_terms(P, E, st, Ref(skin.root, skin.path + tuple(place(P, SKIN, "scrollbar")), None))
    st.mem[PEN] = Agg("pen", None, (o.T + 1, Lin(0)))
    outs = [(s, v) for s, v in E.call_body(st, b, [me_, o.dest()]) if E.variant_of(s, v) != 1]
    c.need(outs or None, "a success path of " + b.path)
    for s, v in outs:
        c.count("paths")
        y, p = s.mem[PEN].fields
        o.line_done(s, y, p)
        if not E.entails_eq0(s, y - o.T - o.H + 1):
            o.problem(s, "the last lines of the area may not be drawn")
    for k, n in o.counts.items():
        c.count(k, n)
    for k in o.bad:
        c.violate("list:draw:" + k, "%s:%d %s: %s" % (b.file, b.line, b.path, k))
    for k in ("rows", "blank", "bar"):
        c.need(o.counts.get(k) or None, "%s drawn in write_on" % k)
    bar_args(c, P)
    c.floor("rows", 10)


def bar_args(c, P):
    from lists import LView
    v = LView(c, P, "scrollbar")
    E = v.E
    got = []
    top = get(P, E, v.st, Ref(v.me.root, v.me.path + tuple(place(P, LV, "area")), None), AREA, "top")

    def calls(E_, fr, blk, st, path, fn, args):
        if path.endswith("compute_scrollbar"):
            for hc, tb in v.tbody():
                s = st.copy()
                if all(E.add_ge(s, l) for l in hc) and E.feasible(s, []):
                    got.append(1)
                    c.count("obligations")
                    for x, want, what in zip(args, (v.scroll0, v.count0, tb, top),
                                             ("scroll of the list", "number of displayed rows", "height for the rows", "top of the list")):
                        if not isinstance(x, Lin) or not E.entails_eq0(s, x - want):
                            v.fail("bar:" + what, "the scrollbar isn't computed from the " + what)
            return [(st, E.fresh_val(None, "bar"))]
        return None
    v.mine = calls
    for l in (v.scroll0, v.count0):
        E.add_ge(v.st, l)
    for st, r in v.go():
        if str(E.content(st, r)).find("bar") < 0:
            v.fail("bar", "the scrollbar isn't the one computed")
    c.need(got or None, "the computation of the scrollbar")
