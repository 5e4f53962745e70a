"""The columns of a list view: widths, titles, drawing (L04)."""
import absint, fw
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import NONE, some, norm, ok, UNIT
from render import Run1, rd, place
from views import method, get, AREA, panics
from lists import LV, ROW
from seqs import Seqs
from outmod import Out
from skin import SKIN
from render import style_term
from blocks import strip
from tables import vi

COL = "termimad::views::list_view::ListViewColumn"
TITLE = "termimad::views::list_view::Title"
SPA = "termimad::spacing::Spacing"
CELL = "termimad::views::list_view::ListViewCell"
ALIGN = "minimad::markdown::align::Alignment"
BIG = 1 << 20


def tyof(P, path):
    return next(i for i, t in enumerate(P.types) if t.get("path") == path)


def elem_ty(P, adt, f):
    t = next(x["ty"] for x in P.adts[adt]["variants"][0]["fields"] if x["name"] == f)
    return P.types[t]["args"][0]


class Cols:
    """a list view of k columns"""

    def __init__(self, c, P, E, st, me, k):
        self.c, self.P, self.E, self.k = c, P, E, k
        self.me = me
        self.cty = elem_ty(P, LV, "columns")
        self.v = VecV(("columns",), Lin(k), (), self.cty)
        E.write(st, me.root, me.path + tuple(place(P, LV, "columns")), self.v)
        for i in range(k):
            lo, hi, w = self.bounds(st, i) + (self.width(st, i),)
            for l in (hi - lo, lo, Lin(BIG) - hi, w, Lin(BIG) - w):
                E.add_ge(st, l)

    def col(self, st, i):
        p = place(self.P, LV, "columns")
        v = rd(self.E, st, self.me, p, p[-1][3])
        return self.E.elem(st, v, Lin(i), self.cty)

    def f(self, st, i, name):
        return self.E.proj(st, self.col(st, i), place(self.P, COL, name)[0])

    def bounds(self, st, i):
        return self.f(st, i, "min_width"), self.f(st, i, "max_width")

    def width(self, st, i):
        return self.E.proj(st, self.f(st, i, "spacing"), place(self.P, SPA, "width")[0])


def widths(c, P, ks):
    b = method(c, P, LV, "update_dimensions")
    for k in ks:
        r = Run1(P, b, c, adaptors=True, unroll=8, unroll_paths=64, max_states=2000)
        E = r.E
        st = r.init
        me = E.toref(r.args[0])
        E.root_val(st, me.root, P.types[b.locals[1]["t"]]["ty"])
        v = Cols(c, P, E, st, me, k)
        ap = place(P, LV, "area")
        W = get(P, E, st, Ref(me.root, me.path + tuple(ap), ap[-1][3]), AREA, "width")
        lo = [v.bounds(st, i)[0] for i in range(k)]
        hi = [v.bounds(st, i)[1] for i in range(k)]
        avail = W - k  # separators and scrollbar
        ends = [s for s, _ in E.call_body(st.copy(), b, list(r.args)) if E.feasible(s, [])]
        where = "%s:%d ListView::update_dimensions: " % (b.file, b.line)
        c.need(ends or None, "an end of update_dimensions")
        for s in ends:
            c.count("ends")
            w = [v.width(s, i) for i in range(k)]
            tot = lambda xs: sum(xs[1:], xs[0]) if xs else Lin(0)
            if any(x is None or not isinstance(x, Lin) for x in w):
                c.violate("columns:width", where + "the width of a column isn't known")
                continue
            for i in range(k):
                c.count("obligations", 2)
                if not E.entails(s, w[i] - lo[i]) or not E.entails(s, hi[i] - w[i]):
                    c.violate("columns:bounds", where + "the width of a column may not be between its minimum and its maximum")
                if v.bounds(s, i) != (lo[i], hi[i]):
                    c.violate("columns:keeps", where + "the bounds of a column are changed")
            # the minimal widths don't fit
            z = s.copy()
            if E.add_ge(z, tot(lo) - avail) and E.feasible(z, []):
                c.count("obligations")
                if not all(E.entails_eq0(z, w[i] - lo[i]) for i in range(k)):
                    c.violate("columns:min", where + "columns whose minimal widths don't fit may not have them")
            # they fit
            z = s.copy()
            if E.add_ge(z, avail - tot(lo)) and E.feasible(z, []):
                c.count("obligations", 2)
                if not E.entails(z, avail - tot(w)):
                    c.violate("columns:fit", where + "the columns may be wider than the list")
                t = z.copy()
                if E.add_ge(t, avail - tot(w) - 1) and E.feasible(t, []) and not all(E.entails_eq0(t, w[i] - hi[i]) for i in range(k)):
                    c.violate("columns:fill", where + "space may be left while a column isn't at its maximum")
        panics(c, E, "the widths of columns")


def groups(kinds):
    """the columns of each title: the runs of columns of same title"""
    out = []
    for i, k in enumerate(kinds):
        if out and kinds[out[-1][0]] == k:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def titled(c, P, kinds):
    """the title of a column is given by its kind"""
    b = method(c, P, LV, "new")
    k = len(kinds)
    box = {}

    def kind(E, st, x):
        for _ in range(5):
            r = E.toref(x) if isinstance(x, (Ref, Sym)) else None
            if r is None:
                break
            x = E.read(st, r.root, r.path, r.ty)
        t = E.content(st, x)
        return next((j for j in range(k) if t == box["titles"][j]), None)

    def calls(E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m in ("eq", "ne") and len(args) == 2:
            a, b2 = (kind(E, st, x) for x in args)
            if a is None or b2 is None:
                return None
            return [(st, BoolV(TRUE if (kinds[a] == kinds[b2]) == (m == "eq") else FALSE))]
        return None
    r = Run1(P, b, c, on_call=calls, adaptors=True, unroll=8, unroll_paths=64, max_states=2000)
    E = r.E
    st = r.init
    ci = next(i for i in range(b.argc) if P.types[b.locals[i + 1]["t"]].get("path") == "alloc::vec::Vec")
    cty = elem_ty(P, LV, "columns")
    args = list(r.args)
    args[ci] = v = VecV(("columns",), Lin(k), (), cty)
    box["titles"] = [E.content(st, E.proj(st, E.elem(st, v, Lin(i), cty), place(P, COL, "title")[0])) for i in range(k)]
    ends = [(s, x) for s, x in E.call_body(st.copy(), b, args) if E.feasible(s, [])]
    where = "%s:%d ListView::new: " % (b.file, b.line)
    c.need(ends or None, "an end of ListView::new")
    for s, x in ends:
        c.count("lists made")
        f = lambda n: E.proj(s, x, place(P, LV, n)[0])
        t = f("titles")
        want = groups(kinds)
        tty = elem_ty(P, LV, "titles")
        got = None
        if isinstance(t, VecV) and E.simp(s, t.len).is_const() if hasattr(E, "simp") else isinstance(t, VecV):
            if E.entails_eq0(s, t.len - len(want)):
                got = []
                for i in range(len(want)):
                    cs = E.proj(s, E.elem(s, t, Lin(i), tty), place(P, TITLE, "columns")[0])
                    if not isinstance(cs, VecV) or not E.entails_eq0(s, cs.len - len(want[i])):
                        got = None
                        break
                    got.append([E.elem(s, cs, Lin(j), cs.ety) for j in range(len(want[i]))])
        if got is None or not all(isinstance(y, Lin) and E.entails_eq0(s, y - j) for g, w in zip(got, want) for y, j in zip(g, w)):
            c.violate("columns:titles", where + "the titles aren't the ones of the columns, those of same title being merged when they follow each other (%s)" % kinds)
        if E.content(s, f("columns")) != E.content(s, v):
            c.violate("columns:new:columns", where + "the columns aren't those given")
        rows = f("rows")
        if not isinstance(rows, VecV) or not E.entails_eq0(s, rows.len):
            c.violate("columns:new:rows", where + "a new list has rows")
        for n in ("scroll", "displayed_rows_count"):
            if not isinstance(f(n), Lin) or not E.entails_eq0(s, f(n)):
                c.violate("columns:new:" + n, where + "a new list is scrolled or counts rows")
        for n in ("filter", "row_order", "selection"):
            if E.variant_of(s, f(n)) != 0:
                c.violate("columns:new:" + n, where + "a new list has a filter, an order or a selection")
        for i, y in enumerate(r.args):
            if i == ci:
                continue
            n = "area" if P.types[b.locals[i + 1]["t"]].get("path") == AREA else "skin"
            if E.content(s, f(n)) != E.content(s, y):
                c.violate("columns:new:" + n, where + "the %s isn't the one given" % n)
    panics(c, E, "a new list")


class Draw:
    """the drawing of a list of given columns and titles, of one row"""

    def __init__(self, c, P, kinds):
        self.c, self.P = c, P
        self.b = b = method(c, P, LV, "write_on")
        self.k = k = len(kinds)
        self.g = groups(kinds)
        self.o = o = Out(P, on_call=self.calls, unroll=8, unroll_paths=64, adaptors=True)
        self.E = E = o.E
        st = self.st = o.init()
        self.me_ = E.mk(("arg", 1), b.locals[1]["t"])
        me = self.me = E.toref(self.me_)
        E.root_val(st, me.root, P.types[b.locals[1]["t"]]["ty"])
        self.q = Seqs(E, P)
        self.v = Cols(c, P, E, st, me, k)
        # titles
        tp = place(P, LV, "titles")
        tty = elem_ty(P, LV, "titles")
        cp = place(P, TITLE, "columns")
        ts = []
        for g in self.g:
            ts.append(Agg(TITLE, None, (self.q.make([self.q.item(st, Lin(j)) for j in g], elem_ty(P, TITLE, "columns")),), tty))
        E.write(st, me.root, me.path + tuple(tp), self.q.make([self.q.item(st, t) for t in ts], tty))
        rp = place(P, LV, "rows")
        E.write(st, me.root, me.path + tuple(rp), VecV(("rows",), Lin(1), (), elem_ty(P, LV, "rows")))
        ap = place(P, LV, "area")
        self.ar = Ref(me.root, me.path + tuple(ap), ap[-1][3])
        E.write(st, self.ar.root, self.ar.path + tuple(place(P, AREA, "height")), Lin(3))
        self.L, self.T, self.W = (get(P, E, st, self.ar, AREA, f) for f in ("left", "top", "width"))
        for l in (Lin(65535) - self.L - self.W, Lin(65530) - self.T, self.W - 1):
            E.add_ge(st, l)

    def val(self, st, x):
        E = self.E
        for _ in range(5):
            r = x if isinstance(x, Ref) else E.toref(x) if isinstance(x, Sym) and x.ty is not None and E.tyk(x.ty) == "ref" else None
            if r is None:
                break
            x = E.read(st, r.root, r.path, r.ty)
        return x

    def K(self, st, x):
        x = self.val(st, x)
        return ("lin", x) if isinstance(x, Lin) else self.E.content(st, x)

    def calls(self, E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if path.endswith("::first_visible_row"):
            return [(st, Lin(0))]
        if path.endswith("ListView::<'t, T>::scrollbar") or path.endswith("ListView::scrollbar"):
            return [(st, NONE)]
        if m in ("call", "call_mut", "call_once") and "Fn" in path and len(args) == 2:
            x = E.proj(st, args[1], ("f", 0, None, None, "0"))
            t = fr.body.blocks[blk]["t"]
            return [(st, E.mk(("cell", self.K(st, args[0]), self.K(st, x)), t["dst"]["t"]))]
        if m in ("write_str", "write_counted_str") and "Spacing" in path:
            st = st.copy()
            sp = self.val(st, args[0])
            f = lambda n: E.proj(st, sp, place(self.P, SPA, n)[0])
            self.o.put(st, ("spaced", f("width"), self.K(st, f("align")), tuple(self.K(st, x) for x in args[2:])))
            return [(st, ok(UNIT))]
        return None


def drawing(c, P, kinds, selection):
    v = Draw(c, P, kinds)
    E, st, k = v.E, v.st, v.k
    sp = place(P, LV, "selection")
    E.write(st, v.me.root, v.me.path + tuple(sp), NONE if selection is None else some(Lin(selection)))
    rowv = E.elem(st, VecV(("rows",), Lin(1), (), elem_ty(P, LV, "rows")), Lin(0), elem_ty(P, LV, "rows"))
    shown = E.asf(E.proj(st, rowv, place(P, ROW, "displayed")[0]))
    skin = E.toref(get(P, E, st, v.me, LV, "skin"))
    bar = lambda ch: ("o", style_term(P, E, st, skin, "table.compound_style.object_style"), ("c", ord(ch)))
    hp = place(P, SKIN, "headers")
    heads = E.read(st, skin.root, skin.path + tuple(hp), hp[-1][3])
    hty = next(f["ty"] for f in P.adts[SKIN]["variants"][0]["fields"] if f["name"] == "headers")
    head = E.elem(st, heads, Lin(0), P.types[hty].get("ty") if P.types[hty]["k"] == "array" else None) if isinstance(heads, VecV) else \
        E.read(st, skin.root, skin.path + tuple(hp) + (("e", Lin(0)),), None)
    hstyle = E.content(st, E.proj(st, head, place(P, "termimad::line_style::LineStyle", "compound_style")[0]))
    bgsel = get(P, E, st, v.me, LV, "selection_background")
    cellty = tyof(P, "termimad::views::list_view::ListViewCell")
    ws = [v.v.width(st, i) for i in range(k)]
    one = Lin(1)
    want = [(("move", v.L, v.T), one)]
    for n, g in enumerate(v.g):
        if n:
            want.append((bar("│"), one))
        w = Lin(len(g) - 1)
        for j in g:
            w = w + ws[j]
        want.append((("title", w, E.content(st, v.v.f(st, g[0], "title")), hstyle), one))
    want.append((("move", v.L, v.T + 1), one))
    for n, g in enumerate(v.g):
        if n:
            want.append((bar("┼"), one))
        for m, j in enumerate(g):
            if m:
                want.append((bar("┬"), one))
            want.append((bar("─"), ws[j]))
    want.append((("move", v.L, v.T + 2), one))
    for j in range(k):
        if j:
            if selection == 0:
                want.append((("cmd", "SetBackgroundColor", (E.content(st, bgsel),)), one))
            want.append((bar("│"), one))
        cell = E.mk(("cell", v.K(st, v.v.f(st, j, "extract")), v.K(st, E.proj(st, rowv, place(P, ROW, "data")[0]))), cellty)
        f = lambda n: E.proj(st, cell, place(P, CELL, n)[0])
        sty = f("style")
        want.append((("cell", ws[j], v.v.f(st, j, "spacing"), v.K(st, f("con")), f("width"), sty), one))
    where = "%s:%d ListView::write_on: " % (v.b.file, v.b.line)
    ends = 0
    for s0 in E.assume(st.copy(), shown, True):
        for s, x in E.call_body(s0, v.b, [v.me_, v.o.dest()]):
            if E.variant_of(s, x) == 1 or not E.feasible(s, []):
                continue
            ends += 1
            c.count("drawings")
            d = differs(v, s, v.o.runs(s), want, bgsel if selection == 0 else None)
            if d:
                c.violate("columns:drawing:" + d, where + "%s (%d columns, %s)" % (d, k, "selected row" if selection == 0 else "row which isn't selected"))
    c.need(ends or None, "an end of ListView::write_on")


def differs(v, s, got, want, bg):
    E = v.E
    got = [(u, n) for u, n in got if not E.entails_eq0(s, n)]
    want = [(u, n) for u, n in want if not E.entails_eq0(s, n)]
    i = 0
    for u, n in want:
        if i >= len(got):
            return "something isn't drawn"
        g, m = got[i]
        i += 1
        if not E.entails_eq0(s, m - n):
            return "the separator isn't as wide as the columns" if u[0] == "o" else "something isn't drawn exactly once"
        if u[0] == "move":
            if g[:2] != ("cmd", "MoveTo"):
                return "something is drawn out of the columns"
            x, y = (t[1] if t[0] == "lin" else E.atom(t) for t in g[2])
            if not E.entails_eq0(s, x - u[1]) or not E.entails_eq0(s, y - u[2]):
                return "a line isn't drawn at its place"
        elif u[0] == "title":
            if g[0] != "spaced" or len(g[3]) < 2:
                return "a title isn't drawn over its columns"
            if not E.entails_eq0(s, g[1] - u[1]):
                return "a title isn't as wide as its columns and the bars between them"
            if not (isinstance(g[2], tuple) and g[2][:3] == ("agg", ALIGN, vi(v.P, ALIGN, "Center"))):
                return "a title isn't centered"
            if g[3][0] != u[2] or g[3][-1] != u[3]:
                return "a title isn't the one of its columns, in the style of the first level headers"
        elif u[0] == "cell":
            if g[0] != "spaced" or len(g[3]) < 2:
                return "a cell isn't drawn in its column"
            if not isinstance(g[1], Lin) or not E.entails_eq0(s, g[1] - u[1]):
                return "a cell isn't as wide as its column"
            if g[2] != E.content(s, E.proj(s, u[2], place(v.P, SPA, "align")[0])):
                return "a cell isn't aligned as its column"
            if g[3][0] != u[3]:
                return "a cell isn't the one of its column"
            w = g[3][1] if len(g[3]) == 3 else None
            if w is None or w[0] != "lin" or not E.entails_eq0(s, w[1] - u[4]):
                return "the width of a cell isn't the one it tells"
            if strip(g[3][-1]) != strip(style_of(v, s, u[5], bg)):
                return "a cell isn't in its style" + (" with the background of the selection" if bg is not None else "")
        elif g != u:
            return "the bars aren't those between the columns"
    return None if i == len(got) else "something else is drawn"


def style_of(v, st, sty, bg):
    """the style of a cell, with the background of the selection if it's selected"""
    E, P = v.E, v.P
    if bg is None:
        return v.K(st, sty)
    s = st.copy()
    root = ("GH", "style")
    s.mem[root] = v.val(s, sty)
    b = method(v.c, P, "termimad::compound_style::CompoundStyle", "set_bg")
    (s, _), = E.call_body(s, b, [Ref(root, (), None), bg])
    return E.content(s, s.mem[root])


def made(c, P):
    """columns and cells are made of what's given"""
    b = method(c, P, COL, "new")
    r = Run1(P, b, c)
    E = r.E
    n = 0
    for s, x in r.go():
        n += 1
        f = lambda k: E.proj(s, x, place(P, COL, k)[0])
        lins = [a for a in r.args if isinstance(a, Lin)]
        sp = lambda k: E.proj(s, f("spacing"), place(P, SPA, k)[0])
        al = sp("align")
        ok_ = f("min_width") == lins[0] and f("max_width") == lins[1] and sp("width") == lins[0] and E.variant_of(s, al) == vi(P, ALIGN, "Center")
        rest = [a for a in r.args if not isinstance(a, Lin)]
        ok_ = ok_ and strip(E.content(s, f("title"))) == strip(content_of(E, s, rest[0])) and E.content(s, f("extract")) == E.content(s, rest[1])
        if not ok_:
            c.violate("columns:column", "%s:%d ListViewColumn::new: a column isn't made of what's given, with its minimal width, centered" % (b.file, b.line))
    c.need(n or None, "an end of ListViewColumn::new")
    b = method(c, P, COL, "with_align")
    r = Run1(P, b, c)
    E = r.E
    for s, x in c.need(r.go() or None, "an end of with_align"):
        for fd in P.adts[COL]["variants"][0]["fields"]:
            e = place(P, COL, fd["name"])[0]
            if fd["name"] != "spacing":
                same = E.content(s, E.proj(s, x, e)) == E.content(s, E.proj(s, r.args[0], e))
            else:
                a, b2 = E.proj(s, x, e), E.proj(s, r.args[0], e)
                g = lambda v, k: E.content(s, E.proj(s, v, place(P, SPA, k)[0]))
                same = g(a, "width") == g(b2, "width") and g(a, "align") == E.content(s, r.args[1])
            if not same:
                c.violate("columns:align", "%s:%d ListViewColumn::with_align doesn't set the alignment, and nothing else" % (b.file, b.line))
    b = method(c, P, CELL, "new")
    r = Run1(P, b, c, adaptors=True)
    E = r.E
    for s, x in c.need(r.go() or None, "an end of ListViewCell::new"):
        f = lambda k: E.proj(s, x, place(P, CELL, k)[0])
        v = r.args[0]
        if E.content(s, f("con")) != E.content(s, v) or E.content(s, f("style")) != E.content(s, r.args[1]):
            c.violate("columns:cell", "%s:%d ListViewCell::new: a cell isn't made of what's given" % (b.file, b.line))
    c.count("constructors", 3)


def content_of(E, st, x):
    r = E.toref(x) if isinstance(x, (Ref, Sym)) else None
    return E.content(st, E.read(st, r.root, r.path, r.ty)) if r is not None else E.content(st, x)


def l04(c):
    c.rule = ("For lists of 1 to 3 columns of any widths, titles equal or not: ListView::update_dimensions is interpreted on symbolic bounds and area, each column's "
              "width being compared with its bounds and their sum with what's available; ListView::new must give the titles of the runs of columns of same title and an empty "
              "list; ListView::write_on must write exactly the titles over their columns, the separator, and the cells of a row, selected or not, in their columns.")
    P = c.prog()
    made(c, P)
    widths(c, P, (1, 2, 3) if c.tier == "quick" else (1, 2, 3, 4))
    three = ("A", "AA", "AB", "ABA", "AAB", "ABB", "AAA", "ABC")
    for kinds in three + (() if c.tier == "quick" else ("AABB", "ABBA", "AAAB", "ABCC")):
        titled(c, P, kinds)
        for selection in (None, 0, 1):
            drawing(c, P, kinds, selection)
    c.floor("lists made", 8)
    c.floor("drawings", 24)
    c.floor("obligations", 60)
