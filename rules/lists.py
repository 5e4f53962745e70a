"""List views: count of the displayed rows, selection, scroll (L..)."""
import absint
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import OPT, NONE, some, norm
from render import Run1, rd, place
from views import method, get, cases, check_value, panics, clamp, truthful, AREA
from crop import fn_named

LV = "termimad::views::list_view::ListView"
ROW = "termimad::views::list_view::Row"
GROWS = ("GH", "rows")
GCNT = ("GH", "counted")     # rows counted once all are accounted for, displayed ones among them


def inner_slice(v):
    """the iterator on a slice which is adapted"""
    while isinstance(v, Agg) and v.path.startswith("m:") and v.path not in ("m:own", "m:slice") and v.fields:
        v = v.fields[0]
    return v if isinstance(v, Agg) and v.path in ("m:own", "m:slice") and isinstance(v.fields[1], Lin) else None


class LView:
    """a list view in any state; specification variables: p, a number of rows accounted for, and g, how many of them are
    displayed"""

    def __init__(self, c, P, name, mode=None, **opts):
        self.c, self.P, self.name = c, P, name
        self.b = method(c, P, LV, name)
        self.mode = mode
        self.bad = {}
        self.filters = {}
        self.label = "ListView::" + name
        self.mine = None

        def oc(E, fr, blk, st, path, fn, args):
            r = self.mine(E, fr, blk, st, path, fn, args) if self.mine else None
            return self.calls(E, fr, blk, st, path, fn, args) if r is None else r
        self.r = Run1(P, self.b, c, on_call=oc, at_head=self.advance, unroll=0, loop_facts=self.facts, adaptors=True, **opts)
        self.E = E = self.r.E
        self.me = E.toref(self.r.args[0])
        st = self.st = self.r.init
        E.root_val(st, self.me.root, P.types[self.b.locals[1]["t"]]["ty"])
        self.rty = next(i for i, t in enumerate(P.types) if t.get("path") == ROW)
        self.rows0 = self.rows(st)
        # the view as a structure whose fields are kept apart
        E.write(st, self.me.root, self.me.path + tuple(place(P, LV, "rows")), self.rows0)
        self.n0 = self.rows0.len
        self.count0 = self.get(st, "displayed_rows_count")
        self.sel0 = self.get(st, "selection")
        self.scroll0 = self.get(st, "scroll")
        ap = place(P, LV, "area")
        self.U = next(i for i, t in enumerate(P.types) if t["s"] == "usize")
        self.h = get(P, E, st, Ref(self.me.root, self.me.path + tuple(ap), ap[-1][3]), AREA, "height")
        E.add_ge(st, self.n0 - self.count0)
        if mode == "back":
            st.mem[GROWS] = Agg("ghost", None, (self.n0, Lin(0)))
        elif mode:
            st.mem[GROWS] = Agg("ghost", None, (Lin(0), Lin(0)))
        if mode == "set":
            st.mem[GCNT] = Agg("ghost", None, (Lin(0), Lin(0), ()))

    def fail(self, key, what):
        self.c.violate("list:%s:%s" % (self.name, key), "%s:%d %s: %s" % (self.b.file, self.b.line, self.label, what))

    def get(self, st, f):
        return get(self.P, self.E, st, self.me, LV, f)

    def payload(self, st, o):
        """the number in an option"""
        return self.E.proj(st, o, ("f", 0, 1, self.U, "0"))

    def rows(self, st):
        p = place(self.P, LV, "rows")
        return rd(self.E, st, self.me, p, p[-1][3])

    def tbody(self):
        """cases of the height available for rows"""
        return [([self.h - 3], self.h - 2), ([Lin(2) - self.h], self.h)]

    def row(self, st, v, i, f):
        """a field of the row i"""
        E = self.E
        x = E.elem(st, v, i, self.rty)
        return E.proj(st, x, place(self.P, ROW, f)[0])

    def shown(self, st, v, i):
        """True, False or None when not known"""
        E = self.E
        t = E.truth(st, E.asf(self.row(st, v, i, "displayed")))
        if t is None and isinstance(v, VecV):
            # the same row, given otherwise
            for term, b in st.bs.items():
                j = term[1][2] if term[0] == "f" and term[-1] == "displayed" and isinstance(term[1], tuple) and \
                    term[1][:2] == ("e", v.term) else None
                if isinstance(j, Lin) and E.entails_eq0(st, j - i):
                    return b
        return t

    def calls(self, E, fr, blk, st, path, fn, args):
        if path.split("::")[-1] in ("call", "call_mut", "call_once") and ("Fn" in path) and len(args) >= 2:
            # the filter
            a = args[1]
            x = E.proj(st, a, ("f", 0, None, None, "0")) if isinstance(a, Agg) else a
            return [(st, BoolV(("s", ("kept", E.content(st, args[0]), E.content(st, x)))))]
        return None

    def facts(self, E, st):
        g = st.mem.get(GROWS)
        out = {}
        if g is not None:
            k = st.mem.get(GCNT)
            if k is not None and all(isinstance(x, Lin) for x in k.fields[:2]):
                for root, v in list(st.mem.items()):
                    w = inner_slice(v)
                    if w is not None:
                        out[root, "cnt"] = w.fields[1] - k.fields[0]
                    if root[0] == "L" and isinstance(v, Lin):
                        out[root, "cnt"] = v - k.fields[1]
                        out[root, "cnp"] = v - k.fields[0]
                x = self.get(st, "displayed_rows_count")
                if isinstance(x, Lin):
                    out["cntd"] = x - k.fields[1]
                out["all"] = g.fields[0] - self.n0
                out["c"] = ("ge", self.n0 - k.fields[0])
            out["p"] = ("ge", g.fields[0])
            out["P"] = ("ge", self.n0 - g.fields[0])
            for root, v in st.mem.items():
                if root[0] == "L" and isinstance(v, Agg) and v.path.startswith("m:"):
                    n, w = 0, v
                    while isinstance(w, Agg) and w.path.startswith("m:") and w.fields and n < 6:
                        if w.path == "m:enum" and isinstance(w.fields[1], Lin):
                            out[root, "idx", n] = w.fields[1] - g.fields[0]
                        n += 1
                        w = w.fields[0]
                    v = inner_slice(v)
                    if v is not None:
                        out[root, "it"] = v.fields[1] - g.fields[0]
                        out[root, "end"] = v.fields[2] - (self.n0 - g.fields[0])
                if root[0] == "L" and isinstance(v, Agg) and v.path == "core::ops::range::Range" and \
                        all(isinstance(x, Lin) for x in v.fields[:2]):
                    out[root, "r"] = v.fields[0] - g.fields[0]
                    out[root, "R"] = v.fields[1] - (self.n0 - g.fields[0])
        return out

    def advance(self, E, fr, head, st):
        g = st.mem.get(GROWS)
        if g is None or not isinstance(g.fields[0], Lin):
            return None
        p, n = g.fields
        v = self.rows(st)
        k = st.mem.get(GCNT)
        if k is not None and E.entails_eq0(st, p - self.n0) and not v.writes:
            q, m, same = k.fields
            if same != v.term:
                # the rows aren't those which were counted
                q, m = Lin(0), Lin(0)
            for _ in range(3):
                t = self.shown(st, v, q) if E.entails(st, v.len - q - 1) else None
                if t is None:
                    break
                q, m = q + 1, (m + 1 if t else m)
            st.mem[GCNT] = Agg("ghost", None, (q, m, v.term))
        for _ in range(3):
            if self.mode == "back":
                if not E.entails(st, p - 1) or self.shown(st, v, p - 1) is not False:
                    break
                p = p - 1
                continue
            if self.mode == "first":
                if not E.entails(st, v.len - p - 1) or self.shown(st, v, p) is not False:
                    break
                p = p + 1
                continue
            if not E.entails(st, v.len - p - 1):
                break
            t = self.shown(st, v, p)
            if self.mode == "set":
                # accounted for when it's written
                if not any(i is not None and E.entails_eq0(st, i - p) for i, _ in v.writes):
                    break
                self.written(st, v, p)
                if t is None:
                    r = []
                    f = E.asf(self.row(st, v, p, "displayed"))
                    for b in (True, False):
                        for s in E.assume(st.copy(), f, b):
                            s.mem[GROWS] = Agg("ghost", None, (p + 1, n + 1 if b else n))
                            r.append(s)
                    return r
            elif t is None:
                break
            p, n = p + 1, (n + 1 if t else n)
        st.mem[GROWS] = Agg("ghost", None, (p, n))
        return None

    def written(self, st, v, p):
        """what's decided of the row p"""
        if self.E.recording is False:
            return
        f = self.E.asf(self.row(st, v, p, "displayed"))
        want = self.kept(st, v, p)
        if want is not None and f != want and not (self.E.truth(st, f) is not None and self.E.truth(st, f) == self.E.truth(st, want)):
            self.fail("filter", "a row may be displayed which isn't kept by the filter, or the reverse")

    def kept(self, st, v, p):
        return None

    def go(self, states=None):
        out = []
        for st in states or [self.st]:
            for s, v in self.E.call_body(st.copy(), self.b, list(self.r.args)):
                a = self.advance(self.E, None, None, s)
                for s2 in [s] if a is None else a:
                    out.append((s2, v))
        for s, _ in self.c.need(out or None, "a path of " + self.b.path):
            self.c.count("paths")
        return out

    def same(self, st, f):
        return self.E.content(st, self.get(st, f)) == self.E.content(self.st, self.get(self.st, f))


NEW = "termimad::views::list_view::ListView"
MUTATORS = ("set_filter", "remove_filter", "add_row", "clear_rows")


def count_check(c, v, st, g):
    """all the rows are accounted for, and the count is the number of displayed ones"""
    E = v.E
    if not E.entails_eq0(st, g[0] - v.n0):
        v.fail("all", "some rows may be left as they were")
    k = st.mem.get(GCNT)
    counted = k is not None and all(isinstance(x, Lin) for x in k.fields[:2]) and k.fields[2] == v.rows(st).term and \
        not v.rows(st).writes and E.entails_eq0(st, k.fields[0] - v.n0)
    if not E.entails_eq0(st, v.get(st, "displayed_rows_count") - g[1]) and \
            not (counted and E.entails_eq0(st, v.get(st, "displayed_rows_count") - k.fields[1])):
        v.fail("count", "the count of displayed rows may differ from the number of displayed rows")
    if not E.entails_eq0(st, v.rows(st).len - v.n0):
        v.fail("rows", "the number of rows changes")


def filter_of(v, st, f):
    """the filter in a state: None, or its content"""
    E = v.E
    o = v.get(st, "filter")
    t = E.variant_of(st, o)
    return E.content(st, E.proj(st, o, ("f", 0, 1, None, "0"))) if t == 1 else t


def l01(c):
    c.rule = ("Each method of ListView is analysed on a symbolic view. set_filter, remove_filter: a specification variable counts "
              "the rows accounted for (in order, when their flag is written) and another one those displayed; the flag written "
              "must be the answer of the filter for the row's data; at the end all rows are accounted for and the count is "
              "the number of displayed ones (inductive invariants of the loops). add_row pushes the row, with the flag and count "
              "given by the filter, sorted with the comparator, if any. clear_rows and new empty everything. All "
              "the other methods leave the rows, the count, the filter and the sort untouched.")
    P = c.prog()
    v = LView(c, P, "set_filter", "set")
    fa = v.E.content(v.st, v.r.args[1])
    v.kept = lambda st, rows, p: ("s", ("kept", fa, v.E.content(st, v.row(st, rows, p, "data"))))
    for st, _ in v.go():
        count_check(c, v, st, st.mem[GROWS].fields)
        if filter_of(v, st, None) != fa:
            v.fail("keep", "the filter isn't kept")
    v = LView(c, P, "remove_filter", "set")
    v.kept = lambda st, rows, p: TRUE
    for st, _ in v.go():
        count_check(c, v, st, st.mem[GROWS].fields)
        if filter_of(v, st, None) != 0:
            v.fail("keep", "there may still be a filter")
    add_row(c, P)
    v = LView(c, P, "clear_rows")
    for st, _ in v.go():
        if not v.E.entails_eq0(st, v.rows(st).len) or not v.E.entails_eq0(st, v.get(st, "displayed_rows_count")) or \
                v.E.variant_of(st, v.get(st, "selection")) != 0 or not v.E.entails_eq0(st, v.get(st, "scroll")):
            v.fail("clear", "the rows, the count, the scroll or the selection may be left")
        for f in ("filter", "row_order"):
            if not v.same(st, f):
                v.fail("clear:" + f, "the %s changes" % f)
    # the others
    for name in ("sort", "update_dimensions", "scroll_to_bottom", "try_scroll_lines", "try_scroll_pages", "try_select_next",
                 "select_first_line", "select_last_line", "make_selection_visible", "unselect"):
        v = LView(c, P, name)
        for st, _ in v.go():
            for f in ("rows", "displayed_rows_count", "filter") + (() if name == "sort" else ("row_order",)):
                if not v.same(st, f):
                    v.fail("frame:" + f, "the %s of the list may change" % f)
        c.count("other methods")
    v = LView(c, P, "row_counts")
    for st, r in v.go():
        a, b = (v.E.proj(st, r, ("f", i, None, None, str(i))) for i in (0, 1))
        if not v.E.entails_eq0(st, a - v.count0) or not v.E.entails_eq0(st, b - v.n0):
            v.fail("counts", "the counts aren't those of the displayed rows and of the rows")
    c.floor("paths", 30)


def add_row(c, P):
    v = LView(c, P, "add_row")
    E = v.E
    data = E.content(v.st, v.r.args[1])

    def pushed(st):
        rows = v.rows(st)
        if not E.entails_eq0(st, rows.len - v.n0 - 1) or len(rows.writes) != 1 or not E.entails_eq0(st, rows.writes[0][0] - v.n0) or \
                rows.term != v.rows0.term:
            v.fail("push", "the row isn't added after the others")
            return
        if E.content(st, v.row(st, rows, v.n0, "data")) != data:
            v.fail("data", "the data of the row aren't the ones given")
        f = E.asf(v.row(st, rows, v.n0, "displayed"))
        o = filter_of(v, st, None)
        want = TRUE if o == 0 else ("s", ("kept", o, data)) if isinstance(o, tuple) else None
        t = E.truth(st, f)
        if want is None or f != want and not (t is not None and t == E.truth(st, want)):
            v.fail("filter", "the row may be displayed though the filter rejects it, or the reverse")
        d = v.get(st, "displayed_rows_count") - v.count0
        if t is None or not E.entails_eq0(st, d - (1 if t else 0)):
            v.fail("count", "the count of displayed rows isn't the number of displayed rows")

    def on_call(E_, fr, blk, st, path, fn, args):
        if path.split("::")[-1] in ("sort_by", "sort_unstable_by"):
            r = E.toref(args[0])
            pushed(st)
            s = st.copy()
            s.setg("sorted", True)
            # the comparator: on any two rows
            k = "wrong"
            x, y = (Ref(("d", ("a row", i)), (), v.rty) for i in (0, 1))
            res = E.call_closure(fr, blk, st.copy(), args[1], [x, y])
            o = v.get(st, "row_order")
            if E.variant_of(st, o) == 1:
                cmp = E.content(st, E.proj(st, o, ("f", 0, 1, None, "0")))
                dp = tuple(place(P, ROW, "data"))
                want = tuple(E.content(st, E.read(st, z.root, dp)) for z in (x, y))
                if all(isinstance(q, Sym) and q.term == ("cmp", cmp) + want for _, q in res):
                    k = "right"
            s.setg("cmp", k)
            rows = v.rows(s)
            E.write(s, v.me.root, v.me.path + tuple(place(P, LV, "rows")), VecV(E.fresh("sorted"), rows.len, (), rows.ety))
            return [(s, Agg("()", None, ()))]
        if path.split("::")[-1] in ("call", "call_mut", "call_once") and "Fn" in path and len(args) >= 2 and \
                isinstance(args[1], Agg) and len(args[1].fields) == 2:
            xs = [E.content(st, E.proj(st, args[1], ("f", i, None, None, str(i)))) for i in (0, 1)]
            return [(st, Sym(("cmp", E.content(st, args[0])) + tuple(xs), None))]
        return None
    v.mine = on_call
    for st, _ in v.go():
        o = E.variant_of(st, v.get(st, "row_order"))
        if st.g("sorted"):
            if o != 1 or st.g("cmp") != "right":
                v.fail("order", "the rows aren't sorted with the comparator of the list")
            if not E.entails_eq0(st, v.rows(st).len - v.n0 - 1):
                v.fail("push", "the number of rows is wrong")
        else:
            if o != 0 and (o == 1 or E.add_eq(st.copy(), E.discr(st, v.get(st, "row_order")) - 1)):
                v.fail("sort", "the rows may be left unsorted")
            pushed(st)
        for f in ("filter", "row_order"):
            if not v.same(st, f):
                v.fail("frame:" + f, "the %s changes" % f)


def shift(E, it, k):
    """an iterator, k items later; None when not known"""
    if not isinstance(it, Agg):
        return None
    f = it.fields
    if it.path == "core::ops::range::Range":
        return Agg(it.path, None, (f[0] + k, f[1]), it.base, it.ty)
    if it.path in ("m:slice", "m:own"):
        return Agg(it.path, None, (f[0], f[1] + k, f[2]))
    if it.path == "m:enum":
        g = shift(E, f[0], k)
        return g and Agg(it.path, None, (g, f[1] + k))
    if it.path in ("m:map", "m:copied", "m:cloned"):
        g = shift(E, f[0], k)
        return g and Agg(it.path, None, (g,) + tuple(f[1:]))
    if it.path == "m:rev" and isinstance(f[0], Agg):
        g = f[0].fields
        if f[0].path == "core::ops::range::Range":
            return Agg("m:rev", None, (Agg(f[0].path, None, (g[0], g[1] - k), f[0].base, f[0].ty),))
        if f[0].path in ("m:slice", "m:own"):
            return Agg("m:rev", None, (Agg(f[0].path, None, (g[0], g[1], g[2] - k)),))
        if f[0].path == "m:enum" and isinstance(g[0], Agg) and g[0].path in ("m:slice", "m:own"):
            h = g[0].fields
            # the index given by a reversed enumeration is computed from what remains
            return Agg("m:rev", None, (Agg("m:enum", None, (Agg(g[0].path, None, (h[0], h[1], h[2] - k)), g[1])),))
    return None


class Search(LView):
    """searches of displayed rows: p rows are known not to be displayed, in the order of the search: idx(p) is the index
    of the next one, which may be given in several ways"""
    counted = False

    def __init__(self, *a, **o):
        super().__init__(*a, **o)
        self.st.mem[GROWS] = Agg("ghost", None, (Lin(0), Lin(0)))
        self.mine = self.search

    def at(self, st, k):
        """the possible terms for the index of the k-th row of the search"""
        return [k]

    def shown_at(self, st, k):
        E, v = self.E, self.rows(st)
        at = self.at(st, k)
        for i in at:
            t = self.shown(st, v, i)
            if t is not None:
                return t
        # the same row, given otherwise
        for (term, t) in list(st.bs.items()):
            i = term[1][2] if term[0] == "f" and term[-1] == "displayed" and isinstance(term[1], tuple) and \
                term[1][:2] == ("e", v.term) else None
            if isinstance(i, Lin) and any(E.entails_eq0(st, i - j) for j in at):
                return t
        return None

    def advance(self, E, fr, head, st):
        g = st.mem.get(GROWS)
        if g is None or not isinstance(g.fields[0], Lin):
            return None
        p = g.fields[0]
        for _ in range(3):
            if self.shown_at(st, p) is not False:
                break
            p = p + 1
        st.mem[GROWS] = Agg("ghost", None, (p, Lin(0)))
        if self.counted:
            # the rows which aren't displayed aren't counted
            E.add_ge(st, self.n0 - p - self.count0)
        return None

    def search(self, E, fr, blk, st, path, fn, args):
        from models import nxt, remaining
        op = path.split("::")[-1]
        if op not in ("find", "position", "rposition") or "Iterator" not in path or len(args) != 2:
            return None
        it = args[0]
        if isinstance(it, Ref):
            it = E.read(st, it.root, it.path)
        n = remaining(E, st, it)
        if n is None:
            return None
        if op == "rposition":
            it = Agg("m:rev", None, (it,))
        k = E.nat(E.fresh("found"))
        at = shift(E, it, k)
        if at is None:
            return None
        p = st.mem[GROWS].fields[0]
        out = []
        s = st.copy()
        if E.add_ge(s, n - k - 1) and E.feasible(s, []):
            for s1, _, x in nxt(E, fr, blk, s, at, None):
                if x is None:
                    continue
                arg = x
                if op == "find":
                    root = ("GH", "item")
                    s1.mem[root] = x
                    arg = Ref(root, (), None)
                for s2, y in E.call_closure(fr, blk, s1, args[1], [arg]):
                    f = E.asf(y)
                    for s3 in E.assume(s2, f, True):
                        # what has been searched isn't displayed when the predicate is exactly that
                        same = any(f == E.asf(self.row(s3, self.rows(s3), i, "displayed")) for i in self.at(s3, p + k))
                        if same:
                            s3.mem[GROWS] = Agg("ghost", None, (p + k, Lin(0)))
                        s3.setg("exact", same)
                        out.append((s3, some(k if op == "position" else n - 1 - k if op == "rposition" else x)))
            s = st.copy()
            # none is found
            i = E.nat(E.fresh("any"))
            E.add_ge(s, n - i - 1)
            a2 = shift(E, it, i)
            same = []
            for s1, _, x in nxt(E, fr, blk, s.copy(), a2, None):
                if x is None:
                    continue
                arg = x
                if op == "find":
                    s1.mem[("GH", "item")] = x
                    arg = Ref(("GH", "item"), (), None)
                for s2, y in E.call_closure(fr, blk, s1, args[1], [arg]):
                    same.append(any(E.asf(y) == E.asf(self.row(s2, self.rows(s2), j, "displayed")) for j in self.at(s2, p + i)))
            s = st.copy()
            if same and all(same):
                s.mem[GROWS] = Agg("ghost", None, (p + n, Lin(0)))
            out.append((s, NONE))
        else:
            out.append((st, NONE))
        return out

    def selected(self, st):
        """None, the index of the selected row, or False when not known"""
        o = self.get(st, "selection")
        t = self.E.variant_of(st, o)
        if t is None:
            return False
        return self.payload(st, o) if t == 1 else None


class Back(Search):
    def at(self, st, k):
        return [self.n0 - 1 - k]


class Cyclic(Search):
    """rows in cyclic order from the one after the selected one, or before it"""
    up = False
    counted = True

    def at(self, st, k):
        E = self.E
        k = self.n0 - 1 - k + self.sel if self.up else self.sel + 1 + k
        out = []
        for d in (Lin(0), -self.n0):
            i = k + d
            if E.entails(st, i) and E.entails(st, self.n0 - i - 1):
                return [i] + self.rems(st, k)
        return self.rems(st, k)

    def rems(self, st, k):
        """the remainders of k by the number of rows among what's known of the rows"""
        E = self.E
        out = []
        for t in list(E.A.idx):
            if isinstance(t, tuple) and t[0] == "rem" and len(t) == 3 and t[2] == self.n0:
                x = t[1]
                if any(E.entails_eq0(st, x - k - d) for d in (Lin(0), self.n0, -self.n0)):
                    out.append(E.atom(t))
        return out


class Ranked(LView):
    """make_selection_visible, the number of displayed rows before the selected one being either counted by an iterator
    (a filter on the displayed rows among the first ones) or by a loop (p rows accounted for, g of them displayed)"""

    def __init__(self, *a, **o):
        super().__init__(*a, **o)
        self.mine = self.count
        self.st.mem[GROWS] = Agg("ghost", None, (Lin(0), Lin(0)))

    def facts(self, E, st):
        out = super().facts(E, st)
        p, g = st.mem[GROWS].fields
        for root, v in list(st.mem.items()):
            if root[0] == "L" and isinstance(v, Lin):
                out[root, "seen"] = v - g
                out[root, "read"] = v - p
        out["g"] = ("ge", self.count0 - g)
        out["d"] = ("ge", g)
        out["r"] = ("ge", p - g)
        return out

    def advance(self, E, fr, head, st):
        super().advance(E, fr, head, st)
        p, g = st.mem[GROWS].fields
        if isinstance(p, Lin) and isinstance(g, Lin):
            # among all the rows, at least these ones are displayed
            E.add_ge(st, self.count0 - g)
            if E.entails(st, self.n0 - p - 1) and self.shown(st, self.rows(st), p) is True:
                E.add_ge(st, self.count0 - g - 1)

    def count(self, E, fr, blk, st, path, fn, args):
        from models import nxt, remaining
        if path.split("::")[-1] != "count" or "Iterator" not in path:
            return None
        it = args[0]
        if not (isinstance(it, Agg) and it.path == "m:filter"):
            return None
        n = remaining(E, st, it.fields[0])
        i = E.nat(E.fresh("any"))
        at = shift(E, it.fields[0], i)
        if n is None or at is None:
            return None
        s = st.copy()
        if not E.add_ge(s, n - i - 1) or not E.feasible(s, []):
            return None
        for s1, _, x in nxt(E, fr, blk, s, at, None):
            if x is None:
                continue
            s1.mem[("GH", "item")] = x
            for s2, y in E.call_closure(fr, blk, s1, it.fields[1], [Ref(("GH", "item"), (), None)]):
                if E.asf(y) != E.asf(self.row(s2, self.rows(s2), i, "displayed")):
                    return None
        r = self.rank(n)
        self.ranked(st, n)
        return [(st, r)]

    def rank(self, n):
        """the number of displayed rows among the n first ones"""
        return self.E.nat(("rank", n))

    def ranked(self, st, n):
        E = self.E
        r = self.rank(n)
        for l in (r, n - r, self.count0 - r):
            E.add_ge(st, l)
        if E.entails(st, self.n0 - n - 1) and self.shown(st, self.rows(st), n) is True:
            E.add_ge(st, self.count0 - r - 1)


SELECTION_STUBS = ("make_selection_visible",)


def stub(names):
    def mine(v):
        def calls(E, fr, blk, st, path, fn, args):
            if path.split("::")[-1] in names and LV in path.replace("<'t, T>", "").replace("<T>", ""):
                s = st
                o = E.nat(E.fresh("scroll"))
                E.write(s, v.me.root, v.me.path + tuple(place(v.P, LV, "scroll")), o)
                return [(s, Agg("()", None, ()))]
            return None
        return calls
    return mine


def chosen(c, P, name, cls, none_at):
    """select_first_line, select_last_line"""
    v = cls(c, P, name)
    v.label = "ListView::" + name
    s0 = v.search
    st_ = stub(SELECTION_STUBS)(v)
    v.mine = lambda *a: st_(*a) or s0(*a)
    for st, _ in v.go():
        E, p = v.E, st.mem[GROWS].fields[0]
        r = v.selected(st)
        c.count("selections")
        if r is False:
            v.fail("unknown", "the selection isn't determined")
        elif r is None:
            if not E.entails_eq0(st, p - v.n0):
                v.fail("none", "nothing may be selected while a row is displayed")
        elif not E.entails_eq0(st, r - v.at(st, p)[0]) or v.shown_at(st, p) is not True:
            v.fail("row", "the row selected may not be the displayed one which is the %s" % none_at)
    panics(c, v.E, v.label)


def next_line(c, P, up, some_):
    v = Cyclic(c, P, "try_select_next")
    v.label = "ListView::try_select_next(%s)" % ("true" if up else "false")
    s0, st_ = v.search, stub(SELECTION_STUBS)(v)

    def first(E, fr, blk, st, path, fn, args):
        if path.split("::")[-1] == "first_visible_row":
            i = v.start
            E.add_ge(st, v.n0 - i)
            return [(st, i)]
        return None
    v.mine = lambda *a: st_(*a) or first(*a) or s0(*a)
    E, st = v.E, v.st
    v.up, v.start = up, E.nat(E.fresh("first"))
    starts = E.assume(st.copy(), E.asf(v.r.args[1]), up)
    out = []
    for s in starts:
        s.disc[E.termof(v.sel0)] = 1 if some_ else 0
        E.add_eq(s, E.discr(s, v.sel0) - (1 if some_ else 0))
        if some_:
            v.sel = v.payload(s, v.sel0)
            E.add_ge(s, v.n0 - v.sel - 1)
            E.add_ge(s, v.sel)
        else:
            # the search starts with the first visible row
            v.up, v.sel = False, v.start - 1
        E.add_ge(s, v.count0 - (2 if some_ else 0))
        out.append(s)
    for st, _ in v.go(out):
        p = st.mem[GROWS].fields[0]
        r = v.selected(st)
        c.count("selections")
        if r is False:
            v.fail("unknown", "the selection isn't determined")
            continue
        if not some_:
            # anything displayed, unless there's nothing
            if r is not None:
                if not E.entails(st, v.n0 - r - 1) or not E.entails(st, r) or not shown_eq(v, st, r):
                    v.fail("any", "the row selected may not be a displayed one")
            continue
        if E.content(st, v.get(st, "selection")) == E.content(v.st, v.sel0) or r is not None and E.entails_eq0(st, r - v.sel):
            # all the others must have been searched
            if not E.entails(st, p - v.n0 + 1):
                v.fail("stay", "the selection may stay while another row is displayed")
            continue
        if r is None or not E.entails(st, v.n0 - r - 1) or not any(E.entails_eq0(st, r - i) for i in v.at(st, p)) or \
                v.shown_at(st, p) is not True:
            v.fail("row", "the row selected may not be the next displayed one")
    panics(c, E, v.label)


def shown_eq(v, st, r):
    E = v.E
    rows = v.rows(st)
    if v.shown(st, rows, r) is True:
        return True
    return any(t is True and term[0] == "f" and term[-1] == "displayed" and isinstance(term[1], tuple) and
               term[1][:2] == ("e", rows.term) and isinstance(term[1][2], Lin) and E.entails_eq0(st, term[1][2] - r)
               for term, t in st.bs.items())


def make_visible(c, P):
    v = Ranked(c, P, "make_selection_visible")
    E, st = v.E, v.st
    n = 0
    for hc, tb in v.tbody():
        for some_ in (True, False):
            s = st.copy()
            s.disc[E.termof(v.sel0)] = int(some_)
            E.add_eq(s, E.discr(s, v.sel0) - int(some_))
            if not all(E.add_ge(s, l) for l in hc + [tb - 1, v.scroll0]):
                continue
            if some_:
                sel = v.payload(s, v.sel0)
                E.add_ge(s, sel)
                E.add_ge(s, v.n0 - sel - 1)
                s = [x for x in E.assume(s, E.asf(v.row(s, v.rows0, sel, "displayed")), True)][0]
            for s2, _ in v.go([s]):
                n += 1
                S = v.get(s2, "scroll")
                if not v.same(s2, "selection"):
                    v.fail("selection", "the selection changes")
                if some_:
                    r = v.rank(sel)
                    v.ranked(s2, sel)
                    p, g = s2.mem[GROWS].fields
                    if isinstance(p, Lin) and isinstance(g, Lin) and E.entails_eq0(s2, p - sel):
                        r = g
                    elif isinstance(p, Lin) and isinstance(g, Lin) and E.entails_eq0(s2, p - sel - 1):
                        r = g - 1
                    s3 = s2.copy()
                    if E.add_ge(s3, v.count0 - tb - 1) and E.feasible(s3, []):
                        c.count("obligations", 2)
                        if not E.entails(s3, r - S):
                            v.fail("above", "the selected row may stay scrolled out above")
                        if not E.entails(s3, S + tb - 1 - r):
                            v.fail("below", "the selected row may stay scrolled out below")
                elif not v.same(s2, "scroll"):
                    v.fail("nothing", "the view scrolls though there's no selection")
                valid(c, v, s2, tb, S)
    c.need(n or None, "paths of make_selection_visible")
    panics(c, E, v.label)


def valid(c, v, st, tb, S):
    """a valid scroll stays valid: at most one empty line below the rows"""
    E = v.E
    for cs in ([-v.scroll0], [v.scroll0 - 1, v.count0 + 1 - tb - v.scroll0]):
        s = st.copy()
        if all(E.add_ge(s, l) for l in cs) and E.feasible(s, []):
            C = v.get(s, "displayed_rows_count")
            c.count("obligations")
            for k in ([S - 1],):
                s2 = s.copy()
                if all(E.add_ge(s2, l) for l in k) and E.feasible(s2, []) and not E.entails(s2, C + 1 - tb - S):
                    v.fail("valid", "the scroll may go beyond the last rows")


class First(LView):
    """first_visible_row: p rows accounted for, g of them displayed"""

    def __init__(self, *a, **o):
        super().__init__(*a, **o)
        self.st.mem[GROWS] = Agg("ghost", None, (Lin(0), Lin(0)))

    def facts(self, E, st):
        out = super().facts(E, st)
        g = st.mem[GROWS].fields
        for (root, v) in list(st.mem.items()):
            if root[0] == "L" and isinstance(v, Lin):
                out[root, "left"] = v - (self.scroll0 - g[1])
                out[root, "seen"] = v - g[1]
        out["g"] = ("ge", self.scroll0 - g[1])
        out["d"] = ("ge", g[1])
        return out

    def advance(self, E, fr, head, st):
        p, g = st.mem[GROWS].fields
        if not isinstance(p, Lin) or not isinstance(g, Lin):
            return None
        v = self.rows(st)
        t = self.shown(st, v, p)
        if t is not None and (not t or E.entails(st, self.scroll0 - g - 1)):
            p, g = p + 1, g + (1 if t else 0)
        st.mem[GROWS] = Agg("ghost", None, (p, g))
        return None


def first_visible(c, P):
    v = First(c, P, "first_visible_row", max_states=400)
    E = v.E
    E.add_ge(v.st, v.scroll0)
    for st, r in v.go():
        c.count("obligations")
        p, g = st.mem[GROWS].fields
        if not isinstance(r, Lin):
            v.fail("value", "the row isn't determined")
        elif E.entails_eq0(st, r - v.n0):
            if not E.entails_eq0(st, p - v.n0) or not E.entails(st, v.scroll0 - g):
                v.fail("none", "nothing may be visible though there's a row after the scrolled ones")
        elif not E.entails_eq0(st, r - p) or not E.entails_eq0(st, g - v.scroll0) or not shown_eq(v, st, r):
            v.fail("first", "the first row drawn may not be the displayed one which follows as many displayed ones as the scroll")
    panics(c, E, v.label)


def scrolls(c, P):
    # by lines
    v = LView(c, P, "try_scroll_lines")
    E, n = v.E, v.r.args[1]
    v.mine = stub(SELECTION_STUBS)(v)
    called = []
    one = v.mine

    def seen(E_, fr, blk, st, path, fn, args):
        if path.split("::")[-1] in SELECTION_STUBS:
            st.setg("before", v.get(st, "scroll"))
        return one(E_, fr, blk, st, path, fn, args)
    v.mine = seen
    for hc, tb in v.tbody():
        s = v.st.copy()
        if not all(E.add_ge(s, l) for l in hc + [tb - 1, v.scroll0]):
            continue
        for start in ([-v.scroll0], [v.scroll0 - 1, v.count0 + 1 - tb - v.scroll0]):
            s1 = s.copy()
            if not all(E.add_ge(s1, l) for l in start):
                continue
            for st, _ in v.go([s1]):
                c.count("obligations")
                S = st.g("before")
                if S is None:
                    v.fail("selection", "the selected row may be left invisible")
                    S = v.get(st, "scroll")
                if check_value(E, st, S, clamp(v.scroll0 + n, v.count0 + 1 - tb)) is not None:
                    v.fail("lines", "the scroll isn't moved by the given number of lines, within the rows")
    panics(c, E, v.label)
    # by pages
    v = LView(c, P, "try_scroll_pages")
    E = v.E
    got = []

    def lines(E_, fr, blk, st, path, fn, args):
        if path.split("::")[-1] == "try_scroll_lines":
            got.append(1)
            for hc, tb in v.tbody():
                s = st.copy()
                if all(E.add_ge(s, l) for l in hc + [tb - 1]) and E.feasible(s, []):
                    c.count("obligations")
                    if not isinstance(args[1], Lin) or not E.entails_eq0(s, args[1] - tb.scale(v.pages)):
                        v.fail("page", "a page isn't the height available for the rows")
            return [(st, Agg("()", None, ()))]
        return None
    v.mine = lines
    for k in (-3, -1, 0, 1, 3):
        v.pages = k
        v.r.args[1] = Lin(k)
        v.go()
    c.need(got or None, "the scrolling by lines in try_scroll_pages")
    panics(c, E, v.label)
    # to the bottom
    v = LView(c, P, "scroll_to_bottom")
    E = v.E
    for hc, tb in v.tbody():
        s = v.st.copy()
        if all(E.add_ge(s, l) for l in hc + [tb]):
            for st, _ in v.go([s]):
                c.count("obligations")
                S = v.get(st, "scroll")
                if check_value(E, st, S, [([v.count0 - tb], v.count0 - tb), ([tb - v.count0 - 1], Lin(0))]) is not None:
                    v.fail("bottom", "the scroll isn't the one showing the last row at the bottom")
    panics(c, E, v.label)
    v = LView(c, P, "do_scroll_show_bottom")
    E = v.E
    for hc, tb in v.tbody():
        s = v.st.copy()
        if all(E.add_ge(s, l) for l in hc + [tb, v.scroll0]):
            for st, r in v.go([s]):
                c.count("obligations")
                if not truthful(E, st, r, v.scroll0 + tb - v.count0):
                    v.fail("answer", "the answer isn't whether the last row is visible")
    panics(c, E, v.label)
    # a row added to a list showing its bottom
    v = LView(c, P, "add_row")
    E = v.E
    for hc, tb in v.tbody():
        s = v.st.copy()
        if not all(E.add_ge(s, l) for l in hc + [tb - 1, v.scroll0]):
            continue
        for st, _ in v.go([s]):
            c.count("obligations")
            S = v.get(st, "scroll")
            C = v.get(st, "displayed_rows_count")
            if not v.same(st, "selection"):
                v.fail("selection", "the selection changes")
            unsorted = E.variant_of(v.st, v.get(v.st, "row_order"))
            o = v.get(st, "row_order")
            for w in (0, 1):
                s2 = st.copy()
                if not E.add_eq(s2, E.discr(s2, o) - w) or not E.feasible(s2, []):
                    continue
                if w == 1:
                    if not E.entails_eq0(s2, S - v.scroll0):
                        v.fail("sorted", "a sorted list scrolls when a row is added")
                    continue
                for cs, want in (([v.scroll0 + tb - v.count0, C - tb], C - tb), ([v.scroll0 + tb - v.count0, tb - C - 1], Lin(0)),
                                 ([v.count0 - v.scroll0 - tb - 1], v.scroll0)):
                    s3 = s2.copy()
                    if all(E.add_ge(s3, l) for l in cs) and E.feasible(s3, []) and not E.entails_eq0(s3, S - want):
                        v.fail("stick", "a list whose last row is visible may not show the row added, or another list may scroll")
    panics(c, E, v.label)
    # resets
    v = LView(c, P, "set_filter", "set")
    for st, _ in v.go():
        if not v.E.entails_eq0(st, v.get(st, "scroll")):
            v.fail("scroll", "the scroll may be beyond the rows kept by the filter")
    v = LView(c, P, "remove_filter", "set")
    for st, _ in v.go():
        if not v.E.entails_eq0(st, v.get(st, "scroll") - v.scroll0):
            v.fail("scroll", "the scroll changes")
    v = LView(c, P, "unselect")
    for st, _ in v.go():
        if v.E.variant_of(st, v.get(st, "selection")) != 0:
            v.fail("selection", "there may still be a selection")
    v = LView(c, P, "get_selection")
    E = v.E
    for some_ in (0, 1):
        s = v.st.copy()
        s.disc[E.termof(v.sel0)] = some_
        E.add_eq(s, E.discr(s, v.sel0) - some_)
        if some_:
            sel = v.payload(s, v.sel0)
            E.add_ge(s, sel)
            E.add_ge(s, v.n0 - sel - 1)
        for st, r in v.go([s]):
            c.count("obligations")
            t = E.variant_of(st, r)
            if t != some_:
                v.fail("some", "there may be no row for a selection, or the reverse")
            elif t == 1:
                x = E.toref(E.proj(st, r, ("f", 0, 1, None, "0")))
                want = E.content(st, v.row(st, v.rows0, sel, "data"))
                if x is None or E.content(st, E.read(st, x.root, x.path)) != want:
                    v.fail("row", "the row isn't the selected one")
    panics(c, E, v.label)


def l02(c):
    c.rule = ("Each method moving the selection or the scroll of a ListView is analysed on a symbolic view. Searches of a row: a "
              "specification variable counts, in the order of the search (from the top, from the bottom, cyclically from the "
              "selection up or down), the rows known not to be displayed (inductive invariant of the loops), and the row selected "
              "must be the next one and displayed. make_selection_visible: with the rank of the selected row among the displayed "
              "ones, scroll <= rank < scroll + height. first_visible_row: as many displayed rows before as the scroll. Scrolling by "
              "lines and pages is exact, a valid scroll stays valid, and no index, subtraction or unwrap may panic.")
    P = c.prog()
    chosen(c, P, "select_first_line", Search, "first")
    chosen(c, P, "select_last_line", Back, "last")
    for up in (True, False):
        for s in (True, False):
            next_line(c, P, up, s)
    make_visible(c, P)
    first_visible(c, P)
    scrolls(c, P)
    c.floor("paths", 60)
    c.floor("obligations", 70)
    c.floor("selections", 8)
