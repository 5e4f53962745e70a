"""Tables (B01): every row of a table has a cell per column, at the column's width.

Table::fix_columns is interpreted on small tables (rows and rules in every order, missing cells, a width which is enough or not)
of arbitrary cells, the widths chosen by the fitter being arbitrary and cells too wide being wrapped over one to three composites.
"""
import itertools
import absint, fw
from absint import Agg, Sym, Ref, VecV, BoolV, Lin, TRUE, FALSE
from models import NONE, some, norm, UNIT, ok, range_bounds, nxt
from render import Run1, place, split_enum
from seqs import Seqs

FC = "termimad::composite::FmtComposite"
TBL = "termimad::tbl::Table"
LINE = "termimad::line::FmtLine"
ROW = "termimad::tbl::FmtTableRow"
RULE = "termimad::tbl::FmtTableRule"
POS = "termimad::tbl::RelativePosition"
ALIGN = "minimad::markdown::align::Alignment"


def tyof(P, path):
    return next(i for i, t in enumerate(P.types) if t.get("path") == path)


def vi(P, path, name):
    return next(i for i, v in enumerate(P.adts[path]["variants"]) if v["name"] == name)


def few(E, it):
    """a bound of the number of items of an iterator, or None"""
    if not isinstance(it, Agg):
        return None
    if it.path in ("m:slice", "m:own") and all(isinstance(x, Lin) for x in it.fields[1:]):
        n = it.fields[2] - it.fields[1]
        return n.c if n.is_const() else None
    if it.path == "core::ops::range::Range" and all(isinstance(x, Lin) for x in it.fields[:2]):
        n = it.fields[1] - it.fields[0]
        return n.c if n.is_const() else None
    if it.path == "m:take" and isinstance(it.fields[1], Lin) and it.fields[1].is_const():
        return it.fields[1].c
    if it.path in ("m:zip", "m:chain"):
        ns = [few(E, x) for x in it.fields[:2]]
        if it.path == "m:zip":
            return min((n for n in ns if n is not None), default=None)
        return sum(ns) if None not in ns else None
    if it.path.startswith("m:") and it.fields:
        return few(E, it.fields[0])
    return None


def items(E, fr, blk, st, it, limit=40):
    """[(state, the items)] of an iterator of a known number of items"""
    out, now = [], [(st, it, [])]
    while now:
        s, i, xs = now.pop()
        for s2, i2, x in nxt(E, fr, blk, s, i, None):
            if x is None:
                out.append((s2, xs))
            elif len(xs) >= limit:
                return None
            else:
                now.append((s2, i2, xs + [x]))
    return out


def exact(sh, E, fr, blk, st, path, fn, args):
    """what's done of a few known items"""
    m = path.split("::")[-1]
    if not args:
        return None
    n = few(E, args[0])
    if n is not None and n <= 40:
        if m == "collect" and P_vec(sh.P, fr, blk):
            ety = sh.P.types[dst_ty(sh.P, fr, blk)]["args"][0]
            got = items(E, fr, blk, st, args[0])
            return got and [(s, sh.vec(s, xs, ety)) for s, xs in got]
        if m in ("max", "min") and len(args) == 1:
            got = items(E, fr, blk, st, args[0])
            out = []
            for s, xs in got or []:
                xs = [E.read(s, x.root, x.path, None) if isinstance(x, Ref) else x for x in xs]
                if not all(isinstance(x, Lin) for x in xs):
                    return None
                if not xs:
                    out.append((s, NONE))
                    continue
                # each of the items may be the one
                for i, x in enumerate(xs):
                    a = s.copy()
                    if all(E.add_ge(a, (x - y if m == "max" else y - x) - (1 if j < i else 0)) for j, y in enumerate(xs) if j != i) and E.feasible(a, []):
                        out.append((a, some(x)))
            return out or None
    if m == "resize" and len(args) == 3 and "Vec" in norm(path):
        r = E.toref(args[0])
        v = r and E.read(st, r.root, r.path, None)
        xs = sh.seq(st, v)
        if xs is None or not isinstance(args[1], Lin) or not args[1].is_const():
            return None
        k = args[1].c
        st = st.copy()
        sh.q.keep(st, r, [sh.q.item(st, x) for x in (xs + [args[2]] * (k - len(xs)))[:k]], v.ety)
        return [(st, UNIT)]
    if m == "extend" and len(args) == 2 and few(E, args[1]) is not None:
        r = E.toref(args[0])
        v = r and E.read(st, r.root, r.path, None)
        got = items(E, fr, blk, st, args[1])
        if not isinstance(v, VecV) or got is None:
            return None
        out = []
        for s, xs in got:
            ys = sh.seq(s, E.read(s, r.root, r.path, None))
            if ys is None:
                return None
            s = s.copy()
            sh.q.keep(s, r, [sh.q.item(s, x) for x in ys + xs], v.ety)
            out.append((s, UNIT))
        return out
    return None


class Shape:
    """a table: its lines, as the number of cells of rows and (columns of the rule,) for rules; the number of columns and the width"""

    def __init__(self, c, P, lines, nbcols, width, parts):
        self.c, self.P, self.lines, self.nbcols, self.width, self.parts = c, P, lines, nbcols, width, parts
        b = self.b = c.need(P.method(TBL, "fix_columns"), "Table::fix_columns")
        self.r = Run1(P, b, c, on_call=self.calls, unroll=40, unroll_paths=64, max_states=4000, max_writes=64, adaptors=True)
        self.E = E = self.r.E
        self.q = Seqs(E, P)
        st = self.st = self.r.init
        self.me = E.toref(self.r.args[0])
        self.tp = {f: place(P, TBL, f)[0] for f in ("start", "height", "nbcols")}
        E.read(st, self.me.root, self.me.path, None)
        for f, n in (("start", 1), ("height", len(lines)), ("nbcols", nbcols)):
            E.write(st, self.me.root, self.me.path + (self.tp[f],), Lin(n))
        # the lines
        self.lty, self.fty = tyof(P, LINE), tyof(P, FC)
        self.aty = tyof(P, ALIGN)
        self.lp = next(i for i in range(b.argc) if "Vec" in str(P.types[P.types[b.locals[i + 1]["t"]].get("ty", 0) or 0].get("path")))
        self.lr = E.toref(self.r.args[self.lp])
        ls = [self.other(st, 0)]
        for i, x in enumerate(lines):
            ls.append(self.rule(st, i, x[0]) if isinstance(x, tuple) else self.row(st, i, x))
        ls.append(self.other(st, 1))
        E.write(st, self.lr.root, self.lr.path, self.vec(st, ls, self.lty))
        self.before = ls
        self.args = list(self.r.args)
        w = [i for i, a in enumerate(self.args) if isinstance(a, Lin)]
        self.args[c.need(w or None, "the width")[0]] = Lin(width)
        self.seen = []

    def vec(self, st, xs, ety):
        return self.q.make([self.q.item(st, x) for x in xs], ety)

    def other(self, st, i):
        k = vi(self.P, LINE, "Normal")
        return Agg(LINE, k, (self.E.mk(("other", i), self.fty),), self.lty)

    def cell(self, i, j):
        return self.E.mk(("cell", i, j), self.fty)

    def row(self, st, i, n):
        return Agg(LINE, vi(self.P, LINE, "TableRow"), (Agg(ROW, None, (self.vec(st, [self.cell(i, j) for j in range(n)], self.fty),), tyof(self.P, ROW)),), self.lty)

    def rule(self, st, i, n):
        P, E = self.P, self.E
        uty = next(k for k, t in enumerate(P.types) if t["k"] == "uint" and t.get("name") == "usize" or t.get("k") == "usize") if False else None
        vals = []
        for f in P.adts[RULE]["variants"][0]["fields"]:
            if f["name"] == "position":
                vals.append(Agg(POS, vi(P, POS, "Other"), (), f["ty"]))
            elif f["name"] == "widths":
                ety = P.types[f["ty"]]["args"][0]
                vals.append(self.vec(st, [Lin(0)] * n, ety))
            elif f["name"] == "aligns":
                ety = P.types[f["ty"]]["args"][0]
                vals.append(self.vec(st, [E.mk(("align", i, j), ety) for j in range(n)], ety))
            else:
                vals.append(E.mk(("rule", i, f["name"]), f["ty"]))
        return Agg(LINE, vi(P, LINE, "TableRule"), (Agg(RULE, None, tuple(vals), tyof(P, RULE)),), self.lty)

    # ------------------------------------------------------------------ calls
    def seq(self, st, v, lo=None, hi=None):
        """the elements of a vector of known size"""
        E = self.E
        if isinstance(v, Agg) and v.path == "t:slice":
            r, lo, hi = v.fields
            return self.seq(st, E.read(st, r.root, r.path, None), lo, hi)
        if isinstance(v, Ref):
            return self.seq(st, E.read(st, v.root, v.path, None), lo, hi)
        if not isinstance(v, VecV):
            return None
        out = self.q.flat(st, v)
        if not out or len(out) != 1:
            return None
        res = []
        for u, n in out[0][1]:
            if u[0] == "it":
                res.append(self.q.vals[u[1]])
            elif n.is_const():
                for k in range(n.c):
                    i = Lin(k) if u[0] == "pre" else self.q.blen[u[1]] - n + k if u[0] == "suf" else u[2] + k
                    res.append(E.elem(st, VecV(u[1], n, (), v.ety), i, v.ety))
            else:
                return None
        return res[lo.c if lo is not None else 0:hi.c if hi is not None else None]

    def calls(self, E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        n = norm(path)
        if m == "fit" and "TblFit" in path or m == "see_cell":
            if m == "see_cell":
                return [(st, UNIT)]
            c = self.nbcols
            rt = next(p for p in self.P.adts if p.endswith("::TblFitResult"))
            vals = []
            for f in self.P.adts[rt]["variants"][0]["fields"]:
                if f["name"] == "col_widths":
                    ws = [E.nat(("col", j)) for j in range(c)]
                    for w in ws:
                        E.add_ge(st, w - 3)
                    vals.append(self.vec(st, ws, self.P.types[f["ty"]]["args"][0]))
                else:
                    vals.append(E.mk(E.fresh("fit"), f["ty"]))
            return [(st, Agg(rt, None, tuple(vals), tyof(self.P, rt)))]
        if m == "hard_wrap_composite":
            x, w = args[0], args[1]
            k = E.content(st, x)
            while isinstance(k, tuple) and k and k[0] in ("*", "S") and len(k) == 2:
                k = k[1]
            out = []
            for p in self.parts:
                s = st.copy()
                s.setg("wrapped", s.g("wrapped", ()) + ((k, p),))
                s.mem[("ghost", "ww", len(s.g("wrapped")))] = w
                out.append((s, ok(self.vec(s, [E.mk(("piece", k, i), self.fty) for i in range(p)], self.fty))))
            return out
        if m in ("index", "index_mut") and len(args) == 2 and not isinstance(args[1], Lin):
            r = E.toref(args[0])
            v = E.read(st, r.root, r.path, None) if r is not None else args[0]
            if isinstance(v, VecV) and isinstance(args[1], (Agg, Sym)):
                b = range_bounds(E, st, args[1], v.len)
                if b is not None and b[0].is_const() and b[1].is_const() and r is not None:
                    E.obligation(fr, blk, "slice", E.entails(st, v.len - b[1]), "end <= len not proven")
                    return [(st, Agg("t:slice", None, (r, b[0], b[1])))]
            return None
        if m in ("iter", "iter_mut", "into_iter", "len", "to_vec") and len(args) == 1:
            x = args[0]
            for _ in range(3):
                x = E.read(st, x.root, x.path, None) if isinstance(x, Ref) else x
            if isinstance(x, Agg) and x.path == "t:slice":
                r, lo, hi = x.fields
                if m == "len":
                    return [(st, hi - lo)]
                if m == "to_vec":
                    return [(st, self.vec(st, self.seq(st, x), E.read(st, r.root, r.path, None).ety))]
                return [(st, Agg("m:slice", None, (r, lo, hi)))]
        if m in ("clone_from_slice", "copy_from_slice") and len(args) == 2:
            src = self.seq(st, args[1])
            d = args[0]
            if isinstance(d, Ref):
                x = E.read(st, d.root, d.path, None)
                d = Agg("t:slice", None, (d, Lin(0), x.len)) if isinstance(x, VecV) else x
            if src is None or not isinstance(d, Agg) or d.path != "t:slice":
                return None
            r, lo, hi = d.fields
            E.obligation(fr, blk, "slice lengths", hi.c - lo.c == len(src), "slices of different lengths")
            if hi.c - lo.c != len(src):
                return []
            v = E.read(st, r.root, r.path, None)
            xs = self.seq(st, v)
            xs[lo.c:hi.c] = src
            st = st.copy()
            self.q.keep(st, r, [self.q.item(st, x) for x in xs], v.ety)
            return [(st, UNIT)]
        if m == "from_elem" and len(args) == 2 and isinstance(args[1], Lin) and args[1].is_const():
            ety = None
            return [(st, self.vec(st, [args[0]] * args[1].c, fn["targs"][0]))]
        x = exact(self, E, fr, blk, st, path, fn, args)
        if x is not None:
            return x
        return self.q.on_call(E, fr, blk, st, path, fn, args)

    # ------------------------------------------------------------------ what's wanted
    def fail(self, what):
        self.c.violate("table:" + what, "%s:%d in a table, %s" % (self.b.file, self.b.line, what))

    def check(self):
        E, c = self.E, self.c
        n = 0
        for s, _ in E.call_body(self.st.copy(), self.b, self.args):
            if not E.feasible(s, []):
                continue
            n += 1
            c.count("ends")
            self.end(s)
        c.need(n or None, "an end of fix_columns")

    def end(self, s):
        E, P, c, q = self.E, self.P, self.c, self.q
        got = self.seq(s, E.read(s, self.lr.root, self.lr.path, None))
        if got is None:
            raise fw.Missing("the lines after fix_columns")
        me = E.read(s, self.me.root, self.me.path, None)
        start, height = (E.proj(s, me, self.tp[f]) for f in ("start", "height"))
        if not E.entails_eq0(s, start - 1) or not E.entails_eq0(s, height - (len(got) - 2)):
            self.fail("the lines of the table aren't counted")
        if len(got) < 2 or any(E.content(s, got[k]) != E.content(s, self.before[k]) for k in (0, -1)):
            self.fail("a line out of the table changes")
            return
        got = got[1:-1]
        if not self.nbcols or not self.width:
            if len(got) != len(self.lines) or any(E.content(s, x) != E.content(s, y) for x, y in zip(got, self.before[1:-1])):
                self.fail("something changes without column or width")
            return
        fits = self.width >= 4 * self.nbcols + 1
        nb = self.nbcols if fits else (self.width - 1) // 4
        ws = [E.nat(("col", j)) if fits else Lin(3) for j in range(nb)]
        log = {}
        for k, (x, p) in enumerate(s.g("wrapped", ())):
            log[x] = (p, s.mem[("ghost", "ww", k + 1)])
        aligns = ["Center"] * nb
        at = 0
        vl, sp, cp = (place(P, FC, f)[0] for f in ("visible_length", "spacing", "compounds"))
        swi, sal = (place(P, "termimad::spacing::Spacing", f)[0] for f in ("width", "align"))
        for i, ln in enumerate(self.lines):
            if isinstance(ln, tuple):
                x = got[at] if at < len(got) else None
                at += 1
                if x is None or E.variant_of(s, x) != vi(P, LINE, "TableRule"):
                    self.fail("a rule is lost or moved")
                    return
                c.count("rules")
                x = x.fields[0] if isinstance(x, Agg) else E.proj(s, x, ("f", 0, vi(P, LINE, "TableRule"), tyof(P, RULE), "0"))
                pos = E.variant_of(s, E.proj(s, x, place(P, RULE, "position")[0]))
                # (which is the last one is seen on the result)
                want = "Top" if i == 0 else "Bottom" if i == len(self.lines) - 1 else "Other"
                if pos != vi(P, POS, want):
                    self.fail("the %s rule isn't known as such" % {"Top": "first", "Bottom": "last", "Other": "middle"}[want])
                w = self.seq(s, E.proj(s, x, place(P, RULE, "widths")[0]))
                a = self.seq(s, E.proj(s, x, place(P, RULE, "aligns")[0]))
                if w is None or a is None:
                    raise fw.Missing("the columns of a rule")
                if len(w) != nb or len(a) != nb:
                    self.fail("a rule hasn't the number of columns of the table")
                    return
                for j in range(nb):
                    if not isinstance(w[j], Lin) or not E.entails_eq0(s, w[j] - ws[j]):
                        self.fail("a rule hasn't the widths of the columns")
                    if j < ln[0]:
                        if E.content(s, a[j]) != ("align", i, j):
                            self.fail("a rule hasn't its alignments")
                    elif E.variant_of(s, a[j]) != vi(P, ALIGN, "Unspecified"):
                        self.fail("a missing alignment isn't unspecified")
                aligns = [("align", i, j) if j < ln[0] else "Unspecified" for j in range(nb)]
                continue
            # a row
            parts = [log.get(("cell", i, j), (1, None))[0] if j < ln else 1 for j in range(nb)]
            rows = max(parts) if parts else 1
            for k in range(rows):
                x = got[at] if at < len(got) else None
                at += 1
                if x is None or E.variant_of(s, x) != vi(P, LINE, "TableRow"):
                    self.fail("a row is lost or moved")
                    return
                c.count("rows")
                x = x.fields[0] if isinstance(x, Agg) else E.proj(s, x, ("f", 0, vi(P, LINE, "TableRow"), tyof(P, ROW), "0"))
                cells = self.seq(s, E.proj(s, x, place(P, ROW, "cells")[0]))
                if cells is None:
                    raise fw.Missing("the cells of a row")
                if len(cells) != nb:
                    self.fail("a row hasn't the number of columns of the table")
                    return
                for j in range(nb):
                    c.count("cells")
                    key = ("cell", i, j)
                    cell = cells[j]
                    if j < ln and key in log:
                        if k == 0:
                            ww = log[key][1]
                            if not E.entails_eq0(s, ww - ws[j]):
                                self.fail("a cell isn't wrapped at the width of its column")
                            if not E.entails(s, E.proj(s, self.cell(i, j), vl) - ws[j] - 1):
                                self.fail("a cell which fits is wrapped")
                        want = E.mk(("piece", key, k), self.fty) if k < log[key][0] else None
                    else:
                        want = self.cell(i, j) if j < ln and k == 0 else None
                        if want is not None and not E.entails(s, ws[j] - E.proj(s, want, vl)):
                            self.fail("a cell too wide isn't wrapped")
                    if want is None:
                        if not E.entails_eq0(s, E.proj(s, cell, vl)) or not isinstance(E.proj(s, cell, cp), VecV) or not E.entails_eq0(s, E.proj(s, cell, cp).len):
                            self.fail("a missing cell isn't empty")
                    else:
                        for f in P.adts[FC]["variants"][0]["fields"]:
                            if f["name"] != "spacing" and E.content(s, E.proj(s, cell, place(P, FC, f["name"])[0])) != E.content(s, E.proj(s, want, place(P, FC, f["name"])[0])):
                                self.fail("a cell isn't the one of its row and column")
                                break
                    z = E.proj(s, cell, sp)
                    if E.variant_of(s, z) != 1:
                        self.fail("a cell has no width")
                        continue
                    z = z.fields[0] if isinstance(z, Agg) else E.proj(s, z, ("f", 0, 1, None, "0"))
                    if not E.entails_eq0(s, E.proj(s, z, swi) - ws[j]):
                        self.fail("a cell hasn't the width of its column")
                    al = E.proj(s, z, sal)
                    if E.content(s, al) != aligns[j] if isinstance(aligns[j], tuple) else E.variant_of(s, al) != vi(P, ALIGN, aligns[j]):
                        self.fail("a cell isn't aligned as said by the last rule")
        if at != len(got):
            self.fail("there are more lines than rows and rules")


# the lines of the table (cells of a row, (columns of a rule,)), the columns, the width, the numbers of lines of wrapped cells
SHAPES = [
    ([2], 2, 40, (1, 2)), ([(1,), 1, (1,)], 1, 40, (1, 3)), ([2, (2,), 1], 2, 40, (2,)), ([1, (1,), 2, (2,)], 2, 30, (2,)), ([(3,), 2], 3, 40, (2,)),
    ([2, (2,), 1], 2, 8, (2,)), ([(3,), 3], 3, 6, (2,)), ([2, (2,)], 2, 3, (2,)), ([1, (1,)], 1, 0, (2,)), ([0, (0,)], 0, 10, (2,)), ([(2,)], 2, 20, (2,)),
]
MORE = [([1, 1, (1,), 1], 1, 20, (1, 2, 3)), ([3], 3, 40, (1, 2, 3)), ([(1,), 2, (2,), 2, (1,)], 2, 40, (2,)), ([(3,), 3, (3,)], 3, 9, (2,)), ([2, 0, (1,)], 2, 8, (1, 2)),
        ([(2,), 2, 2, (2,)], 2, 40, (3,))]


def job(a):
    tier, k = a
    c = fw.Check("B01", tier)
    P = c.prog()
    try:
        Shape(c, P, *k).check()
    except fw.Missing as e:
        c.violate("anchor:%s" % str(k), str(e))
    return c.viol, c.counts


def b01(c):
    c.rule = "Table::fix_columns is interpreted on small tables with arbitrary cells and widths, and the resulting lines are compared with the ones wanted."
    c.prog()
    for viol, counts in fw.pmap(job, [(c.tier, k) for k in SHAPES + (MORE if c.tier == "thorough" else [])]):
        for k, x in viol.items():
            c.violate(k, x)
        for k, m in counts.items():
            c.count(k, m)
    P = c.prog()
    for n in range(5 if c.tier == "quick" else 6):
        for x in itertools.product("ruo", repeat=n):
            finding(c, P, "".join(x))
    fixing(c, P)
    c.floor("tables found", 60)
    c.floor("documents", 1)
    c.floor("ends", 20)
    c.floor("rows", 40)
    c.floor("rules", 20)
    c.floor("cells", 60)


# ------------------------------------------------------------------ the widths of the columns (B02)
FITTER = "termimad::fit::tbl_fit::TblFit"
RESULT = "termimad::fit::tbl_fit::TblFitResult"


def dst_ty(P, fr, blk):
    t = fr.body.blocks[blk]["t"] if isinstance(blk, int) else None
    return t["dst"]["t"] if isinstance(t, dict) and "dst" in t else None


def P_vec(P, fr, blk):
    t = dst_ty(P, fr, blk)
    return t is not None and P.types[t].get("path") == "alloc::vec::Vec"


class Widths:
    """TblFit::fit on n columns of any widths"""

    def __init__(self, c, P, n):
        self.c, self.P, self.n = c, P, n
        self.b = b = c.need(P.method(FITTER, "fit"), "TblFit::fit")
        self.col = c.need(next((p for p in P.adts if p.endswith("tbl_fit::ColData")), None), "ColData")
        self.r = Run1(P, b, c, on_call=self.calls, unroll=8, unroll_paths=400, max_states=20000, max_writes=64, adaptors=True)
        self.E = E = self.r.E
        self.q = Seqs(E, P)
        self.shape = object.__new__(Shape)
        self.shape.E, self.shape.q, self.shape.P = E, self.q, P
        st = self.st = self.r.init
        me = E.toref(self.r.args[0])
        E.read(st, me.root, me.path, None)
        self.cp, self.ap = (place(P, FITTER, f)[0] for f in ("cols", "available_sum_width"))
        self.avail = E.nat(("available",))
        E.add_ge(st, self.avail - 3 * n)
        cty = tyof(P, self.col)
        self.cols = []
        for i in range(n):
            vals = []
            for f in P.adts[self.col]["variants"][0]["fields"]:
                x = E.mk(("col", i, f["name"]), f["ty"])
                if f["name"] == "width":
                    E.add_ge(st, x - 3)
                    w = x
                vals.append(x)
            self.cols.append((Agg(self.col, None, tuple(vals), cty), w))
        E.write(st, me.root, me.path + (self.cp,), self.shape.vec(st, [x for x, _ in self.cols], cty))
        E.write(st, me.root, me.path + (self.ap,), self.avail)

    def calls(self, E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        n = norm(path)
        if m == "avg_width" and len(args) == 1:
            return [(st, E.nat(("avg", E.content(st, args[0]))))]
        if m == "div_ceil" and len(args) == 2:
            a, b = args
            if isinstance(a, Lin) and isinstance(b, Lin):
                E.obligation(fr, blk, "division", E.entails(st, b - 1), "the divisor isn't proven positive: " + E.showlin(b))
                k = E.nat(("divceil", E.termof(a), E.termof(b)))
                if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1:
                    t = E.A.terms[a.t[0][0]]
                    if isinstance(t, tuple) and t[0] == "mul":
                        # ceil(x*y/b) >= x when y >= b
                        for x, y in ((t[1], t[2]), (t[2], t[1])):
                            if isinstance(x, Lin) and isinstance(y, Lin) and E.entails(st, y - b) and E.entails(st, x):
                                E.add_ge(st, k - x, False)
                if E.A.terms[k.t[0][0]][1][0] != "mul":
                    # a multiple of b, for small factors
                    for j in (4, 3, 2, 1):
                        if E.entails(st, a - b.scale(j)):
                            E.add_ge(st, k - j, False)
                            break
                return [(st, k)]
        x = exact(self.shape, E, fr, blk, st, path, fn, args)
        if x is not None:
            return x
        if m in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "sort_by", "sort_unstable_by") and len(args) == 2:
            r = E.toref(args[0])
            v = E.read(st, r.root, r.path, None)
            xs = self.shape.seq(st, v)
            if xs is None:
                return None
            now, refs = st.copy(), []
            for x in xs:
                root = ("C", E.fresh("sorted"))
                now.mem[root] = x
                refs.append(Ref(root, (), v.ety))
            orders = None
            if m.endswith("_by"):
                # (Less is the variant 0)
                less = {}
                for i, j in itertools.permutations(range(len(xs)), 2):
                    ys = E.call_closure(fr, blk, now.copy(), args[1], [refs[i], refs[j]])
                    less[i, j] = E.variant_of(ys[0][0], ys[0][1]) if len(ys) == 1 else None
                if all(k is not None for k in less.values()):
                    orders = [sorted(range(len(xs)), key=lambda i: sum(less[i, j] == 2 for j in range(len(xs)) if j != i))]
            else:
                keys = []
                for x in refs:
                    ys = E.call_closure(fr, blk, now.copy(), args[1], [x])
                    keys.append(ys[0][1] if len(ys) == 1 else None)
                if all(isinstance(k, Lin) and k.is_const() for k in keys):
                    orders = [sorted(range(len(xs)), key=lambda i: keys[i].c)]
            if orders is None:
                orders = list(itertools.permutations(range(len(xs))))
            out = []
            for o in orders:
                s = st.copy()
                self.q.keep(s, r, [self.q.item(s, xs[i]) for i in o], v.ety)
                out.append((s, UNIT))
            return out
        return self.q.on_call(E, fr, blk, st, path, fn, args)

    def fail(self, what):
        self.c.violate("widths:" + what, "%s:%d %s" % (self.b.file, self.b.line, what))

    def check(self):
        E, P, c = self.E, self.P, self.c
        tot = Lin(0)
        for _, w in self.cols:
            tot = tot + w
        n = 0
        for s, v in self.r.go():
            if not E.feasible(s, []):
                continue
            n += 1
            c.count("ends of the fitter")
            ws = self.shape.seq(s, E.proj(s, v, place(P, RESULT, "col_widths")[0]))
            if ws is None or not all(isinstance(w, Lin) for w in ws):
                raise fw.Missing("the widths of the columns")
            if len(ws) != self.n:
                self.fail("there isn't a width per column")
                continue
            sum_ = Lin(0)
            for w in ws:
                sum_ = sum_ + w
                if not E.entails(s, w - 3):
                    self.fail("a column may be less than 3 wide")
            if not E.entails(s, self.avail - sum_):
                self.fail("the columns may be wider than available")
            a = s.copy()
            if E.add_ge(a, self.avail - tot) and E.feasible(a, []):
                c.count("fitting tables")
                for w, (_, o) in zip(ws, self.cols):
                    if not E.entails_eq0(a, w - o):
                        self.fail("a column of a table which fits isn't as wide as its cells")
            for w, (_, o) in zip(ws, self.cols):
                if self.n > 1 and not E.entails(s, o - w):
                    self.fail("a column may be wider than its cells")
        c.need(n or None, "an end of TblFit::fit")
        for o in E.oblig.values():
            if o["kind"].startswith("overflow:Add") or o["kind"].startswith("overflow:Mul"):
                continue
            c.count("panic obligations")
            if not o["ok"]:
                c.violate("panic:%s" % o["kind"], "%s:%d fitting columns may panic (%s): %s" % (o["file"], o["line"], o["kind"], o["detail"][:160]))


def basics(c, P):
    """TblFit::new, TblFit::see_cell, div_ceil"""
    col = c.need(next((p for p in P.adts if p.endswith("tbl_fit::ColData")), None), "ColData")
    fp = {f: place(P, col, f)[0] for f in ("sum_widths", "width", "count")}
    cp, ap = (place(P, FITTER, f)[0] for f in ("cols", "available_sum_width"))
    b = c.need(P.method(FITTER, "new"), "TblFit::new")
    for n in (0, 1, 2, 3):
        r = Run1(P, b, c, unroll=0, max_depth=12)
        E = r.E
        q = Seqs(E, P)
        sh = object.__new__(Shape)
        sh.E, sh.q, sh.P, sh.parts = E, q, P, ()
        E.on_call = sh.calls
        st = r.init
        ints = [i for i, a in enumerate(r.args) if isinstance(a, Lin)]
        names = [b.locals[i + 1].get("n") or "" for i in ints]
        args = list(r.args)
        # (the number of columns comes first)
        args[ints[0]] = Lin(n)
        w = args[ints[1]]
        for s, v in E.call_body(st.copy(), b, args):
            if not E.feasible(s, []):
                continue
            c.count("fitters")
            k = E.variant_of(s, v)
            if k == 1:
                if not E.entails(s, Lin(4 * n) - w):
                    c.violate("new:refused", "%s:%d a table with room for all its columns is refused" % (b.file, b.line))
                continue
            if not E.entails(s, w - 4 * n - 1):
                c.violate("new:accepted", "%s:%d a table without room for its columns isn't refused" % (b.file, b.line))
                continue
            x = v.fields[0] if isinstance(v, Agg) else E.proj(s, v, ("f", 0, 0, tyof(P, FITTER), "0"))
            if not E.entails_eq0(s, E.proj(s, x, ap) - (w - 1 - n)):
                c.violate("new:available", "%s:%d the width available for columns isn't the one without borders" % (b.file, b.line))
            xs = sh.seq(s, E.proj(s, x, cp))
            if xs is None or len(xs) != n:
                c.violate("new:columns", "%s:%d a fitter hasn't a column per column" % (b.file, b.line))
                continue
            for y in xs:
                if not E.entails_eq0(s, E.proj(s, y, fp["width"]) - 3) or not E.entails_eq0(s, E.proj(s, y, fp["sum_widths"])) or not E.entails_eq0(s, E.proj(s, y, fp["count"])):
                    c.violate("new:start", "%s:%d a column isn't initially 3 wide, without any cell" % (b.file, b.line))
    b = c.need(P.method(FITTER, "see_cell"), "TblFit::see_cell")
    for i in (0, 1, 2):
        r = Run1(P, b, c, unroll=0, max_depth=12)
        E = r.E
        q = Seqs(E, P)
        sh = object.__new__(Shape)
        sh.E, sh.q, sh.P, sh.parts = E, q, P, ()
        E.on_call = q.on_call
        st = r.init
        me = E.toref(r.args[0])
        cty = tyof(P, col)
        cols = [E.mk(("seen", k), cty) for k in range(2)]
        E.read(st, me.root, me.path, None)
        E.write(st, me.root, me.path + (cp,), sh.vec(st, cols, cty))
        ints = [k for k, a in enumerate(r.args) if isinstance(a, Lin)]
        args = list(r.args)
        args[ints[0]] = Lin(i)
        w = args[ints[1]]
        for s, _ in E.call_body(st.copy(), b, args):
            if not E.feasible(s, []):
                continue
            c.count("cells seen")
            xs = sh.seq(s, E.read(s, me.root, me.path + (cp,), None))
            if xs is None or len(xs) != 2:
                c.violate("see:columns", "%s:%d seeing a cell changes the columns" % (b.file, b.line))
                continue
            for k, y in enumerate(xs):
                old, new = ({f: E.proj(s, z, p) for f, p in fp.items()} for z in (cols[k], y))
                if k != i:
                    if any(not E.entails_eq0(s, new[f] - old[f]) for f in fp):
                        c.violate("see:other", "%s:%d seeing a cell changes another column" % (b.file, b.line))
                    continue
                if not E.entails(s, new["width"] - w) or not E.entails(s, new["width"] - old["width"]):
                    c.violate("see:width", "%s:%d a column isn't as wide as its widest cell" % (b.file, b.line))
                m = s.copy()
                if E.add_ge(m, new["width"] - w - 1) and E.add_ge(m, new["width"] - old["width"] - 1) and E.feasible(m, []):
                    c.violate("see:width", "%s:%d a column isn't as wide as its widest cell" % (b.file, b.line))
                if not E.entails_eq0(s, new["sum_widths"] - old["sum_widths"] - w) or not E.entails_eq0(s, new["count"] - old["count"] - 1):
                    c.violate("see:average", "%s:%d the cells of a column aren't all counted" % (b.file, b.line))
    bs = [b for b in P.bodies.values() if b.path.endswith("tbl_fit::div_ceil")]
    b = c.need(bs or None, "div_ceil")[0]
    def std(E, fr, blk, st, path, fn, args):
        if path.endswith("::div_ceil") and path != b.path and len(args) == 2 and all(isinstance(x, Lin) for x in args):
            E.obligation(fr, blk, "division", E.entails(st, args[1] - 1), "the divisor isn't proven positive")
            return [(st, E.nat(("divceil", args[0], args[1])))]
    r = Run1(P, b, c, on_call=std, unroll=0)
    E = r.E
    st = r.init
    a, d = r.args
    E.add_ge(st, d - 1)
    for s, k in E.call_body(st.copy(), b, list(r.args)):
        if not E.feasible(s, []):
            continue
        c.count("quotients")
        quo, rem = E.arith(s, "Div", a, d, None), E.arith(s, "Rem", a, d, None)
        E.add_eq(s, E.arith(s, "Mul", quo, d, None) + rem - a)
        if isinstance(k, Lin) and k == E.nat(("divceil", a, d)):
            continue
        if isinstance(k, Lin) and E.entails_eq0(s, k - quo):
            m = s.copy()
            if E.add_ge(m, rem - 1) and E.feasible(m, []):
                c.violate("div_ceil", "%s:%d a quotient may not be rounded to the top" % (b.file, b.line))
        elif isinstance(k, Lin) and E.entails_eq0(s, k - quo - 1):
            m = s.copy()
            if E.add_eq(m, rem) and E.feasible(m, []) and not any(x == rem or x == -rem for x in s.ne):
                c.violate("div_ceil", "%s:%d an exact quotient may be rounded to the top" % (b.file, b.line))
        else:
            c.violate("div_ceil", "%s:%d a quotient isn't the rounded one" % (b.file, b.line))


def finding(c, P, kinds):
    """find_tables, on lines of the given kinds: r (row), u (rule), o (something else)"""
    bs = [b for b in P.bodies.values() if b.path.endswith("tbl::find_tables")]
    b = c.need(bs or None, "find_tables")[0]
    r = Run1(P, b, c, unroll=20, unroll_paths=64, max_states=2000, max_writes=40, adaptors=True)
    E = r.E
    q = Seqs(E, P)
    sh = object.__new__(Shape)
    sh.E, sh.q, sh.P, sh.parts, sh.fty = E, q, P, (), tyof(P, FC)
    E.on_call = q.on_call
    st = r.init
    lty = tyof(P, LINE)
    al = next(f["ty"] for f in P.adts[RULE]["variants"][0]["fields"] if f["name"] == "aligns")
    ls, ns = [], []
    for i, k in enumerate(kinds):
        n = E.nat(("columns", i))
        ns.append(n)
        if k == "o":
            ls.append(sh_other(sh, i, lty))
        elif k == "r":
            ls.append(Agg(LINE, vi(P, LINE, "TableRow"), (Agg(ROW, None, (VecV(("cells", i), n, (), sh.fty),), tyof(P, ROW)),), lty))
        else:
            vals = []
            for f in P.adts[RULE]["variants"][0]["fields"]:
                vals.append(VecV(("aligns", i), n, (), P.types[al]["args"][0]) if f["name"] == "aligns" else E.mk(("rule", i, f["name"]), f["ty"]))
            ls.append(Agg(LINE, vi(P, LINE, "TableRule"), (Agg(RULE, None, tuple(vals), tyof(P, RULE)),), lty))
    a = E.toref(r.args[0])
    E.write(st, a.root, a.path, sh.vec(st, ls, lty))
    want, i = [], 0
    while i < len(kinds):
        if kinds[i] == "o":
            i += 1
            continue
        j = i
        while j < len(kinds) and kinds[j] != "o":
            j += 1
        want.append((i, j))
        i = j
    tp = {f: place(P, TBL, f)[0] for f in ("start", "height", "nbcols")}
    where = "%s:%d " % (b.file, b.line)
    n = 0
    for s, v in E.call_body(st.copy(), b, list(r.args)):
        if not E.feasible(s, []):
            continue
        n += 1
        c.count("tables looked for")
        xs = sh.seq(s, v)
        if xs is None:
            raise fw.Missing("the tables found")
        if len(xs) != len(want):
            c.violate("find:tables", where + "the tables found aren't the sequences of rows and rules")
            continue
        for x, (i, j) in zip(xs, want):
            c.count("tables found")
            got = {f: E.proj(s, x, p) for f, p in tp.items()}
            if not E.entails_eq0(s, got["start"] - i) or not E.entails_eq0(s, got["height"] - (j - i)):
                c.violate("find:lines", where + "a table found hasn't the lines of a sequence of rows and rules")
            k = got["nbcols"]
            if not all(E.entails(s, k - ns[m]) for m in range(i, j)):
                c.violate("find:columns", where + "a table found has less columns than one of its lines")
            m = s.copy()
            if all(E.add_ge(m, k - ns[z] - 1) for z in range(i, j)) and E.feasible(m, []):
                c.violate("find:columns", where + "a table found has more columns than its lines")
    c.need(n or None, "an end of find_tables")


def sh_other(sh, i, lty):
    k = vi(sh.P, LINE, "HorizontalRule" if i % 2 else "Normal")
    return Agg(LINE, k, () if i % 2 else (sh.E.mk(("other", i), sh.fty),), lty)


def fixing(c, P):
    """fix_all_tables: all the tables are fixed, from the last to the first"""
    bs = [b for b in P.bodies.values() if b.path.endswith("tbl::fix_all_tables")]
    b = c.need(bs or None, "fix_all_tables")[0]
    tty = tyof(P, TBL)
    box = {}

    def calls(E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m == "find_tables":
            if E.content(st, args[0]) != box["lines"]:
                c.violate("all:found", "%s:%d the tables are looked for in something else" % (b.file, b.line))
            return [(st, box["sh"].vec(st, [E.mk(("table", i), tty) for i in range(3)], tty))]
        if m == "fix_columns":
            x = E.content(st, args[0])
            good = E.content(st, args[1]) == box["lines"] and isinstance(args[2], Lin) and E.entails_eq0(st, args[2] - box["width"])
            st.setg("fixed", st.g("fixed", ()) + ((x, good),))
            return [(st, UNIT)]
        return box["q"].on_call(E, fr, blk, st, path, fn, args)
    r = Run1(P, b, c, on_call=calls, unroll=20, unroll_paths=64, max_writes=40, adaptors=True)
    E = r.E
    q = box["q"] = Seqs(E, P)
    sh = box["sh"] = object.__new__(Shape)
    sh.E, sh.q, sh.P = E, q, P
    box["lines"] = E.content(r.init, r.args[0])
    box["width"] = next(a for a in r.args if isinstance(a, Lin))
    for s, _ in c.need(r.go() or None, "an end of fix_all_tables"):
        c.count("documents")
        log = s.g("fixed", ())
        ks = [x if isinstance(x, tuple) and x[0] == "table" else x[1] if isinstance(x, tuple) and x[0] in ("*", "S") else x for x, _ in log]
        if ks != [("table", i) for i in (2, 1, 0)] or not all(g for _, g in log):
            c.violate("all:order", "%s:%d the tables aren't all fixed, from the last one to the first" % (b.file, b.line))


def job2(a):
    tier, kind, n = a
    c = fw.Check("B02", tier)
    P = c.prog()
    try:
        if kind == "widths":
            Widths(c, P, n).check()
        else:
            basics(c, P)
    except fw.Missing as e:
        c.violate("anchor:%s:%s" % (kind, n), str(e))
    return c.viol, c.counts


def b02(c):
    c.rule = "TblFit is interpreted on 0, 1 and 2 columns of any widths: the widths given are at least 3, at most the ones of the cells, and their sum is at most the width available."
    c.prog()
    for viol, counts in fw.pmap(job2, [(c.tier, "widths", 2), (c.tier, "widths", 1), (c.tier, "widths", 0), (c.tier, "basics", 0)]):
        for k, x in viol.items():
            c.violate(k, x)
        for k, m in counts.items():
            c.count(k, m)
    c.floor("ends of the fitter", 20)
    c.floor("fitting tables", 3)
    c.floor("fitters", 5)
    c.floor("cells seen", 3)
    c.floor("quotients", 1)
