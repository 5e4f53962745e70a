"""What gets written for lines, tables, rules and texts (R..)."""
import absint, models
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE
from models import OPT, RES, NONE, some, norm, runs
from effmod import leaves, Run
from outmod import Out, OUT, RAW, cells, showrun, chkey, canon
from skin import SKIN, SC, CS, LS, stops, adt_ty, same, show, os_field, sc_fields, static_of, coherent, parts, field, TBC

FC = "termimad::composite::FmtComposite"
SP = "termimad::spacing::Spacing"
KIND = "termimad::composite_kind::CompositeKind"
SPACE = ("c", 32)
MUTED = ("padl", "padr", "marl", "marr")


class Summaries:
    """calls taken by their specification (each is checked by a rule of its own): Spacing::completions as two atoms
    padl/padr(align, inner, outer), margins_in as marl/marr, compound_style as one style term"""

    def __init__(self, P, which=("completions", "margins_in", "compound_style", "repeat_char", "repeat_string", "repeat_space")):
        self.P = P
        self.which = which

    def __call__(self, E, fr, blk, st, path, fn, args):
        n = path.split("::")[-1]
        if n not in self.which:
            return None
        if path == SP + "::completions" and len(args) == 3:
            a = E.content(st, args[0])
            inner, outer = args[1], args[2]
            if not isinstance(inner, Lin) or not isinstance(outer, Lin):
                return None
            return [(st, pads(E, st, a, inner, outer))]
        if path == LS + "::margins_in":
            r = E.toref(args[0])
            o = E.content(st, args[1])
            k = ("ref", r.root, tuple(x[:2] for x in r.path)) if r else E.termof(args[0])
            return [(st, Agg("tuple", None, (E.nat(("marl", k, o)), E.nat(("marr", k, o)))))]
        if path in (CS + "::repeat_char", CS + "::repeat_string", CS + "::repeat_space") and E.out.is_dest(st, args[1]):
            r = E.toref(args[0])
            if r is None or not isinstance(args[-1], Lin):
                return None
            sty = E.content(st, rd(E, st, r, (os_field(self.P),), os_field(self.P)[3]))
            if n == "repeat_space":
                unit = ("o", sty, SPACE)
            elif n == "repeat_char":
                unit = ("o", sty, chkey(E.termof(args[2])))
            else:
                con = E.content(st, args[2])
                rs = runs(con)
                if len(rs) != 1 or rs[0][1] != Lin(1):
                    return None
                unit = ("o", sty, chkey(canon(E, rs[0][0][1]))) if rs[0][0][0] == "ch" else ("os", sty, con)
            s = st.copy()
            E.out.put(s, unit, args[-1])
            return [(s, models.ok(models.UNIT))]
        if path == SKIN + "::compound_style":
            t = P_style(E, args)
            return [(st, E.mk(("cstyle",) + tuple(E.termof(a) for a in args[1:]), adt_ty(self.P, CS)))]
        return None


def P_style(E, args):
    return None


def pads(E, st, align, inner, outer):
    k = (align, ("lin", inner), ("lin", outer))
    l, r = E.nat(("padl",) + k), E.nat(("padr",) + k)
    return Agg("tuple", None, (l, r))


def rd(E, st, ref, path, ty=None):
    return E.read(st, ref.root, ref.path + tuple(path), ty)


def fidx(P, adt, name):
    for i, f in enumerate(P.adts[adt]["variants"][0]["fields"]):
        if f["name"] == name:
            return ("f", i, None, f["ty"], name)
    raise KeyError("%s.%s" % (adt, name))


def place(P, adt, dotted):
    """place steps of a dotted field name"""
    out = []
    for x in dotted.split("."):
        e = fidx(P, adt, x)
        out.append(e)
        t = P.types[e[3]]
        adt = t.get("path")
    return tuple(out)


def style_term(P, E, st, skin, dotted):
    """content of the ContentStyle at a dotted place of the skin"""
    p = place(P, SKIN, dotted)
    return E.content(st, rd(E, st, skin, p, p[-1][3]))


def norm_runs(E, st, rs):
    """drop empty runs, merge equal neighbours"""
    out = []
    for u, n in rs:
        if E.entails_eq0(st, n):
            continue
        if out and out[-1][0] == u:
            out[-1] = (u, out[-1][1] + n)
        else:
            out.append((u, n))
    return out


def equal_runs(E, st, a, b):
    a, b = norm_runs(E, st, a), norm_runs(E, st, b)
    if len(a) != len(b):
        return False
    for (u, n), (v, m) in zip(a, b):
        if u != v or not E.entails_eq0(st, n - m):
            return False
    return True


def showruns(E, rs):
    return " ".join(showrun(E, r) for r in rs)[:500] or "nothing"


def bval(E, st, v):
    return E.truth(st, E.asf(v))


def split_bool(E, sts, v):
    """states in which a bool is known"""
    out = []
    for st in sts:
        f = E.asf(v)
        k = E.truth(st, f)
        if k is not None:
            out.append((st, k))
            continue
        for val in (True, False):
            s = st.copy()
            if E.assume(s, f, val):
                out.append((s, val))
    return out


def split_enum(E, P, st, v, path):
    """states for each variant: [(state, variant name, index)]"""
    vs = P.adts[path]["variants"] if path in P.adts else [{"name": "None"}, {"name": "Some"}]
    k = E.variant_of(st, v)
    out = []
    for i, x in enumerate(vs):
        if k is not None:
            if i == k:
                out.append((st, x["name"], i))
            continue
        s = st.copy()
        if E.add_eq(s, E.atom(("disc", E.termof(v))) - E.discr_val(path, i)) and E.feasible(s, []):
            s.disc[E.termof(v)] = E.discr_val(path, i)
            out.append((s, x["name"], i))
    return out


MODE = "termimad::list_indentation::ListItemsIndentationMode"


def prefix_spec(P, E, st, skin, kind, kname, ki, mode):
    """runs written before the compounds of a composite, per kind"""
    para = style_term(P, E, st, skin, "paragraph.compound_style.object_style")

    def sc(name):
        s, c, k = sc_fields(P)
        base = place(P, SKIN, name)
        sty = E.content(st, rd(E, st, skin, base + (s, os_field(P)), os_field(P)[3]))
        ch = chkey(E.termof(rd(E, st, skin, base + (c,), c[3])))
        return (("o", sty, ch), Lin(1))
    sp = ("o", para, SPACE)
    if kname in ("ListItem", "ListItemFollowUp"):
        d = E.proj(st, kind, ("f", 0, ki, None, "0"))
        d = d if isinstance(d, Lin) else E.atom(E.termof(d), None, 0, 255)
        if kname == "ListItem":
            return [(sp, d), sc("bullet"), (sp, Lin(1))]
        if mode == "Block":
            return [(sp, d + 2)]
        return []
    if kname == "Quote":
        return [sc("quote_mark"), (sp, Lin(1))]
    return []


class Composite:
    """write_fmt_composite run on a symbolic skin and a composite of n compounds"""

    def __init__(self, c, P, n, special=False):
        self.c, self.P = c, P
        b = self.b = c.need(P.method(SKIN, "write_fmt_composite"), "MadSkin::write_fmt_composite")
        self.o = Out(P, on_call=Summaries(P), unroll_paths=20, max_states=9000 * 4 ** max(0, n - 2))
        E = self.E = self.o.E
        st = self.o.init()
        self.args = [E.mk(("arg", i + 1), b.locals[i + 1]["t"]) for i in range(b.argc)]
        self.ix = {}
        for i in range(b.argc):
            t = P.types[b.locals[i + 1]["t"]]
            u = P.types[t["ty"]] if t["k"] == "ref" else t
            p = u.get("path", "")
            if p == SKIN:
                self.ix["skin"] = i
            elif p == FC:
                self.ix["fc"] = i
            elif p.endswith("::Formatter"):
                self.ix["f"] = i
            elif p == OPT:
                self.ix["outer"] = i
            elif t["k"] == "bool":
                self.ix.setdefault("bools", []).append(i)
        c.need(True if {"skin", "fc", "f", "outer", "bools"} <= set(self.ix) and len(self.ix["bools"]) == 2 else None,
               "the arguments of write_fmt_composite")
        self.args[self.ix["f"]] = self.o.dest()
        self.skin = E.toref(self.args[self.ix["skin"]])
        self.fc = E.toref(self.args[self.ix["fc"]])
        E.root_val(st, self.skin.root, P.types[b.locals[self.ix["skin"] + 1]["t"]]["ty"])
        for nm, p in parts(P, adt_ty(P, SKIN)):
            coherent(P, E, st, self.skin.root, p)
        # no special char
        sp = [f for f in P.adts[SKIN]["variants"][0]["fields"] if f["name"] == "special_chars"]
        self.comps = place(P, FC, "compounds")
        v = rd(E, st, self.fc, self.comps, self.comps[-1][3])
        self.vec = VecV(v.term, Lin(n), (), v.ety)
        E.write(st, self.fc.root, self.fc.path + self.comps, self.vec)
        self.n = n
        self.init = st
        self.outs = [(s, v) for s, v in E.call_body(st.copy(), b, list(self.args)) if E.variant_of(s, v) != 1]


def compound_unit(P, E, st, run, i):
    """(replaced, unit) accepted for compound i: its source text with the composed style"""
    cv = E.elem(st, run.vec, Lin(i), run.vec.ety)
    return cv


def r01(c):
    c.rule = ("write_fmt_composite is run on a symbolic skin and composite of every kind, mode, alignment option and margins "
              "option, with 0, 1 and 2 compounds; on each path the sequence of written runs (char, style, count) must be: left "
              "completion and margin in the paragraph style, inner left completion in the line style, the marks of the kind, "
              "each compound once in order, inner right completion, then the right completion only if asked for. "
              "Completions and margins are the (separately checked) functions of the line's align, widths and margins.")
    for cfg in ("default", "nodefault"):
        # three compounds only where no special char may be replaced: the combinations stay enumerable
        for n in ((0, 1, 2, 3) if c.tier == "thorough" and cfg == "nodefault" else (0, 1, 2)):
            composite_of(c, c.prog(cfg), n)
    c.floor("combinations", 300)
    c.floor("cases", 900)


def composite_of(c, P, n):
        r = Composite(c, P, n)
        E, b = r.E, r.b
        c.need(r.outs or None, "a success path of write_fmt_composite")
        fcr, sk = r.fc, r.skin
        kp = place(P, FC, "kind")
        kind = rd(E, r.init.copy(), fcr, kp, kp[-1][3])
        modep = place(P, SKIN, "list_items_indentation_mode")
        mode = rd(E, r.init.copy(), sk, modep, modep[-1][3])
        spp = place(P, FC, "spacing")
        spacing = rd(E, r.init.copy(), fcr, spp, spp[-1][3])
        vl = rd(E, r.init.copy(), fcr, place(P, FC, "visible_length"), place(P, FC, "visible_length")[-1][3])
        outer = r.args[r.ix["outer"]]
        seen = set()
        for st0, v in r.outs:
            sts = [(st0, None, None)]
            cases = []
            for s1, kn, ki in split_enum(E, P, st0, kind, KIND):
                for s2, mn, mi in split_enum(E, P, s1, mode, MODE):
                    for s3, on, oi in split_enum(E, P, s2, outer, OPT):
                        for s4, pn, pi in split_enum(E, P, s3, spacing, OPT):
                            for s5, rc in split_bool(E, [s4], r.args[r.ix["bools"][0]]):
                                for s6, wm in split_bool(E, [s5], r.args[r.ix["bools"][1]]):
                                    cases.append((s6, kn, ki, mn, on, pn, rc, wm))
            for st, kn, ki, mn, on, pn, rc, wm in cases:
                c.count("cases")
                seen.add((kn, mn, on, pn, rc, wm))
                check_composite(c, P, r, st, kn, ki, mn, on, pn, rc, wm, kind, spacing, vl, outer)
        c.count("compound counts")
        if len({k for k, *_ in seen}) < len(P.adts[KIND]["variants"]):
            c.violate("r01:kinds", "not every kind of composite is written")
        if n == 0:
            c.count("combinations", len(seen))


def check_composite(c, P, r, st, kn, ki, mn, on, pn, rc, wm, kind, spacing, vl, outer):
    E, b, sk = r.E, r.b, r.skin
    got = r.o.runs(st)
    desc = "%s%s%s%s%s%s" % (kn, " (%s)" % mn if kn == "ListItemFollowUp" else "", ", width given" if on == "Some" else "",
                             ", with spacing" if pn == "Some" else "", ", right completion" if rc else "",
                             ", margins" if wm else "")
    para = style_term(P, E, st, sk, "paragraph.compound_style.object_style")
    # the line style
    lsname = {"Code": "code_block"}.get(kn, "paragraph")
    cand = [place(P, SKIN, lsname)]
    if kn == "Header":
        lvl = E.proj(st, kind, ("f", 0, ki, None, "0"))
        lvl = lvl if isinstance(lvl, Lin) else E.atom(E.termof(lvl), None, 0, 255)
        hp = place(P, SKIN, "headers")
        ety = P.types[hp[-1][3]]["ty"]
        h8, h9 = st.copy(), st.copy()
        cand = []
        if E.add_ge(h8, Lin(8) - lvl) and E.add_ge(h8, lvl - 1) and E.feasible(h8, []):
            cand.append((hp + (("e", lvl - 1, ety),), h8))
        if E.add_ge(h9, lvl - 9) and E.feasible(h9, []):
            cand.append((place(P, SKIN, "paragraph"), h9))
    else:
        cand = [(cand[0], st)]
    for lsp, s in cand:
        lst = E.content(s, rd(E, s, sk, lsp + (fidx(P, LS, "compound_style"), os_field(P)), os_field(P)[3]))
        align = E.content(s, rd(E, s, sk, lsp + (fidx(P, LS, "align"),), fidx(P, LS, "align")[3]))
        if wm:
            k = ("ref", sk.root, tuple(x[:2] for x in sk.path + lsp))
            oc = E.content(s, outer)
            ml, mr = E.nat(("marl", k, oc)), E.nat(("marr", k, oc))
        else:
            ml = mr = Lin(0)
        if pn == "Some":
            so = E.proj(s, spacing, ("f", 0, 1, P.types[place(P, FC, "spacing")[-1][3]]["args"][0], "0"))
            sw = E.proj(s, so, fidx(P, SP, "width"))
            sa = E.content(s, E.proj(s, so, fidx(P, SP, "align")))
            lpi, rpi = pads(E, s, sa, vl, sw).fields
            inner = sw
        else:
            lpi = rpi = Lin(0)
            inner = vl
        if on == "Some":
            ow = E.proj(s, outer, ("f", 0, 1, None, "0"))
            ow = ow if isinstance(ow, Lin) else E.atom(E.termof(ow), None, 0)
            lpo, rpo = pads(E, s, align, inner + ml + mr, ow).fields
        else:
            lpo = rpo = Lin(0)
        want = [(("o", para, SPACE), lpo + ml), (("o", lst, SPACE), lpi)]
        want += prefix_spec(P, E, s, sk, kind, kn, ki, mn)
        tail = [(("o", lst, SPACE), rpi)]
        if rc:
            tail += [(("o", para, SPACE), rpo + mr)]
        # the compounds
        mid = compounds_of(P, r, s, got, lsp)
        if mid is None:
            c.violate("composite:%s:compounds" % kn, "%s:%d the %d compounds of a composite (%s) aren't each written once in order "
                      "with their composed style: %s" % (b.file, b.line, r.n, desc, showruns(E, got)))
            continue
        i, j = mid
        if r.n == 0:
            if not equal_runs(E, s, got, want + tail):
                c.violate("composite:%s:empty" % kn, "%s:%d for an empty composite (%s), what's written is %s instead of %s" %
                          (b.file, b.line, desc, showruns(E, got), showruns(E, norm_runs(E, s, want + tail))))
        elif not equal_runs(E, s, got[:i], want) or not equal_runs(E, s, got[j:], tail):
            c.violate("composite:%s:%s" % (kn, "before" if not equal_runs(E, s, got[:i], want) else "after"),
                      "%s:%d for a composite (%s), what's written around the compounds is %s … %s instead of %s … %s" %
                      (b.file, b.line, desc, showruns(E, got[:i]), showruns(E, got[j:]),
                       showruns(E, norm_runs(E, s, want)), showruns(E, norm_runs(E, s, tail))))


def compounds_of(P, r, st, got, lsp):
    """(start, end) of the runs of the compounds, or None"""
    E = r.E
    start = None
    k = 0
    end = None
    srci = None
    for idx, (u, n) in enumerate(got):
        if u[0] == "os":
            if start is None:
                start = idx
            if end is not None and idx != end:
                return None
            if not is_compound(P, r, st, u, n, k, lsp) and not replaced(P, r, st, u, n, k):
                return None
            k += 1
            end = idx + 1
    if k != r.n:
        return None
    return (start, end) if r.n else (0, 0)


def is_compound(P, r, st, u, n, k, lsp):
    E = r.E
    if n != Lin(1):
        return False
    cv = E.elem(st, r.vec, Lin(k), r.vec.ety)
    src = E.content(st, E.proj(st, cv, cfield(P, r.vec.ety, "src")))
    src = getattr(src, "term", src)
    cvt = ("Compound::as_str", E.termof(cv))
    if u[2] not in (src, ("*", src), cvt, ("*", cvt)):
        return False
    # style: compound_style(line style, this compound)
    sty = repr(u[1])
    if "cstyle" not in sty:
        return False
    cref = repr(E.termof(cv)) if not isinstance(cv, Sym) else repr(cv.term)
    i = find_term(u[1], "cstyle")
    if i is None or len(i) < 3:
        return False
    a, bb = i[1], i[2]
    lref = Ref(r.skin.root, r.skin.path + lsp, None)
    if not same_ref(E, st, a, lref):
        return False
    return "compounds" in repr(bb) and elem_index(E, st, bb) == k


def find_term(t, head):
    if isinstance(t, tuple):
        if t and t[0] == head:
            return t
        for x in t:
            y = find_term(x, head)
            if y is not None:
                return y
    return None


def elem_index(E, st, t):
    """index of the compounds element a reference term points to"""
    if isinstance(t, tuple):
        if len(t) >= 2 and t[0] == "e":
            for x in t[1:]:
                if isinstance(x, Lin) and not x.t:
                    return x.c
                if isinstance(x, tuple) and x and x[0] == "lin" and not x[1].t:
                    return x[1].c
        for x in t:
            y = elem_index(E, st, x)
            if y is not None:
                return y
    return None


def same_ref(E, st, term, ref):
    if not (isinstance(term, tuple) and term and term[0] == "ref"):
        return False
    if term[1] != ref.root:
        return False
    p = [x for x in term[2]]
    q = [x for x in ref.path]
    if len(p) != len(q):
        return False
    for x, y in zip(p, q):
        if x[0] != y[0]:
            return False
        if x[0] == "e":
            lx = x[1][1] if isinstance(x[1], tuple) else x[1]
            if not E.entails_eq0(st, lx - y[1]):
                return False
        elif x[1] != y[1]:
            return False
    return True


def cfield(P, cty, name):
    t = P.types[cty]
    return fidx(P, t["path"], name)


def replaced(P, r, st, u, n, k):
    """the replacement of compound k found in the special chars of the skin"""
    if n != Lin(1) or u[0] not in ("os", "o") or u[1] is not RAW and "special_chars" not in repr(u[1]):
        return False
    t = find_term(u[2], "HashMap::get")
    return t is not None and "special_chars" in repr(t[1]) and "compounds" in repr(t[2]) and elem_index(r.E, st, t[2]) == k


# ------------------------------------------------------------------ R02: lines
LINE = "termimad::line::FmtLine"
ROW = "termimad::tbl::FmtTableRow"
RULE_ = "termimad::tbl::FmtTableRule"
POS = "termimad::tbl::RelativePosition"
TB = "termimad::table_border_chars::TableBorderChars"


def argmap(P, b):
    """argument indexes by the path of their (referenced) type; bools and ints as lists"""
    out = {}
    for i in range(b.argc):
        t = P.types[b.locals[i + 1]["t"]]
        u = P.types[t["ty"]] if t["k"] == "ref" else t
        k = u.get("path") or u["k"]
        out.setdefault(k.split("::")[-1], []).append(i)
    return out


class Deleg:
    """wraps Summaries: calls of some skin functions are written as one unit ("call", name, args...)"""

    def __init__(self, P, names, **kw):
        self.inner = Summaries(P, **kw)
        self.P, self.names = P, names

    def __call__(self, E, fr, blk, st, path, fn, args):
        if path in self.names:
            d = [i for i, a in enumerate(args) if E.out.is_dest(st, a)]
            if d:
                s = st.copy()
                us = []
                for i, a in enumerate(args):
                    if i in d:
                        continue
                    us.append(argkey(E, st, a))
                E.out.put(s, ("call", path.split("::")[-1], tuple(us)))
                return [(s, models.ok(models.UNIT))]
        return self.inner(E, fr, blk, st, path, fn, args)


def argkey(E, st, a):
    r = E.toref(a) if isinstance(a, Ref) or isinstance(a, Sym) and a.ty is not None and E.tyk(a.ty) == "ref" else None
    if r is not None:
        return ("ref", r.root, tuple(x[:2] for x in r.path))
    if isinstance(a, BoolV):
        k = E.truth(st, E.asf(a))
        return ("bool", k) if k is not None else E.termof(a)
    return E.content(st, a)


def refkey(ref, path=()):
    return ("ref", ref.root, tuple(x[:2] for x in tuple(ref.path) + tuple(path)))


def vfield(P, adt, variant, i=0):
    for vi, v in enumerate(P.adts[adt]["variants"]):
        if v["name"] == variant:
            f = v["fields"][i]
            return ("f", i, vi, f["ty"], f["name"]), vi
    raise KeyError("%s::%s" % (adt, variant))


def set_len(P, E, st, ref, path, n):
    v = rd(E, st, ref, path, path[-1][3])
    v = VecV(v.term, Lin(n), (), v.ety)
    E.write(st, ref.root, ref.path + tuple(path), v)
    return v


class Lines:
    def __init__(self, c, P, variant, n):
        b = self.b = c.need(P.method(SKIN, "write_fmt_line"), "MadSkin::write_fmt_line")
        self.P, self.c, self.n, self.variant = P, c, n, variant
        self.o = Out(P, on_call=Deleg(P, (SKIN + "::write_fmt_composite",)), unroll_paths=20, max_states=9000)
        E = self.E = self.o.E
        st = self.o.init()
        self.args = [E.mk(("arg", i + 1), b.locals[i + 1]["t"]) for i in range(b.argc)]
        m = argmap(P, b)
        for k in ("MadSkin", "Formatter", "FmtLine", "Option", "bool"):
            c.need(m.get(k), "the %s argument of write_fmt_line" % k)
        self.args[m["Formatter"][0]] = self.o.dest()
        self.skin = E.toref(self.args[m["MadSkin"][0]])
        self.line = E.toref(self.args[m["FmtLine"][0]])
        self.width = self.args[m["Option"][0]]
        self.rc = self.args[m["bool"][0]]
        E.root_val(st, self.skin.root, adt_ty(P, SKIN))
        for nm, p in parts(P, adt_ty(P, SKIN)):
            coherent(P, E, st, self.skin.root, p)
        lv = rd(E, st, self.line, (), adt_ty(P, LINE))
        got = [(s, v) for s, v, _ in split_enum(E, P, st, lv, LINE) if v == variant]
        c.need(got or None, "the %s line" % variant)
        self.init = got[0][0]

    def go(self):
        E = self.E
        return [(s, v) for s, v in E.call_body(self.init.copy(), self.b, list(self.args)) if E.variant_of(s, v) != 1]


def r02(c):
    c.rule = ("write_fmt_line is run on each kind of line of a symbolic skin: table rows of 0 to 3 cells, table rules of 0 to 3 "
              "columns at each position, horizontal rules and normal lines, with and without a width and the right completion. "
              "The written sequence must be exactly: left completion of the table, then per cell the vertical border and the "
              "composite of the cell, the closing border, resp. corner, horizontals, junctions, corner of the position; the "
              "right completion only if asked for; a horizontal rule is its char repeated `width` times.")
    P = c.prog()
    for n in range(5 if c.tier == "thorough" else 4):
        row(c, P, n)
        tblrule(c, P, n)
    hrule(c, P)
    normal(c, P)
    c.floor("written sequences checked", 50)


def table_units(P, E, st, skin):
    tst = style_term(P, E, st, skin, "table.compound_style.object_style")
    bp = place(P, SKIN, "table_border_chars")
    ref = Ref(skin.root, skin.path + bp, bp[-1][3])
    base = bp
    t = P.types[bp[-1][3]]
    while t["k"] == "ref":
        r = E.toref(rd(E, st, skin, bp, bp[-1][3]))
        ref, base = r, None
        t = P.types[t["ty"]]
        bp = ()
        skin = r

    def ch(name):
        f = fidx(P, TB, name)
        v = E.read(st, ref.root, ref.path + (f,), f[3])
        return (("o", tst, chkey(canon(E, E.termof(v)))), Lin(1))
    return tst, ch


def width_cases(P, E, st0, width, rc):
    for s1, on, oi in split_enum(E, P, st0, width, OPT):
        for s2, k in split_bool(E, [s1], rc):
            w = None
            if on == "Some":
                w = E.proj(s2, width, ("f", 0, 1, None, "0"))
                w = w if isinstance(w, Lin) else E.atom(E.termof(w), None, 0)
            yield s2, w, k


def expect(c, b, E, st, key, desc, got, want):
    c.count("written sequences checked")
    if not equal_runs(E, st, got, want):
        c.violate(key, "%s:%d for %s, what's written is %s instead of %s" %
                  (b.file, b.line, desc, showruns(E, norm_runs(E, st, got)), showruns(E, norm_runs(E, st, want))))


def row(c, P, n):
    r = Lines(c, P, "TableRow", n)
    E = r.E
    f0, vi = vfield(P, LINE, "TableRow")
    cp = (f0,) + place(P, ROW, "cells")
    vec = set_len(P, E, r.init, r.line, cp, n)
    c.need(r.go() or None, "a success path for table rows")
    for st0, v in r.go():
        sts = [(st0, Lin(1))]
        for i in range(n):
            nxt = []
            el = ("e", Lin(i), vec.ety)
            sp = place(P, FC, "spacing")
            vl = place(P, FC, "visible_length")
            for s, tot in sts:
                spv = rd(E, s, r.line, cp + (el,) + sp, sp[-1][3])
                for s2, on, _ in split_enum(E, P, s, spv, OPT):
                    if on == "Some":
                        so = E.proj(s2, spv, ("f", 0, 1, P.types[sp[-1][3]]["args"][0], "0"))
                        w = E.proj(s2, so, fidx(P, SP, "width"))
                    else:
                        w = rd(E, s2, r.line, cp + (el,) + vl, vl[-1][3])
                    nxt.append((s2, tot + w + 1))
            sts = nxt
        for s, tot in sts:
            for st, w, rc in width_cases(P, E, s, r.width, r.rc):
                para = style_term(P, E, st, r.skin, "paragraph.compound_style.object_style")
                tst, ch = table_units(P, E, st, r.skin)
                ap = place(P, SKIN, "table.align")
                al = E.content(st, rd(E, st, r.skin, ap, ap[-1][3]))
                lpo, rpo = pads(E, st, al, tot, w).fields if w is not None else (Lin(0), Lin(0))
                want = [(("o", para, SPACE), lpo)]
                for i in range(n):
                    want.append(ch("vertical"))
                    want.append((("call", "write_fmt_composite", comp_args(P, E, st, r, cp, vec, i)), Lin(1)))
                want.append(ch("vertical"))
                if rc:
                    want.append((("o", para, SPACE), rpo))
                expect(c, r.b, E, st, "row:%d" % n, "a table row of %d cells%s%s" %
                       (n, ", width given" if w is not None else "", ", right completion" if rc else ""), r.o.runs(st), want)


def comp_args(P, E, st, r, cp, vec, i):
    out = []
    # by the declared order of the arguments of write_fmt_composite, without the formatter
    b = r.c.need(P.method(SKIN, "write_fmt_composite"), "MadSkin::write_fmt_composite")
    bools = 0
    for k in range(b.argc):
        t = P.types[b.locals[k + 1]["t"]]
        u = P.types[t["ty"]] if t["k"] == "ref" else t
        p = (u.get("path") or u["k"])
        if p == SKIN:
            out.append(refkey(r.skin))
        elif p == FC:
            out.append(refkey(r.line, cp + (("e", Lin(i)),)) if vec is not None else refkey(r.line, cp))
        elif p.endswith("Formatter"):
            continue
        elif p == OPT:
            out.append(E.content(st, models.none(b.locals[k + 1]["t"]) if hasattr(models, "none") else NONE) if vec is not None
                       else E.content(st, r.width))
        elif u["k"] == "bool":
            if vec is not None:
                out.append(("bool", False))
            elif bools == 0:
                out.append(argkey(E, st, r.rc))
            else:
                out.append(("bool", True))
            bools += 1
    return tuple(out)


def normal(c, P):
    r = Lines(c, P, "Normal", 0)
    E = r.E
    f0, vi = vfield(P, LINE, "Normal")
    outs = c.need(r.go() or None, "a success path for normal lines")
    for st0, v in outs:
        for st, w, rc in width_cases(P, E, st0, r.width, r.rc):
            want = [(("call", "write_fmt_composite", comp_args(P, E, st, r, (f0,), None, 0)), Lin(1))]
            t = E.termof(r.rc)
            got = [(("call", u[1], tuple(("bool", rc) if a == t else a for a in u[2])) if u[0] == "call" else u, k)
                   for u, k in r.o.runs(st)]
            expect(c, r.b, E, st, "normal", "a normal line", got, want)


def hrule(c, P):
    r = Lines(c, P, "HorizontalRule", 0)
    E = r.E
    outs = c.need(r.go() or None, "a success path for horizontal rules")
    s, k, _ = sc_fields(P)
    base = place(P, SKIN, "horizontal_rule")
    for st0, v in outs:
        for st, w, rc in width_cases(P, E, st0, r.width, r.rc):
            sty = E.content(st, rd(E, st, r.skin, base + (s, os_field(P)), os_field(P)[3]))
            ch = chkey(canon(E, E.termof(rd(E, st, r.skin, base + (k,), k[3]))))
            want = [(("o", sty, ch), w)] if w is not None else []
            expect(c, r.b, E, st, "hrule", "a horizontal rule%s" % (", width given" if w is not None else ""), r.o.runs(st), want)


RULECH = {"Top": ("top_left_corner", "top_junction", "top_right_corner"),
          "Other": ("left_junction", "cross", "right_junction"),
          "Bottom": ("bottom_left_corner", "bottom_junction", "bottom_right_corner")}


def tblrule(c, P, n):
    r = Lines(c, P, "TableRule", n)
    E = r.E
    f0, vi = vfield(P, LINE, "TableRule")
    wp = (f0,) + place(P, RULE_, "widths")
    vec = set_len(P, E, r.init, r.line, wp, n)
    pp = (f0,) + place(P, RULE_, "position")
    pv = rd(E, r.init, r.line, pp, pp[-1][3])
    outs = c.need(r.go() or None, "a success path for table rules")
    ws = [rd(E, r.init, r.line, wp + (("e", Lin(i), vec.ety),), vec.ety) for i in range(n)]
    tot = Lin(1)
    for x in ws:
        tot = tot + x + 1
    for st0, v in outs:
        for s, pn, _ in split_enum(E, P, st0, pv, POS):
            for st, w, rc in width_cases(P, E, s, r.width, r.rc):
                para = style_term(P, E, st, r.skin, "paragraph.compound_style.object_style")
                tst, ch = table_units(P, E, st, r.skin)
                ap = place(P, SKIN, "table.align")
                al = E.content(st, rd(E, st, r.skin, ap, ap[-1][3]))
                lpo, rpo = pads(E, st, al, tot, w).fields if w is not None else (Lin(0), Lin(0))
                l, m, rr = RULECH[pn]
                want = [(("o", para, SPACE), lpo), ch(l)]
                for i in range(n):
                    if i:
                        want.append(ch(m))
                    want.append((ch("horizontal")[0], ws[i]))
                want.append(ch(rr))
                if rc:
                    want.append((("o", para, SPACE), rpo))
                expect(c, r.b, E, st, "rule:%s:%d" % (pn, n), "a table rule (%s, %d columns%s%s)" %
                       (pn, n, ", width given" if w is not None else "", ", right completion" if rc else ""), r.o.runs(st), want)


# ------------------------------------------------------------------ R03: Display implementations
def display_of(P, c, suffix):
    for b in P.bodies.values():
        if b.kind == "fn" and b.name == "fmt" and (b.impl_of or "").endswith("fmt::Display") and \
                (P.self_adt(b) or "").endswith("::" + suffix):
            return b
    c.need(None, "the Display implementation of %s" % suffix)


class Disp:
    def __init__(self, c, P, suffix):
        b = self.b = display_of(P, c, suffix)
        self.P, self.adt = P, P.self_adt(b)
        self.o = Out(P, on_call=Deleg(P, (SKIN + "::write_fmt_composite", SKIN + "::write_fmt_line")))
        self.E = E = self.o.E
        self.init = self.o.init()
        self.args = [E.mk(("arg", 1), b.locals[1]["t"]), self.o.dest()]
        self.self_ = E.toref(self.args[0])

    def go(self):
        return [(s, v) for s, v in self.E.call_body(self.init.copy(), self.b, list(self.args)) if self.E.variant_of(s, v) != 1]

    def field(self, name):
        return place(self.P, self.adt, name)

    def val(self, st, name):
        p = self.field(name)
        return rd(self.E, st, self.self_, p, p[-1][3])

    def key(self, st, name):
        return argkey(self.E, st, self.val(st, name))


def call_args(P, E, c, fname, by):
    """argument keys of a delegated call in the declared order; by: type name -> list of keys"""
    b = c.need(P.method(SKIN, fname), "MadSkin::" + fname)
    by = {k: list(v) for k, v in by.items()}
    out = []
    for i in range(b.argc):
        t = P.types[b.locals[i + 1]["t"]]
        u = P.types[t["ty"]] if t["k"] == "ref" else t
        k = (u.get("path") or u["k"]).split("::")[-1]
        if k == "Formatter":
            continue
        out.append(by[k].pop(0))
    return tuple(out)


def r03(c):
    c.rule = ("The Display implementations of FmtText, FmtInline and DisplayableLine are run on symbolic values (texts of 0 to 4 "
              "lines): each line must be written once, in order, by write_fmt_line with the skin and width of the text and no "
              "right completion, followed by one newline; a DisplayableLine is its line with right completion; a FmtInline is "
              "its composite without width.")
    P = c.prog()
    for n in range(7 if c.tier == "thorough" else 5):
        d = Disp(c, P, "FmtText")
        E = d.E
        if n == 0:
            pass
        vec = set_len(P, E, d.init, d.self_, d.field("lines"), n)
        outs = c.need(d.go() or None, "a success path of the Display of FmtText")
        for st, v in outs:
            want = []
            for i in range(n):
                line = refkey(d.self_, d.field("lines") + (("e", Lin(i)),))
                want.append((("call", "write_fmt_line", call_args(P, E, c, "write_fmt_line", {
                    "MadSkin": [d.key(st, "skin")], "FmtLine": [line], "Option": [d.key(st, "width")],
                    "bool": [("bool", False)]})), Lin(1)))
                want.append((("o", RAW, ("c", 10)), Lin(1)))
            expect(c, d.b, E, st, "text:%d" % n, "a text of %d lines" % n, d.o.runs(st), want)
    d = Disp(c, P, "DisplayableLine")
    E = d.E
    for st, v in c.need(d.go() or None, "a success path of the Display of DisplayableLine"):
        want = [(("call", "write_fmt_line", call_args(P, E, c, "write_fmt_line", {
            "MadSkin": [d.key(st, "skin")], "FmtLine": [d.key(st, "line")], "Option": [d.key(st, "width")],
            "bool": [("bool", True)]})), Lin(1))]
        expect(c, d.b, E, st, "line", "a displayable line", d.o.runs(st), want)
    d = Disp(c, P, "FmtInline")
    E = d.E
    for st, v in c.need(d.go() or None, "a success path of the Display of FmtInline"):
        want = [(("call", "write_fmt_composite", call_args(P, E, c, "write_fmt_composite", {
            "MadSkin": [d.key(st, "skin")], "FmtComposite": [refkey(d.self_, d.field("composite"))],
            "Option": [E.content(st, NONE)], "bool": [("bool", False), ("bool", True)]})), Lin(1))]
        expect(c, d.b, E, st, "inline", "an inline", d.o.runs(st), want)
    c.floor("written sequences checked", 6)


# ------------------------------------------------------------------ R04: completions and margins
ALIGN = "minimad::alignment::Alignment"


def tup(E, st, v, i):
    return E.proj(st, v, ("f", i, None, None, str(i)))


def align_cases(P, E, st, v):
    p = next((p for p in P.adts if p.split("::")[-1] == "Alignment"), ALIGN)
    return split_enum(E, P, st, v, p)


def sides(c, b, E, st, an, l, r, total, what):
    """l + r == total and the blanks are on the side of the alignment"""
    c.count("path obligations")
    bad = None
    if not E.entails_eq0(st, l + r - total):
        bad = "the completions %s and %s don't add up to %s" % (E.showlin(l), E.showlin(r), E.showlin(total))
    elif an in ("Left", "Unspecified") and not E.entails_eq0(st, l):
        bad = "a left aligned text is completed on the left"
    elif an == "Right" and not E.entails_eq0(st, r):
        bad = "a right aligned text is completed on the right"
    elif an == "Center" and not (E.entails(st, r - l) and E.entails(st, l + 1 - r)):
        bad = "the completions of a centered text (%s and %s) aren't equal or one apart" % (E.showlin(l), E.showlin(r))
    if bad:
        c.violate("%s:%s" % (what, an), "%s:%d %s: %s" % (b.file, b.line, what, bad))


def r04(c):
    c.rule = ("Spacing::completions, optional_completions, completions_for and FmtComposite::completions are run symbolically for "
              "each alignment: on every path the two results are non negative, add up to max(0, outer - inner) and are on the "
              "side opposite to the alignment (centered: equal up to one). LineStyle::margins_in returns the margins or (0, 0), "
              "and never margins leaving less than 3 columns. extend_width leaves a displayed width of at least the one given.")
    P = c.prog()
    b = c.need(P.method(SP, "completions"), "Spacing::completions")
    r = Run(P, b)
    E = r.E
    seen = set()
    for st0, v in r.out:
        for st, an, _ in align_cases(P, E, st0, r.args[0]):
            comp_case(c, b, E, st, an, r.args[1], r.args[2], v, "completions", seen)
    b = c.need(P.method(SP, "completions_for"), "Spacing::completions_for")
    r = Run(P, b)
    E = r.E
    sref = E.toref(r.args[0])
    for st0, v in r.out:
        w = rd(E, st0, sref, place(P, SP, "width"), place(P, SP, "width")[-1][3])
        a = rd(E, st0, sref, place(P, SP, "align"), place(P, SP, "align")[-1][3])
        for st, an, _ in align_cases(P, E, st0, a):
            comp_case(c, b, E, st, an, r.args[1], w, v, "completions_for", seen)
    b = c.need(P.method(SP, "optional_completions"), "Spacing::optional_completions")
    r = Run(P, b)
    E = r.E
    for st0, v in r.out:
        for s1, on, _ in split_enum(E, P, st0, r.args[2], OPT):
            for st, an, _ in align_cases(P, E, s1, r.args[0]):
                if on == "Some":
                    w = E.proj(st, r.args[2], ("f", 0, 1, None, "0"))
                    w = w if isinstance(w, Lin) else E.atom(E.termof(w), None, 0)
                    comp_case(c, b, E, st, an, r.args[1], w, v, "optional_completions", seen)
                else:
                    zero_case(c, b, E, st, v, "optional_completions without width")
    b = c.need(P.method(FC, "completions"), "FmtComposite::completions")
    r = Run(P, b)
    E = r.E
    fr = E.toref(r.args[0])
    sp = place(P, FC, "spacing")
    for st0, v in r.out:
        spv = rd(E, st0, fr, sp, sp[-1][3])
        for s1, on, _ in split_enum(E, P, st0, spv, OPT):
            if on == "None":
                zero_case(c, b, E, s1, v, "completions without spacing")
                continue
            so = E.proj(s1, spv, ("f", 0, 1, P.types[sp[-1][3]]["args"][0], "0"))
            w = E.proj(s1, so, fidx(P, SP, "width"))
            a = E.proj(s1, so, fidx(P, SP, "align"))
            vl = place(P, FC, "visible_length")
            iv = rd(E, s1, fr, vl, vl[-1][3])
            for st, an, _ in align_cases(P, E, s1, a):
                comp_case(c, b, E, st, an, iv, w, v, "FmtComposite::completions", seen)
    if {x[1] for x in seen} != {"Left", "Right", "Center", "Unspecified"}:
        c.violate("completions:alignments", "alignments seen: %s" % sorted({x[1] for x in seen}))
    margins(c, P)
    extend(c, P)
    c.floor("path obligations", 40)


def zero_case(c, b, E, st, v, what):
    c.count("path obligations")
    if not (E.entails_eq0(st, tup(E, st, v, 0)) and E.entails_eq0(st, tup(E, st, v, 1))):
        c.violate(what, "%s:%d %s isn't (0, 0)" % (b.file, b.line, what))


def comp_case(c, b, E, st, an, inner, outer, v, what, seen):
    l, r = tup(E, st, v, 0), tup(E, st, v, 1)
    if not isinstance(l, Lin) or not isinstance(r, Lin):
        c.violate(what + ":shape", "%s:%d %s doesn't return two numbers" % (b.file, b.line, what))
        return
    for side in ("shorter", "not shorter"):
        s = st.copy()
        if side == "shorter":
            ok = E.add_ge(s, outer - inner - 1)
            total = outer - inner
        else:
            ok = E.add_ge(s, inner - outer)
            total = Lin(0)
        if not ok or not E.feasible(s, []):
            continue
        seen.add((what, an, side))
        sides(c, b, E, s, an, l, r, total, what)
        if not E.entails(s, l) or not E.entails(s, r):
            c.violate(what + ":negative", "%s:%d %s may underflow" % (b.file, b.line, what))


def margins(c, P):
    b = c.need(P.method(LS, "margins_in"), "LineStyle::margins_in")
    r = Run(P, b)
    E = r.E
    ref = E.toref(r.args[0])
    n = 0
    for st0, v in r.out:
        lm = rd(E, st0, ref, place(P, LS, "left_margin"), place(P, LS, "left_margin")[-1][3])
        rm = rd(E, st0, ref, place(P, LS, "right_margin"), place(P, LS, "right_margin")[-1][3])
        for st, on, _ in split_enum(E, P, st0, r.args[1], OPT):
            c.count("path obligations")
            n += 1
            l, rr = tup(E, st, v, 0), tup(E, st, v, 1)
            zero = E.entails_eq0(st, l) and E.entails_eq0(st, rr)
            full = E.entails_eq0(st, l - lm) and E.entails_eq0(st, rr - rm)
            if not zero and not full:
                c.violate("margins:value", "%s:%d margins_in returns (%s, %s), which is neither the margins nor (0, 0)" %
                          (b.file, b.line, E.showlin(l), E.showlin(rr)))
            if on == "None":
                if not full:
                    c.violate("margins:none", "%s:%d without available width, margins_in doesn't return the margins" % (b.file, b.line))
                continue
            w = E.proj(st, r.args[1], ("f", 0, 1, None, "0"))
            w = w if isinstance(w, Lin) else E.atom(E.termof(w), None, 0)
            if not zero and not E.entails(st, w - lm - rm - 3):
                c.violate("margins:narrow", "%s:%d margins_in may return margins leaving less than 3 columns" % (b.file, b.line))
            if not full:
                # with room for both margins and 3 columns, they must be there
                s = st.copy()
                if E.add_ge(s, w - lm - rm - 3) and E.feasible(s, []) and not (E.entails_eq0(s, l - lm) and E.entails_eq0(s, rr - rm)):
                    c.violate("margins:lost", "%s:%d margins_in drops the margins when there's room for them and 3 columns" % (b.file, b.line))
    c.count("margin paths", n)


def extend(c, P):
    b = c.need(P.method(FC, "extend_width"), "FmtComposite::extend_width")
    r = Run(P, b)
    E = r.E
    ref = E.toref(r.args[0])
    sp, vl = place(P, FC, "spacing"), place(P, FC, "visible_length")
    for st0, v in r.out:
        pre = rd(E, State(), ref, vl, vl[-1][3])
        post = rd(E, st0, ref, vl, vl[-1][3])
        spv = rd(E, st0, ref, sp, sp[-1][3])
        c.count("path obligations")
        if not E.entails_eq0(st0, pre - post):
            c.violate("extend:length", "%s:%d extend_width changes the visible length" % (b.file, b.line))
        for st, on, _ in split_enum(E, P, st0, spv, OPT):
            c.count("path obligations")
            if on == "Some":
                so = E.proj(st, spv, ("f", 0, 1, P.types[sp[-1][3]]["args"][0], "0"))
                w = E.proj(st, so, fidx(P, SP, "width"))
                a = E.proj(st, so, fidx(P, SP, "align"))
                if E.content(st, a) != E.content(st, r.args[2]):
                    c.violate("extend:align", "%s:%d the spacing left by extend_width doesn't have the alignment given" % (b.file, b.line))
            else:
                w = post
            if not E.entails(st, w - r.args[1]):
                c.violate("extend:width", "%s:%d extend_width may leave a displayed width (%s) below the one given" %
                          (b.file, b.line, E.showlin(w)))


# ------------------------------------------------------------------ R05: agreement of widths
def r05(c):
    c.rule = ("The width of what's written before the compounds (R01) is compared, for each kind and indentation mode, with what "
              "visible_composite_length adds to the widths of the compounds, with both results of composite_kind_widths, and "
              "with the visible length of a follow-up composite; FmtComposite::{new, from, add_compound, from_compound, "
              "recompute_width} must leave visible_length equal to that prefix plus the sum of the widths of the compounds.")
    P = c.prog()
    vcl = c.need(P.method(SKIN, "visible_composite_length"), "MadSkin::visible_composite_length")
    for n in (0, 1, 2, 3):
        r = Run1(P, vcl, c)
        E = r.E
        cr = E.toref(r.by["slice"])
        cv = rd(E, r.init, cr, (), None)
        ety = P.types[vcl.locals[r.ix["slice"] + 1]["t"]]
        sl = P.types[ety["ty"]]
        v = E.read(r.init, cr.root, cr.path, ety["ty"])
        v = VecV(v.term, Lin(n), (), v.ety if v.ety is not None else sl["ty"])
        E.write(r.init, cr.root, cr.path, v)
        outs = c.need(r.go() or None, "a path of visible_composite_length")
        for st0, res in outs:
            for st, kn, ki, mn in kind_mode(P, E, st0, r.by["CompositeKind"], E.toref(r.by["MadSkin"])):
                want = prefix_width(P, E, st, r.by["CompositeKind"], kn, ki, mn)
                for i in range(n):
                    want = want + src_width(P, E, st, v, i)
                c.count("width obligations")
                if not isinstance(res, Lin) or not E.entails_eq0(st, res - want):
                    c.violate("length:%s" % kn, "%s:%d the visible length of %s composite of %d compounds is computed as %s; "
                              "what's written takes %s" % (vcl.file, vcl.line, "%s (%s)" % (kn, mn), n,
                                                           E.showlin(res) if isinstance(res, Lin) else res, E.showlin(want)))
    ckw = next((b for b in P.bodies.values() if b.kind == "fn" and b.path.endswith("::composite_kind_widths")), None)
    c.need(ckw, "composite_kind_widths")
    r = Run1(P, ckw, c)
    E = r.E
    for st0, res in c.need(r.go() or None, "a path of composite_kind_widths"):
        for st, kn, ki, mn in kind_mode(P, E, st0, r.by["CompositeKind"], E.toref(r.by["MadSkin"])):
            first = prefix_width(P, E, st, r.by["CompositeKind"], kn, ki, mn)
            nxt = first
            if kn == "ListItem":
                nxt = first if mn == "Block" else Lin(0)
            c.count("width obligations", 2)
            for i, (w, what) in enumerate(((first, "first line"), (nxt, "next lines"))):
                g = tup(E, st, res, i)
                if not E.entails_eq0(st, g - w):
                    c.violate("widths:%s:%d" % (kn, i), "%s:%d composite_kind_widths gives %s for the %s of a %s (%s); what's "
                              "written takes %s" % (ckw.file, ckw.line, E.showlin(g), what, kn, mn, E.showlin(w)))
    follow(c, P)
    composites(c, P)
    c.floor("width obligations", 60)


class Run1:
    """a function on symbolic arguments, with a prepared initial state"""

    def __init__(self, P, b, c, **opts):
        self.P, self.b = P, b
        opts.setdefault("max_states", 400)
        opts.setdefault("max_depth", 10)
        opts.setdefault("unroll", 6)
        opts.setdefault("loop_each", True)
        self.E = E = absint.Eng(P, **opts)
        self.init = State()
        self.args = [E.mk(("arg", i + 1), b.locals[i + 1]["t"]) for i in range(b.argc)]
        self.by, self.ix = {}, {}
        for i in range(b.argc):
            t = P.types[b.locals[i + 1]["t"]]
            u = P.types[t["ty"]] if t["k"] == "ref" else t
            k = (u.get("path") or u["k"]).split("::")[-1]
            if k not in self.by:
                self.by[k], self.ix[k] = self.args[i], i

    def go(self):
        return self.E.call_body(self.init.copy(), self.b, list(self.args))


def kind_mode(P, E, st0, kind, skin):
    modep = place(P, SKIN, "list_items_indentation_mode")
    mode = rd(E, st0, skin, modep, modep[-1][3])
    for s1, kn, ki in split_enum(E, P, st0, kind, KIND):
        for s2, mn, mi in split_enum(E, P, s1, mode, MODE):
            yield s2, kn, ki, mn


def prefix_width(P, E, st, kind, kn, ki, mn):
    if kn == "Quote":
        return Lin(2)
    if kn == "ListItem" or kn == "ListItemFollowUp" and mn == "Block":
        d = E.proj(st, kind, ("f", 0, ki, None, "0"))
        d = d if isinstance(d, Lin) else E.atom(E.termof(d), None, 0, 255)
        return d + 2
    return Lin(0)


def src_width(P, E, st, vec, i):
    cv = E.elem(st, vec, Lin(i), vec.ety)
    src = E.proj(st, cv, cfield(P, vec.ety, "src"))
    return width_of(E, st, src)


def width_of(E, st, src):
    return E.nat(("width", E.content(st, src)))


def follow(c, P):
    b = next((b for b in P.bodies.values() if b.kind == "fn" and b.path.endswith("::follow_up_composite")), None)
    c.need(b, "follow_up_composite")
    r = Run1(P, b, c)
    E = r.E
    fc, sk = E.toref(r.by["FmtComposite"]), E.toref(r.by["MadSkin"])
    kp, vp, cp, sp = (place(P, FC, x) for x in ("kind", "visible_length", "compounds", "spacing"))
    for st0, res in c.need(r.go() or None, "a path of follow_up_composite"):
        kind = rd(E, st0, fc, kp, kp[-1][3])
        for st, kn, ki, mn in kind_mode(P, E, st0, kind, sk):
            k2 = E.proj(st, res, kp[0])
            want = "ListItemFollowUp" if kn == "ListItem" else kn
            names = [x["name"] for x in P.adts[KIND]["variants"]]
            vi = E.variant_of(st, k2)
            c.count("width obligations", 3)
            if vi is None or names[vi] != want:
                c.violate("follow:%s" % kn, "%s:%d the follow-up of a %s is a %s" % (b.file, b.line, kn, "?" if vi is None else names[vi]))
                continue
            if kn in ("ListItem", "ListItemFollowUp", "Header"):
                d1, d2 = E.proj(st, kind, ("f", 0, ki, None, "0")), E.proj(st, k2, ("f", 0, vi, None, "0"))
                t1 = E.termof(d1)
                t2 = E.termof(d2)
                if t1 != t2:
                    c.violate("follow:%s:depth" % kn, "%s:%d the follow-up of a %s doesn't have its level" % (b.file, b.line, kn))
            w = prefix_width(P, E, st, kind, "ListItemFollowUp" if kn == "ListItem" else kn,
                             names.index(kn), mn)
            vl = E.proj(st, res, vp[0])
            if not E.entails_eq0(st, vl - w):
                c.violate("follow:%s:length" % kn, "%s:%d the follow-up of a %s (%s) starts with a visible length of %s; what's "
                          "written before its compounds takes %s" % (b.file, b.line, kn, mn, E.showlin(vl), E.showlin(w)))
            cv = E.proj(st, res, cp[0])
            if not isinstance(cv, VecV) or not E.entails_eq0(st, cv.len):
                c.violate("follow:compounds", "%s:%d a follow-up composite doesn't start empty" % (b.file, b.line))
            if E.content(st, E.proj(st, res, sp[0])) != E.content(st, rd(E, st, fc, sp, sp[-1][3])):
                c.violate("follow:spacing", "%s:%d a follow-up composite doesn't keep the spacing" % (b.file, b.line))


def composites(c, P):
    """visible_length stays coherent in the methods of FmtComposite"""
    kp, vp, cp, sp = (place(P, FC, x) for x in ("kind", "visible_length", "compounds", "spacing"))
    b = c.need(P.method(FC, "add_compound"), "FmtComposite::add_compound")
    r = Run(P, b)
    E = r.E
    ref = E.toref(r.args[0])
    for st, v in r.out:
        c.count("width obligations")
        src = E.proj(st, r.args[1], cfield(P, b.locals[2]["t"], "src"))
        pre, post = rd(E, State(), ref, vp, vp[-1][3]), rd(E, st, ref, vp, vp[-1][3])
        if not E.entails_eq0(st, post - pre - width_of(E, st, src)):
            c.violate("add_compound:length", "%s:%d add_compound doesn't add the width of the compound to visible_length" % (b.file, b.line))
        v0, v1 = rd(E, State(), ref, cp, cp[-1][3]), rd(E, st, ref, cp, cp[-1][3])
        last = E.elem(st, v1, v0.len, v1.ety)
        if not E.entails_eq0(st, v1.len - v0.len - 1) or E.content(st, last) != E.content(st, r.args[1]):
            c.violate("add_compound:compounds", "%s:%d add_compound doesn't append its compound" % (b.file, b.line))
        for p in (kp, sp):
            if E.content(st, rd(E, State(), ref, p, p[-1][3])) != E.content(st, rd(E, st, ref, p, p[-1][3])):
                c.violate("add_compound:frame", "%s:%d add_compound changes the %s" % (b.file, b.line, p[-1][4]))
    b = c.need(P.method(FC, "new"), "FmtComposite::new")
    r = Run(P, b)
    E = r.E
    names = [x["name"] for x in P.adts[KIND]["variants"]]
    for st, v in r.out:
        c.count("width obligations")
        k = E.variant_of(st, E.proj(st, v, kp[0]))
        cv = E.proj(st, v, cp[0])
        if k is None or names[k] != "Paragraph" or not E.entails_eq0(st, E.proj(st, v, vp[0])) or not E.entails_eq0(st, cv.len):
            c.violate("new", "%s:%d a new composite isn't an empty paragraph of length 0" % (b.file, b.line))
    vcl = SKIN + "::visible_composite_length"
    for name in ("from", "recompute_width"):
        b = c.need(P.method(FC, name), "FmtComposite::" + name)
        calls = []

        def oc(E, fr, blk, st, path, fn, args):
            if path == vcl:
                t = ("vcl", E.content(st, args[1]), content_of(E, st, args[2]))
                return [(st, E.nat(t))]
            return None
        r = Run(P, b, on_call=oc)
        E = r.E
        for st, v in r.out:
            c.count("width obligations")
            if name == "from":
                got = E.proj(st, v, vp[0])
                k, cv = E.proj(st, v, kp[0]), E.proj(st, v, cp[0])
            else:
                ref = E.toref(r.args[0])
                got, k, cv = (rd(E, st, ref, p, p[-1][3]) for p in (vp, kp, cp))
            want = E.nat(("vcl", E.content(st, k), E.content(st, cv)))
            if not isinstance(got, Lin) or not E.entails_eq0(st, got - want):
                c.violate(name, "%s:%d %s doesn't set visible_length to the visible length of its kind and compounds" %
                          (b.file, b.line, name))


def content_of(E, st, a):
    r = E.toref(a) if isinstance(a, Ref) or isinstance(a, Sym) and a.ty is not None and E.tyk(a.ty) == "ref" else None
    if r is not None:
        return E.content(st, E.read(st, r.root, r.path, None))
    return E.content(st, a)


# ------------------------------------------------------------------ R06: writing functions
STR = ("text",)


class Wr:
    """a writing function run with its writer replaced by the output buffer"""

    def __init__(self, c, P, b, keep=(), stop=(), **opts):
        self.P, self.b = P, b
        m = Summaries(P, which=keep)
        self.o = Out(P, on_call=m, **opts)
        self.E = E = self.o.E
        self.init = self.o.init()
        self.args = []
        self.by = {}
        w = None
        for i in range(b.argc):
            t = P.types[b.locals[i + 1]["t"]]
            u = P.types[t["ty"]] if t["k"] == "ref" else t
            k = (u.get("path") or u["k"]).split("::")[-1]
            if w is None and i > 0 and (k == "Formatter" or u["k"] == "param"):
                w = i
                self.args.append(self.o.dest())
                continue
            a = E.mk(("arg", i + 1), b.locals[i + 1]["t"])
            self.args.append(a)
            self.by.setdefault(k, a)
        c.need(w, "the writer argument of " + b.path)

    def go(self):
        return [(s, v) for s, v in self.E.call_body(self.init.copy(), self.b, list(self.args)) if self.E.variant_of(s, v) != 1]


def r06(c):
    c.rule = ("Each writing function of CompoundStyle, LineStyle, StyledChar and Spacing is run with its writer replaced by a "
              "buffer: the text written is exactly the char, the string or the value given, in the style of the receiver, the "
              "requested number of times; write_counted_str completes to its width on the side opposite to the alignment, or "
              "writes a prefix cut at `width` chars.")
    P = c.prog()
    f = os_field(P)
    for adt, base in ((CS, ()), (LS, (fidx(P, LS, "compound_style"),))):
        for name in ("repeat_char", "repeat_string", "repeat_space", "queue", "queue_str"):
            b = P.method(adt, name)
            if b is None:
                if adt == CS:
                    c.need(None, "%s::%s" % (adt.split("::")[-1], name))
                continue
            r = Wr(c, P, b)
            E = r.E
            me = E.toref(r.args[0])
            outs = c.need(r.go() or None, "a success path of %s::%s" % (adt.split("::")[-1], name))
            for st, v in outs:
                sty = E.content(st, rd(E, st, me, base + (f,), f[3]))
                n = next((a for a in r.args if isinstance(a, Lin) and E.termof(a)[0] == "arg"), None)
                n = r.by.get("uint") or r.by.get("int") or n
                if name == "repeat_char":
                    want = [(("o", sty, chkey(canon(E, E.termof(r.by["char"])))), count_arg(c, P, r))]
                elif name == "repeat_space":
                    want = [(("o", sty, SPACE), count_arg(c, P, r))]
                elif name == "repeat_string":
                    want = ("rep", sty, E.content(st, r.by["str"]), count_arg(c, P, r))
                else:
                    want = ("once", sty, value_arg(r))
                check_writing(c, r, E, st, want, "%s::%s" % (adt.split("::")[-1], name))
    styled_char(c, P)
    counted(c, P)
    c.floor("written sequences checked", 14)


def count_arg(c, P, r):
    b = r.b
    for i in range(b.argc):
        if r.E.is_int(b.locals[i + 1]["t"]) and P.types[b.locals[i + 1]["t"]]["k"] != "char" and P.ts(b.locals[i + 1]["t"]) != "char":
            return r.args[i]
    c.need(None, "the count of " + b.path)


def value_arg(r):
    return r.E.content(r.init, r.args[-1])


def check_writing(c, r, E, st, want, what):
    b = r.b
    got = norm_runs(E, st, r.o.runs(st))
    c.count("written sequences checked")
    if isinstance(want, list):
        ok = equal_runs(E, st, got, want)
        w = showruns(E, norm_runs(E, st, want))
    elif want[0] == "once":
        ok = len(got) == 1 and got[0][1] == Lin(1) and got[0][0][0] == "os" and got[0][0][1] == want[1] and \
            same_text(got[0][0][2], want[2])
        w = "%s once, with the style" % absint.show(want[2])
    else:
        _, sty, con, n = want
        ok = not got and E.entails_eq0(st, n) or len(got) == 1 and got[0][0][0] == "os" and got[0][0][1] == sty and \
            rep_text(E, st, got[0], con, n)
        w = "%s × %s" % (absint.show(con), E.showlin(n))
    if not ok:
        c.violate(what, "%s:%d %s writes %s instead of %s" % (b.file, b.line, what, showruns(E, got), w))


def same_text(a, b):
    def base(t):
        while isinstance(t, tuple) and len(t) == 2 and t[0] == "*":
            t = t[1]
        while isinstance(t, tuple) and len(t) in (2, 3) and isinstance(t[0], str) and \
                t[0].split("::")[-1] in ("into", "to_string", "to_owned", "clone", "from", "as_ref"):
            t = t[1]
            while isinstance(t, tuple) and len(t) == 2 and t[0] == "*":
                t = t[1]
        return t
    return base(a) == base(b)


def rep_text(E, st, run, con, n):
    u, k = run
    t = u[2]
    if same_text(t, con) and E.entails_eq0(st, k - n):
        return True
    if k == Lin(1) and isinstance(t, tuple) and t and t[0] in ("rep", "str::repeat", "repeat") and len(t) >= 3:
        m = t[2] if isinstance(t[2], Lin) else t[2][1] if isinstance(t[2], tuple) and t[2][0] == "lin" else E.nat(t[2])
        return same_text(t[1], con) and E.entails_eq0(st, m - n)
    return False


def styled_char(c, P):
    s, k, x = sc_fields(P)
    for name in ("queue", "queue_repeat"):
        b = c.need(P.method(SC, name), "StyledChar::" + name)
        r = Wr(c, P, b)
        E = r.E
        me = E.toref(r.args[0])
        coherent(P, E, r.init, me.root, me.path)
        for st, v in c.need(r.go() or None, "a success path of StyledChar::" + name):
            sty = E.content(st, rd(E, st, me, (s, os_field(P)), os_field(P)[3]))
            ch = chkey(canon(E, E.termof(rd(E, st, me, (k,), k[3]))))
            n = Lin(1) if name == "queue" else count_arg(c, P, r)
            check_writing(c, r, E, st, [(("o", sty, ch), n)], "StyledChar::" + name)
    b = display_of(P, c, "StyledChar")
    o = Out(P)
    E = o.E
    st0 = o.init()
    a = E.mk(("arg", 1), b.locals[1]["t"])
    me = E.toref(a)
    coherent(P, E, st0, me.root, me.path)
    outs = [(q, v) for q, v in E.call_body(st0, b, [a, o.dest()]) if E.variant_of(q, v) != 1]
    r = type("R", (), dict(b=b, o=o))
    for st, v in c.need(outs or None, "a success path of the Display of StyledChar"):
        sty = E.content(st, rd(E, st, me, (s, os_field(P)), os_field(P)[3]))
        ch = chkey(canon(E, E.termof(rd(E, st, me, (k,), k[3]))))
        check_writing(c, r, E, st, [(("o", sty, ch), Lin(1))], "the Display of StyledChar")
    b = c.need(P.method(SC, "repeated"), "StyledChar::repeated")
    o = Out(P)
    E = o.E
    st0 = o.init()
    args = [E.mk(("arg", i + 1), b.locals[i + 1]["t"]) for i in range(b.argc)]
    me = E.toref(args[0])
    coherent(P, E, st0, me.root, me.path)
    r = type("R", (), dict(b=b, o=o))
    for st, v in c.need(E.call_body(st0, b, args) or None, "a path of StyledChar::repeated"):
        for st in o.emit(None, None, st, v, b.locals[0]["t"]):
            sty = E.content(st, rd(E, st, me, (s, os_field(P)), os_field(P)[3]))
            ch = chkey(canon(E, E.termof(rd(E, st, me, (k,), k[3]))))
            check_writing(c, r, E, st, [(("o", sty, ch), args[1])], "StyledChar::repeated")


def counted(c, P):
    b = c.need(P.method(SP, "write_counted_str"), "Spacing::write_counted_str")
    r = Wr(c, P, b, keep=("completions",))
    E = r.E
    me = E.toref(r.args[0])
    f = os_field(P)
    sr = E.toref(r.by["CompoundStyle"])
    con = E.content(r.init, r.by["str"])
    n = count_arg(c, P, r)
    for st0, v in c.need(r.go() or None, "a success path of write_counted_str"):
        sty = E.content(st0, rd(E, st0, sr, (f,), f[3]))
        w = rd(E, st0, me, place(P, SP, "width"), place(P, SP, "width")[-1][3])
        al = E.content(st0, rd(E, st0, me, place(P, SP, "align"), place(P, SP, "align")[-1][3]))
        for side in ("short", "long"):
            st = st0.copy()
            if not E.add_ge(st, w - n - 1 if side == "short" else n - w) or not E.feasible(st, []):
                continue
            got = norm_runs(E, st, r.o.runs(st))
            c.count("written sequences checked")
            if side == "short":
                l, rr = pads(E, st, al, n, w).fields
                want = [(("o", sty, SPACE), l), (("os", sty, con), Lin(1)), (("o", sty, SPACE), rr)]
                ok = equal_runs(E, st, got, want)
            else:
                ok = len(got) == 1 and got[0][1] == Lin(1) and got[0][0][0] == "os" and got[0][0][1] == sty and \
                    prefix_text(E, st, got[0][0][2], con, w)
            if not ok:
                c.violate("write_counted_str:" + side, "%s:%d write_counted_str writes %s for a %s string" %
                          (b.file, b.line, showruns(E, got), side))


def prefix_text(E, st, t, con, w):
    """t is the string or its first w chars"""
    if same_text(t, con):
        return True
    if not (isinstance(t, tuple) and len(t) == 4 and t[0] == "sub" and same_text(t[1], con) and t[2] == Lin(0)):
        return False
    for a in t[3].atoms():
        x = E.A.terms[a]
        if x[0] == "cidx" and same_text(x[1], con) and t[3] == E.atom(x) and E.entails_eq0(st, x[2] - w):
            return True
    return False
