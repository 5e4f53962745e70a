"""Exact effects of the skin and style mutators (S..)."""
import re
import absint, models
from absint import Agg, Sym, Ref, VecV, BoolV, State, TRUE
from lin import Lin
from effmod import leaves, Run
from models import OPT, NONE, some

SKIN = "termimad::skin::MadSkin"
SC = "termimad::styled_char::StyledChar"
CS = "termimad::compound_style::CompoundStyle"
LS = "termimad::line_style::LineStyle"
SB = "termimad::scrollbar_style::ScrollBarStyle"
FGF, BGF = "foreground_color", "background_color"


def stops(P):
    return tuple(p for p in P.adts if p.endswith("::Attributes"))


def adt_ty(P, path):
    """type index of the adt without generic arguments"""
    for i, t in enumerate(P.types):
        if t["k"] == "adt" and t["path"] == path:
            return i
    return None


def parts(P, ty, prefix=(), name=""):
    """[(name, place path)] of all the StyledChar inside ty"""
    out = []
    t = P.types[ty]
    if t["k"] == "adt" and t["path"] == SC:
        return [(name, prefix)]
    if t["k"] == "adt":
        a = P.adts.get(t["path"])
        if a and a["kind"] == "struct" and t["path"].startswith("termimad"):
            for i, f in enumerate(a["variants"][0]["fields"]):
                out += parts(P, f["ty"], prefix + (("f", i, None, f["ty"], f["name"]),),
                             name + ("." if name else "") + f["name"])
    return out


def sc_fields(P):
    """(style, char, cached) place steps of StyledChar, found by type; cached may be None"""
    a = P.adts[SC]["variants"][0]["fields"]
    r = [None, None, None]
    for i, f in enumerate(a):
        s = P.ts(f["ty"])
        e = ("f", i, None, f["ty"], f["name"])
        if P.types[f["ty"]]["k"] == "char" or s == "char":
            r[1] = e
        elif P.types[f["ty"]].get("path") == CS:
            r[0] = e
        elif "StyledContent" in s:
            r[2] = e
    return r


def os_field(P):
    f = P.adts[CS]["variants"][0]["fields"][0]
    return ("f", 0, None, f["ty"], f["name"])


def coherent(P, E, st, root, prefix, ref_ty=None):
    """write the cached styled char of a StyledChar so that it is the application of its style to its char"""
    s, c, k = sc_fields(P)
    if k is None or s is None or c is None:
        return
    style = E.read(st, root, prefix + (s, os_field(P)))
    ch = E.read(st, root, prefix + (c,), c[3])
    kt = P.types[k[3]]
    E.write(st, root, prefix + (k,), Agg(kt["path"], None, (style, E.coerce(ch, c[3])), None, k[3]))


class SkinRun:
    """a method of a style-like type (first argument &mut self or self) on a coherent symbolic value"""

    def __init__(self, P, body, selfarg=0, **opts):
        self.P, self.b = P, body
        opts.setdefault("max_states", 256)
        opts.setdefault("max_depth", 8)
        opts.setdefault("unroll", 12)
        opts.setdefault("unroll_paths", 20)
        self.E = E = absint.Eng(P, **opts)
        self.args = [E.mk(("arg", i + 1), body.locals[i + 1]["t"]) for i in range(body.argc)]
        self.init = st = State()
        self.sty = None
        if body.argc and selfarg is not None:
            t = P.types[body.locals[selfarg + 1]["t"]]
            self.sty = t["ty"] if t["k"] == "ref" else body.locals[selfarg + 1]["t"]
            r = E.toref(self.args[selfarg])
            if r is not None:
                self.root = r.root
                E.root_val(st, r.root, self.sty)
                for n, p in parts(P, self.sty):
                    coherent(P, E, st, r.root, p)
                for n, p, ty in leaves(P, self.sty, stop=stops(P)):
                    if "HashMap" in P.ts(ty):
                        ety = models.payload_ty(E, ty, 1)
                        E.write(st, r.root, p, VecV(("hm", self.root), Lin(1), (), ety))
                        coherent(P, E, st, r.root, p + (("e", Lin(0), ety),))
        self.out = E.call_body(st.copy(), body, list(self.args))

    def leaves(self, ty=None):
        P = self.P
        out = []
        for n, p, t in leaves(P, self.sty if ty is None else ty, stop=stops(P)):
            if "HashMap" in P.ts(t):
                ety = models.payload_ty(self.E, t, 1)
                if P.types[ety].get("path") == SC:
                    out += [(n + "[*]." + n2, p2, t2) for n2, p2, t2 in leaves(P, ety, p + (("e", Lin(0), ety),), "", stops(P))]
                    continue
            out.append((n, p, t))
        return out

    def pre(self, p, t):
        return self.E.read(self.init.copy(), self.root, p, t if p else None)

    def post(self, st, p, t):
        return self.E.read(st, self.root, p, t if p else None)


def same(E, st, a, b, depth=0):
    if a == b or E.termof(a) == E.termof(b):
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        return E.entails_eq0(st, a - b)
    if depth < 6:
        va, vb = E.variant_of(st, a), E.variant_of(st, b)
        if va is not None and va == vb and (isinstance(a, Agg) or isinstance(b, Agg)):
            n = max(len(a.fields) if isinstance(a, Agg) else 0, len(b.fields) if isinstance(b, Agg) else 0)
            for i in range(n):
                x = E.proj(st, a, ("f", i, va, None, str(i)))
                y = E.proj(st, b, ("f", i, va, None, str(i)))
                if not same(E, st, x, y, depth + 1):
                    return False
            return True
    f = models.eqf(E, st, a, b)
    return E.truth(st, f) is True


def show(E, v):
    return re.sub(r"\s+", " ", repr(v))[:140]


def elem_of(name):
    return re.split(r"[.\[]", name)[0]


def effects(c, P, adt, method, expect, label=None, run=None):
    """every leaf of self after the method must be what expect says: expect(E, run, name, pre) -> value, or None when
    unchanged"""
    b = c.need(P.method(adt, method), "%s::%s" % (adt.split("::")[-1], method))
    r = run or SkinRun(P, b)
    c.need(r.out or None, "a returning path of " + method)
    hit = 0
    for st, v in r.out:
        c.count("paths")
        for n, p, t in r.leaves():
            c.count("field obligations")
            pre = r.pre(p, t)
            want = expect(r.E, r, n, pre)
            if want is not None:
                hit += 1
            got = r.post(st, p, t)
            if not same(r.E, st, got, pre if want is None else want):
                if want is None:
                    c.violate("%s:%s:changed:%s" % (adt.split("::")[-1], method, n),
                              "%s:%d %s changes %s, which it must leave as it is (becomes %s)" %
                              (b.file, b.line, b.path, n, show(r.E, got)))
                else:
                    c.violate("%s:%s:unset:%s" % (adt.split("::")[-1], method, n),
                              "%s:%d after %s, %s is %s instead of %s" %
                              (b.file, b.line, b.path, n, show(r.E, got), show(r.E, want)))
    if not hit:
        c.violate("%s:%s:anchors" % (adt, method), "no expected field found in the skin: the rule lost its anchors")
    c.count("methods")
    return r


TEXT = ("paragraph", "bold", "italic", "strikeout", "headers", "bullet", "quote_mark", "horizontal_rule", "ellipsis",
        "special_chars")


def s01(c):
    c.rule = ("The MIR of each skin-wide setter is run on a symbolic skin; the post-state of each of the ~150 leaf fields "
              "(headers expanded, one entry of the special chars map, cached styled chars) must be the given color for "
              "exactly the color fields of the documented elements and its previous term everywhere else.")
    P = c.prog()

    def colorset(elems, field):
        def expect(E, r, n, pre):
            if elem_of(n) in elems and n.endswith("." + field):
                return some(r.args[1])
            return None
        return expect
    effects(c, P, SKIN, "set_fg", colorset(TEXT, FGF))
    effects(c, P, SKIN, "set_bg", colorset(TEXT + ("table", "scrollbar"), BGF))
    effects(c, P, SKIN, "set_headers_fg", colorset(("headers",), FGF))
    effects(c, P, SKIN, "set_headers_bg", colorset(("headers",), BGF))
    effects(c, P, SKIN, "set_global_bg", colorset(("headers", "paragraph", "horizontal_rule"), BGF))
    effects(c, P, SB, "set_bg", lambda E, r, n, pre: some(r.args[1]) if n.endswith("." + BGF) else None)
    c.floor("field obligations", 600)
    c.floor("methods", 6)


def s02(c):
    c.rule = ("Every function of StyledChar that returns or mutates one is run on symbolic arguments: on every exit the "
              "cached styled char is the application of the (new) style to the (new) char. Setters change nothing else "
              "than what they name.")
    P = c.prog()
    s, ch, k = sc_fields(P)
    c.need(s, "the style of StyledChar"), c.need(ch, "the char of StyledChar")

    def coherent_value(E, st, v, what, b):
        if k is None:
            return
        c.count("coherence obligations")
        v = E.peel(st, v)
        sty = E.proj(st, E.proj(st, v, s), os_field(P))
        cc = E.proj(st, v, ch)
        cached = E.proj(st, v, k)
        kf = P.adts[P.types[k[3]]["path"]]["variants"][0]["fields"] if P.types[k[3]]["path"] in P.adts else None
        names = [f["name"] for f in kf] if kf else ["style", "content"]
        x = E.proj(st, cached, ("f", names.index("style") if "style" in names else 0, None, s and os_field(P)[3], "style"))
        y = E.proj(st, cached, ("f", names.index("content") if "content" in names else 1, None, ch[3], "content"))
        if not same_style(P, E, st, x, sty) or not same(E, st, y, cc):
            c.violate("stale:%s" % b.name, "%s:%d after %s, what gets written (%s with %s) isn't the char %s with the style "
                      "%s" % (b.file, b.line, b.path, show(E, y), show(E, x), show(E, cc), show(E, sty)))

    scty = adt_ty(P, SC)
    for b in sorted(P.fns(), key=lambda x: x.path):
        if b.kind != "fn" or b.derived:
            continue
        if P.self_adt(b) != SC:
            rt = P.types[b.locals[0]["t"]]
            if not (rt["k"] == "adt" and rt["path"] == SC and P.self_adt(b) in (CS,)):
                continue
        rt = P.types[b.locals[0]["t"]]
        isself = b.argc and P.types[b.locals[1]["t"]]["k"] == "ref" and \
            P.types[P.types[b.locals[1]["t"]]["ty"]].get("path") == SC
        mut = isself and P.types[b.locals[1]["t"]]["mut"]
        ret = rt["k"] == "adt" and rt["path"] == SC
        if not mut and not ret:
            continue
        r = SkinRun(P, b, 0 if isself else None)
        c.count("functions")
        c.sample({"fn": b.path})
        for st, v in r.out:
            if mut:
                coherent_value(r.E, st, r.E.read(st, r.root, ()), "self", b)
            if ret:
                coherent_value(r.E, st, v, "result", b)

    def only(field_pred, val):
        return lambda E, r, n, pre: val(r) if field_pred(n) else None
    effects(c, P, SC, "set_fg", only(lambda n: n.endswith("." + FGF), lambda r: some(r.args[1])))
    effects(c, P, SC, "set_bg", only(lambda n: n.endswith("." + BGF), lambda r: some(r.args[1])))
    effects(c, P, SC, "set_char", only(lambda n: n == ch[4] or n.endswith(".content"), lambda r: r.args[1]))
    # what is written is the cached char or the application
    c.floor("functions", 7)
    if k is not None:
        c.floor("coherence obligations", 7)


def same_style(P, E, st, a, b):
    """content styles compared field by field"""
    if same(E, st, a, b):
        return True
    o = os_field(P)
    fs = P.adts[P.types[o[3]]["path"]]["variants"][0]["fields"]
    for i, f in enumerate(fs):
        e = ("f", i, None, f["ty"], f["name"])
        if not same(E, st, E.proj(st, a, e), E.proj(st, b, e)):
            return False
    return True


# ------------------------------------------------------------------ S03: the style algebra
def field(n):
    return n.rsplit(".", 1)[-1]


def union(E, st, *vs):
    """attribute set: union of sets and of ("at", attribute)"""
    r = frozenset()
    for v in vs:
        r |= models.attrset(v if isinstance(v, tuple) else E.content(st, v))
    return Sym(models.mkattrs(r), None)


def s03(c):
    c.rule = ("Every constructor and mutator of CompoundStyle and LineStyle is run on symbolic arguments; each field of the "
              "result is compared with its specification: the color(s) given, the union of the attributes, the other "
              "fields unchanged (or None / empty / 0 for constructors). overwrite_with: the other's color when it has one, "
              "the own one otherwise.")
    P = c.prog()
    some1 = lambda E, r, st: some(r.args[1])
    some2 = lambda E, r, st: some(r.args[2])
    MUT = {  # method -> field -> value(E, run, st, pre)
        "set_fg": {FGF: lambda E, r, st, pre: some(r.args[1])},
        "set_bg": {BGF: lambda E, r, st, pre: some(r.args[1])},
        "set_fgbg": {FGF: lambda E, r, st, pre: some(r.args[1]), BGF: lambda E, r, st, pre: some(r.args[2])},
        "add_attr": {"attributes": lambda E, r, st, pre: union(E, st, pre, ("attrs", ("at", E.content(st, r.args[1]))))},
        "remove_attr": {"attributes": lambda E, r, st, pre: Sym(models.attrs_op("unset", E.content(st, pre),
                                                                                 E.content(st, r.args[1])), None)},
    }
    for adt in (CS, LS):
        for m, exp in MUT.items():
            b = P.method(adt, m)
            if b is None and adt == LS and m == "remove_attr":
                continue
            c.need(b, "%s::%s" % (adt, m))
            r = SkinRun(P, b)
            c.need(r.out or None, "a returning path of " + b.path)
            c.count("methods")
            seen = set()
            for st, v in r.out:
                for n, p, t in r.leaves():
                    c.count("field obligations")
                    pre = r.pre(p, t)
                    f = exp.get(field(n))
                    seen.add(field(n) if f else None)
                    want = f(r.E, r, st, pre) if f else pre
                    got = r.post(st, p, t)
                    if not same(r.E, st, got, want):
                        c.violate("%s:%s:%s" % (adt.split("::")[-1], m, n), "%s:%d after %s, %s is %s instead of %s" %
                                  (b.file, b.line, b.path, n, show(r.E, got), show(r.E, want)))
            c.need(True if set(exp) <= seen else None, "the fields %s of %s" % (", ".join(exp), adt))
    # constructors
    noattr = Sym(("attrs",), None)
    CONS = {
        "new": {FGF: 0, BGF: 1, "attributes": 2}, "with_fgbg": {FGF: "s0", BGF: "s1"}, "with_fg": {FGF: "s0"},
        "with_bg": {BGF: "s0"}, "with_attr": {"attributes": "a0"},
    }
    for m, exp in CONS.items():
        b = c.need(P.method(CS, m), "CompoundStyle::" + m)
        r = Run(P, b)
        c.count("methods")
        for st, v in r.out:
            constructed(c, P, r, st, v, b, b.locals[0]["t"], lambda f: cval(r, st, exp.get(f)))
    for b in P.fns():
        rt = P.types[b.locals[0]["t"]]
        if b.kind == "fn" and not b.derived and rt["k"] == "adt" and rt["path"] in (LS, CS) and b.name == "from" and \
                b.argc == 1 and P.types[b.locals[1]["t"]]["k"] == "adt":
            r = Run(P, b)
            c.count("methods")
            sp = P.types[b.locals[1]["t"]]["path"]
            for st, v in r.out:
                whole = {"CompoundStyle": r.args[0], "ContentStyle": r.args[0]}.get(sp.split("::")[-1])
                if whole is None:
                    continue
                constructed(c, P, r, st, v, b, b.locals[0]["t"], lambda f: None, whole=whole)
    b = P.method(LS, "new")
    if b is not None:
        r = Run(P, b)
        c.count("methods")
        for st, v in r.out:
            constructed(c, P, r, st, v, b, b.locals[0]["t"], lambda f: r.args[1] if f == "align" else None, whole=r.args[0])
    # overwrite
    b = c.need(P.method(CS, "overwrite_with"), "CompoundStyle::overwrite_with")
    r = SkinRun(P, b)
    o = r.E.toref(r.args[1])
    c.count("methods")
    for st0, v in r.out:
        sts = [st0]
        for n, p, t in r.leaves():
            if field(n) in (FGF, BGF):
                sts = [s for st in sts for s, vi in r.E.split_variant(st.copy(), r.E.read(r.init.copy(), o.root, p, t), OPT)]
        for st in sts:
            for n, p, t in r.leaves():
                c.count("field obligations")
                mine, its = r.pre(p, t), r.E.read(r.init.copy(), o.root, p, t)
                if field(n) in (FGF, BGF):
                    want = its if r.E.variant_of(st, its) == 1 else mine
                elif field(n) == "attributes":
                    want = union(r.E, st, mine, its)
                else:
                    continue  # the underline color isn't handled by termimad
                got = r.post(st, p, t)
                if not same(r.E, st, got, want):
                    c.violate("CompoundStyle:overwrite_with:" + n, "%s:%d overwriting leaves %s at %s instead of %s" %
                              (b.file, b.line, n, show(r.E, got), show(r.E, want)))
    c.floor("methods", 15)
    c.floor("field obligations", 60)


def cval(r, st, e):
    if e is None:
        return None
    if isinstance(e, int):
        return r.args[e]
    a = r.args[int(e[1])]
    return some(a) if e[0] == "s" else Sym(("attrs", ("at", r.E.content(st, a))), None)


def constructed(c, P, r, st, v, b, ty, want_of, whole=None):
    """a built style: the wanted fields, defaults elsewhere; whole: value of the nested compound/content style"""
    E = r.E
    for n, p, t in leaves(P, ty, stop=stops(P)):
        c.count("field obligations")
        f = field(n)
        want = want_of(f)
        got = r.at(st, v, p, t)
        if want is None and whole is not None and f in (FGF, BGF, "underline_color", "attributes"):
            wt = None
            lv = {field(a): (q, u) for a, q, u in leaves(P, b.locals[1]["t"], stop=stops(P))}
            q, u = lv[f]
            want = r.at(st, whole, q, u)
        if want is None:
            if f == "attributes":
                want = Sym(("attrs",), None)
                got = Sym(models.mkattrs(models.attrset(E.content(st, got))), None)
            elif f in ("left_margin", "right_margin"):
                want = Lin(0)
            elif f == "align":
                want = None
                vi = E.variant_of(st, got)
                al = P.adts[P.types[t]["path"]]["variants"]
                if vi is None or al[vi]["name"] != "Unspecified":
                    c.violate("%s:%s" % (b.path, n), "%s:%d %s is %s instead of Unspecified" % (b.file, b.line, n, show(E, got)))
                continue
            else:
                want = NONE
        if f == "attributes":
            got = Sym(models.mkattrs(models.attrset(E.content(st, got))), None)
            want = Sym(models.mkattrs(models.attrset(E.content(st, want))), None)
        if not same(E, st, got, want):
            c.violate("%s:%s" % (b.path, n), "%s:%d %s returns a style whose %s is %s instead of %s" %
                      (b.file, b.line, b.path, n, show(E, got), show(E, want)))


# ------------------------------------------------------------------ S04: style of a compound
def s04(c):
    c.rule = ("MadSkin::line_style is run on each composite kind: the reference returned must be to the documented field. "
              "MadSkin::compound_style is run on symbolic skin, line style and compound; on each path (with every "
              "combination of the flags and of defined/undefined colors split) fg and bg must be those of the last defined "
              "layer among line, italic, strikeout, bold, code, and the attributes the union of the layers; the ellipsis "
              "compound takes the ellipsis style alone.")
    P = c.prog()
    b = c.need(P.method(SKIN, "compound_style"), "MadSkin::compound_style")

    # the composition of two styles is checked by S03; here its effect is its specification
    def on_call(E, fr, blk, st, path, fn, args):
        if path == CS + "::overwrite_with":
            r, o = E.toref(args[0]), E.toref(args[1])
            if r is None or o is None:
                return None
            outs = [st.copy()]
            csty = adt_ty(P, CS)
            for n, p, t in leaves(P, csty, stop=stops(P)):
                f = field(n)
                if f == "underline_color":
                    continue
                mine, its = E.read(st, r.root, r.path + p, t), E.read(st, o.root, o.path + p, t)
                if f == "attributes":
                    E_new = union(E, st, mine, its)
                else:
                    E_new = Sym(("or", layers(E, st, its), layers(E, st, mine)), t)
                for s in outs:
                    E.write(s, r.root, r.path + p, E_new)
            from models import UNIT
            return [(s, UNIT) for s in outs]
        return None
    r = Run(P, b, on_call=on_call, max_states=400)
    E = r.E
    flags = ["italic", "strikeout", "bold", "code"]
    cty = None
    for i in range(b.argc):
        t = P.types[b.locals[i + 1]["t"]]
        if t["k"] == "ref" and P.types[t["ty"]].get("path", "").endswith("::Compound"):
            cty, ci = t["ty"], i
    c.need(cty, "the compound argument")
    comp = E.toref(r.args[ci])
    cl = {n: (p, t) for n, p, t in leaves(P, cty)}
    sk = E.toref(r.args[0])
    skl = {n: (p, t) for n, p, t in leaves(P, P.types[b.locals[1]["t"]]["ty"], stop=stops(P))}
    li = next(i for i in range(b.argc) if P.types[b.locals[i + 1]["t"]]["k"] == "ref" and
              P.types[P.types[b.locals[i + 1]["t"]]["ty"]].get("path") == LS)
    lr = E.toref(r.args[li])
    lsl = {n: (p, t) for n, p, t in leaves(P, P.types[b.locals[li + 1]["t"]]["ty"], stop=stops(P))}
    ell = plain = 0
    combos = set()
    for st0, v in r.out:
        sts = [st0]
        for f in flags:
            bv = E.asf(E.read(State(), comp.root, *cl[f]))
            nxt = []
            for s in sts:
                for val in (True, False):
                    k = E.truth(s, bv)
                    if k is not None and k != val:
                        continue
                    s2 = s.copy()
                    if k is None and not E.assume(s2, bv, val):
                        continue
                    nxt.append(s2)
            sts = nxt
        isell = on_ellipsis(P, E, st0, comp, cl)
        if isell is None:
            c.violate("compound_style:undetermined", "%s:%d a style is returned without knowing whether the compound is the "
                      "ellipsis" % (b.file, b.line))
            continue
        for st in sts:
            c.count("paths")
            on = [f for f in flags if E.truth(st, E.asf(E.read(State(), comp.root, *cl[f])))]
            combos.add((isell, tuple(on)))
            for n, p, t in leaves(P, b.locals[0]["t"], stop=stops(P)):
                f = field(n)
                if f == "underline_color":
                    continue
                c.count("field obligations")
                got = r.at(st, v, p, t)

                def of(layer):
                    if layer == "line":
                        pp, tt = lsl["compound_style.object_style." + f]
                        return E.read(State(), lr.root, pp, tt)
                    pp, tt = skl[layer + ".object_style." + f]
                    return E.read(State(), sk.root, pp, tt)
                if isell:
                    ell += 1
                    ls = ["ellipsis"]
                else:
                    plain += 1
                    ls = ["line"] + [{"code": "inline_code"}.get(x, x) for x in ("italic", "strikeout", "bold", "code") if x in on]
                if f == "attributes":
                    ok_ = models.attrset(E.content(st, got)) == models.attrset(E.content(st, union(E, st, *[of(x) for x in ls])))
                else:
                    want = [E.termof(of(x)) for x in reversed(ls)]
                    gl = layers(E, st, got)
                    ok_ = gl == tuple(want)
                if not ok_:
                    c.violate("compound_style:%s" % f, "%s:%d for %s, %s of the style is %s instead of the composition of %s" %
                              (b.file, b.line, "the ellipsis" if isell else "a compound which is " + ("+".join(on) or "plain"),
                               f, show(E, got), " then ".join(ls)))
    c.need(True if ell and plain else None, "paths of compound_style with and without ellipsis")
    c.floor("paths", 17)
    if len([1 for a, x in combos if not a]) < 16:
        c.violate("compound_style:combos", "only %d of the 16 combinations of flags lead to a style" % len(combos))

    # line style by kind
    b = c.need(P.method(SKIN, "line_style"), "MadSkin::line_style")
    r = Run(P, b)
    E = r.E
    sk = E.toref(r.args[0])
    kind = r.args[1]
    kt = P.types[b.locals[2]["t"]]
    kpath = (P.types[kt["ty"]] if kt["k"] == "ref" else kt)["path"]
    kv = [x["name"] for x in P.adts[kpath]["variants"]]
    names = {}
    t0 = P.types[b.locals[1]["t"]]["ty"]
    for i, f in enumerate(P.adts[SKIN]["variants"][0]["fields"]):
        names[i] = f["name"]
    done = set()
    for st, v in r.out:
        ref = E.toref(v)
        fields = [e for e in (ref.path if ref else ()) if e[0] in ("f", "e")]
        top = names.get(fields[0][1]) if ref and ref.root == sk.root and fields else None
        for vi, vn in enumerate(kv):
            s = st.copy()
            k = E.variant_of(s, kind)
            if k is None:
                ok_ = E.add_eq(s, E.atom(("disc", E.termof(kind))) - E.discr_val(kpath, vi))
                if not ok_ or not E.feasible(s, []) :
                    continue
            elif k != vi:
                continue
            c.count("kinds")
            done.add(vn)
            want = "paragraph"
            if vn == "Code":
                want = "code_block"
            if vn == "Header":
                lvl = E.proj(s, kind, ("f", 0, vi, None, "0"))
                if not isinstance(lvl, Lin):
                    lvl = E.atom(E.termof(lvl))
                deep = s.copy()
                if E.add_ge(deep, lvl - 9) and E.feasible(deep, []) and top != "paragraph":
                    c.violate("line_style:Header:deep", "%s:%d a header deeper than 8 gets %s instead of the paragraph style" %
                              (b.file, b.line, top))
                sh = s.copy()
                if not E.add_ge(sh, Lin(8) - lvl) or not E.feasible(sh, []):
                    continue
                want = "headers"
                idx = fields[1][1] if len(fields) > 1 and fields[1][0] == "e" else None
                if top == "headers" and (idx is None or not E.entails_eq0(sh, idx - lvl + 1)):
                    c.violate("line_style:Header:index", "%s:%d a header of level n gets the style headers[%s] instead of "
                              "headers[n-1]" % (b.file, b.line, E.showlin(idx) if idx is not None else "?"))
            if top != want:
                c.violate("line_style:" + vn, "%s:%d a line of kind %s gets the style %s instead of %s" %
                          (b.file, b.line, vn, top, want))
    c.need(True if done == set(kv) else None, "a style for each kind of line (got %s)" % sorted(done))


def layers(E, st, v):
    """the alternatives of an optional color, first defined wins"""
    t = E.termof(v) if not isinstance(v, tuple) else v
    if isinstance(t, tuple) and t and t[0] == "or":
        return tuple(layers(E, st, t[1])) + tuple(layers(E, st, t[2]))
    if isinstance(t, tuple) and t and isinstance(t[0], tuple):
        return t
    return (t,)


def on_ellipsis(P, E, st, comp, cl):
    """is the compound known to be / not to be the ellipsis string on this path"""
    p, t = cl["src"]
    v = E.read(State(), comp.root, p, t)
    for f, val in list(st.bs.items()):
        if "ELLIPSIS" in repr(f) or "\u2026" in repr(f):
            return val
    return None


# ------------------------------------------------------------------ S05: blending
BLENDED = ("paragraph", "bold", "italic", "strikeout", "inline_code", "code_block", "headers", "table", "bullet",
           "quote_mark", "horizontal_rule", "ellipsis")


def find_terms(t, head, out):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0].split("::")[-1] == head:
            out.append(t)
        for x in t:
            find_terms(x, head, out)
    return out


def s05(c):
    c.rule = ("CompoundStyle::blend_with: on every path an undefined color stays undefined, a defined one becomes a blend of "
              "itself (weight 1-w) with the destination (weight w), unless the weight is known to be 0 and then it's left as it is, nothing "
              "else changes. LineStyle, StyledChar and "
              "MadSkin::blend_with: each documented text element gets that blend with the same destination and weight, "
              "exactly once, and its cached char is refreshed; nothing outside of the styles changes.")
    P = c.prog()
    b = c.need(P.method(CS, "blend_with"), "CompoundStyle::blend_with")
    r = SkinRun(P, b)
    E = r.E
    zero = False
    for st, v in r.out:
        z = zero_weight(E, st, r.args[2])
        if z is True:
            zero = True
        for n, p, t in r.leaves():
            c.count("field obligations")
            pre, got = r.pre(p, t), r.post(st, p, t)
            f = field(n)
            if z is True and same(E, st, pre, got):
                continue
            if z is not False and E.variant_of(st, pre) == 1 and not same(E, st, pre, got):
                c.violate("blend:%s:zero" % n, "%s:%d with a weight of 0, %s is computed again, which may change it" %
                          (b.file, b.line, n))
            if f not in (FGF, BGF):
                if not same(E, st, pre, got):
                    c.violate("blend:" + n, "%s:%d blending changes %s" % (b.file, b.line, n))
                continue
            vi = E.variant_of(st, pre)
            if vi is None:
                if same(E, st, pre, got):
                    c.violate("blend:%s:untouched" % n, "%s:%d %s isn't blended" % (b.file, b.line, n))
                    continue
                c.violate("blend:%s:unknown" % n, "%s:%d %s is replaced without looking whether it's defined" % (b.file, b.line, n))
            elif vi == 0:
                if E.variant_of(st, got) != 0:
                    c.violate("blend:%s:none" % n, "%s:%d an undefined %s becomes defined" % (b.file, b.line, n))
            else:
                src = E.termof(E.proj(st, pre, ("f", 0, 1, None, "0")))
                w = E.termof(r.args[2])
                bl = find_terms(E.content(st, got), "blend", [])
                good = False
                for x in bl:
                    xs = [y for y in x[1:]]
                    if len(xs) == 1 and isinstance(xs[0], tuple) and len(xs[0]) == 4:
                        xs = list(xs[0])
                    if len(xs) < 4:
                        continue
                    pairs = [(repr(xs[0]), repr(xs[1])), (repr(xs[2]), repr(xs[3]))]
                    dest = repr(E.termof(r.args[1]))
                    isw = lambda y: y == repr(w)
                    inv = lambda y: repr(w) in y and "Sub" in y and "1" in y and y != repr(w)
                    for (a, aw), (d, dw) in (pairs, pairs[::-1]):
                        if repr(src) in a and dest in d and repr(src) not in d and inv(aw) and isw(dw):
                            good = True
                if not good:
                    c.violate("blend:%s:value" % n, "%s:%d a defined %s becomes %s instead of its blend (1-weight) with the "
                              "destination (weight)" % (b.file, b.line, n, show(E, got)))

    def opaque(E, fr, blk, st, path, fn, args):
        if path == CS + "::blend_with":
            rr = E.toref(args[0])
            if rr is None:
                return None
            s = st.copy()
            for n, p, t in leaves(P, adt_ty(P, CS), stop=stops(P)):
                if field(n) in (FGF, BGF):
                    E.write(s, rr.root, rr.path + p, Sym(("blended", E.content(st, E.read(st, rr.root, rr.path + p, t)),
                                                          strip_into(E.content(st, args[1])), E.content(st, args[2])), t))
            return [(s, models.UNIT)]
        return None

    def exp(elems, must):
        def f(E, r, n, pre):
            e = elem_of(n)
            if field(n) in (FGF, BGF) and (elems is None or e in elems):
                return Sym(("blended", E.content(r.init, pre), strip_into(E.content(r.init, r.args[1])), E.content(r.init, r.args[2])), None)
            return None
        return f
    for adt, elems in ((LS, None), (SC, None), (SKIN, BLENDED)):
        b = c.need(P.method(adt, "blend_with"), adt.split("::")[-1] + "::blend_with")
        r = SkinRun(P, b, on_call=opaque)
        if adt == SKIN:
            # the scrollbar and the special chars may follow or not
            full = r.leaves()
            keep = [x for x in full if elem_of(x[0]) not in ("scrollbar", "special_chars")]
            r.leaves = lambda ty=None, keep=keep: keep
        effects(c, P, adt, "blend_with", exp(elems, BLENDED), run=r)
    c.floor("field obligations", 130)


def zero_weight(E, st, w):
    """is the weight known to be 0 (True) / not 0 (False) on this path"""
    t = E.termof(w)
    for f, val in st.bs.items():
        if isinstance(f, tuple) and f[0] == "cmp" and len(f) == 4 and repr(t) in (repr(f[2]), repr(f[3])):
            o = f[3] if repr(f[2]) == repr(t) else f[2]
            sw = repr(f[2]) != repr(t)
            if not (isinstance(o, tuple) and o[0] == "flt" and float(re.sub("[^0-9.eE-]", "", str(o[1])) or 1) == 0):
                continue
            op = f[1]
            if sw:
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            # weights are in [0..1]
            r = {"Eq": val, "Le": val, "Gt": not val, "Ne": not val}.get(op)
            if r is not None:
                return r
    return None


def strip_into(t):
    """drop conversions"""
    while isinstance(t, tuple) and len(t) == 3 and t[0] == "into":
        t = t[1]
    return t


# ------------------------------------------------------------------ S06: borders and ascii
TBC = "termimad::table_border_chars::TableBorderChars"
ARMS = {  # field -> arms a joining glyph must have
    "horizontal": "LR", "vertical": "UD", "top_left_corner": "RD", "top_right_corner": "LD", "bottom_right_corner": "LU",
    "bottom_left_corner": "RU", "top_junction": "LRD", "right_junction": "LUD", "bottom_junction": "LRU",
    "left_junction": "RUD", "cross": "LRUD",
}


def arms(ch):
    import unicodedata
    if ch == "+":
        return "*"
    if ch == "-":
        return "LR"
    if ch == "|":
        return "DU"
    n = unicodedata.name(ch, "")
    if not n.startswith("BOX DRAWINGS"):
        return "?"
    r = set()
    for w, x in (("HORIZONTAL", "LR"), ("VERTICAL", "UD"), ("LEFT", "L"), ("RIGHT", "R"), ("UP", "U"), ("DOWN", "D")):
        if w in n.split():
            r |= set(x)
    return "".join(sorted(r))


def border_static(E, P, v):
    """chars of the border set behind a reference value; (id, {field: char})"""
    r = E.toref(v)
    if r is None:
        return None
    st = State()
    name = r.root
    seen = 0
    return r


def border_sets(c, P):
    """static name -> {field: char}"""
    out = {}
    for b in P.bodies.values():
        if b.kind == "static" and b.path.startswith("termimad") and "TableBorderChars" in P.ts(b.locals[0]["t"]):
            E = absint.Eng(P)
            st = State()
            v = E.promoted(st, b.id, b.locals[0]["t"])
            d = {}
            for n, p, t in leaves(P, adt_ty(P, TBC)):
                r = E.toref(v)
                x = E.read(st, r.root, r.path + p, t) if r is not None else E.proj(st, v, p[0])
                k = x.c if isinstance(x, Lin) and not x.t else None
                d[n] = chr(k) if k is not None else None
            out[b.id] = d
    return out


def static_of(E, st, v):
    """id of the static a reference value comes from"""
    for _ in range(4):
        r = E.toref(v)
        if r is None:
            return None
        for e in (r.root,):
            if e[0] == "static":
                return e[1]
            if e[0] == "L" and isinstance(e[1], tuple) and e[1][0] == "prom":
                return e[1][1].split("::{promoted")[0]
        v = E.read(st, r.root, r.path)
    return None


def s06(c):
    import unicodedata
    c.rule = ("Every glyph of every bundled border set (constants in the statics' MIR) is one column wide and has arms "
              "(per its Unicode name) in exactly the directions in which its field is joined, the corners and junctions "
              "joining glyphs of the horizontal and vertical weight. by_key gives for each key a set whose key() is that key. "
              "limit_to_ascii leaves only ASCII constants in the borders, bullet, quote mark and rule, and changes nothing "
              "else.")
    P = c.prog()
    sets = border_sets(c, P)
    for i, d in sets.items():
        b = P.bodies[i]
        c.count("border sets")
        for n, ch in d.items():
            c.count("glyphs")
            if ch is None:
                c.violate("border:%s:%s" % (b.name, n), "%s:%d %s of %s isn't a constant" % (b.file, b.line, n, b.name))
                continue
            want = "".join(sorted(ARMS.get(n, "")))
            a = arms(ch)
            if a != want and not (a == "*" and n not in ("horizontal", "vertical")):
                c.violate("border:%s:%s" % (b.name, n), "%s:%d %s of %s is %r, which doesn't join the %s sides" %
                          (b.file, b.line, n, b.name, ch, "/".join(want)))
            if unicodedata.east_asian_width(ch) in "WF" or unicodedata.category(ch)[0] in "MC":
                c.violate("border:%s:%s:width" % (b.name, n), "%s:%d %r isn't one column wide" % (b.file, b.line, ch))
            ascii_h = d.get("horizontal") == "-"
            if ascii_h and ord(ch) > 127:
                c.violate("border:%s:%s:ascii" % (b.name, n), "%s:%d %r in an ASCII set" % (b.file, b.line, ch))
    c.floor("border sets", 3)
    c.floor("glyphs", 33)

    # key and by_key are inverse
    bk, k = c.need(P.method(TBC, "by_key"), "TableBorderChars::by_key"), c.need(P.method(TBC, "key"), "TableBorderChars::key")
    r = Run(P, bk)
    keys = {}
    for st, v in r.out:
        if r.E.variant_of(st, v) == 0:
            continue
        lit = known_literal(r.E, st, r.args[0])
        sid = static_of(r.E, st, r.E.proj(st, v, ("f", 0, 1, None, "0")))
        c.count("keys")
        if lit is None or sid is None:
            c.violate("by_key:shape", "%s:%d by_key returns a set without having compared the key to a literal" % (bk.file, bk.line))
            continue
        keys[lit] = sid
    # key(): which literal for which static the value is compared with
    r = Run(P, k)
    back = {}
    for st, v in r.out:
        if r.E.variant_of(st, v) == 0:
            continue
        x = r.E.proj(st, v, ("f", 0, 1, None, "0"))
        lit = lit_of(("ref", x.root) if isinstance(x, Ref) else r.E.content(st, x))
        sids = [i for i, d in sets.items() for f, val in st.bs.items() if val is True and
                tuple(ord(x or " ") for x in d.values()) in consts_in(f)]
        if len(set(sids)) == 1:
            back.setdefault(lit, sids[0])
        else:
            c.violate("key:shape", "%s:%d key() returns %r without comparing with one bundled set" % (k.file, k.line, lit))
    for lit, sid in back.items():
        if keys.get(lit) != sid:
            c.violate("key:" + str(lit), "%s:%d the key of %s is %r but by_key(%r) is %s" %
                      (k.file, k.line, sid, lit, lit, keys.get(lit)))
    for lit, sid in keys.items():
        if back.get(lit) != sid:
            c.violate("by_key:" + str(lit), "%s:%d by_key(%r) is %s, whose key isn't %r" % (bk.file, bk.line, lit, sid, lit))
    c.need(True if len(keys) >= 3 and len(back) >= 3 else None, "three keys in key and by_key (%s, %s)" % (keys, back))

    # limit_to_ascii
    b = c.need(P.method(SKIN, "limit_to_ascii"), "MadSkin::limit_to_ascii")
    r = SkinRun(P, b)
    for st, v in r.out:
        for n, p, t in r.leaves():
            c.count("field obligations")
            got, pre = r.post(st, p, t), r.pre(p, t)
            e = elem_of(n)
            if e in ("bullet", "quote_mark", "horizontal_rule") and (P.ts(t) == "char" or isinstance(got, Lin) and n.endswith(".content")):
                kk = got.c if isinstance(got, Lin) and not got.t else None
                if kk is None or not 32 < kk < 127:
                    c.violate("limit_to_ascii:" + n, "%s:%d after limit_to_ascii %s is %s" % (b.file, b.line, n, show(r.E, got)))
            elif e == "table_border_chars":
                sid = static_of(r.E, st, got)
                if sid not in sets or any(ch is None or ord(ch) > 126 for ch in sets[sid].values()):
                    c.violate("limit_to_ascii:borders", "%s:%d limit_to_ascii sets the borders %s, which aren't all ASCII" %
                              (b.file, b.line, sid))
            elif not same(r.E, st, got, pre):
                c.violate("limit_to_ascii:changed:" + n, "%s:%d limit_to_ascii changes %s" % (b.file, b.line, n))
    c.floor("field obligations", 140)


def lit_of(t):
    """the literal behind a content term"""
    while isinstance(t, tuple) and t:
        if t[0] == "str":
            return t[1]
        if t[0] != "ref":
            break
        t = t[1]
    return t


def consts_in(t):
    """tuples of constants of the aggregates in a term"""
    out = []
    if isinstance(t, tuple):
        if t and t[0] == "agg" and len(t) > 3 and isinstance(t[3], tuple) and t[3] and \
                all(isinstance(x, tuple) and x[0] == "lin" and not x[1].t for x in t[3]):
            out.append(tuple(x[1].c for x in t[3]))
        for x in t:
            out += consts_in(x)
    return out


def known_literal(E, st, v):
    """the literal a string is known to be equal to on this path"""
    t = E.content(st, v)
    if isinstance(t, tuple) and t and t[0] == "str":
        return t[1]
    for f, val in st.bs.items():
        if val is True and isinstance(f, tuple) and f[0] == "streq":
            return next((x for x in f[1:] if isinstance(x, str)), None)
        if val is True and isinstance(f, tuple):
            lits = []
            find_terms(f, "str", lits)
            if len(lits) == 1:
                return lits[0][1]
    return None


# ------------------------------------------------------------------ S07: no style
def s07(c):
    c.rule = ("MadSkin::no_style is run: in the returned skin, every color of every element other than the scrollbar is None, "
              "every attribute set is empty, and the cached chars are written with that empty style.")
    P = c.prog()
    b = c.need(P.method(SKIN, "no_style"), "MadSkin::no_style")
    r = Run(P, b)
    E = r.E
    for st, v in r.out:
        for n, p, t in leaves(P, b.locals[0]["t"], stop=stops(P)):
            if elem_of(n) in ("scrollbar", "special_chars", "table_border_chars", "list_items_indentation_mode"):
                continue
            f = field(n)
            if f not in (FGF, BGF, "underline_color", "attributes"):
                continue
            c.count("field obligations")
            got = r.at(st, v, p, t)
            if f == "attributes":
                bad = models.attrset(E.content(st, got)) != frozenset()
            else:
                bad = E.variant_of(st, got) != 0
            if bad:
                c.violate("no_style:" + n, "%s:%d %s of the no-style skin is %s" % (b.file, b.line, n, show(E, got)))
    c.floor("field obligations", 60)
