"""Code blocks (K01) and how a text is formatted (K02)."""
import itertools
import absint, fw
from absint import Agg, Sym, Ref, VecV, Lin
from models import NONE, some, UNIT, ok, err
from render import Run1, place
from seqs import Seqs
from outmod import Out
from tables import tyof, vi, exact, Shape, FC, LINE, ROW, RULE

BLOCK = "termimad::code::CodeBlock"
KIND = "termimad::composite_kind::CompositeKind"
SPACING = "termimad::spacing::Spacing"
ALIGN = "minimad::markdown::align::Alignment"


def stand(E, q, P):
    sh = object.__new__(Shape)
    sh.E, sh.q, sh.P, sh.parts, sh.fty = E, q, P, (), tyof(P, FC)
    return sh


def line(sh, E, st, i, k):
    """a line: c (code), p (another composite), r (row), u (rule), h (horizontal rule)"""
    P = sh.P
    lty = tyof(P, LINE)
    if k == "h":
        return Agg(LINE, vi(P, LINE, "HorizontalRule"), (), lty)
    if k in "ru":
        v = vi(P, LINE, "TableRow" if k == "r" else "TableRule")
        return Agg(LINE, v, (E.mk((k, i), tyof(P, ROW if k == "r" else RULE)),), lty)
    vals = []
    for f in P.adts[FC]["variants"][0]["fields"]:
        if f["name"] == "kind":
            if k == "c":
                vals.append(Agg(KIND, vi(P, KIND, "Code"), (), f["ty"]))
            else:
                # (each of the other kinds)
                names = [v["name"] for v in P.adts[KIND]["variants"] if v["name"] != "Code"]
                n = names[i % len(names)]
                fs = P.adts[KIND]["variants"][vi(P, KIND, n)]["fields"]
                vals.append(Agg(KIND, vi(P, KIND, n), tuple(E.mk(("level", i), x["ty"]) for x in fs), f["ty"]))
        else:
            vals.append(E.mk(("line", i, f["name"]), f["ty"]))
    return Agg(LINE, vi(P, LINE, "Normal"), (Agg(FC, None, tuple(vals), tyof(P, FC)),), lty)


def blocks_of(kinds):
    out, i = [], 0
    while i < len(kinds):
        if kinds[i] != "c":
            i += 1
            continue
        j = i
        while j < len(kinds) and kinds[j] == "c":
            j += 1
        out.append((i, j))
        i = j
    return out


def code(c, P, kinds):
    """justify_blocks, on lines of these kinds"""
    bs = [b for b in P.bodies.values() if b.path == "termimad::code::justify_blocks"]
    b = c.need(bs or None, "justify_blocks")[0]
    box = {}

    def calls(E, fr, blk, st, path, fn, args):
        x = exact(box["sh"], E, fr, blk, st, path, fn, args)
        return x if x is not None else box["sh"].calls(E, fr, blk, st, path, fn, args)
    r = Run1(P, b, c, on_call=calls, unroll=20, unroll_paths=64, max_states=2000, max_writes=40, adaptors=True)
    E = r.E
    q = Seqs(E, P)
    sh = box["sh"] = stand(E, q, P)
    st = r.init
    a = E.toref(r.args[0])
    ls = [line(sh, E, st, i, k) for i, k in enumerate(kinds)]
    E.write(st, a.root, a.path, sh.vec(st, ls, tyof(P, LINE)))
    sp = place(P, FC, "spacing")[0]
    swi, sal = (place(P, SPACING, f)[0] for f in ("width", "align"))
    nv = vi(P, LINE, "Normal")
    where = "%s:%d " % (b.file, b.line)
    n = 0
    for s, _ in E.call_body(st.copy(), b, list(r.args)):
        if not E.feasible(s, []):
            continue
        n += 1
        c.count("texts")
        xs = sh.seq(s, E.read(s, a.root, a.path, None))
        if xs is None:
            raise fw.Missing("the lines after justify_blocks")
        if len(xs) != len(ls):
            c.violate("code:lines", where + "justifying code changes the number of lines")
            continue
        inside = set()
        for i, j in blocks_of(kinds):
            inside.update(range(i, j))
            wid = [E.nat(("line", m, "visible_length")) for m in range(i, j)]
            ws = []
            for m in range(i, j):
                c.count("code lines")
                x = xs[m]
                if E.variant_of(s, x) != nv:
                    c.violate("code:kind", where + "a code line becomes something else")
                    continue
                f = x.fields[0] if isinstance(x, Agg) else E.proj(s, x, ("f", 0, nv, tyof(P, FC), "0"))
                o = ls[m].fields[0]
                for y in P.adts[FC]["variants"][0]["fields"]:
                    k = place(P, FC, y["name"])[0]
                    if y["name"] != "spacing" and E.content(s, E.proj(s, f, k)) != E.content(s, E.proj(s, o, k)):
                        c.violate("code:text", where + "justifying code changes more than the spacing of its lines")
                z = E.proj(s, f, sp)
                if E.variant_of(s, z) != 1:
                    c.violate("code:spacing", where + "a code line isn't given the width of its block")
                    continue
                z = z.fields[0] if isinstance(z, Agg) else E.proj(s, z, ("f", 0, 1, None, "0"))
                if E.variant_of(s, E.proj(s, z, sal)) != vi(P, ALIGN, "Left"):
                    c.violate("code:align", where + "a code line isn't aligned at left")
                ws.append(E.proj(s, z, swi))
            for w in ws:
                if not all(E.entails(s, w - y) for y in wid):
                    c.violate("code:narrow", where + "a code block isn't as wide as its widest line")
                z = s.copy()
                if all(E.add_ge(z, w - y - 1) for y in wid) and E.feasible(z, []):
                    c.violate("code:wide", where + "a code block may be wider than its widest line")
        for m in range(len(ls)):
            if m not in inside and E.content(s, xs[m]) != E.content(s, ls[m]):
                c.violate("code:other", where + "a line which isn't code is changed")
    c.need(n or None, "an end of justify_blocks")


def k01(c):
    c.rule = "justify_blocks is interpreted on every short sequence of lines, of arbitrary contents and widths, and the lines compared with the ones wanted."
    P = c.prog()
    for n in range(5 if c.tier == "quick" else 6):
        for x in itertools.product("cpr" if n > 2 else "cpruh", repeat=n):
            code(c, P, "".join(x))
    c.floor("texts", 100)
    c.floor("code lines", 100)


# ------------------------------------------------------------------ how a text is laid out (K02)
TEXT = "termimad::text::FmtText"
MTEXT = "minimad::markdown::text::Text"


def adt(P, end):
    return next((p for p in P.adts if p.endswith(end)), None)


def dst(P, fr, blk):
    t = fr.body.blocks[blk]["t"] if isinstance(blk, int) else None
    return t["dst"]["t"] if isinstance(t, dict) and "dst" in t else None


def strip(k):
    while isinstance(k, tuple) and len(k) == 2 and k[0] in ("*", "S"):
        k = k[1]
    return k


def body(c, P, path):
    return c.need([b for b in P.bodies.values() if b.path == path or norm_path(b.path) == path] or None, path)[0]


def norm_path(p):
    import re
    return re.sub(r"<[^<>]*>", "", re.sub(r"::<[^<>]*>", "", p))


def laying(c, P, n, width):
    """FmtText::from_text on a text of n lines; width: None, a number, or "any" (3 at least)"""
    b = c.need(P.method(TEXT, "from_text"), "FmtText::from_text")
    mt = next(t["path"] for t in (P.types[b.locals[i + 1]["t"]] for i in range(b.argc)) if t.get("path", "").startswith("minimad"))
    box = {}

    def calls(E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m == "from" and fn.get("self_ty") is None and "FmtLine" in path or m == "from" and "line::FmtLine" in path:
            return [(st, E.mk(("fmtline", strip(E.content(st, args[0])), strip(E.content(st, args[1]))), tyof(P, LINE)))]
        if m == "fix_all_tables":
            good = strip(E.content(st, args[2])) == box["skin"]
            st.setg("ops", st.g("ops", ()) + (("tables", lines(st, args[0]), args[1], good),))
            return [(st, UNIT)]
        if m == "justify_blocks":
            st.setg("ops", st.g("ops", ()) + (("code", lines(st, args[0])),))
            return [(st, UNIT)]
        if m == "hard_wrap_lines":
            good = strip(E.content(st, args[2])) == box["skin"]
            st.setg("ops", st.g("ops", ()) + (("wrap", lines(st, args[0]), args[1], good),))
            ty = dst(P, fr, blk)
            return [(st, ok(VecV(("wrapped",), E.nat(("wrapped lines",)), (), tyof(P, LINE))))]
        x = exact(box["sh"], E, fr, blk, st, path, fn, args)
        return x if x is not None else box["sh"].calls(E, fr, blk, st, path, fn, args)

    def lines(st, v):
        xs = box["sh"].seq(st, v)
        return None if xs is None else tuple(box["E"].content(st, x) for x in xs)
    r = Run1(P, b, c, on_call=calls, unroll=20, unroll_paths=64, max_states=400, max_writes=40, adaptors=True)
    E = box["E"] = r.E
    q = Seqs(E, P)
    sh = box["sh"] = stand(E, q, P)
    st = r.init
    box["skin"] = strip(E.content(st, r.by["MadSkin"]))
    args = list(r.args)
    tf = next(f for f in P.adts[mt]["variants"][0]["fields"] if f["name"] == "lines")
    lty = P.types[tf["ty"]]["args"][0]
    vals = tuple(sh.vec(st, [E.mk(("src", i), lty) for i in range(n)], lty) if f["name"] == "lines" else E.mk(("text", f["name"]), f["ty"])
                 for f in P.adts[mt]["variants"][0]["fields"])
    args[r.ix["Text"]] = Agg(mt, None, vals, tyof(P, mt))
    w = None
    if width is None:
        args[r.ix["Option"]] = NONE
    else:
        w = E.nat(("width",)) if width == "any" else Lin(width)
        if width == "any":
            E.add_ge(st, w - 3)
        args[r.ix["Option"]] = some(w)
    given = E.content(st, args[r.ix["Option"]])
    src = tuple(("fmtline", ("src", i), box["skin"]) for i in range(n))
    where = "%s:%d " % (b.file, b.line)
    k = 0
    for s, v in E.call_body(st.copy(), b, args):
        if not E.feasible(s, []):
            continue
        k += 1
        c.count("layouts")
        ops = s.g("ops", ())
        names = [o[0] for o in ops]
        wrapped = width is not None and (width == "any" or width >= 3)
        if sorted(names) != sorted(["tables", "code"] + (["wrap"] if wrapped else [])) or wrapped and names[-1] != "wrap":
            c.violate("layout:steps", where + "the tables aren't fixed, the code justified then the lines wrapped (when the width is at least 3), once each")
            continue
        for o in ops:
            if o[1] is None or tuple(strip(x) for x in o[1]) != src:
                c.violate("layout:lines", where + "the lines laid out aren't the formatted lines of the text, in order")
            if o[0] == "tables":
                if w is not None and not (isinstance(o[2], Lin) and E.entails_eq0(s, o[2] - w)) or w is None and not (isinstance(o[2], Lin) and o[2].is_const() and o[2].c >= 2 ** 32 - 1):
                    c.violate("layout:tables", where + "tables aren't fixed at the width of the text")
            if o[0] == "wrap" and not (isinstance(o[2], Lin) and E.entails_eq0(s, o[2] - w)):
                c.violate("layout:wrap", where + "lines aren't wrapped at the width of the text")
            if o[0] != "code" and not o[3]:
                c.violate("layout:skin", where + "a text isn't laid out for its skin")
        if strip(E.content(s, E.proj(s, v, place(P, TEXT, "skin")[0]))) != box["skin"]:
            c.violate("layout:skin", where + "a text isn't the one of its skin")
        if E.content(s, E.proj(s, v, place(P, TEXT, "width")[0])) != given:
            c.violate("layout:width", where + "a text hasn't the width given")
        ls = E.proj(s, v, place(P, TEXT, "lines")[0])
        if wrapped:
            if not isinstance(ls, VecV) or ls.term != ("wrapped",) or ls.writes:
                c.violate("layout:result", where + "the lines of a text aren't the wrapped ones")
        elif lines(s, ls) is None or tuple(strip(x) for x in lines(s, ls)) != src:
            c.violate("layout:result", where + "the lines of a text aren't the formatted ones")
    c.need(k or None, "an end of FmtText::from_text")


def stubs(P, box):
    """calls taken as terms of their arguments"""
    def calls(E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        K = lambda a: strip(E.content(st, a))
        d = dst(P, fr, blk)
        if m == "get_default_skin":
            return [(st, E.mk(("default skin",), d))]
        if m == "parse_text" and len(args) == 2:
            k = K(args[1])
            return [(st, E.mk(("parsed", K(args[0]), k == ("default", "minimad::Options") or k), d))]
        if m == "raw_str" and "Text" in path and path.startswith("minimad"):
            return [(st, E.mk(("raw", K(args[0])), d))]
        if m == "from_text" and "FmtText" in path:
            return [(st, E.mk(("laid", K(args[1]), K(args[0]), E.content(st, args[2])), tyof(P, TEXT)))]
        if m == "from_inline":
            return [(st, E.mk(("parsed inline", K(args[0])), d))]
        if m == "from" and "FmtComposite" in path:
            return [(st, E.mk(("fc", K(args[0]), K(args[1])), tyof(P, FC)))]
        if m in ("fit_width", "extend_width") and "FmtComposite" in path:
            r = E.toref(args[0])
            st = st.copy()
            E.write(st, r.root, r.path, E.mk((m, K(args[0])) + tuple(E.termof(a) if isinstance(a, Lin) else K(a) for a in args[1:]), tyof(P, FC)))
            return [(st, UNIT)]
        if m == "terminal_size" and path.startswith("termimad"):
            return [(st, Agg("tuple", None, (E.nat(("terminal width",)), E.nat(("terminal height",)))))]
        if m == "expand":
            return [(st, E.mk(("expanded",) + tuple(K(a) for a in args), d))]
        if m == "from" and path.startswith("minimad") and len(args) == 1 or m == "from" and len(args) == 1 and d is not None and (P.types[d].get("path") or "").startswith("minimad"):
            t = (P.types[d].get("path") or "").split("::")[-1]
            if t == "Text":
                return [(st, E.mk(("parsed", K(args[0]), True), d))]
            if t == "TextTemplate":
                return [(st, E.mk(("template", K(args[0])), d))]
        if m == "into" and d is not None and P.types[d].get("path") == "alloc::string::String":
            return [(st, E.mk(("string", K(args[0])), d))]
        o = box.get("out")
        if o is not None:
            if m == "_print":
                return [(s, UNIT) for s in o.template(fr, blk, st, args[0])]
            if m == "stdout" and not path.startswith("termimad"):
                return [(st, o.dest())]
            if m == "write_on" and "TextView" in path:
                s = st.copy()
                v = args[0]
                f = {x["name"]: E.proj(s, E.deref(s, v), place(P, VIEW, x["name"])[0]) for x in P.adts[VIEW]["variants"][0]["fields"]}
                sb = f["show_scrollbar"]
                o.put(s, ("view", K(f["area"]), K(f["text"]), K(f["scroll"]), E.truth(s, E.asf(sb))))
                return [(s, ok(UNIT))]
        return None
    return calls


VIEW = "termimad::views::text_view::TextView"
MADVIEW = "termimad::views::mad_view::MadView"
INLINE = "termimad::inline::FmtInline"


def k02(c):
    c.rule = ("FmtText::from_text is interpreted on texts of 0 to 3 lines with no width, widths under 3 or any other, its steps being taken as opaque; "
              "FmtText::from and raw_str, FmtLine::from, the kinds of composites and the widths of lines and texts are compared with their specification.")
    P = c.prog()
    for n in range(4 if c.tier == "quick" else 6):
        for w in (None, 0, 1, 2, 3, "any"):
            laying(c, P, n, w)
    for name in ("from", "raw_str"):
        b = c.need(P.method(TEXT, name), "FmtText::" + name)
        r = Run1(P, b, c, on_call=stubs(P, {}))
        E = r.E
        src = [i for i in range(b.argc) if P.types[b.locals[i + 1]["t"]]["k"] == "ref" and i != r.ix["MadSkin"]][0]
        s0 = strip(E.content(r.init, r.args[src]))
        want = ("laid", ("parsed", s0, True) if name == "from" else ("raw", s0), strip(E.content(r.init, r.by["MadSkin"])), E.content(r.init, r.by["Option"]))
        for s, v in c.need(r.go() or None, "an end of FmtText::" + name):
            c.count("sources")
            if strip(E.content(s, v)) != want:
                c.violate("source:" + name, "%s:%d FmtText::%s doesn't lay out its source, for its skin and width" % (b.file, b.line, name))
    kinds(c, P)
    row_cells(c, P)
    widths(c, P)
    c.floor("layouts", 15)
    c.floor("sources", 2)
    c.floor("kinds", 8)
    c.floor("widths", 6)


def kinds(c, P):
    """FmtLine::from and CompositeKind::from"""
    b = c.need(P.method(LINE, "from"), "FmtLine::from")
    ml = next(t["path"] for t in (P.types[b.locals[i + 1]["t"]] for i in range(b.argc)) if t.get("path", "").startswith("minimad"))
    for v in P.adts[ml]["variants"]:
        def calls(E, fr, blk, st, path, fn, args):
            m = path.split("::")[-1]
            if m == "from" and "FmtComposite" in path:
                return [(st, E.mk(("fc", strip(E.content(st, args[0])), strip(E.content(st, args[1]))), tyof(P, FC)))]
            if m == "from" and "FmtTableRow" in path:
                return [(st, E.mk(("row", strip(E.content(st, args[0])), strip(E.content(st, args[1]))), tyof(P, ROW)))]
        r = Run1(P, b, c, on_call=calls)
        E = r.E
        k = vi(P, ml, v["name"])
        fs = [E.mk(("of", f["name"]), f["ty"]) for f in v["fields"]]
        args = list(r.args)
        args[r.ix["Line"]] = Agg(ml, k, tuple(fs), tyof(P, ml))
        skin = strip(E.content(r.init, r.by["MadSkin"]))
        for s, x in E.call_body(r.init.copy(), b, args):
            if not E.feasible(s, []):
                continue
            c.count("kinds")
            name = v["name"] if v["name"] in ("Normal", "TableRow", "TableRule") else "HorizontalRule"
            good = E.variant_of(s, x) == vi(P, LINE, name)
            if good and name in ("Normal", "TableRow"):
                y = strip(E.content(s, E.proj(s, x, ("f", 0, vi(P, LINE, name), tyof(P, FC if name == "Normal" else ROW), "0"))))
                good = y == ("fc" if name == "Normal" else "row", ("of", v["fields"][0]["name"]), skin)
            if good and name == "TableRule":
                y = E.proj(s, x, ("f", 0, vi(P, LINE, name), tyof(P, RULE), "0"))
                a = E.content(s, E.proj(s, y, place(P, RULE, "aligns")[0]))
                src = fs[0]
                tr = P.types[v["fields"][0]["ty"]]["path"]
                w = E.content(s, E.proj(s, src, next(("f", i, None, f["ty"], f["name"]) for i, f in enumerate(P.adts[tr]["variants"][0]["fields"]) if f["name"] == "cells")))
                good = strip(a) == strip(w)
            if not good:
                c.violate("kind:" + v["name"], "%s:%d a source line (%s) isn't formatted as itself" % (b.file, b.line, v["name"]))
    b = c.need(P.method(KIND, "from", "From"), "CompositeKind::from")
    cs = P.types[b.locals[1]["t"]]["path"]
    for v in P.adts[cs]["variants"]:
        r = Run1(P, b, c)
        E = r.E
        fs = [E.mk(("level", i), f["ty"]) for i, f in enumerate(v["fields"])]
        args = [Agg(cs, vi(P, cs, v["name"]), tuple(fs), tyof(P, cs))]
        for s, x in E.call_body(r.init.copy(), b, args):
            if not E.feasible(s, []):
                continue
            c.count("kinds")
            k = vi(P, KIND, v["name"])
            if E.variant_of(s, x) != k or any(E.content(s, E.proj(s, x, ("f", i, k, f.ty if hasattr(f, "ty") else None, str(i)))) != E.content(s, f) for i, f in enumerate(fs)):
                c.violate("composite:" + v["name"], "%s:%d the kind of a composite isn't the one of its style" % (b.file, b.line))


def row_cells(c, P):
    """FmtTableRow::from"""
    b = c.need(P.method(ROW, "from"), "FmtTableRow::from")
    i = next(i for i in range(b.argc) if P.types[b.locals[i + 1]["t"]].get("path", "").startswith("minimad"))
    tr = P.types[b.locals[i + 1]["t"]]["path"]
    f0 = next(f for f in P.adts[tr]["variants"][0]["fields"] if f["name"] == "cells")
    ety = P.types[f0["ty"]]["args"][0]
    for n in range(4):
        box = {}

        def calls(E, fr, blk, st, path, fn, args):
            m = path.split("::")[-1]
            if m == "from" and "FmtComposite" in path:
                return [(st, E.mk(("fc", strip(E.content(st, args[0])), strip(E.content(st, args[1]))), tyof(P, FC)))]
            x = exact(box["sh"], E, fr, blk, st, path, fn, args)
            return x if x is not None else box["sh"].calls(E, fr, blk, st, path, fn, args)
        r = Run1(P, b, c, on_call=calls, unroll=20, unroll_paths=64, adaptors=True)
        E = r.E
        q = Seqs(E, P)
        sh = box["sh"] = stand(E, q, P)
        args = list(r.args)
        skin = strip(E.content(r.init, r.by["MadSkin"]))
        args[i] = Agg(tr, None, tuple(sh.vec(r.init, [E.mk(("cell", k), ety) for k in range(n)], ety) if f["name"] == "cells" else E.mk(("row", f["name"]), f["ty"])
                                      for f in P.adts[tr]["variants"][0]["fields"]), tyof(P, tr))
        for s, v in c.need(E.call_body(r.init.copy(), b, args) or None, "an end of FmtTableRow::from"):
            c.count("kinds")
            xs = sh.seq(s, E.proj(s, v, place(P, ROW, "cells")[0]))
            if xs is None or [strip(E.content(s, x)) for x in xs] != [("fc", ("cell", k), skin) for k in range(n)]:
                c.violate("kind:cells", "%s:%d the cells of a row aren't the formatted cells of its source, in order" % (b.file, b.line))


def widths(c, P):
    """FmtText::content_width, set_rendering_width"""
    b = c.need(P.method(TEXT, "content_width"), "FmtText::content_width")
    for n in range(4):
        box = {}

        def calls(E, fr, blk, st, path, fn, args):
            if path.split("::")[-1] == "visible_length" and len(args) == 1:
                return [(st, E.nat(("wide", strip(E.content(st, args[0])))))]
            x = exact(box["sh"], E, fr, blk, st, path, fn, args)
            return x if x is not None else box["q"].on_call(E, fr, blk, st, path, fn, args)
        r = Run1(P, b, c, on_call=calls, unroll=20, unroll_paths=64, adaptors=True)
        E = r.E
        q = box["q"] = Seqs(E, P)
        sh = box["sh"] = stand(E, q, P)
        me = E.toref(r.args[0])
        st = r.init
        E.read(st, me.root, me.path, None)
        lty = tyof(P, LINE)
        E.write(st, me.root, me.path + (place(P, TEXT, "lines")[0],), sh.vec(st, [E.mk(("line", i), lty) for i in range(n)], lty))
        ws = [E.nat(("wide", ("line", i))) for i in range(n)]
        for s, v in c.need(E.call_body(st.copy(), b, list(r.args)) or None, "an end of content_width"):
            if not E.feasible(s, []):
                continue
            c.count("widths")
            if not isinstance(v, Lin) or not all(E.entails(s, v - w) for w in ws):
                c.violate("content:narrow", "%s:%d the content of a text is said narrower than one of its lines" % (b.file, b.line))
                continue
            z = s.copy()
            if E.add_ge(z, v - 1) and all(E.add_ge(z, v - w - 1) for w in ws) and E.feasible(z, []):
                c.violate("content:wide", "%s:%d the content of a text is said wider than all its lines" % (b.file, b.line))
    b = c.need(P.method(TEXT, "set_rendering_width"), "FmtText::set_rendering_width")
    r = Run1(P, b, c)
    E = r.E
    me = E.toref(r.args[0])
    for s, _ in c.need(r.go() or None, "an end of set_rendering_width"):
        c.count("widths")
        for f in ("skin", "lines", "width"):
            k = place(P, TEXT, f)[0]
            got = E.content(s, E.read(s, me.root, me.path + (k,), k[3]))
            w = E.content(s, some(r.args[1])) if f == "width" else E.content(r.init, E.read(r.init.copy(), me.root, me.path + (k,), k[3]))
            if got != w:
                c.violate("rendering:" + f, "%s:%d setting the rendering width of a text sets something else" % (b.file, b.line))


# ------------------------------------------------------------------ what's laid out for each destination (K03)
def shown(c):
    """(function, what it returns, what it writes): functions of src, area, composite, expander… given by their contents"""
    def laid(a, w, src=None):
        return ("laid", src or ("parsed", a["str"], True), a["MadSkin"], w)
    one = lambda x: ("agg", "core::option::Option", 1, (("lin", x),), None)
    tw = lambda a: a["some"](a["E"].nat(("terminal width",)))
    aw = lambda a: a["some"](a["area width"] - 1)
    inl = lambda a, x: ("inline", a["MadSkin"], x)
    text = lambda a, w, src=None: ("text", laid(a, w, src))
    fc = lambda a, x: ("fc", x, a["MadSkin"])
    pin = lambda a: fc(a, ("parsed inline", a["str"]))
    return [
        ("text", lambda a: laid(a, a["Option"]), None), ("term_text", lambda a: laid(a, tw(a)), None), ("area_text", lambda a: laid(a, aw(a)), None),
        ("inline", lambda a: inl(a, pin(a)), None),
        ("print_inline", None, lambda a: [inl(a, pin(a))]), ("write_inline", None, lambda a: [inl(a, pin(a))]), ("write_inline_on", None, lambda a: [inl(a, pin(a))]),
        ("print_text", None, lambda a: [text(a, tw(a))]), ("write_text", None, lambda a: [text(a, tw(a))]), ("write_text_on", None, lambda a: [text(a, tw(a))]),
        ("print_expander", None, lambda a: [text(a, tw(a), ("expanded", a["TextTemplateExpander"]))]),
        ("print_owning_expander", None, lambda a: [text(a, tw(a), ("expanded", a["OwningTemplateExpander"], a["TextTemplate"]))]),
        ("print_owning_expander_md", None, lambda a: [text(a, tw(a), ("expanded", a["OwningTemplateExpander"], ("template", ("string", a["last"]))))]),
        ("print_composite", None, lambda a: [inl(a, fc(a, a["Composite"]))]), ("write_composite", None, lambda a: [inl(a, fc(a, a["Composite"]))]),
        ("write_composite_fill", None, lambda a: [inl(a, ("extend_width", ("fit_width", fc(a, a["Composite"]), a["usize"], a["Alignment"], a["MadSkin"]),
                                                         a["usize"], a["Alignment"]))]),
        ("write_in_area", None, lambda a: [("view", a["Area"], laid(a, aw(a)), ("lin", Lin(0)), False)]),
        ("write_in_area_on", None, lambda a: [("view", a["Area"], laid(a, aw(a)), ("lin", Lin(0)), False)]),
    ]


def prepare(c, P, b):
    box = {}
    o = box["out"] = Out(P, on_call=stubs(P, box), stop={
        TEXT: lambda E, st, x: ("text", strip(E.content(st, x))),
        INLINE: lambda E, st, x: inline_of(P, E, st, x)})
    E = o.E
    st = o.init()
    args, a = [], {"E": E}
    for i in range(b.argc):
        ty = b.locals[i + 1]["t"]
        t = P.types[ty]
        u = P.types[t["ty"]] if t["k"] == "ref" else t
        k = (u.get("path") or u["k"]).split("::")[-1]
        if t["k"] == "ref" and t.get("mut") and k == "param":
            args.append(o.dest())
            continue
        x = E.mk(("arg", i + 1), ty)
        args.append(x)
        a[k] = a["last"] = strip(E.content(st, x)) if not isinstance(x, Lin) else E.termof(x)
        if k == "Area":
            r = E.toref(x)
            w = place(P, "termimad::area::Area", "width")[0]
            a["area width"] = E.read(st, r.root, r.path + (w,), w[3])
            E.add_ge(st, a["area width"] - 1)
        if isinstance(x, Lin):
            a["usize"] = E.termof(x)
    a["some"] = lambda w: E.content(st, some(w))
    return o, E, st, args, a


def inline_of(P, E, st, x):
    return ("inline", strip(E.content(st, E.proj(st, x, place(P, INLINE, "skin")[0]))), strip(E.content(st, E.proj(st, x, place(P, INLINE, "composite")[0]))))


def k03(c):
    c.rule = ("The functions of MadSkin and MadView which show markdown are interpreted with the parsing, layout and drawing as opaque terms: what each "
              "returns or writes must be the term wanted, of its own source, skin, width and area.")
    P = c.prog()
    for name, ret, wr in shown(c):
        b = c.need(P.method("termimad::skin::MadSkin", name), "MadSkin::" + name)
        o, E, st, args, a = prepare(c, P, b)
        n = 0
        for s, v in E.call_body(st.copy(), b, args):
            if not E.feasible(s, []):
                continue
            if wr is not None and E.variant_of(s, v) == 1:
                continue
            n += 1
            c.count("ways to show")
            if ret is not None:
                got = inline_of(P, E, s, v) if name == "inline" else strip(E.content(s, v))
                if got != ret(a):
                    c.violate("shown:" + name, "%s:%d MadSkin::%s doesn't give its source laid out for its destination" % (b.file, b.line, name))
            got = o.runs(s)
            want = [(u, Lin(1)) for u in wr(a)] if wr is not None else []
            if list(got) != want:
                c.violate("shown:" + name, "%s:%d MadSkin::%s doesn't write its source laid out for its destination, once" % (b.file, b.line, name))
        c.need(n or None, "an end of MadSkin::" + name)
    mad(c, P)
    resize(c, P)
    c.floor("ways to show", 18)
    c.floor("views", 2)
    c.floor("resizings", 2)


def mad_fields(P, E, st, me):
    return {f["name"]: E.read(st, me.root, me.path + (place(P, MADVIEW, f["name"])[0],), f["ty"]) for f in P.adts[MADVIEW]["variants"][0]["fields"]}


def mad(c, P):
    for name in ("write_on", "write"):
        b = c.need(P.method(MADVIEW, name), "MadView::" + name)
        o, E, st, args, a = prepare(c, P, b)
        me = E.toref(args[0])
        f = mad_fields(P, E, st, me)
        w = place(P, "termimad::area::Area", "width")[0]
        aw = E.proj(st, f["area"], w)
        E.add_ge(st, aw - 1)
        K = lambda x: strip(E.content(st, x))
        want = [(("view", K(f["area"]), ("laid", ("parsed", K(f["markdown"]), True), K(f["skin"]), E.content(st, some(aw - 1))), K(f["scroll"]), True), Lin(1))]
        n = 0
        for s, v in E.call_body(st.copy(), b, args):
            if not E.feasible(s, []) or E.variant_of(s, v) == 1:
                continue
            n += 1
            c.count("views")
            if list(o.runs(s)) != want:
                c.violate("view:" + name, "%s:%d MadView::%s doesn't draw its markdown in its area, at its scroll" % (b.file, b.line, name))
        c.need(n or None, "an end of MadView::" + name)


def resize(c, P):
    b = c.need(P.method(MADVIEW, "resize"), "MadView::resize")
    o, E, st, args, a = prepare(c, P, b)
    me = E.toref(args[0])
    old = mad_fields(P, E, st, me)
    new = {f["name"]: E.read(st, E.toref(args[1]).root, E.toref(args[1]).path + (place(P, "termimad::area::Area", f["name"])[0],), f["ty"])
           for f in P.adts["termimad::area::Area"]["variants"][0]["fields"]}
    w = place(P, "termimad::area::Area", "width")[0]
    ow = E.proj(st, old["area"], w)
    where = "%s:%d " % (b.file, b.line)
    n = 0
    for s, v in E.call_body(st.copy(), b, args):
        if not E.feasible(s, []):
            continue
        n += 1
        c.count("resizings")
        f = mad_fields(P, E, s, me)
        for k in ("markdown", "skin"):
            if E.content(s, f[k]) != E.content(st, old[k]):
                c.violate("resize:" + k, where + "resizing a mad view changes its " + k)
        for k, x in new.items():
            g = E.proj(s, f["area"], place(P, "termimad::area::Area", k)[0])
            if not E.entails_eq0(s, g - x):
                c.violate("resize:area", where + "a resized mad view hasn't the area given")
        kept = E.entails_eq0(s, f["scroll"] - old["scroll"])
        if not kept:
            z = s.copy()
            if E.add_eq(z, ow - new["width"]) and E.feasible(z, []) and not any(x in (ow - new["width"], new["width"] - ow) for x in s.ne):
                c.violate("resize:scroll", where + "resizing a mad view without changing its width loses its scroll")
            elif not E.entails_eq0(s, f["scroll"]):
                c.violate("resize:scroll", where + "resizing a mad view neither keeps its scroll nor goes back to the top")
        else:
            z = s.copy()
            if any(E.add_ge(y, d) and E.feasible(y, []) for y, d in ((s.copy(), ow - new["width"] - 1), (s.copy(), new["width"] - ow - 1))):
                c.violate("resize:top", where + "a mad view whose width changes doesn't go back to the top")
    c.need(n or None, "an end of MadView::resize")
