"""The content of input fields: validity of the cursor and of the selection, moves, edits (I..)."""
import absint, fw
from absint import Agg, VecV, Lin
from views import method, panics, truthful
from render import place
from content import Content, methods, IFC, LINE, POS

# public methods whose precondition isn't only the validity of the content: none
OTHER_SEL = (False, "same", "above", "below")


def job(args):
    kind, name, sel, tier = args
    c = fw.Check("I", tier)
    P = c.prog()
    try:
        JOBS[kind](c, P, name, sel)
    except fw.Missing as e:
        c.violate("anchor:%s" % name, str(e))
    return c.viol, c.counts


def spread(c, jobs):
    for viol, counts in fw.pmap(job, [j + (c.tier,) for j in jobs]):
        for k, x in viol.items():
            c.violate(k, x)
        for k, n in counts.items():
            c.count(k, n)


def public(c, P, mut=None):
    out = []
    for b in P.bodies.values():
        if b.kind == "fn" and P.self_adt(b) == IFC and not (b.impl_of or "").strip() and b.argc and b.vis == "pub":
            t = P.types[b.locals[1]["t"]]
            if t["k"] == "ref" and P.types[t["ty"]].get("path") == IFC and (mut is None or bool(t.get("mut")) == mut):
                out.append(b.name)
    return sorted(out)


# ------------------------------------------------------------------ I01
def valid_after(c, P, name, sel):
    v = Content(c, P, name, sel=sel)
    for st, r in v.go():
        c.count("end states")
        v.valid(st)
    panics(c, v.E, name)


def no_panic(c, P, name, sel):
    v = Content(c, P, name, sel=sel)
    v.go()
    panics(c, v.E, name)


def birth(c, P):
    """a new content is valid"""
    from render import Run1
    b = [b for b in P.bodies.values() if b.name == "default" and P.self_adt(b) == IFC]
    for b in c.need(b or None, "InputFieldContent::default"):
        r = Run1(P, b, c)
        E = r.E
        for st, v in r.go():
            c.count("validity obligations")
            f = {x: E.proj(st, v, place(P, IFC, x)[0]) for x in ("pos", "selection_tail", "lines")}
            x, y = (E.proj(st, f["pos"], place(P, POS, k)[0]) for k in ("x", "y"))
            if not (isinstance(f["lines"], VecV) and E.entails(st, f["lines"].len - 1)):
                c.violate("content:default:lines", "%s:%d the default content may have no line" % (b.file, b.line))
            if not (isinstance(x, Lin) and isinstance(y, Lin) and E.entails_eq0(st, x) and E.entails_eq0(st, y)):
                c.violate("content:default:cursor", "%s:%d the cursor of the default content isn't at its start" % (b.file, b.line))
            if E.variant_of(st, f["selection_tail"]) != 0:
                c.violate("content:default:tail", "%s:%d the default content has a selection" % (b.file, b.line))


def i01(c):
    P = c.prog()
    birth(c, P)
    muts, reads = public(c, P, True), public(c, P, False)
    spread(c, [("valid", m, s) for m in muts for s in OTHER_SEL] + [("nopanic", m, s) for m in reads for s in OTHER_SEL])
    c.count("methods", len(muts) + len(reads))
    c.floor("methods", 30)
    c.floor("end states", 300)


# ------------------------------------------------------------------ the oracle of the moves and of the edits
class Case:
    def __init__(self, conds, pos=None, ret=None, lines=None, tail="same", what=""):
        self.conds, self.pos, self.ret, self.lines, self.tail, self.what = conds, pos, ret, lines, tail, what


def pieces(v, *ps):
    return v.q.make(list(ps), v.L0.ety)


def with_line(v, y, *chars):
    """the initial lines with other chars in the line y"""
    return pieces(v, pre(v, y), line(v, *chars), rest(v, y + 1))


def pre(v, n):
    return (("pre", v.L0.term), n)


def rest(v, i):
    return (("suf", v.L0.term), v.n0 - i)


def mid(v, i, j):
    return (("sub", v.L0.term, i), j - i)


def line(v, *chars):
    return v.q.item(v.st, v.mkline(v.q.make(list(chars), v.C.ety)))


def cpre(C, n):
    return (("pre", C.term), n)


def csuf(C, i):
    return (("suf", C.term), C.len - i)


def csub(C, i, j):
    return (("sub", C.term, i), j - i)


def check(c, v, cases, only_ret=False):
    """every end state is as one of the cases tells"""
    E = v.E
    name = v.name
    for st, r in v.go():
        for k, w in enumerate(cases):
            s = st.copy()
            if not all(E.add_ge(s, l) for l in w.conds) or not E.feasible(s, []):
                continue
            if not v.congruent(s):
                continue
            c.count("end states")
            if w.pos is not None:
                x, y = v.pos(s)
                if not (isinstance(x, Lin) and isinstance(y, Lin) and E.entails_eq0(s, x - w.pos[0]) and E.entails_eq0(s, y - w.pos[1])):
                    v.fail("cursor", "the cursor isn't where it should be, %s" % w.what)
            if w.lines is not None and not v.q.same(s, v.lines(s), w.lines):
                v.fail("lines", "the text isn't what it should be, %s" % w.what)
            if w.ret is not None and not truthful(E, s, r, Lin(0 if w.ret else -1)):
                v.fail("result", "doesn't return %s, %s" % ("true" if w.ret else "false", w.what))
            if w.tail == "same":
                if E.content(s, v.tail(s)) != E.content(v.st, v.tail(v.st)):
                    v.fail("tail", "the other end of the selection changes, %s" % w.what)
            elif w.tail == "none" and E.variant_of(s, v.tail(s)) != 0:
                v.fail("tail", "there's still a selection, %s" % w.what)
            elif isinstance(w.tail, tuple):
                t = v.tail(s)
                if E.variant_of(s, t) != 1:
                    v.fail("tail", "there may be no selection, %s" % w.what)
                    continue
                x, y = v.xy(s, E.proj(s, t, ("f", 0, 1, v.pty, "0")))
                if not (E.entails_eq0(s, x - w.tail[0]) and E.entails_eq0(s, y - w.tail[1])):
                    v.fail("tail", "the other end of the selection isn't where it should be, %s" % w.what)
    panics(c, v.E, name)


def eq(a, b):
    return [a - b, b - a]


# ------------------------------------------------------------------ I02
def moves(v):
    """{method: cases}"""
    st, x, y, n, C = v.st, v.x0, v.y0, v.n0, v.C
    L, same = v.L0, (v.x0, v.y0)
    z = Lin(0)

    def unmoved(*conds):
        return Case(list(conds), same, False, L, what="when it can't move")
    name = v.name
    if name == "move_right":
        return [Case([C.len - x - 1], (x + 1, y), True, L, what="within a line"),
                Case([x - C.len, n - y - 2], (z, y + 1), True, L, what="at the end of a line"), unmoved(x - C.len, y + 1 - n)]
    if name == "move_left":
        up = v.chars0(st, y - 1)
        return [Case([x - 1], (x - 1, y), True, L, what="within a line"),
                Case([-x, y - 1], (up.len, y - 1), True, L, what="at the start of a line"), unmoved(-x, -y)]
    if name == "can_move_right":
        return [Case([C.len - x - 1], same, True, L), Case([x - C.len, n - y - 2], same, True, L), unmoved(x - C.len, y + 1 - n)]
    if name == "can_move_left":
        return [Case([x - 1], same, True, L), Case([-x, y - 1], same, True, L), unmoved(-x, -y)]
    if name == "move_to_end":
        last = v.chars0(st, n - 1)
        return [Case([n - 1 - y - 1], (last.len, n - 1), True, L, what="from another line"),
                Case([y - n + 1, C.len - x - 1], (C.len, y), True, L, what="in the last line"), unmoved(y - n + 1, x - C.len)]
    if name == "move_to_start":
        return [Case([y - 1], (z, z), True, L, what="from another line"), Case([-y, x - 1], (z, z), True, L, what="in the first line"),
                unmoved(-x, -y)]
    if name == "move_to_line_end":
        return [Case([C.len - x - 1], (C.len, y), True, L), unmoved(x - C.len)]
    if name == "move_to_line_start":
        return [Case([x - 1], (z, y), True, L), unmoved(-x)]
    if name in ("move_up", "move_lines_up"):
        k = Lin(1) if name == "move_up" else v.args[1]
        return [Case([y - 1, y - k], (None, y - k), True, L, what="when there are lines enough"),
                Case([y - 1, k - y - 1], (None, z), True, L, what="by more lines than there are"), unmoved(-y)]
    if name in ("move_down", "move_lines_down"):
        k = Lin(1) if name == "move_down" else v.args[1]
        return [Case([n - y - 2, n - 1 - y - k], (None, y + k), True, L, what="when there are lines enough"),
                Case([n - y - 2, k - n + y], (None, n - 1), True, L, what="by more lines than there are"), unmoved(y - n + 1)]
    if name == "set_cursor_pos":
        px, py = v.xy(st, v.args[1])
        D = v.chars0(st, py)
        last = v.chars0(st, n - 1)
        return [Case([n - py - 1, D.len - px], (px, py), None, L, what="to a valid position"),
                Case([n - py - 1, px - D.len - 1], (D.len, py), None, L, what="to a position after the end of a line"),
                Case([py - n], (last.len, n - 1), None, L, what="to a position after the last line")]
    if name == "make_selection":
        return [Case([], same, None, L, tail=(v.tx0, v.ty0) if v.sel else same)]
    if name == "unselect":
        return [Case([], same, None, L, tail="none")]
    if name == "set_selection_tail":
        px, py = v.xy(st, v.args[1])
        D = v.chars0(st, py)
        last = v.chars0(st, n - 1)
        return [Case([n - py - 1, D.len - px], same, None, L, tail=(px, py), what="to a valid position"),
                Case([n - py - 1, px - D.len - 1], same, None, L, tail=(D.len, py), what="to a position after the end of a line"),
                Case([py - n], same, None, L, tail=(last.len, n - 1), what="to a position after the last line")]
    return None


def col_calls(v):
    """the columns of a position, and the position at a column, in the lines asked for; what they are is another matter"""
    v.cols = []

    def mine(E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m not in ("char_idx_to_col", "col_to_char_idx") or not (fn.get("rid") or "").startswith("termimad"):
            return None
        r = E.toref(args[0])
        w = E.read(st, r.root, r.path + (place(v.P, LINE, "chars")[0],), None)
        if not isinstance(w, VecV):
            return None
        if m == "char_idx_to_col":
            E.obligation(fr, blk, "slice", E.entails(st, w.len - args[1]), "index <= len not proven")
            return [(st, E.nat(("col", w.term, args[1])))]
        t = E.nat(("idx", w.term, args[1]))
        out = []
        from models import some, NONE
        s = st.copy()
        if E.add_ge(s, w.len - t - 1) and E.feasible(s, []):
            out.append((s, some(t)))
        s = st.copy()
        if E.add_ge(s, t - w.len) and E.add_ge(s, w.len - t) and E.feasible(s, []):
            out.append((s, NONE))
        return out
    v.mine = mine


def check_move(c, P, name, sel):
    v = Content(c, P, name, sel=sel)
    cases = moves(v)
    if "lines_" in name or name in ("move_up", "move_down"):
        col_calls(v)
        done = []
        for w in cases:
            if w.pos[0] is None:
                # the char at the same column of the other line, or its end
                D = v.chars0(v.st, w.pos[1])
                t = v.E.nat(("idx", D.term, v.E.nat(("col", v.C.term, v.x0))))
                w.pos = (t, w.pos[1])
    check(c, v, cases)


def check_word_move(c, P, name, sel):
    """within the line, to the side told"""
    v = Content(c, P, name, sel=sel)
    E = v.E
    left = name.endswith("left")
    can = v.x0 - 1 if left else v.len0 - v.x0 - 1
    for st, r in v.go():
        c.count("end states")
        x, y = v.pos(st)
        if not E.entails_eq0(st, y - v.y0):
            v.fail("line", "the cursor may leave its line")
        if not v.q.same(st, v.lines(st), v.L0):
            v.fail("lines", "the text may change")
        if E.content(st, v.tail(st)) != E.content(v.st, v.tail(v.st)):
            v.fail("tail", "the other end of the selection changes")
        if not truthful(E, st, r, can):
            v.fail("result", "doesn't tell whether the cursor moves")
        s = st.copy()
        if E.add_ge(s, can) and E.feasible(s, []) and not E.entails(s, (v.x0 - x if left else x - v.x0) - 1):
            v.fail("cursor", "the cursor may not move to the %s" % ("left" if left else "right"))
        s = st.copy()
        if E.add_ge(s, -can - 1) and E.feasible(s, []) and not E.entails_eq0(s, v.x0 - x):
            v.fail("cursor", "the cursor may move while it can't")
    panics(c, E, name)


MOVES = ("move_right", "move_left", "can_move_right", "can_move_left", "move_to_end", "move_to_start", "move_to_line_end",
         "move_to_line_start", "move_up", "move_lines_up", "move_down", "move_lines_down", "set_cursor_pos", "make_selection", "unselect",
         "set_selection_tail")


def i02(c):
    spread(c, [("move", m, s) for m in MOVES for s in OTHER_SEL] +
           [("word", m, s) for m in ("move_word_left", "move_word_right") for s in OTHER_SEL])
    c.floor("end states", 150)


# ------------------------------------------------------------------ I03
def edits(v):
    st, x, y, n, C = v.st, v.x0, v.y0, v.n0, v.C
    L, same = v.L0, (v.x0, v.y0)
    z = Lin(0)
    name = v.name
    broken = lambda: pieces(v, pre(v, y), line(v, cpre(C, x)), line(v, csuf(C, x)), rest(v, y + 1))

    def joined(i, cut=None):
        """the lines i and i + 1 in one"""
        A, B = v.chars0(st, i), v.chars0(st, i + 1)
        return pieces(v, pre(v, i), line(v, cpre(A, A.len), csuf(B, z)), rest(v, i + 2))
    if name in ("insert_char", "push_char"):
        ch = v.args[1]
        no = lambda *cs: Case(list(cs), same, None, L, what="for a carriage return or a backspace")
        normal = [[9 - ch], [ch - 9] + [9 - ch], [ch - 11, 12 - ch], [ch - 14]]
        normal = [[7 - ch], [ch - 9, 9 - ch], [ch - 11, 12 - ch], [ch - 14]]
        if name == "push_char":
            D = v.chars0(st, n - 1)
            D2 = pieces(v, pre(v, n - 1), line(v, cpre(D, D.len), v.q.item(st, ch)))
            nl = Case(eq(ch, Lin(10)), same, None, pieces(v, pre(v, n), line(v)), what="for a newline")
            txt = [Case(k, same, None, D2, what="for a char") for k in normal]
        else:
            nl = Case(eq(ch, Lin(10)), (z, y + 1), None, broken(), tail=None, what="for a newline")
            txt = [Case(k, (x + 1, y), None, with_line(v, y, cpre(C, x), v.q.item(st, ch), csuf(C, x)), tail=None, what="for a char")
                   for k in normal]
        return [nl, no(*eq(ch, Lin(13))), no(*eq(ch, Lin(8)))] + txt
    if name == "insert_new_line":
        return [Case([], (z, y + 1), None, broken(), tail=None)]
    if name == "clear":
        return [Case([], (z, z), None, pieces(v, line(v)), tail="none")]
    if name == "del_char_left":
        A = v.chars0(st, y - 1)
        return [Case([x - 1], (x - 1, y), True, with_line(v, y, cpre(C, x - 1), csuf(C, x)), tail=None, what="in a line"),
                Case([-x, y - 1], (A.len, y - 1), True, joined(y - 1), tail=None, what="at the start of a line"),
                Case([-x, -y], same, False, L, what="at the start of the text")]
    if name == "del_char_below":
        return below(v)
    if name == "swap_lines":
        a, b = v.args[1:]
        out = [Case(eq(a, b), same, False, L, what="for the same line twice"),
               Case([a - n], same, False, L, what="for a line out of range"), Case([b - n], same, False, L, what="for a line out of range")]
        for i, j in ((a, b), (b, a)):
            w = pieces(v, pre(v, i), one(v, j), mid(v, i + 1, j), one(v, i), rest(v, j + 1))
            out.append(Case([j - i - 1, n - j - 1], None, True, w, tail=None, what="for two lines"))
        return out
    if name in ("move_current_line_up", "move_current_line_down"):
        i = y - 1 if name.endswith("up") else y
        w = pieces(v, pre(v, i), one(v, i + 1), one(v, i), rest(v, i + 2))
        can = y - 1 if name.endswith("up") else n - y - 2
        return [Case([can], (x, y - 1 if name.endswith("up") else y + 1), True, w, tail=None),
                Case([-can - 1], same, False, L, what="when there's no other line on that side")]
    if name == "del_selection":
        if not v.sel:
            return [Case(w.conds, w.pos, w.ret, w.lines, tail=None, what=w.what) for w in below(v)]
        tx, ty, T = v.tx0, v.ty0, v.T
        # (the ends in order, the lines they're in)
        if v.sel == "same":
            out = [Case(eq(tx, x) + w.conds, w.pos, w.ret, w.lines, tail=None, what="when the selection is a char: " + w.what) for w in below(v)]
            ends = [([tx - x - 1], x, tx), ([x - tx - 1], tx, x)]
            for o, lo, hi in ends:
                out.append(Case(o + [C.len - hi - 1], (lo, y), True, with_line(v, y, cpre(C, lo), csuf(C, hi + 1)), tail="none",
                                what="in a line"))
                out.append(Case(o + [hi - C.len, lo - 1], (lo, y), True, with_line(v, y, cpre(C, lo)), tail="none", what="up to the end of a line"))
                out += whole(v, o + [hi - C.len, -lo], y, y + 1)
            return out
        (ax, ay, A), (bx, by, B) = ((x, y, C), (tx, ty, T))[::1 if v.sel == "below" else -1]
        one_line = line(v, cpre(A, ax), csuf(B, bx + 1))
        w = pieces(v, pre(v, ay), one_line, rest(v, by + 1))
        upto = pieces(v, pre(v, ay), line(v, cpre(A, ax)), rest(v, by + 1))
        return [Case([B.len - bx - 1], (ax, ay), True, w, tail="none", what="over several lines"),
                Case([bx - B.len, ax - 1], (ax, ay), True, upto, tail="none", what="up to the end of another line")] + \
            whole(v, [bx - B.len, -ax], ay, by + 1)
    return None


def one(v, i):
    return (("sub", v.L0.term, i), Lin(1))


def whole(v, conds, i, j):
    """the lines from i to j are removed"""
    n, z = v.n0, Lin(0)
    last = v.chars0(v.st, i - 1)
    return [Case(conds + [n - j - 1], (z, i), True, pieces(v, pre(v, i), rest(v, j)), tail="none", what="of whole lines"),
            Case(conds + [j - n, i - 1], (last.len, i - 1), True, pieces(v, pre(v, i)), tail="none", what="of the last lines"),
            Case(conds + [j - n, -i], (z, z), True, pieces(v, line(v)), tail="none", what="of all the lines")]


def below(v):
    """del_char_below"""
    st, x, y, n, C, z = v.st, v.x0, v.y0, v.n0, v.C, Lin(0)
    same = (x, y)
    last = v.chars0(st, y - 1)
    B = v.chars0(st, y + 1)
    j = pieces(v, pre(v, y), line(v, cpre(C, C.len), csuf(B, z)), rest(v, y + 2))
    w = pieces(v, pre(v, y), rest(v, y + 1))
    return [Case([C.len - x - 1], same, True, with_line(v, y, cpre(C, x), csuf(C, x + 1)), tail=None, what="in a line"),
            Case([C.len - 1, x - C.len, n - y - 2], same, True, j, tail=None, what="at the end of a line"),
            Case([C.len - 1, x - C.len, y - n + 1], same, False, v.L0, what="at the end of the text"),
            Case([-C.len, n - y - 2], same, True, w, tail=None, what="in an empty line"),
            Case([-C.len, y - n + 1, y - 1], (last.len, y - 1), True, w, tail=None, what="in an empty last line"),
            Case([-C.len, 1 - n], same, False, v.L0, what="when there's no text")]


def check_edit(c, P, name, sel):
    v = Content(c, P, name, sel=sel)
    check(c, v, edits(v))


def check_word_del(c, P, name, sel):
    """a range of chars of the line is removed, next to the cursor, on the side told"""
    v = Content(c, P, name, split=True, sel=sel)
    E = v.E
    left = name.endswith("left")
    C, x0, y0 = v.C, v.x0, v.y0
    can = x0 - 1 if left else C.len - x0 - 1
    for st, r in v.go():
        for ok in (True, False):
            s = st.copy()
            if not E.add_ge(s, can if ok else -can - 1) or not E.feasible(s, []):
                continue
            c.count("end states")
            x, y = v.pos(s)
            if not E.entails_eq0(s, y - y0):
                v.fail("line", "the cursor may leave its line")
            if not ok:
                if not v.q.same(s, v.lines(s), v.L0):
                    v.fail("lines", "the text changes while there's no char on that side")
                continue
            if not truthful(E, s, r, Lin(0)):
                v.fail("result", "doesn't tell that chars were removed")
            w = v.line_of(s, y0)
            if not isinstance(w, VecV):
                v.fail("lines", "what the line becomes isn't known")
                continue
            gone = C.len - w.len
            if not E.entails(s, gone - 1):
                v.fail("lines", "maybe no char is removed")
            lo, hi = (x0 - gone, x0) if left else (x0, x0 + gone)
            if not E.entails(s, lo) or not E.entails(s, C.len - hi):
                v.fail("lines", "removes more chars than there are on that side")
            if not v.q.same(s, v.lines(s), with_line(v, y0, cpre(C, lo), csuf(C, hi))):
                v.fail("lines", "other chars than the ones on that side of the cursor change")
            if left:
                if not E.entails_eq0(s, x - lo):
                    v.fail("cursor", "the cursor isn't where the chars were")
            else:
                for s2 in (s,):
                    a = s2.copy()
                    if E.add_ge(a, w.len - lo - 1) and E.feasible(a, []) and not E.entails_eq0(a, x - lo):
                        # (at the end of the line, it may be on the last char)
                        v.fail("cursor", "the cursor isn't where the chars were")
    panics(c, E, name)


EDITS = ("insert_char", "insert_new_line", "push_char", "clear", "del_char_left", "del_char_below", "swap_lines", "move_current_line_up",
         "move_current_line_down")
JOBS = {"valid": valid_after, "nopanic": no_panic, "move": check_move, "word": check_word_move, "edit": check_edit, "worddel": check_word_del}


def i03(c):
    spread(c, [("edit", m, s) for m in EDITS for s in OTHER_SEL] +
           [("worddel", m, s) for m in ("del_word_left", "del_word_right") for s in (None,)])
    c.floor("end states", 100)


def i04(c):
    spread(c, [("edit", "del_selection", s) for s in OTHER_SEL])
    c.floor("end states", 20)
