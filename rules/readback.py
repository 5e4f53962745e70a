"""What's put in an input field is what's got from it (I07).

The contents are small ones of known shapes (lines and chars), the chars being arbitrary; the strings given are made of arbitrary
chars, line feeds, carriage returns and backspaces.
"""
import itertools
import absint, fw
from absint import Agg, Sym, Ref, VecV, BoolV, Lin, TRUE, FALSE
from models import NONE, some, norm, UNIT, runs
from render import place
from seqs import Seqs
from outmod import Out, OUT
from tables import tyof, Shape, exact, items
from content import IFC, LINE, POS, Content
from views import method

FIELD = "termimad::views::input_field::InputField"
CHARS = "termimad::views::input_field_content::Chars"
STR = ("given string",)


class Small:
    """a content of lines of these lengths"""

    def __init__(self, c, P, b, lens, pos=(0, 0), tail=None, field=False):
        self.c, self.P, self.b, self.lens = c, P, b, lens
        self.o = Out(P, on_call=self.calls, unroll=40, unroll_paths=64, max_states=2000, max_writes=40, adaptors=True)
        self.E = E = self.o.E
        self.q = Seqs(E, P)
        self.sh = object.__new__(Shape)
        self.sh.E, self.sh.q, self.sh.P, self.sh.parts, self.sh.fty = E, self.q, P, (), None
        self.st = st = self.o.init()
        self.cty = next(i for i, t in enumerate(P.types) if t["k"] == "char" or t["s"] == "char")
        self.text = None
        self.field = field
        self.chars = [[self.ch("own char", i, j) for j in range(n)] for i, n in enumerate(lens)]
        self.root = ("L", "content", 0)
        self.base = ()
        if field:
            # in a field of which nothing else is known
            st.mem[self.root] = E.mk(("field",), tyof(P, FIELD))
            self.base = tuple(place(P, FIELD, "content"))
            E.write(st, self.root, self.base, self.content(st, self.chars, pos, tail))
        else:
            st.mem[self.root] = self.content(st, self.chars, pos, tail)

    def ch(self, *k):
        """a char, neither a control one nor a line feed"""
        a = self.E.atom(k, None, 0, 0x10ffff)
        self.E.add_ge(self.st, a - 32)
        return a

    def content(self, st, chars, pos, tail):
        P = self.P
        vals = []
        for f in P.adts[IFC]["variants"][0]["fields"]:
            n = f["name"]
            if n == "lines":
                vals.append(self.sh.vec(st, [self.line(st, x) for x in chars], tyof(P, LINE)))
            elif n == "pos":
                vals.append(self.pos(*pos))
            elif n == "selection_tail":
                vals.append(NONE if tail is None else some(self.pos(*tail)))
            else:
                raise fw.Missing("the field %s of the content" % n)
        return Agg(IFC, None, tuple(vals), None, tyof(P, IFC))

    def line(self, st, chars):
        return Agg(LINE, None, (self.sh.vec(st, chars, self.cty),), None, tyof(self.P, LINE))

    def pos(self, x, y):
        return Agg(POS, None, tuple(Lin({"x": x, "y": y}[f["name"]]) for f in self.P.adts[POS]["variants"][0]["fields"]), None, tyof(self.P, POS))

    def me(self):
        return Ref(self.root, (), tyof(self.P, FIELD if self.field else IFC))

    # ------------------------------------------------------------------ calls
    def isstr(self, st, x):
        for _ in range(4):
            if isinstance(x, Ref) and isinstance(x.root, tuple) and x.root[0] == "L":
                x = self.E.read(st, x.root, x.path, x.ty)
        k = x.term if isinstance(x, (Sym, VecV)) else x.root if isinstance(x, Ref) and not x.path else None
        while isinstance(k, tuple) and len(k) == 2 and k[0] in ("*", "S", "d"):
            k = k[1]
        return k == STR

    def calls(self, E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        n = norm(path)
        if args and self.text is not None and self.isstr(st, args[0]) and len(args) == 1:
            if m in ("as_ref", "as_str", "deref", "borrow", "into", "clone", "to_string", "to_owned", "into_boxed_str"):
                return [(st, args[0])]
            if m == "chars":
                st = st.copy()
                root = ("L", E.fresh("chars"), 0)
                st.mem[root] = self.sh.vec(st, self.text, self.cty)
                return [(st, Agg("m:own", None, (Ref(root, (), None), Lin(0), Lin(len(self.text)))))]
            if m == "is_empty":
                return [(st, BoolV(TRUE if not self.text else FALSE))]
        if self.field:
            b = self.P.bodies.get(fn.get("rid") or fn.get("id"))
            if b is not None and self.P.self_adt(b) == FIELD and b.vis != "pub" and self.P.types[b.locals[0]["t"]]["s"] == "()":
                # (the scroll)
                return [(st, UNIT)]
        if m == "format" and len(args) == 1 and "fmt" in path:
            return self.said(st, self.o.template(fr, blk, st, args[0]))
        # strings being built
        if m in ("new", "with_capacity", "default") and "String" in path:
            return [(st, self.sh.vec(st, [], self.cty))]
        if m == "push" and "String" in path:
            r = E.toref(args[0])
            v = r and E.read(st, r.root, r.path, None)
            xs = self.sh.seq(st, v)
            if xs is None:
                xs = [] if isinstance(v, VecV) and E.entails_eq0(st, v.len) else None
            if xs is not None:
                st = st.copy()
                self.q.keep(st, r, [self.q.item(st, x) for x in xs + [args[1]]], self.cty)
                return [(st, UNIT)]
        if m in ("eq", "ne") and len(args) == 2 and isinstance(args[0], Agg) and isinstance(args[1], Agg) and CHARS in (args[0].path, args[1].path):
            return self.compared(E, fr, blk, st, args, m)
        if m in ("collect", "from_iter") and args and isinstance(args[0], Agg):
            return self.collect(E, fr, blk, st, args[0])
        if m in ("to_string", "spec_to_string") and args and self.displayed(st, args[0]):
            b = self.o.disp[IFC]
            return self.said(st, [s for s, v in E.call_body(st.copy(), b, [self.asref(st, args[0]), self.o.dest()], fr, blk) if E.variant_of(s, v) != 1])
        x = exact(self.sh, E, fr, blk, st, path, fn, args)
        return x if x is not None else self.sh.calls(E, fr, blk, st, path, fn, args)

    def said(self, st, states):
        """the string of what's written"""
        outs = []
        for s in states:
            xs = written(self, s)
            if xs is not None:
                s = s.copy()
                s.mem[OUT] = VecV(("empty",), Lin(0), ())
                outs.append((s, self.sh.vec(s, xs, self.cty)))
        return outs

    def asref(self, st, x):
        for _ in range(4):
            y = self.E.read(st, x.root, x.path, x.ty)
            if not isinstance(y, Ref):
                break
            x = y
        return x

    def displayed(self, st, x):
        if not isinstance(x, Ref):
            return False
        x = self.asref(st, x)
        y = self.E.read(st, x.root, x.path, x.ty)
        return isinstance(y, Agg) and y.path == IFC

    def compared(self, E, fr, blk, st, args, m):
        """the items of two iterators, compared"""
        out = []
        for s, a in self.all(E, fr, blk, st, args[0]) or []:
            for s2, b in self.all(E, fr, blk, s, args[1]) or []:
                if len(a) == len(b):
                    y = s2.copy()
                    if all(E.add_eq(y, p - q) for p, q in zip(a, b)) and E.feasible(y, []):
                        out.append((y, BoolV(TRUE if m == "eq" else FALSE)))
                    for p, q in zip(a, b):
                        for l in (p - q - 1, q - p - 1):
                            y = s2.copy()
                            if E.add_ge(y, l) and E.feasible(y, []):
                                out.append((y, BoolV(FALSE if m == "eq" else TRUE)))
                else:
                    out.append((s2.copy(), BoolV(FALSE if m == "eq" else TRUE)))
        return out

    def all(self, E, fr, blk, st, it):
        if it.path == CHARS:
            return [(s, self.sh.seq(s, v) if v.term != ("empty",) else []) for s, v in self.collect(E, fr, blk, st, it)]
        return items(E, fr, blk, st, it)

    def collect(self, E, fr, blk, st, it):
        if it.path == CHARS:
            b = next((b for b in self.P.bodies.values() if b.name == "next" and self.P.self_adt(b) == CHARS), None)
            if b is None:
                return None
            out, now = [], []
            st = st.copy()
            root = ("L", E.fresh("it"), 0)
            st.mem[root] = it
            now.append((st, []))
            while now:
                s, xs = now.pop()
                if len(xs) > 30:
                    return None
                for s2, v in E.call_body(s.copy(), b, [Ref(root, (), tyof(self.P, CHARS))], fr, blk):
                    if not E.feasible(s2, []):
                        continue
                    k = E.variant_of(s2, v)
                    if k is None:
                        return None
                    if k == 0:
                        out.append((s2, self.sh.vec(s2, xs, self.cty)))
                    else:
                        now.append((s2, xs + [E.proj(s2, v, ("f", 0, 1, self.cty, "0"))]))
            return out
        return None

    def go(self, args):
        out = [(s, v) for s, v in self.E.call_body(self.st.copy(), self.b, args) if self.E.feasible(s, [])]
        for _ in self.c.need(out or None, "an end of " + self.b.path):
            self.c.count("ends")
        return out

    def lines_of(self, s, root=None):
        """the chars of the lines, in the end"""
        p = place(self.P, IFC, "lines")
        v = self.E.read(s, self.root, self.base + tuple(p), p[-1][3])
        ls = self.sh.seq(s, v)
        if ls is None:
            return None
        out = []
        for l in ls:
            w = self.E.proj(s, l, place(self.P, LINE, "chars")[0])
            out.append([] if isinstance(w, VecV) and self.E.entails_eq0(s, w.len) else self.sh.seq(s, w))
        return out

    def fail(self, key, what):
        self.c.violate("readback:%s:%s" % (self.b.name, key), "%s:%d %s: %s (lines of %s chars)" % (
            self.b.file, self.b.line, self.b.path.split("::")[-2] + "::" + self.b.name, what, "+".join(map(str, self.lens))))


def same(E, st, a, b):
    return a is not None and len(a) == len(b) and all(isinstance(x, Lin) and E.entails_eq0(st, x - y) for x, y in zip(a, b))


def written(v, s):
    """the chars written"""
    out = []
    for u, n in v.o.runs(s):
        if u[0] != "o" or u[1] is not None or not n.is_const():
            return None
        k = u[2]
        x = Lin(k[1]) if k[0] == "c" else v.E.atom(k, None, 0, 0x10ffff)
        out += [x] * n.c
    return out


def joined(lines):
    out = []
    for i, l in enumerate(lines):
        out += ([Lin(10)] if i else []) + list(l)
    return out


def broken(text):
    """the lines of a text given"""
    out = [[]]
    for x in text:
        if x.is_const():
            if x.c == 10:
                out.append([])
        else:
            out[-1].append(x)
    return out


def shapes(tier):
    k, n = (3, 2) if tier == "quick" else (3, 3)
    return [s for i in range(1, k + 1) for s in itertools.product(range(n + 1), repeat=i) if sum(s) <= 4]


def showing(c, P, lens):
    """the content is displayed as its lines, with line feeds between them; its chars are these ones"""
    b = c.need(next((b for b in P.bodies.values() if b.name == "fmt" and P.self_adt(b) == IFC and "Display" in (b.impl_of or "")), None), "Display for InputFieldContent")
    v = Small(c, P, b, lens)
    for s, r in v.go([v.me(), v.o.dest()]):
        if not same(v.E, s, written(v, s), joined(v.chars)):
            v.fail("display", "the content isn't displayed as its lines with line feeds between them")
    b = c.need(P.method(IFC, "is_empty"), "InputFieldContent::is_empty")
    v = Small(c, P, b, lens)
    for s, r in v.go([v.me()]):
        for want in (True, False):
            if want != (lens == (0,)) and any(v.E.feasible(z, []) for z in v.E.assume(s.copy(), v.E.asf(r), want)):
                v.fail("empty", "a content is empty when there's no char and no line break, only")


def positions(lens):
    return [(x, y) for y, n in enumerate(lens) for x in range(n + 1)]


def got(c, P, lens):
    """the content of a field"""
    b = c.need(P.method(FIELD, "get_content"), "InputField::get_content")
    v = Small(c, P, b, lens, field=True)
    for s, r in v.go([v.me()]):
        if not same(v.E, s, string(v, s, r), joined(v.chars)):
            v.fail("string", "what's got isn't the content")


def string(v, s, r):
    return [] if isinstance(r, VecV) and v.E.entails_eq0(s, r.len) else v.sh.seq(s, r)


def selecting(c, P, lens, adt, name):
    """the string of the selection is what's from its first to its last position"""
    b = c.need(P.method(adt, name), name)
    every = positions(lens)
    for p, t in [(p, t) for p in every for t in every + [None]]:
        v = Small(c, P, b, lens, p, t, adt == FIELD)
        lo, hi = sorted([p, p if t is None else t], key=lambda a: (a[1], a[0]))
        want = []
        for (x, y) in every:
            if (lo[1], lo[0]) <= (y, x) <= (hi[1], hi[0]):
                if x < lens[y]:
                    want.append(v.chars[y][x])
                elif y + 1 < len(lens):
                    want.append(Lin(10))
        for s, r in v.go([v.me()]):
            c.count("selections")
            if not same(v.E, s, string(v, s, r), want):
                v.fail("string", "the string of the selection isn't what's selected")


def texts(tier):
    n = 3 if tier == "quick" else 4
    return [t for i in range(n + 1) for t in itertools.product("anrb", repeat=i)]


def given(v, kinds):
    return [v.ch("given", i) if k == "a" else Lin({"n": 10, "r": 13, "b": 8}[k]) for i, k in enumerate(kinds)]


def ended(v, s, r, want, pos):
    """the content is these lines, with the cursor there"""
    E, P = v.E, v.P
    got = v.lines_of(s)
    if got is None or len(got) != len(want) or not all(same(E, s, a, b) for a, b in zip(got, want)):
        v.fail("text", "the content isn't the text given (%s)" % v.kinds)
        return
    x, y = (E.read(s, v.root, v.base + tuple(place(P, IFC, "pos")) + tuple(place(P, POS, f)), None) for f in ("x", "y"))
    if not isinstance(x, Lin) or not isinstance(y, Lin) or not E.entails_eq0(s, x - pos[0]) or not E.entails_eq0(s, y - pos[1]):
        v.fail("cursor", "the cursor isn't at the end of what's inserted (%s)" % v.kinds)


def filling(c, P, kinds):
    """from, set_str and insert_str"""
    for name, lens in [("from", (0,)), ("set_str", (2, 1)), ("insert_str", (0,)), ("insert_str", (2, 1)), ("insert_str", (1, 2))]:
        b = c.need(P.method(IFC, name), "InputFieldContent::" + name)
        pos = (1, 0) if sum(lens) else (0, 0)
        v = Small(c, P, b, lens, pos, None)
        v.kinds = "".join(kinds) or "nothing"
        v.text = given(v, kinds)
        E = v.E
        arg = Sym(STR, b.locals[b.argc]["t"])
        ls = broken(v.text)
        end = (len(ls[-1]), len(ls) - 1)
        for s, r in v.go([arg] if name == "from" else [v.me(), arg]):
            c.count("texts")
            if name == "from":
                s = s.copy()
                s.mem[v.root] = r
            if name == "insert_str":
                before, after = v.chars[0][:pos[0]], v.chars[0][pos[0]:]
                want = [list(x) for x in ls]
                want[0] = list(before) + want[0]
                at = (len(want[-1]), len(want) - 1)
                want[-1] = want[-1] + list(after)
                ended(v, s, r, want + v.chars[1:], at)
            elif name == "set_str" and ls != v.chars and equal(v, s):
                ended(v, s, r, v.chars, pos)
            else:
                ended(v, s, r, ls, end)


def equal(v, s):
    """whether the text given is the one of the content, on this path"""
    return same(v.E, s, v.text, joined(v.chars))


def comparing(c, P, lens, kinds, adt, name):
    """is_str and is_content"""
    b = c.need(P.method(adt, name), name)
    v = Small(c, P, b, lens, field=adt == FIELD)
    v.kinds = "".join(kinds)
    v.text = given(v, kinds)
    E = v.E
    mine = joined(v.chars)
    for s, r in v.go([v.me(), Sym(STR, b.locals[2]["t"])]):
        c.count("comparisons")
        for want in (True, False):
            for z in E.assume(s.copy(), E.asf(r), want):
                if not E.feasible(z, []):
                    continue
                if want:
                    if not same(E, z, v.text, mine):
                        v.fail("equal", "a content may be taken for another text (%s)" % v.kinds)
                elif len(mine) == len(v.text):
                    y = z.copy()
                    if all(E.add_eq(y, a - x) for a, x in zip(v.text, mine)) and E.feasible(y, []) and not any(E.entails_eq0(y, d) for d in y.ne):
                        v.fail("other", "a content may not be taken for its own text (%s)" % v.kinds)


def i07(c):
    c.rule = ("Display, is_empty, selection_string, is_str, from, set_str and insert_str of InputFieldContent are interpreted on contents of known shapes and strings of "
              "known lengths, all chars being symbolic: what's written, returned or left in the lines is compared char by char with the specification.")
    P = c.prog()
    for lens in shapes(c.tier):
        showing(c, P, lens)
        if sum(lens) + len(lens) <= (4 if c.tier == "quick" else 5):
            selecting(c, P, lens, IFC, "selection_string")
        if sum(lens) + len(lens) <= 4:
            selecting(c, P, lens, FIELD, "copy_selection")
            selecting(c, P, lens, FIELD, "cut_selection")
            got(c, P, lens)
    for k in texts(c.tier):
        filling(c, P, k)
    for lens in shapes(c.tier):
        n = sum(lens) + len(lens) - 1
        if n > 3:
            continue
        for k in itertools.product("an", repeat=n):
            comparing(c, P, lens, k, IFC, "is_str")
            comparing(c, P, lens, k, FIELD, "is_content")
        for k in (("a",) * (n + 1), ("a",) * max(0, n - 1), ("n",) * (n + 1)):
            if len(k) != n:
                comparing(c, P, lens, k, IFC, "is_str")
    c.floor("ends", 200)
    c.floor("selections", 50)
    c.floor("texts", 100)
    c.floor("comparisons", 60)


# ------------------------------------------------------------------ I08
def widths(v):
    E = v.E

    def calls(E_, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m == "char_width" and fn.get("rlocal", True) and args:
            x = args[0]
            for _ in range(3):
                x = E.read(st, x.root, x.path, x.ty) if isinstance(x, Ref) else x
            return [(st, E.atom(("columns", E.content(st, x)), None, 0, 2))]
        return Small.calls(v, E_, fr, blk, st, path, fn, args)
    v.o.user_on_call = calls
    return [E.atom(("columns", E.content(v.st, x)), None, 0, 2) for x in v.chars[0]]


def total(xs):
    t = Lin(0)
    for x in xs:
        t = t + x
    return t


def i08(c):
    c.rule = ("Line::width, char_idx_to_col and col_to_char_idx are interpreted on lines of known lengths, the widths of the chars, the columns and the "
              "indexes being symbolic; char_width on any char.")
    P = c.prog()
    for n in range(4 if c.tier == "quick" else 7):
        line(c, P, n)
    char(c, P)
    c.floor("ends", 15)
    c.floor("columns", 6)


def line(c, P, n):
    for name in ("width", "char_idx_to_col", "col_to_char_idx"):
        b = c.need(P.method(LINE, name), "Line::" + name)
        for k in range(n + 1) if name == "char_idx_to_col" else [None]:
            v = Small(c, P, b, (n,))
            E = v.E
            ws = widths(v)
            root = ("L", "line", 0)
            v.st.mem[root] = v.line(v.st, v.chars[0])
            args = [Ref(root, (), tyof(P, LINE))]
            if name == "char_idx_to_col":
                args.append(Lin(k))
            if name == "col_to_char_idx":
                col = E.atom(("column",), None, 0, 1 << 40)
                args.append(col)
            for s, r in v.go(args):
                c.count("columns")
                if name != "col_to_char_idx":
                    if not isinstance(r, Lin) or not E.entails_eq0(s, r - total(ws if k is None else ws[:k])):
                        v.fail("sum", "isn't the sum of the widths of the chars" + (" before" if k is not None else ""))
                    continue
                vi = E.variant_of(s, r)
                if vi is None:
                    v.fail("some", "isn't known to be a char or none")
                    continue
                # the first char starting at this column or after it
                for i in range(n + 1):
                    z = s.copy()
                    if i and not E.add_ge(z, col - total(ws[:i - 1]) - 1) or i < n and not E.add_ge(z, total(ws[:i]) - col) or not E.feasible(z, []):
                        continue
                    x = E.proj(z, r, ("f", 0, 1, None, "0")) if vi == 1 else None
                    if (vi == 1) != (i < n) or vi == 1 and not (isinstance(x, Lin) and E.entails_eq0(z, x - i)):
                        v.fail("char", "isn't the first char starting at the column, or after it")


def char(c, P):
    """a tab is as wide as what's displayed for it, another char has its unicode width"""
    b = c.need(P.method(IFC, "char_width"), "InputFieldContent::char_width")
    v = Small(c, P, b, (1,))
    E = v.E
    x = E.atom(("any char",), None, 0, 0x10ffff)

    def calls(E_, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m == "width" and "Unicode" in path and args:
            s = st.copy()
            out = [(s, some(E.atom(("unicode width", E.content(st, args[0])), None, 0, 2)))]
            s2 = st.copy()
            s2.setg("none", True)
            return out + [(s2, NONE)]
        return Small.calls(v, E_, fr, blk, st, path, fn, args)
    v.o.user_on_call = calls
    for s, r in v.go([x]):
        for conds, want in (([x - 9, Lin(9) - x], "tab"), ([x - 10], None), ([Lin(8) - x], None)):
            z = s.copy()
            if not all(E.add_ge(z, l) for l in conds) or not E.feasible(z, []) or any(E.entails_eq0(z, d) for d in z.ne):
                continue
            c.count("chars")
            w = Lin(2) if want else Lin(0) if z.g("none") else E.atom(("unicode width", E.content(s, x)), None, 0, 2)
            if not isinstance(r, Lin) or not E.entails_eq0(z, r - w):
                v.fail("width", "isn't the width of what's displayed for the char")
