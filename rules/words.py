"""The words of styles: how they're written, how they're read (S09, S10).

A reader is turned into a decision list: the paths of its MIR, each one being the tests done on the
word (patterns matched or not, numbers which can be read or not, number of chars) and what is then
returned. The words which are written, extracted the same way from the Display implementation, are
looked for in this list: the entry which accepts the word must give what was written.
"""
import re
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre
import absint, fw
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import OPT, NONE, some, ok, err, norm, UNIT, fmt_parts
from render import Run1, place
from seqs import Seqs

G = ("ghost", "words")
TOKEN = "termimad::parse::StyleToken"
CS = "termimad::compound_style::CompoundStyle"
LS = "termimad::line_style::LineStyle"
SC = "termimad::styled_char::StyledChar"
COLOR = "crossterm::style::types::color::Color"
ATTR = "crossterm::style::types::attribute::Attribute"
ALIGN = "minimad::markdown::align::Alignment"
INTS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1), "usize": (0, (1 << 64) - 1),
        "i32": (-(1 << 31), (1 << 31) - 1)}


# ------------------------------------------------------------------ the patterns
class Pat:
    def __init__(self, src, flags):
        self.src, self.flags = src, flags
        self.re = re.compile(re.sub(r"\(\?<([A-Za-z_])", r"(?P<\1", src), flags)

    def key(self):
        return (self.src, int(self.flags))

    def least(self):
        return sre.parse(re.sub(r"\(\?<([A-Za-z_])", r"(?P<\1", self.src), self.flags).getwidth()[0]


FLAGS = {"case_insensitive": re.I, "multi_line": re.M, "dot_matches_new_line": re.S, "ignore_whitespace": re.X}


def pattern(c, P, sid):
    """the pattern of a static lazily compiled regular expression"""
    b = P.bodies.get(sid)
    if b is None:
        raise fw.Missing("the pattern %s" % sid)
    seen, todo = set(), [b]
    src, flags = None, 0
    while todo:
        b = todo.pop()
        if b.id in seen:
            continue
        seen.add(b.id)
        consts = {}
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "use" and "k" in s[2][1] and not s[1]["p"]:
                    consts[s[1]["l"]] = s[2][1]["k"].get("val")
                if s[0] == "=" and s[2][0] == "ref" and not s[1]["p"] and s[2][2]["l"] in consts:
                    consts[s[1]["l"]] = consts[s[2][2]["l"]]
                if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], dict) and s[2][1].get("k") == "closure":
                    for x in P.bodies.values():
                        if x.id == s[2][1]["path"]:
                            todo.append(x)
            t = bl["t"]
            if t["k"] != "call" or "k" not in t["f"]:
                continue
            n = t["f"]["k"].get("fn", {}).get("path", "").split("::")[-1]
            vals = []
            for a in t["args"]:
                if "k" in a:
                    vals.append(a["k"].get("val"))
                else:
                    pl = a.get("mv") or a.get("cp")
                    vals.append(consts.get(pl["l"]) if not pl["p"] else None)
            if n == "new":
                for v in vals:
                    if v and "str" in v:
                        src = v["str"]
            elif n in FLAGS and len(vals) > 1:
                v = vals[1] or {}
                if v.get("bool", v.get("int")):
                    flags |= FLAGS[n]
            elif n == "swap_greed" and (vals[1] or {}).get("bool"):
                raise fw.Missing("the greed of %s" % sid)
    if src is None:
        raise fw.Missing("the pattern %s" % sid)
    return Pat(src, flags)


# ------------------------------------------------------------------ readers
class Reader:
    """the decision list of a function reading a word"""

    def __init__(self, c, P, name, extra=None):
        self.c, self.P = c, P
        bs = [b for b in P.bodies.values() if b.kind == "fn" and b.name == name and b.path.startswith("termimad::parse::")]
        self.b = c.need(bs or None, "the function parse::%s" % name)[0]
        self.pats = {}
        self.r = Run1(P, self.b, c, on_call=self.calls, unroll=0, max_states=4000, write_errors=False)
        self.E = E = self.r.E
        E.write_errors = False
        st = self.r.init
        st.setg("words", ())
        self.s = E.content(st, self.r.args[0])
        self.paths = [(s.g("words"), s, v) for s, v in self.r.go()]
        c.need(self.paths or None, "a path of %s" % self.b.path)

    def note(self, st, f, *vals):
        """one state for each outcome of a test"""
        out = []
        log = st.g("words", ())
        for want, v in vals:
            old = [w for g, w in log if g == f]
            if old and old[0] != want:
                continue
            s = st.copy()
            if not old:
                s.setg("words", log + ((f, want),))
            out.append((s, v))
        return out

    def regex(self, st, x):
        E = self.E
        for _ in range(5):
            if isinstance(x, Sym) and isinstance(x.term, tuple):
                t = x.term
                while t[0] == "*":
                    t = t[1]
                if t[0] == "re":
                    return t
            if isinstance(x, Ref):
                if x.root[0] == "static" and not x.path:
                    return self.load(x.root[1])
                if x.root[0] == "d" and not x.path and isinstance(x.root[1], tuple) and x.root[1][0] in ("re", "*"):
                    x = Sym(x.root[1], None)
                    continue
                x = E.read(st, x.root, x.path, None)
        return None

    def load(self, sid):
        if sid not in self.pats:
            p = pattern(self.c, self.P, sid)
            self.pats[sid] = p
            self.c.count("patterns")
        return ("re",) + self.pats[sid].key()

    def text(self, st, x):
        return self.E.content(st, x)

    def calls(self, E, fr, blk, st, path, fn, args):
        n = norm(path)
        m = path.split("::")[-1]
        rp = fn.get("rpath") or path
        if m == "deref" and args:
            x = args[0]
            for _ in range(4):
                if isinstance(x, Ref) and x.root[0] == "static" and not x.path:
                    if "Lazy" in rp or "lazy" in rp:
                        return [(st, Sym(self.load(x.root[1]), None))]
                    return None
                if not isinstance(x, Ref):
                    break
                x = E.read(st, x.root, x.path, None)
        if m in ("is_match", "captures", "find") and len(args) == 2:
            r = self.regex(st, args[0])
            if r is None:
                return None
            t = self.text(st, args[1])
            f = ("match", r[1], r[2], t)
            if m == "is_match":
                return self.note(st, f, (True, BoolV(TRUE)), (False, BoolV(FALSE)))
            v = Sym(("caps", r[1], r[2], t) if m == "captures" else ("group", r[1], r[2], 0, t), None)
            return self.note(st, f, (True, some(v)), (False, NONE))
        if m in ("get", "name", "index") and args:
            x = E.peel(st, args[0])
            if isinstance(x, Sym) and isinstance(x.term, tuple) and x.term[0] == "caps":
                i = args[1]
                if isinstance(i, Lin) and i.is_const():
                    i = i.c
                else:
                    i = self.text(st, i)
                    i = i[1] if i[0] == "str" else None
                if i is None:
                    return None
                v = Sym(("group", x.term[1], x.term[2], i, x.term[3]), None)
                return [(st, v if m == "index" else some(v))]
        if m == "as_str" and args:
            x = E.peel(st, args[0])
            if isinstance(x, Sym) and isinstance(x.term, tuple) and x.term[0] == "group":
                return [(st, x)]
        if n in ("str::parse", "FromStr::from_str") and args:
            ty = self.int_of(fn)
            if ty is None:
                return None
            t = self.text(st, args[0])
            return self.note(st, ("number", ty, 10, t), (True, ok(E.atom(("number", ty, 10, t), None, *INTS[ty]))),
                             (False, err(Sym(("no number", t), None))))
        if m == "from_str_radix" and len(args) == 2 and isinstance(args[1], Lin) and args[1].is_const():
            ty = next((k for k in INTS if "::%s" % k in path or "<impl %s>" % k in path), None)
            if ty is None:
                return None
            t = self.text(st, args[0])
            f = ("number", ty, args[1].c, t)
            return self.note(st, f, (True, ok(E.atom(f, None, *INTS[ty]))), (False, err(Sym(("no number", t), None))))
        if n == "str::chars" and args:
            return [(st, Agg("w:chars", None, (Sym(self.text(st, args[0]), None), Lin(0))))]
        if m == "next" and args:
            r = E.toref(args[0])
            x = E.read(st, r.root, r.path, None) if r is not None else None
            if isinstance(x, Agg) and x.path == "w:chars":
                k = x.fields[1].c
                t = x.fields[0].term
                out = self.note(st, ("nth", k, t), (True, some(E.atom(("char", k, t), None, 0, 0x10ffff))), (False, NONE))
                for s, v in out:
                    E.write(s, r.root, r.path, Agg("w:chars", None, (x.fields[0], Lin(k + 1))))
                return out
        if m == "count" and args and isinstance(args[0], Agg) and args[0].path == "w:chars":
            return [(st, E.atom(("chars", args[0].fields[0].term), None, 0, None) - args[0].fields[1])]
        if n in ("str::len", "str::is_empty", "String::len", "String::is_empty") and args:
            t = self.text(st, args[0])
            if m == "len":
                return [(st, E.atom(("bytes of", t), None, 0, None))]
            return self.note(st, ("eq", t, ""), (True, BoolV(TRUE)), (False, BoolV(FALSE)))
        if m in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "trim", "to_string", "to_owned") and args \
                and "str" in path + rp:
            t = self.text(st, args[0])
            return [(st, Sym(t if m.startswith("to_") and "case" not in m else ("map", m, t), None))]
        if m in ("eq", "ne", "eq_ignore_ascii_case", "starts_with", "ends_with") and len(args) == 2:
            a, b = self.text(st, args[0]), self.text(st, args[1])
            if m in ("eq", "ne") and not (self.isstr(a) and self.isstr(b)):
                return None
            if a[0] == "str":
                a, b = (b, a) if m in ("eq", "ne", "eq_ignore_ascii_case") else (a, b)
            if b[0] != "str":
                return None
            f = {"eq": "eq", "ne": "eq", "eq_ignore_ascii_case": "eqi"}.get(m, m)
            y = m != "ne"
            return self.note(st, (f, a, b[1]), (True, BoolV(TRUE if y else FALSE)), (False, BoolV(FALSE if y else TRUE)))
        if n in ("Error::from", "From::from", "ToString::to_string", "ToOwned::to_owned") and not fn.get("rlocal"):
            return None
        return None

    def isstr(self, t):
        return isinstance(t, tuple) and t and (t[0] in ("str", "group", "map") or t == self.s)

    def int_of(self, fn):
        for t in fn.get("targs") or []:
            s = self.P.types[t]["s"]
            if s in INTS:
                return s
        return None

    # -------------------------------------------------------------- evaluation on a word
    def word(self, t, w):
        if t == self.s:
            return w
        if t[0] == "str":
            return t[1]
        if t[0] == "group":
            m = Pat(t[1], t[2]).re.search(self.word(t[4], w))
            return m.group(t[3]) or "" if m else ""
        if t[0] == "map":
            x = self.word(t[2], w)
            return {"to_lowercase": x.lower(), "to_ascii_lowercase": x.lower(), "to_uppercase": x.upper(), "to_ascii_uppercase": x.upper(),
                    "trim": x.strip()}[t[1]]
        if t[0] == "format":
            return "".join(p[1] if p[0] == "lit" else self.word(p[1], w) for p in t[1])
        if t[0] == "*" and len(t) == 2:
            return self.word(t[1], w)
        raise fw.Missing("the meaning of %s" % str(t)[:80])

    def number(self, f, w):
        x = self.word(f[3], w)
        if not re.fullmatch(r"\+?[0-9a-zA-Z]+", x) or not x.isascii():
            return None
        try:
            k = int(x, f[2])
        except ValueError:
            return None
        lo, hi = INTS[f[1]]
        return k if lo <= k <= hi else None

    def test(self, f, w):
        if f[0] == "match":
            return bool(Pat(f[1], f[2]).re.search(self.word(f[3], w)))
        if f[0] == "number":
            return self.number(f, w) is not None
        if f[0] == "nth":
            return len(self.word(f[2], w)) > f[1]
        x = self.word(f[1], w)
        return {"eq": x == f[2], "eqi": x.lower() == f[2].lower(), "starts_with": x.startswith(f[2]), "ends_with": x.endswith(f[2])}[f[0]]

    def lin(self, l, w):
        k = l.c
        for a, n in l.t:
            k += n * self.atom(self.E.A.terms[a], w)
        return k

    def atom(self, t, w):
        if t[0] == "number":
            return self.number(t, w)
        if t[0] == "char":
            return ord(self.word(t[2], w)[t[1]])
        if t[0] == "chars":
            return len(self.word(t[1], w))
        if t[0] == "bytes of":
            return len(self.word(t[1], w).encode())
        raise fw.Missing("the meaning of %s" % str(t)[:80])

    def holds(self, st, w):
        """the numeric tests of the path"""
        E = self.E
        try:
            for l in st.ge:
                if self.mine(l) and self.lin(l, w) < 0:
                    return False
            for l in st.eq:
                if self.mine(l) and self.lin(l, w) != 0:
                    return False
            for l in st.ne:
                if self.mine(l) and self.lin(l, w) == 0:
                    return False
        except TypeError:
            return False
        return True

    def mine(self, l):
        return l.t and all(self.E.A.terms[a][0] in ("number", "char", "chars", "bytes of") for a, _ in l.t)

    def read(self, w):
        """[the description of what is read]"""
        out = []
        for facts, st, v in self.paths:
            if all(self.test(f, w) == want for f, want in facts) and self.holds(st, w):
                d = describe(self.E, self.P, st, v, lambda l: self.lin(l, w))
                if d not in out:
                    out.append(d)
        self.c.count("words looked for")
        return out


def describe(E, P, st, v, num):
    """a value as nested tuples"""
    if isinstance(v, Ref):
        v = E.peel(st, v)
    if isinstance(v, Lin):
        return num(v)
    if isinstance(v, Agg):
        n = v.path.split("::")[-1]
        a = P.adts.get(v.path)
        if v.path.endswith("result::Result"):
            return (("Ok",) + (describe(E, P, st, v.fields[0], num),)) if v.vi == 0 else ("Err",)
        if a and a["kind"] == "enum" and v.vi is not None:
            n = a["variants"][v.vi]["name"]
        return (n,) + tuple(describe(E, P, st, x, num) if x is not None else None for x in v.fields)
    if isinstance(v, Sym) and v.ty is not None and E.tyk(v.ty) == "adt" and E.variant_of(st, v) is not None:
        a = P.adts.get(P.types[v.ty]["path"])
        vi = E.variant_of(st, v)
        if a and a["kind"] == "enum":
            x = a["variants"][vi]
            if not x["fields"]:
                return (x["name"],)
            if P.types[v.ty]["path"].endswith("Result") and vi == 1:
                return ("Err",)
    return ("?", str(getattr(v, "term", v))[:60])


# ------------------------------------------------------------------ writers
class Writer:
    """what the Display implementation of a style token writes"""

    def __init__(self, c, P):
        self.c, self.P = c, P
        bs = [b for b in P.bodies.values() if b.kind == "fn" and b.name == "fmt" and (b.impl_of or "").endswith("fmt::Display") and P.self_adt(b) == TOKEN]
        self.b = c.need(bs or None, "Display of StyleToken")[0]

    def calls(self, E, fr, blk, st, path, fn, args):
        n = norm(path)
        m = path.split("::")[-1]
        if n in ("Formatter::write_fmt", "Write::write_fmt", "Formatter::write_str", "Write::write_str", "Formatter::write_char",
                 "Write::write_char", "Formatter::pad") or m == "fmt" and not fn.get("rlocal") and len(args) == 2:
            log = st.g("words", ())
            if m == "write_fmt":
                ps = fmt_parts(E, st, args[1])
                if ps is None:
                    raise fw.Missing("what %s writes" % self.b.path)
                ps = tuple(p if p[0] == "lit" else ("arg", p[1]) if not p[2] and p[3] == "display" else ("?",) for p in ps)
            elif m == "fmt":
                ps = (("arg", E.content(st, args[0])),)
            elif m == "write_char":
                ps = (("arg", E.termof(args[1])),)
            else:
                t = E.content(st, args[1])
                ps = (("lit", t[1]) if t[0] == "str" else ("arg", t),)
            st.setg("words", log + ps)
            return [(st, ok(UNIT))]
        return None

    def written(self, token, values):
        """the words which may be written for the token, given the values of its numbers"""
        r = Run1(self.P, self.b, self.c, on_call=self.calls, unroll=0, max_states=400)
        E = r.E
        st = r.init
        me = E.toref(r.args[0])
        E.write(st, me.root, me.path, token(E))
        out = set()
        for s, v in r.go():
            w = ""
            for p in s.g("words", ()):
                w += p[1] if p[0] == "lit" else self.show(E, p, values)
            out.add(w)
        self.c.count("words written")
        return out

    def show(self, E, p, values):
        t = p[1] if len(p) > 1 else None
        for k, v in values.items():
            if t == ("num", k) or t == E.termof(E.atom(("num", k))):
                return str(v)
        if isinstance(t, tuple) and t and t[0] == "str":
            return t[1]
        raise fw.Missing("what is written with %s" % str(t)[:80])


def enum(P, path, name, fields=(), ty=None):
    vs = [v["name"] for v in P.adts[path]["variants"]]
    return Agg(path, vs.index(name), tuple(fields), None, ty)


def token(P, kind, payload=None):
    return lambda E: enum(P, TOKEN, kind, () if payload is None else (payload(E),))


# ------------------------------------------------------------------ S09
EXACT = {"Black": ("AnsiValue", 16), "White": ("AnsiValue", 231)}
SAMPLE = "•▐―▌é一λ★…×"
ATTRWORDS = ["bold", "italic", "dim", "underlined", "reverse", "crossedout", "crossed_out", "strikeout", "encircled", "overlined"]
ATTROF = {"bold": "Bold", "italic": "Italic", "dim": "Dim", "underlined": "Underlined", "reverse": "Reverse", "crossedout": "CrossedOut",
          "crossed_out": "CrossedOut", "strikeout": "CrossedOut", "encircled": "Encircled", "overlined": "OverLined"}


def attributes(c, P):
    """the names of the attributes of ATTRIBUTES"""
    names = [v["name"] for v in P.adts[ATTR]["variants"]]
    out, seen = [], set()
    todo = [b for b in P.bodies.values() if b.name == "ATTRIBUTES"]
    c.need(todo or None, "ATTRIBUTES")
    while todo:
        b = todo.pop()
        if b.id in seen:
            continue
        seen.add(b.id)
        for s in str([bl["s"] for bl in b.blocks]).split("'variant': '")[1:]:
            v = s.split("'")[0]
            if v in names and v not in out:
                out.append(v)
        for x in P.bodies.values():
            if x.id not in seen and x.id.startswith(b.id) and x.kind in ("promoted", "const"):
                todo.append(x)
    return c.need(out or None, "the elements of ATTRIBUTES")


def num(k):
    return lambda E: E.atom(("num", k), None, 0, None)


def tokens(c, P, tier):
    """[(what, how to build it, the values of its numbers, what must be read)]"""
    full = tier == "thorough"
    out = []
    for v in P.adts[COLOR]["variants"]:
        n = v["name"]
        if n == "Rgb":
            for t in [(0, 0, 0), (255, 255, 255), (1, 22, 133), (9, 10, 99), (100, 255, 0), (7, 250, 41)] + \
                    ([(i, 255 - i, (7 * i) % 256) for i in range(256)] if full else []):
                out.append(("Color::Rgb%s" % (t,), token(P, "Color", lambda E: enum(P, COLOR, "Rgb", [num(k)(E) for k in "rgb"])), dict(zip("rgb", t)),
                            ("Color", ("Rgb",) + t)))
        elif n == "AnsiValue":
            for k in range(256) if full else (0, 1, 9, 10, 15, 16, 99, 100, 178, 231, 232, 254, 255):
                out.append(("Color::AnsiValue(%d)" % k, token(P, "Color", lambda E: enum(P, COLOR, "AnsiValue", [num("k")(E)])), {"k": k}, ("Color", ("AnsiValue", k))))
        else:
            out.append(("Color::" + n, token(P, "Color", lambda E, n=n: enum(P, COLOR, n)), {}, ("Color", EXACT.get(n, (n,)))))
    need = attributes(c, P)
    for v in P.adts[ATTR]["variants"]:
        n = v["name"]
        out.append(("Attribute::" + n, token(P, "Attribute", lambda E, n=n: enum(P, ATTR, n)), {}, ("Attribute", (n,)), n in need))
    for n in ("Left", "Center", "Right"):
        out.append(("Alignment::" + n, token(P, "Align", lambda E, n=n: enum(P, ALIGN, n)), {}, ("Align", (n,))))
    for k in range(65536) if full else (0, 1, 2, 7, 9, 10, 80, 99, 100, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 65535):
        if k < 1200 or k % 97 == 0 or k > 65000:
            out.append(("Dimension(%d)" % k, token(P, "Dimension", num("k")), {"k": k}, ("Dimension", k)))
    out.append(("None", token(P, "None"), {}, ("None",)))
    for ch in [chr(i) for i in range(33, 127) if chr(i) not in "()0123456789"] + list(SAMPLE):
        out.append(("Char(%r)" % ch, token(P, "Char", num("c")), {"c": ch}, ("Char", ord(ch))))
    return out


def s09(c):
    P = c.prog()
    R, W = Reader(c, P, "parse_style_token"), Writer(c, P)
    at = "%s:%d" % (R.b.file, R.b.line)

    def same(key, w, want, what):
        got = R.read(w)
        if got != [want]:
            c.violate("word:%s" % key, "%s %s is read as %s by parse_style_token" % (at, what, " or ".join(show(g) for g in got) or "nothing"))
    cache = {}
    for t in tokens(c, P, c.tier):
        what, build, values, want = t[:4]
        kind = what.split("(")[0]
        k = kind if values else what
        if k not in cache:
            cache[k] = W.written(build, {n: "\0%s\0" % n for n in values})
        ws = set()
        for x in cache[k]:
            for n, v in values.items():
                x = x.replace("\0%s\0" % n, str(v))
            ws.add(x)
        if len(t) > 4 and not t[4]:
            # not one of the attributes of styles: it may have no word, but its word isn't another one's
            for w in ws:
                got = R.read(w) if w else []
                if w and got not in ([("Ok", want)], [("Err",)]):
                    c.violate("word:" + kind, "%s %r, which is written for %s, is read as %s" % (at, w, what, " or ".join(map(show, got))))
            continue
        if len(ws) != 1 or "" in ws:
            c.violate("written:" + kind, "%s:%d %s is written %s" % (W.b.file, W.b.line, what, " or ".join(map(repr, sorted(ws)))))
            continue
        w = ws.pop()
        same(kind, w, ("Ok", want), "%r, which is written for %s," % (w, what))
        if w.lower() != w and want[0] in ("Color", "Attribute", "Align"):
            same(kind, w.lower(), ("Ok", want), "%r" % w.lower())
            same(kind, w.upper(), ("Ok", want), "%r" % w.upper())
    # the documented spellings
    for k in range(24):
        for f in ("gray(%d)", "grey(%d)", "GREY(%d)"):
            same("gray", f % k, ("Ok", ("Color", ("AnsiValue", 232 + k))), "%r" % (f % k))
    for w, t in (("rgb(25, 100, 0)", (25, 100, 0)), ("rgb(255,0,100)", (255, 0, 100)), ("RGB(51, 47, 58)", (51, 47, 58)),
                 ("#fb0", (255, 187, 0)), ("#ab00c1", (171, 0, 193)), ("#AB00C1", (171, 0, 193)), ("#012", (0, 17, 34)), ("#010203", (1, 2, 3))):
        same("rgb", w, ("Ok", ("Color", ("Rgb",) + t)), "%r" % w)
    for w in ATTRWORDS:
        same("Attribute::" + ATTROF[w], w, ("Ok", ("Attribute", (ATTROF[w],))), "%r" % w)
    for w in ("gray(24)", "grey(255)", "gray(256)", "ansi(256)", "ansi(1000)", "rgb(255, 260, 45)", "rgb(1,2)", "#12345678", "pissenlit", "xy", "infrared",
              "65536", "reddish", "#ggg"):
        same("unknown", w, ("Err",), "%r, which isn't a style word," % w)
    # a char alone is no other word
    for p in R.pats.values():
        if p.least() >= 2:
            c.count("patterns of at least two chars")
    c.count("paths", len(R.paths))
    c.floor("paths", 30)
    c.floor("words looked for", 200)


def show(d):
    if isinstance(d, tuple):
        if d[0] == "Ok":
            return show(d[1])
        if d[0] == "Err":
            return "an error"
        return d[0] + ("(%s)" % ", ".join(show(x) for x in d[1:]) if len(d) > 1 else "")
    return str(d)


# ------------------------------------------------------------------ S10
class Style:
    """a style is turned into tokens, the tokens which have a word are given to the reader"""

    def __init__(self, c, P, path, reader, attrs):
        self.c, self.P, self.path = c, P, path
        self.tty = next(i for i, t in enumerate(P.types) if t.get("path") == TOKEN)
        bs = [b for b in P.bodies.values() if b.kind == "fn" and b.name == "push_style_tokens" and P.self_adt(b) == path]
        self.b = c.need(bs or None, "push_style_tokens of %s" % path)[0]
        bs = [b for b in P.bodies.values() if b.kind == "fn" and b.name == reader and b.path.startswith("termimad::parse::")]
        self.reader = c.need(bs or None, reader)[0]
        self.r = Run1(P, self.b, c, on_call=self.calls, unroll=20, max_states=400, max_writes=24, adaptors=True)
        self.E = E = self.r.E
        self.read_tokens = None
        st = self.st = self.r.init
        self.me = E.toref(self.r.args[0])
        E.root_val(st, self.me.root, P.types[self.b.locals[1]["t"]]["ty"])
        self.out = E.toref(self.r.args[1])
        E.write(st, self.out.root, self.out.path, VecV(("empty",), Lin(0), (), self.tty))
        # the attributes
        cp = [] if path == CS else [place(P, path, "compound_style")[0]]
        self.osp = cp + [place(P, CS, "object_style")[0]]
        osty = self.osp[-1][3]
        self.osadt = P.types[osty]["path"]
        self.attrs = tuple(sorted(attrs))
        E.write(st, self.me.root, self.me.path + tuple(self.osp) + (place(P, self.osadt, "attributes")[0],), Sym(("attrs", self.attrs), None))

    def field(self, st, v, path):
        for p in path:
            v = self.E.proj(st, v, p)
        return v

    def osf(self, name):
        return self.osp + [place(self.P, self.osadt, name)[0]]

    def attrs_of(self, st, x):
        x = self.E.peel(st, x)
        t = getattr(x, "term", None)
        if isinstance(x, Sym) and isinstance(t, tuple):
            if t[0] == "attrs":
                return t[1]
            if t[0] == "default" and "Attributes" in str(t[1]):
                return ()
        if isinstance(x, Agg) and x.path.endswith("::Attributes") and len(x.fields) == 1 and isinstance(x.fields[0], Lin) and x.fields[0] == Lin(0):
            return ()
        return None

    def calls(self, E, fr, blk, st, path, fn, args):
        n = norm(path)
        m = path.split("::")[-1]
        if m == "default" and not args and fn.get("targs") and self.P.types[fn["targs"][0]].get("path") == ALIGN:
            # minimad says so
            return [(st, enum(self.P, ALIGN, "Unspecified", (), fn["targs"][0]))]
        if n.startswith("Attributes::") or "::Attributes" in path:
            if m in ("none", "default"):
                return [(st, Sym(("attrs", ()), None))]
            if m in ("has", "set", "unset", "toggle", "with", "without") and len(args) == 2:
                old = self.attrs_of(st, args[0])
                a = E.peel(st, args[1])
                vi = E.variant_of(st, a)
                if old is None or vi is None:
                    return None
                a = self.P.adts[ATTR]["variants"][vi]["name"]
                if m == "has":
                    return [(st, BoolV(TRUE if a in old else FALSE))]
                new = set(old)
                (new.add if m in ("set", "with") or m == "toggle" and a not in new else new.discard)(a)
                v = Sym(("attrs", tuple(sorted(new))), None)
                if m in ("with", "without"):
                    return [(st, v)]
                r = E.toref(args[0])
                E.write(st, r.root, r.path, v)
                return [(st, UNIT)]
            if m == "is_empty" and args and self.attrs_of(st, args[0]) is not None:
                return [(st, BoolV(TRUE if not self.attrs_of(st, args[0]) else FALSE))]
        if path.endswith("parse::parse_style_tokens") and self.read_tokens is not None:
            ts = self.read_tokens
            v = VecV(("read tokens", len(ts)), Lin(len(ts)), tuple((Lin(i), x) for i, x in enumerate(ts)), self.tty)
            return [(st, ok(v))]
        if path.endswith("char::from_digit") or n in ("char::from_digit", "methods::from_digit"):
            d = args[0]
            if isinstance(d, Lin):
                s = st.copy()
                out = []
                if E.add_ge(s, Lin(9) - d) and E.add_ge(s, d):
                    out.append((s, some(d + 48)))
                s = st.copy()
                if E.add_ge(s, d - 10):
                    out.append((s, NONE))
                return out
        if m == "apply_to":
            return [(st, Sym(("applied",), None))]
        return None

    def tokens(self, st):
        E = self.E
        v = E.read(st, self.out.root, self.out.path, None)
        if not isinstance(v, VecV) or not v.len.is_const():
            raise fw.Missing("the tokens pushed by %s" % self.b.path)
        return [E.elem(st, v, Lin(i), self.tty) for i in range(v.len.c)]

    def worded(self, st, ts):
        """the tokens as they're read, those without a word left out: [(state, tokens)]"""
        E, P = self.E, self.P
        out = [(st, [])]
        for t in ts:
            nxt = []
            for s, done in out:
                vi = E.variant_of(s, t)
                if vi is None:
                    raise fw.Missing("the kind of a token pushed by %s" % self.b.path)
                k = P.adts[TOKEN]["variants"][vi]["name"]
                if k == "Align":
                    a = E.proj(s, t, ("f", 0, vi, None, "0"))
                    av = E.variant_of(s, a)
                    if av is None:
                        raise fw.Missing("the alignment pushed by %s" % self.b.path)
                    if P.adts[ALIGN]["variants"][av]["name"] == "Unspecified":
                        nxt.append((s, done))
                        continue
                if k == "Char":
                    ch = E.proj(s, t, ("f", 0, vi, None, "0"))
                    s2 = s.copy()
                    if isinstance(ch, Lin) and E.add_ge(s2, ch - 48) and E.add_ge(s2, Lin(57) - ch):
                        nxt.append((s2, done + [enum(P, TOKEN, "Dimension", (ch - 48,), self.tty)]))
                    for l in (Lin(47) - ch, ch - 58):
                        s2 = s.copy()
                        if E.add_ge(s2, l):
                            nxt.append((s2, done + [t]))
                    continue
                nxt.append((s, done + [t]))
            out = nxt
        return out

    def go(self):
        """[(state before, state after, value read)]"""
        out = []
        E = self.E
        sref = Ref(("str", "the words"), (), None)
        for st, _ in E.call_body(self.st.copy(), self.b, list(self.r.args)):
            self.c.count("paths of the writers")
            for s, ts in self.worded(st, self.tokens(st)):
                self.read_tokens = ts
                before = E.read(s, self.me.root, self.me.path, None)
                args = [sref] + [Lin(ord("*"))] * (self.reader.argc - 1)
                for s2, v in E.call_body(s.copy(), self.reader, args):
                    self.c.count("paths of the readers")
                    out.append((before, s2, v))
                self.read_tokens = None
        self.c.need(out or None, "a path of %s and %s" % (self.b.path, self.reader.path))
        return out

    def fail(self, what):
        n = self.path.split("::")[-1]
        self.c.violate("style:%s:%s" % (n, what), "%s:%d a %s written as words and read back %s" % (self.b.file, self.b.line, n, what))

    def check(self, shape):
        E, P, c = self.E, self.P, self.c
        for old, st, v in self.go():
            if E.variant_of(st, v) != 0:
                self.fail("may be refused")
                continue
            new = E.proj(st, v, ("f", 0, 0, None, "0"))
            for f in ("foreground_color", "background_color"):
                c.count("fields compared")
                a, b = (self.field(st, x, self.osf(f)) for x in (old, new))
                if E.content(st, a) != E.content(st, b) and not (E.variant_of(st, a) == 0 and E.variant_of(st, b) == 0) and \
                        describe(E, P, st, a, str) != describe(E, P, st, b, str):
                    self.fail("may have another %s" % f.replace("_", " "))
            c.count("fields compared")
            if self.attrs_of(st, self.field(st, new, self.osf("attributes"))) != self.attrs:
                self.fail("may have other attributes")
            if self.path == LS:
                a, b = (self.field(st, x, place(P, LS, "align")) for x in (old, new))
                c.count("fields compared")
                if E.variant_of(st, a) is None or E.variant_of(st, a) != E.variant_of(st, b):
                    self.fail("may have another alignment")
                for f in ("left_margin", "right_margin"):
                    c.count("fields compared")
                    a, b = (self.field(st, x, place(P, LS, f)) for x in (old, new))
                    if not isinstance(b, Lin):
                        self.fail("may have another %s" % f.replace("_", " "))
                        continue
                    s = st.copy()
                    if E.add_ge(s, Lin(65535) - a) and not E.entails_eq0(s, a - b):
                        self.fail("may have another %s" % f.replace("_", " "))
                    s = st.copy()
                    if E.add_ge(s, a - 65536) and not E.entails_eq0(s, Lin(65535) - b):
                        self.fail("may have another %s, when it's huge," % f.replace("_", " "))
            if self.path == SC:
                a, b = (self.field(st, x, place(P, SC, "nude_char")) for x in (old, new))
                c.count("fields compared")
                if not isinstance(b, Lin) or not E.entails_eq0(st, a - b):
                    self.fail("may have another char")


def shapes(c, P, tier):
    """[(type, reader, attributes, alignment)]; the colors may be there or not"""
    at = attributes(c, P)
    sets = [(), tuple(at)] + [(a,) for a in at]
    if tier == "thorough":
        sets = [tuple(a for k, a in enumerate(at) if i >> k & 1) for i in range(1 << len(at))]
    out = [(CS, "parse_compound_style", s, None) for s in sets]
    out += [(SC, "parse_styled_char", s, None) for s in sets[:2]]
    return out + [(LS, "parse_line_style", s, a) for s in sets[:2] for a in ("Unspecified", "Left", "Center", "Right")]


def style_job(a):
    shape, tier = a
    c = fw.Check("S10", tier)
    P = c.prog()
    path, reader, at, al = shape
    try:
        s = Style(c, P, path, reader, at)
        E = s.E
        if al is not None:
            p = place(P, LS, "align")[0]
            E.write(s.st, s.me.root, s.me.path + (p,), enum(P, ALIGN, al, (), p[3]))
        s.check(shape)
    except fw.Missing as e:
        c.violate("anchor:%s" % path.split("::")[-1], str(e))
    return c.viol, c.counts


def s10(c):
    P = c.prog()
    for viol, counts in fw.pmap(style_job, [(s, c.tier) for s in shapes(c, P, c.tier)]):
        for k, x in viol.items():
            c.violate(k, x)
        for k, n in counts.items():
            c.count(k, n)
    tokenizer(c, P)
    joined(c, P)
    c.floor("fields compared", 150)


class Tokenizer:
    """every match of the pattern is read, in order, and what is read is kept"""

    def __init__(self, c, P):
        self.c, self.P = c, P
        bs = [b for b in P.bodies.values() if b.kind == "fn" and b.path == "termimad::parse::parse_style_tokens"]
        self.b = c.need(bs or None, "parse_style_tokens")[0]
        self.R = object.__new__(Reader)
        self.R.c, self.R.P, self.R.pats = c, P, {}
        self.pats = set()
        self.vec = None
        self.r = Run1(P, self.b, c, on_call=self.calls, unroll=0, max_states=400, adaptors=True)
        self.R.E = self.E = E = self.r.E
        self.s = E.content(self.r.init, self.r.args[0])
        self.tty = next(i for i, t in enumerate(P.types) if t.get("path") == TOKEN)

    def fail(self, what):
        self.c.violate("tokenizer:" + what, "%s:%d parse_style_tokens %s" % (self.b.file, self.b.line, what))

    def calls(self, E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        n = norm(path)
        if m == "deref" and args and "Lazy" in (fn.get("rpath") or path):
            r = self.R.regex(st, args[0])
            return [(st, Sym(r, None))] if r else None
        if m == "find_iter" and len(args) == 2:
            r = self.R.regex(st, args[0])
            if r is None:
                return None
            if E.content(st, args[1]) != self.s:
                self.fail("looks for the words of something else")
            self.pats.add(r)
            return [(st, Agg("w:finds", None, ()))]
        if m == "into_iter" and args and isinstance(args[0], Agg) and args[0].path in ("w:finds", "w:map"):
            return [(st, args[0])]
        if m == "map" and len(args) == 2 and isinstance(args[0], Agg) and args[0].path in ("w:finds", "w:map"):
            old = args[0].fields
            return [(st, Agg("w:map", None, tuple(old) + (args[1],)))]
        if m == "collect" and args and isinstance(args[0], Agg) and args[0].path == "w:map":
            # no word at all, or one more after the ones kept
            out = []
            for s, x in self.mapped(fr, blk, st, args[0]):
                k = E.variant_of(s, x)
                if k == 1:
                    if s.g("tk") != "refused":
                        self.fail("may refuse words which are read")
                    out.append((s, x))
                elif k == 0 and s.g("tk") == "read" and E.proj(s, x, ("f", 0, 0, None, "0")) == Sym(("w:token",), self.tty):
                    self.c.count("words kept")
                    s.setg("tk", "over")
                    s.mem[G] = Agg("ghost", None, (Lin(1),))
                    out.append((s, ok(VecV(("tokens",), Lin(1), (), self.tty))))
                else:
                    self.fail("may keep something else than the words")
            st = st.copy()
            st.setg("tk", "over")
            out.append((st, ok(VecV(("empty",), Lin(0), (), self.tty))))
            return out
        if m == "next" and args:
            x = E.peel(st, args[0])
            if isinstance(x, Agg) and x.path == "w:finds":
                if st.g("tk"):
                    self.fail("may leave a word out")
                s = st.copy()
                s.setg("tk", "found")
                st.setg("tk", "over")
                self.c.count("steps of the tokenizer")
                return [(s, some(Sym(("w:match",), None))), (st, NONE)]
        if m in ("as_str", "into", "from") and args:
            x = E.peel(st, args[0])
            if isinstance(x, Sym) and x.term == ("w:match",):
                return [(st, Sym(("w:text",), None))]
        if path.endswith("::parse_style_token") and args:
            if E.content(st, args[0]) not in (("w:text",), ("*", ("w:text",))) or st.g("tk") != "found":
                self.fail("reads something else than the word found")
            s = st.copy()
            s.setg("tk", "read")
            st.setg("tk", "refused")
            return [(s, ok(Sym(("w:token",), self.tty))), (st, err(Sym(("w:error",), None)))]
        if n == "Vec::push" and len(args) == 2 and isinstance(args[1], Sym) and args[1].term == ("w:token",):
            if st.g("tk") != "read":
                self.fail("may keep a word twice")
            st.setg("tk", None)
            self.c.count("words kept")
            r = E.toref(args[0])
            v = E.read(st, r.root, r.path, r.ty)
            if not isinstance(v, VecV) or not E.entails_eq0(st, v.len - self.count(st)):
                self.fail("may keep the words elsewhere")
            st.mem[G] = Agg("ghost", None, (self.count(st) + 1,))
            return None
        if n.startswith("Vec::") and m in ("insert", "remove", "pop", "truncate", "clear", "dedup", "retain", "swap_remove", "drain", "reverse", "sort",
                                           "sort_by", "sort_by_key") or n in ("slice::reverse", "slice::sort", "slice::swap"):
            self.fail("changes the list of words")
        return None

    def mapped(self, fr, blk, st, it):
        """the word found, given to the closures of an adaptor"""
        s = st.copy()
        s.setg("tk", "found")
        self.c.count("steps of the tokenizer")
        now = [(s, Sym(("w:match",), None))]
        for cl in it.fields:
            now = [y for s, x in now for y in self.E.call_closure(fr, blk, s, cl, [x])]
        return now

    def count(self, st):
        return st.mem[G].fields[0]

    def go(self):
        E = self.E
        st = self.r.init
        st.setg("tk", None)
        st.mem[G] = Agg("ghost", None, (Lin(0),))
        for s, v in self.r.go():
            self.c.count("ends of the tokenizer")
            k = E.variant_of(s, v)
            if k == 1 and s.g("tk") != "refused":
                self.fail("may refuse words which are read")
            if k == 0:
                x = E.proj(s, v, ("f", 0, 0, None, "0"))
                if s.g("tk") != "over" or not isinstance(x, VecV) or not E.entails_eq0(s, x.len - self.count(s)):
                    self.fail("may lose words")
        self.c.need(self.pats or None, "the pattern of the words")
        return [Pat(p[1], p[2]) for p in self.pats]


def tokenizer(c, P):
    t = Tokenizer(c, P)
    pats = t.go()
    W = Writer(c, P)
    words = []
    for what, build, values, want in [x[:4] for x in tokens(c, P, "quick")]:
        ws = W.written(build, values) if not values or "(" in what else set()
        words += [w for w in ws if w]
    for p in pats:
        for k in range(len(words)):
            c.count("words delimited")
            pair = [words[k], words[k - 1], words[(k * 7 + 3) % len(words)]]
            if [m.group(0) for m in p.re.finditer(" ".join(pair))] != pair or [m.group(0) for m in p.re.finditer("  " + "  ".join(pair) + " ")] != pair:
                c.violate("tokenizer:words", "%s:%d the words %s aren't the ones that parse_style_tokens finds" % (t.b.file, t.b.line, " ".join(map(repr, pair))))


def known(E, st):
    """the booleans whose value is known"""
    return tuple((k, v.f) for k, v in sorted(st.mem.items(), key=lambda x: repr(x[0])) if k[0] == "L" and isinstance(v, BoolV) and v.f[0] in ("c", "T", "F"))


class Joined:
    """a function writing tokens writes each one in order, with blanks between them"""

    def __init__(self, c, P, name):
        self.c, self.P, self.name = c, P, name
        bs = [b for b in P.bodies.values() if b.kind == "fn" and b.name == name and b.path.startswith("termimad::parse::")]
        self.b = c.need(bs or None, name)[0]
        self.tty = next(i for i, t in enumerate(P.types) if t.get("path") == TOKEN)
        self.r = Run1(P, self.b, c, on_call=self.calls, unroll=0, max_states=400, adaptors=True, loop_part=known)
        self.E = E = self.r.E
        E.write_errors = False
        self.q = Seqs(E, P)
        self.base = VecV(("pushed",), E.nat(("len", ("pushed",))), (), self.tty)
        st = self.r.init
        self.args = list(self.r.args)
        for i in range(self.b.argc):
            t = P.types[self.b.locals[i + 1]["t"]]
            if t["k"] == "ref" and P.types[t["ty"]]["k"] == "slice":
                self.args[i] = Ref(("C", ("pushed",)), (), t["ty"])
                st.mem[("C", ("pushed",))] = self.base
        st.setg("out", False)       # whether something is written
        st.setg("sep", False)       # whether there's a blank since the last word
        st.mem[G] = Agg("ghost", None, (Lin(0),))

    def fail(self, what):
        self.c.violate("joined:%s:%s" % (self.name, what), "%s:%d %s %s" % (self.b.file, self.b.line, self.name, what))

    def index(self, st, t):
        """the index of the token whose content is t"""
        E = self.E
        while isinstance(t, tuple) and t and t[0] == "*":
            t = t[1]
        if isinstance(t, tuple) and t and t[0] == "shown":
            t = t[1]
        if isinstance(t, tuple) and len(t) > 2 and t[0] == "e" and t[1] == ("pushed",) and isinstance(t[2], Lin):
            return t[2]
        return None

    def put(self, st, parts):
        """the states after the parts are written"""
        E = self.E
        out = [st]
        for p in parts:
            nxt = []
            for s in out:
                if p[0] == "lit":
                    if p[1].strip():
                        self.fail("writes %r between the words" % p[1])
                    if p[1]:
                        s.setg("sep", True)
                        s.setg("out", True)
                    nxt.append(s)
                    continue
                i = self.index(s, p[1])
                k = s.mem[G].fields[0]
                if i is None or not E.entails_eq0(s, i - k) or len(p) > 2 and (p[2] or p[3] not in ("display", "?")):
                    self.fail("writes something else than the tokens in order")
                self.c.count("tokens written")
                s.mem[G] = Agg("ghost", None, (k + 1,))
                # the word may be empty
                nxt.append(s.copy())
                if s.g("out") and not s.g("sep"):
                    self.fail("may write two words together")
                s.setg("out", True)
                s.setg("sep", False)
                nxt.append(s)
            out = nxt
        return out

    def grow(self, st, a):
        """the length of the string written to"""
        E = self.E
        r = E.toref(a)
        for _ in range(4):
            if r is None:
                return
            v = E.read(st, r.root, r.path, r.ty)
            if isinstance(v, VecV):
                l = E.nat(E.fresh("len"))
                if st.g("out"):
                    E.add_ge(st, l - 1)
                    E.write(st, r.root, r.path, VecV(E.fresh("str"), l))
                else:
                    E.write(st, r.root, r.path, VecV(("empty",), Lin(0)))
                return
            r = E.toref(v)

    def calls(self, E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        n = norm(path)
        if m == "push_style_tokens":
            r = E.toref(args[1])
            E.write(st, r.root, r.path, self.base)
            return [(st, UNIT)]
        if m in ("write_fmt", "write_str", "write_char", "push_str", "push", "write_all") and len(args) == 2 and not n.startswith("Vec::"):
            if m == "write_fmt":
                ps = fmt_parts(E, st, args[1])
            else:
                t = E.termof(args[1]) if isinstance(args[1], Lin) else E.content(st, args[1])
                if isinstance(args[1], Lin):
                    ps = [("lit", chr(args[1].c))] if args[1].is_const() else None
                else:
                    ps = [("lit", t[1])] if t[0] == "str" else [("arg", t)]
            if ps is None:
                raise fw.Missing("what %s writes" % self.b.path)
            out = []
            for s in self.put(st, ps):
                self.grow(s, args[0])
                out.append((s, UNIT if m in ("push", "push_str") else ok(UNIT)))
            return out
        if m == "to_string" and args:
            t = E.content(st, args[0])
            if self.index(st, t) is not None:
                return [(st, VecV(("shown", t), E.nat(("len", ("shown", t)))))]
        return None

    def go(self):
        E = self.E
        for s, v in E.call_body(self.r.init.copy(), self.b, self.args):
            self.c.count("ends of the joiners")
            if self.P.types[self.b.locals[0]["t"]].get("path", "").endswith("Result") and E.variant_of(s, v) == 1:
                continue
            if not E.entails_eq0(s, s.mem[G].fields[0] - self.base.len):
                self.fail("may leave tokens out")


def joined(c, P):
    for n in ("to_style_tokens_string", "style_tokens_to_string", "write_style_tokens"):
        Joined(c, P, n).go()
    c.floor("tokens written", 3)
