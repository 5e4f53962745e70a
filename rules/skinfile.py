"""Skins as data (S08): what's written for an entry is what's read for its key.

The reader (visit_map) is analysed one entry at a time, from an arbitrary skin, for each key: what
the entry changes is the difference between the skin before and after it. The writer is the
sequence of entries it gives to the serializer.
"""
import absint, fw
from absint import Agg, Sym, Ref, VecV, BoolV, Lin, TRUE, FALSE
from models import OPT, NONE, some, ok, err, norm, UNIT
from render import Run1, place
from words import enum, attributes, CS, LS, SC, ATTR, ALIGN

SKIN = "termimad::skin::MadSkin"
BAR = "termimad::scrollbar_style::ScrollBarStyle"
DEF = "termimad::serde::serde_scrollbar_style::ScrollBarStyleDef"
CHARS = "termimad::table_border_chars::TableBorderChars"
READERS = {CS: "parse_compound_style", LS: "parse_line_style", SC: "parse_styled_char"}
# the fields which aren't part of the file
APART = {"list_items_indentation_mode", "special_chars"}
# the documented keys which aren't the name of the field, or this name with dashes
OTHERS = {"quote": "quote_mark", "rule": "horizontal_rule"}
KEY = ("the key",)
VALUE = ("the value",)


def path_of(P, t):
    return P.types[t].get("path") or ""


class File:
    def __init__(self, c, P):
        self.c, self.P = c, P
        self.key = None
        self.default_align = next(i for i, t in enumerate(P.types) if t.get("path") == ALIGN)

    # ---- text
    def text(self, E, st, x):
        return strip(E.content(st, x))

    def strings(self, E, fr, blk, st, path, fn, args):
        """tests on the key"""
        m = path.split("::")[-1]
        rp = fn.get("rpath") or path
        if m in ("eq", "ne", "eq_ignore_ascii_case", "starts_with", "ends_with") and len(args) == 2:
            a, b = self.text(E, st, args[0]), self.text(E, st, args[1])
            if m in ("eq", "ne") and a[0] != "str":
                a, b = b, a
            if m in ("eq", "ne") and a[0] == "str" and b == KEY or m not in ("eq", "ne") and a == KEY:
                # a key which isn't documented
                return [(st, BoolV(TRUE if m == "ne" else FALSE))]
            if a[0] == "str" and b[0] == "str":
                a, b = a[1], b[1]
                if m in ("eq", "ne"):
                    r = (a == b) == (m == "eq")
                else:
                    a, b = E.content(st, args[0])[1], E.content(st, args[1])[1]
                    r = {"eq_ignore_ascii_case": a.lower() == b.lower(), "starts_with": a.startswith(b), "ends_with": a.endswith(b)}[m]
                return [(st, BoolV(TRUE if r else FALSE))]
        if args and ("str" in path or "String" in rp or "ToString" in rp or "ToOwned" in rp):
            a = self.text(E, st, args[0])
            if a[0] == "str" and m in ("to_lowercase", "to_ascii_lowercase", "to_string", "to_owned", "trim", "as_str", "as_ref", "into", "clone"):
                w = a[1]
                w = w.lower() if "lower" in m else w.strip() if m == "trim" else w
                return [(st, Ref(("str", w), (), None))]
            if a == KEY and m in ("to_lowercase", "to_ascii_lowercase", "to_string", "to_owned", "trim", "as_str", "as_ref", "replace"):
                return [(st, Sym(KEY, None))]
            if a[0] == "str" and m == "replace" and len(args) == 3:
                p = args[1]
                p = chr(p.c) if isinstance(p, Lin) and p.is_const() else self.text(E, st, p)
                q = self.text(E, st, args[2])
                p = p[1] if isinstance(p, tuple) and p[0] == "str" else p
                if isinstance(p, str) and q[0] == "str":
                    return [(st, Ref(("str", a[1].replace(p, q[1])), (), None))]
        return None

    # ---- attributes, as sets added to what was there
    def attrs_of(self, E, st, x):
        x = E.peel(st, x)
        t = getattr(x, "term", None)
        if isinstance(t, tuple) and t and t[0] == "attrs+":
            return t[1], t[2]
        if isinstance(t, tuple):
            return t, ()
        return None

    def attributes(self, E, st, path, args):
        m = path.split("::")[-1]
        if "Attributes" not in path or m not in ("has", "set") or len(args) != 2:
            return None
        old = self.attrs_of(E, st, args[0])
        vi = E.variant_of(st, E.peel(st, args[1]))
        if old is None or vi is None:
            return None
        a = self.P.adts[ATTR]["variants"][vi]["name"]
        if m == "has":
            if a in old[1]:
                return [(st, BoolV(TRUE))]
            return [(st, BoolV(FALSE))] if old[0] == () else None
        r = E.toref(args[0])
        E.write(st, r.root, r.path, Sym(("attrs+", old[0], tuple(sorted(set(old[1]) | {a}))), None))
        return [(st, UNIT)]

    def skins(self, E, st):
        """the skin being read"""
        out = [v for k, v in st.mem.items() if isinstance(v, Agg) and v.path == SKIN]
        if not out:
            # unchanged
            out = [self.skin]
        return out

    def calls(self, E, fr, blk, st, path, fn, args):
        P = self.P
        m = path.split("::")[-1]
        rp = fn.get("rpath") or path
        if m == "default" and not args:
            t = fn["targs"][0] if fn.get("targs") else None
            if t is not None and path_of(P, t) == ALIGN:
                return [(st, enum(P, ALIGN, "Unspecified", (), t))]
            if "MadSkin" in rp or t is not None and path_of(P, t) == SKIN:
                return [(st, self.skin)]
        if m == "next_key":
            if st.g("entry"):
                self.ends.append((st, self.skins(E, st)))
                return []
            s2 = st.copy()
            s2.setg("entry", "end")
            s3 = st.copy()
            s3.setg("failed", True)
            st.setg("entry", "read")
            k = Ref(("str", self.key), (), None) if self.key is not None else Sym(KEY, None)
            return [(st, ok(some(k))), (s2, ok(NONE)), (s3, err(Sym(("refused",), None)))]
        if m in ("next_value", "next_entry"):
            if m == "next_entry" or st.g("asked"):
                raise fw.Missing("one value read for a key")
            t = fn["targs"][-1]
            st.setg("asked", path_of(P, t) or P.types[t]["s"])
            s2 = st.copy()
            s2.setg("failed", True)
            out = [(s2, err(Sym(("refused",), None)))]
            return out + [(s, ok(v)) for s, v in self.values(E, st, t)]
        if m in READERS.values() and args:
            a = self.text(E, st, args[0])
            s2 = st.copy()
            s2.setg("failed", True)
            return [(st, ok(Sym(("parsed", m, a), None))), (s2, err(Sym(("not a style",), None)))]
        if m == "into_scrollbar_style" and args:
            return [(st, Sym(("bar of", self.text(E, st, args[0])), None))]
        if m == "by_key" and args:
            s2 = st.copy()
            s2.setg("no chars", True)
            return [(st, some(Sym(("chars of", self.text(E, st, args[0])), None))), (s2, NONE)]
        r = self.attributes(E, st, path, args)
        if r is not None:
            return r
        return self.strings(E, fr, blk, st, path, fn, args)

    def values(self, E, st, t):
        P = self.P
        if path_of(P, t).endswith("HeadersStyleInfo") and self.headers is not None:
            return [(st, self.headers(E, st, t))]
        if path_of(P, t).endswith("String"):
            return [(st, Sym(VALUE, None))]
        return [(st, E.mk(VALUE, t))]

    def read(self, key, headers=None):
        """[(state, skin)] after an entry"""
        c, P = self.c, self.P
        self.key, self.headers, self.ends = key, headers, []
        bs = [b for b in P.bodies.values() if b.kind == "fn" and b.name == "visit_map" and "serde_skin" in b.path]
        self.b = b = c.need(bs or None, "the visitor reading the skin")[0]
        self.r = Run1(P, b, c, on_call=self.calls, unroll=40, max_states=600, max_writes=24, adaptors=True)
        self.E = E = self.r.E
        rt = P.types[b.locals[0]["t"]]
        ty = next((i for i, t in enumerate(P.types) if t.get("path") == SKIN), None)
        self.ty = c.need(ty, "MadSkin")
        self.skin = E.mk(("skin",), ty)
        for s, v in E.call_body(self.r.init.copy(), b, list(self.r.args)):
            c.count("paths of the reader")
            vi = E.variant_of(s, v)
            if vi is None:
                raise fw.Missing("whether the skin is read")
            if vi == 1:
                if not s.g("failed"):
                    self.fail(key, "a readable skin is refused")
                continue
            if s.g("failed"):
                self.fail(key, "a value which can't be read is ignored")
            elif s.g("entry") == "end":
                x = E.proj(s, v, ("f", 0, 0, None, "0"))
                for f in self.fields():
                    if E.content(s, self.get(s, x, f)) != E.content(s, self.get(s, self.skin, f)):
                        self.fail(key, "a skin without entry isn't the default one")
            else:
                self.fail(key, "the entries after it are ignored")
        c.need(self.ends or None, "an entry being read")
        for s, skins in self.ends:
            c.count("entries read")
            if s.g("failed"):
                self.fail(key, "a value which can't be read is ignored")
            if not s.g("asked"):
                self.fail(key, "the value isn't read")
            if len(skins) != 1:
                raise fw.Missing("the skin being read")
        return [(s, x[0]) for s, x in self.ends if not s.g("failed")]

    def fail(self, key, what):
        self.c.violate("read:%s:%s" % (key, what), "%s:%d with the entry %s: %s" % (self.b.file, self.b.line, key or "of an unknown key", what))

    def fields(self):
        return [f["name"] for f in self.P.adts[SKIN]["variants"][0]["fields"]]

    def get(self, st, x, name):
        return self.E.proj(st, x, place(self.P, SKIN, name)[0])

    def changed(self, st, x):
        E = self.E
        return {f: E.content(st, self.get(st, x, f)) for f in self.fields()
                if E.content(st, self.get(st, x, f)) != E.content(st, self.get(st, self.skin, f))}


def documented(c, P):
    """{key: field}"""
    out = {}
    for f in P.adts[SKIN]["variants"][0]["fields"]:
        n = f["name"]
        if n not in APART:
            out[n] = n
            out[n.replace("_", "-")] = n
    names = set(out.values())
    for k, n in OTHERS.items():
        if n in names:
            out[k] = n
    return out


def entry(c, P, key, field):
    """an entry sets the field named by the key, from the value"""
    F = File(c, P)
    if field == "headers":
        return
    ends = F.read(key)
    for s, x in ends:
        ch = F.changed(s, x)
        c.count("entries checked")
        if field is None:
            if ch:
                F.fail(key, "%s changes" % sorted(ch)[0])
            continue
        for f in ch:
            if f != field:
                F.fail(key, "%s changes" % f)
        if field not in ch:
            if field == "table_border_chars" and s.g("no chars"):
                continue
            F.fail(key, "%s isn't set" % field)
            continue
        t = path_of(P, place(P, SKIN, field)[0][3])
        if field == "table_border_chars":
            want = ("chars of", VALUE)
        elif t == BAR:
            want = ("bar of", VALUE)
        else:
            want = ("parsed", READERS.get(t), VALUE)
        got = ch[field]
        while isinstance(got, tuple) and got and got[0] == "*":
            got = got[1]
        if got == VALUE and t in READERS and s.g("asked") == t:
            # read by the conversion of the style, which is looked at elsewhere
            continue
        if got != want:
            F.fail(key, "%s isn't what the value says" % field)
    c.need(ends or None, "a way to read the entry %s" % key)


def variant(P, path, name):
    return next(i for i, v in enumerate(P.adts[path]["variants"]) if v["name"] == name)


def levels(c, P, n):
    """a list of headers sets the first ones"""
    F = File(c, P)
    path = next((p for p in P.adts if p.endswith("HeadersStyleInfo")), None)
    c.need(path, "HeadersStyleInfo")

    def headers(E, st, t):
        vi = variant(P, path, "Levels")
        vt = P.adts[path]["variants"][vi]["fields"][0]["t"] if "t" in P.adts[path]["variants"][vi]["fields"][0] else None
        lt = next(i for i, x in enumerate(P.types) if x.get("path") == LS)
        return Agg(path, vi, (VecV(("levels",), Lin(n), (), lt),), t)
    for s, x in F.read("headers", headers):
        E = F.E
        for f in F.changed(s, x):
            if f != "headers":
                F.fail("headers", "%s changes" % f)
        for i, (a, b) in each(F, s, x):
            c.count("headers checked")
            want = ("e", ("levels",), Lin(i)) if i < n else E.content(s, b)
            if E.content(s, a) != want:
                F.fail("headers", "with a list of %d levels, the level %d isn't the right one" % (n, i + 1))


def each(F, s, x):
    """[(level, (header, header of the skin before))]"""
    E, P = F.E, F.P
    p = place(P, SKIN, "headers")[0]
    n = P.types[p[3]].get("len") or 8
    lt = P.types[p[3]].get("ty")
    out = []
    for i in range(n):
        out.append((i, tuple(E.elem(s, E.proj(s, v, p), Lin(i), lt) for v in (x, F.skin))))
    return out


def added(c, P, attrs, fg, bg, align):
    """a style given for all the headers is added to each one"""
    F = File(c, P)
    path = next((p for p in P.adts if p.endswith("HeadersStyleInfo")), None)
    c.need(path, "HeadersStyleInfo")
    cell = ("C", ("added",))
    lt = next(i for i, x in enumerate(P.types) if x.get("path") == LS)
    osp = place(P, LS, "compound_style.object_style")
    adt = path_of(P, osp[-1][3])
    fp, bp, ap = (osp + (place(P, adt, f)[0],) for f in ("foreground_color", "background_color", "attributes"))
    alp = place(P, LS, "align")
    box = {}

    def headers(E, st, t):
        st.mem[cell] = E.mk(("added",), lt)
        E.write(st, cell, ap, Sym(("attrs+", (), tuple(attrs)), None))
        for p, w, y in ((fp, fg, "fg"), (bp, bg, "bg")):
            E.write(st, cell, p, some(Sym(("added", y), None)) if w else NONE)
        E.write(st, cell, alp, enum(P, ALIGN, align, (), alp[-1][3]))
        box["ls"] = st.mem[cell]
        return Agg(path, variant(P, path, "Add"), (st.mem[cell],), t)

    def field(E, s, v, p):
        for q in p:
            v = E.proj(s, v, q)
        return v
    for s, x in F.read("headers", headers):
        E = F.E
        for f in F.changed(s, x):
            if f != "headers":
                F.fail("headers", "%s changes" % f)
        for i, (a, b) in each(F, s, x):
            c.count("headers checked")
            for p, w, y in ((fp, fg, "fg"), (bp, bg, "bg")):
                v = field(E, s, a, p)
                if w:
                    good = E.content(s, v) == E.content(s, some(Sym(("added", y), None)))
                else:
                    good = E.content(s, v) == E.content(s, field(E, s, b, p))
                if not good:
                    F.fail("headers", "the %s of the level %d isn't the right one" % (y, i + 1))
            old = F.attrs_of(E, s, field(E, s, b, ap))
            new = F.attrs_of(E, s, field(E, s, a, ap))
            if old is None or new is None or new[0] != old[0] or set(new[1]) != set(old[1]) | set(attrs):
                F.fail("headers", "the attributes of the level %d aren't the right ones" % (i + 1))
            v = field(E, s, a, alp)
            if align == "Unspecified":
                good = E.content(s, v) == E.content(s, field(E, s, b, alp))
            else:
                k = E.variant_of(s, v)
                good = k is not None and P.adts[ALIGN]["variants"][k]["name"] == align
            if not good:
                F.fail("headers", "the alignment of the level %d isn't the right one" % (i + 1))


class Writer:
    """the entries given to the serializer"""

    def __init__(self, c, P):
        self.c, self.P = c, P
        bs = [b for b in P.bodies.values() if b.kind == "fn" and b.name == "serialize" and "serde_skin" in b.path and "MadSkin" in b.path]
        self.b = c.need(bs or None, "the writer of the skin")[0]
        self.r = Run1(P, self.b, c, on_call=self.calls, unroll=0, max_states=400)
        self.E = self.r.E
        self.me = self.E.toref(self.r.args[0])
        self.r.init.setg("log", ())

    def key(self, st, a):
        t = self.E.content(st, a)
        return t[1] if t[0] == "str" else t

    def log(self, st, k, v):
        s2 = st.copy()
        s2.setg("failed", True)
        st.setg("log", st.g("log") + ((k, v),))
        return [(st, ok(UNIT)), (s2, err(Sym(("io",), None)))]

    def calls(self, E, fr, blk, st, path, fn, args):
        P = self.P
        m = path.split("::")[-1]
        rp = fn.get("rpath") or path
        if m in ("serialize_map", "serialize_struct"):
            s2 = st.copy()
            s2.setg("failed", True)
            return [(st, ok(Sym(("map",), None))), (s2, err(Sym(("io",), None)))]
        if m in ("serialize_entry", "serialize_field") and len(args) == 3:
            return self.log(st, self.key(st, args[1]), E.content(st, args[2]))
        if m == "serialize_key" and len(args) == 2:
            st.setg("pending", self.key(st, args[1]))
            return [(st, ok(UNIT))]
        if m == "serialize_value" and len(args) == 2:
            return self.log(st, st.g("pending"), E.content(st, args[1]))
        if m == "end":
            s2 = st.copy()
            s2.setg("failed", True)
            st.setg("ended", True)
            return [(st, ok(Sym(("ended",), None))), (s2, err(Sym(("io",), None)))]
        if m in ("from", "into") and args and "ScrollBarStyle" in rp + str([P.types[t]["s"] for t in fn.get("targs") or []]):
            return [(st, Sym(("def of", E.content(st, args[0])), None))]
        if m == "key" and "table_border_chars" in rp:
            t = E.content(st, args[0])
            s2 = st.copy()
            s2.setg("unnamed", True)
            return [(st, some(Sym(("key of", t), None))), (s2, NONE)]
        return None

    def go(self, keys):
        c, P, E = self.c, self.P, self.E
        n = 0
        for s, v in E.call_body(self.r.init.copy(), self.b, list(self.r.args)):
            c.count("paths of the writer")
            vi = E.variant_of(s, v)
            if vi is None and isinstance(v, Sym) and v.term == ("ended",):
                vi = 0
            if s.g("failed"):
                if vi == 0:
                    self.fail("an error is hidden")
                continue
            if vi == 1:
                self.fail("a skin is refused")
                continue
            n += 1
            if not s.g("ended"):
                self.fail("the map isn't ended")
            log = s.g("log")
            done = set()
            for k, t in log:
                c.count("entries written")
                f = keys.get(k)
                if f is None:
                    self.fail("the key %s isn't one which is read" % (k,))
                    continue
                if f in done:
                    self.fail("%s is written twice" % f)
                done.add(f)
                mine = E.content(s, E.read(s, self.me.root, self.me.path + (place(P, SKIN, f)[0],), None))
                if f == "scrollbar":
                    mine = ("def of", mine)
                if f == "table_border_chars":
                    t = strip(t)
                    good = t[0] == "key of" and strip(t[1]) == strip(mine)
                else:
                    good = t == mine
                if not good:
                    self.fail("what's written for %s isn't its value" % k)
            for f in set(keys.values()) - done:
                if f == "table_border_chars" and s.g("unnamed"):
                    continue
                self.fail("%s isn't written" % f)
        c.need(n or None, "a way to write a skin")

    def fail(self, what):
        self.c.violate("write:%s" % what, "%s:%d writing a skin: %s" % (self.b.file, self.b.line, what))


def strip(t):
    while isinstance(t, tuple) and t and t[0] == "*":
        t = t[1]
    return t


def glue(c, P, path, reader):
    """a style is written as its words, read with its reader"""
    short = path.split("::")[-1]
    for b in P.bodies.values():
        if b.kind != "fn" or "::serde::" not in b.path or not b.path.split(">::")[0].endswith("for " + path.replace("termimad::", "")):
            continue
        c.count("conversions")

        def calls(E, fr, blk, st, p, fn, args, b=b):
            m = p.split("::")[-1]
            if m == "to_style_tokens_string":
                return [(st, Sym(("words of", E.content(st, args[0])), None))]
            if m in ("serialize_str", "collect_str"):
                return [(st, Sym(("written", E.content(st, args[1])), None))]
            if m == reader:
                s2 = st.copy()
                s2.setg("failed", True)
                return [(st, ok(Sym(("parsed", m, E.content(st, args[0])), None))), (s2, err(Sym(("not a style",), None)))]
            if m == "deserialize" and b.name == "deserialize":
                s2 = st.copy()
                s2.setg("failed", True)
                return [(st, ok(Sym(VALUE, None))), (s2, err(Sym(("refused",), None)))]
            return None
        r = Run1(P, b, c, on_call=calls, unroll=0)
        E = r.E
        me = r.args[0]
        where = "%s:%d " % (b.file, b.line)
        n = 0
        for s, v in E.call_body(r.init.copy(), b, list(r.args)):
            c.count("paths of the conversions")
            if b.name == "serialize":
                n += 1
                if not isinstance(v, Sym) or v.term != ("written", ("words of", E.content(s, me))):
                    c.violate("glue:%s:serialize" % short, where + "a %s isn't written as its words" % short)
                continue
            vi = E.variant_of(s, v)
            if vi != 0:
                if not s.g("failed"):
                    c.violate("glue:%s:refused" % short, where + "a readable %s is refused" % short)
                continue
            n += 1
            got = E.content(s, E.proj(s, v, ("f", 0, 0, None, "0")))
            if s.g("failed") or got != ("parsed", reader, VALUE):
                c.violate("glue:%s:deserialize" % short, where + "a %s isn't read from its words" % short)
        c.need(n or None, "a path of %s" % b.path)


def bar(c, P):
    """the simple form of a scrollbar is used only when it says the same"""
    b = next((b for b in P.bodies.values() if b.kind == "fn" and b.name == "from" and "ScrollBarStyleDef" in b.path and "From<&" in b.path), None)
    c.need(b, "the definition of a scrollbar from its style")

    def calls(E, fr, blk, st, p, fn, args):
        m = p.split("::")[-1]
        rp = fn.get("rpath") or p
        if m in ("from", "into") and ("ScrollBarStyle" in rp or "ScrollBarStyle" in str([P.types[t]["s"] for t in fn.get("targs") or []])):
            return [(st, Sym(("bar", E.content(st, args[0])), None))]
        if m in ("eq", "ne") and len(args) == 2:
            x, y = E.content(st, args[0]), E.content(st, args[1])
            f = tuple(sorted((strip(x), strip(y)), key=repr))
            out = []
            for w in (True, False):
                s = st.copy()
                s.setg("eq", s.g("eq", ()) + ((f, w),))
                out.append((s, BoolV(TRUE if (m == "eq") == w else FALSE)))
            return out
        return None
    r = Run1(P, b, c, on_call=calls, unroll=0)
    E = r.E
    me = E.toref(r.args[0])
    where = "%s:%d " % (b.file, b.line)
    for s, v in c.need(r.go() or None, "a path of %s" % b.path):
        c.count("definitions")
        vi = E.variant_of(s, v)
        if vi is None:
            raise fw.Missing("the form of the definition")
        vn = P.adts[DEF]["variants"][vi]
        if vn["name"] == "Simple":
            x = E.content(s, E.proj(s, v, ("f", 0, vi, None, "0")))
            f = tuple(sorted((("bar", x), strip(E.content(s, me))), key=repr))
            if (f, True) not in s.g("eq", ()):
                c.violate("bar:simple", where + "a scrollbar may be written in the simple form which says something else")
        else:
            for i, g in enumerate(vn["fields"]):
                t = E.content(s, E.proj(s, v, ("f", i, vi, None, g["name"])))
                if t != E.content(s, E.read(s, me.root, me.path + (place(P, BAR, g["name"])[0],), None)):
                    c.violate("bar:rich", where + "the %s of a scrollbar isn't kept" % g["name"])
    b = next((b for b in P.bodies.values() if b.kind == "fn" and b.name == "into_scrollbar_style"), None)
    c.need(b, "into_scrollbar_style")
    r = Run1(P, b, c, on_call=calls, unroll=0)
    E = r.E
    where = "%s:%d " % (b.file, b.line)
    for s, v in c.need(r.go() or None, "a path of %s" % b.path):
        c.count("definitions")
        vi = E.variant_of(s, r.args[0])
        if vi is None:
            raise fw.Missing("the form of the definition")
        vn = P.adts[DEF]["variants"][vi]
        if vn["name"] == "Simple":
            if not isinstance(v, Sym) or v.term != ("bar", E.content(s, E.proj(s, r.args[0], ("f", 0, vi, None, "0")))):
                c.violate("bar:from simple", where + "the simple form of a scrollbar isn't read as such")
        else:
            for i, g in enumerate(vn["fields"]):
                t = E.content(s, E.proj(s, r.args[0], ("f", i, vi, None, g["name"])))
                if t != E.content(s, E.proj(s, v, place(P, BAR, g["name"])[0])):
                    c.violate("bar:from rich", where + "the %s of a scrollbar isn't read" % g["name"])


def border(c, P):
    """the name of border chars gives these border chars"""
    kb = next((b for b in P.bodies.values() if b.kind == "fn" and b.name == "key" and "table_border_chars" in b.path), None)
    bb = next((b for b in P.bodies.values() if b.kind == "fn" and b.name == "by_key" and "table_border_chars" in b.path), None)
    c.need(kb, "TableBorderChars::key")
    c.need(bb, "TableBorderChars::by_key")

    def static(E, st, x):
        t = strip(E.content(st, x))
        return t if t[0] == "agg" and t[1] == CHARS else None

    def calls(E, fr, blk, st, p, fn, args):
        m = p.split("::")[-1]
        if m in ("eq", "ne") and len(args) == 2:
            a, b = E.content(st, args[0]), E.content(st, args[1])
            if a[0] == "str" and b[0] == "str":
                return [(st, BoolV(TRUE if (a == b) == (m == "eq") else FALSE))]
            sa, sb = static(E, st, args[0]), static(E, st, args[1])
            x = sa or sb
            if x is None:
                return None
            out = []
            for w in (True, False):
                s = st.copy()
                s.setg("is", s.g("is", ()) + ((x, w),))
                out.append((s, BoolV(TRUE if (m == "eq") == w else FALSE)))
            return out
        return None
    r = Run1(P, kb, c, on_call=calls, unroll=0)
    E = r.E
    named = 0
    for s, v in c.need(r.go() or None, "a path of key"):
        if E.variant_of(s, v) == 0:
            continue
        k = E.content(s, E.proj(s, v, ("f", 0, 1, None, "0")))
        if k[0] != "str":
            raise fw.Missing("the name of the border chars")
        named += 1
        mine = [x for x, w in s.g("is", ()) if w]
        r2 = Run1(P, bb, c, on_call=calls, unroll=0)
        E2 = r2.E
        for s2, v2 in E2.call_body(r2.init.copy(), bb, [Ref(k, (), None)]):
            c.count("names of border chars")
            x = static(E2, s2, E2.proj(s2, v2, ("f", 0, 1, None, "0"))) if E2.variant_of(s2, v2) == 1 else None
            if x is None or x not in mine:
                c.violate("border:%s" % k[1], "%s:%d the border chars written as %r are read as others" % (bb.file, bb.line, k[1]))
    c.need(named or None, "named border chars")


def job(a):
    kind, tier = a[0], a[1]
    c = fw.Check("S08", tier)
    P = c.prog()
    try:
        if kind == "entry":
            entry(c, P, a[2], a[3])
        elif kind == "levels":
            levels(c, P, a[2])
        else:
            added(c, P, *a[2:])
    except fw.Missing as e:
        c.violate("anchor:%s:%s" % (kind, a[2]), str(e))
    return c.viol, c.counts


def s08(c):
    P = c.prog()
    c.need(SKIN in P.adts or None, "MadSkin")
    keys = documented(c, P)
    jobs = [("entry", c.tier, k, f) for k, f in sorted(keys.items())] + [("entry", c.tier, None, None)]
    jobs += [("levels", c.tier, n) for n in range(0, 10 if c.tier == "quick" else 17)]
    at = tuple(attributes(c, P))
    sets = [(), at] + [(x,) for x in at]
    jobs += [("add", c.tier, s, True, False, "Unspecified") for s in sets]
    jobs += [("add", c.tier, (), f, b, al) for f in (True, False) for b in (True, False) for al in ("Unspecified", "Left", "Center", "Right")]
    for viol, counts in fw.pmap(job, jobs):
        for k, x in viol.items():
            c.violate(k, x)
        for k, n in counts.items():
            c.count(k, n)
    Writer(c, P).go(keys)
    for p, r in READERS.items():
        glue(c, P, p, r)
    bar(c, P)
    border(c, P)
    c.floor("entries checked", 20)
    c.floor("headers checked", 200)
    c.floor("entries written", 10)
    c.floor("conversions", 6)
    c.floor("definitions", 3)
    c.floor("names of border chars", 2)
