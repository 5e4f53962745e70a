"""The shortcuts: functions of the crate and macros (K04)."""
import absint, fw
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import NONE, some, norm
from render import Run1, rd, place
from blocks import prepare, strip, dst, inline_of
from outmod import Out

MARK = "**$0 formula:** *$1*"
MARK_ALL = "$0 $1 **$2** *$3* $4 `$5` $6 $7 $8 $9"
Q = "termimad::ask::Question"
ANS = "termimad::ask::Answer"
SEEN = ("GH", "seen")
DEFAULT = ("default skin",)


def functions(c, P):
    """the functions of the crate are the methods of the default skin"""
    laid = lambda a, w: ("laid", ("parsed", a["str"], True), DEFAULT, w)
    none = lambda a: a["E"].content(a["st"], NONE)
    tw = lambda a: a["some"](a["E"].nat(("terminal width",)))
    inl = lambda a: ("inline", DEFAULT, ("fc", ("parsed inline", a["str"]), DEFAULT))
    for name, ret, wr in (("inline", inl, None), ("text", lambda a: laid(a, none(a)), None), ("term_text", lambda a: laid(a, tw(a)), None),
                          ("print_inline", None, inl), ("print_text", None, lambda a: ("text", laid(a, tw(a))))):
        b = next((b for b in P.bodies.values() if b.path == "termimad::" + name), None)
        c.need(b, name)
        o, E, st, args, a = prepare(c, P, b)
        a["st"] = st
        n = 0
        for s, v in E.call_body(st.copy(), b, args):
            if not E.feasible(s, []):
                continue
            n += 1
            c.count("ends")
            ok = True
            if ret is not None:
                got = inline_of(P, E, s, v) if name == "inline" else strip(E.content(s, v))
                ok = got == ret(a)
            want = [(wr(a), Lin(1))] if wr is not None else []
            if not ok or list(o.runs(s)) != want:
                c.violate("shortcut:" + name, "%s:%d %s doesn't show its source with the default skin, for its destination, once" % (b.file, b.line, name))
        c.need(n or None, "an end of " + name)


def default_skin(c, P):
    """the default skin is a static of MadSkin::default()"""
    b = c.need(next((b for b in P.bodies.values() if b.path.endswith("::get_default_skin") and b.kind == "fn"), None), "get_default_skin")
    fns = set()

    def walk(x):
        if isinstance(x, dict):
            f = x.get("fn")
            if isinstance(f, dict):
                fns.add((f.get("rid") or "", f.get("rpath") or f.get("path") or ""))
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    own = [x for x in P.bodies.values() if x.path.startswith(b.path)]
    for x in own:
        walk(x.blocks)
    c.count("bodies of the default skin", len(own))
    ours = [p for r, p in fns if r.startswith("termimad::") and "{closure" not in p]
    if not ours or any("MadSkin as" not in p or not p.endswith("Default>::default") for p in ours):
        c.violate("default skin", "%s:%d the default skin isn't the default value of skins" % (b.file, b.line))


class Macro:
    """a function of the witness crate, which is only a macro"""

    def __init__(self, c, W, name, given=()):
        self.c, self.W, self.name = c, W, name
        self.b = c.need(W.free(name), "the expansion of the macro in " + name)
        self.r = Run1(W, self.b, c, on_call=self.calls, adaptors=True, unroll=12, unroll_paths=40, max_states=400)
        self.E = self.r.E
        self.st = self.r.init
        self.args = self.r.args
        self.st.mem[SEEN] = Agg("ghost", None, ((), ()))
        self.keys = {}
        self.asked = 0

    def fail(self, what, msg):
        self.c.violate("macro:%s:%s" % (self.name, what), "the expansion of %s: %s" % (self.what, msg))

    def K(self, st, a):
        if isinstance(a, Lin):
            return ("lin", a)
        E = self.E
        for _ in range(5):
            r = a if isinstance(a, Ref) else None
            if r is None and isinstance(a, Sym) and a.ty is not None and E.tyk(a.ty) == "ref":
                r = E.toref(a)
            if r is None:
                break
            a = E.read(st, r.root, r.path, r.ty)
        return strip(E.content(st, a)) if not isinstance(a, Lin) else ("lin", a)

    def see(self, st, x):
        st = st.copy()
        a, b = st.mem[SEEN].fields
        st.mem[SEEN] = Agg("ghost", None, (a + (x,), b))
        return st

    def seen(self, st):
        return st.mem[SEEN].fields[0]

    def calls(self, E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        d = dst(self.W, fr, blk)
        K = lambda a: self.K(st, a)
        if m in ("to_string", "to_owned") or m in ("from", "into") and d is not None and self.W.types[d]["s"].endswith("string::String"):
            return [(st, E.mk(("string", K(args[0])), d))]
        if m in ("from", "into") and d is not None and (self.W.types[d].get("path") or "").endswith("InlineTemplate"):
            return [(st, E.mk(("template", K(args[0])), d))]
        if m == "raw_composite":
            return [(st, E.mk(("raw", K(args[0])), d))]
        if m == "apply" and "Template" in path and len(args) == 4:
            r = E.toref(args[1])
            s = st.copy()
            E.write(s, r.root, r.path, E.mk(("applied", K(args[1]), K(args[0]), K(args[2]), K(args[3])), r.ty))
            return [(s, Agg("()", None, ()))]
        if m == "print_composite":
            return [(self.see(st, ("print", K(args[0]), K(args[1]))), Agg("()", None, ()))]
        if m == "write_composite":
            return [(self.see(st, ("write", K(args[0]), self.root(args[1]), K(args[2]))), E.mk(("written",), d))]
        return self.asking(E, fr, blk, st, path, fn, args, m, d)

    def field(self, adt, name):
        fs = self.W.adts[adt]["variants"][0]["fields"]
        i = next(i for i, f in enumerate(fs) if f["name"] == name)
        return ("f", i, None, fs[i].get("ty"), name)

    def asking(self, *a):
        return None

    def root(self, x):
        r = self.E.toref(x)
        return (r.root, r.path) if r is not None else x

    def go(self):
        out = [(s, v) for s, v in self.E.call_body(self.st.copy(), self.b, list(self.args)) if self.E.feasible(s, [])]
        return self.c.need(out or None, "an end of " + self.name)


def inlines(c, W):
    for name, macro, mark in (("w_print", "mad_print_inline!", MARK), ("w_write", "mad_write_inline!", MARK), ("w_print_none", "mad_print_inline!", "**no** argument"),
                              ("w_print_all", "mad_print_inline!", MARK_ALL), ("w_write_all", "mad_write_inline!", MARK_ALL)):
        v = Macro(c, W, name)
        v.what = macro
        E = v.E
        wr = name.startswith("w_write")
        skin, given = v.args[wr], v.args[wr + 1:]
        for s, res in v.go():
            c.count("ends")
            seen = v.seen(s)
            if len(seen) != 1:
                v.fail("once", "it isn't shown exactly once")
                continue
            x = seen[0]
            comp = x[-1]
            args, T = [], None
            while isinstance(comp, tuple) and comp and comp[0] == "applied":
                args.insert(0, (comp[3], comp[4]))
                T = T or comp[2]
                if comp[2] != T:
                    v.fail("template", "several templates are used")
                comp = comp[1]
            want = [(("lin", Lin(i)), ("string", v.K(s, y))) for i, y in enumerate(given)]
            if args != want:
                v.fail("args", "the arguments aren't put, as strings, in the places of the template")
            if not isinstance(comp, tuple) or comp[0] != "raw" or T is not None and comp[1] != T:
                v.fail("raw", "what's shown isn't the composite of the template")
            if x[1] != v.K(s, skin):
                v.fail("skin", "it isn't shown with the skin given")
            if x[0] != ("write" if wr else "print"):
                v.fail("way", "it isn't %s" % ("written" if wr else "printed"))
            if wr:
                if x[2] != v.root(v.args[0]):
                    v.fail("writer", "it isn't written on the writer given")
                if strip(E.content(s, res)) != ("written",):
                    v.fail("result", "the result isn't the one of the writing")
        # the template is made of the literal
        ok = False
        for x in [x for x in W.bodies.values() if x.path.startswith(v.b.path + "::") and x.kind == "closure"]:
            m = Macro(c, W, name)
            m.what = macro
            for s, t in m.E.call_body(m.st.copy(), x, [m.E.mk(("env",), x.locals[1]["t"])] if x.argc else []):
                k = m.K(s, t)
                if isinstance(k, tuple) and k and k[0] == "template":
                    c.count("templates")
                    ok = lit(k[1]) == mark
                    if not ok:
                        v.fail("literal", "the template isn't the literal given")
        if not ok:
            v.fail("template", "there's no template of the literal given")


class Ask(Macro):
    def asking(self, E, fr, blk, st, path, fn, args, m, d):
        K = lambda a: self.K(st, a)
        if path.endswith("has_exotic_default"):
            s, t = self.see(st, ("exotic", True)), self.see(st, ("exotic", False))
            return [(s, BoolV(TRUE)), (t, BoolV(FALSE))]
        if path.endswith("Question::ask"):
            self.c.count("questions")
            self.asked += 1
            q = E.toref(args[0])
            qv = E.read(st, q.root, q.path, q.ty)
            f = {x: E.proj(st, qv, self.field(Q, x)) for x in ("md", "answers", "default_answer")}
            vec = f["answers"]
            got = []
            n = vec.len if isinstance(vec, VecV) else None
            if n is None or not n.is_const():
                self.fail("answers", "the number of answers isn't known")
            else:
                for i in range(int(n.c)):
                    x = E.elem(st, vec, Lin(i), vec.ety)
                    got.append(tuple(self.K(st, E.proj(st, x, self.field(ANS, k))) for k in ("key", "md")))
            inner = lambda x: (E.variant_of(st, x), self.K(st, E.proj(st, x, ("f", 0, 1, None, "0"))) if E.variant_of(st, x) == 1 else None)
            ex = [x[1] for x in self.seen(st) if x[0] == "exotic"]
            s = self.see(st, ("asked", self.K(st, args[1]), inner(f["md"]), tuple(got), inner(f["default_answer"]), tuple(ex)))
            t = E.types[d] if hasattr(E, "types") else self.W.types[d]
            return [(s, Agg("core::result::Result", 0, (E.mk(("answer",), t["args"][0]),)))]
        if m in ("eq", "ne") and len(args) == 2:
            k = [K(x) for x in args]
            if ("answer",) not in k:
                return None
            o = [x for x in k if x != ("answer",)]
            o = o[0] if o else None
            for x in self.seen(st):
                if x[0] == "eq" and x[1] == o:
                    return [(st, BoolV(TRUE if x[2] == (m == "eq") else FALSE))]
            return [(self.see(st, ("eq", o, r)), BoolV(TRUE if r == (m == "eq") else FALSE)) for r in (True, False)]
        return None


def asks(c, W):
    for name, default, base in (("w_ask", None, 200), ("w_ask_default", "b", 100)):
        v = Ask(c, W, name)
        v.what = "ask!"
        E = v.E
        done = set()
        keys = None
        for s, res in v.go():
            c.count("ends")
            seen = v.seen(s)
            asked = [x for x in seen if x[0] == "asked"]
            if len(asked) != 1:
                v.fail("once", "it doesn't ask exactly once")
                continue
            _, skin, md, answers, dflt, ex = asked[0]
            if skin != v.K(s, v.args[0]):
                v.fail("skin", "the skin isn't the one given")
            texts = [lit(x[1]) for x in answers]
            ks = [lit(x[0]) for x in answers]
            if md[0] != 1 or lit(md[1]) != "question ?":
                v.fail("md", "the question isn't the one given")
            if texts != ["first", "second", "third"] or ks != ["a", "b", "c"]:
                v.fail("answers", "the answers aren't those given, in order")
            if default is None and dflt[0] != 0 or default is not None and (dflt[0] != 1 or lit(dflt[1]) != default):
                v.fail("default", "the default isn't the one given")
            if default is not None and ex != (False,):
                v.fail("exotic", "a default which isn't one of the answers isn't refused")
            eqs = [(x[1], x[2]) for x in seen if x[0] == "eq"]
            yes = [k for k, r in eqs if r]
            keys = [x[0] for x in answers]
            if len(yes) != 1 or yes[0] not in keys:
                v.fail("chosen", "a block may be run while no answer has the key")
                continue
            i = keys.index(yes[0])
            if any((k, False) not in eqs for k in keys[:i]):
                v.fail("first", "the block isn't the one of the first answer with the key")
            if not isinstance(res, Lin) or not E.entails_eq0(s, res - (base + 1 + i)):
                v.fail("block", "the value isn't the one of the block of the answer")
            done.add(i)
        if done != {0, 1, 2}:
            v.fail("blocks", "the block of an answer is never run")


def lit(t):
    """the literal behind conversions"""
    while isinstance(t, tuple) and t and t[0] in ("string", "*", "S", "d"):
        t = t[1]
    if isinstance(t, tuple) and t and t[0] == "lin" and t[1].is_const():
        return chr(int(t[1].c))
    if isinstance(t, tuple) and len(t) == 2 and t[0] in ("const", "str", "bytes"):
        t = t[1]
    return t


def k04(c):
    c.rule = ("The functions of the crate which show markdown are interpreted as K03 does, with the default skin. The macros are interpreted in the "
              "functions of a witness crate which expand them, calls to the methods of the crate and of templates being opaque terms: what's shown, asked and "
              "returned must be what the arguments of the macro say.")
    P = c.prog()
    functions(c, P)
    default_skin(c, P)
    W = c.prog("witness")
    inlines(c, W)
    asks(c, W)
    c.floor("ends", 8)
    c.floor("templates", 5)
    c.floor("questions", 2)
