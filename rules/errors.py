"""E04: no error of a writer, formatter or fallible crate function is swallowed.
Path-sensitive must-propagate analysis, one function at a time (callees are assumed to follow the same rule:
they return Err when something below failed), closures analysed in context."""
import re
import absint
from absint import Agg, Sym
from mir import callee
import models
from effects import EVENT_TYPES, owner

RES = models.RES
ERR_TY = re.compile(r"^(std::io::Error|std::fmt::Error|(termimad::|crate::)?errors::Error|termimad::Error|"
                    r"<.* as .*(Serializer|Deserializer|MapAccess|SeqAccess|SerializeMap|de::\w+|ser::\w+).*>::Error)$")


def err_result(P, ty):
    """is ty a Result whose error is one of the tracked ones"""
    if ty is None:
        return False
    t = P.types[ty]
    if t["k"] != "adt" or t["path"] != RES or len(t["args"]) < 2:
        return False
    return bool(ERR_TY.match(P.ts(t["args"][1])))


PLUMBING = re.compile(r"(from_residual|from_output|Try::branch|Result(::<.*>)?::\w+|Into::into|From::from|Clone::clone|"
                      r"mem::(replace|take|swap)|Option(::<.*>)?::\w+|FnOnce::call_once|FnMut::call_mut|Fn::call)$")


# deliberately defaulted: the size of the terminal has a documented fallback
NOT_WRITING = re.compile(r"(terminal::size|event::read|TryInto::try_into|str::parse)$")


def fallible(P, b, i, t):
    """does this call produce (rather than transform) a tracked error"""
    f = callee(t)
    if not f or not err_result(P, t["dst"].get("t")):
        return False
    if NOT_WRITING.search(f["path"]):
        return False
    if t["args"]:
        p0 = t["args"][0].get("cp") or t["args"][0].get("mv")
        if p0 is not None and P.ts(P.peel(p0["t"])) in ("std::string::String", "std::vec::Vec<u8>", "alloc::string::String"):
            return False  # writing in memory cannot fail
    if PLUMBING.search(f["path"]) and (f.get("rid") or f["id"]) not in P.bodies:
        return False
    return True


def e04(c):
    c.rule = ("For every function and closure containing a call that can fail with an io, formatting, serialization or "
              "crate error, each such call is forked into success and failure; on every path on which one failed, the "
              "function must return Err (never Ok, a default, or a panic). Closures are followed in context.")
    P = c.prog("nodefault" if False else "default")
    todo = []
    for b in P.fns():
        o = owner(P, b)
        if o[0] in EVENT_TYPES or b.derived:
            continue
        sites = [(i, t) for i, t in b.calls() if fallible(P, b, i, t)]
        if sites:
            todo.append((b, sites))
            c.count("fallible call sites", len(sites))
    for b, sites in todo:
        analyse(c, P, b)
        c.count("functions")
        c.sample({"fn": b.path, "fallible calls": [callee(t)["path"].split("::")[-1] for i, t in sites][:6]})
    # short writes lose data silently
    for b in P.fns():
        for i, t in b.calls():
            f = callee(t)
            if f and re.search(r"std::io::Write::(write|write_vectored)$", f["path"]) and not f.get("rid") in P.bodies:
                c.violate("shortwrite:" + b.path, "%s (%s:%d) calls Write::write, which may write only a part of the "
                          "buffer" % (b.path, b.file, b.ln(i)))
    c.floor("functions", 60)
    c.floor("fallible call sites", 130)


def analyse(c, P, b):
    swallowed = {}

    def on_call(E, fr, blk, st, path, fn, args):
        t = fr.body.term(blk)
        if t["k"] != "call" or callee(t) is not fn:
            return None
        if not fallible(P, fr.body, blk, t):
            return None
        rid = fn.get("rid") or fn.get("id")
        if rid in P.bodies and P.bodies[rid].kind == "closure":
            return None
        # iterator adapters running a closure that returns a Result: the closure is a function of its own
        atys = [E.opty(fr, a) for a in t["args"]]
        for a, ty in zip(args, atys):
            E.havoc_reach(st, a, ty)
        pty = models.payload_ty(E, t["dst"].get("t"), 0)
        e = st.copy()
        okv = E.fresh_val(pty, "ok")
        if isinstance(okv, Sym) and pty is not None and E.tyk(pty) == "ref" and args and isinstance(args[0], (absint.Ref, Sym)):
            okv = args[0]
        r = [(st, Agg(RES, 0, (okv,)))]
        if e.g("err") is None:
            e.setg("err", "%s at %s:%d" % (path, fr.body.file, fr.body.ln(blk)))
            e.setg("errkey", "%s:%s" % (fr.body.path, path.split("::")[-1]))
        r.append((e, Agg(RES, 1, (Sym(E.fresh("error"), None),))))
        return r

    def on_event(E, fr, blk, st, kind, data):
        if kind == "unwrap_fail" and st.g("err"):
            swallowed.setdefault((b.path, "panic", st.g("errkey")), "%s: the error of %s becomes a panic" %
                                 (b.path, st.g("err")))

    E = absint.Eng(P, max_states=12, max_depth=4, max_steps=60000, inline_ok=lambda x: x.kind == "closure",
                   on_call=on_call, on_event=on_event)
    st = absint.State()
    args = [E.mk(("arg", i + 1), b.locals[i + 1]["t"]) for i in range(b.argc)]
    for s, v in E.call_body(st, b, args):
        err = s.g("err")
        if not err:
            continue
        vi = E.variant_of(s, v) if err_result(P, b.locals[0]["t"]) or isinstance(v, Agg) and v.path == RES else None
        if vi == 1:
            continue
        swallowed.setdefault((b.path, "dropped", s.g("errkey")),
                             "%s (%s:%d) can return %r although %s failed" % (b.path, b.file, b.line, v, err))
    for k, text in swallowed.items():
        c.violate(":".join(k), text)


# ------------------------------------------------------------------ E03 flush
STDOUT = re.compile(r"std::io::(stdio::)?stdout$")
FLUSH = re.compile(r"std::io::Write::flush$")


def e03(c):
    c.rule = ("Every externally reachable function that opens the standard output itself and returns a Result is an entry "
              "point; on every path to a success return, the last operation on the output must be a successful flush "
              "(callees that may flush are followed in context, any other callee given the output counts as a write).")
    P = c.prog()
    opens = {b.id for b in P.bodies.values() for i, t in b.calls() if callee(t) and STDOUT.search(callee(t)["path"])}
    flushing = {b.id for b in P.bodies.values() for i, t in b.calls() if callee(t) and FLUSH.search(callee(t)["path"])}
    relevant = {}

    def follows(b):
        r = relevant.get(b.id)
        if r is None:
            rs = P.reach([b.id])
            r = relevant[b.id] = any(x in flushing or x in opens for x in rs)
        return r
    for b in sorted(P.fns(), key=lambda x: x.path):
        if b.kind != "fn" or not (b.reach or b.impl_of) or not any(x in opens for x in P.reach([b.id])):
            continue
        rt = P.types[b.locals[0]["t"]]
        if rt["k"] != "adt" or rt["path"] != RES:
            continue
        if not err_result(P, b.locals[0]["t"]):
            continue
        c.count("displaying functions")
        c.sample({"fn": b.path})
        bad = {}

        def is_out(E, ty):
            if ty is None:
                return False
            s = P.ts(P.peel(ty))
            return "Stdout" in s or P.types[P.peel(ty)]["k"] == "param"

        def on_call(E, fr, blk, st, path, fn, args):
            t = fr.body.term(blk)
            if t["k"] != "call" or callee(t) is not fn:
                return None
            rid = fn.get("rid") or fn.get("id")
            loc = P.bodies.get(rid)
            atys = [E.opty(fr, a) for a in t["args"]]
            out = any(is_out(E, ty) for ty in atys)
            if loc is not None and follows(loc):
                return None
            if not fallible(P, fr.body, blk, t):
                return None
            for a, ty in zip(args, atys):
                E.havoc_reach(st, a, ty)
            e = st.copy()
            if FLUSH.search(path):
                st.setg("dirty", None)
            elif out:
                st.setg("dirty", "%s at %s:%d" % (path, fr.body.file, fr.body.ln(blk)))
            e.setg("dirty", "failed")
            okv = E.fresh_val(models.payload_ty(E, t["dst"].get("t"), 0), "ok")
            if args and isinstance(args[0], absint.Ref) and path.endswith("QueueableCommand::queue"):
                okv = args[0]
            return [(st, Agg(RES, 0, (okv,))), (e, Agg(RES, 1, (Sym(E.fresh("error"), None),)))]

        E = absint.Eng(P, max_states=12, max_depth=5, max_steps=60000,
                       inline_ok=lambda x: x.kind == "closure" or follows(x), on_call=on_call)
        st = absint.State()
        st.setg("dirty", None)
        args = [E.mk(("arg", i + 1), b.locals[i + 1]["t"]) for i in range(b.argc)]
        for s, v in E.call_body(st, b, args):
            if E.variant_of(s, v) == 1:
                continue
            d = s.g("dirty")
            if d and d != "failed":
                bad["noflush"] = "%s (%s:%d) can return Ok without flushing after %s" % (b.path, b.file, b.line, d)
        for k, t in bad.items():
            c.violate("%s:%s" % (b.path, k), t)
    c.floor("displaying functions", 7)
