"""Exact effects of a method on the fields of what it is given: the abstract interpreter runs the MIR of the method on
symbolic arguments and the post-state of every leaf field is compared with a term."""
import absint
from absint import Agg, Sym, Ref, VecV, BoolV, State
from lin import Lin

LEAF_STOP = ("core::option::Option",)


def leaves(P, ty, prefix=(), name="", stop=()):
    """[(dotted name, place path, type)] of the scalar fields of a type"""
    t = P.types[ty]
    if t["k"] == "adt":
        a = P.adts.get(t["path"])
        if a and a["kind"] == "struct" and t["path"] not in stop and a["variants"][0]["fields"] and \
                t["path"].split("::")[0] in ("termimad", "crossterm", "crokey", "minimad"):
            out = []
            for i, f in enumerate(a["variants"][0]["fields"]):
                out += leaves(P, f["ty"], prefix + (("f", i, None, f["ty"], f["name"]),),
                              name + ("." if name else "") + f["name"], stop)
            return out
    if t["k"] == "array":
        n = t.get("len")
        if n is None:
            n = next((x.get("len") for x in P.types if x["k"] == "array" and x["ty"] == t["ty"] and x.get("len")), None)
        if n:
            out = []
            for i in range(n):
                out += leaves(P, t["ty"], prefix + (("e", Lin(i), t["ty"]),), "%s[%d]" % (name, i), stop)
            return out
    return [(name, prefix, ty)]


class Run:
    """one method analysed on symbolic arguments"""

    def __init__(self, P, body, args=None, **opts):
        self.P = P
        self.b = body
        opts.setdefault("max_states", 64)
        opts.setdefault("max_depth", 8)
        opts.setdefault("unroll", 12)
        opts.setdefault("unroll_paths", 20)
        self.E = absint.Eng(P, **opts)
        self.args = args or [self.E.mk(("arg", i + 1), body.locals[i + 1]["t"]) for i in range(body.argc)]
        self.init = State()
        self.out = self.E.call_body(self.init.copy(), body, list(self.args))

    def pre(self, i, path, ty=None):
        r = self.E.toref(self.args[i])
        if r is None:
            s = State()
            s.mem[("pre", i)] = self.args[i]
            return self.E.read(s, ("pre", i), path, ty)
        return self.E.read(State(), r.root, path, ty if not path else None)

    def post(self, st, i, path, ty=None):
        r = self.E.toref(self.args[i])
        return self.E.read(st, r.root, path, ty if not path else None)

    def at(self, st, v, path, ty=None):
        """component of a returned value"""
        s = st
        for e in path:
            v = self.E.peel(s, v)
            v = self.E.proj(s, v, e)
        return self.E.coerce(v, ty)
