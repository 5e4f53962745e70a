"""In-memory model of a MIR dump: bodies, CFG, resolved call graph, types."""
import json
from collections import defaultdict, deque


class Body:
    def __init__(self, d):
        self.id = d["id"]
        self.path = d["path"]
        self.name = d.get("name")
        self.kind = d["kind"]
        self.file = d["file"]
        self.line = d["line"]
        self.vis = d["vis"]
        self.reach = d["reach"]
        self.parent = d.get("parent")
        self.impl_of = d.get("impl_of")
        self.impl_self = d.get("impl_self")
        self.derived = bool(d.get("derived"))
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.upvars = d["upvars"]
        self.blocks = d["blocks"]
        self._succ = None
        self._pred = None
        self._dom = None
        self._rpo = None

    def __repr__(self):
        return "<%s>" % self.path

    # ---- CFG
    def term(self, b):
        return self.blocks[b]["t"]

    def succ(self, b):
        if self._succ is None:
            self._succ = [self._succ_of(i) for i in range(len(self.blocks))]
        return self._succ[b]

    def _succ_of(self, b):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k == "switch":
            r = [x[1] for x in t["arms"]] + [t["else"]]
            return list(dict.fromkeys(r))
        to = t.get("to")
        return [] if to is None else [to]

    def pred(self, b):
        if self._pred is None:
            self._pred = [[] for _ in self.blocks]
            for i in self.rpo():
                for s in self.succ(i):
                    self._pred[s].append(i)
        return self._pred[b]

    def rpo(self):
        if self._rpo is None:
            seen, out = set(), []
            stack = [(0, iter(self.succ(0)))]
            seen.add(0)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ(s))))
                        break
                else:
                    stack.pop()
                    out.append(n)
            self._rpo = out[::-1]
        return self._rpo

    def doms(self):
        """immediate-dominator based dominator sets (small CFGs)."""
        if self._dom is None:
            r = self.rpo()
            full = set(r)
            dom = {b: set(full) for b in r}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in r[1:]:
                    ps = [p for p in self.pred(b) if p in dom]
                    n = set.intersection(*[dom[p] for p in ps]) if ps else set()
                    n = n | {b}
                    if n != dom[b]:
                        dom[b] = n
                        ch = True
            self._dom = dom
        return self._dom

    def reachable_from(self, b):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.succ(x))
        return seen

    def live_in(self):
        """locals live at the entry of each block (drops are not uses)"""
        if getattr(self, "_live", None) is not None:
            return self._live
        n = len(self.blocks)
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]

        def pl_use(p, u, d):
            if p is None:
                return
            if p["l"] not in d:
                u.add(p["l"])
            for e in p["p"]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            pl_use(op_place(o), u, d)

        def pl_def(p, u, d):
            if p["p"]:
                pl_use(p, u, d)
            else:
                d.add(p["l"])
        for i in self.rpo():
            u, d = use[i], dfn[i]
            bl = self.blocks[i]
            for s in bl["s"]:
                if s[0] == "=":
                    r = s[2]
                    for o in rv_operands(r):
                        op_use(o, u, d)
                    if r[0] == "ref":
                        pl_use(r[2], u, d)
                    elif r[0] in ("rawptr", "discr"):
                        pl_use(r[1], u, d)
                    pl_def(s[1], u, d)
                elif s[0] == "dead":
                    d.add(s[1])
            t = bl["t"]
            if t["k"] == "switch":
                op_use(t["d"], u, d)
            elif t["k"] == "assert":
                op_use(t["c"], u, d)
                for o in t["ops"]:
                    op_use(o, u, d)
            elif t["k"] == "call":
                op_use(t["f"], u, d)
                for o in t["args"]:
                    op_use(o, u, d)
                pl_def(t["dst"], u, d)
            elif t["k"] == "return":
                u.add(0) if 0 not in d else None
        live = [set(u) for u in use]
        ch = True
        order = self.rpo()[::-1]
        while ch:
            ch = False
            for i in order:
                o = set()
                for s in self.succ(i):
                    o |= live[s]
                x = use[i] | (o - dfn[i])
                if x != live[i]:
                    live[i] = x
                    ch = True
        self._live = live
        return live

    # ---- iteration
    def calls(self):
        for i in self.rpo():
            t = self.blocks[i]["t"]
            if t["k"] == "call":
                yield i, t

    def stmts(self):
        for i in self.rpo():
            for s in self.blocks[i]["s"]:
                if s[0] == "=":
                    yield i, s

    def ln(self, b):
        return self.blocks[b].get("ln", self.line)

    def operands(self):
        """every operand of the body, with its block"""
        for i in self.rpo():
            bl = self.blocks[i]
            for s in bl["s"]:
                if s[0] == "=":
                    for o in rv_operands(s[2]):
                        yield i, o
            t = bl["t"]
            if t["k"] == "call":
                yield i, t["f"]
                for a in t["args"]:
                    yield i, a
            elif t["k"] == "switch":
                yield i, t["d"]


def rv_operands(r):
    k = r[0]
    if k in ("use", "repeat"):
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return r[2]
    return []


def op_place(o):
    if o is None:
        return None
    return o.get("cp") or o.get("mv")


def op_const(o):
    k = o.get("k")
    return k.get("val") if k else None


def callee(t):
    """fn record of a call terminator (or None when indirect)"""
    k = t["f"].get("k")
    if k and "fn" in k:
        return k["fn"]
    return None


class Prog:
    def __init__(self, d):
        self.crate = d["crate"]
        self.types = d["types"]
        self.adts = {}
        for a in d["adts"]:
            self.adts[a["path"] if "path" in a else a["id"]] = a
        self.impls = d["impls"]
        self.bodies = {b["id"]: Body(b) for b in d["bodies"]}
        self.closures_of = defaultdict(list)
        for b in self.bodies.values():
            if b.kind == "closure" and b.parent:
                self.closures_of[b.parent].append(b)
        self._disp = None
        self._edges = None

    # ---- types
    def ty(self, i):
        return self.types[i] if i is not None else None

    def ts(self, i):
        return self.types[i]["s"]

    def adt_of(self, i):
        """adt path of the type, through references and Box"""
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            t = self.types[t["ty"]]
        return t.get("path") if t["k"] == "adt" else None

    def peel(self, i):
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            i = t["ty"]
            t = self.types[i]
        return i

    def self_adt(self, b):
        return self.adt_of(b.impl_self) if b.impl_self is not None else None

    # ---- lookup
    def fns(self):
        return [b for b in self.bodies.values() if b.kind in ("fn", "closure")]

    def root_fn(self, b):
        while b.kind == "closure" and b.parent in self.bodies:
            b = self.bodies[b.parent]
        return b

    def method(self, adt, name, trait=None):
        """inherent (or trait) method by the name of the self type's last path segment"""
        r = []
        for b in self.bodies.values():
            if b.kind == "fn" and b.name == name and b.impl_self is not None:
                a = self.self_adt(b)
                if a and (a == adt or a.split("::")[-1] == adt):
                    if trait is None and b.impl_of:
                        continue
                    if trait is not None and not (b.impl_of or "").endswith(trait):
                        continue
                    r.append(b)
        return r[0] if r else None

    def free(self, name):
        for b in self.bodies.values():
            if b.kind == "fn" and b.name == name and b.impl_self is None:
                return b
        return None

    def methods_of(self, adt):
        return [b for b in self.bodies.values()
                if b.kind == "fn" and b.impl_self is not None and
                (self.self_adt(b) or "").split("::")[-1] == adt]

    # ---- call graph
    def dispatch(self):
        """(trait id, method name) -> local impl bodies"""
        if self._disp is None:
            self._disp = defaultdict(list)
            for b in self.bodies.values():
                if b.kind == "fn" and b.impl_of:
                    self._disp[(b.impl_of, b.name)].append(b)
        return self._disp

    def targets(self, fn):
        """local bodies a resolved callee record may denote"""
        rid = fn.get("rid")
        if rid in self.bodies and fn.get("rkind") != "virtual":
            b = self.bodies[rid]
            # a trait's provided/required method resolved to the trait itself: also its impls
            if fn.get("trait") and not b.impl_of:
                return [b] + self.dispatch().get((fn["trait"], fn.get("method")), [])
            return [b]
        if fn.get("trait"):
            if rid is None or fn.get("rkind") == "virtual":
                return list(self.dispatch().get((fn["trait"], fn.get("method")), []))
        if fn.get("id") in self.bodies:
            return [self.bodies[fn["id"]]]
        return []

    def edges(self):
        """body id -> list of (target id, block, how)"""
        if self._edges is not None:
            return self._edges
        E = defaultdict(list)
        for b in self.bodies.values():
            for i, t in b.calls():
                fn = callee(t)
                if fn:
                    for x in self.targets(fn):
                        E[b.id].append((x.id, i, "call"))
            for i, s in b.stmts():
                r = s[2]
                if r[0] == "agg" and r[1]["k"] == "closure":
                    E[b.id].append((r[1]["path"], i, "closure"))
            for i, o in b.operands():
                k = o.get("k")
                if not k:
                    continue
                if "closure" in k:
                    E[b.id].append((k["closure"], i, "closure"))
                if "promoted" in k:
                    E[b.id].append((k["promoted"], i, "promoted"))
                v = k.get("val") or {}
                if "static" in v:
                    E[b.id].append((v["static"], i, "static"))
                if "fnptr" in v:
                    E[b.id].append((v["fnptr"], i, "fnptr"))
                if "fn" in k:
                    t = b.blocks[i]["t"]
                    if not (t["k"] == "call" and t["f"] is o):
                        for x in self.targets(k["fn"]):
                            E[b.id].append((x.id, i, "fnval"))
        for k in list(E):
            E[k] = [e for e in E[k] if e[0] in self.bodies]
        self._edges = E
        return E

    def reach(self, roots, stop=None):
        """ids reachable from roots; returns {id: (pred id, block)}"""
        E = self.edges()
        seen = {}
        q = deque()
        for r in roots:
            if r not in seen:
                seen[r] = None
                q.append(r)
        while q:
            x = q.popleft()
            for (y, blk, how) in E.get(x, ()):
                if y in seen or (stop and stop(self.bodies[y])):
                    continue
                seen[y] = (x, blk)
                q.append(y)
        return seen

    def path_to(self, seen, x):
        out = [x]
        while seen.get(out[-1]):
            out.append(seen[out[-1]][0])
        return [self.bodies[i].path for i in reversed(out)]


def load(d):
    return Prog(d)
