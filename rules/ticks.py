"""Ticker (T03)."""
import absint, fw
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import OPT, NONE, some, norm, vec_at
from render import Run1, rd, place
from views import method, get
from seqs import Seqs
from fields import variants
from events import G, RES, logged, pair, indices

TK = "termimad::events::tick_beam::Ticker"
TB = "termimad::events::tick_beam::TickBeam"
TH = "termimad::events::tick_beam::TickBeamHandle"
UNITV = Agg("()", None, ())


class Tick:
    def __init__(self, c, P, name, body=None, count=None):
        self.c, self.P, self.name = c, P, name
        self.b = body or method(c, P, TK, name)
        self.k = 0
        self.thread = None
        self.count = count
        self.spawns = []
        self.r = Run1(P, self.b, c, on_call=self.calls, at_head=self.head, loop_facts=self.facts, unroll=0, max_states=2000)
        self.E = E = self.r.E
        self.q = Seqs(E, P)
        self.st = self.r.init
        self.st.mem[G] = Agg("ghost", None, ((),))
        self.args = list(self.r.args)
        self.me = E.toref(self.args[0]) if self.args else None
        self.N = None
        if self.me is not None:
            E.root_val(self.st, self.me.root, P.types[self.b.locals[1]["t"]]["ty"])
            self.b0 = self.get(self.st, "beams")
            self.q.base(self.b0)
            E.write(self.st, self.me.root, self.me.path + tuple(place(P, TK, "beams")), self.b0)
            E.add_ge(self.st, Lin(1 << 60) - self.b0.len)

    def get(self, st, f):
        return get(self.P, self.E, st, self.me, TK, f)

    def fail(self, what):
        self.c.violate("ticker:%s:%s" % (self.name, what), "%s:%d Ticker::%s: %s" % (self.b.file, self.b.line, self.name, what))

    def fresh(self, *t):
        self.k += 1
        return t + (self.k,)

    def calls(self, E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        n = norm(path)
        res = lambda ok, v: Agg(RES, 0 if ok else 1, (v,))
        if G not in st.mem:
            return None
        if m in ("unbounded", "bounded") and "channel" in path:
            t = self.fresh("channel", m) + ((E.content(st, args[0]),) if args else ())
            return [(st, Agg("()", None, (Sym(("tx",) + t, None), Sym(("rx",) + t, None))))]
        if m == "clone" and args and ("channel" in (fn.get("rid") or "")):
            r = E.toref(args[0])
            return [(st, E.read(st, r.root, r.path, r.ty))]
        if path.endswith("thread::spawn"):
            self.spawn(st, args[0])
            return [(logged(st.copy(), "spawn", args[0]), Sym(self.fresh("thread"), None))]
        if m == "recv_timeout":
            out = []
            for ok in (True, False):
                out.append((logged(st.copy(), "wait", self.at(st, args[0]), E.content(st, args[1]), ok), res(ok, UNITV if ok else Sym(self.fresh("timeout"), None))))
            return out
        if m in ("recv", "try_recv") and "Receiver" in path:
            return [(logged(st.copy(), m, ok), res(ok, UNITV if ok else Sym(self.fresh("none"), None))) for ok in (True, False)]
        if m in ("send", "try_send") and "Sender" in path:
            out = []
            for ok in (True, False):
                out.append((logged(st.copy(), "send", self.at(st, args[0]), E.content(st, args[1]), ok), res(ok, UNITV if ok else Sym(self.fresh("gone"), None))))
            return out
        if path.split("::")[-2:] == ["Ticker<P>", "start_beam"] or n.endswith("Ticker::start_beam"):
            if self.name != "start_beam":
                return [(logged(st.copy(), "start_beam", args[0], args[1]), Sym(("beam id",), None))]
        if n.endswith("Ticker::stop_all_beams") and self.name == "drop":
            return [(logged(st.copy(), "stop_all_beams", args[0]), UNITV)]
        if m in ("swap_remove", "remove") and n.split("::")[0] == "Vec":
            r, v = vec_at(E, st, args[0], None)
            if r is not None and isinstance(v, VecV):
                out = self.q.m_remove(fr, blk, st, r, v, args)
                if self.name != "stop_beam":
                    return out
                # the ids are kept alive
                return out and [(logged(z, "removed", args[1], self.id_of(z, E.elem(z, v, args[1], v.ety)), self.args[1]), x) for z, x in out]
        if m == "position" and len(args) == 2:
            return self.position(fr, blk, st, args)
        return self.q.on_call(E, fr, blk, st, path, fn, args)

    def at(self, st, a):
        r = self.E.toref(a)
        if r is None:
            return self.E.content(st, a)
        return self.E.content(st, self.E.read(st, r.root, r.path, r.ty))

    # looking for a beam
    def position(self, fr, blk, st, args):
        E = self.E
        it = args[0]
        if isinstance(it, Ref):
            it = E.read(st, it.root, it.path)
        if not isinstance(it, Agg) or it.path != "m:slice" or it.fields[1] != Lin(0):
            return None
        r = it.fields[0]
        v = E.read(st, r.root, r.path)
        if not isinstance(v, VecV):
            return None
        out = []
        i = E.nat(self.fresh("found"))
        sound = E.entails_eq0(st, it.fields[2] - v.len)
        s = st.copy()
        E.add_ge(s, v.len - i - 1)
        for z, y in E.call_closure(fr, blk, s, args[1], [Ref(r.root, r.path + (("e", i, v.ety),), v.ety)]):
            for yes in (True, False):
                for w in E.assume(z.copy(), E.asf(y), yes):
                    if not E.feasible(w, []):
                        continue
                    d = self.id_of(w, E.elem(w, v, i, v.ety)) - self.args[1]
                    if yes:
                        if E.entails_eq0(w, d):
                            out.append((logged(w, "found", i), some(i)))
                        else:
                            sound = False
                    else:
                        x = w.copy()
                        if E.add_eq(x, d) and E.feasible(x, []) and not any(E.entails_eq0(x, q) for q in x.ne):
                            sound = False
        s = st.copy()
        out.append((logged(s, "absent", sound), NONE))
        if not sound:
            self.fail("doesn't look for the id among all the beams")
        return out

    def id_of(self, st, h):
        return self.E.proj(st, h, place(self.P, TH, "id")[0])

    def tx_of(self, st, h):
        return self.E.content(st, self.E.proj(st, h, place(self.P, TH, "interrupt_sender")[0]))

    # the thread of a beam
    def spawn(self, st, a):
        E = self.E
        body = self.P.bodies.get(str(getattr(a, "path", ""))[8:])
        if body is None:
            self.fail("starts another thing than a closure")
            return
        s = st.copy()
        s.mem[G] = Agg("ghost", None, (Lin(0), ()))
        self.thread = body
        rec = {"rx": set(), "tx": set()}
        self.rec = rec
        for z, r in E.call_body(s, body, [a]):
            self.end(z)
        self.thread = None
        self.spawns.append((a, rec))

    def step(self, st):
        """the tick since the start of the loop's body: None when it's right"""
        E = self.E
        k, tr = st.mem[G].fields
        if self.N is not None and not E.entails(st, self.N - k - 1):
            return "sends more ticks than asked"
        if [x[0] for x in tr] != ["wait", "send"] or tr[0][3]:
            return "does %s instead of waiting then sending" % (", ".join("%s" % x[0] for x in tr) or "nothing")
        return self.waits(st, tr[0]) or self.sends(st, tr[1])

    def waits(self, st, w):
        self.rec["rx"].add(w[1])
        if w[2] != self.E.content(st, self.period):
            return "waits another time than the period"

    def sends(self, st, w):
        self.rec["tx"].add(w[1])
        if w[2] != self.E.content(st, self.payload):
            return "sends another payload"

    def head(self, E, fr, head, st):
        if self.thread is None or len(st.mem[G].fields) != 2:
            return None
        k, tr = st.mem[G].fields
        if tr:
            self.c.count("ticks")
            w = self.step(st)
            if w:
                self.fail(w)
                return []
            k = k + 1
        st.mem[G] = Agg("ghost", None, (k, ()))
        return None

    def end(self, st):
        E = self.E
        k, tr = st.mem[G].fields
        self.c.count("ends of the thread")
        names = [x[0] for x in tr]
        if names == ["wait", "send"] and not tr[0][3] and not tr[1][3]:
            return      # nobody listens any more
        if names == ["wait"] and tr[0][3]:
            w = self.waits(st, tr[0])
            if w:
                self.fail(w)
        elif names == ["wait", "send"] and not tr[0][3] and self.N is not None and E.entails_eq0(st, self.N - k - 1):
            w = self.waits(st, tr[0]) or self.sends(st, tr[1])
            if w:
                self.fail(w)
        elif names or self.N is None or not E.entails_eq0(st, self.N - k):
            self.fail("ends without interruption before all the ticks are sent")

    def facts(self, E, st):
        g = st.mem.get(G)
        out = {}
        if self.thread is None or g is None or len(g.fields) != 2 or self.N is None:
            return out
        k = g.fields[0]
        out["max"] = ("ge", self.N - k)
        for root, v in st.mem.items():
            if root[0] != "L":
                continue
            if isinstance(v, Agg) and v.path == OPT and v.vi == 1:
                v = v.fields[0]
            if isinstance(v, Lin):
                out[root, "left"] = v + k - self.N
                out[root, "done"] = v - k
        return out


def start(c, P, some_count):
    v = Tick(c, P, "start_beam")
    E = v.E
    st = v.st
    tb = v.args[1]
    fs = [f["name"] for f in P.adts[TB]["variants"][0]["fields"]]
    vals = {f: E.proj(st, tb, place(P, TB, f)[0]) for f in fs}
    v.period, v.payload = vals["period"], vals["payload"]
    if some_count:
        v.N = E.nat(("count asked",))
        vals["remaining_count"] = some(v.N)
    else:
        vals["remaining_count"] = NONE
    v.r.args[1] = Agg(TB, None, tuple(vals[f] for f in fs))
    id0 = v.get(st, "next_id")
    E.add_ge(st, Lin(1 << 60) - id0)
    tx0 = E.content(st, v.get(st, "tick_sender"))
    for s, r in v.r.go():
        c.count("beams started")
        if not isinstance(r, Lin) or not E.entails_eq0(s, r - id0):
            v.fail("doesn't return the next id")
        if not E.entails_eq0(s, v.get(s, "next_id") - id0 - 1):
            v.fail("doesn't change the next id")
        if E.content(s, v.get(s, "tick_sender")) != tx0:
            v.fail("changes the channel of the ticks")
        if len(v.spawns) != 1:
            v.fail("doesn't start exactly a thread")
            continue
        rec = v.spawns[0][1]
        if rec["tx"] - {tx0}:
            v.fail("ticks are sent on another channel")
        ps = v.q.flat(s, v.get(s, "beams"))
        ps = ps[0][1] if ps and len(ps) == 1 else ()
        if len(ps) != 2 or ps[0][0] != ("pre", v.b0.term) or not E.entails_eq0(s, ps[0][1] - v.b0.len) or ps[1][0][0] != "it":
            v.fail("doesn't add just the beam")
            continue
        h = v.q.vals[ps[1][0][1]]
        if not E.entails_eq0(s, v.id_of(s, h) - id0):
            v.fail("the beam isn't kept with its id")
        for rx in rec["rx"]:
            if rx[0] != "rx" or not pair(rx, v.tx_of(s, h)) or ("bounded" in rx and rx[-1] == Lin(0)):
                v.fail("the beam can't be interrupted")
            c.count("interruption channels")
        # nothing else is done with the channels
        if [x[0] for x in s.mem[G].fields[0]] != ["spawn"]:
            v.fail("does something else")
    c.floor("beams started", 1)


def stop(c, P):
    v = Tick(c, P, "stop_beam")
    E = v.E
    n = 0
    for s, r in v.r.go():
        tr = s.mem[G].fields[0]
        sends = [x for x in tr if x[0] == "send"]
        v2 = v.get(s, "beams")
        ps = v.q.flat(s, v2)
        ps = [p for p in (ps[0][1] if ps and len(ps) == 1 else ()) if not E.entails_eq0(s, p[1])]
        c.count("stops")
        if not sends:
            if not E.entails_eq0(s, v2.len - v.b0.len) or len(ps) > 1:
                v.fail("removes a beam without stopping it")
            elif ("absent", True) not in tr and known_id(v, s):
                v.fail("doesn't stop the beam")
            continue
        n += 1
        i = gone(v, s, ps)
        if len(sends) != 1 or i is None:
            v.fail("doesn't remove just a beam when it stops one")
            continue
        h = E.elem(s, v.b0, i, v.b0.ety)
        js = [i] + [x[1] for x in tr if x[0] == "found" and E.entails_eq0(s, x[1] - i)] + indices(E, s, v.b0.term, i)
        ids = [v.id_of(s, E.elem(s, v.b0, j, v.b0.ety)) for j in js] + [x[2] for x in tr if x[0] == "removed" and E.entails_eq0(s, x[1] - i)]
        if not any(E.entails_eq0(s, x - v.args[1]) for x in ids):
            v.fail("removes another beam than the one of the id")
        if not v.q.eqt(s, sends[0][1], v.tx_of(s, h)):
            v.fail("stops another beam than the one removed")
    if not n:
        v.fail("never stops a beam")


def known_id(v, st):
    """is some beam known to have the id?"""
    E = v.E
    for l in st.eq:
        for a, _ in l.t:
            t = E.A.terms[a]
            if isinstance(t, tuple) and t[-1] == "id" and E.entails_eq0(st, Lin(0, ((a, 1),)) - v.args[1]):
                return True
    return False


def gone(v, st, ps):
    """the index of the only beam missing"""
    E = v.E
    b = v.b0.term
    n = v.b0.len
    if all(p[0][0] in ("pre", "suf") and p[0][1] == b for p in ps):
        pre = next((p[1] for p in ps if p[0][0] == "pre"), Lin(0))
        suf = next((p[1] for p in ps if p[0][0] == "suf"), Lin(0))
        if len(ps) <= 2 and E.entails_eq0(st, n - pre - suf - 1):
            return pre
    return None


def stop_all(c, P):
    v = Tick(c, P, "stop_all_beams")
    E = v.E
    orders = set()

    def head(E, fr, head, st):
        g = st.mem[G]
        k, tr = g.fields if len(g.fields) == 2 else (Lin(0), g.fields[0])
        if tr:
            c.count("beams stopped")
            # from the first one or from the last one
            ds = []
            for d in ("first", "last"):
                h = E.elem(st, v.b0, k if d == "first" else v.b0.len - k - 1, v.b0.ety)
                if len(tr) == 1 and tr[0][0] == "send" and v.q.eqt(st, tr[0][1], v.tx_of(st, h)):
                    ds.append(d)
            if len(ds) == 1:
                orders.add(ds[0])
            if not ds or len(orders) > 1:
                v.fail("doesn't stop each of the beams")
                return []
            k = k + 1
        st.mem[G] = Agg("ghost", None, (k, ()))
        return None

    def facts(E, st):
        g = st.mem[G]
        out = {}
        if len(g.fields) == 2:
            k = g.fields[0]
            for root, w in st.mem.items():
                if root[0] == "L" and isinstance(w, Agg) and w.path in ("m:own", "m:slice") and isinstance(w.fields[1], Lin):
                    out[root, "i"] = w.fields[1] - k
                    out[root, "n"] = ("ge", w.fields[2] - k)
            w = v.get(st, "beams")
            if isinstance(w, VecV):
                out["left"] = w.len + k - v.b0.len
        return out
    E.at_head, E.loop_facts = head, facts
    for s, r in v.r.go():
        c.count("stops")
        g = s.mem[G]
        k, tr = g.fields if len(g.fields) == 2 else (Lin(0), g.fields[0])
        if tr or not E.entails_eq0(s, v.b0.len - k):
            v.fail("doesn't stop all the beams")
        w = v.get(s, "beams")
        if not isinstance(w, VecV) or not E.entails_eq0(s, w.len):
            v.fail("keeps stopped beams")
    c.floor("beams stopped", 1)


def ticks(c, P):
    for name, cnt in (("tick_once", Lin(1)), ("tick_several_times", "count"), ("tick_infinitely", None)):
        v = Tick(c, P, name)
        E = v.E
        pay, per = v.args[1], v.args[2]
        for s, r in v.r.go():
            c.count("requests")
            tr = s.mem[G].fields[0]
            if [x[0] for x in tr] != ["start_beam"] or E.termof(r) != ("beam id",):
                v.fail("doesn't start exactly a beam")
                continue
            tb = tr[0][2]
            f = lambda x: E.proj(s, tb, place(P, TB, x)[0])
            if E.content(s, f("period")) != E.content(s, per) or E.content(s, f("payload")) != E.content(s, pay):
                v.fail("another period or payload")
            rc = f("remaining_count")
            vs = [n for _, n, _ in variants(v, s, rc, OPT)]
            if cnt is None:
                if vs != ["None"]:
                    v.fail("the number of ticks is limited")
                continue
            want = v.args[3] if cnt == "count" else cnt
            got = E.proj(s, rc, ("f", 0, 1, v.b.locals[4]["t"] if cnt == "count" else None, "0")) if vs == ["Some"] else None
            if not isinstance(got, Lin) or not E.entails_eq0(s, got - want):
                v.fail("another number of ticks than asked")
    c.floor("requests", 3)


def made(c, P):
    v = Tick(c, P, "new")
    E = v.E
    for s, r in v.r.go():
        c.count("tickers made")
        f = lambda x: E.proj(s, r, place(P, TK, x)[0])
        if not pair(E.content(s, f("tick_sender")), E.content(s, f("tick_receiver"))):
            v.fail("the receiver isn't the one of the ticks")
        w = f("beams")
        if not isinstance(w, VecV) or not E.entails_eq0(s, w.len):
            v.fail("starts with beams")
    c.floor("tickers made", 1)
    b = c.need(next((b for b in P.bodies.values() if b.name == "drop" and "Ticker<P> as" in b.path), None), "Ticker::drop")
    v = Tick(c, P, "drop", b)
    n = 0
    for s, r in v.r.go():
        n += 1
        tr = s.mem[G].fields[0]
        if [x[0] for x in tr] != ["stop_all_beams"] or v.E.toref(tr[0][1]) != v.me:
            v.fail("doesn't stop all the beams")
    if not n:
        v.fail("never ends")


def t03(c):
    P = c.prog()
    for x in (True, False):
        start(c, P, x)
    stop(c, P)
    stop_all(c, P)
    ticks(c, P)
    made(c, P)
    c.floor("ticks", 2)
    c.floor("ends of the thread", 3)
    c.floor("interruption channels", 2)
    c.floor("stops", 3)
