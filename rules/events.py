"""Event source, ticker, timed events, questions (T..)."""
import absint, fw
from absint import Agg, Sym, Ref, VecV, BoolV, State, Lin, TRUE, FALSE
from models import OPT, NONE, some, norm
from render import Run1, rd, place
from views import method, get, panics, truthful, Sub
from seqs import Seqs
from fields import variants, bools, modset

ES = "termimad::events::event_source::EventSource"
ESO = "termimad::events::event_source::EventSourceOptions"
SEQ = "termimad::events::escape_sequence::EscapeSequence"
CLICK = "termimad::events::event_source::TimedClick"
TE = "termimad::events::timed_event::TimedEvent"
EV = "crossterm::event::Event"
KE = "crossterm::event::KeyEvent"
ME = "crossterm::event::MouseEvent"
MEK = "crossterm::event::MouseEventKind"
MB = "crossterm::event::MouseButton"
KC = "crossterm::event::KeyCode"
G = ("GH", "events")
RES = "core::result::Result"


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


def subtracts(x, a, b):
    """x is the time from b to a"""
    return isinstance(x, tuple) and (len(x) == 3 and mentions(x[1], a) and mentions(x[2], b) and not mentions(x[1], b) and
                                     ("sub" in str(x[0]).lower() or "since" in str(x[0])) or any(subtracts(y, a, b) for y in x))


def logged(st, *e):
    g = st.mem[G].fields
    st.mem[G] = Agg("ghost", None, g[:-1] + (g[-1] + (e,),))
    return st


class Source:
    """the thread of an event source: each event read is a step, judged from the state of the loop when it's read"""

    def __init__(self, c, P, name="with_options"):
        self.c, self.P = c, P
        self.b = method(c, P, ES, name)
        self.k = 0
        self.loop_body = None
        self.threads = {}
        self.judged = {}
        self.frame = None
        self.over = False
        self.channels = {}
        self.r = Run1(P, self.b, c, on_call=self.calls, at_head=self.head, unroll=0, max_states=3000, loop_facts=self.facts)
        self.E = E = self.r.E
        self.q = Seqs(E, P)
        self.st = self.r.init
        self.st.mem[G] = Agg("ghost", None, ((),))
        T = P.types
        self.ty = lambda path: next(i for i, t in enumerate(T) if t.get("path") == path)
        self.kty = self.ty(KE)
        self.opt = self.r.args[0]

    def fail(self, what, key=None):
        self.c.violate("source:%s" % (key or what), "%s:%d EventSource: %s" % (self.b.file, self.b.line, what))

    def option(self, st, f):
        """the value of an option"""
        return self.E.proj(st, self.opt, place(self.P, ESO, f)[0])

    def fresh(self, *t):
        self.k += 1
        return t + (self.k,)

    def local(self, st, fr, path):
        """the variable of the thread of type Option<path>"""
        for i, l in enumerate(fr.body.locals):
            t = self.P.types[l["t"]]
            if l.get("n") and t.get("path") == OPT and self.P.types[t["args"][0]].get("path") == path:
                return self.E.root_val(st, ("L", fr.id, i), l["t"]) if ("L", fr.id, i) not in st.mem else st.mem[("L", fr.id, i)]
        self.fail("no state kept for %s" % path, "anchor:%s" % path)

    # what the thread calls
    def calls(self, E, fr, blk, st, path, fn, args):
        P = self.P
        m = path.split("::")[-1]
        if G not in st.mem:
            return None
        res = lambda ok, v: Agg(RES, 0 if ok else 1, (v,))
        opaque = lambda *t: Sym(self.fresh(*t), None)
        if "terminal::" in path and m in ("enable_raw_mode", "disable_raw_mode") or m in ("enable_combining", "disable_combining"):
            out = []
            for ok in (True, False):
                v = BoolV(("s", self.fresh("combining"))) if m == "enable_combining" else Agg("()", None, ())
                out.append((logged(st.copy(), m, ok, v), res(ok, v if ok else opaque("error"))))
            return out
        if m in ("unbounded", "bounded") and "channel" in path:
            t = self.fresh("channel", m)
            return [(st, Agg("()", None, (Sym(("tx",) + t, None), Sym(("rx",) + t, None))))]
        if m == "clone" and args and self.kind(args[0], fn) in ("Arc", "Receiver", "Sender"):
            r = E.toref(args[0])
            return [(st, E.read(st, r.root, r.path, r.ty))]
        if path.endswith("thread::spawn"):
            return self.spawn(fr, blk, st, args)
        if "event::read" in path and m == "read":
            f = self.frame or fr
            seq, last = self.local(st, f, SEQ), self.local(st, f, CLICK)
            e = E.mk(self.fresh("event"), self.ty(EV))
            self.c.count("events read")
            return [(logged(st.copy(), "read", e, seq, last), res(True, e)), (logged(st.copy(), "read", None, seq, last), res(False, opaque("io error")))]
        if m == "set_mandate_modifier_for_multiple_keys":
            return [(logged(st, "mandate", args[1]), Agg("()", None, ()))]
        if m == "fetch_add":
            return [(logged(st, "count", args[1], self.at(st, args[0])), E.nat(self.fresh("counted")))]
        if m in ("send", "try_send") and "Sender" in path:
            out = []
            for ok in (True, False):
                out.append((logged(st.copy(), m, self.at(st, args[0]), args[1], ok), res(ok, Agg("()", None, ()) if ok else opaque("send error"))))
            return out
        if m in ("recv", "try_recv", "recv_timeout") and "Receiver" in path:
            out = []
            for ok in ("true", "false", "err"):
                v = res(ok != "err", BoolV(TRUE if ok == "true" else FALSE) if ok != "err" else opaque("recv error"))
                out.append((logged(st.copy(), m, self.at(st, args[0]), ok), v))
            return out
        if m == "transform" and "Combiner" in path:
            t = self.fresh("combination")
            v = E.mk(t, fn.get("ret")) if fn.get("ret") is not None else Sym(t, None)
            return [(logged(st, "transform", args[1], v), v)]
        if m == "now" and "Instant" in path:
            return [(st, Sym(self.fresh("now"), None))]
        if m == "from_millis":
            return [(st, Sym(("ms", E.content(st, args[0])), None))]
        return self.q.on_call(E, fr, blk, st, path, fn, args) if self.loop_body is not None else None

    def kind(self, a, fn):
        r = self.E.toref(a)
        t = self.P.types[r.ty] if r is not None and r.ty is not None else {}
        rid = fn.get("rid") or ""
        return (t.get("path") or "").split("::")[-1] or ("Arc" if "::arc::" in rid else "Receiver" if "channel" in rid else "")

    def at(self, st, a):
        """what a reference refers to, as a term"""
        r = self.E.toref(a)
        if r is None:
            return self.E.termof(a)
        v = self.E.read(st, r.root, r.path, r.ty)
        return self.at(st, v) if isinstance(v, Ref) and v != r else self.E.termof(v)

    def spawn(self, fr, blk, st, args):
        E = self.E
        a = args[0]
        body = self.P.bodies.get(str(getattr(a, "path", ""))[8:])
        self.c.need(body, "the closure of the event source's thread")
        if body.id in st.mem[G].fields:
            self.fail("starts two threads", "threads")
        s = st.copy()
        s.mem[G] = Agg("ghost", None, ("main", Lin(0), None, None, ()))
        self.loop_body = body
        self.channels = {}
        for z, r in E.call_body(s, body, [a]):
            self.judge(z, True)
        self.loop_body = None
        self.threads[E.termof(a)] = self.channels
        self.c.count("threads analysed")
        return [(logged(st.copy(), "spawn", args[0]), Sym(self.fresh("thread"), None))]

    # the steps
    def head(self, E, fr, head, st):
        g = st.mem.get(G)
        if self.loop_body is None or g is None or len(g.fields) != 5:
            return None
        phase, i, e, keys, tr = g.fields
        if self.reads(fr.body, head):
            self.frame = fr
            self.judge(st, False)
            st.mem[G] = Agg("ghost", None, ("main", Lin(0), None, None, ()))
            return None
        if "/events/" not in fr.body.file:
            return None
        # the loop on the keys of an interrupted sequence
        if phase == "main":
            return None if self.flush(st) else []
        if not self.one(st, i, e, keys, tr, False):
            return []
        st.mem[G] = Agg("ghost", None, ("flush", i + 1, e, keys, ()))
        return None

    def reads(self, b, head):
        """the loop of this head is the one reading the events"""
        k = (b.id, head)
        if k not in self.judged:
            loop = self.E.loops(b).get(head, ())
            self.judged[k] = any(self.reader(b.blocks[x], 2) for x in loop)
        return self.judged[k]

    def reader(self, blk, depth):
        t = blk["t"]
        if t["k"] != "call":
            return False
        s = str(t.get("f"))
        if "crossterm::event::read" in s:
            return True
        return depth > 0 and any(b.id in s and any(self.reader(x, depth - 1) for x in b.blocks)
                                 for b in self.P.bodies.values() if "/events/" in b.file and b.kind == "fn")

    # a step
    def judge(self, st, ended):
        E = self.E
        phase, i, e, keys, tr = st.mem[G].fields
        self.over = ended
        if phase == "flush":
            self.flushed(st, i, e, keys, tr, ended)
            return
        if not tr:
            if ended:
                self.fail("the thread ends by itself")
            return
        self.c.count("steps")
        if tr[0][0] != "read":
            self.fail("does something before an event is read")
            return
        _, e, seq, last = tr[0]
        rest = tr[1:]
        if e is None:
            if rest or ended or not self.unchanged(st, seq, last):
                self.fail("a failed read has an effect", "failed-read")
            return
        for s, kind, key, cl in self.classes(st, e, seq):
            self.c.count("classes")
            if cl == "start":
                if rest or ended or not self.seq_is(s, [key]) or not self.last_is(s, last):
                    self.fail("the key starting a sequence isn't just kept as its start", "start")
            elif cl == "end":
                ok = len(rest) == 1 and rest[0][0] in ("try_send",) and not ended and self.seq_is(s, None) and self.last_is(s, last)
                if not ok or not self.seq_val(s, rest[0][2], seq, key):
                    self.fail("the key ending a sequence doesn't send just the whole sequence", "end")
                else:
                    self.channels.setdefault("seqs", set()).add(rest[0][1])
            elif cl == "in":
                if rest or ended or not self.seq_is(s, seq, key) or not self.last_is(s, last):
                    self.fail("a key in a sequence isn't just added to it", "in")
            elif cl == "break":
                self.fail("an event interrupting a sequence doesn't send the keys of the sequence", "break")
            else:
                self.emit(s, e, kind, key, seq, last, rest, ended)

    def classes(self, st, e, seq):
        """[(state, kind of the event, key, role of the event)]"""
        E, P = self.E, self.P
        out = []
        for s, n, k in variants(self, st, e, EV):
            key = None
            if n in ("Key", "Mouse"):
                ty = P.adts[EV]["variants"][k]["fields"][0]["ty"]
                key = E.proj(s, e, ("f", 0, k, ty, "0"))
            for s2, m, _ in variants(self, s, seq, OPT):
                if n != "Key":
                    out.append((s2, n, key, "plain" if m == "None" else "break"))
                    continue
                for s3, cl in self.key_classes(s2, key):
                    if m == "None":
                        cl = "start" if cl == "_" else "plain"
                    else:
                        cl = {"\\": "end", "in": "in"}.get(cl, "in" if cl == "_in" else "break")
                    out.append((s3, n, key, cl))
        return out

    def key_classes(self, st, key):
        """[(state, "_" (starts a sequence) | "\\" (ends it) | "in" (may be in it) | "out")]"""
        E, P = self.E, self.P
        code, m = (E.proj(st, key, place(P, KE, f)[0]) for f in ("code", "modifiers"))
        ms = modset(self, st, m)
        out = []
        for s, n, k in variants(self, st, code, KC):
            alts = [(s, None)]
            if n == "Char":
                ch = E.proj(s, code, ("f", 0, k, P.adts[KC]["variants"][k]["fields"][0]["ty"], "0"))
                ch = E.num(s, ch) if not isinstance(ch, Lin) else ch
                alts = []
                for x in ("_", "\\"):
                    z = s.copy()
                    if E.add_eq(z, ch - ord(x)) and E.feasible(z, []) and not any(E.entails_eq0(z, w) for w in z.ne):
                        alts.append((z, x))
                z = s.copy()
                if E.feasible(z, []) and not any(E.entails_eq0(s, ch - ord(x)) for x in ("_", "\\")):
                    alts.append((z, None))
            for z, x in alts:
                if 4 in ms and x:
                    out.append((z, x))
                if any(not b & 6 for b in ms):
                    out.append((z, "in"))
                if any(b & 6 and (b != 4 or not x) for b in ms):
                    out.append((z, "out"))
        return out

    def now(self, st, path):
        return self.local(st, self.frame, path)

    def same(self, st, a, b):
        E = self.E
        return a == b or E.content(st, a) == E.content(st, b) or self.q.eqt(st, E.termof(a), E.termof(b))

    def last_is(self, st, last):
        return self.over or self.same(st, self.now(st, CLICK), last)

    def unchanged(self, st, seq, last):
        return self.last_is(st, last) and self.same(st, self.now(st, SEQ), seq)

    def keys_of(self, st, seq):
        """the keys of a sequence (of an option on it)"""
        E, P = self.E, self.P
        ty = self.ty(SEQ)
        s = E.proj(st, seq, ("f", 0, 1, ty, "0"))
        return E.proj(st, s, place(P, SEQ, "keys")[0])

    def pieces(self, st, v):
        if not isinstance(v, VecV):
            return None
        f = self.q.flat(st, v)
        return f[0][1] if f and len(f) == 1 else None

    def seq_is(self, st, seq, key=None):
        """the current sequence is the given one (with a key added), the given keys, or none"""
        E = self.E
        cur = self.now(st, SEQ)
        vs = [n for _, n, _ in variants(self, st, cur, OPT)]
        if seq is None:
            return vs == ["None"]
        if vs != ["Some"]:
            return False
        ps = self.pieces(st, self.keys_of(st, cur))
        return self.keys_are(st, ps, seq, key)

    def keys_are(self, st, ps, seq, key):
        E = self.E
        if ps is None:
            return False
        if isinstance(seq, list):
            want = [self.q.item(st, k) for k in seq]
        else:
            want = self.pieces(st, self.keys_of(st, seq))
            if want is None:
                return False
            want = want + ([self.q.item(st, key)] if key is not None else [])
        ps = [p for p in ps if not E.entails_eq0(st, p[1])]
        want = [p for p in want if not E.entails_eq0(st, p[1])]
        return len(ps) == len(want) and all(a[0] == b[0] and E.entails_eq0(st, a[1] - b[1]) for a, b in zip(ps, want))

    def seq_val(self, st, v, seq, key):
        E, P = self.E, self.P
        return self.keys_are(st, self.pieces(st, E.proj(st, v, place(P, SEQ, "keys")[0])), seq, key)

    # sending
    def emit(self, st, e, kind, key, seq, last, rest, ended):
        """an event which isn't part of a sequence"""
        E, P = self.E, self.P
        if not ended and not self.seq_is(st, None):
            self.fail("an event out of a sequence leaves a sequence", "seq-after")
        if kind == "Mouse":
            mk, col, row = (E.proj(st, key, place(P, ME, f)[0]) for f in ("kind", "column", "row"))
            for s, n, k in variants(self, st, mk, MEK):
                opt = {"Moved": "discard_mouse_move", "Drag": "discard_mouse_drag"}.get(n)
                for drop, s in bools(self, s, self.option(s, opt)) if opt else [(False, s)]:
                    if drop:
                        if rest or ended or not self.last_is(s, last):
                            self.fail("a mouse event to discard (%s) has an effect" % n, "discard")
                        continue
                    left = [(False, s)]
                    if n in ("Down", "Up"):
                        bt = P.adts[MEK]["variants"][k]["fields"][0]["ty"]
                        b = E.proj(s, mk, ("f", 0, k, bt, "0"))
                        left = [(x == "Left", z) for z, x, _ in variants(self, s, b, MB)]
                    for isleft, s in left:
                        te = self.sent(s, e, rest, ended, None)
                        if te is None:
                            continue
                        self.double(s, te, last, col, row, isleft)
                        if isleft and n == "Up":
                            if not self.clicked(s, te, col, row):
                                self.fail("the release of the left button isn't remembered", "last-up")
                        elif not self.last_is(s, last):
                            self.fail("another event than a release of the left button is remembered as such", "last-other")
            return
        if not self.last_is(st, last):
            self.fail("another event than a release of the left button is remembered as such", "last-other")
        if kind == "Key":
            self.emit_key(st, e, key, rest, ended)
            return
        te = self.sent(st, e, rest, ended, None)
        if te is not None and E.truth(st, E.asf(E.proj(st, te, place(P, TE, "double_click")[0]))) is not False:
            self.fail("an event which isn't a click is told to be a double click", "double-other")

    def emit_key(self, st, e, key, rest, ended):
        E, P = self.E, self.P
        if not rest or rest[0][0] != "transform" or not self.same(st, rest[0][1], key):
            self.fail("a key out of a sequence isn't given to the combiner", "combiner")
            return
        comb = rest[0][2]
        for s, n, _ in variants(self, st, comb, OPT):
            for disc, s in bools(self, s, self.option(s, "discard_raw_key_events")):
                if n == "None" and disc:
                    if len(rest) > 1 or ended:
                        self.fail("a raw key event isn't discarded", "raw")
                    continue
                te = self.sent(s, e, rest[1:], ended, comb)
                if te is not None and E.truth(s, E.asf(E.proj(s, te, place(P, TE, "double_click")[0]))) is not False:
                    self.fail("a key event is told to be a double click", "double-other")

    def sent(self, st, e, rest, ended, comb):
        """the timed event sent, once counted and before the loop is allowed to go on"""
        E, P = self.E, self.P
        names = [x[0] for x in rest]
        ok = names[:2] == ["count", "send"] and (names[2:] == ["recv"] if len(rest) > 1 and rest[1][3] else names[2:] == [])
        if not ok:
            self.fail("does %s instead of counting an event, sending it and waiting" % (", ".join(names) or "nothing"), "protocol")
            return None
        if not (isinstance(rest[0][1], Lin) and E.entails_eq0(st, rest[0][1] - 1)):
            self.fail("an event isn't counted once", "count")
        stop = not rest[1][3] or rest[2][2] != "false"
        if stop != ended:
            self.fail("goes on after being told to quit" if stop else "ends while told to go on", "quit")
        if rest[1][0] == "try_send":
            self.fail("an event may be lost", "lost")
        self.channels.setdefault("send", set()).add(rest[1][1])
        self.channels.setdefault("count", set()).add(rest[0][2])
        if len(rest) > 2:
            self.channels.setdefault("recv", set()).add(rest[2][1])
        te = rest[1][2]
        ev, kc = (E.proj(st, te, place(P, TE, f)[0]) for f in ("event", "key_combination"))
        if not self.is_event(st, ev, e):
            self.fail("the event sent isn't the one read", "event")
        if comb is not None and not self.same(st, kc, comb):
            self.fail("the combination sent isn't the one the combiner gave", "combination")
        if comb is None and [n for _, n, _ in variants(self, st, kc, OPT)] != ["None"]:
            self.fail("a combination is given to an event which isn't a key", "combination-other")
        return te

    def is_event(self, st, ev, e):
        E, P = self.E, self.P
        if e[0:1] == ("key",) if isinstance(e, tuple) else False:
            k = next(i for i, v in enumerate(P.adts[EV]["variants"]) if v["name"] == "Key")
            if E.variant_of(st, ev) != k:
                return False
            got = E.proj(st, ev, ("f", 0, k, self.kty, "0"))
            return self.same(st, got, e[1])
        return self.same(st, ev, e)

    def click_field(self, st, o, f):
        return self.E.proj(st, self.E.proj(st, o, ("f", 0, 1, self.ty(CLICK), "0")), place(self.P, CLICK, f)[0])

    def clicked(self, st, te, col, row):
        E, P = self.E, self.P
        if self.over:
            return True
        cur = self.now(st, CLICK)
        if [n for _, n, _ in variants(self, st, cur, OPT)] != ["Some"]:
            return False
        t, x, y = (self.click_field(st, cur, f) for f in ("time", "x", "y"))
        return self.same(st, t, E.proj(st, te, place(P, TE, "time")[0])) and E.entails_eq0(st, x - col) and E.entails_eq0(st, y - row)

    def double(self, st, te, last, col, row, isleft):
        """a double click: a press or release of the left button at the place of the last release, soon after it"""
        E, P = self.E, self.P
        got, time = (E.proj(st, te, place(P, TE, f)[0]) for f in ("double_click", "time"))
        for s, n, _ in variants(self, st, last, OPT):
            if n == "None" or not isleft:
                if E.truth(s, E.asf(got)) is not False:
                    self.fail("a double click without a previous release", "double-first")
                continue
            t, x, y = (self.click_field(s, last, f) for f in ("time", "x", "y"))
            away = []
            for d in (col - x - 1, x - col - 1, row - y - 1, y - row - 1):
                z = s.copy()
                if E.add_ge(z, d) and E.feasible(z, []):
                    away.append(z)
            for z in away:
                if E.truth(z, E.asf(got)) is not False:
                    self.fail("a double click at another place than the previous release", "double-away")
            z = s.copy()
            if not (E.add_eq(z, col - x) and E.add_eq(z, row - y) and E.feasible(z, [])) or any(E.entails_eq0(z, w) for w in z.ne):
                continue
            for d, z in bools(self, z, got):
                self.c.count("double click cases")
                if self.soon(z, time, t) is not d:
                    self.fail("a double click doesn't depend on the time since the previous release", "double-time")

    def soon(self, st, time, t):
        E = self.E
        a, b = E.termof(time), E.termof(t)
        for f, v in st.bs.items():
            if isinstance(f, tuple) and len(f) == 4 and f[0] == "cmp" and f[1] in ("Lt", "Le", "Gt", "Ge"):
                for x, sw in ((f[2], False), (f[3], True)):
                    if mentions(x, a) and mentions(x, b) and subtracts(x, a, b):
                        return v is ((f[1] in ("Lt", "Le")) is not sw)
        return None

    # an interrupted sequence
    def flush(self, st):
        """at the loop on the keys of a sequence: True when an event is interrupting one"""
        _, _, _, _, tr = st.mem[G].fields
        if len(tr) != 1 or tr[0][0] != "read" or tr[0][1] is None:
            self.fail("loops out of the step of an event", "loop")
            return False
        _, e, seq, last = tr[0]
        cls = {cl for _, _, _, cl in self.classes(st, e, seq)}
        if cls != {"break"}:
            self.fail("sends the keys of a sequence which isn't interrupted (%s)" % ", ".join(sorted(cls)), "flush")
            return False
        v = self.keys_of(st, seq)
        if not isinstance(v, VecV):
            self.fail("no keys in the sequence", "flush-keys")
            return False
        st.mem[G] = Agg("ghost", None, ("flush", Lin(0), (e, seq, last), (v.term, v.len), ()))
        return True

    def one(self, st, i, e, keys, tr, ended):
        """a key of an interrupted sequence is sent"""
        E = self.E
        s = st.copy()
        if not E.add_ge(s, keys[1] - i - 1) or not E.feasible(s, []):
            self.fail("more keys are sent than there are in the sequence", "flush-more")
            return False
        if not E.entails(st, keys[1] - i - 1):
            self.fail("more keys are sent than there are in the sequence", "flush-more")
        if not tr or tr[0][0] != "transform":
            self.fail("a key of an interrupted sequence isn't sent", "flush-one")
            return False
        key = tr[0][1]
        want = self.key_at(s, e[1], i)
        if want is None or not self.same(s, key, want):
            self.fail("a key of an interrupted sequence is sent out of order", "flush-order")
        self.c.count("keys of interrupted sequences")
        self.emit_key(s, ("key", key), key, tr, ended)
        return True

    def key_at(self, st, seq, i):
        return self.E.elem(st, self.keys_of(st, seq), i, self.kty)

    def flushed(self, st, i, e, keys, tr, ended):
        """the end of a step which interrupted a sequence"""
        E = self.E
        ev, seq, last = e
        for s, kind, key, cl in self.classes(st, ev, seq):
            inside = s.copy()
            if ended and E.add_ge(inside, keys[1] - i - 1) and E.feasible(inside, []):
                self.one(inside, i, e, keys, tr, ended)
            s2 = s.copy()
            if E.add_ge(s2, i - keys[1]) and E.feasible(s2, []):
                self.emit(s2, ev, kind, key, None, last, tr, ended)
            elif not ended:
                self.fail("not all the keys of an interrupted sequence are sent", "flush-all")

    def facts(self, E, st):
        out = {}
        g = st.mem.get(G)
        if g is not None and len(g.fields) == 5 and g.fields[0] == "flush" and isinstance(g.fields[1], Lin):
            for root, v in st.mem.items():
                if root[0] == "L" and isinstance(v, Agg) and v.path in ("m:own", "m:slice", "m:vec") and isinstance(v.fields[1], Lin):
                    out[root, "it"] = v.fields[1] - g.fields[1]
        return out


def t01(c):
    P = c.prog()
    v = Source(c, P)
    out = v.r.go()
    c.floor("threads analysed", 1)
    c.floor("steps", 60)
    c.floor("classes", 200)
    c.floor("keys of interrupted sequences", 20)
    c.floor("double click cases", 20)
    return v, out


def pair(a, b):
    """the two ends of a channel"""
    return isinstance(a, tuple) and isinstance(b, tuple) and a[1:] == b[1:] and {a[0], b[0]} == {"tx", "rx"}


def t02(c):
    P = c.prog()
    v = Source(Sub(c), P)
    E = v.E
    fail = lambda key, what: c.violate("source:%s" % key, "%s:%d EventSource::with_options: %s" % (v.b.file, v.b.line, what))
    for st, r in v.r.go():
        tr = st.mem[G].fields[0]
        names = [x[0] for x in tr]
        for s, k, _ in variants(v, st, r, RES):
            c.count("ends of with_options")
            raw = False
            for x in tr:
                if x[0] == "enable_raw_mode" and x[1]:
                    raw = True
                elif x[0] == "disable_raw_mode":
                    raw = False
            if k == "Err":
                if raw:
                    fail("raw-left", "an error leaves the terminal in raw mode (after %s)" % ", ".join(names))
                if "spawn" in names:
                    fail("thread-left", "an error leaves a thread reading the events")
                continue
            c.count("sources made")
            if not raw:
                fail("raw", "a source is made without raw mode")
            th = [x[1] for x in tr if x[0] == "spawn"]
            ch = v.threads.get(E.termof(th[0])) if len(th) == 1 else None
            if ch is None:
                fail("thread", "a source is made without exactly a thread reading the events")
                continue
            src = E.proj(s, r, ("f", 0, 0, v.ty(ES), "0"))
            f = lambda x: E.termof(E.proj(s, src, place(P, ES, x)[0]))
            for what, end, got in (("send", "tx", "rx_events"), ("recv", "rx", "tx_quit"), ("seqs", "tx", "rx_seqs")):
                for t in ch.get(what, ()):
                    c.count("channels")
                    if t[0] != end or not pair(t, f(got)):
                        fail("channel:" + got, "%s isn't the other end of the channel of the thread" % got)
            for t in ch.get("count", ()):
                c.count("channels")
                if not mentions(t, f("event_count")):
                    fail("count", "event_count isn't what the thread increments")
            got = E.asf(E.proj(s, src, place(P, ES, "is_combining_keys")[0]))
            for want, s2 in bools(v, s, v.option(s, "combine_keys")):
                cb = [x for x in tr if x[0] == "enable_combining"]
                if not want:
                    if cb or E.truth(s2, got) is not False:
                        fail("combining-off", "keys are combined while it's not asked")
                    continue
                if len(cb) != 1:
                    fail("combining-on", "the combination of keys isn't enabled while it's asked")
                    continue
                for b, s3 in bools(v, s2, cb[0][2]):
                    if E.truth(s3, got) is not b:
                        fail("combining", "is_combining_keys isn't what the terminal supports")
            md = [x for x in tr if x[0] == "mandate"]
            opt = v.option(s, "mandate_modifier_for_multiple_keys")
            if len(md) != 1 or not same_bool(v, s, md[0][1], opt):
                fail("mandate", "the combiner isn't told whether a modifier is mandatory")
    c.floor("ends of with_options", 3)
    c.floor("sources made", 1)
    c.floor("channels", 4)
    source_methods(c, P)


def same_bool(v, st, a, b):
    E = v.E
    return all(E.truth(s, E.asf(b)) is x for x, s in bools(v, st, a))


def source_methods(c, P):
    """the accessors of a source, and its end"""
    for name, f in (("receiver", "rx_events"), ("escape_sequence_receiver", "rx_seqs"), ("shared_event_count", "event_count"),
                    ("supports_multi_key_combinations", "is_combining_keys"), ("unblock", "tx_quit"), ("drop", None), ("new", None)):
        source_method(c, P, name, f)
    c.floor("methods", 7)
    b = next((b for b in P.bodies.values() if b.name == "default" and b.impl_of and ESO in str(P.types[b.locals[0]["t"]].get("path"))), None)
    b = c.need(b, "the default options of an event source")
    r = Run1(P, b, c)
    for st, x in r.go():
        for f, want in (("combine_keys", False), ("discard_raw_key_events", True), ("discard_mouse_move", True), ("discard_mouse_drag", False)):
            c.count("default options")
            if r.E.truth(st, r.E.asf(r.E.proj(st, x, place(P, ESO, f)[0]))) is not want:
                c.violate("default:%s" % f, "%s:%d EventSourceOptions::default: %s isn't %s by default" % (b.file, b.line, f, str(want).lower()))


def source_method(c, P, name, f):
    b = method(c, P, ES, name) if name != "drop" else \
        c.need(next((b for b in P.bodies.values() if b.name == "drop" and "EventSource as" in b.path), None), "EventSource::drop")
    fail = lambda what: c.violate("method:%s:%s" % (name, what), "%s:%d EventSource::%s: %s" % (b.file, b.line, name, what))
    c.count("methods")

    def calls(E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m == "clone":
            r = E.toref(args[0])
            return [(st, E.read(st, r.root, r.path, r.ty))]
        if m in ("enable_raw_mode", "disable_raw_mode"):
            return [(logged(st, m), Agg(RES, 0, (Agg("()", None, ()),)))]
        if m in ("send", "try_send") and "Sender" in path:
            r = E.toref(args[0])
            return [(logged(st, m, E.read(st, r.root, r.path, r.ty), args[1]), Agg(RES, 0, (Agg("()", None, ()),)))]
        if path.endswith("EventSource::with_options"):
            return [(logged(st, "with_options", args[0]), Sym(("made",), None))]
        return None

    r = Run1(P, b, c, on_call=calls)
    E = r.E
    r.init.mem[G] = Agg("ghost", None, ((),))
    me = r.args[0] if r.args else None
    fld = get(P, E, r.init.copy(), E.toref(me), ES, f) if f else None
    n = 0
    for st, x in r.go():
        n += 1
        tr = st.mem[G].fields[0]
        if name == "drop":
            if [y[0] for y in tr] != ["disable_raw_mode"]:
                fail("the terminal isn't put out of raw mode")
        elif name == "new":
            d = tr[0][1] if len(tr) == 1 and tr[0][0] == "with_options" else None
            if d is None or E.termof(x) != ("made",):
                fail("isn't a source with options")
            else:
                s0 = default_options(P, c)
                if E.content(st, d) != s0:
                    fail("isn't a source with the default options")
        elif name == "unblock":
            if len(tr) != 1 or tr[0][0] != "send" or E.termof(tr[0][1]) != E.termof(fld) or E.content(st, tr[0][2]) != E.content(st, r.args[1]):
                fail("doesn't tell the thread what it's asked")
        elif tr or E.content(st, x) != E.content(st, fld):
            fail("doesn't return %s" % f)
    if not n:
        fail("never returns")


def default_options(P, c):
    b = next(b for b in P.bodies.values() if b.name == "default" and ESO in str(P.types[b.locals[0]["t"]].get("path")))
    r = Run1(P, b, c)
    st, x = r.go()[0]
    return r.E.content(st, x)


ONE = "crokey::key_combination::KeyCombination"


def t05(c):
    P = c.prog()
    as_click(c, P)
    is_key(c, P)
    shown(c, P)
    b = method(c, P, TE, "new")
    r = Run1(P, b, c)
    for st, x in r.go():
        c.count("timed events made")
        f = lambda n: r.E.proj(st, x, place(P, TE, n)[0])
        if r.E.content(st, f("event")) != r.E.content(st, r.args[0]) or r.E.truth(st, r.E.asf(f("double_click"))) is not False or \
                r.E.variant_of(st, f("key_combination")) != 0:
            c.violate("timed:new", "%s:%d TimedEvent::new: isn't the event, with neither double click nor combination" % (b.file, b.line))
    c.floor("timed events made", 1)
    c.floor("clicks", 4)
    c.floor("keys compared", 3)
    c.floor("keys shown", 2)


class View:
    def __init__(self, r, P):
        self.r, self.E, self.P = r, r.E, P


def as_click(c, P):
    b = method(c, P, TE, "as_click")
    fail = lambda what: c.violate("timed:as_click:%s" % what, "%s:%d TimedEvent::as_click: %s" % (b.file, b.line, what))
    r = Run1(P, b, c)
    E = r.E
    v = View(r, P)
    me = E.toref(r.args[0])
    e = get(P, E, r.init, me, TE, "event")
    dbl = get(P, E, r.init, me, TE, "double_click")
    nf = lambda x, p, k: E.proj(st, x, ("f", 0, k, P.adts[p]["variants"][k]["fields"][0]["ty"], "0"))
    for st, x in r.go():
        for st, n, k in variants(v, st, e, EV):
            if n != "Mouse":
                if [m for _, m, _ in variants(v, st, x, OPT)] != ["None"]:
                    fail("a click which isn't an event of the mouse")
                continue
            m = nf(e, EV, k)
            kind, col, row, mo = (E.proj(st, m, place(P, ME, f)[0]) for f in ("kind", "column", "row", "modifiers"))
            for st, kn, k2 in variants(v, st, kind, MEK):
                up = [(False, st)]
                if kn == "Up":
                    bt = nf(kind, MEK, k2)
                    up = [(y == "Left", z) for z, y, _ in variants(v, st, bt, MB)]
                for left, z in up:
                    ms = modset(v, z, mo)
                    for d, z in bools(v, z, dbl):
                        for plain in {y == 0 for y in ms}:
                            c.count("clicks")
                            want = left and not d and plain
                            if [y for _, y, _ in variants(v, z, x, OPT)] != ["Some" if want else "None"]:
                                fail("a simple release of the left button isn't a click" if want else "a click which isn't a simple release of the left button")
                                continue
                            if want:
                                p = E.proj(z, x, ("f", 0, 1, None, "0"))
                                px, py = (E.proj(z, p, ("f", i, None, None, str(i))) for i in (0, 1))
                                if not (isinstance(px, Lin) and isinstance(py, Lin) and E.entails_eq0(z, px - col) and E.entails_eq0(z, py - row)):
                                    fail("the click is told to be elsewhere")


def is_key(c, P):
    b = method(c, P, TE, "is_key")
    fail = lambda what: c.violate("timed:is_key:%s" % what, "%s:%d TimedEvent::is_key: %s" % (b.file, b.line, what))

    def same(E, st, x, y):
        a, b2 = E.content(st, x), E.content(st, y)
        f = ("s", ("same key",) + tuple(sorted((a, b2), key=str)))
        return f

    def val(E, st, x):
        while isinstance(x, Ref):
            x = E.read(st, x.root, x.path, x.ty)
        return x

    def calls(E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m in ("into", "from") and len(args) == 1:
            return [(st, Sym(("combination of", E.content(st, val(E, st, args[0]))), None))]
        if m in ("eq", "ne") and len(args) == 2:
            x, y = val(E, st, args[0]), val(E, st, args[1])
            out = []
            if any(isinstance(z, Agg) and z.path == OPT for z in (x, y)):
                for s, n, _ in variants(v, st, x, OPT):
                    for s2, n2, _ in variants(v, s, y, OPT):
                        f = same(E, s2, E.proj(s2, x, ("f", 0, 1, None, "0")), E.proj(s2, y, ("f", 0, 1, None, "0"))) if n == n2 == "Some" else \
                            (TRUE if n == n2 else FALSE)
                        out.append((s2, f))
            else:
                out.append((st, same(E, st, x, y)))
            return [(s2, BoolV(TRUE if b2 is (m == "eq") else FALSE)) for s, f in out for b2 in (True, False) for s2 in E.assume(s.copy(), f, b2)]
        return None
    r = Run1(P, b, c, on_call=calls)
    E = r.E
    v = View(r, P)
    me = E.toref(r.args[0])
    e = get(P, E, r.init, me, TE, "event")
    kc = get(P, E, r.init, me, TE, "key_combination")
    K = Sym(("combination of", E.content(r.init, r.args[1])), None)
    for st, x in r.go():
        for s, n, _ in variants(v, st, kc, OPT):
            a = same(E, s, E.proj(s, kc, ("f", 0, 1, None, "0")), K) if n == "Some" else FALSE
            for s, n2, k in variants(v, s, e, EV):
                b2 = FALSE
                if n2 == "Key":
                    ke = E.proj(s, e, ("f", 0, k, P.adts[EV]["variants"][k]["fields"][0]["ty"], "0"))
                    b2 = same(E, s, Sym(("combination of", E.content(s, ke)), None), K)
                for y, s in bools(v, s, BoolV(a)):
                    for z, s2 in bools(v, s, BoolV(b2)):
                        c.count("keys compared")
                        if E.truth(s2, E.asf(x)) is not (y or z):
                            fail("isn't true just when the combination or the key event is the key")


def indices(E, st, term, k):
    """the expressions the facts on the element of index k use for it"""
    found = []

    def look(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == "e" and t[1] == term and isinstance(t[2], Lin):
                found.append(t[2])
                return
            for x in t:
                look(x)
    for t in list(st.disc) + list(st.bs):
        look(t)
    for l in st.eq + st.ge + st.ne:
        for a, _ in l.t:
            look(E.A.terms[a])
    return [i for i in dict.fromkeys(found) if E.entails_eq0(st, i - k)]


def known_index(E, st, term, k):
    return next(iter(indices(E, st, term, k)), k)


def shown(c, P):
    """an escape sequence is displayed as its plain chars"""
    b = c.need(next((b for b in P.bodies.values() if b.name == "fmt" and "EscapeSequence as" in b.path and "Display" in b.path), None), "EscapeSequence's Display")
    fail = lambda what: c.violate("escape:%s" % what, "%s:%d EscapeSequence: %s" % (b.file, b.line, what))

    def calls(E, fr, blk, st, path, fn, args):
        m = path.split("::")[-1]
        if m == "new_display":
            return [(st, Sym(("display", E.content(st, deep(E, st, args[0]))), None))]
        if m in ("write_fmt", "write_char", "write_str", "fmt") and "fmt" in path:
            a = args[0] if m == "fmt" else args[1]
            out = []
            for ok in (True, False):
                out.append((logged(st.copy(), "write", E.content(st, deep(E, st, a)), ok), Agg(RES, 0 if ok else 1, (Agg("()", None, ()),))))
            return out
        if "fmt::Arguments" in path:
            return [(st, Agg("args", None, tuple(deep(E, st, a) for a in args)))]
        return None

    def deep(E, st, x):
        for _ in range(4):
            if not isinstance(x, Ref):
                break
            x = E.read(st, x.root, x.path, x.ty)
        return x

    def step(st):
        """the effect of a turn: the key must be written when it's a plain char"""
        E = r.E
        k, seen, tr = st.mem[G].fields
        key = E.elem(st, keys, known_index(E, st, keys.term, k), keys.ety)
        code, m = (E.proj(st, key, place(P, KE, f)[0]) for f in ("code", "modifiers"))
        for s, n, i in variants(v, st, code, KC):
            for plain in {x == 0 for x in modset(v, s, m)}:
                c.count("keys shown")
                if n == "Char" and plain:
                    ch = E.proj(s, code, ("f", 0, i, P.adts[KC]["variants"][i]["fields"][0]["ty"], "0"))
                    if len(tr) != 1 or not has(s, tr[0][1], E.termof(ch)):
                        fail("a plain char isn't displayed once")
                elif tr:
                    fail("a key which isn't a plain char is displayed")

    def has(st, x, t):
        E = r.E
        if isinstance(x, (tuple, Lin)) and q.eqt(st, x, t):
            return True
        if isinstance(x, Agg):
            return any(has(st, y, t) for y in x.fields)
        if isinstance(x, (Sym, VecV)):
            return has(st, x.term, t) or isinstance(x, VecV) and any(has(st, y, t) for _, y in x.writes)
        return isinstance(x, tuple) and any(has(st, y, t) for y in x)

    def head(E, fr, head, st):
        k, seen, tr = st.mem[G].fields
        if seen:
            step(st)
            if tr and not tr[-1][2]:
                fail("goes on after a failed write")
            k = k + 1
        st.mem[G] = Agg("ghost", None, (k, True, ()))
        return None

    def facts(E, st):
        g = st.mem.get(G)
        out = {}
        if g is not None and isinstance(g.fields[0], Lin):
            for root, w in st.mem.items():
                if root[0] == "L" and isinstance(w, Agg) and w.path in ("m:own", "m:slice") and isinstance(w.fields[1], Lin):
                    out[root, "i"] = w.fields[1] - g.fields[0]
            out["n"] = ("ge", keys.len - g.fields[0])
        return out

    r = Run1(P, b, c, on_call=calls, at_head=head, loop_facts=facts, unroll=0)
    E = r.E
    v = View(r, P)
    q = Seqs(E, P)
    st = r.init
    me = E.toref(r.args[0])
    E.root_val(st, me.root, P.types[b.locals[1]["t"]]["ty"])
    keys = get(P, E, st, me, SEQ, "keys")
    st.mem[G] = Agg("ghost", None, (Lin(0), False, ()))
    for s, x in r.go():
        k, seen, tr = s.mem[G].fields
        if tr and not tr[-1][2]:
            step(s)
            continue
        if tr or not E.entails_eq0(s, keys.len - k):
            fail("not all the keys are looked at")
