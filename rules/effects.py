"""Who-may-call rules over the resolved call graph (MIR, all crate bodies, closures, fn pointers)."""
import re
from mir import callee

# functions documented to print on / display to the terminal they run in
PRINTING = {
    ("MadSkin", "print_inline"), ("MadSkin", "print_text"), ("MadSkin", "print_expander"),
    ("MadSkin", "print_owning_expander"), ("MadSkin", "print_owning_expander_md"), ("MadSkin", "print_composite"),
    ("MadSkin", "write_inline"), ("MadSkin", "write_text"), ("MadSkin", "write_in_area"),
    ("InputField", "display"), ("ListView", "write"), ("MadView", "write"), ("TextView", "write"),
    ("Question", "ask"), (None, "print_inline"), (None, "print_text"),
}
# functions documented to use the size of the current terminal
TERMINAL_SIZED = {
    ("Area", "full_screen"), (None, "terminal_size"), ("Question", "ask"),
    ("MadSkin", "term_text"), ("MadSkin", "print_text"), ("MadSkin", "print_expander"),
    ("MadSkin", "print_owning_expander"), ("MadSkin", "print_owning_expander_md"),
    ("MadSkin", "write_text_on"), ("MadSkin", "write_text"), (None, "term_text"), (None, "print_text"),
}
EVENT_TYPES = {"EventSource", "Ticker", "TimedEvent"}

OUT_SINK = re.compile(r"(^|::)(std|core|alloc)::io::(stdio::)?(_print|_eprint|stdout|stderr|attempt_print_to_stderr)$"
                      r"|std::io::(Stdout|Stderr)(Lock)?::")
WORLD = re.compile(
    r"(^|::)std::(env|fs|net|process|os|backtrace)::"
    r"|(^|::)std::io::(stdio::)?(stdin|stdout|stderr|_print|_eprint)$"
    r"|(^|::)std::time::(Instant|SystemTime)::(now|elapsed)$|std::time::SystemTime::|(^|::)std::thread::"
    r"|crossterm::terminal::(size|window_size|enable_raw_mode|disable_raw_mode|is_raw_mode_enabled|supports_keyboard_enhancement)$"
    r"|crossterm::cursor::position$|crossterm::event::(read|poll)$|crossterm::tty::"
    r"|crossterm::style::(available_color_count|force_color_output)$"
    r"|(Atomic<?.*>?|AtomicUsize|AtomicBool)(::<.*>)?::(load|fetch_|store|swap|compare)"
    r"|RandomState::new|std::hash::random|std::panic::|std::io::IsTerminal"
    r"|(Mutex|RwLock|RefCell|Cell|OnceCell|OnceLock|LocalKey)(::<.*>)?::(lock|read|write|borrow|borrow_mut|get|set|replace|take|with|update|get_mut|swap)$")
SYNC_STATIC = re.compile(r"(Mutex|RwLock|Atomic|RefCell|\bCell|OnceCell|OnceLock|UnsafeCell|LocalKey)")


def owner(P, b):
    b = P.root_fn(b)
    a = P.self_adt(b)
    return (a.split("::")[-1] if a else None, b.name)


def is_root(b):
    """entry points: everything reachable from outside, plus trait impls (called back by anyone)"""
    return b.kind == "fn" and (b.reach or b.impl_of)


def ext_calls(P, rx):
    """body id -> [(block, path)] of the external calls (or fn values) matching rx"""
    out = {}
    for b in P.bodies.values():
        for i, t in b.calls():
            f = callee(t)
            if f and (f.get("rid") or f["id"]) not in P.bodies and rx.search(f["path"]):
                out.setdefault(b.id, []).append((i, f["path"]))
        for i, o in b.operands():
            k = o.get("k")
            if k and "fn" in k and b.blocks[i]["t"].get("f") is not o and rx.search(k["fn"]["path"]):
                out.setdefault(b.id, []).append((i, k["fn"]["path"]))
    return out


def confine(c, P, rx, exempt, exempt_types, what, config):
    sinks = ext_calls(P, rx)
    roots = [b for b in P.bodies.values() if is_root(b)]
    c.count("bodies", len(P.bodies))
    n = 0
    for b in roots:
        o = owner(P, b)
        if o in exempt or o[0] in exempt_types:
            continue
        n += 1
        seen = P.reach([b.id])
        for x in seen:
            if x in sinks:
                blk, path = sinks[x][0]
                f = P.bodies[x]
                fo = owner(P, f)
                chain = P.path_to(seen, x)
                c.violate("%s:%s:%s" % (config, b.path, path.split("::")[-1]),
                          "%s %s\n  %s:%d calls %s\n  path: %s" %
                          (b.path, what, f.file, f.ln(blk), path, " -> ".join(chain)))
                break
    c.count("entry points", n)
    c.count("sink call sites in the crate", sum(len(v) for v in sinks.values()))
    for x, l in list(sinks.items())[:6]:
        c.sample({"sink": l[0][1], "in": P.bodies[x].path})
    return sinks


def e01(c):
    c.rule = ("Every function reachable from outside the crate and every trait impl, except the documented printing "
              "functions, is a root; no path of the resolved call graph (closures and function values included) may "
              "reach std's stdout/stderr/print entry points. The expansions of the write macros in a witness crate are "
              "checked the same way.")
    for cfg in ("default", "nodefault") if c.tier == "thorough" else ("default",):
        P = c.prog(cfg)
        confine(c, P, OUT_SINK, PRINTING, set(), "can write on the process's own stdout/stderr", cfg)
        # the standard error stream is never written, whoever asks
        for x, l in ext_calls(P, re.compile(r"std::io::(stdio::)?(_eprint|stderr)$")).items():
            c.violate("stderr:" + P.bodies[x].path, "%s writes to stderr" % P.bodies[x].path)
    c.floor("entry points", 250)
    c.floor("sink call sites in the crate", 8, "(the printing functions themselves)")
    W = c.prog("witness")
    for name in ("w_write",):
        b = c.need(W.free(name), "witness " + name)
        for x in W.reach([b.id]):
            for i, t in W.bodies[x].calls():
                f = callee(t)
                if not f:
                    continue
                segs = f["path"].split("::")
                o = (re.sub(r"<.*", "", segs[-2]) if len(segs) > 1 else None, segs[-1])
                if OUT_SINK.search(f["path"]) or o in PRINTING or (o[0] == "termimad" and (None, o[1]) in PRINTING):
                    c.violate("macro:mad_write_inline:" + o[1],
                              "the expansion of mad_write_inline! calls %s, which writes to stdout instead of the given "
                              "writer" % f["path"])
        c.count("macro expansions")


def e02(c):
    c.rule = ("Every externally reachable function and trait impl, except those documented to use the current terminal "
              "(or the event types), is a root; no call path may reach the terminal size, cursor position, environment, "
              "clock, files, threads, randomness, or any shared mutable state (locks, cells, atomics, mutable statics).")
    for cfg in ("default", "nodefault") if c.tier == "thorough" else ("default",):
        P = c.prog(cfg)
        # writing functions without explicit size reach stdout by design: stdout is E01's business
        rx = re.compile(WORLD.pattern.replace("stdin|stdout|stderr|_print|_eprint", "stdin"))
        confine(c, P, rx, TERMINAL_SIZED, EVENT_TYPES, "depends on something else than its arguments", cfg)
        for b in P.bodies.values():
            if b.kind != "static":
                continue
            c.count("statics")
            s = P.ts(b.locals[0]["t"])
            if re.search(r"static mut", b.path) or SYNC_STATIC.search(re.sub(r"(once_cell|lazy_regex)[\w:]*::Lazy<[^<>]*>|LazyLock<[^<>]*>", "", s)):
                c.violate("%s:static:%s" % (cfg, b.path), "static %s: %s is shared mutable state" % (b.path, s))
        for b in P.bodies.values():
            for i, st in b.stmts():
                pass
    c.floor("entry points", 250)
