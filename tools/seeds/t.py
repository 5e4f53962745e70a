ESF = "src/events/event_source.rs"
TBF = "src/events/tick_beam.rs"
ASKF = "src/ask.rs"
TEF = "src/events/timed_event.rs"


def pty(*chunks, wait=b"READY"):
    return '''python3 - "$tmp/target/debug/demo" <<'PY'
import os, pty, select, sys, time
pid, fd = pty.fork()
if pid == 0:
    os.execv(sys.argv[1], [sys.argv[1]])
chunks = %r
out, t0, next_at = b"", time.time(), None
while time.time() - t0 < 60:
    r, _, _ = select.select([fd], [], [], 0.05)
    if r:
        try:
            d = os.read(fd, 4096)
        except OSError:
            break
        if not d:
            break
        out += d
        if next_at is None and %r in out:
            next_at = time.time() + 0.3
    if next_at is not None and chunks and time.time() > next_at:
        os.write(fd, chunks.pop(0))
        next_at = time.time() + 0.1
print(out.decode("utf8", "replace"))
for _ in range(50):
    p, status = os.waitpid(pid, os.WNOHANG)
    if p:
        sys.exit(os.waitstatus_to_exitcode(status) != 0)
    time.sleep(0.1)
os.kill(pid, 9)
sys.exit(3)
PY''' % (list(chunks), wait)


SRC = '''
use std::time::Duration;
use termimad::*;
use termimad::crossterm::event::*;
fn source() -> EventSource {
    let s = EventSource::new().unwrap();
    println!("READY");
    s
}
fn events(s: &EventSource, n: usize) -> Vec<TimedEvent> {
    let rx = s.receiver();
    let mut v = Vec::new();
    for _ in 0..n {
        match rx.recv_timeout(Duration::from_secs(3)) {
            Ok(e) => v.push(e),
            Err(_) => break,
        }
        s.unblock(false);
    }
    v
}
fn codes(v: &[TimedEvent]) -> String {
    v.iter().map(|e| match &e.event { Event::Key(k) => match k.code { KeyCode::Char(c) => c, _ => '?' }, _ => '!' }).collect()
}
'''
SEEDS = [
dict(id="T01-a", property="T01", edits=[(ESF, "                                && row == y\n", "")],
 demo=SRC + '''
fn main() {
    let s = source();
    let v = events(&s, 4);
    assert_eq!(v.iter().map(|e| e.double_click).collect::<Vec<_>>(), vec![false, false, false, false]);
}
''', run=pty(b"\x1b[<0;5;5M", b"\x1b[<0;5;5m", b"\x1b[<0;5;8M", b"\x1b[<0;5;8m"),
 needs="two quick clicks in the same column, in different rows", breaks="they're told to be a double click"),
dict(id="T01-b", property="T01", edits=[(ESF, '''                    let seq = current_escape_sequence.take().unwrap();
                    for key''', '''                    let seq = current_escape_sequence.clone().unwrap();
                    for key''')],
 demo=SRC + '''
fn main() {
    let s = source();
    let v = events(&s, 6);
    assert_eq!(codes(&v), "_abxcd");
}
''', run=pty(b"\x1b_", b"a", b"b", b"\x18", b"c", b"d"),
 needs="an escape sequence interrupted by another key, then other keys", breaks="the next keys aren't sent"),
dict(id="T01-c", property="T01", edits=[(ESF, "                            .intersects(KeyModifiers::ALT | KeyModifiers::CONTROL)", "                            .contains(KeyModifiers::ALT | KeyModifiers::CONTROL)")],
 demo=SRC + '''
fn main() {
    let s = source();
    let v = events(&s, 3);
    assert_eq!(codes(&v), "_ax");
}
''', run=pty(b"\x1b_", b"a", b"\x18"),
 needs="a ctrl key after the start of an escape sequence", breaks="the ctrl key and the previous ones are kept instead of being sent"),
dict(id="T01-d", property="T01", edits=[(ESF, '''                internal_event_count.fetch_add(1, Ordering::SeqCst);
                if tx_events.send(event).is_err() {''', '''                if event_is_key(&event) {
                    internal_event_count.fetch_add(1, Ordering::SeqCst);
                }
                if tx_events.send(event).is_err() {'''), (ESF, "fn is_seq_end(", '''fn event_is_key(event: &TimedEvent) -> bool {
    matches!(event.event, Event::Key(_))
}
fn is_seq_end(''')],
 demo=SRC + '''
fn main() {
    let s = source();
    let count = s.shared_event_count();
    events(&s, 2);
    assert_eq!(count.load(std::sync::atomic::Ordering::SeqCst), 2);
}
''', run=pty(b"a", b"\x1b[<0;5;5M"),
 needs="an event of the mouse", breaks="it isn't counted, so that background computations don't stop"),
dict(id="T02-a", property="T02", edits=[(ESF, "        terminal::disable_raw_mode().unwrap();", '''        if self.is_combining_keys || self.event_count.load(Ordering::SeqCst) > 0 {
            terminal::disable_raw_mode().unwrap();
        }''')],
 demo='''
use termimad::*;
fn main() {
    let s = EventSource::new().unwrap();
    drop(s);
    assert!(!crossterm::terminal::is_raw_mode_enabled().unwrap());
}
''', run=pty(), needs="a source dropped before any event", breaks="the terminal stays in raw mode"),
dict(id="T02-b", property="T02", edits=[(ESF, "        Arc::clone(&self.event_count)\n", "        Arc::new(AtomicUsize::new(self.event_count.load(Ordering::SeqCst)))\n")],
 demo=SRC + '''
fn main() {
    let s = source();
    let count = s.shared_event_count();
    events(&s, 1);
    assert_eq!(count.load(std::sync::atomic::Ordering::SeqCst), 1);
}
''', run=pty(b"a"), needs="a count taken before the events", breaks="it's never updated"),
dict(id="T02-c", property="T02", edits=[(ESF, "        self.tx_quit.send(quit).unwrap();", '''        if quit || self.rx_events.is_empty() {
            self.tx_quit.send(quit).unwrap();
        }''')],
 demo=SRC + '''
fn main() {
    let s = source();
    let rx = s.receiver();
    rx.recv_timeout(Duration::from_secs(3)).unwrap();
    // the thread isn't blocked any more when it's told twice to go on
    s.unblock(false);
    s.unblock(false);
    std::thread::sleep(Duration::from_millis(500));
    s.unblock(false);
    assert!(rx.recv_timeout(Duration::from_secs(3)).is_ok());
    assert!(rx.recv_timeout(Duration::from_secs(3)).is_ok());
    assert!(rx.recv_timeout(Duration::from_secs(3)).is_ok());
}
''', run=pty(b"a", b"b", b"c", b"d", b"e"), needs="unblock called while an event waits", breaks="the order to go on is lost"),
dict(id="T03-a", property="T03", edits=[(TBF, "position(|beam| beam.id == id)", "position(|beam| beam.id >= id)")],
 demo='''
use std::time::Duration;
use termimad::*;
fn main() {
    let mut t: Ticker<u8> = Ticker::new();
    let a = t.tick_infinitely(1, Duration::from_millis(50));
    let b = t.tick_once(2, Duration::from_secs(100));
    let c = t.tick_infinitely(3, Duration::from_secs(100));
    t.stop_beam(a);
    let _ = c;
    t.tick_infinitely(4, Duration::from_millis(50));
    t.stop_beam(b);
    t.stop_beam(b);
    let mut n = 0;
    while let Ok(p) = t.tick_receiver.recv_timeout(Duration::from_millis(400)) {
        if p == 4 {
            n += 1;
        }
        if n > 3 {
            return;
        }
    }
    panic!("the last beam was stopped");
}
''', needs="a beam stopped twice while a later one is running", breaks="another beam is stopped"),
dict(id="T03-b", property="T03", edits=[(TBF, "            remaining_count: Some(count),", "            remaining_count: Some(count.max(1)),")],
 demo='''
use std::time::Duration;
use termimad::*;
fn main() {
    let mut t: Ticker<u8> = Ticker::new();
    t.tick_several_times(1, Duration::from_millis(20), 0);
    assert!(t.tick_receiver.recv_timeout(Duration::from_millis(300)).is_err());
}
''', needs="0 ticks asked", breaks="a tick is sent"),
dict(id="T03-c", property="T03", edits=[(TBF, "        let id = self.next_id;\n", "        let id = self.beams.len();\n")],
 demo='''
use std::time::Duration;
use termimad::*;
fn main() {
    let mut t: Ticker<u8> = Ticker::new();
    let a = t.tick_once(1, Duration::from_secs(100));
    let b = t.tick_once(2, Duration::from_secs(100));
    t.stop_beam(a);
    let c = t.tick_once(3, Duration::from_secs(100));
    assert_ne!(b, c);
}
''', needs="a beam started after another one was stopped", breaks="two beams have the same id"),
dict(id="T04-a", property="T04", edits=[(ASKF, "                if a.key == input {", "                if a.key.trim_end() == input {")],
 demo='''
use termimad::*;
fn main() {
    let mut q = Question::new("?");
    q.add_answer("a ", "with a space");
    q.add_answer("b", "b");
    let r = q.ask(&MadSkin::no_style()).unwrap();
    assert_eq!(r, "b");
}
''', run='''printf 'a\\nb\\n' | timeout 60 "$tmp/target/debug/demo"''', needs="an answer whose key ends with a space", breaks="the result isn't the key of an answer"),
dict(id="T04-b", property="T04", edits=[(ASKF, '''            if input.is_empty() {
                if let Some(da)''', '''            if input.is_empty() || self.answers.is_empty() {
                if let Some(da)''')],
 demo='''
use termimad::*;
fn main() {
    let mut q = Question::new("?");
    q.set_default("dd");
    assert!(q.has_exotic_default());
    // no answer: only an empty line gives the default
    let r = q.ask(&MadSkin::no_style()).unwrap();
    assert_eq!(r, "dd");
    let mut next = String::new();
    std::io::stdin().read_line(&mut next).unwrap();
    assert_eq!(next, "last\\n");
}
''', run='''printf 'abc\\n\\nlast\\n' | timeout 60 "$tmp/target/debug/demo"''', needs="a question with a default and no answer, and something typed", breaks="what is typed is taken for nothing"),
dict(id="T04-c", property="T04", edits=[(ASKF, "                if &answer.key == da {", "                if answer.key.trim() == da {")],
 demo='''
use termimad::*;
fn main() {
    let mut q = Question::new("?");
    q.add_answer(" a", "with a space");
    q.set_default("a");
    assert!(q.has_exotic_default());
}
''', needs="a default which is the key of an answer but for blanks", breaks="the default isn't told to be exotic"),
dict(id="T05-a", property="T05", edits=[(TEF, "                modifiers: KeyModifiers::NONE,\n", "                modifiers: KeyModifiers::NONE | KeyModifiers::SHIFT,\n")],
 demo='''
use termimad::*;
use termimad::crossterm::event::*;
fn main() {
    let e = |m| TimedEvent::new(Event::Mouse(MouseEvent { kind: MouseEventKind::Up(MouseButton::Left), column: 2, row: 3, modifiers: m }));
    assert_eq!(e(KeyModifiers::NONE).as_click(), Some((2, 3)));
    assert_eq!(e(KeyModifiers::SHIFT).as_click(), None);
}
''', needs="a click with shift", breaks="it's told to be a simple click"),
dict(id="T05-b", property="T05", edits=[(TEF, '''        if self.key_combination == Some(key) {
            return true;
        }
''', '''        if let Some(combination) = self.key_combination {
            return combination == key;
        }
''')],
 demo='''
use termimad::*;
use termimad::crossterm::event::*;
fn main() {
    let k = |c| KeyEvent::new(KeyCode::Char(c), KeyModifiers::NONE);
    let mut e = TimedEvent::new(Event::Key(k('b')));
    e.key_combination = Some(k('a').into());
    assert!(e.is_key(k('a')));
    assert!(e.is_key(k('b')));
}
''', needs="an event with a combination which isn't its key", breaks="the key isn't recognised"),
dict(id="T05-c", property="T05", edits=[("src/events/escape_sequence.rs", "                modifiers: KeyModifiers::NONE,\n", "")],
 demo=SRC + '''
fn main() {
    let s = source();
    let rx = s.escape_sequence_receiver();
    let seq = rx.recv_timeout(Duration::from_secs(5)).unwrap();
    assert_eq!(seq.to_string(), "a");
}
''', run=pty(b"\x1b_", b"a", b"\x1b\\"), needs="keys with modifiers in a sequence, as its start and its end", breaks="they're displayed too"),
]
