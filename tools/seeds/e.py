SEEDS = [
dict(id="E01-a", property="E01",
 edits=[("src/views/text_view.rs", "self.text.skin.scrollbar.track.queue(w)?;", "self.text.skin.scrollbar.track.queue(&mut std::io::stdout())?;")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::default();
    let md = (0..40).map(|i| format!("line {i}\\n")).collect::<String>();
    let mut out = Vec::new();
    let mut view = MadView::from(md, Area::new(0, 0, 20, 5), skin.clone());
    view.scroll = 0;
    view.write_on(&mut out).unwrap();
    let s = String::from_utf8(out).unwrap();
    let track = skin.scrollbar.track.nude_char();
    // thumb and track are the same char by default: one per row
    assert_eq!(s.matches(track).count(), 5, "scrollbar cells missing in the destination");
}
''', needs="A text longer than the area (scrollbar shown), written to another destination than stdout",
 breaks="The scrollbar track is written on the process's stdout instead of the given writer"),
dict(id="E02-a", property="E02",
 edits=[("src/line_style.rs", "if let Some(width) = available_width {\n            if width < self.left_margin + self.right_margin + 3 {\n                return (0, 0);\n            }\n        }",
  "let width = available_width.unwrap_or_else(|| crate::terminal_size().0 as usize);\n        if width < self.left_margin + self.right_margin + 3 {\n            return (0, 0);\n        }")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.paragraph.left_margin = 5000;
    let s = format!("{}", skin.text("hello", None));
    assert_eq!(s.trim_end_matches('\\n').len(), 5005, "the margin must not depend on the terminal");
}
''', needs="A skin with margins wider than the current terminal, text rendered with no width",
 breaks="Rendering without width depends on the size of the terminal the process runs in"),
dict(id="E03-a", property="E03",
 edits=[("src/views/text_view.rs", "self.write_on(&mut stdout)?;\n        stdout.flush()?;", "self.write_on(&mut stdout)?;\n        if self.scrollbar().is_some() {\n            stdout.flush()?;\n        }")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.paragraph.left_margin = 0;
    let area = Area::new(0, 0, 20, 5);
    let text = skin.area_text("marker", &area);
    TextView::from(&area, &text).write().unwrap();
    std::process::abort(); // what isn't flushed isn't displayed
}
''', run='out=$(ulimit -c 0; timeout 60 "$tmp/target/debug/demo" 2>/dev/null)\ncase "$out" in *marker*) exit 0;; *) echo "not displayed"; exit 1;; esac',
 needs="A text fitting in its area (no scrollbar)", breaks="TextView::write returns Ok before the text is displayed"),
dict(id="E03-b", property="E03",
 edits=[("src/skin.rs", "self.write_in_area_on(&mut w, markdown, area)?;\n        w.flush()?;\n        Ok(())", "self.write_in_area_on(&mut w, markdown, area)")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    skin.write_in_area("marker", &Area::new(0, 0, 20, 5)).unwrap();
    std::process::abort();
}
''', run='out=$(ulimit -c 0; timeout 60 "$tmp/target/debug/demo" 2>/dev/null)\ncase "$out" in *marker*) exit 0;; *) echo "not displayed"; exit 1;; esac',
 needs="A process which doesn't flush stdout otherwise", breaks="write_in_area returns Ok before the text is displayed"),
dict(id="E04-a", property="E04",
 edits=[("src/fit/filling.rs", "cs.queue_str(w, &self.filling_string[0..sl * self.char_size])?;", "if cs.queue_str(w, &self.filling_string[0..sl * self.char_size]).is_err() {\n                break;\n            }")],
 demo='''
use termimad::*;
struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.iter().filter(|c| **c == b' ').count() > 10 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken")); }
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let cs = CompoundStyle::default();
    assert!(SPACE_FILLING.queue_styled(&mut W(0), &cs, 50).is_err(), "the error was swallowed");
}
''', needs="A writer failing while a filling is written", breaks="An IO error occuring while filling is lost: the call returns Ok"),
dict(id="E04-b", property="E04",
 edits=[("src/skin.rs", "write!(f, \"{}\", self.horizontal_rule.repeated(w))?;", "write!(f, \"{}\", self.horizontal_rule.repeated(w)).ok();")],
 demo='''
use termimad::*;
use std::fmt::Write;
struct W;
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.contains('-') { Err(std::fmt::Error) } else { Ok(()) }
    }
}
fn main() {
    let mut skin = MadSkin::no_style();
    skin.horizontal_rule.set_char('-');
    let text = skin.text("a\\n\\n---\\n\\nb", Some(10));
    assert!(write!(W, "{}", text).is_err(), "the error was swallowed");
}
''', needs="A destination failing while an horizontal rule is written", breaks="A formatting error is lost: part of the text is missing and the call succeeds"),
]
