TV = "src/views/text_view.rs"
MV = "src/views/mad_view.rs"
AR = "src/area.rs"
RC = "src/rect.rs"
IF = "src/views/input_field.rs"
TEXT = '''
use termimad::*;
fn text(n: usize) -> FmtText<'static, 'static> {
    let skin: &'static MadSkin = Box::leak(Box::new(MadSkin::default()));
    let src: String = (0..n).map(|i| format!("L{}\\n", i)).collect::<String>();
    let src: &'static str = Box::leak(src.trim_end().to_string().into_boxed_str());
    FmtText::from(skin, src, Some(60))
}
fn show(f: impl Fn(&mut Vec<u8>)) -> String {
    let mut w = Vec::new();
    f(&mut w);
    String::from_utf8(w).unwrap()
}
'''
SEEDS = [
dict(id="V01-a", property="V01",
 edits=[(TV, "        if self.scroll + 2 * page_height < content_height {", "        if self.scroll + page_height + 1 < content_height {")],
 demo=TEXT + '''
fn main() {
    let area = Area::new(0, 0, 60, 10);
    let t = text(25);
    let mut v = TextView::from(&area, &t);
    assert!(v.page_down());
    assert!(v.page_down());
    assert_eq!(v.scroll, 15);
}
''', needs="page_down when the rest is more than a line but less than a page", breaks="the view scrolls past the last page"),
dict(id="V01-b", property="V01",
 edits=[(TV, "        if self.scroll > page_height {\n            self.scroll -= page_height;\n            true\n        } else if self.scroll > 0 {",
         "        if self.scroll > page_height {\n            self.scroll -= page_height;\n            true\n        } else if self.scroll > 1 {")],
 demo=TEXT + '''
fn main() {
    let area = Area::new(0, 0, 60, 10);
    let t = text(25);
    let mut v = TextView::from(&area, &t);
    v.scroll = 1;
    assert!(v.page_up());
    assert_eq!(v.scroll, 0);
}
''', needs="page_up with a scroll of exactly one line", breaks="the first line can't be reached with page up"),
dict(id="V01-c", property="V01",
 edits=[(MV, "        if text_view.apply_key_combination(key) {\n            self.scroll = text_view.scroll;\n            true\n        } else {\n            false\n        }",
         "        let changed = text_view.apply_key_combination(key);\n        self.scroll = text_view.scroll;\n        changed || self.scroll != text_view.scroll"),
        (TV, "            self.scroll = content_height - page_height;\n            true\n        } else {\n            false",
         "            self.scroll = content_height - page_height;\n            true\n        } else {\n            self.scroll = content_height.saturating_sub(page_height + 1);\n            false")],
 demo=TEXT + '''
fn main() {
    let area = Area::new(0, 0, 60, 10);
    let t = text(25);
    let mut v = TextView::from(&area, &t);
    v.set_scroll(15);
    assert!(!v.page_down());
    assert_eq!(v.scroll, 15);
}
''', needs="page_down at the end of the text", breaks="the view goes up one line while telling nothing changed"),
dict(id="V02-a", property="V02",
 edits=[(AR, "        scrollbar_bottom = scrollbar_bottom\n            .min(top + available_height - 2)", "        scrollbar_bottom = scrollbar_bottom\n            .min(top + available_height - 1)")],
 demo='''
use termimad::*;
fn main() {
    for h in 4..30u16 {
        for content in (h + 1)..200 {
            for scroll in 0..(content - h) {
                let (a, b) = compute_scrollbar(scroll, content, h, 5u16).unwrap();
                assert!(a <= b);
                assert!(b < 5 + h - 1 || a == b, "{} {} {}: {:?}", h, content, scroll, (a, b));
            }
        }
    }
}
''', needs="A scroll close to the end, but not at the end", breaks="the thumb shows the end is reached when it isn't"),
dict(id="V02-b", property="V02",
 edits=[(AR, "        compute_scrollbar(scroll, content_height, self.height, self.top)", "        compute_scrollbar(scroll, content_height, self.height - self.height / 40, self.top)")],
 demo='''
use termimad::*;
fn main() {
    let a = Area::new(0, 2, 20, 50);
    assert!(a.scrollbar(0u16, 50).is_none());
}
''', needs="An area of at least 40 rows", breaks="a scrollbar when the content fits"),
dict(id="V03-a", property="V03",
 edits=[(RC, "                if area.width > 2 {\n                    SPACE_FILLING.queue_styled(w, cs, area.width as usize - 2)?;\n                }",
         "                if area.width > 3 {\n                    SPACE_FILLING.queue_styled(w, cs, area.width as usize - 2)?;\n                }")],
 demo='''
use termimad::*;
fn main() {
    let mut r = Rect::new(Area::new(0, 0, 3, 3), CompoundStyle::default());
    r.set_border_style(BORDER_STYLE_MIDDLE_SQUARE_LINE);
    r.set_fill(true);
    let mut w = Vec::new();
    r.draw(&mut w).unwrap();
    let s = String::from_utf8(w).unwrap();
    let row = s.split("\\u{1b}[2;1H").nth(1).unwrap().split("\\u{1b}[3").next().unwrap();
    assert_eq!(row.chars().filter(|c| !c.is_control()).count(), 3, "{:?}", row);
}
''', needs="A filled rectangle of exactly 3 columns", breaks="the right border is drawn over the inside"),
dict(id="V03-b", property="V03",
 edits=[(TV, "        let mut lines = self.text.lines.iter().skip(self.scroll);", "        let mut lines = self\n            .text\n            .lines\n            .iter()\n            .skip(self.scroll.min(u16::MAX as usize / 64));")],
 demo=TEXT + '''
fn main() {
    let area = Area::new(0, 0, 60, 5);
    let t = text(3000);
    let mut v = TextView::from(&area, &t);
    v.set_scroll(2000);
    let s = show(|w| v.write_on(w).unwrap());
    assert!(s.contains("L2000"), "{:?}", s);
}
''', needs="A scroll of more than 1023 lines", breaks="the wrong lines are shown"),
dict(id="V03-c", property="V03",
 edits=[(TV, "                if sctop <= y && y <= scbottom {", "                if sctop <= j && y <= scbottom {")],
 demo=TEXT + '''
fn main() {
    let t = text(100);
    let rows = |top: u16| {
        let area = Area::new(0, top, 60, 10);
        let v = TextView::from(&area, &t);
        let s = show(|w| v.write_on(w).unwrap());
        let mut rows = Vec::new();
        let mut rest = s.as_str();
        for i in 0..10 {
            let m = format!("\\u{1b}[{};1H", top + i + 1);
            let (row, after) = rest.split_once(m.as_str()).unwrap();
            rows.push(row.to_string());
            rest = after;
        }
        rows.push(rest.to_string());
        rows
    };
    assert_eq!(rows(0), rows(7));
}
''', needs="An area which isn't at the top of the screen", breaks="the thumb isn't drawn where it should"),
dict(id="V04-a", property="V04",
 edits=[(IF, "                        if !is_last || displayed_width + char_width > width {", "                        if !is_last || displayed_width + char_width > width + 1 {")],
 demo='''
use termimad::*;
fn main() {
    let mut f = InputField::new(Area::new(0, 0, 6, 1));
    f.set_str("abcde日");
    f.move_to_start();
    let mut w = Vec::new();
    f.display_on(&mut w).unwrap();
    let s = String::from_utf8(w).unwrap();
    assert!(!s.contains("日"), "{:?}", s);
}
''', needs="A wide char as last char of the line, crossing the end of the area", breaks="it's written over the limit of the area"),
dict(id="V04-b", property="V04",
 edits=[(IF, "                    let c = if self.password_mode { '*' } else { *c };", "                    let c = if self.password_mode && !c.is_whitespace() { '*' } else { *c };")],
 demo='''
use termimad::*;
fn main() {
    let show = |s: &str| {
        let mut f = InputField::new(Area::new(0, 0, 20, 1));
        f.password_mode = true;
        f.set_str(s);
        let mut w = Vec::new();
        f.display_on(&mut w).unwrap();
        w
    };
    assert_eq!(show("my pass word"), show("my_pass_word"));
}
''', needs="A password with spaces", breaks="the spaces of the password are shown"),
dict(id="V04-c", property="V04",
 edits=[(IF, "        if scrollbar.is_some() {\n            width -= 1;", "        if scrollbar.is_some() && width > 8 {\n            width -= 1;")],
 demo='''
use termimad::*;
fn main() {
    let mut f = InputField::new(Area::new(0, 0, 6, 2));
    f.new_line_on(InputField::ENTER);
    f.set_str("a\\nb\\nc\\nd");
    let mut w = Vec::new();
    f.display_on(&mut w).unwrap();
    let s = String::from_utf8(w).unwrap();
    let row = s.split("\\u{1b}[2;1H").nth(1).unwrap();
    let mut n = 0;
    let mut esc = false;
    for c in row.chars() {
        if c == '\\u{1b}' { esc = true; }
        else if esc { if c.is_ascii_alphabetic() { esc = false; } }
        else { n += 1; }
    }
    assert_eq!(n, 6, "{:?}", s);
}
''', needs="A narrow field of several lines with a scrollbar", breaks="the scrollbar is drawn out of the area"),
]
