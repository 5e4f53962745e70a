IC = "src/views/input_field_content.rs"
SEEDS = [
dict(id="I01-a", property="I01", edits=[(IC, '''                if self.pos.x == 0 || !chars[self.pos.x - 1].is_alphanumeric() {
                    break;
                }
            }
            self.fix_selection();
            true
        } else {
            false
        }
    }
    /// Delete the word rigth''', '''                if self.pos.x == 0 || !chars[self.pos.x - 1].is_alphanumeric() {
                    break;
                }
            }
            true
        } else {
            false
        }
    }
    /// Delete the word rigth''')],
 demo='''
use termimad::*;
macro_rules! content {
    ($s:expr) => {{
        let mut c = InputField::default().content().clone();
        c.clear();
        c.insert_str($s);
        c
    }};
}
#[allow(unused_macros)]
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
fn main() {
    let mut c = content!("one two");
    c.set_selection_tail(c.end());
    c.move_word_left();
    c.move_right();
    c.move_right();
    c.move_right();
    c.del_word_left();
    let s = c.selection();
    for p in [s.min, s.max] {
        assert!(p.x <= c.line(p.y).unwrap().chars.len());
    }
    c.del_selection();
}
''', needs="a selection whose other end is at the end of the line, when the word before the cursor is deleted",
 breaks="the selection is left after the end of the line, and deleting it panics"),
dict(id="I01-b", property="I01", edits=[(IC, "        if pos.y >= self.lines.len() {\n            self.end()\n        } else {\n            pos.x = pos.x",
 "        if pos.y > self.lines.len() {\n            self.end()\n        } else {\n            pos.x = pos.x")],
 demo='''
use termimad::*;
macro_rules! content {
    ($s:expr) => {{
        let mut c = InputField::default().content().clone();
        c.clear();
        c.insert_str($s);
        c
    }};
}
#[allow(unused_macros)]
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
fn main() {
    let mut c = content!("a\\nbc");
    c.set_cursor_pos(pos!(c, 0, 2));
    assert_eq!(c.cursor_pos(), pos!(c, 2, 1));
}
''', needs="a position on the line just after the last one", breaks="setting the cursor there panics"),
dict(id="I01-c", property="I01", edits=[(IC, "            self.pos.y += lines.min(self.lines.len() - self.pos.y - 1);", "            self.pos.y += lines.min(self.lines.len() - self.pos.y.max(1));")],
 demo='''
use termimad::*;
macro_rules! content {
    ($s:expr) => {{
        let mut c = InputField::default().content().clone();
        c.clear();
        c.insert_str($s);
        c
    }};
}
#[allow(unused_macros)]
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
fn main() {
    let mut c = content!("a\\nbc\\nd");
    c.move_to_start();
    c.move_down();
    assert!(c.move_lines_down(10));
    assert_eq!(c.cursor_pos().y, 2);
}
''', needs="moving down from another line than the first by more lines than there are", breaks="the cursor goes after the last line, panic"),
dict(id="I02-a", property="I02", edits=[(IC, '''            let cols = self.lines[self.pos.y].char_idx_to_col(self.pos.x);
            self.pos.y -= lines''', '''            let cols = self.pos.x;
            self.pos.y -= lines''')],
 demo='''
use termimad::*;
macro_rules! content {
    ($s:expr) => {{
        let mut c = InputField::default().content().clone();
        c.clear();
        c.insert_str($s);
        c
    }};
}
#[allow(unused_macros)]
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
fn main() {
    let mut c = content!("abcdefgh\\n\\u{65e5}\\u{672c}\\u{8a9e}");
    c.move_up();
    assert_eq!(c.cursor_pos(), pos!(c, 6, 0));
}
''', needs="wide chars before the cursor, on the line it leaves", breaks="the cursor moves up to another column"),
dict(id="I02-b", property="I02", edits=[(IC, "self.pos.x < self.lines[self.pos.y].chars.len() || self.pos.y < self.lines.len() - 1", "self.pos != self.end() && self.pos.y < self.lines.len() && self.pos.x <= self.lines[self.lines.len() - 1].chars.len()")],
 demo='''
use termimad::*;
macro_rules! content {
    ($s:expr) => {{
        let mut c = InputField::default().content().clone();
        c.clear();
        c.insert_str($s);
        c
    }};
}
#[allow(unused_macros)]
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
fn main() {
    let mut c = content!("abcdef\\n\\n");
    c.move_to_start();
    c.move_to_line_end();
    assert!(c.can_move_right());
    assert!(c.move_right());
}
''', needs="a cursor further than the length of the last line", breaks="can_move_right tells the cursor can't move while it can"),
dict(id="I02-c", property="I02", edits=[(IC, '''        } else if self.pos.y > 0 {
            self.pos.y -= 1;
            self.pos.x = self.lines[self.pos.y].chars.len();
            true
        } else {
            false
        }
    }
    pub fn move_to_end''', '''        } else if self.pos.y > 0 {
            self.pos.x = self.lines[self.pos.y - 1].chars.len().saturating_sub(self.pos.y - 1).max(self.lines[self.pos.y - 1].chars.len().min(1));
            self.pos.y -= 1;
            true
        } else {
            false
        }
    }
    pub fn move_to_end''')],
 demo='''
use termimad::*;
macro_rules! content {
    ($s:expr) => {{
        let mut c = InputField::default().content().clone();
        c.clear();
        c.insert_str($s);
        c
    }};
}
#[allow(unused_macros)]
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
fn main() {
    let mut c = content!("ab\\ncd\\n");
    assert!(c.move_left());
    assert_eq!(c.cursor_pos(), pos!(c, 2, 1));
}
''', needs="moving left from the start of the third line or of a following one", breaks="the cursor isn't at the end of the previous line"),
dict(id="I03-a", property="I03", edits=[(IC, '''            self.pos.y -= 1;
            self.pos.x = self.lines[self.pos.y].chars.len();
            self.lines[self.pos.y].chars.append(&mut removed_line.chars);
''', '''            self.pos.y -= 1;
            self.lines[self.pos.y].chars.append(&mut removed_line.chars);
            self.pos.x = self.lines[self.pos.y].chars.len();
''')],
 demo='''
use termimad::*;
macro_rules! content {
    ($s:expr) => {{
        let mut c = InputField::default().content().clone();
        c.clear();
        c.insert_str($s);
        c
    }};
}
#[allow(unused_macros)]
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
fn main() {
    let mut c = content!("ab\\ncd");
    c.move_to_line_start();
    c.del_char_left();
    c.insert_char('x');
    assert!(c.is_str("abxcd"));
}
''', needs="joining a line which isn't empty to the previous one", breaks="the cursor is at the end of the joined lines instead of between them"),
dict(id="I03-b", property="I03", edits=[(IC, "        } else if c == '\\r' || c == '\\x08' {\n            // skipping", "        } else if c == '\\r' {\n            // skipping")],
 demo='''
use termimad::*;
macro_rules! content {
    ($s:expr) => {{
        let mut c = InputField::default().content().clone();
        c.clear();
        c.insert_str($s);
        c
    }};
}
#[allow(unused_macros)]
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
fn main() {
    let mut c = content!("");
    c.insert_str("ab\\u{8}c\\r\\n");
    assert!(c.is_str("abc\\n"));
}
''', needs="a backspace char in an inserted text", breaks="control chars end up in the text"),
dict(id="I03-c", property="I03", edits=[(IC, '''        self.pos.y += 1;
        self.lines.insert(self.pos.y, new_line);
''', '''        self.pos.y += 1;
        if self.pos.y + 1 < self.lines.len() {
            self.lines.insert(self.pos.y, new_line);
        } else {
            self.lines.push(new_line);
        }
''')],
 demo='''
use termimad::*;
macro_rules! content {
    ($s:expr) => {{
        let mut c = InputField::default().content().clone();
        c.clear();
        c.insert_str($s);
        c
    }};
}
#[allow(unused_macros)]
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
fn main() {
    let mut c = content!("ab\\ncd");
    c.move_to_start();
    c.move_right();
    c.insert_new_line();
    assert!(c.is_str("a\\nb\\ncd"));
}
''', needs="a new line inserted in the line before the last one", breaks="the end of the broken line goes to the end of the text"),
dict(id="I04-a", property="I04", edits=[(IC, "            if max.x == self.lines[min.y].chars.len() {", "            if max.x + 1 >= self.lines[min.y].chars.len() {")],
 demo='''
use termimad::*;
macro_rules! content {
    ($s:expr) => {{
        let mut c = InputField::default().content().clone();
        c.clear();
        c.insert_str($s);
        c
    }};
}
#[allow(unused_macros)]
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
fn main() {
    let mut c = content!("ab\\ncd");
    c.move_to_start();
    c.set_selection_tail(pos!(c, 1, 0));
    c.del_selection();
    assert!(c.is_str("\\ncd"));
}
''', needs="a selection of all the chars of a line, without its end", breaks="the line itself is removed with the chars"),
dict(id="I04-c", property="I04", edits=[(IC, "            if sel_tail < self.pos {", "            if sel_tail.y < self.pos.y || sel_tail.x < self.pos.x {")],
 demo='''
use termimad::*;
macro_rules! content {
    ($s:expr) => {{
        let mut c = InputField::default().content().clone();
        c.clear();
        c.insert_str($s);
        c
    }};
}
#[allow(unused_macros)]
macro_rules! pos {
    ($c:expr, $x:expr, $y:expr) => {{
        let mut p = $c.cursor_pos();
        p.x = $x;
        p.y = $y;
        p
    }};
}
fn main() {
    let mut c = content!("abc\\nd");
    c.set_cursor_pos(pos!(c, 2, 0));
    c.set_selection_tail(pos!(c, 0, 1));
    let s = c.selection();
    assert_eq!(s.min, pos!(c, 2, 0));
    c.del_selection();
    assert!(c.is_str("ab"));
}
''', needs="a selection starting at the cursor, ending on another line at a smaller column",
 breaks="the ends of the selection are exchanged"),
]
IFF = "src/views/input_field.rs"
SEEDS += [
dict(id="I05-a", property="I05", edits=[(IFF, '''        if self.content.move_lines_down(self.area.height as usize) {
            self.fix_scroll();
            true''', '''        if self.content.move_lines_down(self.area.height as usize) {
            self.scroll_down();
            true''')],
 demo='''
use termimad::*;
fn main() {
    let mut f = InputField::new(Area::new(0, 0, 20, 3));
    f.set_str("a\\nb\\nc\\nd\\ne\\nf\\ng\\nh");
    f.move_to_start();
    f.page_down();
    let y = f.content().cursor_pos().y;
    assert_eq!(y, 3);
    assert!(f.scroll().y <= y && y < f.scroll().y + 3);
    f.page_down();
    let y = f.content().cursor_pos().y;
    assert!(f.scroll().y <= y && y < f.scroll().y + 3);
}
''', needs="several pages down", breaks="the cursor goes out of the field"),
dict(id="I05-b", property="I05", edits=[(IFF, '''                    if wpx < self.scroll.x + 2 {
                        if wpx < 2 {''', '''                    if wpx < self.scroll.x {
                        if wpx < 2 {''')],
 demo='''
use termimad::*;
fn main() {
    let mut f = InputField::new(Area::new(0, 0, 10, 1));
    f.set_str("abcdefghijklmnopqrstuvwxyz");
    for _ in 0..26 {
        f.move_left();
        let x = f.content().cursor_pos().x;
        let s = f.scroll().x;
        assert!(s == 0 || x > s, "cursor {x} scroll {s}");
    }
}
''', needs="moving left in a long line until the cursor is on the first column", breaks="the cursor is hidden by the ellipsis"),
dict(id="I05-c", property="I05", edits=[(IFF, '''        self.focused = b;
        // there's no reason to change the scroll when unfocusing
        if self.focused {
            self.fix_scroll();
        }''', '''        // there's no reason to change the scroll when unfocusing
        if b {
            self.fix_scroll();
        }
        self.focused = b;''')],
 demo='''
use termimad::*;
fn main() {
    let mut f = InputField::new(Area::new(0, 0, 20, 3));
    f.set_focus(false);
    f.set_str("a\\nb\\nc\\nd\\ne\\nf\\ng\\nh");
    f.set_focus(true);
    let y = f.content().cursor_pos().y;
    assert!(f.scroll().y <= y && y < f.scroll().y + 3);
}
''', needs="a text set while the field isn't focused, which is focused later", breaks="the cursor isn't in view when the field gets the focus"),
dict(id="I05-d", property="I05", edits=[(IFF, '''            if self.scroll.y + height > lines.len() {
                self.scroll.y = lines.len() - height;
            }
            if self.focused {''', '''            if self.focused {''')],
 demo='''
use termimad::*;
fn main() {
    let mut f = InputField::new(Area::new(0, 0, 20, 4));
    f.set_str("a\\nb\\nc\\nd\\ne\\nf\\ng\\nh");
    f.del_char_left();
    f.del_char_left();
    f.del_char_left();
    f.move_up();
    let n = f.content().line_count();
    assert!(f.scroll().y + 4 <= n, "{:?} {n}", f.scroll());
}
''', needs="lines removed at the end of a scrolled text", breaks="the field is scrolled after the end of its text"),
]
KEYS = '''
use termimad::*;
use termimad::crossterm::event::*;
#[allow(dead_code)]
fn key(code: KeyCode, modifiers: KeyModifiers) -> Event {
    Event::Key(KeyEvent::new(code, modifiers))
}
'''
SEEDS += [
dict(id="I06-a", property="I06", edits=[(IFF, "                } else if *modifiers == KeyModifiers::SHIFT {", "                } else if modifiers.contains(KeyModifiers::SHIFT) {")],
 demo=KEYS + '''
fn main() {
    let mut f = InputField::new(Area::new(0, 0, 20, 1));
    f.set_str("one two");
    assert!(!f.apply_event(&key(KeyCode::Left, KeyModifiers::SHIFT | KeyModifiers::CONTROL), false));
    assert_eq!(f.content().cursor_pos().x, 7);
}
''', needs="a key with shift and another modifier", breaks="the field uses a key combination which isn't for it"),
dict(id="I06-b", property="I06", edits=[(IFF, '''                let y = ((y - self.area.top) as usize + self.scroll.y)
                    .min(self.content.line_count() - 1);''', '''                let y = ((y - self.area.top) as usize)
                    .min(self.content.line_count() - 1);''')],
 demo=KEYS + '''
fn main() {
    let mut f = InputField::new(Area::new(0, 0, 20, 3));
    f.set_str("a\\nb\\nc\\nd\\ne\\nf");
    let top = f.scroll().y;
    assert_eq!(top, 3);
    assert!(f.apply_click_event(0, 1));
    assert_eq!(f.content().cursor_pos().y, 4);
}
''', needs="a click in a scrolled field", breaks="the cursor goes to a line which isn't under the pointer"),
dict(id="I06-c", property="I06", edits=[(IFF, '''        if self.content.has_wide_selection() {
            self.content.del_selection();
        }
        self.content.insert_str(s);''', '''        if self.content.has_selection() {
            self.content.del_selection();
        }
        self.content.insert_str(s);''')],
 demo=KEYS + '''
fn main() {
    let mut f = InputField::new(Area::new(0, 0, 20, 1));
    f.set_str("abc");
    f.move_to_line_start();
    f.apply_event(&key(KeyCode::Left, KeyModifiers::SHIFT), false);
    f.replace_selection("x");
    assert_eq!(f.get_content(), "xabc");
}
''', needs="a selection started without moving, then a replacement", breaks="pasting removes a char which isn't selected"),
dict(id="I06-d", property="I06", edits=[(IFF, "        if self.scroll.y + height < lines_len {", "        if self.scroll.y < lines_len.saturating_sub(height.min(4)) {")],
 demo=KEYS + '''
fn main() {
    let mut f = InputField::new(Area::new(0, 0, 20, 6));
    f.set_str("a\\nb\\nc\\nd\\ne\\nf\\ng\\nh");
    while f.scroll_up() {}
    for _ in 0..10 {
        f.scroll_down();
    }
    assert_eq!(f.scroll().y, 2);
}
''', needs="scrolling down to the end in a field of more than 4 rows", breaks="the field is scrolled after the last line"),
]
