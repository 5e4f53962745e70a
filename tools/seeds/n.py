N = "src/views/input_field_content.rs"
F = "src/views/input_field.rs"


def k(prop, n, edits, main, needs, breaks):
    return dict(id="%s-%s" % (prop, n), property=prop, edits=edits, demo="#![allow(unused)]\nuse termimad::*;\nfn main() {" + HEAD + main + "}\n", needs=needs, breaks=breaks)


FIELD = "    let mut f = InputField::new(Area::new(0, 0, 20, 4));\n    f.new_line_on(InputField::ALT_ENTER);\n"
HEAD = """
    let mk = |s: &str| {
        let mut c = InputField::new(Area::new(0, 0, 20, 4)).content().clone();
        c.insert_str(s);
        c
    };
    let at = |x: usize, y: usize| {
        let mut p = mk("").cursor_pos();
        p.x = x;
        p.y = y;
        p
    };
"""
SEEDS = [
k("I07", "a", [(N, "        } else if self.pos.y + 1 < self.content.lines.len() {\n", "        } else if self.pos.y + 1 < self.content.lines.len() && self.pos < self.end {\n")], '''
    let mut c = mk("ab\\ncd");
    c.set_cursor_pos(at(1, 0));
    c.set_selection_tail(at(2, 0));
    assert_eq!(c.selection_string(), "b\\n");
''', "a selection which ends after the last char of a line", "the line feed which deleting the selection removes isn't in the string of the selection"),
k("I07", "b", [(N, '''                (None, None) => {
                    return true;
                }
''', '''                (None, None) => {
                    return true;
                }
                (None, Some('\\n')) if ib.as_str().is_empty() => {
                    return true;
                }
''')], FIELD + '''
    f.set_str("ab");
    f.set_str("ab\\n");
    assert_eq!(f.get_content(), "ab\\n");
''', "a content set again with only a line feed more at the end", "the new content is taken for the one there is and isn't set"),
k("I07", "c", [(N, "            if lines.peek().is_some() {\n", "            if lines.peek().map_or(false, |l| !line.chars.is_empty() || !l.chars.is_empty()) {\n")], '''
    assert_eq!(mk("a\\n\\n\\nb").to_string(), "a\\n\\n\\nb");
''', "two empty lines in a row", "a line feed is lost when the content is read"),
k("I07", "d", [(N, '''        for c in s.as_ref().chars() {
            self.insert_char(c);
        }
''', '''        let s = s.as_ref();
        if !s.contains('\\n') {
            let x = self.pos.x;
            let chars = &mut self.lines[self.pos.y].chars;
            let before = chars.len();
            chars.splice(x..x, s.chars());
            self.pos.x += chars.len() - before;
            return;
        }
        for c in s.chars() {
            self.insert_char(c);
        }
''')], '''
    let c = mk("ab\\r");
    assert_eq!(c.to_string(), "ab");
    assert_eq!(mk("abc").to_string(), "abc");
''', "a string with a carriage return and no line feed", "the carriage return is put in the content"),
k("I07", "e", [(F, '''        let s = self.content.selection_string();
        self.content.del_selection();
''', '''        let mut s = self.content.selection_string();
        if s.ends_with('\\n') && s.len() > 1 {
            s.pop();
        }
        self.content.del_selection();
''')], FIELD + '''
    f.set_str("ab\\ncd");
    f.move_to_start();
    use termimad::crossterm::event::*;
    f.set_focus(true);
    f.apply_keycode_event(KeyCode::Right, true);
    f.apply_keycode_event(KeyCode::Right, true);
    assert_eq!(f.cut_selection(), "ab\\n");
    assert_eq!(f.get_content(), "cd");
''', "a selection which ends after the last char of its line", "pasting what was cut doesn't bring the text back"),
k("I08", "a", [(N, '''            if col <= sum_widths {
                return Some(idx);
            }
            sum_widths += InputFieldContent::char_width(c);
''', '''            sum_widths += InputFieldContent::char_width(c);
            if col < sum_widths {
                return Some(idx);
            }
''')], '''
    let c = mk("a\\tb");
    let l = c.line(0).unwrap();
    assert_eq!(l.col_to_char_idx(2), Some(2));
    assert_eq!(l.col_to_char_idx(1), Some(1));
''', "a column in the middle of a wide char or a tab", "the char of a column is the one before"),
k("I08", "b", [(N, "            _ => UnicodeWidthChar::width(c).unwrap_or(0),\n", "            _ => UnicodeWidthChar::width(c).unwrap_or(1),\n")], '''
    assert_eq!(mk("\\u{1b}").line(0).unwrap().width(), 0);
''', "a control char in the content", "the columns of the chars after it are wrong"),
k("I08", "c", [(N, '''        self.chars[0..idx]
            .iter()
            .map(|&c| InputFieldContent::char_width(c))
            .sum()
''', '''        self.chars[0..idx]
            .iter()
            .map(|&c| InputFieldContent::char_width(c).max(1))
            .sum()
''')], '''
    let c = mk("e\\u{301}a");
    assert_eq!(c.line(0).unwrap().char_idx_to_col(2), 1);
''', "chars of no width in the line", "the column of a char after one of no width is wrong"),
]
