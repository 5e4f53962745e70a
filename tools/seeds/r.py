SEEDS = [
dict(id="R01-a", property="R01",
 edits=[("src/skin.rs", "        if fc.kind == CompositeKind::Quote {\n            write!(f, \"{}\", self.quote_mark)?;\n            write!(f, \"{}\", self.paragraph.compound_style.apply_to(' '))?;\n        }",
  "        if fc.kind == CompositeKind::Quote {\n            write!(f, \"{}\", self.quote_mark)?;\n            if !fc.compounds.is_empty() {\n                write!(f, \"{}\", self.paragraph.compound_style.apply_to(' '))?;\n            }\n        }")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    // an empty quote line, completed to 10 columns in an area
    let fc = FmtComposite::from(minimad::Composite { style: minimad::CompositeStyle::Quote, compounds: vec![] }, &skin);
    let line = FmtLine::Normal(fc);
    let s = DisplayableLine::new(&skin, &line, Some(10)).to_string();
    assert_eq!(s.chars().count(), 10, "{:?}", s);
}
''', needs="An empty quote line completed on the right", breaks="an empty quote line is written one column short of the width asked for"),
dict(id="R01-b", property="R01",
 edits=[("src/skin.rs", "            self.paragraph.repeat_space(f, rpo + right_margin)?;", "            self.paragraph.repeat_space(f, rpo + left_margin)?;")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.paragraph.left_margin = 1;
    skin.paragraph.right_margin = 4;
    let fc = FmtComposite::from(minimad::Composite::from_inline("abc"), &skin);
    let line = FmtLine::Normal(fc);
    let s = DisplayableLine::new(&skin, &line, Some(20)).to_string();
    assert_eq!(s.chars().count(), 20, "{:?}", s);
}
''', needs="A line style whose left and right margins differ, with right completion", breaks="the right completion of a line with asymmetric margins has the wrong length"),
dict(id="R01-c", property="R01",
 edits=[("src/skin.rs", "                for _ in 0..depth + 1 {\n                    write!(f, \"{}\", self.paragraph.compound_style.apply_to(' '))?;", "                for _ in 0..(depth + 1).min(3) {\n                    write!(f, \"{}\", self.paragraph.compound_style.apply_to(' '))?;")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.list_items_indentation_mode = ListItemsIndentationMode::Block;
    let mut fc = FmtComposite::new();
    fc.kind = CompositeKind::ListItemFollowUp(3);
    fc.add_compound(minimad::Compound::raw_str("abc"));
    let s = FmtInline { skin: &skin, composite: fc }.to_string();
    assert_eq!(s, "     abc");
}
''', needs="The second line of a list item of level 3 in Block indentation mode", breaks="follow-up lines of deep list items aren't aligned with the item"),
dict(id="R02-a", property="R02",
 edits=[("src/skin.rs", "                        RelativePosition::Bottom => tbc.bottom_right_corner,", "                        RelativePosition::Bottom if rule.widths.len() == 1 => tbc.bottom_junction,\n                        RelativePosition::Bottom => tbc.bottom_right_corner,")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    let s = skin.text("|-:|\\n|a|\\n|-:|\\n", Some(30)).to_string();
    assert!(s.trim_end().ends_with('┘'), "{}", s);
}
''', needs="The bottom rule of a table of one column", breaks="a one column table ends with a junction"),
dict(id="R02-b", property="R02",
 edits=[("src/skin.rs", """                write!(f, "{}", self.table.compound_style.apply_to(tbc.vertical))?;
                if with_right_completion {
                    self.paragraph.repeat_space(f, rpo)?;""", """                write!(f, "{}", self.table.compound_style.apply_to(tbc.vertical))?;
                if with_right_completion {
                    self.paragraph.repeat_space(f, lpo)?;""")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    for w in [20, 21] {
        let text = skin.text("|-:|\\n|abc|\\n|-:|\\n", Some(w));
        for line in &text.lines {
            let s = DisplayableLine::new(&skin, line, Some(w)).to_string();
            assert_eq!(s.chars().count(), w, "{:?}", s);
        }
    }
}
''', needs="A centered table with an odd number of columns around it, displayed with right completion", breaks="the rows of the table don't fill the width"),
dict(id="R03-a", property="R03",
 edits=[("src/text.rs", "            self.skin.write_fmt_line(f, line, self.width, false)?;\n            writeln!(f)?;", "            self.skin.write_fmt_line(f, line, self.width, false)?;\n            if self.lines.len() > 1 || self.width.is_some() {\n                writeln!(f)?;\n            }")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    let s = FmtText::from(&skin, "abc", None).to_string();
    assert_eq!(s, "abc\\n");
}
''', needs="A text of one line without width", breaks="no newline after a single line"),
dict(id="R04-a", property="R04",
 edits=[("src/spacing.rs", "                (lp, outer_width - inner_width - lp)", "                (lp, lp + outer_width % 2)")],
 demo='''
use termimad::*;
fn main() {
    let (l, r) = Spacing::completions(minimad::Alignment::Center, 3, 8);
    assert_eq!(l + r, 5);
    let (l, r) = Spacing::completions(minimad::Alignment::Center, 3, 9);
    assert_eq!(l + r, 6);
}
''', needs="A centered content of odd width (in an even or odd available width)", breaks="the completions of a centered content don't fill the width"),
dict(id="R04-b", property="R04",
 edits=[("src/line_style.rs", "            if width < self.left_margin + self.right_margin + 3 {", "            if width < self.left_margin.max(self.right_margin) + 3 {")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.paragraph.left_margin = 5;
    skin.paragraph.right_margin = 5;
    let (l, r) = skin.paragraph.margins_in(Some(11));
    assert!(l + r + 3 <= 11);
}
''', needs="Two margins, and a width which fits one but not both", breaks="margins are kept when there's no room for them"),
dict(id="R05-a", property="R05",
 edits=[("src/fit/wrap.rs", "        CompositeKind::ListItemFollowUp(l)\n            if skin.list_items_indentation_mode == ListItemsIndentationMode::Block =>\n        {\n            2 + l as usize\n        }",
  "        CompositeKind::ListItemFollowUp(_)\n            if skin.list_items_indentation_mode == ListItemsIndentationMode::Block =>\n        {\n            2\n        }")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.list_items_indentation_mode = ListItemsIndentationMode::Block;
    for w in 8..30 {
        let text = skin.text("  * aaa bbb ccc ddd eee fff ggg hhh iii jjj kkk lll mmm\\n", Some(w));
        for line in text.to_string().lines() {
            assert!(line.trim_end().chars().count() <= w, "{} {:?}", w, line);
        }
    }
}
''', needs="A wrapped list item of level 1 or more in Block indentation mode, and words ending just at the limit", breaks="follow-up lines are wider than the width asked for"),
dict(id="R05-b", property="R05",
 edits=[("src/composite.rs", "        self.visible_length += compound.src.width();", "        self.visible_length += compound.src.chars().count();")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    let mut fc = FmtComposite::new();
    fc.add_compound(minimad::Compound::raw_str("概要"));
    assert_eq!(fc.visible_length, 4);
    let _ = skin;
}
''', needs="A compound with double width chars", breaks="visible_length isn't the width of the composite"),
dict(id="R06-a", property="R06",
 edits=[("src/styled_char.rs", "        let mut s = String::new();\n        for _ in 0..count {\n            s.push(self.nude_char);\n        }\n        self.compound_style.queue(w, s)", "        let mut s = String::with_capacity(count * self.nude_char.len_utf8());\n        while s.len() < count {\n            s.push(self.nude_char);\n        }\n        self.compound_style.queue(w, s)")],
 demo='''
use termimad::*;
fn main() {
    let sc = StyledChar::nude('─');
    let mut v = Vec::new();
    sc.queue_repeat(&mut v, 7).unwrap();
    let s = String::from_utf8(v).unwrap();
    assert_eq!(s.chars().filter(|c| *c == '─').count(), 7);
}
''', needs="A char of several bytes", breaks="queue_repeat writes the char too few times"),
dict(id="R06-b", property="R06",
 edits=[("src/spacing.rs", "        if str_width >= self.width {", "        if str_width > self.width {"), ("src/spacing.rs", "            let (lp, rp) = self.completions_for(str_width);", "            let (lp, rp) = Spacing::completions(self.align, str_width.min(self.width - 1), self.width);")],
 demo='''
use termimad::*;
fn main() {
    let mut v = Vec::new();
    let sp = Spacing { width: 4, align: minimad::Alignment::Left };
    sp.write_str(&mut v, "abcd", &CompoundStyle::default()).unwrap();
    assert_eq!(String::from_utf8(v).unwrap(), "abcd");
}
''', needs="A string whose width is exactly the width of the spacing", breaks="a string which just fits is written with a space too many"),
]
