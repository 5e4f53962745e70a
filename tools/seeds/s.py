SEEDS = [
dict(id="S01-a", property="S01",
 edits=[("src/scrollbar_style.rs", "        self.track.set_bg(bg);\n        self.thumb.set_bg(bg);", "        self.track.set_bg(bg);\n        if self.thumb != self.track {\n            return;\n        }\n        self.thumb.set_bg(bg);")],
 demo='''
use termimad::*;
use termimad::crossterm::style::Color;
fn main() {
    let mut skin = MadSkin::default();
    skin.set_bg(Color::Blue);
    assert_eq!(skin.scrollbar.track.get_bg(), Some(Color::Blue));
    assert_eq!(skin.scrollbar.thumb.get_bg(), Some(Color::Blue));
}
''', needs="A scrollbar whose track and thumb differ (as in the default skin)", breaks="set_bg leaves the thumb of the scrollbar with its old background"),
dict(id="S01-b", property="S01",
 edits=[("src/skin.rs", "    pub fn set_headers_fg(&mut self, c: Color) {\n        for h in &mut self.headers {\n            h.set_fg(c);", "    pub fn set_headers_fg(&mut self, c: Color) {\n        for h in self.headers.iter_mut().take(MAX_HEADER_DEPTH - 1) {\n            h.set_fg(c);")],
 demo='''
use termimad::*;
use termimad::crossterm::style::Color;
fn main() {
    let mut skin = MadSkin::default();
    skin.set_headers_fg(Color::Red);
    for h in &skin.headers {
        assert_eq!(h.compound_style.get_fg(), Some(Color::Red));
    }
}
''', needs="A header of the deepest level (8)", breaks="set_headers_fg (and set_fg) skip the last header level"),
dict(id="S02-a", property="S02",
 edits=[("src/styled_char.rs", "    pub fn set_bg(&mut self, color: Color) {\n        self.compound_style.set_bg(color);\n        self.styled_char = self.compound_style.apply_to(self.nude_char);",
         "    pub fn set_bg(&mut self, color: Color) {\n        if self.compound_style.get_bg().is_none() {\n            self.compound_style.set_bg(color);\n            return;\n        }\n        self.compound_style.set_bg(color);\n        self.styled_char = self.compound_style.apply_to(self.nude_char);")],
 demo='''
use termimad::*;
use termimad::crossterm::style::Color;
fn main() {
    let mut sc = StyledChar::nude('x');
    sc.set_bg(Color::Red);
    let fresh = StyledChar::new(CompoundStyle::with_bg(Color::Red), 'x');
    assert_eq!(format!("{sc}"), format!("{fresh}"));
}
''', needs="set_bg on a styled char without background, which is then displayed", breaks="The displayed char keeps no background: the cache isn't refreshed"),
dict(id="S02-b", property="S02",
 edits=[("src/styled_char.rs", "        Self {\n            nude_char,\n            styled_char: compound_style.apply_to(nude_char),\n            compound_style,\n        }",
         "        // the underline of a blank would look bad\n        let mut displayed = compound_style.clone();\n        if nude_char == ' ' {\n            displayed.remove_attr(crossterm::style::Attribute::Underlined);\n        }\n        Self {\n            nude_char,\n            styled_char: displayed.apply_to(nude_char),\n            compound_style,\n        }"),
        ("src/styled_char.rs", "    crate::{", "    crate::{\n        crossterm,")],
 demo='''
use termimad::*;
use termimad::crossterm::style::{Attribute, Color};
fn main() {
    let mut cs = CompoundStyle::with_fg(Color::Red);
    cs.add_attr(Attribute::Underlined);
    let sc = StyledChar::new(cs.clone(), ' ');
    assert_eq!(format!("{sc}"), format!("{}", cs.apply_to(' ')));
}
''', needs="A blank styled char with an underlined style", breaks="The char is written with another style than its own"),
dict(id="S03-a", property="S03",
 edits=[("src/compound_style.rs", "        self.object_style.background_color = other\n            .object_style\n            .background_color\n            .or(self.object_style.background_color);",
         "        self.object_style.background_color = self\n            .object_style\n            .background_color\n            .or(other.object_style.background_color);")],
 demo='''
use termimad::*;
use termimad::crossterm::style::Color;
fn main() {
    let mut a = CompoundStyle::with_bg(Color::Red);
    a.overwrite_with(&CompoundStyle::with_bg(Color::Blue));
    assert_eq!(a.get_bg(), Some(Color::Blue));
}
''', needs="Overwriting a style having a background with another background", breaks="overwrite_with doesn't replace an existing background"),
dict(id="S03-b", property="S03",
 edits=[("src/line_style.rs", "    fn from(compound_style: CompoundStyle) -> Self {\n        Self {\n            compound_style,\n            align: Alignment::Unspecified,", "    fn from(compound_style: CompoundStyle) -> Self {\n        Self {\n            compound_style,\n            align: Alignment::Left,")],
 demo='''
use termimad::*;
use termimad::minimad::Alignment;
fn main() {
    let ls: LineStyle = CompoundStyle::default().into();
    assert!(matches!(ls.align, Alignment::Unspecified));
    assert_eq!(ls, LineStyle::new(CompoundStyle::default(), Alignment::Unspecified));
}
''', needs="A line style made from a compound style", breaks="The conversion sets an alignment"),
dict(id="S04-a", property="S04",
 edits=[("src/skin.rs", "        if compound.code {\n            os.overwrite_with(&self.inline_code);\n        }\n        os", "        if compound.code && !compound.strikeout {\n            os.overwrite_with(&self.inline_code);\n        }\n        os")],
 demo='''
use termimad::*;
use termimad::crossterm::style::Color;
use termimad::minimad::Compound;
fn main() {
    let mut skin = MadSkin::default();
    skin.inline_code = CompoundStyle::with_fg(Color::Red);
    let style = skin.compound_style(&skin.paragraph, &Compound::raw_str("a").code().strikeout());
    assert_eq!(style.get_fg(), Some(Color::Red));
}
''', needs="A compound both inline code and strikeout", breaks="Struck out code loses the code style"),
dict(id="S04-b", property="S04",
 edits=[("src/skin.rs", "            CompositeKind::Header(level) if level <= MAX_HEADER_DEPTH as u8 => {", "            CompositeKind::Header(level) if level < MAX_HEADER_DEPTH as u8 => {")],
 demo='''
use termimad::*;
use termimad::crossterm::style::Color;
fn main() {
    let mut skin = MadSkin::default();
    skin.headers[7].set_fg(Color::Red);
    let kind = CompositeKind::Header(8);
    assert_eq!(skin.line_style(kind).compound_style.get_fg(), Some(Color::Red));
}
''', needs="A header of level 8", breaks="The deepest headers get the paragraph style"),
dict(id="S05-a", property="S05",
 edits=[("src/skin.rs", "        for h in &mut self.headers {\n            h.blend_with(color, weight);\n        }\n        self.bullet.blend_with(color, weight);", "        for h in self.headers.iter_mut().filter(|h| **h != self.paragraph) {\n            h.blend_with(color, weight);\n        }\n        self.bullet.blend_with(color, weight);")],
 demo='''
use termimad::*;
use termimad::crossterm::style::Color;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.headers[4].set_fg(rgb(0, 0, 0));
    skin.paragraph.set_fg(rgb(100, 100, 100));
    // once blended the paragraph has the style of the header
    let mut other = skin.clone();
    other.paragraph.blend_with(rgb(250, 250, 250), 0.0);
    let before = other.paragraph.compound_style.clone();
    skin.headers[4].compound_style = before;
    let mut wanted = skin.headers[4].clone();
    wanted.blend_with(rgb(250, 250, 250), 0.5);
    let mut p = skin.paragraph.clone();
    p.blend_with(rgb(250, 250, 250), 0.5);
    skin.headers[4].compound_style = p.compound_style.clone();
    let mut wanted = skin.headers[4].clone();
    wanted.blend_with(rgb(250, 250, 250), 0.5);
    skin.blend_with(rgb(250, 250, 250), 0.5);
    assert_eq!(skin.headers[4], wanted);
    let _ = Color::Red;
}
''', needs="A header whose style equals the blended paragraph style", breaks="Headers looking like the blended paragraph aren't blended"),
dict(id="S05-b", property="S05",
 edits=[("src/compound_style.rs", "            *bg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();", "            *bg = coolor::Color::blend(dest, 1.0 - weight, src, weight).into();")],
 demo='''
use termimad::*;
fn main() {
    let mut cs = CompoundStyle::with_bg(rgb(10, 20, 30));
    cs.blend_with(rgb(250, 250, 250), 0.1);
    let Some(crossterm::style::Color::Rgb { r, .. }) = cs.get_bg() else { panic!() };
    assert!(r < 100, "mostly dark: {r}");
}
''', needs="A style with a background and a weight other than 0.5", breaks="The weights of the background blend are swapped"),
dict(id="S06-a", property="S06",
 edits=[("src/table_border_chars.rs", "    top_left_corner: '╭',\n    top_right_corner: '╮',\n    bottom_right_corner: '╯',\n    bottom_left_corner: '╰',", "    top_left_corner: '╭',\n    top_right_corner: '╮',\n    bottom_right_corner: '╰',\n    bottom_left_corner: '╯',")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.table_border_chars = ROUNDED_TABLE_BORDER_CHARS;
    let s = format!("{}", skin.text("|-|-|\\n|a|b|\\n|-|-|\\n", None));
    let last = s.lines().last().unwrap().trim();
    assert!(last.starts_with('╰') && last.ends_with('╯'), "{s}");
}
''', needs="The rounded borders and a table with a bottom rule", breaks="The bottom corners of rounded tables are swapped"),
dict(id="S06-b", property="S06",
 edits=[("src/skin.rs", "        self.bullet.set_char('*');\n", "        if self.bullet.nude_char() == '•' {\n            self.bullet.set_char('*');\n        }\n")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.bullet.set_char('▸');
    skin.limit_to_ascii();
    let s = format!("{}", skin.text("* item\\n", Some(20)));
    assert!(s.is_ascii(), "{s}");
}
''', needs="A skin with a custom non ASCII bullet", breaks="limit_to_ascii leaves the custom bullet"),
dict(id="S07-a", property="S07",
 edits=[("src/skin.rs", "            table: LineStyle::default(),\n            bullet: StyledChar::nude('•'),", "            table: LineStyle::default(),\n            bullet: StyledChar::new(CompoundStyle::with_attr(Attribute::Dim), '•'),")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    let s = format!("{}", skin.text("* item\\n", Some(20)));
    assert!(!s.contains('\\u{1b}'), "{s:?}");
}
''', needs="A list rendered with the no-style skin", breaks="The bullet of the no-style skin has an attribute"),
]
