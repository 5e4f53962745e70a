C = "src/code.rs"
X = "src/text.rs"
S = "src/skin.rs"
M = "src/views/mad_view.rs"
L = "src/line.rs"
HEAD = '''
use termimad::*;
use termimad::minimad::*;
fn code_width(line: &FmtLine) -> Option<usize> {
    match line {
        FmtLine::Normal(fc) => fc.spacing.map(|s| s.width),
        _ => None,
    }
}
'''


def k(prop, n, edits, main, needs, breaks, head=HEAD):
    return dict(id="%s-%s" % (prop, n), property=prop, edits=edits, demo="#![allow(unused)]\n" + head + "fn main() {" + main + "}\n", needs=needs, breaks=breaks)


SEEDS = [
k("K01", "a", [(C, "                    b.width = b.width.max(ll);\n", "                    b.width = ll.max(blocks.last().map_or(0, |p| p.width)).max(b.width);\n")], '''
    let skin = MadSkin::default();
    let t = skin.text("    a long line of code\\n\\ntext\\n\\n    b\\n    c", None);
    let w: Vec<usize> = t.lines.iter().filter_map(code_width).collect();
    assert_eq!(w.last(), Some(&1), "{:?}", w);
''', "two code blocks, the second one narrower", "a code block is as wide as the previous one"),
k("K01", "b", [(C, '''    if let Some(c) = current.take() {
        blocks.push(c);
    }
    blocks
''', '''    if let Some(c) = current.take() {
        if c.height > 1 || blocks.is_empty() {
            blocks.push(c);
        }
    }
    blocks
''')], '''
    let skin = MadSkin::default();
    let t = skin.text("    a\\n    b\\n\\ntext\\n\\n    c", None);
    assert_eq!(code_width(t.lines.last().unwrap()), Some(1));
''', "a text ending with a code block of one line which isn't the first block", "the last code line isn't justified"),
k("K01", "c", [(C, "        for line in lines.iter_mut().skip(self.start).take(self.height) {\n", "        for line in lines.iter_mut().skip(self.start).take(self.height.min(lines_max)) {\n"),
               (C, "    pub fn justify(&self, lines: &mut [FmtLine<'_>]) {\n", "    pub fn justify(&self, lines: &mut [FmtLine<'_>]) {\n        let lines_max = if self.start == 0 { self.height } else { self.start.max(2) };\n")], '''
    let skin = MadSkin::default();
    let t = skin.text("x\\n    a\\n    bb\\n    ccc\\n    d", None);
    assert!(t.lines.iter().skip(1).all(|l| code_width(l) == Some(3)), "{:?}", t.lines);
''', "a code block of at least three lines near the start of a text", "the last lines of a code block aren't justified"),
k("K02", "a", [(X, "            if width >= 3 {\n", "            if width > 3 {\n")], '''
    let skin = MadSkin::no_style();
    let t = skin.text("aa bb cc", Some(3));
    assert!(t.lines.iter().all(|l| l.visible_length() <= 3), "{:?}", t.lines);
''', "a width of exactly 3", "a text of width 3 isn't wrapped"),
k("K02", "b", [(X, "        code::justify_blocks(&mut lines);\n        if let Some(width) = width {\n", "        if width.map_or(true, |w| w < 500) {\n            code::justify_blocks(&mut lines);\n        }\n        if let Some(width) = width {\n")], '''
    let skin = MadSkin::no_style();
    let t = skin.text("    a\\n    bbb", Some(1000));
    assert!(t.lines.iter().all(|l| code_width(l) == Some(3)), "{:?}", t.lines);
''', "a text laid out at a huge width", "code isn't justified"),
k("K02", "c", [(X, "        tbl::fix_all_tables(&mut lines, width.unwrap_or(usize::MAX), skin);\n", "        tbl::fix_all_tables(&mut lines, width.unwrap_or(u8::MAX as usize), skin);\n")], '''
    let skin = MadSkin::no_style();
    let cell = "a".repeat(200);
    let t = skin.text(&format!("|{}|{}|\\n", cell, cell), None).lines.len();
    assert_eq!(t, 1);
''', "a table more than 255 wide, displayed without width", "a table is shrunk in a text without width"),
k("K02", "d", [(X, "            .fold(0, |cw, line| cw.max(line.visible_length()))\n", "            .fold(0, |cw, line| cw.max(line.visible_length()).min(self.width.unwrap_or(usize::MAX)))\n")], '''
    let skin = MadSkin::no_style();
    let mut t = skin.text("abcdefgh", None);
    t.set_rendering_width(4);
    assert_eq!(t.content_width(), 8);
''', "a rendering width less than the content's", "the content width of a text is limited by its rendering width"),
k("K03", "a", [(S, "        FmtText::from(self, src, Some(area.width as usize - 1))\n", "        FmtText::from(self, src, Some((area.width as usize - 1).min(area.width as u8 as usize)))\n")], '''
    let skin = MadSkin::no_style();
    let src = "word ".repeat(60);
    let t = skin.area_text(&src, &Area::new(0, 0, 300, 10));
    assert_eq!(t.width, Some(299));
''', "an area more than 255 wide", "a text isn't laid out for the width of its area"),
k("K03", "b", [(M, "        if area.width != self.area.width {\n", "        if area.width != self.area.width || area.height < self.area.height {\n")], '''
    let src = "line\\n".repeat(50);
    let mut v = MadView::from(src, Area::new(0, 0, 20, 10), MadSkin::no_style());
    v.try_scroll_lines(7);
    v.resize(&Area::new(0, 0, 20, 8));
    assert_eq!(v.scroll, 7);
''', "a scrolled mad view made less high", "a mad view loses its scroll when it's resized without changing its width"),
k("K03", "c", [(S, "        view.show_scrollbar = false;\n", "        view.show_scrollbar = text.lines.len() > 2 * area.height as usize;\n")], '''
    let src = "line\\n".repeat(50);
    let mut out = Vec::new();
    MadSkin::no_style().write_in_area_on(&mut out, &src, &Area::new(0, 0, 20, 10)).unwrap();
    let s = String::from_utf8(out).unwrap();
    assert!(!s.contains('▐'), "{}", s);
''', "a long text written in a small area", "a scrollbar is drawn with a text which can't be scrolled"),
k("K03", "d", [(S, "        fc.fill_width(width, align, self);\n", "        fc.fit_width(width, align, self);\n        fc.extend_width(width.max(3), align);\n")], '''
    let mut out = Vec::new();
    MadSkin::no_style().write_composite_fill(&mut out, Composite::from_inline("a"), 2, Alignment::Left).unwrap();
    assert_eq!(String::from_utf8(out).unwrap(), "a ");
''', "filling a width less than 3", "a composite filling a small width is wider than it"),
]
