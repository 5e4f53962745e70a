ST = "src/fit/str_fit.rs"
CW = "src/fit/crop_writer.rs"
FI = "src/fit/filling.rs"
TK = "src/tokens.rs"
WR = "src/fit/wrap.rs"
SEEDS = [
dict(id="C01-a", property="C01",
 edits=[(ST, "        let fit = StrFit::from(s, cols_max);\n        if fit.has_tab {\n            // we can't just borrow, as we insert chars\n",
  "        let fit = StrFit::from(s, cols_max);\n        if fit.has_tab && fit.bytes_count < s.len() {\n            // we can't just borrow, as we insert chars\n")],
 demo='''
use termimad::*;
fn main() {
    let (s, w) = StrFit::make_cow("a\\tb", 10);
    assert_eq!(w, 4);
    assert!(!s.contains('\\t'), "{:?}", s);
}
''', needs="A string with a tab which fits entirely", breaks="the tab is left in the string, whose real width isn't the one announced"),
dict(id="C01-b", property="C01",
 edits=[(ST, "                _ => UnicodeWidthChar::width(c).map(|w| w as i32).unwrap_or(0),", "                _ => UnicodeWidthChar::width(c).map(|w| w as i32).unwrap_or(1),")],
 demo='''
use termimad::*;
fn main() {
    // an ANSI reset in the string doesn't take any column
    let (s, w) = StrFit::make_string("ab\\u{1b}cd", 4);
    assert_eq!((s.as_str(), w), ("ab\\u{1b}cd", 4));
}
''', needs="A control char in the string", breaks="the string is cut too early, the width announced is wrong"),
dict(id="C02-a", property="C02",
 edits=[(CW, "        let (string, len) = self.cropped_str(s);\n        self.allowed -= len;\n        cs.queue(self.w, string)",
  "        let (string, _) = self.cropped_str(s);\n        self.allowed = self.allowed.saturating_sub(string.chars().count());\n        cs.queue(self.w, string)")],
 demo='''
use termimad::*;
fn main() {
    let mut buf: Vec<u8> = Vec::new();
    let cs = CompoundStyle::default();
    let mut cw = CropWriter::new(&mut buf, 5);
    cw.queue_str(&cs, "概要").unwrap();
    cw.queue_str(&cs, "abc").unwrap();
    assert_eq!(String::from_utf8(buf).unwrap(), "概要a");
}
''', needs="Several writes with wide chars", breaks="what is written with the crop writer is wider than its limit"),
dict(id="C02-b", property="C02",
 edits=[(CW, "        len = len.min(self.allowed);\n        self.allowed -= len;\n        filling.queue_unstyled(self.w, len)",
  "        if len >= self.allowed {\n            len = self.allowed;\n        } else {\n            self.allowed -= len;\n        }\n        filling.queue_unstyled(self.w, len)")],
 demo='''
use termimad::*;
fn main() {
    let mut buf: Vec<u8> = Vec::new();
    let mut cw = CropWriter::new(&mut buf, 5);
    cw.repeat_unstyled(&SPACE_FILLING, 7).unwrap();
    cw.queue_unstyled_str("abc").unwrap();
    assert_eq!(String::from_utf8(buf).unwrap(), "     ");
}
''', needs="A repetition filling the writer followed by another write", breaks="the filled writer isn't full: what follows goes beyond the limit"),
dict(id="C03-a", property="C03",
 edits=[(FI, "        let char_size = String::from(filling_char).len();", "        let char_size = String::from(filling_char).len().min(3);")],
 demo='''
use termimad::*;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let f = Filling::from_char('🟩');
        let mut buf: Vec<u8> = Vec::new();
        f.queue_unstyled(&mut buf, 8).unwrap();
        String::from_utf8(buf).unwrap().chars().count()
    });
    assert_eq!(r.ok(), Some(8));
}
''', needs="A filling char of 4 bytes", breaks="the filling is cut at wrong bytes"),
dict(id="C03-b", property="C03",
 edits=[(FI, "            cs.queue_str(w, &self.filling_string[0..sl * self.char_size])?;\n            len -= sl;",
  "            cs.queue_str(w, &self.filling_string[0..sl * self.char_size])?;\n            len = len.saturating_sub(FILLING_STRING_CHAR_LEN + 1);")],
 demo='''
use termimad::*;
fn main() {
    let f = Filling::from_char('-');
    let mut buf: Vec<u8> = Vec::new();
    f.queue_styled(&mut buf, &CompoundStyle::default(), 1500).unwrap();
    assert_eq!(String::from_utf8(buf).unwrap().len(), 1500);
}
''', needs="A filling of more than 1000 chars", breaks="a char is missing for each thousand"),
dict(id="C04-a", property="C04",
 edits=[(TK, "            let blank = char.is_whitespace() && !compound.code;", "            let blank = char.is_whitespace() && !compound.code && !compound.strikeout;")],
 demo='''
use termimad::*;
fn main() {
    // the end of the line is a blank in a strikeout compound: it must be dropped at the change of line
    let skin = MadSkin::no_style();
    let t = skin.text("~~aaaa bbbb~~ cc", Some(4));
    let s = t.to_string();
    let lines: Vec<&str> = s.lines().map(|l| l.trim_end()).collect();
    assert_eq!(lines, vec!["aaaa", "bbbb", "cc"], "{:?}", s);
}
''', needs="Blanks in a strikeout part at a change of line", breaks="a line starts or is made of the blank between two words"),
dict(id="C04-b", property="C04",
 edits=[(TK, "            if let Some(token) = token.replace(new_token) {\n                tokens.push(token);\n            }\n        }\n        if let Some(token) = token {\n            tokens.push(token);\n        }",
  "            if let Some(token) = token.replace(new_token) {\n                tokens.push(token);\n            }\n        }\n        if let Some(token) = token.filter(|t| t.width > 0 || !tokens.is_empty()) {\n            tokens.push(token);\n        }")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    let fc = FmtComposite::from(minimad::Composite::from_inline("\\u{200b}*abcdefgh ijkl*"), &skin);
    let n: usize = fc.compounds.iter().map(|c| c.src.chars().filter(|c| !c.is_whitespace()).count()).sum();
    let t = skin.text("\\u{200b}*abcdefgh ijkl* mnop", Some(9));
    let m: usize = t.lines.iter().map(|l| match l {
        FmtLine::Normal(fc) => fc.compounds.iter().map(|c| c.src.chars().filter(|c| !c.is_whitespace()).count()).sum(),
        _ => 0,
    }).sum();
    assert_eq!(m, n + 4);
}
''', needs="A text starting with a compound of only zero-width chars", breaks="the chars of this compound are lost on wrapping"),
dict(id="W03-c", property="W03",
 edits=[(WR, "            if fc.visible_length + left_margin + right_margin <= width {", "            if fc.visible_length + left_margin.max(right_margin) <= width {")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.paragraph.left_margin = 2;
    skin.paragraph.right_margin = 2;
    let t = skin.text("abc def g", Some(12));
    for l in &t.lines {
        if let FmtLine::Normal(fc) = l {
            assert!(fc.visible_length + 4 <= 12, "{:?}", fc.visible_length);
        }
    }
}
''', needs="A line style with both margins and a line whose text fits but not its margins", breaks="the line isn't wrapped and overflows"),
dict(id="W01-b", property="W01",
 edits=[(WR, "            2 + l as usize\n        }\n        CompositeKind::Quote => 2,", "            2 + (l as usize).min(1)\n        }\n        CompositeKind::Quote => 2,")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.list_items_indentation_mode = ListItemsIndentationMode::Block;
    for w in 8..40 {
        let mut fc = FmtComposite::new();
        fc.kind = CompositeKind::ListItem(3);
        fc.add_compound(minimad::Compound::raw_str("some item long enough to be wrapped on several lines"));
        fc.recompute_width(&skin);
        for l in termimad::wrap::hard_wrap_composite(&fc, w, &skin).unwrap() {
            assert!(skin.visible_composite_length(l.kind, &l.compounds) <= w, "{:?} {}", l, w);
        }
    }
}
''', needs="A wrapped list item of depth 2 or more in Block indentation mode", breaks="the following lines of a deep list item may be too wide"),
dict(id="W01-c", property="W01",
 edits=[(WR, "            && compounds[0].src.width() + first_width <= width\n            && compounds[1].src.width() + other_widths <= width",
  "            && compounds[0].src.width() + first_width <= width\n            && compounds[1].src.width() <= width")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    let t = skin.text("> abcdefgh**ijklmnopqr**", Some(11));
    for l in t.to_string().lines() {
        assert!(l.chars().count() <= 11, "{:?}", l);
    }
}
''', needs="A quote of exactly two compounds, the second one as wide as the width", breaks="the second line overflows by the width of the quote mark"),
dict(id="W02-a", property="W02",
 edits=[(WR, "            && compounds[1].src.chars().all(char::is_whitespace)", "            && compounds[1].src.width() <= 1")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    let t = skin.text("*abcdef*,*ghijkl*", Some(8));
    let s = t.to_string();
    assert!(s.contains(','), "{:?}", s);
}
''', needs="A composite of three compounds, the middle one being a single char", breaks="a char which isn't a blank is lost on wrapping"),
dict(id="W02-b", property="W02",
 edits=[(WR, "        CompositeKind::ListItem(l) => CompositeKind::ListItemFollowUp(l),\n        k => k,", "        CompositeKind::ListItem(l) => CompositeKind::ListItemFollowUp(l.min(1)),\n        k => k,")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.list_items_indentation_mode = ListItemsIndentationMode::Block;
    let mut fc = FmtComposite::new();
    fc.kind = CompositeKind::ListItem(3);
    fc.add_compound(minimad::Compound::raw_str("some item long enough to be wrapped"));
    fc.recompute_width(&skin);
    let lines = termimad::wrap::hard_wrap_composite(&fc, 16, &skin).unwrap();
    assert!(lines.len() > 1);
    assert_eq!(lines[1].kind, CompositeKind::ListItemFollowUp(3));
}
''', needs="A wrapped list item nested three levels deep", breaks="the following lines of the item lose its depth"),
dict(id="W02-c", property="W02",
 edits=[(TK, "        compound.set_str(&self.compound.src[self.start_in_compound..self.end_in_compound]);",
  "        let part = &self.compound.src[self.start_in_compound..self.end_in_compound];\n        compound.set_str(if self.blank { part } else { part.trim_end() });")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    let fc = FmtComposite::from(minimad::Composite::from_inline("Some words then `code  `and a few more words"), &skin);
    let lines = termimad::wrap::hard_wrap_composite(&fc, 25, &skin).unwrap();
    let s: String = lines.iter().flat_map(|l| l.compounds.iter().map(|c| c.src.to_string())).collect();
    assert!(s.contains("code  "), "{:?}", s);
}
''', needs="Inline code ending with spaces, in a line to wrap", breaks="the spaces of the code are lost"),
dict(id="W03-a", property="W03",
 edits=[(WR, "                for fc in hard_wrap_composite(&fc, width - left_margin - right_margin, skin)? {", "                for fc in hard_wrap_composite(&fc, width - right_margin, skin)? {")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::no_style();
    skin.paragraph.left_margin = 3;
    let t = skin.text("a text long enough to be wrapped more than once", Some(20));
    for l in &t.lines {
        if let FmtLine::Normal(fc) = l {
            assert!(fc.visible_length + 3 <= 20, "{:?}", fc.visible_length);
        }
    }
}
''', needs="A line style with a left margin", breaks="wrapped lines overflow by the left margin"),
dict(id="W03-b", property="W03",
 edits=[(WR, "    for src_line in src_lines.drain(..) {\n        if let FmtLine::Normal(fc) = src_line {", "    for src_line in src_lines.drain(..) {\n        if matches!(&src_line, FmtLine::Normal(fc) if fc.compounds.is_empty() && width < 10) {\n            continue;\n        }\n        if let FmtLine::Normal(fc) = src_line {")],
 demo='''
use termimad::*;
fn main() {
    let skin = MadSkin::no_style();
    let t = skin.text("abc\\n\\ndef", Some(8));
    assert_eq!(t.lines.len(), 3);
}
''', needs="An empty line between two paragraphs, in a very narrow width", breaks="the empty line disappears"),
]
