F = "src/fit/composite_fit.rs"
C = "src/composite.rs"
HEAD = '''
use termimad::*;
use minimad::{Alignment, Composite};
fn text(fc: &FmtComposite) -> String {
    fc.compounds.iter().map(|c| c.src).collect()
}
'''
SEEDS = [
dict(id="F01-a", property="F01", edits=[(F, "        let tail = compound.tail(end_byte_idx);\n", "        let tail = Compound::raw_str(&compound.src[end_byte_idx..]);\n")],
 demo=HEAD + '''
fn main() {
    let skin = MadSkin::default();
    let mut fc = FmtComposite::from(Composite::from_inline("a **verylongboldword** b"), &skin);
    fc.fit_width(12, Alignment::Unspecified, &skin);
    let t = text(&fc);
    assert!(t.contains('…'), "{}", t);
    for c in &fc.compounds {
        if c.src.ends_with('d') || c.src.starts_with('v') {
            assert!(c.bold, "{:?}", fc.compounds);
        }
    }
}
''', needs="a styled word cut in its middle", breaks="the end of a compound whose middle is removed loses its style"),
dict(id="F01-b", property="F01", edits=[(F, "        removed_width - 1\n    }\n}\n", "        removed_width - 2\n    }\n}\n")],
 demo=HEAD + '''
fn main() {
    let skin = MadSkin::default();
    let mut fc = FmtComposite::from(Composite::from_inline("abcdefgh ijklmnop"), &skin);
    fc.fit_width(12, Alignment::Unspecified, &skin);
    assert_eq!(text(&fc).matches('…').count(), 1, "{}", text(&fc));
}
''', needs="two words, only one having to be cut in its middle", breaks="the gain of a removed middle is underestimated, and another word is cut for nothing"),
dict(id="F01-c", property="F01", edits=[(F, "                if start_char_idx <= 1 {\n", "                if start_char_idx == 0 {\n")],
 demo=HEAD + '''
fn main() {
    let skin = MadSkin::default();
    let mut fc = FmtComposite::from(Composite::from_inline("abcde"), &skin);
    fc.fit_width(2, Alignment::Unspecified, &skin);
    let mut fc = FmtComposite::from(Composite::from_inline("abcdefg ijklmno"), &skin);
    fc.fit_width(7, Alignment::Unspecified, &skin);
    assert!(text(&fc).starts_with('a') && text(&fc).contains('i'), "{}", text(&fc));
}
''', needs="a word whose whole middle has to be removed", breaks="the first char of a word is removed with its middle"),
dict(id="F01-d", property="F01", edits=[(F, '''            fc.compounds.clear();
            fc.visible_length = 0;
''', '''            fc.visible_length = 0;
''')],
 demo=HEAD + '''
fn main() {
    let skin = MadSkin::default();
    let mut fc = FmtComposite::from(Composite::from_inline("some text"), &skin);
    fc.fit_width(0, Alignment::Left, &skin);
    assert_eq!(text(&fc), "");
}
''', needs="a null width", breaks="a composite fitted in a null width keeps its text"),
dict(id="F01-e", property="F01", edits=[(F, "        let internal_ellision = align == Alignment::Unspecified;\n", "        let internal_ellision = !matches!(align, Alignment::Left | Alignment::Right);\n")],
 demo=HEAD + '''
fn main() {
    let skin = MadSkin::default();
    let mut fc = FmtComposite::from(Composite::from_inline("abcdefghijklmnop"), &skin);
    fc.fit_width(8, Alignment::Center, &skin);
    let t = text(&fc);
    assert!(t.starts_with('…') && t.ends_with('…'), "{}", t);
}
''', needs="a centered composite with a long word", breaks="centered composites have their middles removed"),
dict(id="F01-f", property="F01", edits=[(F, "                if last_removed_char_idx + 1 == char_infos.len() {\n                    // we remove the whole compound\n                    compounds.remove(0);\n",
   "                if last_removed_char_idx + 1 == char_infos.len() {\n                    // we remove the whole compound\n                    compounds.swap_remove(0);\n")],
 demo=HEAD + '''
fn main() {
    let skin = MadSkin::default();
    let mut fc = FmtComposite::from(Composite::from_inline("ab *cdef* ghi **jklm** nop"), &skin);
    fc.fit_width(14, Alignment::Right, &skin);
    let t = text(&fc);
    assert!("ab cdef ghi jklm nop".ends_with(t.trim_start_matches('…')), "{}", t);
}
''', needs="a right aligned composite of which a whole first compound is removed before others", breaks="the last compound takes the place of the removed one"),
]
