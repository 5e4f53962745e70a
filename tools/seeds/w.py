SK = "src/serde/serde_skin.rs"
SB = "src/serde/serde_scrollbar_style.rs"
PC = "src/parse/parse_color.rs"
PA = "src/parse/parse_attribute.rs"
CP = "src/parse/parse_compound_style.rs"
LP = "src/parse/parse_line_style.rs"
SEEDS = [
dict(id="S08-a", property="S08", edits=[(SK, '''                                    }
                                    if let Some(bg) = ls.compound_style.get_bg() {
''', '''                                    } else if let Some(bg) = ls.compound_style.get_bg() {
''')],
 demo='''
use termimad::*;
fn main() {
    let skin: MadSkin = serde_json::from_str(r##"{"headers": "red blue"}"##).unwrap();
    for h in &skin.headers {
        assert_eq!(h.compound_style.get_bg(), Some(crossterm::style::Color::Blue));
    }
}
''', needs="headers given as a style with both a foreground and a background",
 breaks="the background of a style added to all headers is ignored"),
dict(id="S08-b", property="S08", edits=[(SK, "                                    if ls.align != Alignment::Unspecified {\n", "                                    if h.align == Alignment::Unspecified {\n")],
 demo='''
use termimad::*;
fn main() {
    let skin: MadSkin = serde_json::from_str(r##"{"headers": "yellow right"}"##).unwrap();
    for h in &skin.headers {
        assert_eq!(h.align, minimad::Alignment::Right);
    }
    let skin: MadSkin = serde_json::from_str(r##"{"headers": "yellow"}"##).unwrap();
    assert_eq!(skin.headers[0].align, minimad::Alignment::Center);
}
''', needs="headers given as an aligned style while the first level is centered by default",
 breaks="the alignment of a style added to all headers isn't set on the levels having one"),
dict(id="S08-c", property="S08", edits=[(SB, "                thumb: sc.thumb.clone(),\n", "                thumb: sc.track.clone(),\n")],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::default();
    skin.scrollbar.thumb.set_bg(crossterm::style::Color::Red);
    skin.scrollbar.thumb.set_char('x');
    let s = serde_json::to_string(&skin).unwrap();
    let r: MadSkin = serde_json::from_str(&s).unwrap();
    assert_eq!(skin, r);
}
''', needs="a scrollbar which can't be written in the simple form",
 breaks="the thumb of a scrollbar is serialized as the track"),
dict(id="S08-d", property="S08", edits=[(SK, '''                            let ls = parse_line_style(&value).map_err(de::Error::custom)?;
                            skin.table = ls;
''', '''                            if let Ok(ls) = parse_line_style(&value) {
                                skin.table = ls;
                            }
''')],
 demo='''
use termimad::*;
fn main() {
    assert!(serde_json::from_str::<MadSkin>(r##"{"table": "red pissenlit"}"##).is_err());
    assert!(serde_json::from_str::<MadSkin>(r##"{"table": "red center"}"##).is_ok());
}
''', needs="a skin whose table style isn't valid",
 breaks="an invalid table style is silently ignored"),
dict(id="S08-e", property="S08", edits=[(SK, '''                                for (lvl, h) in vls.drain(..).enumerate() {
                                    if lvl < skin.headers.len() {
''', '''                                for (lvl, h) in vls.drain(..).enumerate() {
                                    if lvl + 1 < skin.headers.len() || h.align == Alignment::Unspecified {
''')],
 demo='''
use termimad::*;
fn main() {
    let mut skin = MadSkin::default();
    skin.headers[7].align = minimad::Alignment::Right;
    skin.headers[7].set_fg(crossterm::style::Color::Red);
    let s = serde_json::to_string(&skin).unwrap();
    let r: MadSkin = serde_json::from_str(&s).unwrap();
    assert_eq!(skin, r);
}
''', needs="an aligned header of level 8",
 breaks="an aligned header of the last level isn't read, and a longer list panics"),
dict(id="S09-a", property="S09", edits=[(PC, '"DarkMagenta"', '"Dark_Magenta"')],
 demo='''
use termimad::*;
fn main() {
    let mut cs = CompoundStyle::default();
    cs.set_fg(crossterm::style::Color::DarkMagenta);
    let s = serde_json::to_string(&cs).unwrap();
    let r: CompoundStyle = serde_json::from_str(&s).unwrap();
    assert_eq!(cs, r);
}
''', needs="a style using the dark magenta color", breaks="the word written for dark magenta can't be read"),
dict(id="S09-b", property="S09", edits=[(PC, "            if level > 23 {\n", "            if level > 22 {\n")],
 demo='''
use termimad::*;
fn main() {
    assert_eq!(parse_color("gray(23)").unwrap(), gray(23));
}
''', needs="the lightest gray level", breaks="gray(23) is refused"),
dict(id="S09-c", property="S09", edits=[(PA, '''        Attribute::Dim => write!(f, "Dim"),''', '''        Attribute::Dim => write!(f, "Dimmed"),''')],
 demo='''
use termimad::*;
fn main() {
    let mut cs = CompoundStyle::default();
    cs.add_attr(crossterm::style::Attribute::Dim);
    let s = serde_json::to_string(&cs).unwrap();
    let r: CompoundStyle = serde_json::from_str(&s).unwrap();
    assert_eq!(cs, r);
}
''', needs="a dim style", breaks="the word written for the dim attribute can't be read"),
dict(id="S10-a", property="S10", edits=[(LP, "        if self.left_margin > 0 || self.right_margin > 0 {\n", "        if self.left_margin > 0 {\n")],
 demo='''
use termimad::*;
fn main() {
    let mut ls = LineStyle::default();
    ls.right_margin = 3;
    let s = serde_json::to_string(&ls).unwrap();
    let r: LineStyle = serde_json::from_str(&s).unwrap();
    assert_eq!(ls, r);
}
''', needs="a line style with a right margin only", breaks="the right margin isn't written when there's no left one"),
dict(id="S10-b", property="S10", edits=[(CP, '''                    if !fg_set {
                        fg_set = true;
                    }
''', '''                    fg_set = !fg_set && style.get_fg().is_some();
''')],
 demo='''
use termimad::*;
fn main() {
    let mut cs = CompoundStyle::default();
    cs.set_bg(crossterm::style::Color::Red);
    let s = serde_json::to_string(&cs).unwrap();
    let r: CompoundStyle = serde_json::from_str(&s).unwrap();
    assert_eq!(cs, r);
}
''', needs="a style with a background and no foreground", breaks="the background of a style without foreground is read as its foreground"),
dict(id="S10-c", property="S10", edits=[("src/parse/mod.rs", '''            if !s.is_empty() {
                write!(&mut s, " {token}").unwrap();
''', '''            if !s.is_empty() && !matches!(token, StyleToken::Dimension(_)) {
                write!(&mut s, " {token}").unwrap();
''')],
 demo='''
use termimad::*;
fn main() {
    let mut ls = LineStyle::default();
    ls.left_margin = 3;
    ls.right_margin = 4;
    let s = serde_json::to_string(&ls).unwrap();
    let r: LineStyle = serde_json::from_str(&s).unwrap();
    assert_eq!(ls, r);
}
''', needs="a line style with margins", breaks="margins are written together"),
]
