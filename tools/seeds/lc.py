F = "src/views/list_view.rs"
HEAD = '''
#![allow(unused)]
use termimad::*;
use termimad::minimad::Alignment;
use termimad::crossterm::style::Color;
struct D(String);
fn col(skin: &'static MadSkin, title: &str, min: usize, max: usize) -> ListViewColumn<'static, D> {
    let style = &skin.paragraph.compound_style;
    ListViewColumn::new(title, min, max, Box::new(move |d: &D| ListViewCell::new(d.0.clone(), style)))
}
/// the lines written, without the escape sequences
fn lines(v: &ListView<D>) -> Vec<String> {
    let mut w = Vec::new();
    v.write_on(&mut w).unwrap();
    let s = String::from_utf8(w).unwrap();
    let mut out = Vec::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\x1b' {
            let mut e = String::new();
            for c in it.by_ref() {
                e.push(c);
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
            if e.ends_with('H') {
                out.push(String::new());
            }
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    out
}
'''


def l(n, edits, main, needs, breaks):
    return dict(id="L04-" + n, property="L04", edits=edits, demo=HEAD + "fn main() {" + main + "}\n", needs=needs, breaks=breaks)


SEEDS = [
l("a", [(F, ".min(excess);\n                excess -= d;", ".min(excess);\n                excess = (excess - d).max(1);")], '''
    let skin: &'static MadSkin = Box::leak(Box::new(MadSkin::no_style()));
    let mut v = ListView::new(Area::new(0, 0, 20, 5), vec![col(skin, "a", 3, 12), col(skin, "b", 3, 9), col(skin, "c", 3, 9)], skin);
    v.update_dimensions();
    let n = lines(&v)[1].chars().count();
    assert!(n <= 19, "{n}");
''', "three columns, the first one taking all the space left", "the columns are wider than the list"),
l("b", [(F, '''            if let Some(last_title) = titles.last_mut() {
                if columns[last_title.columns[0]].title == column.title {
                    // we merge those columns titles
                    last_title.columns.push(column_idx);
                    continue;
                }
            }
''', '''            if let Some(same_title) = titles
                .iter_mut()
                .find(|t| columns[t.columns[0]].title == column.title)
            {
                // we merge those columns titles
                same_title.columns.push(column_idx);
                continue;
            }
''')], '''
    let skin: &'static MadSkin = Box::leak(Box::new(MadSkin::no_style()));
    let v = ListView::new(Area::new(0, 0, 40, 5), vec![col(skin, "a", 4, 4), col(skin, "b", 4, 4), col(skin, "a", 4, 4)], skin);
    let l = lines(&v);
    assert_eq!(l[0].matches('a').count(), 2, "{:?}", l[0]);
''', "columns of same title which don't follow each other", "their titles are merged, and aren't over their columns"),
l("c", [(F, '''                        let cell = (col.extract)(&self.rows[row_idx].data);
                        if selected {
''', '''                        let cell = (col.extract)(&self.rows[row_idx].data);
                        if selected && cell.width > 0 {
''')], '''
    let skin: &'static MadSkin = Box::leak(Box::new(MadSkin::no_style()));
    let mut v = ListView::new(Area::new(0, 0, 40, 5), vec![col(skin, "a", 4, 4), col(skin, "b", 4, 4)], skin);
    v.add_row(D(String::new()));
    v.try_select_next(false);
    let mut w = Vec::new();
    v.write_on(&mut w).unwrap();
    let s = String::from_utf8(w).unwrap();
    assert_eq!(s.matches("48;5;").count(), 3, "{s:?}");
''', "a selected row with an empty cell", "this cell hasn't the background of the selection"),
l("d", [(F, '''                + title.columns.len()
                - 1;''', '''                + usize::from(title.columns.len() > 1);''')], '''
    let skin: &'static MadSkin = Box::leak(Box::new(MadSkin::no_style()));
    let v = ListView::new(Area::new(0, 0, 40, 5), vec![col(skin, "a", 4, 4), col(skin, "a", 4, 4), col(skin, "a", 4, 4), col(skin, "b", 4, 4)], skin);
    let l = lines(&v);
    assert_eq!(l[0].chars().count(), l[1].chars().count(), "{:?}", l);
''', "three columns of same title", "the titles which follow aren't over their columns"),
]
