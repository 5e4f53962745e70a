T = "src/tbl.rs"
F = "src/fit/tbl_fit.rs"
HEAD = '''
use termimad::*;
fn render(src: &str, width: usize) -> String {
    let mut skin = MadSkin::no_style();
    skin.table_border_chars = ASCII_TABLE_BORDER_CHARS;
    let text = FmtText::from(&skin, src, Some(width));
    text.to_string()
}
'''


def b(id, edits, main, needs, breaks, prop="B01"):
    return dict(id=id, property=prop, edits=edits, demo=HEAD + "fn main() {" + main + "}\n", needs=needs, breaks=breaks)


SEEDS = [
b("B01-a", [(T, "                            cell.remove(inl)\n", "                            cell.remove(0)\n")], '''
    let t = render("|aa bb cc dd ee ff gg hh|x|", 13);
    let (b, g) = (t.find("bb").unwrap(), t.find("gg").unwrap());
    assert!(b < g && t.find("cc").unwrap() < t.find("ee").unwrap() && t.find("ee").unwrap() < g, "{}", t);
''', "a cell which must be wrapped over at least three lines", "the lines of a wrapped cell are in the wrong order"),
b("B01-b", [(T, "                    self.height += 1;\n                }\n", "                }\n")], '''
    let t = render("|:-|:-|\\n|aa bb cc dd ee ff gg hh|x|\\n|y|z|\\n|-|-|", 13);
    let widths: Vec<usize> = t.lines().map(|l| l.trim_end().chars().count()).collect();
    assert!(widths.iter().all(|&w| w == widths[0]), "{}", t);
''', "a wrapped cell, with lines after it", "the lines ending a table aren't given the widths of columns when a cell is wrapped"),
b("B01-c", [(T, '''                    } else if ir == self.start + self.height - 1 {
                        rule.position = RelativePosition::Bottom;
''', '''                    } else if ir + 1 == self.start + self.height && self.height == lines_before {
                        rule.position = RelativePosition::Bottom;
'''), (T, '''        let mut cols_removed = false;
''', '''        let mut cols_removed = false;
        let lines_before = self.height;
''')], '''
    let mut skin = MadSkin::no_style();
    skin.table_border_chars = STANDARD_TABLE_BORDER_CHARS;
    let src = "|:-|:-|\\n|aa bb cc dd ee ff gg hh|x|\\n|-|-|";
    let t = FmtText::from(&skin, src, Some(13)).to_string();
    assert!(t.lines().last().unwrap().starts_with('└'), "{}", t);
''', "a table ending with a rule and having a wrapped cell", "the rule ending a table isn't drawn as its bottom"),
b("B01-d", [(T, "                    b.height += 1;\n                    b.nbcols = b.nbcols.max(aligns.len());\n", "                    b.height += 1;\n")], '''
    let t = render("|a|b|\\n|-|-|-|\\n|c|d|", 40);
    let widths: Vec<usize> = t.lines().map(|l| l.trim_end().chars().count()).collect();
    assert!(widths.iter().all(|&w| w == widths[0]), "{}", t);
    assert_eq!(t.lines().next().unwrap().matches('|').count(), 4, "{}", t);
''', "a rule with more columns than the rows", "the columns which are only in a rule are lost"),
b("B01-e", [(T, "    for tbl in find_tables(lines).iter_mut().rev() {\n", "    for tbl in find_tables(lines).iter_mut() {\n")], '''
    let t = std::panic::catch_unwind(|| render("|aa bb cc dd ee ff gg hh|x|\\n\\nhello\\n\\n|y|zzzzz|\\n|i|j|", 13));
    let t = t.unwrap();
    let l: Vec<&str> = t.lines().collect();
    let y = l.iter().find(|l| l.contains("zzzzz")).unwrap();
    let i = l.iter().find(|l| l.contains('j')).unwrap();
    assert_eq!(y.trim_end().chars().count(), i.trim_end().chars().count(), "{}", t);
''', "several tables, a cell being wrapped in one which isn't the last", "the tables which follow one having wrapped cells aren't the ones laid out"),
b("B01-f", [(T, '''                    if cols_removed {
                        rule.set_nbcols(nbcols);
                    }
''', '''                    if cols_removed && ir == self.start {
                        rule.set_nbcols(nbcols);
                    }
''')], '''
    let t = render("|a|b|c|\\n|-|-|-|\\n|d|e|f|", 10);
    let widths: Vec<usize> = t.lines().map(|l| l.trim_end().chars().count()).collect();
    assert!(widths.iter().all(|&w| w <= 10 && w == widths[0]), "{}", t);
''', "not enough width for all columns, and a rule which isn't the first line", "a rule keeps columns which have been removed from the table"),
b("B01-g", [(T, "                    current_aligns[..nbcols].clone_from_slice(&rule.aligns[..nbcols]);\n", "                    if ir == self.start || self.height < 4 {\n                        current_aligns[..nbcols].clone_from_slice(&rule.aligns[..nbcols]);\n                    }\n")], '''
    let t = render("|:-|\\n|aaaaaaaa|\\n|b|\\n|-:|\\n|c|", 40);
    let l = t.lines().last().unwrap();
    assert!(l.contains("c|") || l.contains("c |") && !l.contains("|c"), "{}", t);
''', "a rule in the middle of a table, with other alignments", "the cells after an inner rule don't get its alignments"),
b("B02-a", [(F, "        if available_width < cols_count * 4 + 1 {\n", "        if available_width < cols_count * 4 {\n")], '''
    assert!(TblFit::new(2, 8).is_err());
    assert!(TblFit::new(2, 9).is_ok());
    let t = render("|a|b|\\n|c|d|", 8);
    assert!(t.lines().all(|l| l.trim_end().chars().count() <= 8), "{}", t);
''', "a width which is just one column too small for a table", "a table may be one column wider than available", "B02"),
b("B02-b", [(F, "                let gain_2 = gain_2.min(excess).min(c.width - 3);\n", "                let gain_2 = gain_2.min(excess).min(c.width.saturating_sub(4));\n")], '''
    for a in 3..40 {
        for b in 3..40 {
            for w in 9..60 {
                let mut fit = TblFit::new(2, w).unwrap();
                fit.see_cell(0, a);
                fit.see_cell(1, b);
                let r = fit.fit();
                let s: usize = r.col_widths.iter().sum();
                assert!(s + 3 <= w, "{} {} {} {:?}", a, b, w, r.col_widths);
            }
        }
    }
    for a in 3..20 {
        for b in 3..20 {
            for d in 3..20 {
                for w in 13..40 {
                    let mut fit = TblFit::new(3, w).unwrap();
                    fit.see_cell(0, a);
                    fit.see_cell(1, b);
                    fit.see_cell(2, d);
                    let r = fit.fit();
                    let s: usize = r.col_widths.iter().sum();
                    assert!(s + 4 <= w, "{} {} {} {} {:?}", a, b, d, w, r.col_widths);
                }
            }
        }
    }
''', "a width of barely more than the minimum, all columns having to be the narrowest", "the width of a reduced table may exceed the width available", "B02"),
b("B02-c", [(F, "        fits.sort_by_key(|c| c.idx);\n", "        fits.sort_by_key(|c| (c.width, c.idx));\n")], '''
    let mut fit = TblFit::new(2, 20).unwrap();
    fit.see_cell(0, 50);
    fit.see_cell(1, 5);
    let r = fit.fit();
    assert!(r.col_widths[0] > r.col_widths[1], "{:?}", r.col_widths);
''', "a table too wide whose first column is the widest", "the widths of columns are given to other columns", "B02"),
b("B02-d", [(F, "        self.width = self.width.max(cell_width);\n", "        self.width = if self.count == 0 { cell_width } else { self.width.max(cell_width) };\n")], '''
    let mut fit = TblFit::new(2, 20).unwrap();
    fit.see_cell(0, 1);
    fit.see_cell(1, 5);
    let r = fit.fit();
    assert!(r.col_widths.iter().all(|&w| w >= 3), "{:?}", r.col_widths);
''', "a column whose first cell is narrower than three chars", "a column may be less than 3 wide", "B02"),
b("B02-e", [(F, "                    let gain_1 = gain_1.min(excess).min(c.width - 4);\n", "                    let gain_1 = gain_1.min(potential_cut_gain_1).min(c.width - 4);\n")], '''
    for a in 3..40 {
        for b in 3..40 {
            for w in 9..60 {
                let r = std::panic::catch_unwind(|| {
                    let mut fit = TblFit::new(2, w).unwrap();
                    fit.see_cell(0, a);
                    fit.see_cell(0, 1);
                    fit.see_cell(1, b);
                    fit.see_cell(1, 1);
                    fit.fit().col_widths
                });
                let r = r.unwrap();
                assert!(r[0] + r[1] + 3 <= w && r[0] <= a && r[1] <= b, "{:?}", r);
            }
        }
    }
''', "two columns reduced in the first step, the roundings exceeding what has to be gained", "reducing columns removes more than the excess, and underflows", "B02"),
]
