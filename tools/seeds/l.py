LV = "src/views/list_view.rs"
LIST = '''
use termimad::*;
fn list<'t>(skin: &'t MadSkin, h: u16, n: usize) -> ListView<'t, usize> {
    let style: &'static CompoundStyle = Box::leak(Box::new(CompoundStyle::default()));
    let columns = vec![ListViewColumn::new("n", 4, 8, Box::new(move |i: &usize| ListViewCell::new(format!("r{}", i), style)))];
    let mut l = ListView::new(Area::new(0, 0, 20, h), columns, skin);
    for i in 0..n {
        l.add_row(i);
    }
    l
}
fn shown(l: &ListView<usize>) -> Vec<String> {
    let mut w = Vec::new();
    l.write_on(&mut w).unwrap();
    let s = String::from_utf8(w).unwrap();
    s.split('r').skip(1).filter_map(|p| {
        let d: String = p.chars().take_while(|c| c.is_ascii_digit()).collect();
        if d.is_empty() { None } else { Some(d) }
    }).collect()
}
'''
SEEDS = [
dict(id="L01-a", property="L01",
 edits=[(LV, "        for row in self.rows.iter_mut() {\n            row.displayed = true;\n        }\n        self.displayed_rows_count = self.rows.len();",
         "        for row in self.rows.iter_mut().filter(|row| !row.displayed) {\n            row.displayed = true;\n            self.displayed_rows_count += 1;\n        }")],
 demo=LIST + '''
fn main() {
    let skin = MadSkin::default();
    let mut l = list(&skin, 10, 6);
    l.set_filter(Box::new(|i| i % 2 == 0));
    l.add_row(7);
    l.add_row(8);
    l.remove_filter();
    assert_eq!(l.row_counts(), (8, 8));
    l.set_filter(Box::new(|i| *i > 100));
    l.remove_filter();
    assert_eq!(l.row_counts(), (8, 8));
}
''', needs="-", breaks="-", skip=True),
dict(id="L01-b", property="L01",
 edits=[(LV, "        let displayed = match &self.filter {\n            Some(fun) => fun(&data),\n            None => true,\n        };",
         "        let displayed = match &self.filter {\n            // no need to ask when nothing is rejected\n            Some(fun) => self.displayed_rows_count == self.rows.len() || fun(&data),\n            None => true,\n        };")],
 demo=LIST + '''
fn main() {
    let skin = MadSkin::default();
    let mut l = list(&skin, 10, 4);
    l.set_filter(Box::new(|i| *i < 5));
    l.add_row(7);
    assert_eq!(l.row_counts(), (4, 5));
}
''', needs="A row is added while the filter keeps all the rows so far", breaks="a row rejected by the filter is displayed and counted"),
dict(id="L01-c", property="L01",
 edits=[(LV, "        self.displayed_rows_count = count;\n        self.filter = Some(filter);", "        self.displayed_rows_count = count.max(self.selection.is_some() as usize);\n        self.filter = Some(filter);")],
 demo=LIST + '''
fn main() {
    let skin = MadSkin::default();
    let mut l = list(&skin, 10, 4);
    l.select_first_line();
    l.set_filter(Box::new(|i| *i > 50));
    assert_eq!(l.row_counts(), (0, 4));
}
''', needs="A filter rejecting everything is set while a row is selected", breaks="the count of displayed rows is wrong"),
dict(id="L02-a", property="L02",
 edits=[(LV, "            let delta_idx = if up { self.rows.len() - 1 - i } else { i + 1 };", "            let delta_idx = if up { self.rows.len() - 1 + i } else { i + 1 };")],
 demo=LIST + '''
fn main() {
    let skin = MadSkin::default();
    let mut l = list(&skin, 20, 6);
    l.select_last_line();
    l.try_select_next(true);
    assert_eq!(l.get_selection(), Some(&4));
    l.set_filter(Box::new(|i| *i != 3));
    l.try_select_next(true);
    assert_eq!(l.get_selection(), Some(&2));
}
''', needs="Going up over a row which isn't displayed", breaks="the row selected isn't the previous displayed one"),
dict(id="L02-b", property="L02",
 edits=[(LV, "        for i in (0..self.rows.len()).rev() {", "        for i in (self.scroll..self.rows.len()).rev() {")],
 demo=LIST + '''
fn main() {
    let skin = MadSkin::default();
    let mut l = list(&skin, 5, 10);
    l.scroll_to_bottom();
    l.set_filter(Box::new(|i| *i < 8));
    l.scroll_to_bottom();
    l.set_filter(Box::new(|i| *i < 8));
    l.remove_filter();
    l.set_filter(Box::new(|i| *i < 2));
    l.remove_filter();
    l.try_scroll_lines(7);
    l.clear_rows();
    let mut l = list(&skin, 5, 10);
    l.set_filter(Box::new(|i| *i < 4));
    l.scroll_to_bottom();
    l.try_scroll_lines(1);
    // scroll 2, displayed rows 0 to 3
    l.select_last_line();
    assert_eq!(l.get_selection(), Some(&3));
    let mut l = list(&skin, 3, 10);
    l.set_filter(Box::new(|i| *i < 1));
    for i in [0, 0, 0] {
        l.add_row(i);
    }
    assert_eq!(l.row_counts(), (4, 13));
    l.try_scroll_lines(9);
    l.add_row(5);
    let mut l = list(&skin, 4, 0);
    for i in [0, 0, 0, 0, 9, 9] {
        l.add_row(i);
    }
    l.set_filter(Box::new(|i| *i < 1));
    l.try_scroll_lines(3);
    l.select_last_line();
    assert!(l.get_selection().is_some());
    let mut l = list(&skin, 3, 5);
    l.try_scroll_lines(10);
    l.set_filter(Box::new(|_| false));
    for _ in 0..3 {
        l.remove_filter();
    }
    // scrolled to one row after the last one
    let mut l = list(&skin, 3, 1);
    l.try_scroll_lines(1);
    l.select_last_line();
    assert_eq!(l.get_selection(), Some(&0));
}
''', needs="The list is scrolled beyond the last displayed row", breaks="the last line isn't selected"),
dict(id="L02-c", property="L02",
 edits=[(LV, "        let stick_to_bottom = self.row_order.is_none() && self.do_scroll_show_bottom();\n        let displayed = match &self.filter {\n            Some(fun) => fun(&data),\n            None => true,\n        };\n        if displayed {\n            self.displayed_rows_count += 1;\n        }\n        if stick_to_bottom {",
         "        let displayed = match &self.filter {\n            Some(fun) => fun(&data),\n            None => true,\n        };\n        if displayed {\n            self.displayed_rows_count += 1;\n        }\n        let stick_to_bottom = self.row_order.is_none() && self.do_scroll_show_bottom();\n        if stick_to_bottom {")],
 demo=LIST + '''
fn main() {
    let skin = MadSkin::default();
    let l = list(&skin, 6, 9);
    assert_eq!(shown(&l), ["5", "6", "7", "8"]);
}
''', needs="Rows are added until they don't fit", breaks="a list showing its last row doesn't follow"),
]
SEEDS += [
dict(id="L03-a", property="L03",
 edits=[(LV, "                if row_idx == self.rows.len() {", "                if row_idx >= self.displayed_rows_count {")],
 demo=LIST + '''
fn main() {
    let skin = MadSkin::default();
    let mut l = list(&skin, 10, 6);
    l.set_filter(Box::new(|i| *i > 3));
    assert_eq!(shown(&l), ["4", "5"]);
}
''', needs="A filter rejecting some of the first rows", breaks="rows kept by the filter aren't drawn"),
dict(id="L03-b", property="L03",
 edits=[(LV, "                if sctop <= y && y <= scbottom {\n                    self.skin.scrollbar.thumb", "                if sctop <= y && y < scbottom.max(sctop + 1) {\n                    self.skin.scrollbar.thumb")],
 demo=LIST + '''
fn main() {
    let mut skin = MadSkin::default();
    skin.scrollbar.thumb.set_char('T');
    skin.scrollbar.track.set_char('K');
    let l = list(&skin, 12, 20);
    let (top, bottom) = l.scrollbar().unwrap();
    let mut w = Vec::new();
    l.write_on(&mut w).unwrap();
    let s = String::from_utf8(w).unwrap();
    assert_eq!(s.matches('T').count(), (bottom - top + 1) as usize);
}
''', needs="A scrollbar whose thumb has several rows", breaks="the last row of the thumb isn't drawn"),
dict(id="L03-c", property="L03",
 edits=[(LV, "                    let selected = Some(row_idx) == self.selection;", "                    let selected = Some(row_idx) == self.selection;\n                    if selected && y + 1 == self.area.height {\n                        // the selected row is never the last one drawn\n                        break;\n                    }")],
 demo=LIST + '''
fn main() {
    let skin = MadSkin::default();
    let mut l = list(&skin, 6, 4);
    l.select_last_line();
    assert_eq!(shown(&l), ["0", "1", "2", "3"]);
}
''', needs="The selected row is on the last line of the area", breaks="the selected row isn't drawn"),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
