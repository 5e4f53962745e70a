A = "src/area.rs"
O = "src/views/pos.rs"


def k(prop, n, edits, main, needs, breaks):
    return dict(id="%s-%s" % (prop, n), property=prop, edits=edits, demo="#![allow(unused)]\nuse termimad::*;\nfn main() {" + main + "}\n", needs=needs, breaks=breaks)


SEEDS = [
k("V05", "a", [(A, "        self.left += pw / 2;\n", "        self.left += pw.min(self.left) / 2;\n")], '''
    let mut a = Area::new(0, 0, 20, 5);
    a.pad_for_max_width(10);
    assert_eq!((a.left, a.width), (5, 10));
''', "an area near the left side of the screen limited to a much smaller width", "the area isn't centered in the former one"),
k("V05", "b", [(A, "x >= self.left && x < self.left + self.width && y >= self.top && y < self.top + self.height", "x.wrapping_sub(self.left) < self.width && y >= self.top && y - self.top < (if self.height > 0 { self.height } else { 1 })")], '''
    let a = Area::new(2, 3, 5, 0);
    assert!(!a.contains(3, 3));
    let a = Area::new(2, 3, 5, 2);
    assert!(a.contains(3, 4) && !a.contains(3, 5) && !a.contains(1, 4));
''', "an area without row", "an empty area contains cells"),
k("V05", "c", [(O, '''        } else if y == self.max.y {
            x <= self.max.x
''', '''        } else if y == self.max.y && self.max.x > 0 {
            x <= self.max.x
''')], '''
    let mut c = InputField::new(Area::new(0, 0, 20, 4)).content().clone();
    c.insert_str("abcd\\nefgh\\nijkl");
    let mut p = c.cursor_pos();
    p.x = 0;
    c.set_cursor_pos(p);
    p.x = 3;
    p.y = 0;
    c.set_selection_tail(p);
    let r = c.selection();
    assert!(r.contains(0, 2) && !r.contains(1, 2) && r.contains(2, 1) && !r.contains(2, 0));
''', "a selection of several lines which ends on the first char of its last line", "the whole last line is taken as selected"),
k("V05", "d", [(A, "        compute_scrollbar(scroll, content_height, self.height, self.top)\n", "        compute_scrollbar(scroll, content_height, self.height, self.top.min(self.height))\n")], '''
    let a = Area::new(0, 20, 10, 5);
    assert_eq!(a.scrollbar(0, 10usize), compute_scrollbar(0usize, 10usize, 5u16, 20u16));
''', "an area lower on the screen than it's high", "the scrollbar isn't on the rows of the area"),
]
