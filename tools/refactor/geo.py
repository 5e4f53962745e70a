V = {}
A = "src/area.rs"
O = "src/views/pos.rs"


def v(name, *edits):
    V[name] = (["V05"], list(edits))


v("g_ranges", (A, "        x >= self.left && x < self.left + self.width && y >= self.top && y < self.top + self.height\n",
               "        let in_columns = self.left <= x && x < self.right();\n        let in_rows = self.top <= y && y < self.bottom();\n        in_columns & in_rows\n"))
v("g_not", (A, "        x >= self.left && x < self.left + self.width && y >= self.top && y < self.top + self.height\n",
            "        if x < self.left || y < self.top {\n            return false;\n        }\n        !(x - self.left >= self.width || y - self.top >= self.height)\n"))
v("g_pad", (A, '''        self.left += dx;
        self.top += dy;
        self.width -= 2 * dx;
        self.height -= 2 * dy;
''', '''        let width = self.width - dx * 2;
        let height = self.height - dy * 2;
        *self = Area::new(self.left + dx, self.top + dy, width, height);
'''))
v("g_max", (A, '''        if max_width >= self.width {
            return;
        }
        let pw = self.width - max_width;
        self.left += pw / 2;
        self.width -= pw;
''', '''        if let Some(pw) = self.width.checked_sub(max_width) {
            self.left += pw >> 1;
            self.width = max_width;
        }
'''))
v("g_max2", (A, '''        if max_width >= self.width {
            return;
        }
        let pw = self.width - max_width;
        self.left += pw / 2;
        self.width -= pw;
''', '''        let pw = self.width.saturating_sub(max_width);
        self.left += pw / 2;
        self.width = self.width.min(max_width);
'''))
v("g_full", (A, '''        let (width, height) = terminal_size();
        Area {
            left: 0,
            top: 0,
            width,
            height,
        }
''', '''        let size = terminal_size();
        Self::new(0, 0, size.0, size.1)
'''))
v("r_lex", (O, '''        if self.min.y == self.max.y {
            y == self.min.y && self.min.x <= x && x <= self.max.x
        } else if y < self.min.y || y > self.max.y {
            false
        } else if y == self.min.y {
            x >= self.min.x
        } else if y == self.max.y {
            x <= self.max.x
        } else {
            true
        }
''', '''        let after_min = y > self.min.y || (y == self.min.y && x >= self.min.x);
        let before_max = y < self.max.y || (y == self.max.y && x <= self.max.x);
        after_min && before_max
'''))
v("r_pos", (O, '''    pub const fn contains_pos(&self, pos: Pos) -> bool {
        self.contains(pos.x, pos.y)
''', '''    pub fn contains_pos(&self, pos: Pos) -> bool {
        self.min <= pos && pos <= self.max
'''))
v("r_ord", (O, '''#[derive(Debug, Clone, Copy, PartialEq, Eq, Ord, PartialOrd, Default)]
pub struct Pos {
    pub y: usize,
    pub x: usize,
}
''', '''#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct Pos {
    pub x: usize,
    pub y: usize,
}

impl Ord for Pos {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.y.cmp(&other.y).then(self.x.cmp(&other.x))
    }
}

impl PartialOrd for Pos {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
'''), (O, "use std::cmp::{\n    Ord,\n    PartialOrd,\n};\n", ""))
