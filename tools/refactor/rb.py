V = {}
N = "src/views/input_field_content.rs"
F = "src/views/input_field.rs"


def v(name, *edits):
    V[name] = (["I07", "I08"], list(edits))


v("n_display", (N, '''        let mut lines = self.lines.iter().peekable();
        while let Some(line) = lines.next() {
            for &c in &line.chars {
                f.write_char(c)?;
            }
            if lines.peek().is_some() {
                f.write_char('\\n')?;
            }
        }
''', '''        for (i, line) in self.lines.iter().enumerate() {
            if i > 0 {
                f.write_char('\\n')?;
            }
            for c in line.chars.iter() {
                f.write_char(*c)?;
            }
        }
'''))
v("n_display2", (N, '''            for &c in &line.chars {
                f.write_char(c)?;
            }
            if lines.peek().is_some() {
                f.write_char('\\n')?;
            }
''', '''            write!(f, "{}", line)?;
            if lines.peek().is_some() {
                writeln!(f)?;
            }
'''))
v("n_eq", (N, '''        let mut ia = self.into_iter();
        let mut ib = s.chars();
        loop {
            match (ia.next(), ib.next()) {
                (Some(a), Some(b)) if a == b => continue,
                (None, None) => {
                    return true;
                }
                _ => {
                    return false;
                }
            }
        }
''', '''        self.into_iter().eq(s.chars())
'''))
v("n_eq2", (N, '''        let mut ia = self.into_iter();
        let mut ib = s.chars();
        loop {
            match (ia.next(), ib.next()) {
                (Some(a), Some(b)) if a == b => continue,
                (None, None) => {
                    return true;
                }
                _ => {
                    return false;
                }
            }
        }
''', '''        let mut ib = s.chars();
        for a in self {
            if ib.next() != Some(a) {
                return false;
            }
        }
        ib.next().is_none()
'''))
v("n_selstr", (N, "        self.selection_chars().collect()\n", '''        let mut s = String::new();
        for c in self.selection_chars() {
            s.push(c);
        }
        s
'''))
v("n_set", (N, '''        if self.is_str(s.as_ref()) {
            return;
        }
        self.clear();
        self.insert_str(s);
''', '''        let s = s.as_ref();
        if !self.is_str(s) {
            *self = Self::from(s);
        }
'''))
v("n_from", (N, '''        let mut content = Self::default();
        content.insert_str(s);
        content
''', '''        let mut content = Self::default();
        s.as_ref().chars().for_each(|c| content.insert_char(c));
        content
'''))
v("n_ins", (N, '''        for c in s.as_ref().chars() {
            self.insert_char(c);
        }
''', '''        let mut chars = s.as_ref().chars();
        while let Some(c) = chars.next() {
            match c {
                '\\n' => self.insert_new_line(),
                _ => self.insert_char(c),
            }
        }
'''))
v("n_next", (N, '''        let line = &self.content.lines[self.pos.y];
        if self.pos.x < line.chars.len() {
            self.pos.x += 1;
            Some(line.chars[self.pos.x - 1])
        } else if self.pos.y + 1 < self.content.lines.len() {
            self.pos.y += 1;
            self.pos.x = 0;
            Some('\\n')
        } else {
            None
        }
''', '''        let content = self.content;
        match content.lines[self.pos.y].chars.get(self.pos.x) {
            Some(&c) => {
                self.pos.x += 1;
                Some(c)
            }
            None if self.pos.y == content.lines.len() - 1 => None,
            None => {
                self.pos = Pos::new(0, self.pos.y + 1);
                Some('\\n')
            }
        }
'''))
v("n_get", (F, "        self.content.to_string()\n", '        format!("{}", self.content)\n'))
v("n_cut", (F, '''        let s = self.content.selection_string();
        self.content.del_selection();
        self.fix_scroll();
        s
''', '''        let s = self.copy_selection();
        self.del_selection();
        s
'''))
v("n_width", (N, '''        self.chars
            .iter()
            .map(|&c| InputFieldContent::char_width(c))
            .sum()
''', '''        self.char_idx_to_col(self.chars.len())
'''), (N, '''        self.chars[0..idx]
            .iter()
            .map(|&c| InputFieldContent::char_width(c))
            .sum()
''', '''        let mut w = 0;
        for &c in &self.chars[..idx] {
            w += InputFieldContent::char_width(c);
        }
        w
'''))
v("n_width2", (N, '''        self.chars[0..idx]
            .iter()
            .map(|&c| InputFieldContent::char_width(c))
            .sum()
''', '''        self.chars.iter().take(idx).fold(0, |w, &c| w + InputFieldContent::char_width(c))
'''))
v("n_col", (N, '''        let mut sum_widths = 0;
        for (idx, &c) in self.chars.iter().enumerate() {
            if col <= sum_widths {
                return Some(idx);
            }
            sum_widths += InputFieldContent::char_width(c);
        }
        None
''', '''        let mut end = 0;
        self.chars.iter().position(|&c| {
            let start = end;
            end += InputFieldContent::char_width(c);
            start >= col
        })
'''))
v("n_col2", (N, '''        let mut sum_widths = 0;
        for (idx, &c) in self.chars.iter().enumerate() {
            if col <= sum_widths {
                return Some(idx);
            }
            sum_widths += InputFieldContent::char_width(c);
        }
        None
''', '''        let mut remaining = col;
        for idx in 0..self.chars.len() {
            if remaining == 0 {
                return Some(idx);
            }
            remaining = remaining.saturating_sub(InputFieldContent::char_width(self.chars[idx]));
        }
        None
'''))
v("n_charw", (N, '''        match c {
            '\\t' => TAB_REPLACEMENT.len(),
            _ => UnicodeWidthChar::width(c).unwrap_or(0),
        }
''', '''        if c == '\\t' {
            return TAB_REPLACEMENT.len();
        }
        match c.width() {
            Some(w) => w,
            None => 0,
        }
'''))
