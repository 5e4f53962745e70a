C = "src/views/input_field_content.rs"
F = "src/views/input_field.rs"
IC = ["I01", "I02", "I03", "I04"]
IF = ["I05", "I06"]
IV = ["V04"]
V = {}
def v(name, props, *edits):
    V[name] = (props, list(edits))

v("c_valid_ifelse", IC, (C, '''        if pos.y >= self.lines.len() {
            self.end()
        } else {
            pos.x = pos.x.min(self.lines[pos.y].chars.len());
            pos
        }
''', '''        match self.lines.get(pos.y) {
            Some(line) => {
                pos.x = pos.x.min(line.chars.len());
                pos
            }
            None => self.end(),
        }
'''))
v("c_valid_early", IC, (C, '''        if pos.y >= self.lines.len() {
            self.end()
        } else {
            pos.x = pos.x.min(self.lines[pos.y].chars.len());
            pos
        }
''', '''        if pos.y < self.lines.len() {
            let len = self.lines[pos.y].chars.len();
            if pos.x > len {
                pos.x = len;
            }
            return pos;
        }
        self.end()
'''))
v("c_end_last", IC, (C, '''        let y = self.lines.len() - 1;
        Pos {
            x: self.lines[y].chars.len(),
            y,
        }
''', '''        let y = self.lines.len() - 1;
        let x = self.lines.last().map_or(0, |line| line.chars.len());
        Pos::new(x, y)
'''))
v("c_makesel", IC, (C, '''        if self.selection_tail.is_none() {
            self.selection_tail = Some(self.pos);
        }
''', '''        self.selection_tail.get_or_insert(self.pos);
'''))
v("c_makesel_or", IC, (C, '''        if self.selection_tail.is_none() {
            self.selection_tail = Some(self.pos);
        }
''', '''        self.selection_tail = self.selection_tail.or(Some(self.pos));
'''))
v("c_fixtail_map", IC, (C, '''        if let Some(sel_tail) = self.selection_tail {
            self.selection_tail = Some(self.make_valid_pos(sel_tail));
        }
''', '''        self.selection_tail = self.selection_tail.map(|tail| self.make_valid_pos(tail));
'''))
v("c_sel_minmax", IC, (C, '''        if let Some(sel_tail) = self.selection_tail {
            if sel_tail < self.pos {
                Range {
                    min: sel_tail,
                    max: self.pos,
                }
            } else {
                Range {
                    min: self.pos,
                    max: sel_tail,
                }
            }
        } else {
            Range {
                min: self.pos,
                max: self.pos,
            }
        }
''', '''        let tail = self.selection_tail.unwrap_or(self.pos);
        Range {
            min: tail.min(self.pos),
            max: tail.max(self.pos),
        }
'''))
v("c_sel_match", IC, (C, '''        if let Some(sel_tail) = self.selection_tail {
            if sel_tail < self.pos {
                Range {
                    min: sel_tail,
                    max: self.pos,
                }
            } else {
                Range {
                    min: self.pos,
                    max: sel_tail,
                }
            }
        } else {
            Range {
                min: self.pos,
                max: self.pos,
            }
        }
''', '''        let (min, max) = match self.selection_tail {
            None => (self.pos, self.pos),
            Some(tail) if tail < self.pos => (tail, self.pos),
            Some(tail) => (self.pos, tail),
        };
        Range { min, max }
'''))
v("c_wide_match", IC, (C, '''        self.selection_tail
            .map_or(false, |sel_tail| sel_tail != self.pos)
''', '''        match self.selection_tail {
            Some(sel_tail) => sel_tail != self.pos,
            None => false,
        }
'''))
v("c_clear_vec", IC, (C, '''        self.lines.clear();
        self.lines.push(Line::default());
        self.pos = Pos::default();
        self.selection_tail = None;
''', '''        *self = Self::default();
'''))
v("c_clear_order", IC, (C, '''        self.lines.clear();
        self.lines.push(Line::default());
        self.pos = Pos::default();
        self.selection_tail = None;
''', '''        self.unselect();
        self.pos = Pos { x: 0, y: 0 };
        self.lines = vec![Line::default()];
'''))
v("c_nl_let", IC, (C, '''        let new_line = Line {
            chars: self.lines[self.pos.y].chars.split_off(self.pos.x),
        };
        self.pos.x = 0;
        self.pos.y += 1;
        self.lines.insert(self.pos.y, new_line);
''', '''        let Pos { x, y } = self.pos;
        let chars = self.lines[y].chars.split_off(x);
        self.lines.insert(y + 1, Line { chars });
        self.pos = Pos::new(0, y + 1);
'''))
v("c_ins_match", IC, (C, '''        if c == '\\n' {
            self.insert_new_line();
        } else if c == '\\r' || c == '\\x08' {
            // skipping
        } else {
            self.lines[self.pos.y].chars.insert(self.pos.x, c);
            self.pos.x += 1;
        }
''', '''        match c {
            '\\n' => self.insert_new_line(),
            '\\r' | '\\x08' => {}
            _ => {
                let Pos { x, y } = self.pos;
                self.lines[y].chars.insert(x, c);
                self.pos.x = x + 1;
            }
        }
'''))
v("c_insstr_each", IC, (C, '''        for c in s.as_ref().chars() {
            self.insert_char(c);
        }
''', '''        s.as_ref().chars().for_each(|c| self.insert_char(c));
'''))
v("c_setstr", IC, (C, '''        if self.is_str(s.as_ref()) {
            return;
        }
        self.clear();
        self.insert_str(s);
''', '''        if !self.is_str(s.as_ref()) {
            self.clear();
            self.insert_str(s);
        }
'''))
v("c_delleft_early", IC, (C, '''        if self.pos.x > 0 {
            self.pos.x -= 1;
            if !self.lines[self.pos.y].chars.is_empty() {
                self.lines[self.pos.y].chars.remove(self.pos.x);
            }
            self.fix_selection();
            true
        } else if self.pos.y > 0 && self.lines.len() > 1 {
''', '''        if self.pos.x > 0 {
            self.pos.x -= 1;
            let x = self.pos.x;
            let chars = &mut self.lines[self.pos.y].chars;
            if !chars.is_empty() {
                chars.remove(x);
            }
            self.fix_selection();
            return true;
        }
        if self.pos.y > 0 && self.lines.len() > 1 {
'''))
v("c_delleft_extend", IC, (C, '''            let mut removed_line = self.lines.remove(self.pos.y);
            self.pos.y -= 1;
            self.pos.x = self.lines[self.pos.y].chars.len();
            self.lines[self.pos.y].chars.append(&mut removed_line.chars);
            self.fix_selection();
''', '''            let removed_line = self.lines.remove(self.pos.y);
            let y = self.pos.y - 1;
            let line = &mut self.lines[y];
            self.pos = Pos::new(line.chars.len(), y);
            line.chars.extend(removed_line.chars);
            self.fix_selection();
'''))
v("c_word_rpos", IC, (C, '''        while start > 0 && is_word_char(chars[start - 1]) {
            start -= 1;
        }
        let mut end''', '''        loop {
            if start == 0 || !is_word_char(chars[start - 1]) {
                break;
            }
            start -= 1;
        }
        let mut end'''))
v("c_below_match", IC, (C, '''        } else if self.pos.x < line_len {
            self.lines[self.pos.y].chars.remove(self.pos.x);
            self.fix_selection();
            true
        } else if self.lines.len() > self.pos.y + 1 {
''', '''        } else if line_len > self.pos.x {
            let Pos { x, y } = self.pos;
            self.lines[y].chars.remove(x);
            self.fix_selection();
            true
        } else if self.pos.y < self.lines.len() - 1 {
'''))
v("c_below_join", IC, (C, '''            let mut removed_line = self.lines.remove(self.pos.y + 1);
            self.lines[self.pos.y].chars.append(&mut removed_line.chars);
            self.fix_selection();
            true
''', '''            self.join_next_line();
            self.fix_selection();
            true
'''), (C, '''    fn fix_pos(''', '''    fn join_next_line(&mut self) {
        let mut next = self.lines.remove(self.pos.y + 1);
        self.lines[self.pos.y].chars.append(&mut next.chars);
    }
    fn fix_pos('''))
v("c_delsel_incl", IC, (C, '''                self.lines[min.y].chars.drain(min.x..max.x + 1);
''', '''                self.lines[min.y].chars.drain(min.x..=max.x);
'''))
v("c_delsel_trunc", IC, (C, '''                    self.lines[min.y].chars.drain(min.x..);
''', '''                    self.lines[min.y].chars.truncate(min.x);
'''))
v("c_delsel_remove", IC, (C, '''                    self.lines.drain(min.y..min.y + 1);
''', '''                    self.lines.remove(min.y);
'''))
v("c_delsel_linesincl", IC, (C, '''                self.lines.drain(min.y + 1..max.y + 1);
            }
''', '''                self.lines.drain(min.y + 1..=max.y);
            }
'''), (C, '''                self.lines.drain(min.y..max.y + 1);
''', '''                self.lines.drain(min.y..=max.y);
'''))
v("c_delsel_helper", IC, (C, '''                    self.lines.drain(min.y..min.y + 1);
                    if self.lines.is_empty() {
                        self.lines.push(Line::default());
                    }
''', '''                    self.remove_lines(min.y, min.y);
'''), (C, '''                self.lines.drain(min.y..max.y + 1);
                if self.lines.is_empty() {
                    self.lines.push(Line::default());
                }
''', '''                self.remove_lines(min.y, max.y);
'''), (C, '''    fn fix_pos(''', '''    fn remove_lines(&mut self, first: usize, last: usize) {
        self.lines.drain(first..last + 1);
        if self.lines.is_empty() {
            self.lines.push(Line::default());
        }
    }
    fn fix_pos('''))
v("c_delsel_end", IC, (C, '''        self.set_cursor_pos(min);
        self.selection_tail = None;
        true
''', '''        self.unselect();
        self.pos = min;
        self.fix_pos();
        true
'''))
v("c_swap_early", IC, (C, '''        if ya != yb && ya < self.lines.len() && yb < self.lines.len() {
            self.lines.swap(ya, yb);
            self.fix_selection();
            true
        } else {
            false
        }
''', '''        let len = self.lines.len();
        if ya == yb || ya >= len || yb >= len {
            return false;
        }
        self.lines.swap(ya, yb);
        self.fix_selection();
        true
'''))
v("c_mclu", IC, (C, '''        let Pos { x, y } = self.pos;
        if y > 0 && self.swap_lines(y - 1, y) {
            self.pos = Pos::new(x, y - 1);
            self.fix_selection();
            true
        } else {
            false
        }
''', '''        let Pos { x, y } = self.pos;
        if y == 0 || !self.swap_lines(y, y - 1) {
            return false;
        }
        self.pos = Pos { x, y: y - 1 };
        self.fix_selection();
        true
'''))
v("c_right_bind", IC, (C, '''        if self.pos.x < self.lines[self.pos.y].chars.len() {
            self.pos.x += 1;
            true
        } else if self.pos.y < self.lines.len() - 1 {
            self.pos.y += 1;
            self.pos.x = 0;
            true
        } else {
            false
        }
''', '''        if !self.can_move_right() {
            return false;
        }
        if self.pos.x < self.current_line().chars.len() {
            self.pos.x += 1;
        } else {
            self.pos = Pos::new(0, self.pos.y + 1);
        }
        true
'''))
v("c_up_early", IC, (C, '''        if self.pos.y > 0 {
            let cols = self.lines[self.pos.y].char_idx_to_col(self.pos.x);
            self.pos.y -= lines.min(self.pos.y);
            let line = &self.lines[self.pos.y];
            self.pos.x = line.col_to_char_idx(cols).unwrap_or(line.chars.len());
            true
        } else {
            false
        }
''', '''        if self.pos.y == 0 {
            return false;
        }
        self.move_to_line(self.pos.y.saturating_sub(lines));
        true
'''), (C, '''    fn fix_pos(''', '''    fn move_to_line(&mut self, y: usize) {
        let cols = self.current_line().char_idx_to_col(self.pos.x);
        let line = &self.lines[y];
        let x = match line.col_to_char_idx(cols) {
            Some(x) => x,
            None => line.chars.len(),
        };
        self.pos = Pos { x, y };
    }
    fn fix_pos('''))
v("c_down_min", IC, (C, '''            self.pos.y += lines.min(self.lines.len() - self.pos.y - 1);
''', '''            self.pos.y = (self.pos.y + lines).min(self.lines.len() - 1);
'''))
v("c_left_match", IC, (C, '''        if self.pos.x > 0 {
            self.pos.x -= 1;
            true
        } else if self.pos.y > 0 {
            self.pos.y -= 1;
            self.pos.x = self.lines[self.pos.y].chars.len();
            true
        } else {
            false
        }
''', '''        match self.pos {
            Pos { x: 0, y: 0 } => return false,
            Pos { x: 0, y } => {
                self.pos = Pos::new(self.lines[y - 1].chars.len(), y - 1);
            }
            _ => self.pos.x -= 1,
        }
        true
'''))
v("c_toend", IC, (C, '''        let pos = self.end();
        if pos == self.pos {
            false
        } else {
            self.pos = pos;
            true
        }
''', '''        let old = self.pos;
        self.pos = self.end();
        self.pos != old
'''))
v("c_tolineend", IC, (C, '''        if self.pos.x < line_len {
            self.pos.x = line_len;
            true
        } else {
            false
        }
''', '''        let moves = self.pos.x < line_len;
        if moves {
            self.pos.x = line_len;
        }
        moves
'''))
v("c_wordleft", IC, (C, '''            let chars = &self.lines[self.pos.y].chars;
            loop {
                self.pos.x -= 1;
                if self.pos.x == 0 || !chars[self.pos.x - 1].is_alphanumeric() {
                    break;
                }
            }
            true
''', '''            let chars = &self.lines[self.pos.y].chars;
            let mut x = self.pos.x - 1;
            while x > 0 && chars[x - 1].is_alphanumeric() {
                x -= 1;
            }
            self.pos.x = x;
            true
'''))
v("c_wordright", IC, (C, '''            let chars = &self.lines[self.pos.y].chars;
            loop {
                self.pos.x += 1;
                if self.pos.x + 1 >= chars.len() || !chars[self.pos.x + 1].is_alphanumeric() {
                    break;
                }
            }
            true
''', '''            let chars = &self.lines[self.pos.y].chars;
            self.pos.x += 1;
            while self.pos.x + 1 < chars.len() && chars[self.pos.x + 1].is_alphanumeric() {
                self.pos.x += 1;
            }
            true
'''))
v("c_delwordleft", IC, (C, '''            loop {
                self.pos.x -= 1;
                chars.remove(self.pos.x);
                if self.pos.x == 0 || !chars[self.pos.x - 1].is_alphanumeric() {
                    break;
                }
            }
''', '''            self.pos.x -= 1;
            chars.remove(self.pos.x);
            while self.pos.x > 0 && chars[self.pos.x - 1].is_alphanumeric() {
                self.pos.x -= 1;
                chars.remove(self.pos.x);
            }
'''))
v("c_delwordleft_drain", IC, (C, '''            loop {
                self.pos.x -= 1;
                chars.remove(self.pos.x);
                if self.pos.x == 0 || !chars[self.pos.x - 1].is_alphanumeric() {
                    break;
                }
            }
''', '''            let end = self.pos.x;
            let mut start = end - 1;
            while start > 0 && chars[start - 1].is_alphanumeric() {
                start -= 1;
            }
            chars.drain(start..end);
            self.pos.x = start;
'''))
v("c_delwordright", IC, (C, '''                if self.pos.x == chars.len() {
                    if self.pos.x > 0 {
                        self.pos.x -= 1;
                    }
                    break;
                }
''', '''                if self.pos.x == chars.len() {
                    self.pos.x = self.pos.x.saturating_sub(1);
                    break;
                }
'''))
v("c_coltoidx_pos", IC + ["I05", "I06"], (C, '''        let mut sum_widths = 0;
        for (idx, &c) in self.chars.iter().enumerate() {
            if col <= sum_widths {
                return Some(idx);
            }
            sum_widths += InputFieldContent::char_width(c);
        }
        None
''', '''        let mut sum_widths = 0;
        self.chars.iter().position(|&c| {
            let found = col <= sum_widths;
            sum_widths += InputFieldContent::char_width(c);
            found
        })
'''))
v("c_idxtocol_for", IC + ["I05", "I06"], (C, '''        self.chars[0..idx]
            .iter()
            .map(|&c| InputFieldContent::char_width(c))
            .sum()
''', '''        let mut col = 0;
        for &c in &self.chars[..idx] {
            col += InputFieldContent::char_width(c);
        }
        col
'''))
v("c_width_idx", IC + ["I05", "I06"], (C, '''    pub fn width(&self) -> usize {
        self.chars
            .iter()
            .map(|&c| InputFieldContent::char_width(c))
            .sum()
''', '''    pub fn width(&self) -> usize {
        self.char_idx_to_col(self.chars.len())
'''))
v("c_chars_next", IC, (C, '''        let line = &self.content.lines[self.pos.y];
        if self.pos.x < line.chars.len() {
            self.pos.x += 1;
            Some(line.chars[self.pos.x - 1])
        } else if''', '''        let line = &self.content.lines[self.pos.y];
        if let Some(&c) = line.chars.get(self.pos.x) {
            self.pos.x += 1;
            Some(c)
        } else if'''))
v("c_isstr_eq", IC, (C, '''        let mut ia = self.into_iter();
        let mut ib = s.chars();
        loop {
            match (ia.next(), ib.next()) {
                (Some(a), Some(b)) if a == b => continue,
                (None, None) => {
                    return true;
                }
                _ => {
                    return false;
                }
            }
        }
''', '''        self.into_iter().eq(s.chars())
'''))
# ---- input field
v("f_wrap", IF, (F, '''            if self.content.$fun() {
                self.fix_scroll();
                true
            } else {
                false
            }
''', '''            let changed = self.content.$fun();
            if changed {
                self.fix_scroll();
            }
            changed
'''))
v("f_wrap_early", IF, (F, '''            if self.content.$fun() {
                self.fix_scroll();
                true
            } else {
                false
            }
''', '''            if !self.content.$fun() {
                return false;
            }
            self.fix_scroll();
            true
'''))
v("f_change_area", IF, (F, '''        if self.area.left != x || self.area.top != y || self.area.width != w {
            self.area.left = x;
            self.area.top = y;
            self.area.width = w;
            self.fix_scroll();
        }
''', '''        let height = self.area.height;
        self.set_area(Area::new(x, y, w, height));
'''))
v("f_focus", IF, (F, '''        if self.focused == b {
            return;
        }
        self.focused = b;
        // there's no reason to change the scroll when unfocusing
        if self.focused {
            self.fix_scroll();
        }
''', '''        let gains = b && !self.focused;
        self.focused = b;
        if gains {
            self.fix_scroll();
        }
'''))
v("f_replace", IF, (F, '''        if self.content.has_wide_selection() {
            self.content.del_selection();
        }
        self.content.insert_str(s);
        self.fix_scroll();
    }
    pub fn is_content''' if False else '''        if self.content.has_wide_selection() {
            self.content.del_selection();
        }
        self.content.insert_str(s);
        self.fix_scroll();
''', '''        if self.content.has_wide_selection() {
            self.content.del_selection();
        }
        self.insert_str(s);
'''))
v("f_pageup", IF, (F, '''        if self.content.move_lines_up(self.area.height as usize) {
            self.fix_scroll();
            true
        } else {
            false
        }
''', '''        let page = usize::from(self.area.height);
        let moved = self.content.move_lines_up(page);
        if moved {
            self.fix_scroll();
        }
        moved
'''))
v("f_comb_match", IF, (F, '''        match (key.codes, key.modifiers) {
            (OneToThree::One(code), Mod::NONE) => self.apply_keycode_event(code, false),
            (OneToThree::One(code), Mod::SHIFT) => self.apply_keycode_event(code, true),
            _ => false,
        }
''', '''        let shift = match key.modifiers {
            Mod::NONE => false,
            Mod::SHIFT => true,
            _ => return false,
        };
        match key.codes {
            OneToThree::One(code) => self.apply_keycode_event(code, shift),
            _ => false,
        }
'''))
v("f_comb_iflet", IF, (F, '''        match (key.codes, key.modifiers) {
            (OneToThree::One(code), Mod::NONE) => self.apply_keycode_event(code, false),
            (OneToThree::One(code), Mod::SHIFT) => self.apply_keycode_event(code, true),
            _ => false,
        }
''', '''        if let OneToThree::One(code) = key.codes {
            if key.modifiers == Mod::NONE || key.modifiers == Mod::SHIFT {
                return self.apply_keycode_event(code, key.modifiers == Mod::SHIFT);
            }
        }
        false
'''))
v("f_code_match", IF, (F, '''        if code == KeyCode::Backspace {
            if self.content.has_wide_selection() {
                self.del_selection()
            } else {
                self.del_char_left()
            }
        } else if code == KeyCode::Delete {
            if self.content.has_wide_selection() {
                self.del_selection()
            } else {
                self.del_char_below()
            }
        } else if let KeyCode::Char(c) = code {
            if self.content.has_wide_selection() {
                self.content.del_selection();
                self.put_char(c);
                self.fix_scroll();
                true
            } else {
                self.put_char(c)
            }
        } else {
            if shift {
                self.content.make_selection();
            } else {
                self.content.unselect();
            }
            match code {
                KeyCode::Home => self.move_to_line_start(),
                KeyCode::End => self.move_to_line_end(),
                KeyCode::Up => self.move_up(),
                KeyCode::Down => self.move_down(),
                KeyCode::Left => self.move_left(),
                KeyCode::PageUp => self.page_up(),
                KeyCode::PageDown => self.page_down(),
                KeyCode::Right => self.move_right(),
                _ => false,
            }
        }
''', '''        let wide = self.content.has_wide_selection();
        match code {
            KeyCode::Backspace | KeyCode::Delete if wide => self.del_selection(),
            KeyCode::Backspace => self.del_char_left(),
            KeyCode::Delete => self.del_char_below(),
            KeyCode::Char(c) => {
                if wide {
                    self.content.del_selection();
                }
                self.put_char(c)
            }
            _ => {
                if shift {
                    self.content.make_selection();
                } else {
                    self.content.unselect();
                }
                self.apply_move(code)
            }
        }
    }

    fn apply_move(&mut self, code: KeyCode) -> bool {
        match code {
            KeyCode::Home => self.move_to_line_start(),
            KeyCode::End => self.move_to_line_end(),
            KeyCode::Up => self.move_up(),
            KeyCode::Down => self.move_down(),
            KeyCode::Left => self.move_left(),
            KeyCode::PageUp => self.page_up(),
            KeyCode::PageDown => self.page_down(),
            KeyCode::Right => self.move_right(),
            _ => false,
        }
'''))
v("f_click_helper", IF, (F, '''            if self.focused {
                let y = ((y - self.area.top) as usize + self.scroll.y)
                    .min(self.content.line_count() - 1);
                let line = &self.content.lines()[y];
                let x = line
                    .col_to_char_idx((x - self.area.left) as usize + self.scroll.x)
                    .unwrap_or(line.chars.len());
                self.content.set_cursor_pos(Pos { x, y });
''', '''            if self.focused {
                let pos = self.pos_at(x, y);
                self.content.set_cursor_pos(pos);
'''), (F, '''                let y = ((row - self.area.top) as usize + self.scroll.y)
                    .min(self.content.line_count() - 1);
                let line = &self.content.lines()[y];
                let x = line
                    .col_to_char_idx((column - self.area.left) as usize + self.scroll.x)
                    .unwrap_or(line.chars.len());
''', '''                let Pos { x, y } = self.pos_at(column, row);
'''), (F, '''    fn fix_scroll(''', '''    fn pos_at(&self, column: u16, row: u16) -> Pos {
        let y = usize::from(row - self.area.top) + self.scroll.y;
        let y = y.min(self.content.line_count() - 1);
        let line = &self.content.lines()[y];
        let col = usize::from(column - self.area.left) + self.scroll.x;
        Pos {
            x: line.col_to_char_idx(col).unwrap_or_else(|| line.chars.len()),
            y,
        }
    }

    fn fix_scroll('''))
v("f_click_early", IF, (F, '''        if self.area.contains(x, y) {
            if self.focused {
                let y = ((y''', '''        if !self.area.contains(x, y) {
            return false;
        }
        {
            if self.focused {
                let y = ((y'''), (F, '''            } else {
                self.set_focus(true);
            }
            true
        } else {
            false
        }
    }
''', '''            } else {
                self.set_focus(true);
            }
            true
        }
    }
'''))
v("f_mouse_shift", IF, (F, '''                        if modifiers == KeyModifiers::SHIFT {
                            self.content.make_selection();
                        } else {
                            self.content.unselect();
                        }
''', '''                        match modifiers {
                            KeyModifiers::SHIFT => self.content.make_selection(),
                            _ => self.content.unselect(),
                        }
'''))
v("f_mouse_unfocused", IF, (F, '''            } else if matches!(kind, MouseEventKind::Down(MouseButton::Left)) {
''', '''            } else if kind == MouseEventKind::Down(MouseButton::Left) {
'''))
v("f_event_comb", IF, (F, '''                if modifiers.is_empty() {
                    self.apply_keycode_event(*code, false)
                } else if *modifiers == KeyModifiers::SHIFT {
                    self.apply_keycode_event(*code, true)
                } else {
                    false
                }
''', '''                let shift = *modifiers == KeyModifiers::SHIFT;
                (shift || modifiers.is_empty()) && self.apply_keycode_event(*code, shift)
'''))
v("f_scrolldown", IF, (F, '''        if self.scroll.y + height < lines_len {
            self.scroll.y += 1;
            true
        } else {
            false
        }
''', '''        if self.scroll.y + height >= lines_len {
            return false;
        }
        self.scroll.y += 1;
        true
'''))
v("f_fix_split", IF, (F, '''        let mut width = self.area.width as usize;
        let height = self.area.height as usize;
        let lines = &self.content.lines();
        let has_y_scroll = lines.len() > height;
''', '''        let height = self.area.height as usize;
        self.fix_scroll_y(height);
        self.fix_scroll_x(height);
    }

    fn fix_scroll_y(&mut self, height: usize) {
        let lines = &self.content.lines();
        let has_y_scroll = lines.len() > height;
'''), (F, '''        if has_y_scroll {
            width = width.saturating_sub(1);
        } else {
            self.scroll.y = 0;
        }
        let pos = self.content.cursor_pos();
''', '''        if !has_y_scroll {
            self.scroll.y = 0;
        }
        let pos = self.content.cursor_pos();
'''), (F, '''        let line = self.content.current_line();
        let line_width = line.width();
''', '''    }

    fn fix_scroll_x(&mut self, height: usize) {
        let mut width = self.area.width as usize;
        if self.content.line_count() > height {
            width = width.saturating_sub(1);
        }
        let pos = self.content.cursor_pos();
        let line = self.content.current_line();
        let line_width = line.width();
'''))
v("f_fix_min", IF, (F, '''            if self.scroll.y + height > lines.len() {
                self.scroll.y = lines.len() - height;
            }
''', '''            self.scroll.y = self.scroll.y.min(lines.len() - height);
'''))
v("f_fix_satx", IF, (F, '''                        if wpx < 2 {
                            self.scroll.x = 0;
                        } else {
                            self.scroll.x = wpx - 2;
                        }
''', '''                        self.scroll.x = wpx.saturating_sub(2);
'''))
v("f_fix_flat", IF, (F, '''                } else {
                    if wpx < self.scroll.x + 2 {
                        if wpx < 2 {
                            self.scroll.x = 0;
                        } else {
                            self.scroll.x = wpx - 2;
                        }
                    } else if wpx''', '''                } else {
                    let min_wpx = self.scroll.x + 2;
                    if wpx < min_wpx {
                        self.scroll.x = if wpx < 2 { 0 } else { wpx - 2 };
                    } else if wpx'''))
v("f_disp_style", IV, (F, '''        let normal_style = if self.focused {
            &self.focused_style
        } else {
            &self.unfocused_style
        };

        let mut width''', '''        let normal_style = match self.focused {
            true => &self.focused_style,
            false => &self.unfocused_style,
        };

        let mut width'''))
v("f_disp_get", IV, (F, '''            .map(|line| &line.chars)
            .enumerate()
            .skip(self.scroll.y);
''', '''            .enumerate()
            .skip(self.scroll.y);
'''), (F, '''            if let Some((y, chars)) = numbered_lines.next() {
''', '''            if let Some((y, line)) = numbered_lines.next() {
                let chars = &line.chars;
'''))
v("f_disp_index", IV, (F, '''        let mut numbered_lines = self
            .content
            .lines()
            .iter()
            .map(|line| &line.chars)
            .enumerate()
            .skip(self.scroll.y);

''', ''), (F, '''            if let Some((y, chars)) = numbered_lines.next() {
''', '''            let y = self.scroll.y + j as usize;
            if let Some(line) = self.content.line(y) {
                let chars = &line.chars;
'''))
v("f_disp_tail", IV, (F, '''                while displayed_width < width {
                    normal_style.queue(w, ' ')?;
                    displayed_width += 1;
                }
''', '''                for _ in displayed_width..width {
                    normal_style.queue(w, ' ')?;
                }
'''))
v("f_disp_tail_fill", IV, (F, '''                while displayed_width < width {
                    normal_style.queue(w, ' ')?;
                    displayed_width += 1;
                }
''', '''                if displayed_width < width {
                    SPACE_FILLING.queue_styled(w, normal_style, width - displayed_width)?;
                }
'''))
v("f_disp_sb", IV, (F, '''            if let Some((sctop, scbottom)) = scrollbar {
                let y = j + self.area.top;
                if sctop <= y && y <= scbottom {
                    scrollbar_style.thumb.queue(w)?;
                } else {
                    scrollbar_style.track.queue(w)?;
                }
            }
''', '''            if let Some((sctop, scbottom)) = scrollbar {
                let y = self.area.top + j;
                let part = if (sctop..=scbottom).contains(&y) {
                    &scrollbar_style.thumb
                } else {
                    &scrollbar_style.track
                };
                part.queue(w)?;
            }
'''))
v("f_disp_selected", IV, (F, '''                    let style = if self.focused && selection.contains(i, y) {
''', '''                    let selected = self.focused && selection.contains(i, y);
                    let style = if selected {
'''))
v("f_disp_match_tab", IV, (F, '''                    if c == '\\t' {
                        style.queue_str(w, TAB_REPLACEMENT)?;
                    } else {
                        style.queue(w, c)?;
                    }
''', '''                    match c {
                        '\\t' => style.queue_str(w, TAB_REPLACEMENT)?,
                        c => style.queue(w, c)?,
                    }
'''))
