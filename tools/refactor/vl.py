A = "src/area.rs"
T = "src/views/text_view.rs"
L = "src/views/list_view.rs"
VV = ["V01", "V02", "V03"]
LL = ["L01", "L02", "L03"]
V = {}
def v(name, props, *edits):
    V[name] = (props, list(edits))

v("csb_early", ["V02"], (A, '''    let mut track_before = scroll * available_height / content_height;
    if track_before == 0 && scroll > 0 && available_height > 1 {
        track_before = 1;
    }
''', '''    let track_before = match scroll * available_height / content_height {
        0 if scroll > 0 && available_height > 1 => 1,
        n => n,
    };
'''))
v("csb_one_min", ["V02"], (A, '''    let mut scrollbar_bottom = scrollbar_top + thumb_height;
    if scroll + available_height < content_height && available_height > 3 {
        scrollbar_bottom = scrollbar_bottom
            .min(top + available_height - 2)
            .max(scrollbar_top);
    } else {
        scrollbar_bottom = scrollbar_bottom
            .min(top + available_height.saturating_sub(1))
            .max(scrollbar_top);
    }
''', '''    let more_below = scroll + available_height < content_height;
    let last = if more_below && available_height > 3 {
        top + available_height - 2
    } else {
        top + available_height.saturating_sub(1)
    };
    let scrollbar_bottom = (scrollbar_top + thumb_height).min(last).max(scrollbar_top);
'''))
v("csb_helper", ["V01", "V02", "V03", "L03", "V04"], (A, '''    let scroll: usize = scroll.into();
    let content_height: usize = content_height.into();
    let available_height: usize = available_height.into();
    let top: usize = top.into();
    if content_height <= available_height {
        return None;
    }
''', '''    let (scroll, content_height): (usize, usize) = (scroll.into(), content_height.into());
    let available_height: usize = available_height.into();
    let top: usize = top.into();
    let (scrollbar_top, scrollbar_bottom) = scrollbar_ends(scroll, content_height, available_height, top)?;
    let scrollbar_top = scrollbar_top.try_into().unwrap();
    let scrollbar_bottom = scrollbar_bottom.try_into().unwrap();
    Some((scrollbar_top, scrollbar_bottom))
}

fn scrollbar_ends(
    scroll: usize,
    content_height: usize,
    available_height: usize,
    top: usize,
) -> Option<(usize, usize)> {
    if available_height >= content_height {
        return None;
    }
'''), (A, '''    // by construction those two conversions are OK
    // (or it's a bug, which, well, is possible...)
    let scrollbar_top = scrollbar_top.try_into().unwrap();
    let scrollbar_bottom = scrollbar_bottom.try_into().unwrap();
    Some((scrollbar_top, scrollbar_bottom))
}

''', '''    Some((scrollbar_top, scrollbar_bottom))
}

'''))
v("csb_ifs", ["V02"], (A, '''        scrollbar_bottom = scrollbar_bottom
            .min(top + available_height - 2)
            .max(scrollbar_top);
    } else {''', '''        let last = top + available_height - 2;
        if scrollbar_bottom > last {
            scrollbar_bottom = last;
        }
        if scrollbar_bottom < scrollbar_top {
            scrollbar_bottom = scrollbar_top;
        }
    } else {'''))
v("csb_max1", ["V02"], (A, '''    if track_before == 0 && scroll > 0 && available_height > 1 {
        track_before = 1;
    }
''', '''    if scroll > 0 && available_height > 1 {
        track_before = track_before.max(1);
    }
'''))
# ---- text view
v("tv_sb_then", VV, (T, '''        if self.show_scrollbar {
            self.area
                .scrollbar(self.scroll as u16, self.content_height() as u16)
        } else {
            None
        }
''', '''        if !self.show_scrollbar {
            return None;
        }
        let content_height = self.content_height() as u16;
        self.area.scrollbar(self.scroll as u16, content_height)
'''))
v("tv_write_get", VV + ["E01"], (T, '''        let mut lines = self.text.lines.iter().skip(self.scroll);
''', ''), (T, '''            if let Some(line) = lines.next() {
''', '''            if let Some(line) = self.text.lines.get(self.scroll + j as usize) {
'''))
v("tv_write_helper", VV + ["E01"], (T, '''            if let Some((sctop, scbottom)) = scrollbar {
                if sctop <= y && y <= scbottom {
                    self.text.skin.scrollbar.thumb.queue(w)?;
                } else {
                    self.text.skin.scrollbar.track.queue(w)?;
                }
            }
        }
        Ok(())
    }
''', '''            if let Some(ends) = scrollbar {
                self.write_scrollbar_cell(w, y, ends)?;
            }
        }
        Ok(())
    }

    fn write_scrollbar_cell<W: Write>(&self, w: &mut W, y: u16, ends: (u16, u16)) -> Result<()> {
        let style = &self.text.skin.scrollbar;
        let on_thumb = (ends.0..=ends.1).contains(&y);
        let sc = if on_thumb { &style.thumb } else { &style.track };
        sc.queue(w)
    }
'''))
v("tv_write_y", VV + ["E01"], (T, '''        for j in 0..self.area.height {
            let y = self.area.top + j;
''', '''        for y in self.area.top..self.area.top + self.area.height {
'''))
v("tv_write_while", VV + ["E01"], (T, '''        for j in 0..self.area.height {
            let y = self.area.top + j;
''', '''        let mut j = 0;
        while j < self.area.height {
            let y = self.area.top + j;
            j += 1;
'''))
v("tv_write_match", VV + ["E01"], (T, '''            if let Some(line) = lines.next() {
                let dl = DisplayableLine::new(self.text.skin, line, Some(width));
                queue!(w, Print(&dl))?;
            } else {
                SPACE_FILLING.queue_styled(w, &self.text.skin.paragraph.compound_style, width)?;
            }
''', '''            match lines.next() {
                None => {
                    let style = &self.text.skin.paragraph.compound_style;
                    SPACE_FILLING.queue_styled(w, style, width)?;
                }
                Some(line) => {
                    let dl = DisplayableLine::new(self.text.skin, line, Some(width));
                    w.queue(Print(&dl))?;
                }
            }
'''))
v("tv_write_width", VV + ["E01"], (T, '''        let mut width = self.area.width as usize;
        if scrollbar.is_some() {
            width -= 1;
        }
''', '''        let width = self.area.width as usize - usize::from(scrollbar.is_some());
'''))
v("tv_set_sat", VV, (T, '''        self.scroll = if self.content_height() > area_height {
            scroll.min(self.content_height() - area_height)
        } else {
            0
        };
''', '''        self.scroll = scroll.min(self.content_height().saturating_sub(area_height));
'''))
v("tv_lines_sat", VV, (T, '''            self.scroll = if lines_count >= self.scroll {
                0
            } else {
                self.scroll - lines_count
            };
''', '''            self.scroll = self.scroll.saturating_sub(lines_count);
'''))
v("tv_lines_match", VV, (T, '''        if lines_count < 0 {
            let lines_count = lines_count.unsigned_abs() as usize;
            self.scroll = if lines_count >= self.scroll {
                0
            } else {
                self.scroll - lines_count
            };
        } else {
            self.set_scroll(self.scroll + lines_count as usize);
        }
''', '''        let delta = lines_count.unsigned_abs() as usize;
        if lines_count >= 0 {
            self.set_scroll(self.scroll + delta);
            return;
        }
        match self.scroll.checked_sub(delta) {
            Some(scroll) => self.scroll = scroll,
            None => self.scroll = 0,
        }
'''))
v("tv_page_set", VV, (T, '''        if self.scroll + 2 * page_height < content_height {
            self.scroll += page_height;
            true
        } else if self.scroll + page_height < content_height {
            self.scroll = content_height - page_height;
            true
        } else {
            false
        }
''', '''        if self.scroll + page_height >= content_height {
            return false;
        }
        self.scroll = (self.scroll + page_height).min(content_height - page_height);
        true
'''))
v("tv_pageup", VV, (T, '''        if self.scroll > page_height {
            self.scroll -= page_height;
            true
        } else if self.scroll > 0 {
            self.scroll = 0;
            true
        } else {
            false
        }
''', '''        let moved = self.scroll > 0;
        self.scroll = self.scroll.saturating_sub(page_height);
        moved
'''))
v("tv_lineup", VV, (T, '''        if self.scroll > 0 {
            self.scroll -= 1;
            true
        } else {
            false
        }
''', '''        if self.scroll == 0 {
            return false;
        }
        self.scroll -= 1;
        true
'''))
v("tv_linedown", VV, (T, '''        if self.scroll + page_height < content_height {
            self.scroll += 1;
            true
        } else {
            false
        }
''', '''        let can_scroll = self.scroll + page_height < content_height;
        if can_scroll {
            self.scroll += 1;
        }
        can_scroll
'''))
v("tv_linedown_max", VV, (T, '''        let content_height = self.content_height();
        let page_height = self.area.height as usize;
        if self.scroll + page_height < content_height {
            self.scroll += 1;
            true
        } else {
            false
        }
''', '''        if self.scroll < self.max_scroll() {
            self.scroll += 1;
            true
        } else {
            false
        }
'''), (T, '''    pub fn line_up(&mut self)''', '''    fn max_scroll(&self) -> usize {
        self.content_height().saturating_sub(self.area.height.into())
    }

    pub fn line_up(&mut self)'''))
v("tv_keys_if", VV, (T, '''        if key.modifiers != KeyModifiers::NONE {
            return false;
        }
        match key.codes {
            OneToThree::One(KeyCode::Up) => self.line_up(),
            OneToThree::One(KeyCode::Down) => self.line_down(),
            OneToThree::One(KeyCode::PageUp) => self.page_up(),
            OneToThree::One(KeyCode::PageDown) => self.page_down(),
            _ => false,
        }
''', '''        match (key.modifiers, key.codes) {
            (KeyModifiers::NONE, OneToThree::One(code)) => match code {
                KeyCode::Up => self.line_up(),
                KeyCode::Down => self.line_down(),
                KeyCode::PageUp => self.page_up(),
                KeyCode::PageDown => self.page_down(),
                _ => false,
            },
            _ => false,
        }
'''))
# ---- list view
v("lv_new_entry", LL, (L, '''            if let Some(last_title) = titles.last_mut() {
                if columns[last_title.columns[0]].title == column.title {
                    // we merge those columns titles
                    last_title.columns.push(column_idx);
                    continue;
                }
            }
            // this is a new title
            titles.push(Title {
                columns: vec![column_idx],
            });
''', '''            match titles.last_mut() {
                Some(last_title) if columns[last_title.columns[0]].title == column.title => {
                    last_title.columns.push(column_idx);
                }
                _ => {
                    titles.push(Title {
                        columns: vec![column_idx],
                    });
                }
            }
'''))
v("lv_body_match", LL, (L, '''        if self.area.height > 2 {
            self.area.height - 2
        } else {
            self.area.height
        }
''', '''        match self.area.height {
            h @ 0..=2 => h,
            h => h - 2,
        }
'''))
v("lv_add_map", LL, (L, '''        let displayed = match &self.filter {
            Some(fun) => fun(&data),
            None => true,
        };
''', '''        let displayed = self.filter.as_ref().map_or(true, |fun| fun(&data));
'''))
v("lv_add_order", LL, (L, '''        if displayed {
            self.displayed_rows_count += 1;
        }
        if stick_to_bottom {
            self.scroll_to_bottom();
        }
        self.rows.push(Row { data, displayed });
''', '''        self.rows.push(Row { data, displayed });
        self.displayed_rows_count += usize::from(displayed);
        if stick_to_bottom {
            self.scroll_to_bottom();
        }
'''))
v("lv_add_helper", LL, (L, '''        let displayed = match &self.filter {
            Some(fun) => fun(&data),
            None => true,
        };
''', '''        let displayed = self.is_displayed(&data);
'''), (L, '''    pub fn clear_rows(''', '''    fn is_displayed(&self, data: &T) -> bool {
        if let Some(filter) = &self.filter {
            filter(data)
        } else {
            true
        }
    }
    pub fn clear_rows('''))
v("lv_filter_iter", LL, (L, '''        let mut count = 0;
        for row in self.rows.iter_mut() {
            row.displayed = filter(&row.data);
            if row.displayed {
                count += 1;
            }
        }
        self.scroll = 0; // something better should be done... later
        self.displayed_rows_count = count;
''', '''        for row in &mut self.rows {
            row.displayed = filter(&row.data);
        }
        self.displayed_rows_count = self.rows.iter().filter(|row| row.displayed).count();
        self.scroll = 0; // something better should be done... later
'''))
v("lv_filter_field", LL, (L, '''        let mut count = 0;
        for row in self.rows.iter_mut() {
            row.displayed = filter(&row.data);
            if row.displayed {
                count += 1;
            }
        }
        self.scroll = 0; // something better should be done... later
        self.displayed_rows_count = count;
''', '''        self.scroll = 0; // something better should be done... later
        self.displayed_rows_count = 0;
        for row in self.rows.iter_mut() {
            let displayed = filter(&row.data);
            row.displayed = displayed;
            if displayed {
                self.displayed_rows_count += 1;
            }
        }
'''))
v("lv_unfilter_each", LL, (L, '''        for row in self.rows.iter_mut() {
            row.displayed = true;
        }
        self.displayed_rows_count = self.rows.len();
''', '''        self.displayed_rows_count = self.rows.len();
        self.rows.iter_mut().for_each(|row| row.displayed = true);
'''))
v("lv_wr_width", LL, (L, '''            let width = title
                .columns
                .iter()
                .map(|ci| self.columns[*ci].spacing.width)
                .sum::<usize>()
                + title.columns.len()
                - 1;
''', '''            let mut width = title.columns.len() - 1;
            for &ci in &title.columns {
                width += self.columns[ci].spacing.width;
            }
'''))
v("lv_wr_enum", LL, (L, '''            if title_idx != 0 {
                vbar.queue(w)?;
            }
            let width''', '''            if title_idx > 0 {
                vbar.queue(w)?;
            }
            let width'''))
v("lv_wr_hbar", LL, (L, '''                for _ in 0..self.columns[*col_idx].spacing.width {
                    hbar.queue(w)?;
                }
''', '''                let mut remaining = self.columns[*col_idx].spacing.width;
                while remaining > 0 {
                    hbar.queue(w)?;
                    remaining -= 1;
                }
'''))
v("lv_wr_hbar_qstr", LL, (L, '''                for _ in 0..self.columns[*col_idx].spacing.width {
                    hbar.queue(w)?;
                }
''', '''                hbar.queue_repeat(w, self.columns[*col_idx].spacing.width)?;
'''))
v("lv_wr_rows_while", LL, (L, '''            loop {
                if row_idx == self.rows.len() {
                    queue!(w, Clear(ClearType::UntilNewLine))?;
                    break;
                }
                if self.rows[row_idx].displayed {
''', '''            while row_idx < self.rows.len() && !self.rows[row_idx].displayed {
                row_idx += 1;
            }
            loop {
                if row_idx == self.rows.len() {
                    queue!(w, Clear(ClearType::UntilNewLine))?;
                    break;
                }
                if self.rows[row_idx].displayed {
'''))
v("lv_wr_rowiter", LL, (L, '''        let mut row_idx = self.first_visible_row();
        let scrollbar = self.scrollbar();
''', '''        let mut visible_rows = self
            .rows
            .iter()
            .enumerate()
            .filter(|(_, row)| row.displayed)
            .skip(self.scroll);
        let scrollbar = self.scrollbar();
'''), (L, '''            loop {
                if row_idx == self.rows.len() {
                    queue!(w, Clear(ClearType::UntilNewLine))?;
                    break;
                }
                if self.rows[row_idx].displayed {
                    let selected''', '''            match visible_rows.next() {
                None => {
                    queue!(w, Clear(ClearType::UntilNewLine))?;
                }
                Some((row_idx, row)) => {
                    let selected'''), (L, '(&self.rows[row_idx].data);\n                        if selected', '(&row.data);\n                        if selected'), (L, '''                    row_idx += 1;
                    break;
                }
                row_idx += 1;
            }
''', '''                }
            }
'''))
v("lv_wr_cell_helper", LL, (L, '''                        let cell = (col.extract)(&self.rows[row_idx].data);
                        if selected {
                            let mut style = cell.style.clone();
                            style.set_bg(self.selection_background);
                            col.spacing
                                .write_counted_str(w, &cell.con, cell.width, &style)?;
                        } else {
                            col.spacing
                                .write_counted_str(w, &cell.con, cell.width, cell.style)?;
                        }
''', '''                        self.write_cell(w, col, &self.rows[row_idx].data, selected)?;
'''), (L, '''    pub fn write(&self)''', '''    fn write_cell<W: std::io::Write>(
        &self,
        w: &mut W,
        col: &ListViewColumn<'t, T>,
        data: &T,
        selected: bool,
    ) -> Result<()> {
        let cell = (col.extract)(data);
        let mut style = cell.style.clone();
        if selected {
            style.set_bg(self.selection_background);
        }
        col.spacing.write_counted_str(w, &cell.con, cell.width, &style)
    }
    pub fn write(&self)'''))
v("lv_wr_selmatch", LL, (L, '''                    let selected = Some(row_idx) == self.selection;
''', '''                    let selected = match self.selection {
                        Some(sel) => sel == row_idx,
                        None => false,
                    };
'''))
v("lv_wr_sbar", LL, (L, '''                let y = self.area.top + y - 2;
                if sctop <= y && y <= scbottom {
                    self.skin.scrollbar.thumb.queue(w)?;
                } else {
                    self.skin.scrollbar.track.queue(w)?;
                }
''', '''                let y = self.area.top + y - 2;
                let part = if y < sctop || y > scbottom {
                    &self.skin.scrollbar.track
                } else {
                    &self.skin.scrollbar.thumb
                };
                part.queue(w)?;
'''))
v("lv_bottom_sat", LL, (L, '''        self.scroll = if self.displayed_rows_count > body_height {
            self.displayed_rows_count - body_height
        } else {
            0
        }
''', '''        self.scroll = self.displayed_rows_count.saturating_sub(body_height);
'''))
v("lv_lines_sat", LL, (L, '''            self.scroll = if lines_count >= self.scroll {
                0
            } else {
                self.scroll - lines_count
            };
''', '''            self.scroll = self.scroll.saturating_sub(lines_count);
'''))
v("lv_lines_max", LL, (L, '''            self.scroll = (self.scroll + lines_count as usize)
                .min((self.displayed_rows_count + 1).saturating_sub(self.tbody_height() as usize));
''', '''            let max_scroll = (self.displayed_rows_count + 1).saturating_sub(self.tbody_height() as usize);
            self.scroll += lines_count as usize;
            if self.scroll > max_scroll {
                self.scroll = max_scroll;
            }
'''))
v("lv_fvr_iter", LL, (L, '''        let mut to_skip = self.scroll;
        for (row_idx, row) in self.rows.iter().enumerate() {
            if row.displayed {
                if to_skip == 0 {
                    return row_idx;
                }
                to_skip -= 1;
            }
        }
        self.rows.len()
''', '''        self.rows
            .iter()
            .enumerate()
            .filter(|(_, row)| row.displayed)
            .nth(self.scroll)
            .map_or(self.rows.len(), |(row_idx, _)| row_idx)
'''))
v("lv_fvr_up", LL, (L, '''        let mut to_skip = self.scroll;
        for (row_idx, row) in self.rows.iter().enumerate() {
            if row.displayed {
                if to_skip == 0 {
                    return row_idx;
                }
                to_skip -= 1;
            }
        }
        self.rows.len()
''', '''        let mut skipped = 0;
        for (row_idx, row) in self.rows.iter().enumerate() {
            if !row.displayed {
                continue;
            }
            if skipped == self.scroll {
                return row_idx;
            }
            skipped += 1;
        }
        self.rows.len()
'''))
v("lv_next_len", LL, (L, '''        for i in 0..self.rows.len() {
            let delta_idx = if up { self.rows.len() - 1 - i } else { i + 1 };
            let row_idx = (delta_idx + self.selection.unwrap()) % self.rows.len();
''', '''        let rows_count = self.rows.len();
        for i in 0..rows_count {
            let delta_idx = match up {
                true => rows_count - 1 - i,
                false => i + 1,
            };
            let row_idx = (delta_idx + self.selection.unwrap()) % rows_count;
'''))
v("lv_next_match", LL, (L, '''        for i in 0..self.rows.len() {
            let delta_idx = if up { self.rows.len() - 1 - i } else { i + 1 };
            let row_idx = (delta_idx + self.selection.unwrap()) % self.rows.len();
''', '''        let selection = match self.selection {
            Some(selection) => selection,
            None => return,
        };
        for i in 0..self.rows.len() {
            let delta_idx = if up { self.rows.len() - 1 - i } else { i + 1 };
            let row_idx = (delta_idx + selection) % self.rows.len();
'''))
v("lv_next_select", LL, (L, '''            if self.rows[row_idx].displayed {
                self.selection = Some(row_idx);
                self.make_selection_visible();
                return;
            }
''', '''            if self.rows[row_idx].displayed {
                self.select_row(row_idx);
                return;
            }
'''), (L, '''    pub fn unselect(''', '''    fn select_row(&mut self, row_idx: usize) {
        self.selection = Some(row_idx);
        self.make_selection_visible();
    }
    pub fn unselect('''))
v("lv_first_pos", LL, (L, '''    pub fn select_first_line(&mut self) {
        for i in 0..self.rows.len() {
            if self.rows[i].displayed {
                self.selection = Some(i);
                self.make_selection_visible();
                return;
            }
        }
        self.selection = None;
    }
''', '''    pub fn select_first_line(&mut self) {
        self.selection = self.rows.iter().position(|row| row.displayed);
        self.make_selection_visible();
    }
'''))
v("lv_first_enum", LL, (L, '''    pub fn select_first_line(&mut self) {
        for i in 0..self.rows.len() {
            if self.rows[i].displayed {
                self.selection = Some(i);
                self.make_selection_visible();
                return;
            }
        }
        self.selection = None;
    }
''', '''    pub fn select_first_line(&mut self) {
        self.selection = None;
        for (i, row) in self.rows.iter().enumerate() {
            if row.displayed {
                self.selection = Some(i);
                break;
            }
        }
        self.make_selection_visible();
    }
'''))
v("lv_last_rpos", LL, (L, '''        for i in (0..self.rows.len()).rev() {
            if self.rows[i].displayed {
                self.selection = Some(i);
                self.make_selection_visible();
                return;
            }
        }
        self.selection = None;
''', '''        self.selection = self.rows.iter().rposition(|row| row.displayed);
        self.make_selection_visible();
'''))
v("lv_last_while", LL, (L, '''        for i in (0..self.rows.len()).rev() {
            if self.rows[i].displayed {
                self.selection = Some(i);
                self.make_selection_visible();
                return;
            }
        }
        self.selection = None;
''', '''        let mut i = self.rows.len();
        while i > 0 {
            i -= 1;
            if self.rows[i].displayed {
                self.selection = Some(i);
                self.make_selection_visible();
                return;
            }
        }
        self.selection = None;
'''))
v("lv_msv_take", LL, (L, '''            let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
''', '''            let sel = self.rows.iter().take(sel).filter(|row| row.displayed).count();
'''))
v("lv_msv_for", LL, (L, '''            let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
''', '''            let mut rank = 0;
            for row in &self.rows[..sel] {
                if row.displayed {
                    rank += 1;
                }
            }
            let sel = rank;
'''))
v("lv_msv_let", LL, (L, '''        if let Some(sel) = self.selection {
            // the scroll''', '''        let sel = match self.selection {
            None => return,
            Some(sel) => sel,
        };
        {
            // the scroll'''))
v("lv_msv_bottom", LL, (L, '''            } else if sel + 1 >= self.scroll + tbody_height {
                self.scroll = sel + 2.min(tbody_height) - tbody_height;
            }
''', '''            } else {
                let bottom = self.scroll + tbody_height;
                if sel + 1 >= bottom {
                    let margin = tbody_height.min(2);
                    self.scroll = sel + margin - tbody_height;
                }
            }
'''))
v("lv_getsel", LL, (L, '''        self.selection.map(|sel| &self.rows[sel].data)
''', '''        match self.selection {
            Some(sel) => Some(&self.rows[sel].data),
            None => None,
        }
'''))
v("lv_clear_order", LL, (L, '''        self.rows.clear();
        self.scroll = 0;
        self.displayed_rows_count = 0;
        self.selection = None;
''', '''        self.unselect();
        self.scroll = 0;
        self.displayed_rows_count = 0;
        self.rows = Vec::new();
'''))
v("lv_upd_iter", LL, (L, '''            for i in 0..self.columns.len() {
                self.columns[i].spacing.width = self.columns[i].min_width;
            }
''', '''            for column in &mut self.columns {
                column.spacing.width = column.min_width;
            }
'''))
