F = "src/views/list_view.rs"
V = {}


def v(name, *edits):
    V[name] = (["L04", "L03"] if name[0] == "n" else ["L04"], [(F, a, b) for a, b in edits])


v("n_dim", ('''            for i in 0..self.columns.len() {
                let d =
                    ((self.columns[i].max_width - self.columns[i].min_width) as i32).min(excess);
                excess -= d;
                self.columns[i].spacing.width = self.columns[i].min_width + d as usize;
            }
''', '''            for col in self.columns.iter_mut() {
                let d = excess.min(col.max_width as i32 - col.min_width as i32);
                col.spacing.width = col.min_width + d as usize;
                excess -= d;
            }
'''))
v("n_dim2", ('''        let sum_min_widths: i32 = self.columns.iter().map(|c| c.min_width as i32).sum();
''', '''        let mut sum_min_widths: i32 = 0;
        for c in &self.columns {
            sum_min_widths += c.min_width as i32;
        }
'''), ('''            for i in 0..self.columns.len() {
                self.columns[i].spacing.width = self.columns[i].min_width;
            }
''', '''            self.columns.iter_mut().for_each(|c| c.spacing.width = c.min_width);
'''))
v("n_new", ('''            if let Some(last_title) = titles.last_mut() {
                if columns[last_title.columns[0]].title == column.title {
                    // we merge those columns titles
                    last_title.columns.push(column_idx);
                    continue;
                }
            }
            // this is a new title
            titles.push(Title {
                columns: vec![column_idx],
            });
''', '''            match titles.last_mut() {
                Some(t) if columns[t.columns[0]].title == column.title => t.columns.push(column_idx),
                _ => titles.push(Title { columns: vec![column_idx] }),
            }
'''))
v("n_new2", ("if columns[last_title.columns[0]].title == column.title {", "if columns[column_idx - 1].title == column.title {"))
v("n_title", ('''            let width = title
                .columns
                .iter()
                .map(|ci| self.columns[*ci].spacing.width)
                .sum::<usize>()
                + title.columns.len()
                - 1;
''', '''            let mut width = title.columns.len() - 1;
            for &ci in &title.columns {
                width += self.columns[ci].spacing.width;
            }
'''))
v("n_sep", ('''            for (col_idx_idx, col_idx) in title.columns.iter().enumerate() {
                if col_idx_idx > 0 {
                    tee.queue(w)?;
                }
                for _ in 0..self.columns[*col_idx].spacing.width {
                    hbar.queue(w)?;
                }
            }
''', '''            let mut first = true;
            for col_idx in &title.columns {
                if !first {
                    tee.queue(w)?;
                }
                first = false;
                hbar.queue_repeat(w, self.columns[*col_idx].spacing.width)?;
            }
'''))
v("n_cell", ('''                        if selected {
                            let mut style = cell.style.clone();
                            style.set_bg(self.selection_background);
                            col.spacing
                                .write_counted_str(w, &cell.con, cell.width, &style)?;
                        } else {
                            col.spacing
                                .write_counted_str(w, &cell.con, cell.width, cell.style)?;
                        }
''', '''                        let mut style = cell.style.clone();
                        if selected {
                            style.set_bg(self.selection_background);
                        }
                        col.spacing
                            .write_counted_str(w, &cell.con, cell.width, &style)?;
'''))
v("n_bar", ('''                        if col_idx != 0 {
                            if selected {
                                queue!(w, SetBackgroundColor(self.selection_background))?;
                            }
                            vbar.queue(w)?;
                        }
''', '''                        if col_idx > 0 {
                            self.queue_bar(w, &vbar, selected)?;
                        }
'''), ('''    /// display the whole list in its area
''', '''    fn queue_bar<W: std::io::Write>(&self, w: &mut W, bar: &crate::StyledChar, selected: bool) -> Result<()> {
        if selected {
            queue!(w, SetBackgroundColor(self.selection_background))?;
        }
        bar.queue(w)
    }
    /// display the whole list in its area
'''))
v("n_sel", ("let selected = Some(row_idx) == self.selection;", "let selected = self.selection.map_or(false, |s| s == row_idx);"))
v("m_align", ('''            let spacing = Spacing {
                width,
                align: Alignment::Center,''', '''            let spacing = Spacing {
                width,
                align: self.columns[title.columns[0]].spacing.align,'''))
v("m_sep", ('''            if title_idx != 0 {
                cross.queue(w)?;
            }
''', '''            if title_idx != 0 {
                if title.columns.len() > 1 { tee.queue(w)?; } else { cross.queue(w)?; }
            }
'''))
v("m_avail", ("            - 1; // we remove 1", "            - i32::from(self.area.height > 2); // we remove 1"))
v("m_min", ("if sum_min_widths >= available_width {", "if sum_min_widths > available_width + 1 {"))
v("m_titlestyle", ("                &self.skin.headers[0].compound_style,", "                &self.skin.headers[title_idx.min(1)].compound_style,"))
v("m_cellwidth", (".write_counted_str(w, &cell.con, cell.width, cell.style)?;", ".write_str(w, &cell.con, cell.style)?;"))
v("m_scroll", ("            filter: None,\n            displayed_rows_count: 0,", "            filter: None,\n            displayed_rows_count: 1,"))
