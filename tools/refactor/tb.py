V = {}
T = "src/tbl.rs"
F = "src/fit/tbl_fit.rs"


def v1(name, *edits):
    V[name] = (["B01"], list(edits))


def v2(name, *edits):
    V[name] = (["B02"], list(edits))


v1("t_resize", (T, '''        for ic in 0..nbcols {
            if ic >= self.widths.len() {
                self.widths.push(0);
            }
            if ic >= self.aligns.len() {
                self.aligns.push(Alignment::Unspecified);
            }
        }
''', '''        self.widths.resize(nbcols, 0);
        self.aligns.resize(nbcols, Alignment::Unspecified);
'''))
v1("t_setnb_while", (T, '''        for ic in 0..nbcols {
            if ic >= self.widths.len() {
                self.widths.push(0);
            }
            if ic >= self.aligns.len() {
                self.aligns.push(Alignment::Unspecified);
            }
        }
''', '''        while self.widths.len() < nbcols {
            self.widths.push(0);
        }
        while self.aligns.len() < nbcols {
            self.aligns.push(Alignment::Unspecified);
        }
'''))
v1("t_see_match", (T, '''                    if let FmtLine::TableRow(FmtTableRow { cells }) = line {
                        for ic in 0..nbcols {
                            if cells.len() <= ic {
                                cells.push(FmtComposite::new());
                            } else {
                                tbl_fit.see_cell(ic, cells[ic].visible_length);
                            }
                        }
                    } else if let FmtLine::TableRule(rule) = line {
                        rule.set_nbcols(nbcols);
                    } else {
                        panic!("not a table row, should not happen");
                    }
''', '''                    match line {
                        FmtLine::TableRow(row) => {
                            for (ic, cell) in row.cells.iter().enumerate().take(nbcols) {
                                tbl_fit.see_cell(ic, cell.visible_length);
                            }
                            while row.cells.len() < nbcols {
                                row.cells.push(FmtComposite::new());
                            }
                        }
                        FmtLine::TableRule(rule) => rule.set_nbcols(nbcols),
                        _ => panic!("not a table row, should not happen"),
                    }
'''))
v1("t_slice_iter", (T, '''lines.iter_mut().skip(self.start).take(self.height)''', '''lines[self.start..self.start + self.height].iter_mut()'''))
v1("t_range_index", (T, '''                for line in lines.iter_mut().skip(self.start).take(self.height) {
''', '''                let end = self.start + self.height;
                for idx in self.start..end {
                    let line = &mut lines[idx];
'''))
v1("t_max_map", (T, '''cells_to_add.iter().fold(0, |m, cells| m.max(cells.len()))''', '''cells_to_add.iter().map(|cells| cells.len()).max().unwrap_or(0)'''))
v1("t_max_vec", (T, '''cells_to_add.iter().fold(0, |m, cells| m.max(cells.len()))''', '''cells_to_add.iter().map(Vec::len).max().unwrap_or_default()'''))
v1("t_pop", (T, '''                        new_cells.push(if cell.len() > inl {
                            cell.remove(inl)
                        } else {
                            FmtComposite::new()
                        });
''', '''                        if inl < cell.len() {
                            new_cells.push(cell.pop().unwrap());
                        } else {
                            new_cells.push(FmtComposite::new());
                        }
'''))
v1("t_extend_drain", (T, '''                        for c in drain {
                            cells_to_add[ic].push(c);
                        }
''', '''                        cells_to_add[ic].extend(drain);
'''))
v1("t_into_iter", (T, '''                        let mut composites =
                            wrap::hard_wrap_composite(&cells[ic], widths[ic], skin)
                                .expect("tbl fitter guaranteed all columns to be wide enough");
''', '''                        let composites =
                            wrap::hard_wrap_composite(&cells[ic], widths[ic], skin)
                                .expect("tbl fitter guaranteed all columns to be wide enough");
'''), (T, '''                        let mut drain = composites.drain(..);
                        cells[ic] = drain.next().unwrap();
                        for c in drain {
                            cells_to_add[ic].push(c);
                        }
''', '''                        let mut pieces = composites.into_iter();
                        cells[ic] = pieces.next().unwrap();
                        cells_to_add[ic] = pieces.collect();
'''))
v1("t_remove0", (T, '''                        let mut drain = composites.drain(..);
                        cells[ic] = drain.next().unwrap();
                        for c in drain {
                            cells_to_add[ic].push(c);
                        }
''', '''                        cells[ic] = composites.remove(0);
                        cells_to_add[ic] = composites;
'''))
v1("t_zip_spacing", (T, '''                    for ic in 0..nbcols {
                        cells[ic].spacing = Some(Spacing {
                            width: widths[ic],
                            align: current_aligns[ic],
                        });
                    }
''', '''                    for (cell, (&width, &align)) in cells.iter_mut().zip(widths.iter().zip(&current_aligns)) {
                        cell.spacing = Some(Spacing { width, align });
                    }
'''))
v1("t_enum_spacing", (T, '''                    for ic in 0..nbcols {
                        cells[ic].spacing = Some(Spacing {
                            width: widths[ic],
                            align: current_aligns[ic],
                        });
                    }
''', '''                    for (ic, cell) in cells.iter_mut().take(nbcols).enumerate() {
                        let spacing = Spacing {
                            width: widths[ic],
                            align: current_aligns[ic],
                        };
                        cell.spacing = Some(spacing);
                    }
'''))
v1("t_copy_loop", (T, '''                    rule.widths[..nbcols].clone_from_slice(&widths[..nbcols]);
                    current_aligns[..nbcols].clone_from_slice(&rule.aligns[..nbcols]);
''', '''                    for ic in 0..nbcols {
                        rule.widths[ic] = widths[ic];
                        current_aligns[ic] = rule.aligns[ic];
                    }
'''))
v1("t_clone_vec", (T, '''                    rule.widths[..nbcols].clone_from_slice(&widths[..nbcols]);
                    current_aligns[..nbcols].clone_from_slice(&rule.aligns[..nbcols]);
''', '''                    rule.widths = widths.clone();
                    current_aligns = rule.aligns.clone();
'''))
v1("t_copy_from", (T, '''                    rule.widths[..nbcols].clone_from_slice(&widths[..nbcols]);
                    current_aligns[..nbcols].clone_from_slice(&rule.aligns[..nbcols]);
''', '''                    rule.widths[..nbcols].copy_from_slice(&widths[..nbcols]);
                    current_aligns.copy_from_slice(&rule.aligns[..nbcols]);
'''))
v1("t_position_helper", (T, '''                    if ir == self.start {
                        rule.position = RelativePosition::Top;
                    } else if ir == self.start + self.height - 1 {
                        rule.position = RelativePosition::Bottom;
                    }
''', '''                    if let Some(position) = self.relative_position(ir) {
                        rule.position = position;
                    }
'''), (T, '''#[allow(clippy::needless_range_loop)]
impl Table {
''', '''#[allow(clippy::needless_range_loop)]
impl Table {
    fn relative_position(&self, idx: usize) -> Option<RelativePosition> {
        let last = self.start + self.height - 1;
        match idx {
            i if i == self.start => Some(RelativePosition::Top),
            i if i == last => Some(RelativePosition::Bottom),
            _ => None,
        }
    }
'''))
v1("t_guard_split", (T, '''        let mut nbcols = self.nbcols;
        if nbcols == 0 || width == 0 {
            return;
        }
''', '''        let mut nbcols = self.nbcols;
        if width < 1 {
            return;
        }
        if nbcols < 1 {
            return;
        }
'''))
v1("t_split_helper", (T, '''                for inl in (0..nb_new_lines).rev() {
                    let mut new_cells: Vec<FmtComposite<'_>> = Vec::new();
                    for cell in cells_to_add.iter_mut().take(nbcols) {
                        new_cells.push(if cell.len() > inl {
                            cell.remove(inl)
                        } else {
                            FmtComposite::new()
                        });
                    }
                    let new_line = FmtLine::TableRow(FmtTableRow { cells: new_cells });
                    lines.insert(ir + 1, new_line);
                    self.height += 1;
                }
''', '''                for inl in (0..nb_new_lines).rev() {
                    lines.insert(ir + 1, take_line(&mut cells_to_add, inl));
                }
                self.height += nb_new_lines;
'''), (T, '''/// find the positions of all tables
''', '''fn take_line<'s>(cells_to_add: &mut [Vec<FmtComposite<'s>>], inl: usize) -> FmtLine<'s> {
    let cells = cells_to_add
        .iter_mut()
        .map(|cell| if cell.len() > inl { cell.remove(inl) } else { FmtComposite::new() })
        .collect();
    FmtLine::TableRow(FmtTableRow { cells })
}

/// find the positions of all tables
'''))
v1("t_find_merge", (T, '''        match line {
            FmtLine::TableRule(FmtTableRule { aligns, .. }) => match current.as_mut() {
                Some(b) => {
                    b.height += 1;
                    b.nbcols = b.nbcols.max(aligns.len());
                }
                None => {
                    current = Some(Table {
                        start: idx,
                        height: 1,
                        nbcols: aligns.len(),
                    });
                }
            },
            FmtLine::TableRow(FmtTableRow { cells }) => match current.as_mut() {
                Some(b) => {
                    b.height += 1;
                    b.nbcols = b.nbcols.max(cells.len());
                }
                None => {
                    current = Some(Table {
                        start: idx,
                        height: 1,
                        nbcols: cells.len(),
                    });
                }
            },
            _ => {
                if let Some(c) = current.take() {
                    tables.push(c);
                }
            }
        }
    }
    if let Some(c) = current.take() {
        tables.push(c);
    }
    tables
''', '''        let nbcols = match line {
            FmtLine::TableRule(rule) => rule.aligns.len(),
            FmtLine::TableRow(row) => row.cells.len(),
            _ => {
                tables.extend(current.take());
                continue;
            }
        };
        if let Some(table) = &mut current {
            table.height += 1;
            if nbcols > table.nbcols {
                table.nbcols = nbcols;
            }
        } else {
            current = Some(Table { start: idx, height: 1, nbcols });
        }
    }
    tables.extend(current);
    tables
'''))
v1("t_fix_into_iter", (T, '''    for tbl in find_tables(lines).iter_mut().rev() {
        tbl.fix_columns(lines, width, skin);
    }
''', '''    let mut tables = find_tables(lines);
    while let Some(mut tbl) = tables.pop() {
        tbl.fix_columns(lines, width, skin);
    }
'''))
v1("t_fix_foreach", (T, '''    for tbl in find_tables(lines).iter_mut().rev() {
        tbl.fix_columns(lines, width, skin);
    }
''', '''    find_tables(lines)
        .into_iter()
        .rev()
        .for_each(|mut tbl| tbl.fix_columns(lines, width, skin));
'''))
v1("t_widths_helper", (T, '''            Err(_) => {
                // there's not enough width, we'll have to remove columns
                nbcols = (width - 1) / 4;
                cols_removed = true;
                vec![3; nbcols]
            }
''', '''            Err(_) => {
                // there's not enough width, we'll have to remove columns
                cols_removed = true;
                nbcols = (width - 1) / 4;
                std::iter::repeat(3).take(nbcols).collect()
            }
'''))

# ---------------------------------------------------------------- the fitter
v2("w_helpers", (F, '''                    let gain_1 = gain_1.min(excess).min(c.width - 4);
                    c.width -= gain_1;
                    excess -= gain_1;
                    if excess == 0 {
                        break;
                    }
''', '''                    excess -= c.reduce(gain_1.min(excess), 4);
                    if excess == 0 {
                        break;
                    }
'''), (F, '''        let mut fits: Vec<ColFit> = self
''', '''        impl ColFit {
            fn reduce(&mut self, gain: usize, min: usize) -> usize {
                let gain = gain.min(self.width - min);
                self.width -= gain;
                gain
            }
        }
        let mut fits: Vec<ColFit> = self
'''))
v2("w_method_ceil", (F, '''    let mut res = q / r;
    if q % r != 0 {
        res += 1;
    }
    res
''', '''    if q % r == 0 {
        q / r
    } else {
        q / r + 1
    }
'''))
v2("w_bool_ceil", (F, '''    let mut res = q / r;
    if q % r != 0 {
        res += 1;
    }
    res
''', '''    let res = q / r;
    if res * r < q {
        res + 1
    } else {
        res
    }
'''))
v2("w_std_ceil", (F, '''    let mut res = q / r;
    if q % r != 0 {
        res += 1;
    }
    res
''', '''    q.div_ceil(r)
'''))
v2("w_std_ceil_in", (F, '''                    let gain_1 = div_ceil(
                        (c.width - c.avg_width) * potential_cut_gain_1,
                        potential_uncut_gain_1,
                    );
''', '''                    let gain_1 = ((c.width - c.avg_width) * potential_cut_gain_1).div_ceil(potential_uncut_gain_1);
'''))
v2("w_loop_sum", (F, '''        let sum_widths: usize = self.cols.iter().map(|c| c.width).sum();
''', '''        let mut sum_widths = 0;
        for col in &self.cols {
            sum_widths += col.width;
        }
'''))
v2("w_drop_dup", (F, '''        if self.available_sum_width >= sum_widths {
            return TblFitResult {
                reduced: false,
                col_widths: self.cols.iter().map(|c| c.width).collect(),
            };
        }

        let mut excess''', '''        let mut excess'''))
v2("w_match_len", (F, '''        if self.cols.is_empty() {
            return TblFitResult {
                reduced: false,
                col_widths: Vec::new(),
            };
        }
        if self.cols.len() == 1 {
            return TblFitResult {
                reduced: false,
                col_widths: vec![self.available_sum_width],
            };
        }
''', '''        match self.cols.len() {
            0 => {
                return TblFitResult {
                    reduced: false,
                    col_widths: vec![],
                }
            }
            1 => {
                return TblFitResult {
                    reduced: false,
                    col_widths: vec![self.available_sum_width],
                }
            }
            _ => {}
        }
'''))
v2("w_sort_by", (F, "        fits.sort_by_key(|c| cmp::Reverse(c.width));\n", "        fits.sort_by(|a, b| b.width.cmp(&a.width));\n"))
v2("w_sort_idx", (F, "        fits.sort_by_key(|c| c.idx);\n", "        fits.sort_unstable_by_key(|c| c.idx);\n"))
v2("w_widths_vec", (F, '''        fits.sort_by_key(|c| c.idx);
        TblFitResult {
            reduced: true,
            col_widths: fits.iter().map(|c| c.width).collect(),
        }
''', '''        let mut col_widths = vec![0; fits.len()];
        for c in &fits {
            col_widths[c.idx] = c.width;
        }
        TblFitResult {
            reduced: true,
            col_widths,
        }
'''))
v2("w_gain_loop", (F, '''        let potential_uncut_gain_1 = fits
            .iter()
            .filter(|c| c.width > 4 && c.width > c.avg_width + 1)
            .map(|c| (c.width - c.avg_width).min(4))
            .sum::<usize>();
''', '''        let mut potential_uncut_gain_1 = 0;
        for c in &fits {
            if c.width > 4 && c.width > c.avg_width + 1 {
                potential_uncut_gain_1 += (c.width - c.avg_width).min(4);
            }
        }
'''))
v2("w_filter_map", (F, '''            .filter(|c| c.width > 4 && c.width > c.avg_width + 1)
            .map(|c| (c.width - c.avg_width).min(4))
            .sum::<usize>();
''', '''            .filter_map(|c| {
                if c.width > 4 && c.width > c.avg_width + 1 {
                    Some(4.min(c.width - c.avg_width))
                } else {
                    None
                }
            })
            .sum::<usize>();
'''))
v2("w_continue", (F, '''                if c.std_width > 4 && c.std_width > c.avg_width {
                    let gain_1 = div_ceil(
                        (c.width - c.avg_width) * potential_cut_gain_1,
                        potential_uncut_gain_1,
                    );
                    let gain_1 = gain_1.min(excess).min(c.width - 4);
                    c.width -= gain_1;
                    excess -= gain_1;
                    if excess == 0 {
                        break;
                    }
                }
''', '''                if c.std_width <= 4 || c.std_width <= c.avg_width {
                    continue;
                }
                let max_gain = excess.min(c.width - 4);
                let wanted = potential_cut_gain_1 * (c.width - c.avg_width);
                let gain_1 = div_ceil(wanted, potential_uncut_gain_1).min(max_gain);
                c.width -= gain_1;
                excess -= gain_1;
                if excess == 0 {
                    break;
                }
'''))
v2("w_break_first", (F, '''            for c in fits.iter_mut() {
                let gain_2 = div_ceil((c.width - 3) * excess_before_2, potential_total_gain_2);
                let gain_2 = gain_2.min(excess).min(c.width - 3);
                c.width -= gain_2;
                excess -= gain_2;
                if excess == 0 {
                    break;
                }
            }
''', '''            for c in &mut fits {
                if excess == 0 {
                    break;
                }
                let available = c.width - 3;
                let gain_2 = div_ceil(available * excess_before_2, potential_total_gain_2)
                    .min(excess)
                    .min(available);
                c.width -= gain_2;
                excess -= gain_2;
            }
'''))
v2("w_see_index", (F, '''        if let Some(col) = self.cols.get_mut(col_idx) {
            col.see_cell(cell_width);
        }
''', '''        if col_idx < self.cols.len() {
            self.cols[col_idx].see_cell(cell_width);
        }
'''))
v2("w_see_if", (F, '''        self.width = self.width.max(cell_width);
''', '''        if self.width < cell_width {
            self.width = cell_width;
        }
'''))
v2("w_new_checked", (F, '''        if available_width < cols_count * 4 + 1 {
            return Err(InsufficientWidthError { available_width });
        }
        let cols = vec![ColData::default(); cols_count];
        let available_sum_width = available_width - 1 - cols_count;
        Ok(Self {
            cols,
            available_sum_width,
        })
''', '''        let borders = cols_count + 1;
        if 3 * cols_count + borders > available_width {
            Err(InsufficientWidthError { available_width })
        } else {
            Ok(Self {
                available_sum_width: available_width - borders,
                cols: vec![ColData::default(); cols_count],
            })
        }
'''))
v2("w_as_is", (F, '''        let sum_widths: usize = self.cols.iter().map(|c| c.width).sum();
        if sum_widths <= self.available_sum_width {
            return TblFitResult {
                reduced: false,
                col_widths: self.cols.iter().map(|c| c.width).collect(),
            };
        }
''', '''        let std_widths: Vec<usize> = self.cols.iter().map(|c| c.width).collect();
        let sum_widths: usize = std_widths.iter().sum();
        if sum_widths <= self.available_sum_width {
            return TblFitResult {
                reduced: false,
                col_widths: std_widths,
            };
        }
'''))
v2("w_fit_helper", (F, '''        let sum_widths: usize = self.cols.iter().map(|c| c.width).sum();
        if sum_widths <= self.available_sum_width {
''', '''        let sum_widths = self.sum_widths();
        if sum_widths <= self.available_sum_width {
'''), (F, '''    /// compute the fitting
''', '''    fn sum_widths(&self) -> usize {
        self.cols.iter().fold(0, |sum, col| sum + col.width)
    }
    /// compute the fitting
'''))
