S = "src/skin.rs"
ALLS = ["S01", "S02", "S03", "S04", "S05", "S06", "S07"]
R = ["R01", "R02", "R03", "R04", "R05", "R06", "S02", "S04", "E01", "E02", "E04"]
RULE = '''                write!(
                    f,
                    "{}",
                    self.table.compound_style.apply_to(match rule.position {
                        RelativePosition::Top => tbc.top_left_corner,
                        RelativePosition::Other => tbc.left_junction,
                        RelativePosition::Bottom => tbc.bottom_left_corner,
                    })
                )?;
                for (idx, &width) in rule.widths.iter().enumerate() {
                    if idx > 0 {
                        write!(
                            f,
                            "{}",
                            self.table.compound_style.apply_to(match rule.position {
                                RelativePosition::Top => tbc.top_junction,
                                RelativePosition::Other => tbc.cross,
                                RelativePosition::Bottom => tbc.bottom_junction,
                            })
                        )?;
                    }
                    self.table.repeat_char(f, tbc.horizontal, width)?;
                }
                write!(
                    f,
                    "{}",
                    self.table.compound_style.apply_to(match rule.position {
                        RelativePosition::Top => tbc.top_right_corner,
                        RelativePosition::Other => tbc.right_junction,
                        RelativePosition::Bottom => tbc.bottom_right_corner,
                    })
                )?;
'''
V = {
 "blend_loops": (["S05"], [(S, '''        self.bullet.blend_with(color, weight);
        self.quote_mark.blend_with(color, weight);
        self.horizontal_rule.blend_with(color, weight);
        self.ellipsis.blend_with(color, weight);
''', '''        for sc in [&mut self.bullet, &mut self.quote_mark, &mut self.horizontal_rule] {
            sc.blend_with(color, weight);
        }
        self.ellipsis.blend_with(color, weight);
''')]),
 "blend_styles_array": (["S05"], [(S, '''        self.bold.blend_with(color, weight);
        self.italic.blend_with(color, weight);
        self.inline_code.blend_with(color, weight);
        self.code_block.blend_with(color, weight);
''', '''        let styles = [&mut self.bold, &mut self.italic, &mut self.inline_code];
        for style in styles {
            style.blend_with(color, weight);
        }
        self.code_block.blend_with(color, weight);
''')]),
 "headers_for_each": (["S01", "S05"], [(S, '''        for h in &mut self.headers {
            h.set_fg(c);
        }
''', '''        self.headers.iter_mut().for_each(|h| h.set_fg(c));
'''), (S, '''        for h in &mut self.headers {
            h.blend_with(color, weight);
        }
''', '''        for i in 0..MAX_HEADER_DEPTH {
            self.headers[i].blend_with(color, weight);
        }
''')]),
 "global_bg_order": (["S01"], [(S, '''        self.set_headers_bg(c);
        self.paragraph.set_bg(c);
        self.horizontal_rule.set_bg(c);
''', '''        let Self { paragraph, horizontal_rule, headers, .. } = self;
        horizontal_rule.set_bg(c);
        paragraph.set_bg(c);
        for header in headers.iter_mut() {
            header.set_bg(c);
        }
''')]),
 "set_fg_helper": (["S01"], [(S, '''        self.paragraph.compound_style.set_fg(fg);
        self.bold.set_fg(fg);
        self.italic.set_fg(fg);
        self.strikeout.set_fg(fg);
        self.set_headers_fg(fg);
        self.bullet.set_fg(fg);
''', '''        self.set_headers_fg(fg);
        self.set_text_fg(fg);
        self.bullet.set_fg(fg);
'''), (S, '''    /// Set a common foreground color for all header levels
''', '''    fn set_text_fg(&mut self, fg: Color) {
        for style in [
            &mut self.paragraph.compound_style,
            &mut self.bold,
            &mut self.italic,
            &mut self.strikeout,
        ] {
            style.set_fg(fg);
        }
    }

    /// Set a common foreground color for all header levels
''')]),
 "visible_length_loop": (["R05", "R01"], [(S, '''        let compounds_width: usize = compounds.iter().map(|c| c.src.width()).sum();
        (match kind {
            CompositeKind::ListItem(depth) => 2 + depth as usize, // space and bullet
            CompositeKind::ListItemFollowUp(depth) => match self.list_items_indentation_mode {
                ListItemsIndentationMode::FirstLineOnly => 0,
                ListItemsIndentationMode::Block => 2 + depth as usize, // spaces
            },
            CompositeKind::Quote => 2, // space of the quoting char
            _ => 0,
        }) + compounds_width
''', '''        let mut width = match kind {
            CompositeKind::ListItem(depth) => 2 + usize::from(depth), // space and bullet
            CompositeKind::ListItemFollowUp(depth)
                if self.list_items_indentation_mode == ListItemsIndentationMode::Block =>
            {
                2 + usize::from(depth) // spaces
            }
            CompositeKind::Quote => 2, // space of the quoting char
            _ => 0,
        };
        for compound in compounds {
            width += compound.src.width();
        }
        width
''')]),
 "visible_length_fold": (["R05"], [(S, '''        let compounds_width: usize = compounds.iter().map(|c| c.src.width()).sum();
''', '''        let compounds_width = compounds.iter().fold(0, |sum, c| sum + c.src.width());
''')]),
 "line_style_if": (["S04", "R01", "R02"], [(S, '''        match kind {
            CompositeKind::Code => &self.code_block,
            CompositeKind::Header(level) if level <= MAX_HEADER_DEPTH as u8 => {
                &self.headers[level as usize - 1]
            }
            _ => &self.paragraph,
        }
''', '''        if let CompositeKind::Header(level) = kind {
            let level = level as usize;
            if level > MAX_HEADER_DEPTH {
                return &self.paragraph;
            }
            return &self.headers[level - 1];
        }
        match kind {
            CompositeKind::Code => &self.code_block,
            _ => &self.paragraph,
        }
''')]),
 "compound_style_nested": (["S04"], [(S, '''        if *compound.src == *crate::fit::ELLIPSIS {
            return self.ellipsis.clone();
        }
        let mut os = line_style.compound_style.clone();
        if compound.italic {
            os.overwrite_with(&self.italic);
        }
        if compound.strikeout {
            os.overwrite_with(&self.strikeout);
        }
        if compound.bold {
            os.overwrite_with(&self.bold);
        }
        if compound.code {
            os.overwrite_with(&self.inline_code);
        }
        os
''', '''        if compound.src == crate::fit::ELLIPSIS {
            self.ellipsis.clone()
        } else {
            let mut style = line_style.compound_style.clone();
            let layers = [
                (compound.italic, &self.italic),
                (compound.strikeout, &self.strikeout),
                (compound.bold, &self.bold),
                (compound.code, &self.inline_code),
            ];
            for (present, layer) in layers {
                if present {
                    style.overwrite_with(layer);
                }
            }
            style
        }
''')]),
 "composite_helper": (R, [(S, '''        let (left_margin, right_margin) = if with_margins {
            ls.margins_in(outer_width)
        } else {
            (0, 0)
        };
''', '''        let mut margins = (0, 0);
        if with_margins {
            margins = ls.margins_in(outer_width);
        }
        let (left_margin, right_margin) = margins;
'''), (S, '''        let inner_width = fc.spacing.map_or(fc.visible_length, |sp| sp.width);
''', '''        let inner_width = match &fc.spacing {
            Some(spacing) => spacing.width,
            None => fc.visible_length,
        };
''')]),
 "composite_prefix": (R, [(S, '''        if let CompositeKind::ListItem(depth) = fc.kind {
            for _ in 0..depth {
                write!(f, "{}", self.paragraph.compound_style.apply_to(' '))?;
            }
            write!(f, "{}", self.bullet)?;
            write!(f, "{}", self.paragraph.compound_style.apply_to(' '))?;
        }
        if self.list_items_indentation_mode == ListItemsIndentationMode::Block {
            if let CompositeKind::ListItemFollowUp(depth) = fc.kind {
                for _ in 0..depth + 1 {
                    write!(f, "{}", self.paragraph.compound_style.apply_to(' '))?;
                }
                write!(f, "{}", self.paragraph.compound_style.apply_to(' '))?;
            }
        }
        if fc.kind == CompositeKind::Quote {
            write!(f, "{}", self.quote_mark)?;
            write!(f, "{}", self.paragraph.compound_style.apply_to(' '))?;
        }
''', '''        self.write_prefix(f, fc.kind)?;
'''), (S, '''    /// Write a line in the passed formatter, with completions.
''', '''    fn write_prefix(&self, f: &mut fmt::Formatter<'_>, kind: CompositeKind) -> fmt::Result {
        let space = self.paragraph.compound_style.apply_to(' ');
        match kind {
            CompositeKind::ListItem(depth) => {
                for _ in 0..depth {
                    write!(f, "{}", space)?;
                }
                write!(f, "{}{}", self.bullet, space)?;
            }
            CompositeKind::ListItemFollowUp(depth) => {
                if let ListItemsIndentationMode::Block = self.list_items_indentation_mode {
                    for _ in 0..depth as usize + 2 {
                        write!(f, "{}", space)?;
                    }
                }
            }
            CompositeKind::Quote => {
                write!(f, "{}", self.quote_mark)?;
                write!(f, "{}", space)?;
            }
            _ => {}
        }
        Ok(())
    }

    /// Write a line in the passed formatter, with completions.
''')]),
 "compounds_try_for_each": (R, [(S, '''        #[cfg(not(feature = "special-renders"))]
        for c in &fc.compounds {
            let os = self.compound_style(ls, c);
            write!(f, "{}", os.apply_to(c.as_str()))?;
        }
''', '''        #[cfg(not(feature = "special-renders"))]
        fc.compounds.iter().try_for_each(|c| {
            write!(f, "{}", self.compound_style(ls, c).apply_to(c.as_str()))
        })?;
''')]),
 "row_width_map_sum": (R, [(S, '''                let tbl_width = 1 + cells.iter().fold(0, |sum, cell| {
                    if let Some(spacing) = cell.spacing {
                        sum + spacing.width + 1
                    } else {
                        sum + cell.visible_length + 1
                    }
                });
''', '''                let cells_width: usize = cells
                    .iter()
                    .map(|cell| cell.spacing.map_or(cell.visible_length, |s| s.width) + 1)
                    .sum();
                let tbl_width = cells_width + 1;
''')]),
 "row_width_loop": (R, [(S, '''                let tbl_width = 1 + cells.iter().fold(0, |sum, cell| {
                    if let Some(spacing) = cell.spacing {
                        sum + spacing.width + 1
                    } else {
                        sum + cell.visible_length + 1
                    }
                });
''', '''                let mut tbl_width = 1;
                for cell in cells {
                    tbl_width += 1 + match cell.spacing {
                        Some(spacing) => spacing.width,
                        None => cell.visible_length,
                    };
                }
'''), (S, '''                let tbl_width = 1 + rule.widths.iter().fold(0, |sum, w| sum + w + 1);
''', '''                let tbl_width = 1 + rule.widths.len() + rule.widths.iter().sum::<usize>();
''')]),
 "rule_chars": (R, [(S, RULE, '''                let (left, junction, right) = match rule.position {
                    RelativePosition::Top => {
                        (tbc.top_left_corner, tbc.top_junction, tbc.top_right_corner)
                    }
                    RelativePosition::Other => {
                        (tbc.left_junction, tbc.cross, tbc.right_junction)
                    }
                    RelativePosition::Bottom => {
                        (tbc.bottom_left_corner, tbc.bottom_junction, tbc.bottom_right_corner)
                    }
                };
                let style = &self.table.compound_style;
                write!(f, "{}", style.apply_to(left))?;
                let mut first = true;
                for width in &rule.widths {
                    if !first {
                        write!(f, "{}", style.apply_to(junction))?;
                    }
                    first = false;
                    self.table.repeat_char(f, tbc.horizontal, *width)?;
                }
                write!(f, "{}", style.apply_to(right))?;
''')]),
 "line_helpers": (R, [(S, '''            FmtLine::Normal(fc) => {
                self.write_fmt_composite(f, fc, width, with_right_completion, true)?;
            }
''', '''            FmtLine::Normal(fc) => {
                return self.write_fmt_composite(f, fc, width, with_right_completion, true);
            }
'''), (S, '''                if let Some(w) = width {
                    write!(f, "{}", self.horizontal_rule.repeated(w))?;
                }
''', '''                let Some(w) = width else {
                    return Ok(());
                };
                write!(f, "{}", self.horizontal_rule.repeated(w))?;
'''), (S, '''                for cell in cells {
                    write!(f, "{}", self.table.compound_style.apply_to(tbc.vertical))?;
                    self.write_fmt_composite(f, cell, None, false, false)?;
                }
                write!(f, "{}", self.table.compound_style.apply_to(tbc.vertical))?;
''', '''                let bar = self.table.compound_style.apply_to(tbc.vertical);
                for i in 0..cells.len() {
                    write!(f, "{}", bar)?;
                    self.write_fmt_composite(f, &cells[i], None, false, false)?;
                }
                write!(f, "{}", bar)?;
''')]),
 "direct_display": (["E01", "E02", "E03", "E04", "R03"], [(S, '''    pub fn write_inline(&self, src: &str) -> Result<()> {
        let mut w = std::io::stdout();
        self.write_inline_on(&mut w, src)?;
        w.flush()?;
        Ok(())
    }
''', '''    pub fn write_inline(&self, src: &str) -> Result<()> {
        let stdout = std::io::stdout();
        let mut w = stdout.lock();
        self.write_inline_on(&mut w, src)?;
        Ok(w.flush()?)
    }
'''), (S, '''        let mut w = std::io::stdout();
        self.write_text_on(&mut w, src)?;
        w.flush()?;
        Ok(())
''', '''        let mut out = std::io::stdout();
        match self.write_text_on(&mut out, src) {
            Ok(()) => {
                out.flush()?;
                Ok(())
            }
            Err(e) => Err(e),
        }
'''), (S, '''        let text = self.area_text(markdown, area);
        let mut view = TextView::from(area, &text);
        view.show_scrollbar = false;
        view.write_on(w)
''', '''        let text = self.area_text(markdown, area);
        let mut view = TextView::from(area, &text);
        view.show_scrollbar = false;
        view.write_on(w)?;
        Ok(())
''')]),
 "write_inline_std": (["E01", "E02", "E04"], [(S, '''        Ok(queue!(w, Print(self.inline(src)))?)
''', '''        let inline = self.inline(src);
        queue!(w, Print(inline))?;
        Ok(())
''')]),
 "no_style_default": (["S07"], [(S, '''            bullet: StyledChar::nude('•'),
            quote_mark: StyledChar::nude('▐'),
''', '''            bullet: StyledChar::new(CompoundStyle::default(), '•'),
            quote_mark: StyledChar::nude('▐'),
''')]),
 "ascii_struct": (["S06"], [(S, '''        self.bullet.set_char('*');
        self.quote_mark.set_char('>');
        self.horizontal_rule.set_char('-');
''', '''        for (sc, c) in [
            (&mut self.horizontal_rule, '-'),
            (&mut self.bullet, '*'),
            (&mut self.quote_mark, '>'),
        ] {
            sc.set_char(c);
        }
''')]),
}
