V = {}
C = "src/code.rs"
X = "src/text.rs"
S = "src/skin.rs"
M = "src/views/mad_view.rs"
L = "src/line.rs"
T = "src/tbl.rs"


def v(name, *edits):
    V[name] = (["K01", "K02", "K03"], list(edits))


v("k_fold_blocks", (C, '''                Some(b) => {
                    b.height += 1;
                    b.width = b.width.max(ll);
                }
''', '''                Some(b) => {
                    b.height += 1;
                    if b.width < ll {
                        b.width = ll;
                    }
                }
'''), (C, '''    if let Some(c) = current.take() {
        blocks.push(c);
    }
    blocks
''', '''    blocks.extend(current);
    blocks
'''))
v("k_justify_slice", (C, '''        for line in lines.iter_mut().skip(self.start).take(self.height) {
            if let FmtLine::Normal(ref mut fc) = line {
                fc.spacing = Some(Spacing {
                    width: self.width,
                    align: Alignment::Left,
                });
            }
        }
''', '''        let spacing = Spacing {
            width: self.width,
            align: Alignment::Left,
        };
        for idx in self.start..self.start + self.height {
            if let FmtLine::Normal(fc) = &mut lines[idx] {
                fc.spacing = Some(spacing);
            }
        }
'''))
v("k_justify_range", (C, '''lines.iter_mut().skip(self.start).take(self.height)''', '''&mut lines[self.start..self.start + self.height]'''))
v("k_index_loop", (C, '''    let mut current: Option<CodeBlock> = None;
    for (idx, line) in lines.iter().enumerate() {
        if let Some(ll) = code_line_length(line) {
            match current.as_mut() {
                Some(b) => {
                    b.height += 1;
                    b.width = b.width.max(ll);
                }
                None => {
                    current = Some(CodeBlock {
                        start: idx,
                        height: 1,
                        width: ll,
                    });
                }
            }
        } else if let Some(c) = current.take() {
            blocks.push(c);
        }
    }
    if let Some(c) = current.take() {
        blocks.push(c);
    }
    blocks
''', '''    let mut idx = 0;
    while idx < lines.len() {
        let start = idx;
        let mut width = 0;
        while idx < lines.len() {
            match code_line_length(&lines[idx]) {
                Some(len) => width = width.max(len),
                None => break,
            }
            idx += 1;
        }
        if idx > start {
            blocks.push(CodeBlock { start, height: idx - start, width });
        }
        idx += 1;
    }
    blocks
'''))
v("k_for_each", (C, '''    for b in blocks {
        b.justify(lines);
    }
''', '''    blocks.iter().for_each(|b| b.justify(lines));
'''))
v("k_len_matches", (C, '''    match line {
        FmtLine::Normal(fc) => match fc.kind {
            CompositeKind::Code => Some(fc.visible_length),
            _ => None,
        },
        _ => None,
    }
''', '''    if let FmtLine::Normal(fc) = line {
        if matches!(fc.kind, CompositeKind::Code) {
            return Some(fc.visible_length);
        }
    }
    None
'''))
v("k_layout_loop", (X, '''        let mut lines = text
            .lines
            .drain(..)
            .map(|mline| FmtLine::from(mline, skin))
            .collect();
''', '''        let mut lines = Vec::with_capacity(text.lines.len());
        for mline in text.lines.drain(..) {
            lines.push(FmtLine::from(mline, skin));
        }
'''))
v("k_layout_into", (X, '''        mut text: Text<'s>,
''', '''        text: Text<'s>,
'''), (X, '''            .drain(..)
''', '''            .into_iter()
'''), (X, '''        tbl::fix_all_tables(&mut lines, width.unwrap_or(usize::MAX), skin);
        code::justify_blocks(&mut lines);
        if let Some(width) = width {
            if width >= 3 {
                lines =
                    wrap::hard_wrap_lines(lines, width, skin).expect("width should be wide enough");
            }
        }
''', '''        code::justify_blocks(&mut lines);
        tbl::fix_all_tables(&mut lines, width.map_or(usize::MAX, |w| w), skin);
        let lines = match width {
            Some(width) if width > 2 => {
                wrap::hard_wrap_lines(lines, width, skin).expect("width should be wide enough")
            }
            _ => lines,
        };
'''))
v("k_layout_helper", (X, '''        if let Some(width) = width {
            if width >= 3 {
                lines =
                    wrap::hard_wrap_lines(lines, width, skin).expect("width should be wide enough");
            }
        }
        FmtText { skin, lines, width }
    }
''', '''        let lines = Self::wrap(skin, lines, width);
        FmtText { skin, lines, width }
    }
    fn wrap(skin: &MadSkin, lines: Vec<FmtLine<'s>>, width: Option<usize>) -> Vec<FmtLine<'s>> {
        match width.filter(|&w| w >= 3) {
            Some(width) => wrap::hard_wrap_lines(lines, width, skin).unwrap(),
            None => lines,
        }
    }
'''))
v("k_content_max", (X, '''            .fold(0, |cw, line| cw.max(line.visible_length()))
''', '''            .map(|line| line.visible_length())
            .max()
            .unwrap_or(0)
'''))
v("k_content_loop", (X, '''        self.lines
            .iter()
            .fold(0, |cw, line| cw.max(line.visible_length()))
''', '''        let mut width = 0;
        for line in &self.lines {
            let w = line.visible_length();
            if w > width {
                width = w;
            }
        }
        width
'''))
v("k_raw_from", (X, '''        let mt = Text::raw_str(src);
        Self::from_text(skin, mt, width)
''', '''        FmtText::from_text(skin, Text::raw_str(src), width)
'''))
v("k_row_for", (T, '''        let mut table_row = table_row;
        FmtTableRow {
            cells: table_row
                .cells
                .drain(..)
                .map(|composite| FmtComposite::from(composite, skin))
                .collect(),
        }
''', '''        let mut cells = Vec::new();
        for composite in table_row.cells {
            cells.push(FmtComposite::from(composite, skin));
        }
        FmtTableRow { cells }
'''))
v("k_term_text", (S, '''        let (width, _) = terminal_size();
        FmtText::from(self, src, Some(width as usize))
''', '''        let width = terminal_size().0;
        self.text(src, Some(usize::from(width)))
'''), (S, '''        FmtText::from(self, src, Some(area.width as usize - 1))
''', '''        let width = usize::from(area.width - 1);
        self.text(src, Some(width))
'''))
v("k_expanders", (S, '''        let (width, _) = terminal_size();
        let text = expander.expand();
        let fmt_text = FmtText::from_text(self, text, Some(width as usize));
        print!("{}", fmt_text);
''', '''        self.print_expanded(expander.expand());
'''), (S, '''    /// do a `print!` of the given expander
''', '''    fn print_expanded(&self, text: Text<'_>) {
        let (width, _) = terminal_size();
        print!("{}", FmtText::from_text(self, text, Some(width as usize)));
    }

    /// do a `print!` of the given expander
'''), (S, '''        let text = expander.expand(&template);
        let fmt_text = FmtText::from_text(self, text, Some(width as usize));
        print!("{}", fmt_text);
''', '''        let text = expander.expand(&template);
        let fmt_text = FmtText::from_text(self, text, Some(width as usize));
        print!("{fmt_text}");
'''))
v("k_owning_md", (S, '''        let (width, _) = terminal_size();
        let template_md: String = template.into();
        let template = TextTemplate::from(&*template_md);
        let text = expander.expand(&template);
        let fmt_text = FmtText::from_text(self, text, Some(width as usize));
        print!("{}", fmt_text);
''', '''        let md: String = template.into();
        let template = TextTemplate::from(md.as_str());
        self.print_owning_expander(expander, &template);
'''))
v("k_composite", (S, '''        print!(
            "{}",
            FmtInline {
                skin: self,
                composite: FmtComposite::from(composite, self),
            }
        );
''', '''        let composite = FmtComposite::from(composite, self);
        let inline = FmtInline { skin: self, composite };
        print!("{inline}");
'''))
v("k_fill", (S, '''        fc.fill_width(width, align, self);
        Ok(queue!(
            w,
            Print(FmtInline {
                skin: self,
                composite: fc,
            })
        )?)
''', '''        fc.fit_width(width, align, self);
        fc.extend_width(width, align);
        let inline = FmtInline {
            skin: self,
            composite: fc,
        };
        w.queue(Print(inline))?;
        Ok(())
'''), (S, "use {\n", "use crokey::crossterm::QueueableCommand;\nuse {\n"))
v("k_write_inline", (S, '''        Ok(queue!(w, Print(self.inline(src)))?)
''', '''        write!(w, "{}", self.inline(src))?;
        Ok(())
'''))
v("k_resize_assign", (M, '''        self.area.left = area.left;
        self.area.top = area.top;
        self.area.height = area.height;
        self.area.width = area.width;
''', '''        self.area = area.clone();
'''))
v("k_resize_nested", (M, '''        if *area == self.area {
            return;
        }
        if area.width != self.area.width {
            self.scroll = 0; //TODO improve
        }
''', '''        if self.area.width != area.width {
            self.scroll = 0; //TODO improve
        }
'''))
v("k_mad_view", (M, '''        let text = self.skin.area_text(&self.markdown, &self.area);
        let mut text_view = TextView::from(&self.area, &text);
        text_view.scroll = self.scroll;
        text_view.write_on(w)?;
        Ok(())
''', '''        let Self { markdown, area, skin, scroll } = self;
        let text = skin.area_text(markdown, area);
        let mut view = TextView::from(area, &text);
        view.scroll = *scroll;
        view.write_on(w)
'''))
