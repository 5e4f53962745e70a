CF, TF, LF, RF, TK, FF, SF, CW, IL = "src/composite.rs", "src/text.rs", "src/line.rs", "src/rect.rs", "src/tokens.rs", "src/fit/filling.rs", "src/fit/str_fit.rs", "src/fit/crop_writer.rs", "src/inline.rs"
R = ["R01", "R02", "R03", "R04", "R05", "E01", "E04"]
CR = ["C01", "C02", "E01", "E02", "E04"]
STR = '''        let mut bytes_count = 0;
        let mut cols_count: i32 = 0;
        let mut has_tab = false;
        for (idx, c) in s.char_indices() {
            let char_width: i32 = match c {
                '\\t' => {
                    // tab
                    has_tab = true;
                    TAB_REPLACEMENT.len() as i32
                }
                '\\x08' => {
                    // backspace
                    -1
                }
                _ => UnicodeWidthChar::width(c).map(|w| w as i32).unwrap_or(0),
            };
            let next_str_width = cols_count + char_width;
            if next_str_width > 0 && next_str_width as usize > cols_max {
                break;
            }
            cols_count = next_str_width;
            bytes_count = idx + c.len_utf8();
        }
'''
V = {
 "extend_match": (["R04", "R05"], [(CF, '''        if let Some(ref mut spacing) = self.spacing {
            if spacing.width < width {
                spacing.width = width;
            }
            spacing.align = align;
        } else if self.visible_length < width {
            self.spacing = Some(Spacing { width, align });
        }
''', '''        match self.spacing.as_mut() {
            Some(spacing) => {
                spacing.align = align;
                spacing.width = spacing.width.max(width);
            }
            None => {
                if width > self.visible_length {
                    self.spacing = Some(Spacing { align, width });
                }
            }
        }
''')]),
 "from_order": (["R05"], [(CF, '''        FmtComposite {
            visible_length: skin.visible_composite_length(kind, &composite.compounds),
            kind,
            compounds: composite.compounds,
            spacing: None,
        }
''', '''        let mut fc = FmtComposite {
            kind,
            compounds: composite.compounds,
            visible_length: 0,
            spacing: None,
        };
        fc.recompute_width(skin);
        fc
'''), (CF, '''        self.visible_length += compound.src.width();
        self.compounds.push(compound);
''', '''        let width = compound.src.width();
        self.compounds.push(compound);
        self.visible_length += width;
''')]),
 "completions_if_let": (["R01", "R04"], [(CF, '''        match &self.spacing {
            Some(spacing) => spacing.completions_for(self.visible_length),
            None => (0, 0),
        }
''', '''        if let Some(spacing) = self.spacing {
            Spacing::completions(spacing.align, self.visible_length, spacing.width)
        } else {
            (0, 0)
        }
''')]),
 "from_text_into_iter": (R + ["W03"], [(TF, '''        let mut lines = text
            .lines
            .drain(..)
            .map(|mline| FmtLine::from(mline, skin))
            .collect();
''', '''        let mut lines = Vec::with_capacity(text.lines.len());
        for mline in text.lines {
            lines.push(FmtLine::from(mline, skin));
        }
'''), (TF, "        mut text: Text<'s>,", "        text: Text<'s>,")]),
 "content_width_max": (R, [(TF, '''        self.lines
            .iter()
            .fold(0, |cw, line| cw.max(line.visible_length()))
''', '''        self.lines
            .iter()
            .map(|line| line.visible_length())
            .max()
            .unwrap_or(0)
''')]),
 "content_width_loop": (R, [(TF, '''        self.lines
            .iter()
            .fold(0, |cw, line| cw.max(line.visible_length()))
''', '''        let mut width = 0;
        for line in &self.lines {
            let length = line.visible_length();
            if length > width {
                width = length;
            }
        }
        width
''')]),
 "display_try": (R, [(TF, '''        for line in &self.lines {
            self.skin.write_fmt_line(f, line, self.width, false)?;
            writeln!(f)?;
        }
        Ok(())
''', '''        self.lines.iter().try_for_each(|line| {
            self.skin.write_fmt_line(f, line, self.width, false)?;
            f.write_str("\\n")
        })
''')]),
 "display_index": (R, [(TF, '''        for line in &self.lines {
            self.skin.write_fmt_line(f, line, self.width, false)?;
            writeln!(f)?;
        }
        Ok(())
''', '''        let mut i = 0;
        while i < self.lines.len() {
            self.skin.write_fmt_line(f, &self.lines[i], self.width, false)?;
            f.write_char('\\n')?;
            i += 1;
        }
        Ok(())
'''), (TF, "impl fmt::Display for FmtText<'_, '_> {", "use std::fmt::Write as _;\n\nimpl fmt::Display for FmtText<'_, '_> {")]),
 "visible_length_sum": (["R05", "V03"], [(LF, '''            FmtLine::TableRow(row) => row.cells.iter().fold(0, |s, c| s + c.visible_length), // Is that right ? no spacing ?
            FmtLine::TableRule(rule) => 1 + rule.widths.iter().fold(0, |s, w| s + w + 1),
''', '''            FmtLine::TableRow(row) => row.cells.iter().map(|c| c.visible_length).sum(), // Is that right ? no spacing ?
            FmtLine::TableRule(FmtTableRule { widths, .. }) => {
                1 + widths.iter().map(|w| w + 1).sum::<usize>()
            }
''')]),
 "rect_helper": (["V03", "E01", "E02", "E04"], [(RF, '''        cs.queue(w, bs.top_left)?;
        if area.width > 2 {
            for _ in 0..area.width - 2 {
                cs.queue(w, bs.top)?;
            }
        }
        cs.queue(w, bs.top_right)?;
''', '''        self.queue_row(w, bs.top_left, bs.top, bs.top_right)?;
'''), (RF, '''        cs.queue(w, bs.bottom_left)?;
        if area.width > 2 {
            for _ in 0..area.width - 2 {
                cs.queue(w, bs.bottom)?;
            }
        }
        cs.queue(w, bs.bottom_right)?;
        Ok(())
    }
''', '''        self.queue_row(w, bs.bottom_left, bs.bottom, bs.bottom_right)
    }
    fn queue_row<W: Write>(&self, w: &mut W, left: char, mid: char, right: char) -> Result<()> {
        let cs = &self.colors;
        cs.queue(w, left)?;
        for _ in 2..self.area.width {
            cs.queue(w, mid)?;
        }
        cs.queue(w, right)?;
        Ok(())
    }
''')]),
 "rect_for": (["V03", "E01", "E02", "E04"], [(RF, '''        let mut y = area.top;
        w.queue(cursor::MoveTo(area.left, y))?;
''', '''        w.queue(cursor::MoveTo(area.left, area.top))?;
'''), (RF, '''        y += 1;
        while y < area.top + area.height - 1 {
            w.queue(''', '''        for y in area.top + 1..area.top + area.height - 1 {
            w.queue('''), (RF, '''            cs.queue(w, bs.right)?;
            y += 1;
        }
''', '''            cs.queue(w, bs.right)?;
        }
''')]),
 "rect_saturating": (["V03", "E01", "E02", "E04"], [(RF, '''        cs.queue(w, bs.top_left)?;
        if area.width > 2 {
            for _ in 0..area.width - 2 {
                cs.queue(w, bs.top)?;
            }
        }
''', '''        cs.queue(w, bs.top_left)?;
        for _ in 0..area.width.saturating_sub(2) {
            cs.queue(w, bs.top)?;
        }
'''), (RF, '''                if area.width > 2 {
                    SPACE_FILLING.queue_styled(w, cs, area.width as usize - 2)?;
                }
''', '''                SPACE_FILLING.queue_styled(w, cs, (area.width as usize).saturating_sub(2))?;
''')]),
 "token_match": (["C04", "W01", "W02"], [(TK, '''            if let Some(token) = token.as_mut() {
                // the width of a string may be different from the sum of the widths of its
                // chars, and composites are measured by string widths
                let width = compound.src[token.start_in_compound..end].width();
                if token.blank == blank && width <= max_token_width {
                    token.width = width;
                    token.end_in_compound = end;
                    continue;
                }
            }
            let new_token = Token {
                compound: compound.clone(),
                blank,
                width: compound.src[idx..end].width(),
                start_in_compound: idx,
                end_in_compound: end,
            };
            if let Some(token) = token.replace(new_token) {
                tokens.push(token);
            }
        }
''', '''            match token.as_mut() {
                Some(current)
                    if current.blank == blank
                        && compound.src[current.start_in_compound..end].width() <= max_token_width =>
                {
                    current.end_in_compound = end;
                    current.width = compound.src[current.start_in_compound..end].width();
                }
                _ => {
                    tokens.extend(token.take());
                    token = Some(Token {
                        compound: compound.clone(),
                        blank,
                        width: compound.src[idx..end].width(),
                        start_in_compound: idx,
                        end_in_compound: end,
                    });
                }
            }
        }
''')]),
 "token_early": (["C04", "W01", "W02"], [(TK, '''            if let Some(token) = token.replace(new_token) {
                tokens.push(token);
            }
        }
        if let Some(token) = token {
            tokens.push(token);
        }
''', '''            if let Some(previous) = token.take() {
                tokens.push(previous);
            }
            token = Some(new_token);
        }
        match token {
            Some(last) => tokens.push(last),
            None => {}
        }
'''), (TK, '''            let blank = char.is_whitespace() && !compound.code;
''', '''            let blank = if compound.code { false } else { char.is_whitespace() };
''')]),
 "filling_loop": (["C03", "C02", "E04"], [(FF, '''        while len > 0 {
            let sl = len.min(FILLING_STRING_CHAR_LEN);
            w.queue(Print(&self.filling_string[0..sl * self.char_size]))?;
            len -= sl;
        }
        Ok(())
''', '''        loop {
            if len == 0 {
                return Ok(());
            }
            let sl = if len < FILLING_STRING_CHAR_LEN { len } else { FILLING_STRING_CHAR_LEN };
            len -= sl;
            w.queue(Print(&self.filling_string[..sl * self.char_size]))?;
        }
'''), (FF, '''            cs.queue_str(w, &self.filling_string[0..sl * self.char_size])?;
''', '''            let part = &self.filling_string[0..sl * self.char_size];
            cs.queue(w, part)?;
'''), (FF, '''        let char_size = String::from(filling_char).len();
''', '''        let char_size = filling_char.len_utf8();
''')]),
 "filling_repeat": (["C03", "C02", "E04"], [(FF, '''        let mut filling_string = String::with_capacity(char_size * FILLING_STRING_CHAR_LEN);
        for _ in 0..FILLING_STRING_CHAR_LEN {
            filling_string.push(filling_char);
        }
''', '''        let filling_string = std::iter::repeat(filling_char)
            .take(FILLING_STRING_CHAR_LEN)
            .collect::<String>();
''')]),
 "fit_helper": (["C01", "C02"], [(SF, STR, '''        let mut bytes_count = 0;
        let mut cols_count: i32 = 0;
        let mut has_tab = false;
        for (idx, c) in s.char_indices() {
            let next_str_width = cols_count + cols_of(c);
            if next_str_width > 0 && next_str_width as usize > cols_max {
                has_tab |= c == '\\t';
                break;
            }
            has_tab |= c == '\\t';
            cols_count = next_str_width;
            bytes_count = idx + c.len_utf8();
        }
'''), (SF, '''impl StrFit {
''', '''fn cols_of(c: char) -> i32 {
    if c == '\\t' {
        TAB_REPLACEMENT.len() as i32
    } else if c == '\\x08' {
        -1
    } else {
        UnicodeWidthChar::width(c).map_or(0, |w| w as i32)
    }
}

impl StrFit {
''')]),
 "fit_while": (["C01", "C02"], [(SF, STR, '''        let mut bytes_count = 0;
        let mut cols_count: i32 = 0;
        let mut has_tab = false;
        let mut chars = s.chars();
        while let Some(c) = chars.next() {
            let char_width: i32 = match c {
                '\\t' => {
                    has_tab = true;
                    TAB_REPLACEMENT.len() as i32
                }
                '\\x08' => -1,
                _ => c.width().unwrap_or(0) as i32,
            };
            if cols_count + char_width > 0 && (cols_count + char_width) as usize > cols_max {
                break;
            }
            cols_count += char_width;
            bytes_count += c.len_utf8();
        }
''')]),
 "make_shared": (["C01", "C02"], [(SF, '''        let fit = StrFit::from(s, cols_max);
        if fit.has_tab {
            let string = (s[0..fit.bytes_count]).replace('\\t', TAB_REPLACEMENT);
            (string, fit.cols_count)
        } else {
            (s[0..fit.bytes_count].to_string(), fit.cols_count)
        }
    }
''', '''        let (cow, cols) = Self::make_cow(s, cols_max);
        (cow.into_owned(), cols)
    }
'''), (SF, '''        let fit = StrFit::from(s, cols_max);
        if fit.has_tab {
            // we can't just borrow, as we insert chars
            let string = (s[0..fit.bytes_count]).replace('\\t', TAB_REPLACEMENT);
            (Cow::Owned(string), fit.cols_count)
        } else {
            (Cow::Borrowed(&s[0..fit.bytes_count]), fit.cols_count)
        }
''', '''        let StrFit { bytes_count, cols_count, has_tab } = StrFit::from(s, cols_max);
        let kept = &s[..bytes_count];
        let cow = match has_tab {
            true => Cow::Owned(kept.replace('\\t', TAB_REPLACEMENT)),
            false => Cow::Borrowed(kept),
        };
        (cow, cols_count)
''')]),
 "crop_common": (CR, [(CW, '''        let (string, len) = self.cropped_str(s);
        self.allowed -= len;
        cs.queue(self.w, string)
''', '''        let fit = self.cropped_str(s);
        self.allowed -= fit.1;
        cs.queue(self.w, fit.0)?;
        Ok(())
'''), (CW, '''        if width < self.allowed {
            self.allowed -= width;
            cs.queue(self.w, c)?;
        }
        Ok(())
''', '''        if width >= self.allowed {
            return Ok(());
        }
        self.allowed -= width;
        cs.queue(self.w, c)
'''), (CW, '''        len = len.min(self.allowed);
        self.allowed -= len;
        filling.queue_styled(self.w, cs, len)
''', '''        if len > self.allowed {
            len = self.allowed;
        }
        filling.queue_styled(self.w, cs, len)?;
        self.allowed -= len;
        Ok(())
''')]),
 "g_string_count": (CR, [(CW, '''        let mut len = 0;
        for (idx, _) in s.char_indices() {
            len += 1;
            if len > self.allowed {
                s.truncate(idx);
                self.allowed = 0;
                return cs.queue(self.w, s);
            }
        }
        self.allowed -= len;
        cs.queue(self.w, s)
''', '''        match s.char_indices().nth(self.allowed) {
            Some((idx, _)) => {
                s.truncate(idx);
                self.allowed = 0;
            }
            None => {
                self.allowed -= s.chars().count();
            }
        }
        cs.queue(self.w, s)
''')]),
 "g_string_enumerate": (CR, [(CW, '''        let mut len = 0;
        for (idx, _) in s.char_indices() {
            len += 1;
            if len > self.allowed {
                s.truncate(idx);
                self.allowed = 0;
                self.w.queue(Print(s))?;
                return Ok(());
            }
        }
        self.allowed -= len;
        self.w.queue(Print(s))?;
        Ok(())
''', '''        let mut remaining = self.allowed;
        let mut cut = None;
        for (idx, _) in s.char_indices() {
            if remaining == 0 {
                cut = Some(idx);
                break;
            }
            remaining -= 1;
        }
        if let Some(idx) = cut {
            s.truncate(idx);
        }
        self.allowed = remaining;
        self.w.queue(Print(s))?;
        Ok(())
''')]),
 "crop_fill": (CR, [(CW, '''        self.repeat(cs, &SPACE_FILLING, self.allowed)
''', '''        self.fill(cs, &SPACE_FILLING)
'''), (CW, '''        if self.is_full() {
            return Ok(());
        }
        let (string, len) = self.cropped_str(s);
        self.allowed -= len;
        self.w.queue(Print(string))?;
        Ok(())
''', '''        if !self.is_full() {
            let (string, len) = self.cropped_str(s);
            self.w.queue(Print(string))?;
            self.allowed -= len;
        }
        Ok(())
''')]),
}
