CSF, SCF, LSF, SBF, SPF = "src/compound_style.rs", "src/styled_char.rs", "src/line_style.rs", "src/scrollbar_style.rs", "src/spacing.rs"
S = ["S01", "S02", "S03", "S04", "S05"]
R = ["R01", "R02", "R04", "R06", "E01", "E02", "E04"]
V = {
 "overwrite_if_let": (["S03", "S04"], [(CSF, '''        self.object_style.foreground_color = other
            .object_style
            .foreground_color
            .or(self.object_style.foreground_color);
        self.object_style.background_color = other
            .object_style
            .background_color
            .or(self.object_style.background_color);
        self.object_style
            .attributes
            .extend(other.object_style.attributes);
''', '''        let ContentStyle { foreground_color, background_color, attributes, .. } = other.object_style;
        if foreground_color.is_some() {
            self.object_style.foreground_color = foreground_color;
        }
        if let Some(color) = background_color {
            self.set_bg(color);
        }
        self.object_style.attributes.extend(attributes);
''')]),
 "overwrite_or_else": (["S03", "S04"], [(CSF, '''        self.object_style.foreground_color = other
            .object_style
            .foreground_color
            .or(self.object_style.foreground_color);
''', '''        let fg = self.object_style.foreground_color;
        self.object_style.foreground_color = other.get_fg().or_else(|| fg);
'''), (CSF, '''            .attributes
            .extend(other.object_style.attributes);
''', '''            .attributes = self.object_style.attributes | other.object_style.attributes;
''')]),
 "blend_helper": (["S05"], [(CSF, '''        if let Some(fg) = self.object_style.foreground_color.as_mut() {
            let src: coolor::Color = (*fg).into();
            *fg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
        }
        if let Some(bg) = self.object_style.background_color.as_mut() {
            let src: coolor::Color = (*bg).into();
            *bg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
        }
    }
''', '''        let blended = |color: Color| -> Color {
            coolor::Color::blend(coolor::Color::from(color), 1.0 - weight, dest, weight).into()
        };
        self.object_style.foreground_color = self.object_style.foreground_color.map(blended);
        self.object_style.background_color = self.object_style.background_color.map(blended);
    }
''')]),
 "blend_fn": (["S05"], [(CSF, '''        if let Some(fg) = self.object_style.foreground_color.as_mut() {
            let src: coolor::Color = (*fg).into();
            *fg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
        }
        if let Some(bg) = self.object_style.background_color.as_mut() {
            let src: coolor::Color = (*bg).into();
            *bg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
        }
    }
''', '''        for color in [
            &mut self.object_style.foreground_color,
            &mut self.object_style.background_color,
        ] {
            if let Some(color) = color {
                let src: coolor::Color = (*color).into();
                *color = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
            }
        }
    }
''')]),
 "ctor_struct": (["S03"], [(CSF, '''        Self::new(Some(fg), Some(bg), Attributes::default())
''', '''        let mut style = Self::with_fg(fg);
        style.set_bg(bg);
        style
'''), (CSF, '''        let mut cp = Self::default();
        cp.add_attr(attr);
        cp
''', '''        Self::new(None, None, attr.into())
'''), (CSF, '''    pub fn set_fgbg(&mut self, fg: Color, bg: Color) {
        self.object_style.foreground_color = Some(fg);
        self.object_style.background_color = Some(bg);
''', '''    pub fn set_fgbg(&mut self, fg: Color, bg: Color) {
        self.set_bg(bg);
        self.set_fg(fg);
''')]),
 "repeat_early": (R, [(CSF, '''        if count > 0 {
            let s = std::iter::repeat(c).take(count).collect::<String>();
            write!(f, "{}", self.apply_to(s))?;
        }
        Ok(())
''', '''        if count == 0 {
            return Ok(());
        }
        let mut s = String::with_capacity(count * c.len_utf8());
        for _ in 0..count {
            s.push(c);
        }
        write!(f, "{}", self.apply_to(s))
'''), (CSF, '''        if count > 0 {
            write!(f, "{}", self.apply_to(s.repeat(count)))
        } else {
            Ok(())
        }
''', '''        match count {
            0 => Ok(()),
            _ => {
                let repeated = s.repeat(count);
                write!(f, "{}", self.apply_to(repeated))
            }
        }
''')]),
 "queue_queue_macro": (R, [(CSF, '''        w.queue(PrintStyledContent(self.apply_to(val)))?;
        Ok(())
''', '''        let styled = self.apply_to(val);
        w.queue(PrintStyledContent(styled))?;
        Ok(())
'''), (CSF, '''        if let Some(fg) = self.object_style.foreground_color {
            w.queue(SetForegroundColor(fg))?;
        }
        Ok(())
''', '''        match self.get_fg() {
            Some(fg) => {
                w.queue(SetForegroundColor(fg))?;
                Ok(())
            }
            None => Ok(()),
        }
''')]),
 "sc_restyle": (["S01", "S02", "S05"], [(SCF, '''    pub fn set_fg(&mut self, color: Color) {
        self.compound_style.set_fg(color);
        self.styled_char = self.compound_style.apply_to(self.nude_char);
    }
''', '''    fn update(&mut self) {
        self.styled_char = self.compound_style.apply_to(self.nude_char);
    }
    pub fn set_fg(&mut self, color: Color) {
        self.compound_style.set_fg(color);
        self.update();
    }
'''), (SCF, '''        self.compound_style = compound_style;
        self.styled_char = self.compound_style.apply_to(self.nude_char);
''', '''        *self = Self::new(compound_style, self.nude_char);
'''), (SCF, '''        self.nude_char = nude_char;
        self.styled_char = self.compound_style.apply_to(self.nude_char);
''', '''        self.styled_char = self.compound_style.apply_to(nude_char);
        self.nude_char = nude_char;
''')]),
 "sc_repeated": (R + ["S02"], [(SCF, '''        let mut s = String::new();
        for _ in 0..count {
            s.push(self.nude_char);
        }
        self.compound_style.apply_to(s)
''', '''        let s: String = std::iter::repeat(self.nude_char).take(count).collect();
        self.compound_style.apply_to(s)
'''), (SCF, '''        let mut s = String::new();
        for _ in 0..count {
            s.push(self.nude_char);
        }
        self.compound_style.queue(w, s)
''', '''        w.queue(PrintStyledContent(self.repeated(count)))?;
        Ok(())
''')]),
 "sc_repeat_str": (R + ["S02"], [(SCF, '''        let mut s = String::new();
        for _ in 0..count {
            s.push(self.nude_char);
        }
        self.compound_style.apply_to(s)
''', '''        self.compound_style.apply_to(self.nude_char.to_string().repeat(count))
'''), (SCF, '''        let mut s = String::new();
        for _ in 0..count {
            s.push(self.nude_char);
        }
        self.compound_style.queue(w, s)
''', '''        let mut s = String::new();
        let mut n = 0;
        while n < count {
            s.push(self.nude_char);
            n += 1;
        }
        self.compound_style.queue(w, s)
''')]),
 "margins_match": (["R01", "R04", "R05"], [(LSF, '''        if let Some(width) = available_width {
            if width < self.left_margin + self.right_margin + 3 {
                return (0, 0);
            }
        }
        (self.left_margin, self.right_margin)
''', '''        match available_width {
            Some(width) if width < 3 + self.left_margin + self.right_margin => (0, 0),
            _ => (self.left_margin, self.right_margin),
        }
''')]),
 "margins_map_or": (["R01", "R04", "R05"], [(LSF, '''        if let Some(width) = available_width {
            if width < self.left_margin + self.right_margin + 3 {
                return (0, 0);
            }
        }
        (self.left_margin, self.right_margin)
''', '''        let needed = self.left_margin + self.right_margin + 3;
        let enough = available_width.map_or(true, |width| width >= needed);
        if enough {
            (self.left_margin, self.right_margin)
        } else {
            (0, 0)
        }
''')]),
 "ls_delegates": (["S01", "S03", "S05", "R06"], [(LSF, '''        self.repeat_char(f, ' ', count)
''', '''        self.compound_style.repeat_space(f, count)
'''), (LSF, '''        Self {
            compound_style,
            align: Alignment::Unspecified,
            left_margin: 0,
            right_margin: 0,
        }
    }
}
''', '''        Self::new(compound_style, Alignment::Unspecified)
    }
}
''')]),
 "sb_set_bg": (["S01"], [(SBF, '''        self.track.set_bg(bg);
        self.thumb.set_bg(bg);
''', '''        let ScrollBarStyle { track, thumb } = self;
        thumb.set_bg(bg);
        track.set_bg(bg);
''')]),
 "completions_free": (["R01", "R02", "R04"], [(SPF, '''        if inner_width >= outer_width {
            return (0, 0);
        }
        match align {
            Alignment::Left | Alignment::Unspecified => (0, outer_width - inner_width),
            Alignment::Center => {
                let lp = (outer_width - inner_width) / 2;
                (lp, outer_width - inner_width - lp)
            }
            Alignment::Right => (outer_width - inner_width, 0),
        }
''', '''        let missing = outer_width.saturating_sub(inner_width);
        let left = match align {
            Alignment::Left | Alignment::Unspecified => 0,
            Alignment::Center => missing / 2,
            Alignment::Right => missing,
        };
        (left, missing - left)
''')]),
 "completions_checked": (["R01", "R02", "R04"], [(SPF, '''        if inner_width >= outer_width {
            return (0, 0);
        }
        match align {
            Alignment::Left | Alignment::Unspecified => (0, outer_width - inner_width),
            Alignment::Center => {
                let lp = (outer_width - inner_width) / 2;
                (lp, outer_width - inner_width - lp)
            }
            Alignment::Right => (outer_width - inner_width, 0),
        }
''', '''        if let Some(missing) = outer_width.checked_sub(inner_width) {
            match align {
                Alignment::Right => (missing, 0),
                Alignment::Center => {
                    let lp = missing >> 1;
                    (lp, missing - lp)
                }
                _ => (0, missing),
            }
        } else {
            (0, 0)
        }
'''), (SPF, '''        match outer_width {
            Some(outer_width) => Spacing::completions(align, inner_width, outer_width),
            None => (0, 0),
        }
''', '''        if let Some(outer_width) = outer_width {
            return Self::completions(align, inner_width, outer_width);
        }
        (0, 0)
''')]),
 "counted_str": (["R04", "R06", "E02", "E04"], [(SPF, '''            let mut con = String::new();
            for _ in 0..lp {
                con.push(' ');
            }
            con.push_str(s);
            for _ in 0..rp {
                con.push(' ');
            }
            style.queue(w, con)?;
        }
        Ok(())
''', '''            let mut con = " ".repeat(lp);
            con.push_str(s);
            con.push_str(&" ".repeat(rp));
            style.queue(w, con)?;
        }
        Ok(())
''')]),
 "counted_str_early": (["R04", "R06", "E02", "E04"], [(SPF, '''        if str_width >= self.width {
            // we must truncate
            let s = truncate(s, self.width);
            style.queue_str(w, s)?;
        } else {
''', '''        if self.width <= str_width {
            // we must truncate
            return style.queue_str(w, truncate(s, self.width));
        }
        {
''')]),
 "truncate_if_let": (["R04", "R06"], [(SPF, '''    match s.char_indices().nth(max_chars) {
        None => s,
        Some((idx, _)) => &s[..idx],
    }
''', '''    if let Some((idx, _)) = s.char_indices().nth(max_chars) {
        &s[..idx]
    } else {
        s
    }
''')]),
 "truncate_map_or": (["R04", "R06"], [(SPF, '''    match s.char_indices().nth(max_chars) {
        None => s,
        Some((idx, _)) => &s[..idx],
    }
''', '''    let end = s
        .char_indices()
        .nth(max_chars)
        .map_or(s.len(), |(idx, _)| idx);
    &s[..end]
''')]),
}
