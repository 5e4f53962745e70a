SK = "src/serde/serde_skin.rs"
SB = "src/serde/serde_scrollbar_style.rs"
PC = "src/parse/parse_color.rs"
PA = "src/parse/parse_attribute.rs"
CP = "src/parse/parse_compound_style.rs"
LP = "src/parse/parse_line_style.rs"
SP = "src/parse/parse_styled_char.rs"
PM = "src/parse/mod.rs"
TB = "src/table_border_chars.rs"
W = ["S09", "S10"]
V = {}
def v(name, props, *edits):
    V[name] = (props, list(edits))

v("sk_direct", ["S08"], (SK, '''                            let cs = parse_compound_style(&value).map_err(de::Error::custom)?;
                            skin.bold = cs;
''', '''                            skin.bold = parse_compound_style(&value).map_err(de::Error::custom)?;
'''))
v("sk_match", ["S08"], (SK, '''                            let ls = parse_line_style(&value).map_err(de::Error::custom)?;
                            skin.paragraph = ls;
''', '''                            match parse_line_style(&value) {
                                Ok(ls) => skin.paragraph = ls,
                                Err(e) => return Err(de::Error::custom(e)),
                            }
'''))
v("sk_value", ["S08"], (SK, '''                            let value = map.next_value::<String>()?;
                            let cs = parse_compound_style(&value).map_err(de::Error::custom)?;
                            skin.italic = cs;
''', '''                            skin.italic = map.next_value::<crate::CompoundStyle>()?;
'''))
v("sk_helper", ["S08"], (SK, '''            fn visit_map<V>(self, mut map: V)''', '''            #[allow(clippy::needless_lifetimes)]
            fn visit_map<V>(self, mut map: V)'''), (SK, '''                            let value = map.next_value::<String>()?;
                            let cs = parse_compound_style(&value).map_err(de::Error::custom)?;
                            skin.ellipsis = cs;
''', '''                            fn read<'de, V: de::MapAccess<'de>>(map: &mut V) -> Result<crate::CompoundStyle, V::Error> {
                                let value = map.next_value::<String>()?;
                                parse_compound_style(&value).map_err(de::Error::custom)
                            }
                            skin.ellipsis = read(&mut map)?;
'''))
v("sk_levels_zip", ["S08"], (SK, '''                                for (lvl, h) in vls.drain(..).enumerate() {
                                    if lvl < skin.headers.len() {
                                        skin.headers[lvl] = h;
                                    }
                                }
''', '''                                for (dest, h) in skin.headers.iter_mut().zip(vls.drain(..)) {
                                    *dest = h;
                                }
'''))
v("sk_levels_take", ["S08"], (SK, '''HeadersStyleInfo::Levels(mut vls) => {
                                for (lvl, h) in vls.drain(..).enumerate() {
                                    if lvl < skin.headers.len() {
                                        skin.headers[lvl] = h;
                                    }
                                }
''', '''HeadersStyleInfo::Levels(vls) => {
                                let count = skin.headers.len();
                                for (lvl, h) in vls.into_iter().take(count).enumerate() {
                                    skin.headers[lvl] = h;
                                }
'''))
v("sk_add_index", ["S08"], (SK, '''                                for h in &mut skin.headers {
                                    if let Some(fg)''', '''                                for i in 0..skin.headers.len() {
                                    let h = &mut skin.headers[i];
                                    if let Some(fg)'''))
v("sk_add_align", ["S08"], (SK, '''                                    if ls.align != Alignment::Unspecified {
                                        h.align = ls.align;
                                    }
''', '''                                    match ls.align {
                                        Alignment::Unspecified => {}
                                        align => h.align = align,
                                    }
'''))
v("sk_add_overwrite", ["S08"], (SK, '''                                    for &attr in ATTRIBUTES {
                                        if ls.compound_style.has_attr(attr) {
                                            h.compound_style.add_attr(attr);
                                        }
                                    }
''', '''                                    for attr in ATTRIBUTES.iter().copied().filter(|a| ls.compound_style.has_attr(*a)) {
                                        h.compound_style.add_attr(attr);
                                    }
'''))
v("sk_order", ["S08"], (SK, '''        skin.serialize_entry("bullet", &self.bullet)?;
        skin.serialize_entry("quote", &self.quote_mark)?;
''', '''        skin.serialize_entry("quote_mark", &self.quote_mark)?;
        skin.serialize_entry("bullet", &self.bullet)?;
'''))
v("sk_def", ["S08"], (SK, "        let def: ScrollBarStyleDef = (&self.scrollbar).into();\n        skin.serialize_entry(\"scrollbar\", &def)?;\n",
  "        skin.serialize_entry(\"scrollbar\", &ScrollBarStyleDef::from(&self.scrollbar))?;\n"))
v("sk_key", ["S08"], (SK, '''        if let Some(key) = self.table_border_chars.key() {
            skin.serialize_entry("table_border_chars", key)?;
        }
''', '''        match self.table_border_chars.key() {
            None => {}
            Some(key) => skin.serialize_entry("table_border_chars", &key)?,
        }
'''))
v("sk_default_headers", ["S08"], (SK, '''                            if let Some(chars) = TableBorderChars::by_key(&key) {
                                skin.table_border_chars = chars;
                            }
''', '''                            skin.table_border_chars =
                                TableBorderChars::by_key(&key).unwrap_or(skin.table_border_chars);
'''))
v("tb_match", ["S08"], (TB, '''        if self == STANDARD_TABLE_BORDER_CHARS {
            Some("standard")
        } else if self == ASCII_TABLE_BORDER_CHARS {
            Some("ascii")
        } else if''', '''        if self == ASCII_TABLE_BORDER_CHARS {
            return Some("ascii");
        }
        if self == STANDARD_TABLE_BORDER_CHARS {
            Some("standard")
        } else if'''))
v("sb_match", ["S08"], (SB, '''        if ScrollBarStyle::from(simple.clone()) == *sc {
            Self::Simple(simple)
        } else {
            Self::Rich {
                track: sc.track.clone(),
                thumb: sc.thumb.clone(),
            }
        }
''', '''        let ScrollBarStyle { track, thumb } = sc.clone();
        if ScrollBarStyle::from(simple.clone()) != *sc {
            return Self::Rich { track, thumb };
        }
        Self::Simple(simple)
'''))
v("p_color_early", W, (PC, '''            if level > 23 {
                return Err(ParseColorError::InvalidGreyLevel { level });
            }
            gray(level)
''', '''            match level {
                0..=23 => gray(level),
                _ => return Err(ParseColorError::InvalidGreyLevel { level }),
            }
'''))
v("p_color_rgb", W, (PC, '''            let (Ok(r), Ok(g), Ok(b)) = (r.parse(), g.parse(), b.parse()) else {
                return Err(ParseColorError::Unrecognized);
            };
            rgb(r, g, b)
''', '''            let read = |s: &str| s.parse::<u8>().map_err(|_| ParseColorError::Unrecognized);
            rgb(read(r)?, read(g)?, read(b)?)
'''))
v("p_hex", W, (PC, '''        if s.len() == 1 {
            u8::from_str_radix(&format!("{s}{s}"), 16)
        } else {
            u8::from_str_radix(s, 16)
        }
''', '''        let n = u8::from_str_radix(s, 16)?;
        Ok(if s.len() == 1 { n * 17 } else { n })
'''))
v("p_color_order", W, (PC, '''        "^black$"i => Color::AnsiValue(16),
        "^blue$"i => Color::Blue,
''', '''        "^blue$"i => Color::Blue,
        "^black$"i => Color::AnsiValue(16),
'''))
v("p_color_names", W, (PC, '''        "^darkcyan$"i => Color::DarkCyan,
''', '''        "^dark[_-]?cyan$"i => Color::DarkCyan,
'''))
v("p_wcolor", W, (PC, '''        Color::Red => write!(f, "Red"),''', '''        Color::Red => f.write_str("Red"),'''))
v("p_attr_lower", W, (PA, '''    if regex_is_match!("^bold$"i, s) {''', '''    if s.eq_ignore_ascii_case("bold") {'''))
v("p_attr_word", W, (PA, '''        Attribute::CrossedOut => write!(f, "CrossedOut"),''', '''        Attribute::CrossedOut => write!(f, "crossed_out"),'''))
v("p_cs_matches", W, (CP, '''                StyleToken::None => {
                    if !fg_set {
                        fg_set = true;
                    }
                }
''', '''                StyleToken::None => {
                    fg_set = true;
                }
'''))
v("p_cs_merge", W, (CP, '''                StyleToken::Char(_) => {
                    // not of use for compound styles
                }
                StyleToken::Align(_) => {
                    // not of use for compound styles
                }
                StyleToken::Dimension(_) => {
                    // not of use for compound styles
                }
''', '''                StyleToken::Char(_) | StyleToken::Align(_) | StyleToken::Dimension(_) => {}
'''))
v("p_cs_push", W, (CP, '''        if let Some(fg) = self.get_fg() {
            tokens.push(StyleToken::Color(fg));
        } else if self.get_bg().is_some() {
            tokens.push(StyleToken::None);
        }
        if let Some(bg) = self.get_bg() {
            tokens.push(StyleToken::Color(bg));
        }
''', '''        match (self.get_fg(), self.get_bg()) {
            (Some(fg), Some(bg)) => tokens.extend([StyleToken::Color(fg), StyleToken::Color(bg)]),
            (Some(fg), None) => tokens.push(StyleToken::Color(fg)),
            (None, Some(bg)) => {
                tokens.push(StyleToken::None);
                tokens.push(StyleToken::Color(bg));
            }
            (None, None) => {}
        }
'''))
v("p_cs_attrs", W, (CP, '''        for &attr in ATTRIBUTES {
            if self.has_attr(attr) {
                tokens.push(StyleToken::Attribute(attr));
            }
        }
''', '''        tokens.extend(
            ATTRIBUTES
                .iter()
                .filter(|attr| self.has_attr(**attr))
                .map(|attr| StyleToken::Attribute(*attr)),
        );
'''))
v("p_cs_attrs_first", W, (CP, '''        if let Some(fg) = self.get_fg() {
            tokens.push''', '''        for &attr in ATTRIBUTES {
            if self.has_attr(attr) {
                tokens.push(StyleToken::Attribute(attr));
            }
        }
        if let Some(fg) = self.get_fg() {
            tokens.push'''), (CP, '''            tokens.push(StyleToken::Color(bg));
        }
        for &attr in ATTRIBUTES {
            if self.has_attr(attr) {
                tokens.push(StyleToken::Attribute(attr));
            }
        }
''', '''            tokens.push(StyleToken::Color(bg));
        }
'''))
v("p_ls_always", W, (LP, '''        if self.left_margin > 0 || self.right_margin > 0 {
            tokens.push(StyleToken::Dimension(self.left_margin.min(65535) as u16));
            tokens.push(StyleToken::Dimension(self.right_margin.min(65535) as u16));
        }
''', '''        for margin in [self.left_margin, self.right_margin] {
            tokens.push(StyleToken::Dimension(margin.min(65535) as u16));
        }
'''))
v("p_ls_skip", W, (LP, '''        tokens.push(StyleToken::Align(self.align));
''', '''        if self.align != minimad::Alignment::Unspecified {
            tokens.push(StyleToken::Align(self.align));
        }
'''))
v("p_ls_margins", W, (LP, '''                    if left_margin.is_some() {
                        right_margin = Some(*number);
                    } else {
                        left_margin = Some(*number);
                    }
''', '''                    match left_margin {
                        None => left_margin = Some(*number),
                        Some(_) => right_margin = Some(*number),
                    }
'''))
v("p_sc_loop", W, (SP, '''    let nude_char = tokens
        .iter()
        .find_map(|token| match token {
            StyleToken::Char(c) => Some(*c),
            // a digit looks like a dimension
            StyleToken::Dimension(d) => char::from_digit(u32::from(*d), 10),
            _ => None,
        })
        .unwrap_or(default_nude_char);
''', '''    let mut nude_char = default_nude_char;
    for token in &tokens {
        let found = match token {
            StyleToken::Char(c) => Some(*c),
            StyleToken::Dimension(d) => char::from_digit(u32::from(*d), 10),
            _ => None,
        };
        if let Some(c) = found {
            nude_char = c;
            break;
        }
    }
'''))
v("p_tok_sep", W, (PM, '''            if !s.is_empty() {
                write!(&mut s, " {token}").unwrap();
            } else {
                write!(&mut s, "{token}").unwrap();
            }
        }
        s
    }
}
''', '''            if !s.is_empty() {
                s.push(' ');
            }
            write!(&mut s, "{token}").unwrap();
        }
        s
    }
}
'''))
v("p_tok_to_string", W, (PM, '''            if !s.is_empty() {
                write!(&mut s, " {token}").unwrap();
            } else {
                write!(&mut s, "{token}").unwrap();
            }
        }
        s
    }
}
''', '''            if !s.is_empty() {
                s.push_str(" ");
            }
            s.push_str(&token.to_string());
        }
        s
    }
}
'''))
v("p_write_sep", W, (PM, '''        if first {
            write!(w, "{token}")?;
            first = false;
        } else {
            write!(w, " {token}")?;
        }
''', '''        if !first {
            write!(w, " ")?;
        }
        first = false;
        write!(w, "{token}")?;
'''))
v("p_write_enum", W, (PM, '''    let mut first = true;
    for token in tokens {
        if first {
            write!(w, "{token}")?;
            first = false;
        } else {
            write!(w, " {token}")?;
        }
    }
''', '''    for (i, token) in tokens.iter().enumerate() {
        if i > 0 {
            write!(w, " ")?;
        }
        write!(w, "{token}")?;
    }
'''))

v("p_st_count", W, (PM, '''    let mut chars = s.chars();
    let c = chars.next();
    if let Some(c) = c {
        if chars.next().is_none() {
            return Ok(StyleToken::Char(c));
        }
    }
    Err(''', '''    let mut chars = s.chars();
    if let (Some(c), None) = (chars.next(), chars.next()) {
        return Ok(StyleToken::Char(c));
    }
    Err('''))
v("p_st_none", W, (PM, '''    if regex_is_match!("^none$"i, s) {
        return Ok(StyleToken::None);
    }
    if let Ok(number) = s.parse() {
        return Ok(StyleToken::Dimension(number));
    }
''', '''    if let Ok(number) = s.parse::<u16>() {
        return Ok(StyleToken::Dimension(number));
    }
    if s.to_lowercase() == "none" {
        return Ok(StyleToken::None);
    }
'''))
v("p_st_order", W, (PM, '''    if let Ok(attribute) = parse_attribute(s) {
        return Ok(StyleToken::Attribute(attribute));
    }
    if let Ok(align) = parse_align(s) {
        return Ok(StyleToken::Align(align));
    }
''', '''    if let Ok(align) = parse_align(s) {
        return Ok(StyleToken::Align(align));
    }
    if let Ok(attribute) = parse_attribute(s) {
        return Ok(StyleToken::Attribute(attribute));
    }
'''))
v("p_sts_collect", W, (PM, '''    let mut tokens = Vec::new();
    for m in regex!(r#"[^\s()]+(\([\w,\s]+\))?"#).find_iter(s) {
        tokens.push(parse_style_token(m.as_str())?);
    }
    Ok(tokens)
''', '''    regex!(r#"[^\s()]+(\([\w,\s]+\))?"#)
        .find_iter(s)
        .map(|m| parse_style_token(m.as_str()))
        .collect()
'''))
v("p_sts_match", W, (PM, '''        tokens.push(parse_style_token(m.as_str())?);
''', '''        match parse_style_token(m.as_str()) {
            Ok(token) => tokens.push(token),
            Err(e) => return Err(e),
        }
'''))
