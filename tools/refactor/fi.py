V = {}
F = "src/fit/composite_fit.rs"
C = "src/composite.rs"


def v(name, *edits):
    V[name] = (["F01"], list(edits))


v("f_excess_match", (F, '''        if fc.visible_length <= max_width {
            return;
        } else if max_width == 0 {
            fc.compounds.clear();
            fc.visible_length = 0;
            return;
        } else if max_width == 1 {
            fc.compounds.clear();
            fc.compounds.push(Compound::raw_str(ELLIPSIS));
            fc.visible_length = 1;
            return;
        }
''', '''        if fc.visible_length <= max_width {
            return;
        }
        match max_width {
            0 => {
                fc.visible_length = 0;
                fc.compounds = Vec::new();
                return;
            }
            1 => {
                fc.compounds = vec![Compound::raw_str(ELLIPSIS)];
                fc.visible_length = 1;
                return;
            }
            _ => {}
        }
'''))
v("f_helper_mid", (F, '''            while excess > 0 {
                let mut gain = 0;
                if let Some(zone) = Zone::biggest_token(&fc.compounds, 3) {
                    gain = zone.cut(&mut fc.compounds, excess + 1);
                }
                if gain == 0 {
                    break;
                }
                excess -= gain.min(excess);
            }
''', '''            while excess > 0 {
                let gain = match Zone::biggest_token(&fc.compounds, 3) {
                    Some(zone) => zone.cut(&mut fc.compounds, excess + 1),
                    None => 0,
                };
                if gain == 0 {
                    break;
                }
                excess = excess.saturating_sub(gain);
            }
'''))
v("f_helpers", (F, '''        if excess_left > 0 {
            // left truncating
            while excess_left > 0 && !compounds.is_empty() {
''', '''        if excess_left > 0 {
            trunc_left(compounds, excess_left);
        }
        if excess_right > 0 {
            trunc_right(compounds, excess_right);
        }
        fc.recompute_width(skin);
    }
}

fn trunc_left(compounds: &mut Vec<Compound<'_>>, mut excess_left: usize) {
            while excess_left > 0 && !compounds.is_empty() {
'''), (F, '''            compounds.insert(0, Compound::raw_str(ELLIPSIS));
        }

        if excess_right > 0 {
            // right truncating
''', '''            compounds.insert(0, Compound::raw_str(ELLIPSIS));
}

fn trunc_right(compounds: &mut Vec<Compound<'_>>, mut excess_right: usize) {
'''), (F, '''            compounds.push(Compound::raw_str(ELLIPSIS));
        }

        fc.recompute_width(skin);
    }
}
''', '''            compounds.push(Compound::raw_str(ELLIPSIS));
}
'''), (F, "        let (mut excess_left, mut excess_right) = match", "        let (excess_left, excess_right) = match"))
v("f_last_mut", (F, '''            while excess_right > 0 && !compounds.is_empty() {
                let last_idx = compounds.len() - 1;
                let compound = &mut compounds[last_idx];
''', '''            while excess_right > 0 {
                let compound = match compounds.last_mut() {
                    Some(compound) => compound,
                    None => break,
                };
'''))
v("f_first_mut", (F, '''            while excess_left > 0 && !compounds.is_empty() {
                let compound = &mut compounds[0];
''', '''            while excess_left > 0 {
                let Some(compound) = compounds.first_mut() else {
                    break;
                };
'''))
v("f_center", (F, '''                if left > 0 {
                    (left + 1, right + 1)
                } else {
                    (0, right + 1)
                }
''', '''                (if left == 0 { 0 } else { left + 1 }, right + 1)
'''))
v("f_rev_index", (F, '''                for ci in char_infos.iter().rev() {
                    end_byte_idx = ci.byte_idx;
                    removed_width += ci.width;
                    if removed_width >= excess_right {
                        break;
                    }
                }
''', '''                let mut i = char_infos.len();
                while i > 0 {
                    i -= 1;
                    end_byte_idx = char_infos[i].byte_idx;
                    removed_width += char_infos[i].width;
                    if removed_width >= excess_right {
                        break;
                    }
                }
'''))
v("f_left_for", (F, '''                let mut last_removed_char_idx = 0;
                let mut removed_width = 0;
                loop {
                    removed_width += char_infos[last_removed_char_idx].width;
                    if removed_width >= excess_left || last_removed_char_idx + 1 == char_infos.len()
                    {
                        break;
                    }
                    last_removed_char_idx += 1;
                }
''', '''                let mut last_removed_char_idx = 0;
                let mut removed_width = 0;
                for (i, ci) in char_infos.iter().enumerate() {
                    last_removed_char_idx = i;
                    removed_width += ci.width;
                    if removed_width >= excess_left {
                        break;
                    }
                }
'''))
v("f_cut_splice", (F, '''        compounds[self.compound_idx] = head;
        compounds.insert(self.compound_idx + 1, Compound::raw_str(ELLIPSIS));
        compounds.insert(self.compound_idx + 2, tail);
''', '''        compounds[self.compound_idx] = tail;
        compounds.insert(self.compound_idx, Compound::raw_str(ELLIPSIS));
        compounds.insert(self.compound_idx, head);
'''))
v("f_cut_while", (F, '''        loop {
            // we alternatively grow left and right
            if (end_char_idx - start_char_idx) % 2 == 0 {
                if end_char_idx + 1 >= len {
                    break;
                }
                end_char_idx += 1;
            } else {
                if start_char_idx <= 1 {
                    break;
                }
                start_char_idx -= 1;
            }
''', '''        let mut right = true;
        loop {
            // we alternatively grow left and right
            if right {
                if end_char_idx + 1 >= len {
                    break;
                }
                end_char_idx += 1;
            } else {
                if start_char_idx < 2 {
                    break;
                }
                start_char_idx -= 1;
            }
            right = !right;
'''))
v("f_cut_helper", (F, '''            let start_byte_idx = self.byte_start_idx + self.char_infos[start_char_idx].byte_idx;
            let end_byte_idx = self.byte_start_idx + self.char_infos[end_char_idx].byte_idx;
            removed_width = (compound.src[start_byte_idx..end_byte_idx]).width();
''', '''            removed_width = compound.src[self.byte_of(start_char_idx)..self.byte_of(end_char_idx)].width();
'''), (F, '''    /// return the gain (that is''', '''    fn byte_of(&self, i: usize) -> usize {
        self.char_infos[i].byte_idx + self.byte_start_idx
    }
    /// return the gain (that is'''))
v("f_infos_loop", (F, '''    s.char_indices()
        .map(|(byte_idx, char)| CharInfo {
            byte_idx,
            width: char.width().unwrap_or(0),
        })
        .collect()
''', '''    let mut infos = Vec::new();
    for (byte_idx, char) in s.char_indices() {
        let width = match char.width() {
            Some(w) => w,
            None => 0,
        };
        infos.push(CharInfo { byte_idx, width });
    }
    infos
'''))
v("f_compounds_loop", (F, '''        compounds
            .iter()
            .enumerate()
            .filter_map(|(compound_idx, compound)| {
                let char_infos = str_char_infos(compound.src);
                if char_infos.len() < 2 + min_removable_width {
                    return None;
                }
                let removable = &compound.src
                    [char_infos[1].byte_idx..char_infos[char_infos.len() - 1].byte_idx];
                let removable_width = removable.width();
                if removable_width < min_removable_width {
                    None
                } else {
                    Some(Zone {
                        compound_idx,
                        byte_start_idx: 0,
                        char_infos,
                        removable_width,
                    })
                }
            })
            .collect()
''', '''        let mut zones = Vec::new();
        for (compound_idx, compound) in compounds.iter().enumerate() {
            let char_infos = str_char_infos(compound.src);
            if char_infos.len() < 2 + min_removable_width {
                continue;
            }
            let removable = &compound.src
                [char_infos[1].byte_idx..char_infos[char_infos.len() - 1].byte_idx];
            let removable_width = removable.width();
            if removable_width >= min_removable_width {
                zones.push(Zone {
                    compound_idx,
                    byte_start_idx: 0,
                    char_infos,
                    removable_width,
                });
            }
        }
        zones
'''))
v("f_token_helper", (F, '''                        if byte_idx - byte_start_idx >= min_removable_width + 2 {
                            let zs = &s[byte_start_idx..byte_idx];
                            let removable_width = zs.width();
                            if removable_width >= min_removable_width {
                                let char_infos = str_char_infos(zs);
                                zones.push(Zone {
                                    compound_idx,
                                    byte_start_idx,
                                    char_infos,
                                    removable_width,
                                });
                            }
                        }
''', '''                        zones.extend(Zone::of(compound_idx, s, byte_start_idx, byte_idx, min_removable_width));
'''), (F, '''    fn biggest_token(''', '''    fn of(compound_idx: usize, s: &str, start: usize, end: usize, min_removable_width: usize) -> Option<Zone> {
        if end - start < min_removable_width + 2 {
            return None;
        }
        let zs = &s[start..end];
        let removable_width = zs.width();
        if removable_width < min_removable_width {
            return None;
        }
        Some(Zone {
            compound_idx,
            byte_start_idx: start,
            char_infos: str_char_infos(zs),
            removable_width,
        })
    }
    fn biggest_token('''))
v("f_extend", (C, '''        if let Some(ref mut spacing) = self.spacing {
            if spacing.width < width {
                spacing.width = width;
            }
            spacing.align = align;
        } else if self.visible_length < width {
            self.spacing = Some(Spacing { width, align });
        }
''', '''        match &mut self.spacing {
            Some(spacing) => {
                spacing.align = align;
                spacing.width = spacing.width.max(width);
            }
            None if self.visible_length < width => {
                self.spacing = Some(Spacing { width, align });
            }
            None => {}
        }
'''))
v("f_align", (F, '''        let internal_ellision = align == Alignment::Unspecified;
        Self {
            mid_token_ellision: internal_ellision,
            mid_compound_ellision: internal_ellision,
            align,
        }
''', '''        match align {
            Alignment::Unspecified => Self::default(),
            _ => Self {
                mid_token_ellision: false,
                mid_compound_ellision: false,
                align,
            },
        }
'''))
