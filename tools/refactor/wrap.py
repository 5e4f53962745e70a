W = "src/fit/wrap.rs"
IDS = ["W01", "W02"]
LOOP = '''    let mut tokens = tokenize(&src_composite.compounds, width.saturating_sub(first_width));
    // Strategy 2:
    // we try to cut along tokens, using spaces to break
    let mut line_done = false; // set when a blank didn't fit, what follows must go on a new line
    for token in tokens.drain(..) {
        // TODO: does that really take first_width into account ?
        if line_done || dst_composite.visible_length + token.width > width {
            if token.blank {
                // we skip blank composite at line change
                line_done = true;
            } else {
                line_done = false;
                let mut repl_composite = follow_up_composite(&dst_composite, skin);
                std::mem::swap(&mut dst_composite, &mut repl_composite);
                composites.push(repl_composite);
                dst_composite.add_compound(token.to_compound());
            }
        } else {
            dst_composite.add_compound(token.to_compound());
        }
    }
    composites.push(dst_composite);
    Ok(composites)
'''
V = {
    "into_iter": (IDS, [(W, "    let mut tokens = tokenize", "    let tokens = tokenize"), (W, "for token in tokens.drain(..) {", "for token in tokens {")]),
    "replace": (IDS, [(W, '''                let mut repl_composite = follow_up_composite(&dst_composite, skin);
                std::mem::swap(&mut dst_composite, &mut repl_composite);
                composites.push(repl_composite);
''', '''                let next = follow_up_composite(&dst_composite, skin);
                composites.push(std::mem::replace(&mut dst_composite, next));
''')]),
    "whilelet": (IDS, [(W, "    for token in tokens.drain(..) {", "    let mut it = tokens.drain(..);\n    while let Some(token) = it.next() {")]),
    "continue": (IDS, [(W, '''        if line_done || dst_composite.visible_length + token.width > width {
            if token.blank {
                // we skip blank composite at line change
                line_done = true;
            } else {
                line_done = false;
                let mut repl_composite = follow_up_composite(&dst_composite, skin);
                std::mem::swap(&mut dst_composite, &mut repl_composite);
                composites.push(repl_composite);
                dst_composite.add_compound(token.to_compound());
            }
        } else {
            dst_composite.add_compound(token.to_compound());
        }
''', '''        let fits = !line_done && dst_composite.visible_length + token.width <= width;
        if !fits && token.blank {
            line_done = true;
            continue;
        }
        if !fits {
            line_done = false;
            let mut repl_composite = follow_up_composite(&dst_composite, skin);
            std::mem::swap(&mut dst_composite, &mut repl_composite);
            composites.push(repl_composite);
        }
        dst_composite.add_compound(token.to_compound());
''')]),
    "helper": (IDS, [(W, '''                let mut repl_composite = follow_up_composite(&dst_composite, skin);
                std::mem::swap(&mut dst_composite, &mut repl_composite);
                composites.push(repl_composite);
''', '''                new_line(&mut composites, &mut dst_composite, skin);
'''), (W, "/// return the inherent widths related", '''fn new_line<'s>(composites: &mut Vec<FmtComposite<'s>>, dst: &mut FmtComposite<'s>, skin: &MadSkin) {
    let next = follow_up_composite(dst, skin);
    let done = std::mem::replace(dst, next);
    composites.push(done);
}

/// return the inherent widths related''')]),
    "index": (IDS, [(W, "    let mut tokens = tokenize", "    let tokens = tokenize"), (W, "for token in tokens.drain(..) {", "for i in 0..tokens.len() {\n        let token = &tokens[i];")]),
    "iter": (IDS, [(W, "    let mut tokens = tokenize", "    let tokens = tokenize"), (W, "for token in tokens.drain(..) {", "for token in tokens.iter() {")]),
    "clean": (IDS, [(W, '''    let compounds = &src_composite.compounds;
    if (
        // clean cut of 2
        compounds.len() == 2
            && compounds[0].src.width() + first_width <= width
            && compounds[1].src.width() + other_widths <= width
    ) || (
        // clean cut of 3
        compounds.len() == 3
            && compounds[0].src.width() + first_width <= width
            && compounds[2].src.width() + other_widths <= width
            && compounds[1].src.chars().all(char::is_whitespace)
    ) {
''', '''    let compounds = &src_composite.compounds;
    let clean_cut = match compounds.as_slice() {
        [a, b] => a.src.width() + first_width <= width && b.src.width() + other_widths <= width,
        [a, s, b] => {
            a.src.width() + first_width <= width
                && b.src.width() + other_widths <= width
                && s.src.trim().is_empty()
        }
        _ => false,
    };
    if clean_cut {
''')]),
    "clean2": (IDS, [(W, '''    if (
        // clean cut of 2
        compounds.len() == 2
            && compounds[0].src.width() + first_width <= width
            && compounds[1].src.width() + other_widths <= width
    ) || (
        // clean cut of 3
        compounds.len() == 3
            && compounds[0].src.width() + first_width <= width
            && compounds[2].src.width() + other_widths <= width
            && compounds[1].src.chars().all(char::is_whitespace)
    ) {
''', '''    let n = compounds.len();
    let ends_fit = (n == 2 || n == 3)
        && compounds[0].src.width() + first_width <= width
        && compounds[n - 1].src.width() + other_widths <= width;
    if ends_fit && (n == 2 || !compounds[1].src.chars().any(|c| !c.is_whitespace())) {
''')]),
    "last": (IDS, [(W, "        new_dst_composite.add_compound(compounds[compounds.len() - 1].clone());", "        if let Some(last) = compounds.last() {\n            new_dst_composite.add_compound(last.clone());\n        }")]),
    "guard": (IDS, [(W, "    if width < 3 {\n        return Err(InsufficientWidthError {\n            available_width: width,\n        });\n    }\n    debug_assert!(src_comp", "    if width <= 2 {\n        let available_width = width;\n        return Err(InsufficientWidthError { available_width });\n    }\n    debug_assert!(src_comp")]),
    "lenvar": (IDS, [(W, '''        if line_done || dst_composite.visible_length + token.width > width {''', '''        let available = width.saturating_sub(dst_composite.visible_length);
        if line_done || token.width > available {''')]),
    "ifelse": (IDS, [(W, '''    let kind = match fc.kind {
        CompositeKind::ListItem(l) => CompositeKind::ListItemFollowUp(l),
        k => k,
    };
''', '''    let kind = if let CompositeKind::ListItem(l) = fc.kind {
        CompositeKind::ListItemFollowUp(l)
    } else {
        fc.kind
    };
''')]),
}
