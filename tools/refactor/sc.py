LB="src/lib.rs"; MA="src/macros.rs"; AS="src/ask.rs"
VARIANTS={
 "m_applyswap": [(MA,"        for (arg_idx, val) in vals.iter().enumerate() {\n            TEMPLATE.apply(&mut composite, arg_idx, val);\n        }\n        $skin.print_composite(composite)","        for (arg_idx, val) in vals.iter().rev().enumerate() {\n            TEMPLATE.apply(&mut composite, arg_idx, val);\n        }\n        $skin.print_composite(composite)")],
 "m_skip": [(MA,"vals.iter().enumerate() {\n            TEMPLATE.apply(&mut composite, arg_idx, val);\n        }\n        $skin.write","vals.iter().enumerate().skip(1) {\n            TEMPLATE.apply(&mut composite, arg_idx, val);\n        }\n        $skin.write")],
 "m_twice": [(MA,"        $skin.print_composite(composite)","        $skin.print_composite(composite.clone());\n        $skin.print_composite(composite)")],
 "m_askdef": [(AS,"default_answer: Some($default_answer.to_string()),","default_answer: Some($default_answer.to_string()).filter(|_| false),")],
 "m_askexo": [(AS,"if question.has_exotic_default() {","if question.has_exotic_default() && false {")],
 "m_rev": [(AS,"        let mut answers = question.answers.drain(..);\n        match key {\n            $(\n                _ if answers.next().unwrap().key == key => { $r }\n            )*\n            _ => { unreachable!(); }","        let mut answers = question.answers.drain(..).rev();\n        match key {\n            $(\n                _ if answers.next().unwrap().key == key => { $r }\n            )*\n            _ => { unreachable!(); }")],
 "m_def": [(LB,"Lazy::new(MadSkin::default)","Lazy::new(MadSkin::default_dark)")],
 "m_txt": [(LB,"get_default_skin().text(src, None)","get_default_skin().term_text(src)")],
 "m_pi": [(LB,"get_default_skin().print_inline(src);","get_default_skin().print_text(src);")],
 "n_def": [(LB,"Lazy::new(MadSkin::default)","Lazy::new(|| MadSkin::default())")],
 "n_loop": [(MA,"        let mut composite = TEMPLATE.raw_composite();\n        for (arg_idx, val) in vals.iter().enumerate() {\n            TEMPLATE.apply(&mut composite, arg_idx, val);\n        }\n        $skin.print_composite(composite)","        let mut composite = TEMPLATE.raw_composite();\n        let mut arg_idx = 0;\n        while arg_idx < vals.len() {\n            TEMPLATE.apply(&mut composite, arg_idx, &vals[arg_idx]);\n            arg_idx += 1;\n        }\n        $skin.print_composite(composite)")],
 "n_ask": [(AS,"        let key = question.ask($skin).unwrap();\n        let mut answers = question.answers.drain(..);\n        match key {\n            $(\n                _ if answers.next().unwrap().key == key => { $r }\n            )*\n            _ => { unreachable!(); }","        let key = question.ask($skin).unwrap();\n        let mut answers = question.answers.iter();\n        match key {\n            $(\n                _ if key == answers.next().unwrap().key => { $r }\n            )*\n            _ => { unreachable!(); }")],
 "n_txt": [(LB,"get_default_skin().text(src, None)","{\n    let skin = get_default_skin();\n    skin.text(src, None) }")],
}

V={k:(["K04"],e) for k,e in VARIANTS.items()}
