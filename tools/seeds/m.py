LB = "src/lib.rs"
MA = "src/macros.rs"
AS = "src/ask.rs"
W = '''        for (arg_idx, val) in vals.iter().enumerate() {
            TEMPLATE.apply(&mut composite, arg_idx, val);
        }
        $skin.%s'''


def m(n, edits, main, needs, breaks):
    return dict(id="K04-" + n, property="K04", edits=edits, demo="#![allow(unused)]\nuse termimad::*;\nfn main() {" + main + "}\n", needs=needs, breaks=breaks)


SEEDS = [
m("a", [(MA, W % "write_composite", (W % "write_composite").replace("vals.iter().enumerate()", "vals.iter().enumerate().take(9)"))], '''
    let skin = MadSkin::no_style();
    let mut w = Vec::new();
    mad_write_inline!(&mut w, &skin, "$0$1$2$3$4$5$6$7$8$9", 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j').unwrap();
    let s = String::from_utf8(w).unwrap();
    assert!(s.contains('i') && s.contains('j'), "{s}");
''', "a template of 10 arguments", "the tenth argument isn't written"),
m("b", [(LB, "get_default_skin().text(src, None)", "get_default_skin().text(src, Some(u16::MAX as usize))")], '''
    let s = "a b ".repeat(20_000);
    assert_eq!(text(&s).lines.len(), 1);
''', "a line of more than 65535 chars", "it's wrapped"),
m("c", [(AS, '''            $(
                _ if answers.next().unwrap().key == key => { $r }
            )*
            _ => { unreachable!(); }''', '''            $(
                _ if answers.next().unwrap().key.eq_ignore_ascii_case(&key) => { $r }
            )*
            _ => { unreachable!(); }''')], '''
    use std::io::Write;
    if std::env::args().count() > 1 {
        let skin = MadSkin::no_style();
        let r = ask!(&skin, "remove ?", {
            ('a', "this one") => { 10 }
            ('A', "all") => { 11 }
        });
        std::process::exit(r);
    }
    let mut p = std::process::Command::new(std::env::current_exe().unwrap()).arg("x")
        .stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::null()).spawn().unwrap();
    p.stdin.take().unwrap().write_all(b"A\\n").unwrap();
    assert_eq!(p.wait().unwrap().code(), Some(11));
''', "two answers whose keys differ by their case", "the block of the other answer is run"),
m("d", [(MA, W % "print_composite", (W % "print_composite").replace("TEMPLATE.apply(&mut composite, arg_idx, val);", "TEMPLATE.apply(&mut composite, arg_idx, val.trim_end());"))], '''
    if std::env::args().count() > 1 {
        let skin = MadSkin::no_style();
        mad_print_inline!(&skin, "$0|", "a  ");
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    let s = String::from_utf8(o.stdout).unwrap();
    assert!(s.contains("a  "), "{s:?}");
''', "an argument ending with spaces", "they're not printed"),
]
