//! Expansions of the crate's exported macros, compiled so that their MIR can be analysed.
use termimad::*;

pub fn w_print(skin: &MadSkin, a: &str, b: u32) {
    mad_print_inline!(skin, "**$0 formula:** *$1*", a, b)
}

pub fn w_write<W: std::io::Write>(w: &mut W, skin: &MadSkin, a: &str, b: u32) -> Result<(), Error> {
    mad_write_inline!(w, skin, "**$0 formula:** *$1*", a, b)
}

pub fn w_ask_default(skin: &MadSkin) -> u32 {
    ask!(skin, "question ?", ('b') {
        ('a', "first") => { 101 }
        ('b', "second") => { 102 }
        ('c', "third") => { 103 }
    })
}

pub fn w_ask(skin: &MadSkin) -> u32 {
    ask!(skin, "question ?", {
        ('a', "first") => { 201 }
        ('b', "second") => { 202 }
        ('c', "third") => { 203 }
    })
}

pub fn w_print_none(skin: &MadSkin) {
    mad_print_inline!(skin, "**no** argument")
}

#[allow(clippy::too_many_arguments)]
pub fn w_print_all(skin: &MadSkin, a: &str, b: u32, c: &str, d: &str, e: &str, f: &str, g: &str, h: &str, i: &str, j: &str) {
    mad_print_inline!(skin, "$0 $1 **$2** *$3* $4 `$5` $6 $7 $8 $9", a, b, c, d, e, f, g, h, i, j)
}

#[allow(clippy::too_many_arguments)]
pub fn w_write_all<W: std::io::Write>(
    w: &mut W, skin: &MadSkin, a: &str, b: u32, c: &str, d: &str, e: &str, f: &str, g: &str, h: &str, i: &str, j: &str,
) -> Result<(), Error> {
    mad_write_inline!(w, skin, "$0 $1 **$2** *$3* $4 `$5` $6 $7 $8 $9", a, b, c, d, e, f, g, h, i, j)
}
