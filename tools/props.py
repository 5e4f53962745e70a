"""The properties: single source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""
PROPS = []


def P(id, title, statement, over, quant, tests, files, mech, how=None, note=None, na=None, technique=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files,
                      mech=mech, how=how, note=note, na=na, technique=technique))


TB = "Trusts rustc's MIR (the checked build configuration), the dumper and the models of std/crossterm/minimad calls. "
CG = "who-may-call analysis over the resolved MIR call graph"
PS = "path-sensitive abstract interpretation of MIR"

P("E01", "Output only goes to the destination given",
  "Every function given a writer or a formatter sends all its output there, and functions that only compute or format "
  "never write to the process's standard output or error. Only the operations documented as displaying or printing write "
  "to stdout, and nothing ever writes to stderr.",
  ["inputs", "programs"], "every public entry point, every argument, every call path including macro expansions",
  "Tests look at returned values; none observes the process's stdout while a writer is used, on any path.",
  ["src/skin.rs", "src/macros.rs", "src/views/text_view.rs", "src/views/list_view.rs", "src/views/input_field.rs",
   "src/compound_style.rs", "src/fit/crop_writer.rs"],
  [("destination passed down as W: Write or Formatter", "src/skin.rs"), ("mad_write_inline!", "src/macros.rs")],
  "All externally reachable functions and trait impls except the documented printers (a table of 17 named functions) are "
  "roots of a reachability query over the resolved call graph (generic calls resolved to every crate impl, closures, fn "
  "values); std's stdout/stderr/_print/_eprint are the sinks. The expansion of mad_write_inline! is compiled in a witness "
  "crate and queried the same way.",
  TB + "The table of documented printers is frozen; over-approximate call graph, so a quiet run is a proof for the crate's "
  "own code.", technique=CG)
P("E02", "Explicit-width rendering depends on its arguments only",
  "What a formatting, wrapping, parsing or styling operation returns or writes is determined by its arguments alone: it "
  "never consults the current terminal, environment, clock, files, threads, randomness or mutable global state. Only the "
  "operations documented to use the current terminal, and the event source and ticker, do so.",
  ["inputs", "configurations"], "every public entry point in every environment",
  "Tests run in one environment; a dependence on the terminal or on global state shows only elsewhere.",
  ["src/area.rs", "src/skin.rs", "src/text.rs", "src/line_style.rs", "src/fit/wrap.rs", "src/tbl.rs"],
  [("width is an argument", "src/text.rs"), ("terminal_size only in the term_* and print_* functions", "src/area.rs")],
  "Reachability query as E01 with the sinks terminal size, cursor position, env, fs, time, thread, stdin, atomics, locks "
  "and cells; plus every static of the crate must have no interior mutability.",
  TB + "External crates are trusted not to read the environment behind the calls that the sink table doesn't name.",
  technique=CG)
P("E03", "Direct display functions flush before succeeding",
  "When an operation that displays directly on the standard output reports success, everything it displayed has been "
  "flushed.",
  ["inputs", "histories"], "every displaying function, every path to a success return",
  "Tests don't observe buffering: at exit the buffer gets flushed anyway.",
  ["src/skin.rs", "src/views/text_view.rs", "src/views/list_view.rs", "src/views/mad_view.rs", "src/views/input_field.rs"],
  [("flush after the write_on/display_on call", "src/views/text_view.rs")],
  "Typestate over each externally reachable Result-returning function that opens stdout: every call given the output marks "
  "it dirty, a successful flush cleans it; no path may return Ok dirty. Helpers containing a flush are followed in context.",
  TB + "A call given the output is assumed to write.", technique="path-sensitive must-flush (typestate) analysis over MIR")
P("E04", "Write errors are never swallowed",
  "If writing to the destination, or a fallible step of a formatting, serialization or display operation, fails, the "
  "operation reports the error: it never returns success, a default value, or panics instead. No operation uses a "
  "write which may be partial.",
  ["fault_sequences", "inputs"], "every failing call position in every writing, formatting or (de)serializing function",
  "No test uses a failing writer; the failing call position is a quantifier tests don't sample.",
  ["src/skin.rs", "src/spacing.rs", "src/compound_style.rs", "src/styled_char.rs", "src/fit/filling.rs",
   "src/fit/crop_writer.rs", "src/views/list_view.rs", "src/views/text_view.rs", "src/serde"],
  [("? on every queue/write", "src/compound_style.rs")],
  "Each call producing an io/fmt/serde/crate error in each of the crate's functions is forked into success and failure; "
  "an abstract interpretation of the function must return Err on every path on which one failed (83 functions, 232 "
  "sites). Modular: callees are assumed to obey the same rule, which is checked on them.",
  TB + "Event source functions, which deliberately stop their thread on read errors, and terminal size with its "
  "documented fallback, are out of scope.", technique="path-sensitive must-propagate dataflow over MIR")
SE = "symbolic effect analysis (abstract interpretation of MIR, exact post-state of each field)"
SEN = TB + "Decides every input of the functions analysed: arguments are symbolic and every path is followed. "
P("S01", "Skin-wide color setters reach exactly the documented elements",
  "set_fg, set_bg, set_headers_fg, set_headers_bg, set_global_bg and ScrollBarStyle::set_bg give the color to every element "
  "they are documented to change (all header levels, bullet, marks, special chars and the chars written for them included) "
  "and leave every other style, color, attribute, char and margin of the skin as it was.",
  ["inputs"], "every skin, every color",
  "A skin has some 150 style fields; no test looks at more than a few of them after a setter.",
  ["src/skin.rs", "src/scrollbar_style.rs", "src/styled_char.rs"], [("set_fg/set_bg delegating per element", "src/skin.rs")],
  "The setter is run on a symbolic skin (headers array unrolled, one generic entry of the special chars map); the final "
  "value of each leaf field is compared with the given color for the frozen list of elements and with the initial value "
  "elsewhere (815 obligations).", SEN, technique=SE)
P("S02", "A styled char is always written with its own char and style",
  "After any sequence of constructions and mutations of a styled char (bullet, quote mark, rule, scrollbar parts…), what is "
  "written for it is its current char with its current colors and attributes.",
  ["inputs", "histories"], "every constructor and mutator, any sequence of them (inductive invariant)",
  "The written form is a redundant cached copy: it takes a forgotten refresh in one mutator, seen only when writing.",
  ["src/styled_char.rs"], [("styled_char cached content", "src/styled_char.rs")],
  "Every function returning or mutating a StyledChar must, on every exit and assuming nothing for constructors, leave the "
  "cached content equal to the style applied to the char; setters change nothing else.", SEN, technique=SE)
P("S03", "Style setters and composition change exactly what they name",
  "Constructors, setters and conversions of compound and line styles set exactly the colors, attributes, alignment and "
  "margins they name, and overwriting a style takes the other's colors when defined, adds its attributes, and keeps the rest.",
  ["inputs"], "every style, color and attribute",
  "Styles are checked in tests only through a few literal skins.",
  ["src/compound_style.rs", "src/line_style.rs"], [("overwrite_with", "src/compound_style.rs")],
  "Each function is run on symbolic arguments and each leaf field of the result compared with its specification; attributes "
  "are compared as sets.", SEN + "The underline color, which termimad never handles, is left out.", technique=SE)
P("S04", "Each compound gets the documented composition of styles",
  "A compound is written with its line's base style overwritten by, in this order, the italic, strikeout, bold and inline "
  "code styles it calls for; an ellipsis with the ellipsis style alone. Code lines take the code block style, headers of "
  "level n the style of that level (paragraph beyond the deepest), all others the paragraph style.",
  ["inputs"], "every skin, line kind and combination of flags",
  "There are 16 combinations of flags times defined or undefined colors; tests use at most one flag at a time.",
  ["src/skin.rs", "src/compound_style.rs"], [("compound_style / line_style", "src/skin.rs")],
  "compound_style is run symbolically, overwrite_with taken by its specification (S03): for each of the 32 cases the layers of "
  "each color and the attribute set are compared. line_style: the field referenced is compared for each kind, the header "
  "index proven to be level-1.", SEN + "Header level 0, which can't come from Markdown, is left out.", technique=SE)
P("S05", "Blending fades every text style, color by color",
  "Blending a skin, a line style, a compound style or a styled char with a color blends each defined color of each text style "
  "with weight w for the destination and 1-w for itself, never defines an undefined color or changes an attribute, and with "
  "a weight of 0 leaves everything unchanged.",
  ["inputs"], "every style, destination and weight",
  "No test blends anything.",
  ["src/skin.rs", "src/compound_style.rs", "src/line_style.rs", "src/styled_char.rs"],
  [("blend_with", "src/compound_style.rs")],
  "CompoundStyle::blend_with is run symbolically and its result terms inspected; then, taken by this specification, the "
  "others must apply it exactly once to every required style with their own destination and weight.",
  SEN + "The blending formula itself is coolor's. The scrollbar and the special chars may follow or not.", technique=SE)
P("S06", "Bundled border sets join, and limit_to_ascii leaves only ASCII",
  "In each bundled table border set every glyph is one column wide and has arms in exactly the directions it joins; key and "
  "by_key are inverse of each other. After limit_to_ascii, the borders, bullet, quote mark and rule of any skin are ASCII, with "
  "their styles and everything else unchanged.",
  ["inputs", "configurations"], "every glyph of every set; every skin",
  "Tests compare a few tables in the standard set.",
  ["src/table_border_chars.rs", "src/skin.rs"], [("border statics", "src/table_border_chars.rs")],
  "The statics' constants are read in MIR and compared with the arms given by the Unicode names; key/by_key are run "
  "symbolically into two tables; limit_to_ascii as S01.", SEN,
  technique="constant table analysis and symbolic effect analysis of MIR")
P("S07", "The no-style skin styles no text",
  "In MadSkin::no_style, no text element (paragraph, headers, code, table, bullet, marks, rule, ellipsis) has any color or "
  "attribute, neither in its style nor in the char cached for writing.",
  ["inputs", "configurations"], "every element of the skin",
  "Tests use the no-style skin for convenience; they'd see a style only on the elements they render.",
  ["src/skin.rs"], [("no_style", "src/skin.rs")],
  "no_style is run symbolically and each color and attribute field of the result must be empty.",
  SEN + "The scrollbar, which is not text and keeps its grays, is left out.", technique=SE)

RE = "abstract interpretation of MIR with the writer replaced by a symbolic output buffer"
P("R01", "A composite is written as its completions, marks and compounds, exactly",
  "Writing a formatted composite produces, in order: the left margin and outer left completion in the paragraph style, the inner "
  "left completion in the line's style, the mark of its kind (list item: `level` spaces, the bullet and a space; follow-up in "
  "Block mode: level+2 spaces; quote: the quote mark and a space), each compound once in order with its composed style (or its "
  "special replacement), the inner right completion, and, only if asked for, the right outer completion and margin.",
  ["inputs", "configurations"], "every skin, kind, level, alignment, width, margins and spacing; composites of 0 to 2 compounds (3 in the thorough tier, without the special-chars feature)",
  "Tests compare a few complete outputs without colors: not the style of blanks, margins, spacings or deep levels.",
  ["src/skin.rs", "src/composite.rs"], [("write_fmt_composite", "src/skin.rs")],
  "write_fmt_composite is run by the abstract interpreter with the formatter replaced by a buffer of (unit, style, symbolic "
  "count) runs, loops over levels summarised by invariants; every success path is compared with the specified sequence by "
  "linear entailment of the counts. Both with and without the special-renders feature.",
  SEN + "Completions, margins and composed styles are taken by the rules R04 and S04. Compounds loops are unrolled.", technique=RE)
P("R02", "Table rows, table rules and horizontal rules are written exactly",
  "A table row is written as the table's left completion, a vertical border before each cell and after the last one, each cell "
  "once, and the right completion only if asked for. A table rule has the corners, junctions and horizontals of its position, "
  "each column as wide as specified. A horizontal rule is its char repeated over the width. All in the style of their element.",
  ["inputs"], "every skin, position, column widths, alignment and available width; 0 to 3 columns (4 in thorough)",
  "Tests compare a few standard tables without any style.",
  ["src/skin.rs", "src/tbl.rs"], [("write_fmt_line", "src/skin.rs")],
  "write_fmt_line is run as in R01 for each kind of line; the total width used for the completion is compared with the sum of "
  "what's written.", SEN + "Cell loops are unrolled.", technique=RE)
P("R03", "A text is written line by line, each line once",
  "Displaying a text writes each of its lines once, in order, at the width of the text and without right completion, each "
  "followed by one newline. Displaying a single line completes it on the right; an inline is its composite without width.",
  ["inputs"], "every text of 0 to 4 lines (6 in thorough), every width",
  "Tests print a few texts; an empty text or the absence of width would go unseen.",
  ["src/text.rs", "src/displayable_line.rs", "src/inline.rs"], [("Display for FmtText", "src/text.rs")],
  "The Display implementations are run as in R01, lines taken as units.", SEN + "The loop over lines is unrolled.", technique=RE)
P("R04", "Completions fill exactly the missing width, margins never eat the text",
  "For every alignment, inner and outer width, the left and right completions are non negative, add up to max(0, outer-inner), and "
  "are on the side opposite to the alignment (centered: equal up to one, the right one being the larger). Margins are either "
  "those of the style or, when less than 3 columns would be left between them, none. extend_width leaves a composite at least "
  "as wide as asked, with the alignment given, its visible length unchanged.",
  ["inputs"], "every alignment and pair of widths",
  "Tests look at a few widths; the boundaries (equal widths, odd remainders, width just too small) matter.",
  ["src/spacing.rs", "src/line_style.rs", "src/composite.rs"], [("completions / margins_in / extend_width", "src/spacing.rs")],
  "The functions are run symbolically and the (in)equalities proven on each path by linear entailment.",
  SEN + "Widths are assumed not to overflow usize.", technique=SE)
P("R05", "Computed widths agree with what is written",
  "The visible length computed for a composite is the width of the mark written for its kind plus the widths of its compounds; "
  "the widths assumed by the wrapper for first and following lines and the initial length of a follow-up composite are those "
  "of the marks written; creating a composite, adding a compound or recomputing keeps the cached visible length equal to that.",
  ["inputs", "histories"], "every kind, level, indentation mode; 0 to 3 compounds",
  "Four functions compute the same thing separately; a change in one is seen only by a text whose width is just at the limit.",
  ["src/skin.rs", "src/fit/wrap.rs", "src/composite.rs"], [("visible_composite_length", "src/skin.rs"), ("composite_kind_widths", "src/fit/wrap.rs")],
  "The functions are run symbolically and compared, for each kind and mode, with the width of the prefix specified in R01.",
  SEN + "Marks are taken as one column wide. The composite fitter is left out (it recomputes).", technique=SE)
P("R06", "Repeating and padding functions write exactly what they're asked",
  "The repeat, queue and display functions of compound styles, line styles and styled chars write exactly their char, string or "
  "value, in their style, exactly `count` times; write_counted_str writes the string completed to its width on the side opposite "
  "to the alignment or, if the string is not shorter than the width, a prefix of at most `width` chars.",
  ["inputs"], "every count, char, string and style",
  "Tests don't cover these functions directly.",
  ["src/compound_style.rs", "src/line_style.rs", "src/styled_char.rs", "src/spacing.rs"], [("repeat_*", "src/compound_style.rs")],
  "Each function is run as in R01; string building loops are summarised by invariants on the repetition count.",
  SEN, technique=RE)

IN = "abstract interpretation of MIR with inductive loop invariants over specification variables"
P("C01", "Fitting a string keeps its longest prefix, of the width announced",
  "StrFit::count_fitting, make_string and make_cow keep the longest prefix of the string whose columns (chars by their "
  "unicode width, tab as its 2-spaces replacement, backspace -1, unknown 0) never exceed the limit: it ends at the end of the "
  "string or just before a char which would overflow; the columns announced are those of what is returned, and no tab is left in it.",
  ["inputs"], "every string and every limit",
  "Tests check a dozen strings; tabs, backspaces, controls and wide chars at the limit combine endlessly.",
  ["src/fit/str_fit.rs"], [("StrFit::from", "src/fit/str_fit.rs")],
  "The loop over the chars is analysed with specification variables (bytes, columns, tabs of the chars read so far); "
  "invariants relating them to the program's variables are inferred; each return path is compared with the specification.",
  SEN + "Columns are assumed to be below 2^31.", technique=IN)
P("C02", "The crop writer never writes beyond its width and accounts for all it writes",
  "Each writing method of CropWriter writes at most the columns still allowed, decreases `allowed` by exactly what it wrote, and "
  "writes nothing once full: strings are cut to their longest fitting prefix (tabs replaced), g_strings to at most `allowed` "
  "chars, chars are written whole or not at all, repetitions and fillings have min(count, allowed) chars; all in the style given "
  "(none for the unstyled methods).",
  ["inputs", "histories"], "every sequence of calls, by induction on `allowed`; every string, style and count",
  "Tests don't cover the crop writer at all; its total matters over a sequence of writes.",
  ["src/fit/crop_writer.rs"], [("queue_*, repeat, fill", "src/fit/crop_writer.rs")],
  "Each method is run on a symbolic writer whose destination is a buffer of (unit, style, count) runs; the columns written "
  "and the decrease of `allowed` are compared by linear entailment on each success path (11 methods, 55 paths).",
  SEN + "C03 is used for fillings. A single char exactly as wide as what's left may be refused.", technique=SE)
P("C03", "A filling writes exactly the number of chars asked, in its style",
  "A Filling built from any char writes, for any `len`, exactly `len` times this char, in the style given for queue_styled and "
  "without style for queue_unstyled, and never slices its buffer out of bounds.",
  ["inputs"], "every char (of 1 to 4 bytes) and every length",
  "Buffers are 1000 chars long: no test writes more, nor uses chars of several bytes.",
  ["src/fit/filling.rs"], [("queue_styled / queue_unstyled", "src/fit/filling.rs")],
  "from_char is analysed with a loop invariant on the repetition; on a filling of this form the writing loops must keep "
  "`written + remaining = len`.", SEN, technique=IN)
P("C04", "Tokens partition the text in order, words and blanks apart",
  "Tokenizing a composite for wrapping gives tokens which are consecutive non empty pieces of each compound, in order, covering "
  "every char once; each is either only whitespace (blank, never in code) or without any; its width is the one of its text "
  "and at most the limit, unless it is a single char; a token ends only at the end of its "
  "compound, where the kind of char changes, or where the next char wouldn't fit the limit.",
  ["inputs"], "every list of compounds and every width limit",
  "Tests wrap a few texts with one-byte one-column chars.",
  ["src/tokens.rs"], [("tokenize", "src/tokens.rs")],
  "The nested loops are analysed with specification variables (current compound, start, end and kind of the token under "
  "construction); inductive invariants are inferred from suggested relations; each push is checked.",
  SEN + "Widths of strings are unicode-width's, uninterpreted.", technique=IN)
P("W01", "Wrapped lines never exceed the width",
  "Every line given by hard_wrap_composite has a visible length of at most the width (when the mark of its kind leaves room), "
  "except a line holding only one char wider than what's left beside the mark, or only the mark; this visible length is the "
  "width of its mark and texts; an error is returned if and only if the width is less than 3.",
  ["inputs", "configurations"], "every composite, kind, level, indentation mode and width",
  "Tests wrap a few one-column texts; marks, wide chars and two or three compounds just at the limit take other paths.",
  ["src/fit/wrap.rs"], [("hard_wrap_composite", "src/fit/wrap.rs")],
  "The wrapping loop is analysed for each kind and mode over a symbolic list of tokens obeying C04, with specification "
  "variables for the line under construction; visible length <= width is inferred as an inductive invariant.",
  SEN + "C04 is assumed for the tokens. No more than one mark wider than the width is considered (prefix <= width).", technique=IN)
P("W02", "Wrapping loses nothing but blanks at line ends, and joins no words",
  "The lines given by hard_wrap_composite hold every token of the composite once, in order, with its style; only blank ones are "
  "dropped, and only where the line changes, so that two words are never joined. Each line keeps the spacing and kind of the "
  "composite (a list item's following lines being follow-ups of the same level).",
  ["inputs", "configurations"], "every composite, kind, level, indentation mode and width",
  "Tests check the number of lines and their lengths, not what's lost between them.",
  ["src/fit/wrap.rs", "src/tokens.rs"], [("hard_wrap_composite", "src/fit/wrap.rs"), ("Token::to_compound", "src/tokens.rs")],
  "Same analysis as W01 with flags: token still to place, something dropped since the last placed one, line completed but not "
  "pushed; each addition and push is checked, and at the end no token or line may be left.",
  SEN + "C04 is assumed for the tokens.", technique=IN)
P("W03", "Only the lines which don't fit are wrapped, in place",
  "hard_wrap_lines keeps every line in order: lines which aren't composites (tables, rules) and composites fitting the width with "
  "their margins are given unchanged; the others are replaced, in place, by all their wrapped parts in order, wrapped to the "
  "width minus the margins of their style. It fails only when wrapping one of them fails.",
  ["inputs", "configurations"], "every list of lines, skin and width",
  "Tests wrap paragraphs and list items without margins.",
  ["src/fit/wrap.rs"], [("hard_wrap_lines", "src/fit/wrap.rs")],
  "Nested loops over a symbolic list of lines, with specification variables for the current line and its parts; "
  "hard_wrap_composite and margins_in are taken by their specification (W01, W02, R04).", SEN, technique=IN)
P("V01", "Scrolling is exact, stays in bounds and tells whether it moved",
  "Each scrolling operation of a text view or mad view moves the scroll by exactly what's asked (lines, pages of the height of the "
  "area, or an absolute position), limited to 0 and to the last line being at the bottom of the area; it returns true exactly when the "
  "scroll changed, and never panics, whatever the number. The keys up, down, page up and page down do their scroll, the others nothing.",
  ["inputs", "histories"], "every content length, area of at least one row, valid scroll and number",
  "Tests don't cover the views; limits meet only at some heights and numbers (including the extreme ones).",
  ["src/views/text_view.rs", "src/views/mad_view.rs"],
  [("TextView::{line_up,page_down,set_scroll,try_scroll_lines,try_scroll_pages}", "src/views/text_view.rs"),
   ("MadView::try_scroll_lines", "src/views/mad_view.rs")],
  "All paths of each method on a symbolic view: scroll, boolean and arithmetic compared with the specification by linear entailment; "
  "validity of the scroll being preserved, it holds for every history.",
  SEN + "The area has at least one row (as for a displayed view) and fits u16.", technique=SE)
P("V02", "The scrollbar's thumb shows where the view is",
  "A scrollbar is given exactly when the content is higher than the area. Its thumb is a non empty range of rows of the area; it "
  "starts at the first row exactly when not scrolled, ends at the last one when scrolled to the end. Area::scrollbar uses the "
  "area's own height and top; text views and input fields give it their scroll and number of lines, whatever their size.",
  ["inputs"], "every content height, height of at least one row, and valid scroll",
  "Tests check a few sizes of compute_scrollbar.",
  ["src/area.rs", "src/views/text_view.rs", "src/views/input_field.rs"], [("compute_scrollbar", "src/area.rs"), ("Area::scrollbar", "src/area.rs"),
   ("TextView::scrollbar", "src/views/text_view.rs"), ("InputField::display_on", "src/views/input_field.rs")],
  "All paths of compute_scrollbar with division axioms and products of known inequalities (degree 2).",
  SEN + "Scroll is valid: at most content - available. Heights and tops are such that sums fit u16.", technique=SE)
P("V03", "Rectangles and text views fill their area, and nothing else",
  "Drawing a rectangle or a text view writes only inside its area, and every cell of it (only the border of a rectangle which isn't "
  "filled). A rectangle has its corners and sides in its style. A text view shows on row i the line at scroll + i, with its text's "
  "skin and the width less the scrollbar's column, blanks past the last line only, and the thumb on the rows of the thumb.",
  ["inputs", "configurations"], "every area on the screen (of at least 2x2, 2x1), style, text and valid scroll",
  "Tests don't draw views.",
  ["src/rect.rs", "src/views/text_view.rs"], [("Rect::draw", "src/rect.rs"), ("TextView::write_on", "src/views/text_view.rs")],
  "The writer is replaced by a symbolic cursor; loops have inferred invariants over its position; every unit is checked in place.",
  SEN + "DisplayableLine is taken to write its width exactly (R04, R05); Area::scrollbar by V02.", technique=IN)
P("V04", "An input field fills its area, hides passwords, tells where its cursor is",
  "Displaying an input field writes every cell of its area and nothing outside, whatever the content, its char widths, the scrolls and "
  "the selection, and never a raw tab. In password mode no char of the content is ever written. The cursor is drawn only when the "
  "field is focused, and the position returned is where it was drawn (none if it wasn't).",
  ["inputs", "configurations"], "every content, scroll, selection, focus and area of at least 4 columns",
  "Tests check the content's edits, never the display.",
  ["src/views/input_field.rs"], [("InputField::display_on", "src/views/input_field.rs")],
  "As V03, the widths of chars being symbolic (0 to 2); seven cases analysed in parallel.",
  SEN + "The widths of chars are those of unicode-width (at most 2).", technique=IN)

P("V05", "Areas, positions and ranges are the places they tell",
  "An area contains exactly the cells from its left and top, for its width and height; its right and bottom are the first column and row after it; "
  "padding removes the columns and rows asked on each side, limiting its width to a maximum makes it this wide, as much being removed left and right (to one column), only when it's wider, and changes no row; the full screen is the whole terminal from "
  "its corner; its scrollbar is computed for its own rows. Positions in a text are ordered by line then column, and a range contains exactly the positions from its first to its last one, both included.",
  ["inputs"], "every area in the screen, cell, padding which fits, position and range",
  "No test looks at areas and positions; an off by one shows on one edge, or one line of a range, only.",
  ["src/area.rs", "src/views/pos.rs"],
  [("Area::{contains,pad,pad_for_max_width,full_screen,scrollbar}", "src/area.rs"), ("Range::contains", "src/views/pos.rs"), ("Pos", "src/views/pos.rs")],
  "All paths of each function on symbolic numbers: in each case of the specification (exclusive linear conditions covering everything), the other answer must be infeasible.",
  SEN + "Areas are in the screen (their edges fit u16) and pads aren't bigger than the area.", technique=SE)

P("L01", "A list counts the rows its filter displays, and only its filter changes them",
  "In a ListView, a row is displayed exactly when the filter (if any) keeps its data, and displayed_rows_count is the number of "
  "displayed rows: add_row, set_filter, remove_filter and clear_rows ensure it whatever the rows and filter; add_row keeps the list "
  "sorted with its comparator. No other method changes the rows, their number, the filter or the count; row_counts tells both numbers.",
  ["inputs", "histories"], "every sequence of rows, filter, comparator and method call",
  "No test uses a list view.",
  ["src/views/list_view.rs"], [("ListView::set_filter", "src/views/list_view.rs"), ("ListView::add_row", "src/views/list_view.rs")],
  "Inductive loop invariants on the number of rows accounted for, and of those displayed; frame of all the methods.",
  SEN + "The invariant is established by each method from any state; sort_by is taken to permute the rows.", technique=IN)
P("L02", "The selection of a list moves among the displayed rows and stays visible",
  "try_select_next selects the next displayed row in the direction given, cyclically; select_first_line and select_last_line the first "
  "and last displayed ones (none if there are none). The selected row is then in the visible part. Scrolling by lines or pages is exact "
  "within the rows, a list showing its bottom keeps showing it when a row is added, and drawing starts after as many displayed rows as "
  "the scroll. None of this panics.",
  ["inputs", "histories"], "every list, filter, selection of a displayed row, valid scroll and height of at least one row",
  "No test uses a list view.",
  ["src/views/list_view.rs"], [("ListView::try_select_next", "src/views/list_view.rs"), ("ListView::make_selection_visible", "src/views/list_view.rs")],
  "Inductive loop invariants on the rows searched, in the order of the search, and linear arithmetic on scroll, rank and height.",
  SEN + "The count of displayed rows is right (L01); the selected row is displayed (set_filter doesn't change the selection).", technique=IN)

P("L03", "A list is drawn row after row, the displayed ones only, with its scrollbar",
  "ListView::write_on draws on each line of its body the next displayed row after the one of the line above, starting with the first "
  "visible one, down to the last line of the area; a line is blank only when there are no more rows. When there's a scrollbar, each "
  "of these lines ends, in the last column of the area, with the thumb exactly on the thumb's rows and the track elsewhere; the "
  "scrollbar is the one of the displayed rows, the scroll and the area.",
  ["inputs", "configurations"], "every list, filter, scroll, selection and area of at least 3 lines on the screen",
  "No test draws a list view.",
  ["src/views/list_view.rs"], [("ListView::write_on", "src/views/list_view.rs"), ("ListView::scrollbar", "src/views/list_view.rs")],
  "The writer is replaced by the number of the line and of the row being drawn, followed through the loops by inferred invariants.",
  SEN + "At least a column. The contents and widths of the cells aren't looked at.", technique=IN)

P("L04", "The columns of a list fit its area, titles and cells being in their columns",
  "Updating the dimensions of a list gives each column a width between its minimum and its maximum: the minimum when the minimal widths don't fit the area (less the bars between columns and the column of the scrollbar); else "
  "the columns fit it, and no space is left unless they all have their maximum. A new list has no row, filter, order nor selection, isn't scrolled, and has one title per run of consecutive columns of same title; a new column is centered with its minimal width. "
  "Drawing a list writes, from the left of the area: on the first line each title centered over its columns, in the style of first level headers, with a vertical bar between; on the second one horizontal bars as wide as the columns, "
  "with a cross between titles and a tee between columns of a same title; and for each row drawn the cell extracted for each column, as wide and aligned as its column, in its own style, bars between. "
  "Cells and bars of the selected row, and only these ones, have the background of the selection.",
  ["inputs", "configurations"], "every bounds and area widths, titles, rows and selection; lists of 1 to 3 columns (4 in the thorough tier)",
  "No test makes a list view.",
  ["src/views/list_view.rs"], [("ListView::new", "src/views/list_view.rs"), ("ListView::update_dimensions", "src/views/list_view.rs"), ("ListView::write_on", "src/views/list_view.rs")],
  "The functions are interpreted for each number of columns and each way titles may be equal, widths and positions being symbolic: linear arithmetic decides the bounds and sums; the sequence of what's written is compared with the one wanted. No panic is possible there.",
  "At least a column, of minimum at most its maximum. More columns than analysed aren't shown; Spacing::write_str and write_counted_str by R06; which rows are drawn, and the scrollbar, by L03.", technique=IN)

P("I01", "The cursor and the selection of an input field are always in its text",
  "An InputFieldContent always has at least one line, its cursor is on one of its lines, between the start of the line and the "
  "position following its last char, and so is the other end of the selection if there's one. Every public method keeps this true "
  "for any arguments, and no public method called on such a content panics.",
  ["inputs", "histories"], "every content with a valid cursor and selection (hence, by induction, every history of calls), every method and arguments",
  "Tests call a few methods on a few short texts.",
  ["src/views/input_field_content.rs", "src/views/pos.rs"],
  [("InputFieldContent", "src/views/input_field_content.rs"), ("Pos", "src/views/pos.rs")],
  "The invariant is assumed before each public method and proved after it, vectors being exact sequences of pieces.",
  SEN + "Lines and texts are shorter than 2^60. Private methods are analysed where they're called.", technique=IN)

P("I02", "Cursor moves go where they say and leave the text as it is",
  "move_left and move_right go to the previous or next position, over the ends of lines; move_up, move_down and move_lines_* go by the "
  "number of lines asked for, limited by the text, to the char at the same column or to the end of the line; move_to_* go to the "
  "ends they name; the word moves stay in the line, on the side they name. set_cursor_pos and set_selection_tail go to the position "
  "they're given, or to the end of its line or of the text if there's no such position. None of them changes the text, and they return true exactly when "
  "they moved or could move (for vertical moves: when there's a line on that side).",
  ["inputs"], "every content with a valid cursor and selection, every argument",
  "Tests cover no vertical move, and no move over line ends.",
  ["src/views/input_field_content.rs"], [("InputFieldContent::move_*", "src/views/input_field_content.rs")],
  "Each end state of each method is compared with the position, the text, the selection and the result expected in each case.",
  SEN + "The columns of chars are an uninterpreted function of the line and of the position; where words end isn't looked at.")

P("I03", "Edits change the text exactly where the cursor is",
  "insert_char, insert_new_line and push_char insert the char (or break the line) at the cursor (or at the end), skipping carriage "
  "returns and backspaces; del_char_left and del_char_below remove the char before or after the cursor, joining lines at line ends (an "
  "empty line is removed); del_word_left and del_word_right remove a range of chars of the line, on that side of the cursor; "
  "swap_lines and move_current_line_* exchange two lines, the cursor following the moved line; clear removes everything. "
  "The rest of the text is unchanged, the cursor is where the change was, and the result tells whether something changed.",
  ["inputs"], "every content with a valid cursor and selection, every argument",
  "Tests edit a few one line texts.",
  ["src/views/input_field_content.rs"], [("InputFieldContent::insert_char", "src/views/input_field_content.rs"),
   ("InputFieldContent::del_char_left", "src/views/input_field_content.rs"), ("InputFieldContent::del_char_below", "src/views/input_field_content.rs")],
  "The lines and their chars are sequences of pieces of the initial ones, with symbolic lengths; the final sequence must be the expected one.",
  SEN + "How many chars a word deletion removes isn't looked at (at least one, none beyond the line).", technique=IN)

P("I04", "Deleting a selection removes exactly what is selected",
  "del_selection removes the chars from the first to the last position of the selection, both included, whichever end the cursor is on, "
  "joining what precedes to what follows when they're on different lines; when the selection goes from the start of a line to the end "
  "of a line, these lines are removed; a selection of one position is deleted as del_char_below does. The cursor ends up at the start of "
  "what was removed, nothing is selected any more, and the rest of the text is unchanged.",
  ["inputs"], "every content with a valid cursor and selection",
  "Tests only check that deleting a selection after other deletions doesn't panic.",
  ["src/views/input_field_content.rs", "src/views/pos.rs"], [("InputFieldContent::del_selection", "src/views/input_field_content.rs"), ("Pos", "src/views/pos.rs")],
  "As I03; the order of positions is the one the crate's own Ord implementation gives, which is interpreted.", SEN)

P("I05", "The cursor of a focused input field stays in view",
  "After any text change, cursor move, key, resize or gain of focus, whatever the previous scroll was, the cursor of a focused input "
  "field is in the lines and in the columns shown (and not under the left ellipsis); the field isn't scrolled after its last line, "
  "it isn't scrolled vertically when all its lines fit, nor horizontally when the line of the cursor fits.",
  ["fields"], "every content with a valid cursor, every area of at least a row and a column, every previous scroll",
  "Tests never look at the scroll.",
  ["src/views/input_field.rs"], [("InputField", "src/views/input_field.rs")],
  "The content's methods are replaced by what I01..I03 show of them (valid afterwards, unchanged when returning false); the scroll "
  "computed is compared with the position of the cursor, in lines and columns.",
  SEN + "Scrolling with the mouse or scroll_up/scroll_down, and clicks in a focused field (the cursor goes where the pointer is) are excluded. "
  "Widths are those of the chars, not of the stars of the password mode.", technique=IN)

P("I06", "An input field uses the events meant for it, as the keys say, and no other one",
  "Without focus, keys are ignored; events of the mouse out of the field, keys with other modifiers than shift and other events are "
  "ignored too: nothing changes and the result is false. With the focus, each key does what it says: backspace and delete remove the wide selection "
  "or else the char before or under the cursor; a char replaces the wide selection; moves extend the selection with shift and drop it without; "
  "other keys don't change the text and aren't used; new line keys insert a line. Events of the mouse in the field are used: a press puts the cursor "
  "where the pointer is (extending the selection with shift), a drag selects, a double click selects the word, the wheel scrolls; in a field without "
  "focus, they can only focus it. Each other method does to the text what it's named after, once, and returns its result.",
  ["fields"], "every event, every content, every selection, every area, every scroll, focused or not",
  "Tests send no event.",
  ["src/views/input_field.rs"], [("InputField::apply_event", "src/views/input_field.rs"), ("InputField::apply_keycode_event", "src/views/input_field.rs")],
  "The changes made to the content are recorded in a ghost trace along every path and compared with the table of keys and events.",
  SEN + "What the content's methods do is in I02..I04. Whether shift extends a selection on keys which aren't used is free. Which word a double click selects "
  "and how columns map to chars is the content's business.")

P("I07", "What's put in an input field is what's read from it",
  "The text got from an input field or its content is its lines with a line feed between them; from, set_str and insert_str put the chars of their string, breaking lines at line feeds and skipping carriage returns and backspaces, with the cursor at the end of what's inserted, "
  "set_str changing nothing (cursor included) when the content is already this text; is_str and is_content are true exactly for this text, is_empty exactly for the empty one. "
  "The string of the selection, copied or cut, is what deleting it removes: from its first to its last position, both included, line feeds too.",
  ["inputs"], "every content of up to 3 lines, string of up to 3 chars (4 in thorough), selection and position, the chars being arbitrary",
  "A few texts are round tripped in tests; empty lines, line ends in selections, and chars which are skipped are seldom combined.",
  ["src/views/input_field_content.rs", "src/views/input_field.rs"],
  [("Chars::next", "src/views/input_field_content.rs"), ("InputFieldContent::set_str", "src/views/input_field_content.rs"), ("InputFieldContent::is_str", "src/views/input_field_content.rs"), ("InputField::cut_selection", "src/views/input_field.rs")],
  "Each function is interpreted on every small shape of content and every sequence of kinds of chars, the chars being symbolic; what it writes, returns or leaves in the lines is compared char by char with the specification.",
  "Bounded in the numbers of lines and chars, not in the chars.", technique=IN)
P("I08", "The columns of a line are the widths of its chars",
  "The width of a line is the sum of the widths of its chars, the column of a char is the sum of the widths of the ones before, the char of a column is the first one which starts at this column or after it, none when there's no such char. "
  "A tab is as wide as what's displayed in its place, any other char has its unicode width, none for control chars.",
  ["inputs"], "every line of up to 3 chars (6 in thorough) of any widths, column and index",
  "Tests use chars of one column: indexes and columns are then the same.",
  ["src/views/input_field_content.rs"],
  [("Line::col_to_char_idx", "src/views/input_field_content.rs"), ("Line::char_idx_to_col", "src/views/input_field_content.rs"), ("InputFieldContent::char_width", "src/views/input_field_content.rs")],
  "Each function is interpreted on lines of known lengths, the widths of the chars, the columns and indexes being symbolic; this discharges what I02, I05 and I06 assume of these functions.",
  "Bounded in the number of chars, not in their widths.", technique=IN)

P("T01", "Each event read is sent once, in order, alone, counted, as the options say",
  "For every history of events: an event out of an escape sequence is sent exactly once, in the order of reading, unless the options discard it (moves, "
  "drags, keys the combiner makes nothing of); it's counted before it's sent, and nothing is read or sent after it until it's told to go on (or the "
  "thread ends, when told to or when nobody listens). Keys from alt-_ to alt-\\ are sent as one escape sequence, when nothing but keys without ctrl nor alt is between; "
  "if something else comes, the keys are sent one by one, in order, before it. A double click is a press or release of the left button at the cell "
  "of the last release, soon after it. A failed read has no effect.",
  ["events"], "every sequence of events, every combination of options, every result of the channels",
  "Tests never make an event source (it needs a terminal), and its behaviour depends on the whole history of events.",
  ["src/events/event_source.rs"], [("EventSource::with_options", "src/events/event_source.rs")],
  "The closure given to thread::spawn is interpreted from any state of its loop; each turn from a read to the next one is compared, on every path, with the "
  "step the documentation tells, the loop on the keys of an interrupted sequence by induction.",
  SEN + "The channels, the combiner and the reading are those of crossbeam, crokey and crossterm: their results are arbitrary. The length of the double click delay is free. "
  "")

P("T02", "An event source owns raw mode, and its channels are those of its thread",
  "Making a source either gives one whose terminal is in raw mode, with exactly one reading thread, or fails leaving neither raw mode nor thread; dropping a source "
  "leaves raw mode. The receivers and the sender of a source are the other ends of the channels its thread uses; unblock gives the thread what it's given; "
  "the shared count is the one the thread increments; whether keys are combined is what the terminal answered, asked only when wanted. The default options are the documented ones.",
  ["events"], "every result of the calls to the terminal, all options",
  "Tests have no terminal.",
  ["src/events/event_source.rs"], [("EventSource::with_options", "src/events/event_source.rs"), ("EventSource", "src/events/event_source.rs")],
  "Typestate of raw mode along every path; identity of the ends of channels between the thread's captures and the fields of the source.",
  SEN)

P("T03", "A beam ticks as many times as asked unless stopped, and only it is stopped",
  "The thread of a beam waits the period then sends the payload, as many times as asked (endlessly if no count), and ends before the next tick when interrupted, "
  "never before otherwise. Beams get distinct ids, in order; stopping an id interrupts exactly the beam started with it, and forgets it; unknown ids stop nothing; stopping all, or "
  "dropping the ticker, interrupts all of them. Ticks arrive on the ticker's receiver.",
  ["events"], "every count, period and payload, every set of beams, interruptions at any time",
  "Tests never use a ticker; they couldn't cover all the interruption times.",
  ["src/events/tick_beam.rs"], [("Ticker", "src/events/tick_beam.rs")],
  "The closure of the thread is interpreted by induction on the number of ticks sent; the vector of beams is followed as pieces of the initial one.",
  SEN + "How long a wait takes is recv_timeout's business.", technique=IN)

P("T04", "A question is answered with the key of an answer or the default",
  "Asking gives the default only when one is set and nothing (but blanks) is typed, and otherwise the typed line (without trailing blanks), which is then equal to the key of an answer; "
  "any other line asks again; a failed read or the end of the input ends the asking. A default is exotic when it's set and is the key of no answer. Added answers and default are kept as given.",
  ["ask"], "every list of answers, every default, every sequence of typed lines",
  "Tests can't type; the loop is on arbitrary inputs.",
  ["src/ask.rs"], [("Question::ask", "src/ask.rs"), ("Question::has_exotic_default", "src/ask.rs")],
  "The loops are interpreted with ghost variables telling which answers were compared with what was typed.", SEN, technique=IN)

P("T05", "Simple clicks, keys and escape sequences are told apart as documented",
  "as_click gives the position of the event exactly for releases of the left button without modifier which aren't double clicks; is_key is true exactly when the combination, or the key "
  "of the event, is the given one; an escape sequence is displayed as its plain chars, in order; a new timed event has neither double click nor combination.",
  ["events"], "every event, every sequence of keys",
  "Tests make no timed event.",
  ["src/events/timed_event.rs", "src/events/escape_sequence.rs"], [("TimedEvent", "src/events/timed_event.rs"), ("EscapeSequence", "src/events/escape_sequence.rs")],
  "Case analysis on every path of the interpreted functions.", SEN, technique=IN)

P("S08", "A skin written as data is read back as itself, key by key",
  "Serializing a skin writes one entry per style (all but the indentation mode of lists, which isn't part of the file; the border chars only when they're named ones), and "
  "each entry, when read, sets the field it was written from, from its value with the parser of its type, and nothing else. The documented keys (the name of the field with underscores or "
  "dashes, quote, rule) set their field, unknown keys change nothing whatever their value, a value which isn't valid makes the reading fail. Headers may be given as a list (the first levels are "
  "set, others kept) or as a style added to each level (colors and alignment only when given, attributes added). Compound styles, line styles and styled chars are written as their words. "
  "A scrollbar is written as a single styled char only when this means the same; named border chars are read by their name.",
  ["serde"], "every skin, every key, every value, any error of the format",
  "Tests round-trip five skins, which leave most fields at their default, and never read headers as an added style, aliases or invalid values.",
  ["src/serde/serde_skin.rs", "src/serde/serde_scrollbar_style.rs", "src/serde/serde_compound_style.rs", "src/serde/serde_line_style.rs", "src/serde/serde_styled_char.rs", "src/table_border_chars.rs"],
  [("MadSkin", "src/serde/serde_skin.rs"), ("ScrollBarStyleDef", "src/serde/serde_scrollbar_style.rs"), ("TableBorderChars::by_key", "src/table_border_chars.rs")],
  "The visitor of the map is interpreted from an arbitrary skin, for one entry of each documented key and an arbitrary other key, and what changed in the skin is compared with what the key says; "
  "the entries given to the serializer are compared with the fields, and their keys with those the visitor reads.",
  SEN + "serde's derived code (the untagged definitions) and formats are trusted. Lists of headers are analysed up to 9 levels (16 in the thorough tier), styles added to headers with no, each and all attributes.", technique=IN)

P("S09", "The word written for a color, attribute, alignment or char is read as it",
  "The word that Display writes for a style token (any color, any of the attributes of styles, any set alignment, any dimension, none, a char which is neither a digit, a parenthesis nor a blank) is read by "
  "parse_style_token as this token, in any case for names; Black and White are read as the ansi colors 16 and 231. The documented spellings are read (gray(0) to gray(23), grey, ansi(n), rgb(r, g, b), "
  "#rgb, #rrggbb, the names of attributes), and levels or codes out of range, as unknown words, are refused.",
  ["parse"], "every color name, every level and code, attribute, alignment, number",
  "Tests read about ten words; a word may be taken by a pattern meant for another one (grey by darkgrey, italic by a part of a longer word).",
  ["src/parse/mod.rs", "src/parse/parse_color.rs", "src/parse/parse_attribute.rs", "src/parse/parse_align.rs"],
  [("parse_style_token", "src/parse/mod.rs"), ("parse_color", "src/parse/parse_color.rs"), ("parse_attribute", "src/parse/parse_attribute.rs")],
  "The paths of parse_style_token's MIR are turned into a decision list (patterns matched, numbers readable, chars counted, and the value returned), in which the words extracted from the paths of Display are looked for.",
  "The quick tier looks for a selection of the numbers (bounds, changes of length), the thorough one for all of them. The meaning of the patterns themselves is given by Python's re, on the common subset of syntax.",
  technique="decision lists extracted from MIR by abstract interpretation")

P("S10", "A style written as words is read back as the same style",
  "The tokens pushed for a compound style, a line style or a styled char, once read by parse_compound_style, parse_line_style or parse_styled_char, give the same colors (a missing foreground stays so), "
  "attributes, alignment, margins (65535 when more) and char (digits included). Tokens are written in order with blanks between them, and the tokenizer finds exactly the written words, in order, "
  "refusing the whole when one is refused.",
  ["parse"], "every style: all the colors, the sets of attributes, alignments, margins and chars",
  "Tests round-trip a few styles; the omission of the foreground, the digits as chars, and margins depend on combinations they don't have.",
  ["src/parse/mod.rs", "src/parse/parse_compound_style.rs", "src/parse/parse_line_style.rs", "src/parse/parse_styled_char.rs"],
  [("PushStyleTokens", "src/parse/mod.rs"), ("parse_compound_style", "src/parse/parse_compound_style.rs"), ("parse_line_style", "src/parse/parse_line_style.rs"), ("parse_styled_char", "src/parse/parse_styled_char.rs")],
  "push_style_tokens is interpreted on a symbolic style, the tokens having a word are given to the interpreted parser, and each field of the result is compared with the initial one; the loops joining and separating words are handled by induction.",
  "Sets of attributes: none, each, all in the quick tier; all the sets in the thorough one. Underline colors and attributes out of ATTRIBUTES have no word.", technique=IN)
P("F01", "A fitted composite is parts of its text, with ellipses for what's removed",
  "Fitting a composite in a width (Fitter::fit, fit_width, fill_width) leaves it unchanged when it fits, empty when the width is 0, a lone ellipsis when it's 1. Otherwise what's left is made of parts of its compounds, "
  "in order and in their style, with a style-less ellipsis at the end which was cut (start when aligned right, end when aligned left or not aligned, end and possibly start when centered) and none where nothing was cut, and the visible "
  "length is recomputed. The middle of words and compounds is removed only when there's no alignment: the compound is then replaced by its head, an ellipsis, its tail, at least one char of the word staying at both ends, and the gain is the width "
  "removed minus 1. Filling then pads up to the width (never less than an existing spacing), with the alignment asked. Fitting never indexes out of a vector nor computes a negative width.",
  ["fit"], "every composite of up to 2 (thorough: 4) compounds with any contents, every width and alignment; every zone of a compound",
  "The tests look at the length of the result only, on three texts: what's left, its order and its style aren't looked at.",
  ["src/fit/composite_fit.rs", "src/composite.rs"],
  [("Fitter::fit", "src/fit/composite_fit.rs"), ("Zone::cut", "src/fit/composite_fit.rs"), ("FmtComposite::fill_width", "src/composite.rs")],
  "Fitter::fit is interpreted on sequences of symbolic compounds, the loop on compounds being executed exactly and the ones on chars by induction; the pieces left are compared with the initial ones. Zone::cut is interpreted "
  "on any zone of any compound, with an inductive invariant tying the measured width to the bytes removed; the zones made by the constructors are shown to be parts of the compounds they say.",
  "That the result is at most as wide as asked isn't decided: the width of a text isn't the sum of the ones of its chars. Bounds of slices of texts (positions of chars) are assumed. Which word is the biggest isn't checked.", technique=IN)
P("B01", "Every row and rule of a table gets all its columns, at their widths",
  "The tables of a text are exactly its maximal sequences of rows and rules, their number of columns being the greatest of their lines; all are fixed, from the last to the first, and no other line changes. Once fixed, every row has exactly "
  "the number of columns of the table (missing cells being empty) and each cell has the width of its column and the alignment of the last rule above it (center before any). A cell too wide is wrapped at the width of its column, "
  "in as many rows as needed, in order, other cells of the added rows being empty; a cell which fits isn't. Rules get the widths of the columns and missing alignments; the first and last lines, when they're rules, are known as such. "
  "When the width isn't enough for all the columns (4 per column and 1), the first (width-1)/4 ones are kept, 3 wide; nothing changes without width or column. The lines of the table are counted.",
  ["tables"], "tables of up to 4 (thorough: 5) lines and 3 columns with any cells, widths and alignments, cells being wrapped over up to 3 composites",
  "The tests render two tables; missing cells, removed columns, several tables or wrapped cells in different columns are combinations they don't have.",
  ["src/tbl.rs"], [("Table::fix_columns", "src/tbl.rs"), ("find_tables", "src/tbl.rs"), ("FmtTableRule::set_nbcols", "src/tbl.rs")],
  "fix_columns is interpreted on tables of known shapes and unknown contents (loops on lines and columns being executed exactly, the width of the columns and the wrapped cells being symbolic), and the resulting lines are compared, "
  "cell by cell, with the ones wanted; find_tables on all the sequences of up to 4 lines.",
  "Larger tables aren't analysed. The wrapping of a cell itself is W01..W05's, the choice of widths B02's.", technique=IN)
P("B02", "The columns of a table fit the width, and are as wide as they need",
  "The fitter of a table refuses exactly the widths under 4 per column plus 1. Otherwise the columns are at least 3 wide, and their sum is at most the width without the borders. When the widest cells fit, each column is as wide as its widest cell "
  "(3 at least); when they don't, no column of a table of several columns is wider than its widest cell. Computing the widths never divides by 0 nor subtracts more than there is.",
  ["tables"], "every width, and any number of cells of any widths, in up to 2 columns",
  "Tests fit two tables; rounding, the order of the columns by width and the two steps of the reduction depend on values they don't have.",
  ["src/fit/tbl_fit.rs"], [("TblFit::fit", "src/fit/tbl_fit.rs"), ("TblFit::new", "src/fit/tbl_fit.rs"), ("div_ceil", "src/fit/tbl_fit.rs")],
  "TblFit::fit is interpreted on symbolic columns, sorting being any permutation; the quotients rounded to the top are symbols with linear consequences (at least x when x*y is divided by no more than y), which are what makes the excess disappear.",
  "Up to 2 columns: the paths of 3 are too many. Overflows of additions and products aren't looked at.", technique=IN)

P("K01", "Code blocks are the runs of code lines, each as wide as its widest one",
  "In a text, each longest sequence of consecutive code lines is given, line by line, a left aligned spacing whose width is the visible length of the widest of them. No other line is changed, and nothing else of the code lines is.",
  ["texts"], "every sequence of up to 4 lines (5 in thorough) being code lines or anything else, of any contents and widths",
  "Tests display one code block; blocks which follow each other, end the text, or are cut by tables, rules and other composites aren't sampled.",
  ["src/code.rs"], [("justify_blocks", "src/code.rs"), ("find_blocks", "src/code.rs"), ("CodeBlock::justify", "src/code.rs")],
  "justify_blocks is interpreted on every sequence of kinds of lines, their contents and widths being symbolic; the lines it leaves are compared with the ones given and the width of each block with the lengths of its lines.",
  "Bounded in the number of lines, not in their contents.", technique=IN)
P("K02", "A text is its source's lines, tables and code laid out, then wrapped",
  "A text formatted from a source has the source's lines, parsed with the default options or raw, each formatted as what it is (composites, rows with their cells in order, table rules with their alignments, horizontal rules), in order; their tables are fixed at the width "
  "given (unlimited without one), their code justified, and, when the width is at least 3, they're wrapped at this width, tables and code coming first. The text keeps its skin and width. Its content width is the one of its widest line, and setting the rendering width sets only the width.",
  ["texts"], "every source, width and skin (0 to 3 lines for the sequence of steps)",
  "Tests look at a few rendered texts; a step skipped for some width, done with another width or twice shows only with some contents.",
  ["src/text.rs", "src/line.rs", "src/tbl.rs", "src/composite_kind.rs"],
  [("FmtText::from_text", "src/text.rs"), ("FmtText::from", "src/text.rs"), ("FmtLine::from", "src/line.rs"), ("FmtTableRow::from", "src/tbl.rs"), ("CompositeKind::from", "src/composite_kind.rs")],
  "from_text is interpreted with its steps as opaque recorded calls, for no width, widths 0 to 3 and any bigger one: the record, the arguments of the steps and the fields of the result are compared with the specification. The conversions are interpreted for each variant.",
  "The steps themselves are the matter of B01, K01 and W01 to W03; parsing is minimad's.", technique=IN)
P("K03", "Showing markdown shows it laid out for the destination's width",
  "Every function of a skin which returns, prints or writes markdown does it for its own source and with this skin: inlines and composites as parsed (filled to the width and alignment given when asked), texts at the width given, the terminal's width, "
  "or the area's width less one column for the scrollbar; exactly once. Writing in an area draws the text from its start without scrollbar; a mad view draws its markdown in its area with its skin at its scroll. "
  "Resizing a mad view gives it the new area, keeps its markdown and skin, keeps its scroll when the width is the same and goes back to the top otherwise.",
  ["inputs"], "every source, skin, template, area at least one column wide, scroll and terminal width",
  "No test calls these functions: they need a terminal.",
  ["src/skin.rs", "src/views/mad_view.rs"],
  [("MadSkin::area_text", "src/skin.rs"), ("MadSkin::print_owning_expander_md", "src/skin.rs"), ("MadSkin::write_composite_fill", "src/skin.rs"), ("MadView::write_on", "src/views/mad_view.rs"), ("MadView::resize", "src/views/mad_view.rs")],
  "Each function is interpreted with parsing, template expansion, layout, fitting and the drawing of a view as terms of their arguments; what it returns, and the sequence of what it displays on the output (print! included), must be the one term wanted.",
  "What the terms stand for is decided by K02, F01, R01 to R03 and V03; minimad's parsing and templates are trusted.", technique=IN)
P("K04", "The functions and macros of the crate do what their arguments say",
  "inline, text, term_text, print_inline and print_text do with their source what these methods of the default skin (MadSkin::default()) do, text without limit of width. mad_print_inline! and mad_write_inline! show once, "
  "with the skin (and on the writer) given, the template made of the literal, each argument, as a string, being put in its place, up to 10 arguments. ask! asks once, with the skin given, a question of this text, these answers in this order and "
  "this default (a default which isn't one of the answers is refused), then runs the block of the first answer whose key is the one got, and no other one, and gives its value.",
  ["inputs", "configurations"], "every source, skin, value of the arguments and answer",
  "No test uses them: they print or read the terminal.",
  ["src/lib.rs", "src/macros.rs", "src/ask.rs"], [("text", "src/lib.rs"), ("mad_print_inline!", "src/macros.rs"), ("mad_write_inline!", "src/macros.rs"), ("ask!", "src/ask.rs")],
  "The functions are interpreted as for K03. The macros are expanded in a witness crate (with 0, 2 and 10 arguments; 3 answers with and without default), whose functions are interpreted with the calls to skins, questions and templates as terms, strings being compared or not.",
  "The expansions analysed are the ones of the witness crate: macros treating differently other numbers of arguments or answers aren't seen. minimad's templates are trusted; Question::ask by T04.", technique=IN)

P("P01", "A progress bar shows its part of its length",
  "A progress bar of a part between 0 and 1 is displayed as the whole number of full blocks of its part of its length, then a block of the eighths of a char left, if any; it is never longer than its length, and is padded as the formatter asks.",
  ["inputs"], "every part between 0 and 1 and every length",
  "Tests don't cover progress bars.",
  ["src/views/progress.rs"], [("ProgressBar", "src/views/progress.rs")],
  na="the guarantee is about the rounding of 32-bit floats (a product, its fractional part times 8, rounded): the domains of the analyser are linear over integers, "
     "and a sound relation between the whole part and the rounded eighths needs bit-precise float reasoning, that is a solver or runs.")
P("T06", "Events and ticks are timely",
  "A tick is sent a period after the previous one, an escape sequence is ended and a double click recognized within the delays of the options as a user perceives them, and an event read is available without delay.",
  ["schedules"], "every load and scheduling of the machine",
  "Tests don't measure time.",
  ["src/events/tick_beam.rs", "src/events/event_source.rs"], [("Ticker", "src/events/tick_beam.rs"), ("EventSource", "src/events/event_source.rs")],
  na="durations depend on the scheduler and on the terminal, no static argument bounds them; what's decided from the source (order, number, interruption, what's compared with the delays) is T01 to T03.")
