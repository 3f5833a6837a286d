//! Workload generators

use {
    crate::{core::Rng, term::*},
    termimad::{
        crossterm::style::{Attribute, Color},
        *,
    },
};

pub fn col(c: Color) -> Option<Col> {
    Some(match c {
        Color::Reset => return None,
        Color::Black => Col::Ansi(0),
        Color::DarkRed => Col::Ansi(1),
        Color::DarkGreen => Col::Ansi(2),
        Color::DarkYellow => Col::Ansi(3),
        Color::DarkBlue => Col::Ansi(4),
        Color::DarkMagenta => Col::Ansi(5),
        Color::DarkCyan => Col::Ansi(6),
        Color::Grey => Col::Ansi(7),
        Color::DarkGrey => Col::Ansi(8),
        Color::Red => Col::Ansi(9),
        Color::Green => Col::Ansi(10),
        Color::Yellow => Col::Ansi(11),
        Color::Blue => Col::Ansi(12),
        Color::Magenta => Col::Ansi(13),
        Color::Cyan => Col::Ansi(14),
        Color::White => Col::Ansi(15),
        Color::AnsiValue(v) => Col::Ansi(v),
        Color::Rgb { r, g, b } => Col::Rgb(r, g, b),
    })
}

pub static ATTRS: &[(Attribute, u32)] = &[
    (Attribute::Bold, BOLD),
    (Attribute::Dim, DIM),
    (Attribute::Italic, ITALIC),
    (Attribute::Underlined, UNDERLINED),
    (Attribute::Reverse, REVERSE),
    (Attribute::CrossedOut, CROSSED),
    (Attribute::Encircled, ENCIRCLED),
    (Attribute::OverLined, OVERLINED),
    (Attribute::SlowBlink, SLOW_BLINK),
    (Attribute::RapidBlink, RAPID_BLINK),
    (Attribute::Hidden, HIDDEN),
    (Attribute::Framed, FRAMED),
    (Attribute::Fraktur, FRAKTUR),
    (Attribute::DoubleUnderlined, DOUBLE_UNDERLINED),
    (Attribute::Undercurled, UNDERCURLED),
    (Attribute::Underdotted, UNDERDOTTED),
    (Attribute::Underdashed, UNDERDASHED),
];

/// the rendition expected from a compound style
pub fn sty_of(cs: &CompoundStyle) -> Sty {
    let mut s = Sty {
        fg: cs.get_fg().and_then(col),
        bg: cs.get_bg().and_then(col),
        attrs: 0,
        ul: cs.object_style.underline_color.and_then(col),
    };
    for (a, bit) in ATTRS {
        if cs.object_style.attributes.has(*a) {
            s.attrs |= bit;
        }
    }
    s
}

/// `over` applied on `base`: characteristics defined by `over` win
pub fn overlay(base: Sty, over: Sty) -> Sty {
    Sty {
        fg: over.fg.or(base.fg),
        bg: over.bg.or(base.bg),
        attrs: base.attrs | over.attrs,
        ul: over.ul.or(base.ul),
    }
}

pub fn rand_color(r: &mut Rng) -> Color {
    match r.below(8) {
        0 => Color::Rgb {
            r: r.below(256) as u8,
            g: r.below(256) as u8,
            b: r.below(256) as u8,
        },
        1 => *r.pick(&[
            Color::Black,
            Color::DarkGrey,
            Color::Red,
            Color::DarkRed,
            Color::Green,
            Color::DarkGreen,
            Color::Yellow,
            Color::DarkYellow,
            Color::Blue,
            Color::DarkBlue,
            Color::Magenta,
            Color::DarkMagenta,
            Color::Cyan,
            Color::DarkCyan,
            Color::White,
            Color::Grey,
        ]),
        2 => termimad::gray(r.below(24) as u8),
        _ => Color::AnsiValue(r.range(16, 255) as u8),
    }
}

pub fn rand_attr(r: &mut Rng) -> Attribute {
    *r.pick(&[
        Attribute::Bold,
        Attribute::Dim,
        Attribute::Italic,
        Attribute::Underlined,
        Attribute::Reverse,
        Attribute::CrossedOut,
        Attribute::Encircled,
        Attribute::OverLined,
        Attribute::SlowBlink,
        Attribute::RapidBlink,
    ])
}

pub fn rand_cs(r: &mut Rng) -> CompoundStyle {
    let mut cs = CompoundStyle::default();
    if r.chance(4, 5) {
        cs.set_fg(rand_color(r));
    }
    if r.chance(2, 3) {
        cs.set_bg(rand_color(r));
    }
    for _ in 0..r.below(3) {
        cs.add_attr(rand_attr(r));
    }
    cs
}

pub fn rand_align(r: &mut Rng) -> Alignment {
    *r.pick(&[
        Alignment::Unspecified,
        Alignment::Left,
        Alignment::Center,
        Alignment::Right,
    ])
}

pub static BORDERS: &[&TableBorderChars] = &[
    STANDARD_TABLE_BORDER_CHARS,
    ASCII_TABLE_BORDER_CHARS,
    ROUNDED_TABLE_BORDER_CHARS,
];

/// A skin determined by a number.
///
/// 0 is the default skin, 1 the no_style one, 2 dark, 3 light, 4 a skin limited
/// to ascii, then random ones.
pub fn skin(seed: u64) -> MadSkin {
    match seed {
        0 => return MadSkin::default(),
        1 => return MadSkin::no_style(),
        2 => return MadSkin::default_dark(),
        3 => return MadSkin::default_light(),
        4 => {
            let mut s = MadSkin::default();
            s.limit_to_ascii();
            return s;
        }
        _ => {}
    }
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut s = MadSkin::default();
    fn ls(r: &mut Rng, margins: bool) -> LineStyle {
        let mut l = LineStyle::new(rand_cs(r), Alignment::Unspecified);
        if r.chance(1, 2) {
            l.align = rand_align(r);
        }
        if margins && r.chance(1, 2) {
            l.left_margin = r.below(7);
            l.right_margin = r.below(7);
        }
        l
    }
    let margins = r.chance(2, 3);
    s.paragraph = ls(r, margins);
    s.code_block = ls(r, margins);
    s.table = ls(r, false);
    for i in 0..s.headers.len() {
        s.headers[i] = ls(r, margins);
    }
    s.bold = rand_cs(r);
    s.italic = rand_cs(r);
    s.strikeout = rand_cs(r);
    s.inline_code = rand_cs(r);
    s.ellipsis = rand_cs(r);
    s.bullet = StyledChar::new(rand_cs(r), *r.pick(&['•', '*', '-', '⟩']));
    s.quote_mark = StyledChar::new(rand_cs(r), *r.pick(&['▐', '>', '|']));
    s.horizontal_rule = StyledChar::new(rand_cs(r), *r.pick(&['―', '-', '=']));
    s.scrollbar.track = StyledChar::new(rand_cs(r), *r.pick(&['▐', '|', '░']));
    s.scrollbar.thumb = StyledChar::new(rand_cs(r), *r.pick(&['▐', '█', '#']));
    s.table_border_chars = BORDERS[r.below(BORDERS.len())];
    s.list_items_indentation_mode = if r.bool() {
        ListItemsIndentationMode::Block
    } else {
        ListItemsIndentationMode::FirstLineOnly
    };
    s
}

/// Add to some styles of a skin the characteristics which have no textual definition
pub fn exotic(s: &mut MadSkin, seed: u64) {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut change = |cs: &mut CompoundStyle| {
        if r.chance(1, 3) {
            cs.add_attr(*r.pick(&[
                Attribute::Hidden,
                Attribute::Framed,
                Attribute::Fraktur,
                Attribute::DoubleUnderlined,
                Attribute::Undercurled,
                Attribute::Underdotted,
                Attribute::Underdashed,
            ]));
        }
        // crossterm doesn't reset the color of the underline of a style without attributes
        if r.chance(1, 2) && !cs.object_style.attributes.is_empty() {
            cs.object_style.underline_color = Some(rand_color(r));
        }
    };
    for l in s.headers.iter_mut().chain([&mut s.paragraph, &mut s.code_block, &mut s.table]) {
        change(&mut l.compound_style);
    }
    for cs in [&mut s.bold, &mut s.italic, &mut s.strikeout, &mut s.inline_code, &mut s.ellipsis] {
        change(cs);
    }
    for sc in [&mut s.bullet, &mut s.quote_mark, &mut s.horizontal_rule] {
        let mut cs = sc.compound_style().clone();
        change(&mut cs);
        sc.set_compound_style(cs);
    }
}

pub fn rand_skin_seed(r: &mut Rng) -> u64 {
    if r.chance(1, 4) {
        r.below(5) as u64
    } else {
        5 + r.u64() % 1_000_000_000
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Alpha {
    Ascii,
    /// with wide chars, accents and combining marks
    Uni,
    /// all chars one column wide, some of them not ASCII
    Gentle,
}

/// chars whose width is the same alone and in a string
static UNI: &[&str] = &[
    "é", "à", "ß", "Ω", "ж", "一", "曰", "道", "한", "글", "あ", "（", "。", "e\u{301}", "o\u{308}",
    "n\u{303}", "ﬁ", "™", "½", "→", "ø", "א", "\u{1F600}",
];

pub fn word(r: &mut Rng, alpha: Alpha, max: usize) -> String {
    let n = if r.chance(1, 6) {
        r.range(1, max.max(1))
    } else {
        r.range(1, max.clamp(1, 9))
    };
    let mut s = String::new();
    for _ in 0..n {
        if alpha == Alpha::Uni && r.chance(1, 3) {
            s.push_str(r.pick(UNI));
        } else if alpha == Alpha::Gentle && r.chance(1, 3) {
            s.push(*r.pick(&['é', 'à', 'ß', 'Ω', 'ж', '½', '→', 'ø', '█', '│', '𝄞']));
        } else if r.chance(1, 12) {
            s.push(*r.pick(&[',', '.', '!', '?', ';', ':', '(', ')', '"', '\'', '-', '+', '/', '#', '_']));
        } else {
            s.push((b'a' + r.below(26) as u8) as char);
        }
    }
    s
}

fn spaces(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "  ".to_string(),
        1 => " ".repeat(r.range(2, 8)),
        2 => "\u{a0}".to_string(),
        3 => "\u{3000}".to_string(),
        _ => " ".to_string(),
    }
}

/// an inline markdown text
pub fn inline_md(r: &mut Rng, alpha: Alpha, max_words: usize, pipes: bool) -> String {
    let mut s = String::new();
    let n = r.range(1, max_words.max(1));
    for i in 0..n {
        if i > 0 && !r.chance(1, 10) {
            s.push_str(&spaces(r));
        }
        let maxw = *r.pick(&[3, 8, 12, 30]);
        let mut w = word(r, alpha, maxw);
        match r.below(12) {
            0 => {
                // a group of words with the same style
                let k = r.range(1, 4);
                for _ in 0..k {
                    w.push_str(&spaces(r));
                    w.push_str(&word(r, alpha, 12));
                }
                let t = *r.pick(&["*", "**", "~~", "`", "***", "**~~"]);
                let rev: String = t.chars().rev().collect();
                s.push_str(t);
                s.push_str(&w);
                s.push_str(&rev);
            }
            1 => s.push_str(&format!("*{w}*")),
            2 => s.push_str(&format!("**{w}**")),
            3 => s.push_str(&format!("`{w}`")),
            4 => s.push_str(&format!("~~{w}~~")),
            5 => s.push_str(&format!("**{w} *{}* `{}`**", word(r, alpha, 6), word(r, alpha, 6))),
            6 if r.chance(1, 3) => {
                s.push_str(r.pick(&["\\*", "\\`", "\\~", "\\\\", "\\|", "*", "**", "`", "~~"]));
                s.push_str(&w)
            }
            7 if pipes && r.chance(1, 4) => s.push('|'),
            8 if r.chance(1, 3) => {
                // a styled blank between words
                let t = *r.pick(&["`", "`", "~~"]);
                let blank = if t == "`" { " ".repeat(r.range(1, 4)) } else { "\u{a0}".to_string() };
                s.push_str(&format!("{w}{t}{blank}{t}{}", word(r, alpha, 12)))
            }
            _ => s.push_str(&w),
        }
    }
    s
}

pub fn table_md(r: &mut Rng, alpha: Alpha, out: &mut String) {
    let ncols = match r.below(10) {
        0 => r.range(5, 14),
        _ => r.range(1, 5),
    };
    let rule = |r: &mut Rng, out: &mut String, n: usize| {
        for _ in 0..n {
            out.push_str(r.pick(&["|-", "|:-", "|-:", "|:-:", "|---", "|:---:"]));
        }
        if r.bool() {
            out.push('|');
        }
        out.push('\n');
    };
    if r.chance(2, 3) {
        rule(r, out, ncols);
    }
    let nrows = r.range(1, 6);
    for ir in 0..nrows {
        let n = if r.chance(1, 6) { r.range(1, ncols + 1) } else { ncols };
        for _ in 0..n {
            out.push('|');
            match r.below(10) {
                0 => {}
                1 => out.push_str("* "),
                2 => out.push_str("> "),
                3 if r.chance(1, 2) => out.push_str(&format!("{}* ", " ".repeat(r.range(1, 3)))),
                _ => {}
            }
            if !r.chance(1, 10) {
                let mw = *r.pick(&[1, 1, 2, 2, 3, 8]);
                out.push_str(&inline_md(r, alpha, mw, false));
            }
        }
        if r.chance(3, 4) {
            out.push('|');
        }
        out.push('\n');
        if ir == 0 && r.bool() || r.chance(1, 5) {
            let n = if r.chance(1, 8) { r.range(1, ncols) } else { ncols };
            rule(r, out, n);
        }
    }
    if r.chance(2, 3) {
        rule(r, out, ncols);
    }
}

pub fn code_md(r: &mut Rng, alpha: Alpha, out: &mut String) {
    let fence = r.chance(2, 3);
    if fence {
        out.push_str(r.pick(&["```\n", "```rust\n"]));
    }
    for _ in 0..r.range(1, 6) {
        if !fence {
            out.push_str("    ");
        }
        if r.chance(1, 10) && fence {
            out.push('\n');
            continue;
        }
        out.push_str(&" ".repeat(r.below(6)));
        for i in 0..r.range(1, 8) {
            if i > 0 {
                out.push_str(&" ".repeat(r.range(1, 3)));
            }
            let m = *r.pick(&[4, 10, 25]);
            out.push_str(&word(r, alpha, m));
            if r.chance(1, 6) {
                out.push_str(r.pick(&["**", "|", "*", "\\*", "~~"]));
            }
        }
        out.push('\n');
    }
    if fence {
        out.push_str("```\n");
    }
}

/// a full markdown text
pub fn text_md(r: &mut Rng, alpha: Alpha, max_blocks: usize) -> String {
    let mut s = String::new();
    let n = r.range(1, max_blocks.max(1));
    for _ in 0..n {
        let mw = *r.pick(&[2, 5, 12, 40]);
        match r.below(17) {
            0 => table_md(r, alpha, &mut s),
            1 => code_md(r, alpha, &mut s),
            16 => {
                // blocks of code near each other
                for _ in 0..r.range(2, 4) {
                    code_md(r, alpha, &mut s);
                    if r.chance(1, 5) {
                        s.push_str(&format!("    {}\n", "x".repeat(r.range(250, 300))));
                    }
                    s.push_str(r.pick(&["---\n", "---\n", "", "\n", "a\n"]));
                }
            }
            2 | 3 => {
                for _ in 0..r.range(1, 4) {
                    s.push_str(&" ".repeat(r.below(4)));
                    s.push_str("* ");
                    s.push_str(&inline_md(r, alpha, mw, true));
                    s.push('\n');
                }
            }
            4 => {
                for _ in 0..r.range(1, 3) {
                    s.push_str("> ");
                    s.push_str(&inline_md(r, alpha, mw, true));
                    s.push('\n');
                }
            }
            5 => {
                s.push_str(&"#".repeat(r.range(1, 8)));
                s.push(' ');
                s.push_str(&inline_md(r, alpha, mw.min(12), true));
                s.push('\n');
            }
            6 => s.push_str("---------\n"),
            7 => s.push_str(r.pick(&["\n", "\n\n", ">\n", "   \n"])),
            8 => {
                // exact cuts
                s.push_str(&word(r, alpha, 30));
                s.push_str(&spaces(r));
                s.push_str(&format!("**{}**", word(r, alpha, 30)));
                s.push('\n');
            }
            _ => {
                s.push_str(&inline_md(r, alpha, mw, true));
                s.push('\n');
            }
        }
    }
    s
}

/// a width with a bias toward small ones
pub fn rand_width(r: &mut Rng) -> usize {
    if r.chance(1, 30) {
        return r.range(200, 700);
    }
    match r.below(10) {
        0 => r.range(3, 8),
        1 | 2 | 3 => r.range(3, 30),
        9 => r.range(80, 200),
        _ => r.range(10, 80),
    }
}
