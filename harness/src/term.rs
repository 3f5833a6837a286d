//! A small terminal emulator: it interprets what the tested code writes
//! and records every effect.

use {
    crate::core::{viol, Viol},
    std::collections::BTreeMap,
    unicode_width::UnicodeWidthChar,
};

/// A terminal color, as seen by the terminal
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Col {
    Ansi(u8),
    Rgb(u8, u8, u8),
}

pub const BOLD: u32 = 1;
pub const DIM: u32 = 2;
pub const ITALIC: u32 = 4;
pub const UNDERLINED: u32 = 8;
pub const REVERSE: u32 = 16;
pub const CROSSED: u32 = 32;
pub const ENCIRCLED: u32 = 64;
pub const OVERLINED: u32 = 128;
pub const SLOW_BLINK: u32 = 256;
pub const RAPID_BLINK: u32 = 512;
pub const HIDDEN: u32 = 1024;
pub const FRAMED: u32 = 2048;
pub const FRAKTUR: u32 = 4096;
pub const DOUBLE_UNDERLINED: u32 = 8192;
pub const UNDERCURLED: u32 = 16384;
pub const UNDERDOTTED: u32 = 32768;
pub const UNDERDASHED: u32 = 65536;

/// The graphic rendition in effect
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash, PartialOrd, Ord)]
pub struct Sty {
    pub fg: Option<Col>,
    pub bg: Option<Col>,
    pub attrs: u32,
    /// color of the underline
    pub ul: Option<Col>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Print(char),
    Sgr(Vec<Vec<u16>>),
    /// 0 based
    Goto { x: u16, y: u16 },
    /// relative or absolute column moves and others
    Column(u16),
    EraseLineRight,
    EraseLineLeft,
    EraseLine,
    EraseBelow,
    EraseAll,
    /// private mode set or reset
    Mode(String),
    Other(String),
}

pub fn parse_ops(s: &str) -> Result<Vec<Op>, Viol> {
    let mut ops = Vec::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\u{1b}' {
            ops.push(Op::Print(c));
            continue;
        }
        match it.next() {
            Some('[') => {
                let mut params = String::new();
                let fin = loop {
                    match it.next() {
                        Some(c) if ('\u{40}'..='\u{7e}').contains(&c) => break c,
                        Some(c) => params.push(c),
                        None => return viol("truncated escape", format!("{s:?}")),
                    }
                };
                let nums = |p: &str| -> Vec<Vec<u16>> {
                    p.split(';')
                        .map(|g| g.split(':').map(|n| n.parse().unwrap_or(0)).collect())
                        .collect()
                };
                let first = |d: u16| -> u16 {
                    params
                        .split(';')
                        .next()
                        .and_then(|n| n.parse().ok())
                        .unwrap_or(d)
                };
                ops.push(match fin {
                    'm' => Op::Sgr(nums(&params)),
                    'H' => {
                        let mut sp = params.split(';');
                        let y: u32 = sp.next().and_then(|n| n.parse().ok()).unwrap_or(1);
                        let x: u32 = sp.next().and_then(|n| n.parse().ok()).unwrap_or(1);
                        Op::Goto {
                            x: x.max(1).min(65536) as u16 - 1,
                            y: y.max(1).min(65536) as u16 - 1,
                        }
                    }
                    'G' => Op::Column(first(1).max(1) - 1),
                    'K' => match first(0) {
                        0 => Op::EraseLineRight,
                        1 => Op::EraseLineLeft,
                        _ => Op::EraseLine,
                    },
                    'J' => match first(0) {
                        0 => Op::EraseBelow,
                        _ => Op::EraseAll,
                    },
                    'h' | 'l' => Op::Mode(format!("{params}{fin}")),
                    _ => Op::Other(format!("[{params}{fin}")),
                });
            }
            Some(c) => ops.push(Op::Other(c.to_string())),
            None => return viol("truncated escape", format!("{s:?}")),
        }
    }
    Ok(ops)
}

pub fn apply_sgr(sty: &mut Sty, groups: &[Vec<u16>]) {
    // flatten while keeping the 4:x sub parameters
    let mut i = 0;
    while i < groups.len() {
        let g = &groups[i];
        let code = g.first().copied().unwrap_or(0);
        if code == 4 && g.len() > 1 {
            match g[1] {
                0 => sty.attrs &= !UNDERLINED,
                1 => sty.attrs |= UNDERLINED,
                2 => sty.attrs |= DOUBLE_UNDERLINED,
                3 => sty.attrs |= UNDERCURLED,
                4 => sty.attrs |= UNDERDOTTED,
                _ => sty.attrs |= UNDERDASHED,
            }
            i += 1;
            continue;
        }
        match code {
            0 => *sty = Sty::default(),
            1 => sty.attrs |= BOLD,
            2 => sty.attrs |= DIM,
            3 => sty.attrs |= ITALIC,
            4 => sty.attrs |= UNDERLINED,
            5 => sty.attrs |= SLOW_BLINK,
            6 => sty.attrs |= RAPID_BLINK,
            7 => sty.attrs |= REVERSE,
            8 => sty.attrs |= HIDDEN,
            9 => sty.attrs |= CROSSED,
            20 => sty.attrs |= FRAKTUR,
            21 => sty.attrs &= !BOLD,
            22 => sty.attrs &= !(BOLD | DIM),
            23 => sty.attrs &= !ITALIC,
            24 => sty.attrs &= !UNDERLINED,
            25 => sty.attrs &= !(SLOW_BLINK | RAPID_BLINK),
            27 => sty.attrs &= !REVERSE,
            28 => sty.attrs &= !HIDDEN,
            29 => sty.attrs &= !CROSSED,
            51 => sty.attrs |= FRAMED,
            52 => sty.attrs |= ENCIRCLED,
            53 => sty.attrs |= OVERLINED,
            54 => sty.attrs &= !(FRAMED | ENCIRCLED),
            55 => sty.attrs &= !OVERLINED,
            30..=37 => sty.fg = Some(Col::Ansi(code as u8 - 30)),
            90..=97 => sty.fg = Some(Col::Ansi(code as u8 - 90 + 8)),
            40..=47 => sty.bg = Some(Col::Ansi(code as u8 - 40)),
            100..=107 => sty.bg = Some(Col::Ansi(code as u8 - 100 + 8)),
            39 => sty.fg = None,
            49 => sty.bg = None,
            59 => sty.ul = None,
            38 | 48 | 58 => {
                let p = |k: usize| groups.get(i + k).and_then(|g| g.first()).copied().unwrap_or(0);
                let (col, used) = match p(1) {
                    5 => (Some(Col::Ansi(p(2) as u8)), 2),
                    2 => (Some(Col::Rgb(p(2) as u8, p(3) as u8, p(4) as u8)), 4),
                    _ => (None, 0),
                };
                if code == 38 {
                    sty.fg = col;
                } else if code == 48 {
                    sty.bg = col;
                } else {
                    sty.ul = col;
                }
                i += used;
            }
            _ => {}
        }
        i += 1;
    }
}

pub fn cw(c: char) -> usize {
    c.width().unwrap_or(0)
}

pub type Glyph = (char, Sty);

/// Interpret an output made of lines: printed chars with their style
pub fn lines_of(s: &str) -> Result<Vec<Vec<Glyph>>, Viol> {
    let mut lines = Vec::new();
    let mut cur = Vec::new();
    let mut sty = Sty::default();
    for op in parse_ops(s)? {
        match op {
            Op::Print('\n') => lines.push(std::mem::take(&mut cur)),
            Op::Print(c) => cur.push((c, sty)),
            Op::Sgr(g) => apply_sgr(&mut sty, &g),
            o => return viol("unexpected terminal operation", format!("{o:?} in {s:?}")),
        }
    }
    if !cur.is_empty() {
        lines.push(cur);
    }
    if sty != Sty::default() {
        return viol("style leak", format!("style {sty:?} still set at end of {s:?}"));
    }
    Ok(lines)
}

pub fn glyphs_width(g: &[Glyph]) -> usize {
    g.iter().map(|(c, _)| cw(*c)).sum()
}

pub fn plain(g: &[Glyph]) -> String {
    g.iter().map(|(c, _)| *c).collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cell {
    /// None for an erased cell
    pub ch: Option<char>,
    /// zero width chars attached
    pub comb: Vec<char>,
    pub sty: Sty,
    /// second cell of a wide char
    pub cont: bool,
}

/// What was painted: the screen is unbounded at right, so that any overflow is seen
#[derive(Default, Debug)]
pub struct Screen {
    pub cells: BTreeMap<(i32, i32), Cell>, // (y, x)
    /// (y, from x): erased to the end of line
    pub erased_right: Vec<(i32, i32)>,
    /// other wide erasures
    pub erased_other: Vec<Op>,
    pub others: Vec<Op>,
    pub gotos: usize,
    pub prints: usize,
    pub sty: Sty,
    /// how many times each cell was painted
    pub paints: BTreeMap<(i32, i32), u32>,
    pub end: (i32, i32),
    /// chars printed before any cursor positioning
    pub unpositioned: usize,
    /// control chars printed
    pub controls: Vec<char>,
}

impl Screen {
    pub fn of(bytes: &[u8]) -> Result<Screen, Viol> {
        let s = match std::str::from_utf8(bytes) {
            Ok(s) => s,
            Err(e) => return viol("invalid utf8 output", format!("{e}")),
        };
        let mut sc = Screen::default();
        let (mut x, mut y) = (0i32, 0i32);
        let mut positioned = false;
        let mut sty = Sty::default();
        for op in parse_ops(s)? {
            match op {
                Op::Goto { x: nx, y: ny } => {
                    x = nx as i32;
                    y = ny as i32;
                    positioned = true;
                    sc.gotos += 1;
                }
                Op::Column(nx) => x = nx as i32,
                Op::Sgr(g) => apply_sgr(&mut sty, &g),
                Op::Print(c) => {
                    sc.prints += 1;
                    if !positioned {
                        sc.unpositioned += 1;
                    }
                    if c.is_control() {
                        sc.controls.push(c);
                        if c == '\n' {
                            y += 1;
                            x = 0;
                        } else if c == '\r' {
                            x = 0;
                        }
                        continue;
                    }
                    let w = cw(c);
                    if w == 0 {
                        if let Some(cell) = sc.cells.get_mut(&(y, x - 1)) {
                            cell.comb.push(c);
                        }
                        continue;
                    }
                    for k in 0..w as i32 {
                        sc.cells.insert(
                            (y, x + k),
                            Cell {
                                ch: Some(c),
                                comb: vec![],
                                sty,
                                cont: k > 0,
                            },
                        );
                        *sc.paints.entry((y, x + k)).or_insert(0) += 1;
                    }
                    x += w as i32;
                }
                Op::EraseLineRight => sc.erased_right.push((y, x)),
                o @ (Op::EraseLineLeft | Op::EraseLine | Op::EraseBelow | Op::EraseAll) => {
                    sc.erased_other.push(o)
                }
                o => sc.others.push(o),
            }
        }
        sc.sty = sty;
        sc.end = (x, y);
        Ok(sc)
    }
    pub fn char_at(&self, x: i32, y: i32) -> Option<char> {
        self.cells.get(&(y, x)).and_then(|c| c.ch)
    }
    /// the glyphs of a row between two columns, '\0' being used for unpainted cells
    pub fn row(&self, y: i32, x0: i32, x1: i32) -> Vec<Glyph> {
        let mut v = Vec::new();
        for x in x0..x1 {
            match self.cells.get(&(y, x)) {
                Some(c) if c.cont => {}
                Some(c) => {
                    v.push((c.ch.unwrap_or(' '), c.sty));
                    for k in &c.comb {
                        v.push((*k, c.sty));
                    }
                }
                None => v.push(('\0', Sty::default())),
            }
        }
        v
    }
    pub fn row_text(&self, y: i32, x0: i32, x1: i32) -> String {
        self.row(y, x0, x1)
            .into_iter()
            .map(|(c, _)| if c == '\0' { '·' } else { c })
            .collect()
    }
}
