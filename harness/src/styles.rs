//! Styles: C16 (skin serialization), C17 (style parsing), C18 (style changes),
//! C19 (no style and ascii skins)

use {
    crate::{
        core::*,
        gen::*,
        render::{parse_ok, s, u},
        term::*,
    },
    serde_json::{json, Map, Value},
    termimad::{
        coolor,
        crossterm::{style::{Attribute, Color}, terminal::ClearType},
        minimad, *,
    },
};

// ---------------------------------------------------------------- probes

/// a text with all kinds of lines and styles
pub static PROBE: &str = "# one *i*
## two `c`
### three
#### four
##### five
###### six
####### seven
######## eight
para **bold** *italic* ~~strike~~ `code` ***~~all~~*** plain and some more words to wrap
* item which is long enough to be wrapped in a narrow area
  * deep **item** which is long enough to be wrapped too
> quote *it* and words
-----
|:-:|-:|
|**a**|b|
|-|-|
|c|`d` some more|
|-|-|
end
```
code **x** y
```
";

/// everything a skin paints, for a text
fn renderings(skin: &MadSkin, md: &str, width: usize) -> Result<Vec<Vec<Glyph>>, Viol> {
    let mut v = Vec::new();
    v.extend(lines_of(&skin.text(md, Some(width)).to_string())?);
    v.extend(lines_of(&skin.text(md, None).to_string())?);
    v.extend(lines_of(&skin.inline(md.lines().next().unwrap_or("")).to_string())?);
    // ellipsis
    let mut b = Vec::new();
    let src = "**some** text *which* must be cut";
    skin.write_composite_fill(&mut b, minimad::Composite::from_inline(src), 12, Alignment::Left)
        .unwrap();
    v.extend(lines_of(&String::from_utf8_lossy(&b))?);
    // views and scrollbar
    let area = Area::new(1, 1, width.clamp(5, 300) as u16, 6);
    let mut b = Vec::new();
    let text = skin.area_text(md, &area);
    let mut view = TextView::from(&area, &text);
    view.scroll = 2;
    view.write_on(&mut b).unwrap();
    let sc = Screen::of(&b)?;
    for y in 0..9 {
        v.push(sc.row(y, 0, width as i32 + 4));
    }
    Ok(v)
}

pub fn same_rendering(
    a: &MadSkin,
    b: &MadSkin,
    md: &str,
    width: usize,
    what: &str,
    obs: &mut Obs,
) -> R {
    let ra = renderings(a, md, width)?;
    let rb = renderings(b, md, width)?;
    ensure!(ra.len() == rb.len(), format!("{what}: lines"), "{} / {} lines for {md:?}", ra.len(), rb.len());
    for (la, lb) in ra.iter().zip(&rb) {
        obs.ev("compared_lines", 1);
        obs.ev("compared_glyphs", la.len() as u64);
        if la != lb {
            let i = la.iter().zip(lb).take_while(|(x, y)| x == y).count();
            return viol(
                what,
                format!(
                    "line {:?} / {:?} at glyph {i}: {:?} / {:?}",
                    plain(la),
                    plain(lb),
                    la.get(i),
                    lb.get(i)
                ),
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Color(Color),
    Attr(Attribute),
    Align(Alignment),
    Dim(u16),
    Char(char),
    None,
}

static COLOR_NAMES: &[(&str, Color)] = &[
    // black and white are deliberately absolute colors
    ("black", Color::AnsiValue(16)),
    ("white", Color::AnsiValue(231)),
    ("blue", Color::Blue),
    ("cyan", Color::Cyan),
    ("darkblue", Color::DarkBlue),
    ("darkcyan", Color::DarkCyan),
    ("darkgreen", Color::DarkGreen),
    ("darkgrey", Color::DarkGrey),
    ("darkgray", Color::DarkGrey),
    ("reset", Color::Reset),
    ("darkmagenta", Color::DarkMagenta),
    ("darkred", Color::DarkRed),
    ("darkyellow", Color::DarkYellow),
    ("green", Color::Green),
    ("grey", Color::Grey),
    ("magenta", Color::Magenta),
    ("red", Color::Red),
    ("yellow", Color::Yellow),
];

static ATTR_NAMES: &[(&str, Attribute)] = &[
    ("bold", Attribute::Bold),
    ("crossedout", Attribute::CrossedOut),
    ("crossed_out", Attribute::CrossedOut),
    ("crossed-out", Attribute::CrossedOut),
    ("dim", Attribute::Dim),
    ("italic", Attribute::Italic),
    ("underlined", Attribute::Underlined),
    ("under_lined", Attribute::Underlined),
    ("under-lined", Attribute::Underlined),
    ("overlined", Attribute::OverLined),
    ("over_lined", Attribute::OverLined),
    ("over-lined", Attribute::OverLined),
    ("reverse", Attribute::Reverse),
    ("encircled", Attribute::Encircled),
    ("slowblink", Attribute::SlowBlink),
    ("slow_blink", Attribute::SlowBlink),
    ("slow-blink", Attribute::SlowBlink),
    ("rapidblink", Attribute::RapidBlink),
    ("rapid_blink", Attribute::RapidBlink),
    ("rapid-blink", Attribute::RapidBlink),
    ("strikeout", Attribute::CrossedOut),
    ("strike_out", Attribute::CrossedOut),
    ("strike-out", Attribute::CrossedOut),
];

static ALIGN_NAMES: &[(&str, Alignment)] = &[
    ("left", Alignment::Left),
    ("center", Alignment::Center),
    ("right", Alignment::Right),
];

static TOK_CHARS: &[char] = &[
    '*', '-', '|', '▐', '•', '~', '#', 'a', 'Z', '⟡', '○', '_', ',', '.', '>', '░', '一', '"', '\\', '²',
];

fn rand_case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_uppercase(),
        1 => {
            let mut c = s.chars();
            match c.next() {
                Some(f) => f.to_uppercase().chain(c).collect(),
                None => String::new(),
            }
        }
        2 => s
            .chars()
            .map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
        _ => s.to_string(),
    }
}

fn u8t(r: &mut Rng) -> u8 {
    *r.pick(&[0, 1, 9, 10, 99, 100, 127, 128, 200, 254, 255, r.0 as u8])
}

/// the canonical definition of a token
fn rand_color_def(r: &mut Rng) -> String {
    match r.below(9) {
        0 => format!("ansi({})", u8t(r)),
        1 => format!("{}({})", r.pick(&["gray", "grey", "grayscale", "greyscale"]).to_string(), r.below(24)),
        2 => format!("rgb({},{},{})", u8t(r), u8t(r), u8t(r)),
        3 => format!("rgb({}, {},  {})", u8t(r), u8t(r), u8t(r)),
        4 => format!("#{:02x}{:02x}{:02x}", u8t(r), u8t(r), u8t(r)),
        5 => format!("#{:x}{:x}{:x}", r.below(16), r.below(16), r.below(16)),
        _ => r.pick(COLOR_NAMES).0.to_string(),
    }
}

fn rand_def(r: &mut Rng) -> String {
    match r.below(9) {
        0 | 1 | 2 => rand_color_def(r),
        3 | 4 => r.pick(ATTR_NAMES).0.to_string(),
        5 => r.pick(ALIGN_NAMES).0.to_string(),
        6 => r.pick(&[0, 1, 4, 10, 255, 256, 65535, r.0 as u16]).to_string(),
        7 => r.pick(TOK_CHARS).to_string(),
        _ => "none".to_string(),
    }
}

/// Reference interpretation of a token. None when it's not a documented definition.
pub fn ref_token(s: &str) -> Option<Tok> {
    let mut chars = s.chars();
    let first = chars.next()?;
    if !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) {
        return s.parse::<u32>().ok().filter(|n| *n < 65536).map(|n| Tok::Dim(n as u16));
    }
    if chars.next().is_none() {
        return Some(Tok::Char(first));
    }
    let low = s.to_ascii_lowercase();
    if low == "none" {
        return Some(Tok::None);
    }
    if let Some((_, c)) = COLOR_NAMES.iter().find(|(n, _)| *n == low) {
        return Some(Tok::Color(*c));
    }
    if let Some((_, a)) = ATTR_NAMES.iter().find(|(n, _)| *n == low) {
        return Some(Tok::Attr(*a));
    }
    if let Some((_, a)) = ALIGN_NAMES.iter().find(|(n, _)| *n == low) {
        return Some(Tok::Align(*a));
    }
    if let Some(hex) = low.strip_prefix('#') {
        if !hex.chars().all(|c| c.is_ascii_hexdigit()) {
            return None;
        }
        let d: Vec<u8> = hex.chars().map(|c| c.to_digit(16).unwrap() as u8).collect();
        return match d.len() {
            3 => Some(Tok::Color(rgb(d[0] * 17, d[1] * 17, d[2] * 17))),
            6 => Some(Tok::Color(rgb(d[0] * 16 + d[1], d[2] * 16 + d[3], d[4] * 16 + d[5]))),
            _ => None,
        };
    }
    let (name, args) = low.strip_suffix(')')?.split_once('(')?;
    let args: Vec<&str> = args.split(',').collect();
    let mut nums = Vec::new();
    for (i, a) in args.iter().enumerate() {
        let a = if i > 0 { a.trim_start() } else { a };
        if a.is_empty() || !a.chars().all(|c| c.is_ascii_digit()) {
            return None;
        }
        nums.push(a.parse::<u64>().ok().filter(|n| *n < 256)? as u8);
    }
    match (name, nums.as_slice()) {
        ("ansi", [n]) => Some(Tok::Color(Color::AnsiValue(*n))),
        ("gray" | "grey" | "grayscale" | "greyscale", [n]) if *n < 24 => {
            Some(Tok::Color(Color::AnsiValue(232 + n)))
        }
        ("rgb", [r, g, b]) => Some(Tok::Color(rgb(*r, *g, *b))),
        _ => None,
    }
}

fn tok_of(t: &StyleToken) -> Tok {
    match t {
        StyleToken::Char(c) => Tok::Char(*c),
        StyleToken::Color(c) => Tok::Color(*c),
        StyleToken::Attribute(a) => Tok::Attr(*a),
        StyleToken::Align(a) => Tok::Align(*a),
        StyleToken::Dimension(d) => Tok::Dim(*d),
        StyleToken::None => Tok::None,
    }
}

/// what's compared of a style: colors are compared as they are painted
fn ctok(t: &Tok) -> String {
    match t {
        Tok::Color(c) => format!("Color({:?})", col(*c)),
        t => format!("{t:?}"),
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Style {
    sty: Sty,
    align: Option<&'static str>,
    left: usize,
    right: usize,
    ch: Option<char>,
}

fn align_name(a: Alignment) -> Option<&'static str> {
    match a {
        Alignment::Unspecified => None,
        Alignment::Left => Some("left"),
        Alignment::Center => Some("center"),
        Alignment::Right => Some("right"),
    }
}

fn attr_bit(a: Attribute) -> u32 {
    ATTRS.iter().find(|(b, _)| *b == a).map_or(0, |(_, bit)| *bit)
}

/// meaning of a sequence of tokens having at most two colors, one alignment,
/// two dimensions, one char
fn ref_style(toks: &[Tok]) -> Style {
    let mut st = Style::default();
    let mut ncol = 0;
    let mut ndim = 0;
    for t in toks {
        match t {
            Tok::Color(c) => {
                if ncol == 0 {
                    st.sty.fg = col(*c);
                } else {
                    st.sty.bg = col(*c);
                }
                ncol += 1;
            }
            Tok::None => ncol += 1,
            Tok::Attr(a) => st.sty.attrs |= attr_bit(*a),
            Tok::Align(a) => st.align = align_name(*a),
            Tok::Dim(d) => {
                if ndim == 0 {
                    st.left = *d as usize;
                } else {
                    st.right = *d as usize;
                }
                ndim += 1;
            }
            Tok::Char(c) => st.ch = st.ch.or(Some(*c)),
        }
    }
    st
}

fn style_of_ls(l: &LineStyle) -> Style {
    Style {
        sty: sty_of(&l.compound_style),
        align: align_name(l.align),
        left: l.left_margin,
        right: l.right_margin,
        ch: None,
    }
}

/// limits a sequence of definitions to what has a specified meaning
fn limited(defs: Vec<String>) -> Vec<String> {
    let (mut c, mut a, mut d, mut k) = (0, 0, 0, 0);
    defs.into_iter()
        .filter(|s| {
            let n = match ref_token(s) {
                Some(Tok::Color(_)) => {
                    c += 1;
                    return c <= 2;
                }
                Some(Tok::None) => {
                    c += 1;
                    return c <= 2;
                }
                Some(Tok::Align(_)) => &mut a,
                Some(Tok::Dim(_)) => {
                    d += 1;
                    return d <= 2;
                }
                Some(Tok::Char(_)) => &mut k,
                _ => return true,
            };
            *n += 1;
            *n <= 1
        })
        .collect()
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .into_iter()
        .flatten()
        .filter_map(|s| s.as_str().map(|s| s.to_string()))
        .collect()
}

// ---------------------------------------------------------------- C17

pub struct C17;

/// a definition which isn't a documented one, made from documented ones
fn mutated(r: &mut Rng) -> String {
    for _ in 0..50 {
        let d = rand_def(r);
        let mut c: Vec<char> = d.chars().collect();
        let junk = *r.pick(&['x', 's', 'd', 'e', '_', '-', 'é', '#', 'a', '0', '9', '.', '1']);
        match r.below(10) {
            0 => c.insert(0, junk),
            1 => c.push(junk),
            9 => {
                // a part is repeated
                let i = r.below(c.len());
                let j = r.range(i + 1, c.len());
                let part: Vec<char> = c[i..j].to_vec();
                for (k, ch) in part.into_iter().enumerate() {
                    c.insert(j + k, ch);
                }
            }
            2 => {
                let i = r.below(c.len() + 1);
                c.insert(i, junk)
            }
            3 => {
                let i = r.below(c.len());
                c.remove(i);
            }
            4 => {
                let i = r.below(c.len());
                c[i] = junk;
            }
            5 => {
                c.extend(rand_def(r).chars());
            }
            6 => {
                c = format!("{}{}", r.pick(&["light", "dark", "no", "un", "not", "very", "bright"]), d).chars().collect();
            }
            7 => {
                // out of range values
                c = match r.below(7) {
                    0 => format!("gray({})", r.range(24, 300)),
                    1 => format!("ansi({})", r.range(256, 1000)),
                    2 => format!("rgb({},{},{})", u8t(r), r.range(256, 300), u8t(r)),
                    3 => format!("rgb({},{})", u8t(r), u8t(r)),
                    4 => format!("rgb({},{},{},{})", u8t(r), u8t(r), u8t(r), u8t(r)),
                    5 => format!("#{}", "12ab3c4".chars().take(*r.pick(&[1, 2, 4, 5, 7])).collect::<String>()),
                    _ => r.range(65536, 1_000_000).to_string(),
                }
                .chars()
                .collect();
            }
            _ => {
                let n = r.range(1, c.len());
                c.truncate(n);
            }
        }
        let s: String = c.into_iter().collect();
        // the token limits must stay the same
        let lonely = s.chars().all(|c| !c.is_whitespace() && c != '(' && c != ')')
            || (s.ends_with(')') && s.matches('(').count() == 1 && s.matches(')').count() == 1 && {
                let i = s.find('(').unwrap();
                i > 0 && s[i + 1..s.len() - 1].chars().all(|c| c.is_alphanumeric() || c == '_' || c == ',' || c == ' ')
                    && s.len() > i + 2
                    && !s[..i].contains(' ')
            });
        // (whether a gray without level is a color isn't specified)
        if lonely && !s.starts_with('+') && !s.eq_ignore_ascii_case("gray") && ref_token(&s).is_none() {
            return s;
        }
    }
    "pissenlit".to_string()
}

impl Check for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "random sequences of documented tokens in any order, case and separation, given to parse_style_token(s), parse_compound_style, parse_line_style, parse_styled_char, parse_color, parse_attribute, parse_align and compared to an independent interpretation; sequences with a token altered so as not to be a documented one anymore; random styles written with all the writers then parsed; non trivial when there are at least 2 tokens"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a sequence has at most two colors, one alignment, two dimensions and one char, 'none' taking the place of one of the colors",
            "a char token isn't a digit, a parenthesis or a whitespace",
        ]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 20_000_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["sequences", "refused", "roundtrips", "tok_color", "tok_attr", "tok_align", "tok_dim", "tok_char", "tok_none"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let mut defs = Vec::new();
        for _ in 0..r.range(0, 6) {
            let d = rand_def(r);
            defs.push(if d.chars().count() == 1 { d } else { rand_case(r, &d) });
        }
        let defs = limited(defs);
        let sep = *r.pick(&[" ", " ", "  ", "\t", "\n"]);
        json!({
            "defs": defs,
            "sep": sep,
            "lead": r.chance(1, 4),
            "bad": if r.chance(1, 3) { let b = mutated(r); json!(b) } else { Value::Null },
            "bad_at": r.below(7),
            "_style": r.u64() % 1_000_000_007,
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let defs = limited(strs(&case["defs"]));
        if defs.iter().any(|d| ref_token(d).is_none()) {
            return Ok(()); // from the shrinking
        }
        let toks: Vec<Tok> = defs.iter().map(|d| ref_token(d).unwrap()).collect();
        if toks.iter().any(|t| matches!(t, Tok::Char(c) if c.is_whitespace() || "()".contains(*c))) {
            return Ok(());
        }
        let sep = match s(case, "sep") {
            "" => " ",
            s => s,
        };
        let mut src = defs.join(sep);
        if case["lead"].as_bool().unwrap_or(false) {
            src = format!("{sep}{src}{sep}");
        }
        // tokens alone
        for (d, t) in defs.iter().zip(&toks) {
            let got = match parse_style_token(d) {
                Ok(g) => tok_of(&g),
                Err(e) => return viol("documented token refused", format!("{d:?}: {e}")),
            };
            ensure!(ctok(&got) == ctok(t), "token misinterpreted", "{d:?} gives {got:?} instead of {t:?}");
            match t {
                Tok::Color(c) => {
                    obs.ev("tok_color", 1);
                    let g = parse_color(d);
                    ensure!(matches!(&g, Ok(g) if col(*g) == col(*c)), "parse_color", "{d:?}: {g:?}");
                    ensure!(parse_attribute(d).is_err(), "color taken for an attribute", "{d:?}");
                    ensure!(parse_align(d).is_err(), "color taken for an alignment", "{d:?}");
                }
                Tok::Attr(a) => {
                    obs.ev("tok_attr", 1);
                    let g = parse_attribute(d);
                    ensure!(matches!(&g, Ok(g) if g == a), "parse_attribute", "{d:?}: {g:?}");
                    ensure!(parse_color(d).is_err(), "attribute taken for a color", "{d:?}");
                    ensure!(parse_align(d).is_err(), "attribute taken for an alignment", "{d:?}");
                }
                Tok::Align(a) => {
                    obs.ev("tok_align", 1);
                    let g = parse_align(d);
                    ensure!(matches!(&g, Ok(g) if g == a), "parse_align", "{d:?}: {g:?}");
                    ensure!(parse_color(d).is_err(), "alignment taken for a color", "{d:?}");
                    ensure!(parse_attribute(d).is_err(), "alignment taken for an attribute", "{d:?}");
                }
                Tok::Dim(_) => obs.ev("tok_dim", 1),
                Tok::Char(_) => obs.ev("tok_char", 1),
                Tok::None => obs.ev("tok_none", 1),
            }
        }
        obs.ev("sequences", 1);
        let want = ref_style(&toks);
        match parse_style_tokens(&src) {
            Ok(g) => {
                let g: Vec<String> = g.iter().map(|t| ctok(&tok_of(t))).collect();
                let w: Vec<String> = toks.iter().map(ctok).collect();
                ensure!(g == w, "sequence of tokens", "{src:?}: {g:?} instead of {w:?}");
            }
            Err(e) => return viol("documented sequence refused", format!("{src:?}: {e}")),
        }
        match parse_compound_style(&src) {
            Ok(cs) => ensure!(sty_of(&cs) == want.sty, "compound style", "{src:?}: {:?} instead of {:?}", sty_of(&cs), want.sty),
            Err(e) => return viol("compound style refused", format!("{src:?}: {e}")),
        }
        match parse_line_style(&src) {
            Ok(ls) => {
                let got = style_of_ls(&ls);
                let want = Style { ch: None, ..want.clone() };
                ensure!(got == want, "line style", "{src:?}: {got:?} instead of {want:?}");
            }
            Err(e) => return viol("line style refused", format!("{src:?}: {e}")),
        }
        match parse_styled_char(&src, '\u{2603}') {
            Ok(sc) => {
                let w = want.ch.unwrap_or('\u{2603}');
                ensure!(sc.nude_char() == w, "styled char", "{src:?}: {:?}", sc.nude_char());
                ensure!(sty_of(sc.compound_style()) == want.sty, "styled char style", "{src:?}: {sc:?}");
            }
            Err(e) => return viol("styled char refused", format!("{src:?}: {e}")),
        }
        // serde gives the same
        match serde_json::from_value::<LineStyle>(json!(src)) {
            Ok(ls) => {
                let want = Style { ch: None, ..want.clone() };
                ensure!(style_of_ls(&ls) == want, "deserialized line style", "{src:?}: {ls:?}")
            }
            Err(e) => return viol("line style not deserialized", format!("{src:?}: {e}")),
        }
        if toks.len() >= 2 {
            obs.nontrivial(hash_str(&src));
            obs.sample(json!({"definition": src, "meaning": format!("{want:?}")}));
        }
        // refusal
        if let Some(bad) = case["bad"].as_str() {
            let shaped = !bad.is_empty() && !bad.eq_ignore_ascii_case("gray") && !bad.contains('+');
            if shaped && ref_token(bad).is_none() {
                let mut v = defs.clone();
                v.insert(u(case, "bad_at").min(v.len()), bad.to_string());
                let src = v.join(" ");
                let pieces = bad.chars().any(|c| c.is_whitespace() || c == '(' || c == ')');
                if !pieces {
                    obs.ev("refused", 1);
                    let g = parse_style_token(bad);
                    ensure!(g.is_err(), "unknown token accepted", "{bad:?} is read as {g:?}");
                    ensure!(parse_style_tokens(&src).is_err(), "unknown token accepted in a sequence", "{src:?}");
                    ensure!(parse_compound_style(&src).is_err(), "unknown token accepted in a style", "{src:?}");
                    ensure!(parse_line_style(&src).is_err(), "unknown token accepted in a style", "{src:?}");
                    ensure!(parse_styled_char(&src, '*').is_err(), "unknown token accepted in a style", "{src:?}");
                    ensure!(parse_color(bad).is_err() && parse_attribute(bad).is_err() && parse_align(bad).is_err(), "unknown name accepted", "{bad:?}");
                    ensure!(serde_json::from_value::<CompoundStyle>(json!(src)).is_err(), "unknown token deserialized", "{src:?}");
                    ensure!(serde_json::from_value::<StyledChar>(json!(src)).is_err(), "unknown token deserialized", "{src:?}");
                } else if bad.ends_with(')') && bad.matches('(').count() == 1 {
                    obs.ev("refused_functions", 1);
                    let g = parse_style_token(bad);
                    ensure!(g.is_err(), "unknown token accepted", "{bad:?} is read as {g:?}");
                    ensure!(parse_color(bad).is_err(), "unknown color accepted", "{bad:?}");
                    ensure!(parse_compound_style(&src).is_err(), "unknown token accepted in a style", "{src:?}");
                }
            }
        }
        // round trips
        let mut r = Rng::new(case["_style"].as_u64().unwrap_or(0));
        let r = &mut r;
        let mut ls = LineStyle::new(rand_cs(r), rand_align(r));
        if r.chance(1, 6) {
            ls.add_attr(*r.pick(&[Attribute::SlowBlink, Attribute::RapidBlink]));
        }
        if r.bool() {
            ls.left_margin = *r.pick(&[0, 1, 4, 255, 65535, 65536, 70000]);
            ls.right_margin = *r.pick(&[0, 1, 4, 255, 65535, 65536, 131_072]);
        }
        let sc = StyledChar::new(ls.compound_style.clone(), *r.pick(TOK_CHARS));
        obs.ev("roundtrips", 1);
        let clamp = |mut s: Style| {
            // more than any terminal width
            s.left = s.left.min(65535);
            s.right = s.right.min(65535);
            s
        };
        let mut forms: Vec<String> = Vec::new();
        let mut toks = Vec::new();
        ls.push_style_tokens(&mut toks);
        forms.push(ls.to_style_tokens_string());
        forms.push(style_tokens_to_string(&toks));
        let mut b = Vec::new();
        write_style_tokens(&mut b, &toks).unwrap();
        forms.push(String::from_utf8_lossy(&b).to_string());
        forms.push(toks.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" "));
        if let Ok(Value::String(s)) = serde_json::to_value(&ls) {
            forms.push(s);
        } else {
            return viol("line style not serialized", format!("{ls:?}"));
        }
        let want = clamp(style_of_ls(&ls));
        for f in &forms {
            match parse_line_style(f) {
                Ok(g) => {
                    ensure!(style_of_ls(&g) == want, "line style changed by writing and parsing", "{f:?}: {:?} instead of {want:?}", style_of_ls(&g));
                }
                Err(e) => return viol("written line style refused", format!("{f:?}: {e}")),
            }
        }
        let mut toks = Vec::new();
        sc.push_style_tokens(&mut toks);
        let mut b = Vec::new();
        write_style_tokens(&mut b, &toks).unwrap();
        for f in [
            sc.to_style_tokens_string(),
            style_tokens_to_string(&toks),
            String::from_utf8_lossy(&b).to_string(),
            serde_json::to_value(&sc).ok().and_then(|v| v.as_str().map(|s| s.to_string())).unwrap_or_default(),
        ] {
            match parse_styled_char(&f, '\u{2603}') {
                Ok(g) => ensure!(
                    g.nude_char() == sc.nude_char() && sty_of(g.compound_style()) == sty_of(sc.compound_style()),
                    "styled char changed by writing and parsing",
                    "{f:?}: {g:?} instead of {sc:?}"
                ),
                Err(e) => return viol("written styled char refused", format!("{f:?}: {e}")),
            }
        }
        let cs = &ls.compound_style;
        for f in [
            cs.to_style_tokens_string(),
            serde_json::to_value(cs).ok().and_then(|v| v.as_str().map(|s| s.to_string())).unwrap_or_default(),
        ] {
            match parse_compound_style(&f) {
                Ok(g) => ensure!(sty_of(&g) == sty_of(cs), "compound style changed by writing and parsing", "{f:?}: {g:?} instead of {cs:?}"),
                Err(e) => return viol("written compound style refused", format!("{f:?}: {e}")),
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C16

pub struct C16;

/// definition of a style value for a partial skin
fn rand_value(r: &mut Rng, kind: char) -> String {
    let mut defs = Vec::new();
    for _ in 0..r.below(3) {
        defs.push(rand_color_def(r));
    }
    if defs.len() == 1 && r.chance(1, 4) {
        defs.insert(0, "none".to_string());
    }
    let mut others = Vec::new();
    for _ in 0..r.below(3) {
        others.push(r.pick(ATTR_NAMES).0.to_string());
    }
    if kind == 'l' {
        if r.bool() {
            others.push(r.pick(ALIGN_NAMES).0.to_string());
        }
        if r.bool() {
            let k = others.len();
            others.push(r.below(8).to_string());
            if r.bool() {
                others.push(r.below(8).to_string());
            }
            let _ = k;
        }
    }
    for o in others {
        // dimensions have to stay ordered among them: no matter, they're read back
        let i = r.below(defs.len() + 1);
        defs.insert(i, o);
    }
    if kind == 'c' {
        let i = r.below(defs.len() + 1);
        defs.insert(i, r.pick(&["•", "*", "-", "⟩", "▐", "|", "#", "o"]).to_string());
    }
    let defs: Vec<String> = defs
        .into_iter()
        .map(|d| if d.chars().count() > 1 { rand_case(r, &d) } else { d })
        .collect();
    limited(defs).join(" ")
}

/// keys with their kind
static KEYS: &[(&str, char)] = &[
    ("bold", 's'),
    ("italic", 's'),
    ("strikeout", 's'),
    ("inline_code", 's'),
    ("inline-code", 's'),
    ("ellipsis", 's'),
    ("bullet", 'c'),
    ("quote_mark", 'c'),
    ("quote", 'c'),
    ("quote-mark", 'c'),
    ("horizontal_rule", 'c'),
    ("horizontal-rule", 'c'),
    ("rule", 'c'),
    ("paragraph", 'l'),
    ("code_block", 'l'),
    ("code-block", 'l'),
    ("table", 'l'),
    ("scrollbar", 'b'),
    ("headers", 'h'),
    ("table_border_chars", 't'),
    ("table-border-chars", 't'),
    ("list_items_indentation_mode", 'm'),
    ("list-items-indentation-mode", 'm'),
];

fn toks_of(def: &str) -> Vec<Tok> {
    split_def(def).iter().filter_map(|s| ref_token(s)).collect()
}

fn split_def(def: &str) -> Vec<String> {
    // splitting on spaces outside of parentheses
    let mut v: Vec<String> = vec![String::new()];
    let mut depth = 0;
    for c in def.chars() {
        match c {
            '(' => depth += 1,
            ')' => depth -= 1,
            _ => {}
        }
        if c.is_whitespace() && depth == 0 {
            v.push(String::new());
        } else {
            v.last_mut().unwrap().push(c);
        }
    }
    v.retain(|s| !s.is_empty());
    v
}

fn ref_cs(def: &str) -> CompoundStyle {
    let mut cs = CompoundStyle::default();
    let mut n = 0;
    for t in toks_of(def) {
        match t {
            Tok::Color(c) => {
                if n == 0 {
                    cs.object_style.foreground_color = Some(c);
                } else {
                    cs.object_style.background_color = Some(c);
                }
                n += 1;
            }
            Tok::None => n += 1,
            Tok::Attr(a) => cs.object_style.attributes.set(a),
            _ => {}
        }
    }
    cs
}

fn ref_ls(def: &str) -> LineStyle {
    let st = ref_style(&toks_of(def));
    let mut ls = LineStyle::new(ref_cs(def), Alignment::Unspecified);
    ls.align = match st.align {
        Some("left") => Alignment::Left,
        Some("center") => Alignment::Center,
        Some("right") => Alignment::Right,
        _ => Alignment::Unspecified,
    };
    ls.left_margin = st.left;
    ls.right_margin = st.right;
    ls
}

fn ref_sc(def: &str) -> StyledChar {
    StyledChar::new(ref_cs(def), ref_style(&toks_of(def)).ch.unwrap_or('*'))
}

fn rand_skin_value(r: &mut Rng, kind: char) -> Value {
    match kind {
        'b' => {
            if r.bool() {
                json!(rand_value(r, 'c'))
            } else {
                json!({"track": rand_value(r, 'c'), "thumb": rand_value(r, 'c')})
            }
        }
        'h' => {
            if r.bool() {
                json!(rand_value(r, 'l'))
            } else {
                let n = r.range(0, 9);
                json!((0..n).map(|_| rand_value(r, 'l')).collect::<Vec<_>>())
            }
        }
        't' => json!(r.pick(&["standard", "ascii", "rounded"])),
        'm' => json!(r.pick(&["block", "first_line_only", "first-line-only"])),
        k => json!(rand_value(r, k)),
    }
}

/// the skin meant by a partial definition
fn ref_skin(entries: &[(String, Value)]) -> MadSkin {
    let mut k = MadSkin::default();
    for (key, v) in entries {
        let d = v.as_str().unwrap_or("");
        match key.replace('-', "_").as_str() {
            "bold" => k.bold = ref_cs(d),
            "italic" => k.italic = ref_cs(d),
            "strikeout" => k.strikeout = ref_cs(d),
            "inline_code" => k.inline_code = ref_cs(d),
            "ellipsis" => k.ellipsis = ref_cs(d),
            "bullet" => k.bullet = ref_sc(d),
            "quote" | "quote_mark" => k.quote_mark = ref_sc(d),
            "rule" | "horizontal_rule" => k.horizontal_rule = ref_sc(d),
            "paragraph" => k.paragraph = ref_ls(d),
            "code_block" => k.code_block = ref_ls(d),
            "table" => k.table = ref_ls(d),
            "scrollbar" => {
                if v.is_string() {
                    // first color for the thumb, second one for the track
                    let sc = ref_sc(d);
                    let def = ScrollBarStyle::new();
                    k.scrollbar.thumb = StyledChar::from_fg_char(
                        sc.get_fg().or(def.thumb.get_fg()).unwrap(),
                        sc.nude_char(),
                    );
                    k.scrollbar.track = StyledChar::from_fg_char(
                        sc.get_bg().or(def.track.get_fg()).unwrap(),
                        sc.nude_char(),
                    );
                } else {
                    k.scrollbar.track = ref_sc(v["track"].as_str().unwrap_or(""));
                    k.scrollbar.thumb = ref_sc(v["thumb"].as_str().unwrap_or(""));
                }
            }
            "headers" => {
                if let Some(a) = v.as_array() {
                    for (h, d) in k.headers.iter_mut().zip(a) {
                        *h = ref_ls(d.as_str().unwrap_or(""));
                    }
                } else {
                    let ls = ref_ls(d);
                    for h in k.headers.iter_mut() {
                        if let Some(c) = ls.compound_style.get_fg() {
                            h.compound_style.object_style.foreground_color = Some(c);
                        }
                        if let Some(c) = ls.compound_style.get_bg() {
                            h.compound_style.object_style.background_color = Some(c);
                        }
                        for (a, _) in ATTRS {
                            if ls.compound_style.object_style.attributes.has(*a) {
                                h.compound_style.object_style.attributes.set(*a);
                            }
                        }
                        if ls.align != Alignment::Unspecified {
                            h.align = ls.align;
                        }
                        if ls.left_margin > 0 {
                            h.left_margin = ls.left_margin;
                        }
                        if ls.right_margin > 0 {
                            h.right_margin = ls.right_margin;
                        }
                    }
                }
            }
            "table_border_chars" => {
                k.table_border_chars = match d {
                    "ascii" => ASCII_TABLE_BORDER_CHARS,
                    "rounded" => ROUNDED_TABLE_BORDER_CHARS,
                    _ => STANDARD_TABLE_BORDER_CHARS,
                }
            }
            "list_items_indentation_mode" => {
                k.list_items_indentation_mode = match d {
                    "block" => ListItemsIndentationMode::Block,
                    _ => ListItemsIndentationMode::FirstLineOnly,
                }
            }
            _ => {}
        }
    }
    k
}

/// Add to a skin some expressible but unusual styles
fn spice(k: &mut MadSkin, r: &mut Rng) {
    for _ in 0..r.below(4) {
        match r.below(8) {
            0 => k.bold.set_fg(Color::Reset),
            1 => k.paragraph.set_bg(Color::Reset),
            2 => k.scrollbar = ScrollBarStyle {
                track: StyledChar::new(CompoundStyle::new(None, None, Attribute::Bold.into()), '|'),
                thumb: StyledChar::new(CompoundStyle::with_fg(rand_color(r)), '|'),
            },
            3 => {
                let c = *r.pick(&['|', '▐']);
                k.scrollbar = ScrollBarStyle {
                    track: StyledChar::from_fg_char(rand_color(r), c),
                    thumb: StyledChar::from_fg_char(rand_color(r), c),
                }
            }
            4 => {
                let c = StyledChar::new(rand_cs(r), '|');
                k.scrollbar = ScrollBarStyle { track: c.clone(), thumb: c };
            }
            5 => k.headers[r.below(8)].left_margin = *r.pick(&[3, 255, 256, 300, 65_535]),
            6 => k.italic.add_attr(*r.pick(&[Attribute::SlowBlink, Attribute::RapidBlink])),
            _ => k.inline_code = CompoundStyle::with_bg(*r.pick(&[Color::Black, Color::White, Color::DarkGrey, Color::Grey])),
        }
    }
}

impl Check for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "random skins serialized to JSON text and to a JSON value then deserialized from JSON (text, value, bytes) and Hjson, the two skins rendering a probe text with all kinds of lines, a random text, an elided line and a scrolled view identically; random partial skins with all key names and both forms of headers and scrollbar compared to skins built by an independent interpretation; partial skins with a wrong value refused; non trivial when the skin isn't a predefined one"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a skin without special_chars nor custom table border chars, with marker chars which aren't digits, whitespaces or parentheses"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 12_000 } else { 200_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["saved_skins", "partial_skins", "refused_skins", "compared_lines"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
        let n = r.range(0, 6);
        let entries: Vec<Value> = (0..n)
            .map(|_| {
                let (key, kind) = r.pick(KEYS);
                json!([key, rand_skin_value(r, *kind)])
            })
            .collect();
        let bad = if r.chance(1, 3) {
            let (key, kind) = *r.pick(KEYS);
            let v = if kind == 't' || kind == 'm' {
                r.pick(&[json!(3), json!(["ascii"]), json!(null), json!("fancy"), json!(""), json!("rounded2"), json!("red")]).clone()
            } else {
                match r.below(5) {
                    0 => r.pick(&[json!(3), json!(null), json!(true), json!({"a": "red"})]).clone(),
                    1 if kind != 'h' => json!([rand_value(r, 's')]),
                    2 if kind == 'h' => json!([rand_value(r, 'l'), mutated(r)]),
                    2 if kind == 'b' => json!({"track": rand_value(r, 'c')}),
                    3 if kind == 'b' => json!({"track": rand_value(r, 'c'), "thumb": mutated(r)}),
                    _ => {
                        let m = mutated(r);
                        if m.contains('(') {
                            json!("bold pissenlit")
                        } else {
                            json!(format!("{} {m}", rand_value(r, 's')))
                        }
                    }
                }
            };
            json!([key, v])
        } else {
            Value::Null
        };
        let blocks = r.range(1, 4);
        json!({
            "skin": rand_skin_seed(r),
            "spice": r.u64() % 1_000_000_007,
            "md": text_md(r, alpha, blocks),
            "width": rand_width(r),
            "entries": entries,
            "bad": bad,
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let md = s(case, "md");
        let width = u(case, "width").max(5);
        let seed = case["skin"].as_u64().unwrap_or(0);
        let mut k = skin(seed);
        let spice_seed = case["spice"].as_u64().unwrap_or(0);
        if spice_seed > 0 && seed > 4 {
            spice(&mut k, &mut Rng::new(spice_seed));
        }
        let texts: Vec<&str> = match parse_ok(md) {
            Some(_) => vec![PROBE, md],
            None => vec![PROBE],
        };
        obs.ev("saved_skins", 1);
        let text = match serde_json::to_string(&k) {
            Ok(t) => t,
            Err(e) => return viol("skin not serialized", format!("{e}")),
        };
        let value = serde_json::to_value(&k).unwrap();
        let mut loaded: Vec<(&str, MadSkin)> = Vec::new();
        macro_rules! load {
            ($name: expr, $e: expr) => {
                match $e {
                    Ok(k) => loaded.push(($name, k)),
                    Err(e) => return viol("saved skin not loaded", format!("{} from {text}: {e}", $name)),
                }
            };
        }
        load!("json text", serde_json::from_str::<MadSkin>(&text));
        match case["spice"].as_u64().unwrap_or(0) % 3 {
            0 => load!("json value", serde_json::from_value::<MadSkin>(value)),
            1 => load!("json reader", serde_json::from_reader::<_, MadSkin>(text.as_bytes())),
            _ => load!("hjson", deser_hjson::from_str::<MadSkin>(&serde_json::to_string_pretty(&k).unwrap())),
        }
        let border = k.table_border_chars;
        ensure!(
            border.key().and_then(TableBorderChars::by_key) == Some(border),
            "border key not giving back the border",
            "{:?}",
            border
        );
        for (name, l) in &loaded {
            for t in &texts {
                if let Err(v) = same_rendering(&k, l, t, width, "saved skin renders differently", obs) {
                    return viol(&v.sig, format!("{name}: {} with {text}", v.msg));
                }
            }
            // saving again must give the same thing
            let again = serde_json::to_string(l).unwrap_or_default();
            let again: MadSkin = match serde_json::from_str(&again) {
                Ok(k) => k,
                Err(e) => return viol("saved skin not loaded", format!("second save {again}: {e}")),
            };
            same_rendering(&k, &again, PROBE, width, "skin saved twice renders differently", obs)?;
        }
        if seed > 4 {
            obs.nontrivial(hash_str(&text));
            obs.sample(json!({"skin": serde_json::from_str::<Value>(&text).unwrap()}));
        }
        // partial skins
        let mut entries: Vec<(String, Value)> = Vec::new();
        for e in case["entries"].as_array().into_iter().flatten() {
            let Some(key) = e[0].as_str() else { continue };
            let Some((_, kind)) = KEYS.iter().find(|(k, _)| *k == key) else { continue };
            let canon = |k: &str| -> String {
                match k.replace('-', "_").as_str() {
                    "quote" => "quote_mark".to_string(),
                    "rule" => "horizontal_rule".to_string(),
                    k => k.to_string(),
                }
            };
            // no shrunken garbage
            let documented = |v: &Value| {
                let mut defs = vec![];
                match v {
                    Value::String(s) => defs.push(s.as_str()),
                    Value::Array(a) => defs.extend(a.iter().map(|v| v.as_str().unwrap_or("?!"))),
                    Value::Object(o) => defs.extend(o.values().map(|v| v.as_str().unwrap_or("?!"))),
                    _ => defs.push("?!"),
                }
                defs.iter().all(|d| split_def(d).iter().all(|t| ref_token(t).is_some()))
            };
            let ok = (matches!(*kind, 't' | 'm') || documented(&e[1])) && match kind {
                'b' if e[1].is_object() => e[1]["track"].is_string() && e[1]["thumb"].is_string(),
                'b' => e[1].is_string() && ref_style(&toks_of(e[1].as_str().unwrap())).ch.is_some(),
                'h' => e[1].is_array() || e[1].is_string(),
                't' => ["standard", "ascii", "rounded"].contains(&e[1].as_str().unwrap_or("")),
                'm' => ["block", "first_line_only", "first-line-only"].contains(&e[1].as_str().unwrap_or("")),
                'c' => e[1].as_str().map_or(false, |d| ref_style(&toks_of(d)).ch.is_some()),
                _ => e[1].is_string(),
            };
            if ok && !entries.iter().any(|(k, _)| canon(k) == canon(key)) {
                entries.push((key.to_string(), e[1].clone()));
            }
        }
        obs.ev("partial_skins", 1);
        let mut o = Map::new();
        for (k, v) in &entries {
            o.insert(k.clone(), v.clone());
        }
        let src = serde_json::to_string(&Value::Object(o.clone())).unwrap();
        let want = ref_skin(&entries);
        let got: MadSkin = match serde_json::from_str(&src) {
            Ok(k) => k,
            Err(e) => return viol("partial skin refused", format!("{src}: {e}")),
        };
        for t in &texts {
            if let Err(v) = same_rendering(&want, &got, t, width, "partial skin renders wrongly", obs) {
                return viol(&v.sig, format!("{} (expected / got) with {src}", v.msg));
            }
        }
        if let Ok(got) = deser_hjson::from_str::<MadSkin>(&src) {
            if let Err(v) = same_rendering(&want, &got, PROBE, width, "partial hjson skin renders wrongly", obs) {
                return viol(&v.sig, format!("{} (expected / got) with {src}", v.msg));
            }
        } else {
            return viol("partial hjson skin refused", src);
        }
        // wrong values
        if let Some(key) = case["bad"][0].as_str() {
            if KEYS.iter().any(|(k, _)| *k == key) && !case["bad"][1].is_null() {
                let bad = &case["bad"][1];
                let harmless = match bad {
                    Value::String(d) => {
                        d.contains(['(', ')', '+']) || d.split_whitespace().all(|t| ref_token(t).is_some())
                    }
                    Value::Array(a) => a.iter().all(|v| v.as_str().map_or(false, |d| d.contains(['(', ')']) || d.split_whitespace().all(|t| ref_token(t).is_some()))) && key == "headers",
                    Value::Object(m) => {
                        key == "scrollbar"
                            && m.len() == 2
                            && m.values().all(|v| v.as_str().map_or(true, |d| d.contains(['(', ')']) || d.split_whitespace().all(|t| ref_token(t).is_some())))
                    }
                    _ => false,
                };
                // those aren't defined by style tokens
                let named = key.contains("border") || key.contains("indentation");
                let harmless = if named {
                    matches!(bad.as_str(), Some("standard" | "ascii" | "rounded" | "block" | "first_line_only" | "first-line-only"))
                } else {
                    harmless
                };
                if !harmless {
                    obs.ev("refused_skins", 1);
                    let mut o = o.clone();
                    o.insert(key.to_string(), bad.clone());
                    let src = serde_json::to_string(&Value::Object(o)).unwrap();
                    ensure!(serde_json::from_str::<MadSkin>(&src).is_err(), "wrong value accepted", "{key}: {bad} in {src}");
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C18

pub struct C18;

/// the model of a styled char
#[derive(Clone)]
struct MChar {
    cs: CompoundStyle,
    ch: char,
}

fn color_from(v: u64) -> Color {
    let mut r = Rng::new(v);
    rand_color(&mut r)
}

/// rgb components of a color, when they're known
fn rgb_of(c: Color) -> Option<(f64, f64, f64)> {
    match c {
        Color::Rgb { r, g, b } => Some((r as f64, g as f64, b as f64)),
        // the correspondence is the one of the coolor crate
        Color::AnsiValue(v) if v >= 16 => {
            let c = coolor::Color::from(v).rgb();
            Some((c.r as f64, c.g as f64, c.b as f64))
        }
        _ => None,
    }
}

fn is_gray(c: (f64, f64, f64)) -> bool {
    c.0 == c.1 && c.1 == c.2
}

/// Check a blended color. Conversions between color spaces lose some units.
fn check_blend(src: Option<Color>, dest: Color, w: f64, got: Option<Color>, what: &str, obs: &mut Obs) -> R {
    const TOL: f64 = 7.0;
    let (src, got) = match (src, got) {
        (None, None) => return Ok(()),
        (Some(s), Some(g)) => (s, g),
        (s, g) => return viol(&format!("blending {what}: color appearing or vanishing"), format!("{s:?} -> {g:?}")),
    };
    let (Some(s), Some(d), Some(g)) = (rgb_of(src), rgb_of(dest), rgb_of(got)) else {
        return Ok(());
    };
    let near = |a: (f64, f64, f64), b: (f64, f64, f64)| {
        (a.0 - b.0).abs() <= TOL && (a.1 - b.1).abs() <= TOL && (a.2 - b.2).abs() <= TOL
    };
    obs.ev("blended_colors", 1);
    if w == 0.0 {
        ensure!(near(s, g), format!("blending {what} with weight 0"), "{src:?} became {got:?}");
    }
    if w == 1.0 {
        ensure!(near(d, g), format!("blending {what} with weight 1"), "{got:?} instead of {dest:?}");
    }
    if is_gray(s) && is_gray(d) {
        let l = s.0 * (1.0 - w) + d.0 * w;
        obs.ev("proportional_blends", 1);
        ensure!(near((l, l, l), g), format!("blending {what} isn't proportional"), "{src:?} to {dest:?} with {w}: {got:?} instead of {l}");
    }
    Ok(())
}

fn show_char(sc: &StyledChar, how: u64) -> Result<Vec<Glyph>, Viol> {
    let mut b = Vec::new();
    let text = match how % 6 {
        0 => sc.to_string(),
        1 => {
            sc.queue(&mut b).unwrap();
            String::from_utf8_lossy(&b).to_string()
        }
        2 => sc.repeated(3).to_string(),
        3 => {
            sc.queue_repeat(&mut b, 3).unwrap();
            String::from_utf8_lossy(&b).to_string()
        }
        4 => sc.clone().to_string(),
        _ => sc.compound_style().style_char(sc.nude_char()).to_string(),
    };
    let lines = lines_of(&text)?;
    Ok(lines.into_iter().flatten().collect())
}

fn check_char(sc: &StyledChar, m: &MChar, step: &str, obs: &mut Obs) -> R {
    let want = sty_of(&m.cs);
    ensure!(sc.nude_char() == m.ch && sc.get_char() == m.ch, "char of the styled char", "{:?} instead of {:?} after {step}", sc.nude_char(), m.ch);
    ensure!(sty_of(sc.compound_style()) == want, "style of the styled char", "{:?} instead of {want:?} after {step}", sc.compound_style());
    ensure!(sc.get_fg().and_then(col) == want.fg && sc.get_bg().and_then(col) == want.bg, "colors of the styled char", "after {step}");
    for how in 0..6 {
        let g = show_char(sc, how)?;
        obs.ev("painted_chars", g.len() as u64);
        let n = if how == 2 || how == 3 { 3 } else { 1 };
        let w: Vec<Glyph> = vec![(m.ch, want); n];
        ensure!(g == w, format!("painting of the styled char (way {how})"), "{g:?} instead of {w:?} after {step}");
    }
    // a zero repetition paints nothing
    let mut b = Vec::new();
    sc.queue_repeat(&mut b, 0).unwrap();
    let l = lines_of(&String::from_utf8_lossy(&b))?;
    ensure!(l.iter().all(|l| l.is_empty()), "painting of nothing", "{b:?}");
    Ok(())
}

/// apply a mutation on a styled char and its model
fn mutate_char(sc: &mut StyledChar, m: &mut MChar, op: &Value, obs: &mut Obs) -> R {
    let c = color_from(u(op, "c") as u64);
    match s(op, "op") {
        "fg" => {
            sc.set_fg(c);
            m.cs.object_style.foreground_color = Some(c);
        }
        "bg" => {
            sc.set_bg(c);
            m.cs.object_style.background_color = Some(c);
        }
        "char" => {
            let ch = ['*', '-', '▐', 'é', '一'][u(op, "c") % 5];
            sc.set_char(ch);
            m.ch = ch;
        }
        "attr" => {
            let mut r = Rng::new(u(op, "c") as u64);
            let a = rand_attr(&mut r);
            let mut cs = sc.compound_style().clone();
            // it may already be there when added, or not be there when removed
            if u(op, "c") / 7 % 2 == 0 {
                cs.remove_attr(a);
                ensure!(!cs.has_attr(a), "attribute not removed", "{a:?}");
                m.cs.object_style.attributes.unset(a);
            } else {
                cs.add_attr(a);
                ensure!(cs.has_attr(a), "attribute not added", "{a:?}");
                m.cs.object_style.attributes.set(a);
            }
            ensure!(cs.attrs() == m.cs.object_style.attributes, "other attributes changed", "{cs:?} / {:?}", m.cs);
            sc.set_compound_style(cs);
        }
        "style" => {
            let mut r = Rng::new(u(op, "c") as u64);
            let cs = rand_cs(&mut r);
            m.cs = cs.clone();
            sc.set_compound_style(cs);
        }
        "blend" => {
            let (dest, w) = blend_of(op);
            let before = m.cs.clone();
            sc.blend_with(coolor::Color::from(dest), w);
            check_blend(before.get_fg(), dest, w as f64, sc.get_fg(), "foreground", obs)?;
            check_blend(before.get_bg(), dest, w as f64, sc.get_bg(), "background", obs)?;
            m.cs.object_style.foreground_color = sc.get_fg();
            m.cs.object_style.background_color = sc.get_bg();
        }
        _ => {}
    }
    Ok(())
}

fn blend_of(op: &Value) -> (Color, f32) {
    let n = u(op, "c");
    let g = (n / 7 % 256) as u8;
    let dest = match n % 3 {
        0 => rgb(g, g, g),
        1 => rgb(g, (n / 11 % 256) as u8, (n / 13 % 256) as u8),
        _ => Color::AnsiValue(232 + (n % 24) as u8),
    };
    (dest, [0.0, 1.0, 0.5, 0.25, 0.9, 0.1][n / 3 % 6])
}

/// something displayed by a function
struct Fmt<'a>(&'a dyn Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result);
impl std::fmt::Display for Fmt<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (self.0)(f)
    }
}

/// the painted aspects of a skin, by name
fn aspects(k: &MadSkin) -> Vec<(String, CompoundStyle)> {
    let mut v = vec![
        ("paragraph".to_string(), k.paragraph.compound_style.clone()),
        ("bold".to_string(), k.bold.clone()),
        ("italic".to_string(), k.italic.clone()),
        ("strikeout".to_string(), k.strikeout.clone()),
        ("inline_code".to_string(), k.inline_code.clone()),
        ("code_block".to_string(), k.code_block.compound_style.clone()),
        ("table".to_string(), k.table.compound_style.clone()),
        ("bullet".to_string(), k.bullet.compound_style().clone()),
        ("quote_mark".to_string(), k.quote_mark.compound_style().clone()),
        ("horizontal_rule".to_string(), k.horizontal_rule.compound_style().clone()),
        ("ellipsis".to_string(), k.ellipsis.clone()),
        ("scrollbar.track".to_string(), k.scrollbar.track.compound_style().clone()),
        ("scrollbar.thumb".to_string(), k.scrollbar.thumb.compound_style().clone()),
    ];
    for (i, h) in k.headers.iter().enumerate() {
        v.push((format!("header {i}"), h.compound_style.clone()));
    }
    for key in special_keys() {
        if let Some(sc) = k.special_chars.get(&key) {
            v.push((format!("special {key:?}"), sc.compound_style().clone()));
        }
    }
    v
}

/// compounds which may be replaced by special chars, and whose markdown is SPECIAL_MD
fn special_keys() -> [minimad::Compound<'static>; 3] {
    use minimad::Compound;
    [
        Compound::raw_str("!").bold(),
        Compound::raw_str("done").italic(),
        Compound::raw_str("x y").code(),
    ]
}
static SPECIAL_MD: &str = "a **!** b *done* c `x y` d";
static SPECIAL_NOT_MD: &str = "a *!* b **done** c **`x y`** d";

/// same skin, with all the styled chars rebuilt
fn rebuilt(k: &MadSkin) -> MadSkin {
    let sc = |c: &StyledChar| StyledChar::new(c.compound_style().clone(), c.nude_char());
    let mut n = k.clone();
    n.bullet = sc(&k.bullet);
    n.quote_mark = sc(&k.quote_mark);
    n.horizontal_rule = sc(&k.horizontal_rule);
    n.scrollbar = ScrollBarStyle {
        track: sc(&k.scrollbar.track),
        thumb: sc(&k.scrollbar.thumb),
    };
    n.special_chars = k.special_chars.iter().map(|(key, c)| (key.clone(), sc(c))).collect();
    n
}

#[derive(PartialEq, Clone, Copy)]
enum Aspect {
    /// must take the color
    Set,
    /// must not change
    Keep,
    /// not specified
    Any,
}

/// what the documentation of the skin wide setters says
fn touched(op: &str, name: &str) -> Aspect {
    let header = name.starts_with("header");
    let code = name == "inline_code" || name == "code_block";
    let scroll = name.starts_with("scrollbar");
    match op {
        "skin_fg" | "skin_bg" => match name {
            _ if code => Aspect::Keep,
            "table" if op == "skin_fg" => Aspect::Any,
            _ if scroll && op == "skin_fg" => Aspect::Any,
            _ => Aspect::Set,
        },
        "headers_fg" | "headers_bg" => {
            if header {
                Aspect::Set
            } else {
                Aspect::Keep
            }
        }
        "global_bg" => {
            if header || name == "paragraph" || name == "horizontal_rule" {
                Aspect::Set
            } else if code {
                Aspect::Keep
            } else {
                Aspect::Any
            }
        }
        _ => Aspect::Keep,
    }
}

fn mutate_skin(k: &mut MadSkin, op: &Value, obs: &mut Obs) -> R {
    let c = color_from(u(op, "c") as u64);
    let name = s(op, "op");
    let before = aspects(k);
    let chars = |k: &MadSkin| {
        [k.bullet.nude_char(), k.quote_mark.nude_char(), k.horizontal_rule.nude_char(), k.scrollbar.track.nude_char(), k.scrollbar.thumb.nude_char()]
    };
    let lines = |k: &MadSkin| -> Vec<(Alignment, usize, usize)> {
        let mut v: Vec<&LineStyle> = vec![&k.paragraph, &k.code_block, &k.table];
        v.extend(k.headers.iter());
        v.iter().map(|l| (l.align, l.left_margin, l.right_margin)).collect()
    };
    let (chars_before, lines_before) = (chars(k), lines(k));
    match name {
        "skin_fg" => k.set_fg(c),
        "skin_bg" => k.set_bg(c),
        "headers_fg" => k.set_headers_fg(c),
        "headers_bg" => k.set_headers_bg(c),
        "global_bg" => k.set_global_bg(c),
        "ascii" => k.limit_to_ascii(),
        "skin_blend" => {
            let (dest, w) = blend_of(op);
            k.blend_with(coolor::Color::from(dest), w);
        }
        "line_fg" => k.headers[u(op, "c") % 8].set_fg(c),
        "line_bg" => k.paragraph.set_bg(c),
        "line_fgbg" => k.code_block.set_fgbg(c, color_from(u(op, "c") as u64 + 1)),
        "line_attr" => k.table.add_attr(rand_attr(&mut Rng::new(u(op, "c") as u64))),
        "line_blend" => {
            let (dest, w) = blend_of(op);
            k.paragraph.blend_with(coolor::Color::from(dest), w);
        }
        "cs_fgbg" => k.bold.set_fgbg(c, color_from(u(op, "c") as u64 + 1)),
        "scroll_bg" => k.scrollbar.set_bg(c),
        _ => return Ok(()),
    }
    obs.ev("skin_mutations", 1);
    obs.ev(&format!("op_{name}"), 1);
    if name == "ascii" {
        ensure!(chars(k).iter().all(|c| c.is_ascii()), "char not limited to ascii", "{:?}", chars(k));
    } else {
        ensure!(chars(k) == chars_before, "char changed", "{:?} by {op}", chars(k));
    }
    ensure!(lines(k) == lines_before, "alignment or margin changed", "by {op}");
    let after = aspects(k);
    for ((n, b), (_, a)) in before.iter().zip(&after) {
        let (sb, sa) = (sty_of(b), sty_of(a));
        let line = |target: &str| n.as_str() == target;
        match name {
            "skin_blend" | "line_blend" => {
                ensure!(sb.attrs == sa.attrs, "attributes changed by a blending", "{n}: {b:?} -> {a:?}");
                let (dest, w) = blend_of(op);
                if name == "line_blend" && !line("paragraph") {
                    ensure!(sb == sa, "unrelated style changed", "{n} by {op}");
                } else if !n.starts_with("scrollbar") && !n.starts_with("special") {
                    check_blend(b.get_fg(), dest, w as f64, a.get_fg(), &format!("{n} foreground"), obs)?;
                    check_blend(b.get_bg(), dest, w as f64, a.get_bg(), &format!("{n} background"), obs)?;
                }
            }
            "skin_fg" | "skin_bg" | "headers_fg" | "headers_bg" | "global_bg" => {
                ensure!(sb.attrs == sa.attrs, "attributes changed by a color", "{n} by {op}");
                let fg = name.ends_with("fg");
                let (cb, ca, ob, oa) = if fg { (sb.fg, sa.fg, sb.bg, sa.bg) } else { (sb.bg, sa.bg, sb.fg, sa.fg) };
                ensure!(ob == oa, "other color changed", "{n} by {op}: {b:?} -> {a:?}");
                match touched(name, n) {
                    Aspect::Set => ensure!(ca == col(c), format!("{n} not set by {name}"), "{a:?} instead of {c:?}"),
                    Aspect::Keep => ensure!(ca == cb, format!("{n} changed by {name}"), "{b:?} -> {a:?}"),
                    Aspect::Any => {}
                }
            }
            _ => {
                let c2 = col(color_from(u(op, "c") as u64 + 1));
                let mut w = sb;
                match name {
                    "line_fg" if *n == format!("header {}", u(op, "c") % 8) => w.fg = col(c),
                    "line_bg" if line("paragraph") => w.bg = col(c),
                    "line_fgbg" if line("code_block") => {
                        w.fg = col(c);
                        w.bg = c2;
                    }
                    "line_attr" if line("table") => w.attrs |= attr_bit(rand_attr(&mut Rng::new(u(op, "c") as u64))),
                    "cs_fgbg" if line("bold") => {
                        w.fg = col(c);
                        w.bg = c2;
                    }
                    "scroll_bg" if n.starts_with("scrollbar") => w.bg = col(c),
                    _ => {}
                }
                ensure!(sa == w, format!("{n} after {name}"), "{sa:?} instead of {w:?}");
            }
        }
    }
    Ok(())
}

static CHAR_OPS: &[&str] = &["fg", "bg", "char", "attr", "style", "blend", "blend"];
static SKIN_OPS: &[&str] = &[
    "skin_fg", "skin_bg", "headers_fg", "headers_bg", "global_bg", "ascii", "skin_blend", "line_fg", "line_bg",
    "line_fgbg", "line_attr", "line_blend", "cs_fgbg", "scroll_bg",
];

impl Check for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "random sequences of mutations (colors, attributes, chars, whole styles, blendings, skin wide setters) on styled chars held by a skin and on skins, compared after each step to a model: values, and what is painted by all writing ways; the skin is then compared, on rendered texts, to one rebuilt from scratch with the same styles; overwriting of styles compared to an independent overlay; non trivial when there are at least 2 steps"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "blending is precise within 7 units per component (color space conversions), proportionality being only checked between grays",
            "blending of a skin doesn't concern its scrollbar",
            "whether set_fg changes tables and scrollbars, and what else than paragraph, headers and rules set_global_bg changes, isn't specified",
        ]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 37_500 } else { 600_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["steps", "painted_chars", "blended_colors", "proportional_blends", "skin_mutations", "compared_lines", "op_skin_fg", "op_skin_bg", "op_skin_blend", "op_ascii", "op_global_bg", "overlays", "special_chars"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let n = r.range(1, 8);
        let ops: Vec<Value> = (0..n)
            .map(|_| {
                let op = if r.bool() { *r.pick(CHAR_OPS) } else { *r.pick(SKIN_OPS) };
                json!({"op": op, "c": r.below(100_000), "on": r.below(5)})
            })
            .collect();
        let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
        json!({
            "skin": rand_skin_seed(r),
            "gray": r.bool(),
            "ops": ops,
            "md": text_md(r, alpha, 2),
            "width": rand_width(r),
            "special": if r.bool() { 0 } else { r.range(1, 7) },
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let mut k = skin(case["skin"].as_u64().unwrap_or(0));
        for (i, key) in special_keys().into_iter().enumerate() {
            if u(case, "special") & (1 << i) != 0 {
                let mut r = Rng::new(case["skin"].as_u64().unwrap_or(0) + i as u64);
                k.special_chars.insert(key, StyledChar::new(rand_cs(&mut r), ['★', '✔', '一'][i]));
            }
        }
        if case["gray"].as_bool().unwrap_or(false) {
            // gray levels, so that proportions can be checked
            let mut r = Rng::new(case["skin"].as_u64().unwrap_or(0) + 1);
            let mut g = || {
                let l = r.below(256) as u8;
                rgb(l, l, l)
            };
            k.set_fg(g());
            k.set_bg(g());
            k.bullet.set_fg(g());
            k.quote_mark.set_bg(g());
            k.paragraph.set_fgbg(g(), g());
            k.bold.set_fgbg(g(), g());
        }
        let ops: Vec<Value> = case["ops"].as_array().cloned().unwrap_or_default();
        let mut trail = String::new();
        for op in &ops {
            trail.push_str(&format!("{} {}, ", s(op, "op"), u(op, "c")));
            obs.ev("steps", 1);
            if CHAR_OPS.contains(&s(op, "op")) {
                let sc = match u(op, "on") {
                    0 => &mut k.bullet,
                    1 => &mut k.quote_mark,
                    2 => &mut k.horizontal_rule,
                    3 => &mut k.scrollbar.track,
                    _ => &mut k.scrollbar.thumb,
                };
                let mut m = MChar { cs: sc.compound_style().clone(), ch: sc.nude_char() };
                mutate_char(sc, &mut m, op, obs)?;
                check_char(sc, &m, &trail, obs)?;
            } else {
                mutate_skin(&mut k, op, obs)?;
                for sc in [&k.bullet, &k.quote_mark, &k.horizontal_rule, &k.scrollbar.track, &k.scrollbar.thumb] {
                    let m = MChar { cs: sc.compound_style().clone(), ch: sc.nude_char() };
                    check_char(sc, &m, &trail, obs)?;
                }
            }
        }
        let n = rebuilt(&k);
        let width = u(case, "width").max(5);
        same_rendering(&n, &k, PROBE, width, "changed skin renders with stale styles", obs)?;
        if parse_ok(s(case, "md")).is_some() {
            same_rendering(&n, &k, s(case, "md"), width, "changed skin renders with stale styles", obs)?;
        }
        // special chars
        for md in [SPECIAL_MD, SPECIAL_NOT_MD] {
            let l: Vec<Glyph> = lines_of(&k.inline(md).to_string())?.into_iter().flatten().collect();
            let margins = k.paragraph.left_margin;
            let mut w: Vec<Glyph> = vec![(' ', sty_of(&k.paragraph.compound_style)); margins];
            for c in minimad::Composite::from_inline(md).compounds {
                match k.special_chars.get(&c) {
                    Some(sc) => {
                        obs.ev("special_chars", 1);
                        w.push((sc.nude_char(), sty_of(sc.compound_style())));
                    }
                    None => {
                        let sty = crate::model::compound_sty(&k, &k.paragraph, &c);
                        w.extend(c.src.chars().map(|ch| (ch, sty)));
                    }
                }
            }
            ensure!(l == w, "special chars", "{l:?} instead of {w:?} after {trail}");
        }
        // overlays
        let mut r = Rng::new(case["skin"].as_u64().unwrap_or(0) + ops.len() as u64);
        let (mut a, mut b) = (rand_cs(&mut r), rand_cs(&mut r));
        if r.chance(1, 4) {
            a.object_style.underline_color = Some(rand_color(&mut r));
        }
        if r.chance(1, 4) {
            b.object_style.underline_color = Some(rand_color(&mut r));
        }
        let mut o = a.clone();
        o.overwrite_with(&b);
        obs.ev("overlays", 1);
        ensure!(
            o.object_style.underline_color == b.object_style.underline_color.or(a.object_style.underline_color),
            "overwriting an underline color",
            "{a:?} by {b:?} gives {o:?}"
        );
        ensure!(sty_of(&o) == overlay(sty_of(&a), sty_of(&b)), "overwriting a style", "{a:?} by {b:?} gives {o:?}");
        // crossterm doesn't always reset it
        o.object_style.underline_color = None;
        let mut out = Vec::new();
        o.queue(&mut out, "xy").unwrap();
        o.queue_str(&mut out, "z").unwrap();
        let l: Vec<Glyph> = lines_of(&String::from_utf8_lossy(&out))?.into_iter().flatten().collect();
        ensure!(l.iter().map(|g| g.0).eq("xyz".chars()) && l.iter().all(|g| g.1 == sty_of(&o)), "queued style", "{l:?} for {o:?}");
        let l: Vec<Glyph> = lines_of(&o.apply_to("xyz").to_string())?.into_iter().flatten().collect();
        ensure!(l.iter().all(|g| g.1 == sty_of(&o)), "applied style", "{l:?} for {o:?}");
        // repetitions
        let n = if r.chance(1, 60) { *r.pick(&[100, 1000, 4097, 20_000]) } else { r.below(6) };
        let ls = LineStyle::from(o.clone());
        for (how, out) in [
            Fmt(&|f| o.repeat_char(f, '=', n)).to_string(),
            Fmt(&|f| o.repeat_string(f, "=", n)).to_string(),
            Fmt(&|f| ls.repeat_char(f, '=', n)).to_string(),
            Fmt(&|f| ls.repeat_string(f, "=", n)).to_string(),
            Fmt(&|f| o.repeat_space(f, n)).to_string().replace(' ', "="),
            Fmt(&|f| ls.repeat_space(f, n)).to_string().replace(' ', "="),
        ]
        .iter()
        .enumerate()
        {
            let l: Vec<Glyph> = lines_of(out)?.into_iter().flatten().collect();
            ensure!(l == vec![('=', sty_of(&o)); n], "repeated style", "{} glyphs for {n} x {o:?} (way {how})", l.len());
        }
        if n > 10 {
            obs.ev("long_repetitions", 1);
            let sc = StyledChar::new(o.clone(), '─');
            let mut b = Vec::new();
            sc.queue_repeat(&mut b, n).unwrap();
            for out in [String::from_utf8_lossy(&b).to_string(), sc.repeated(n).to_string()] {
                let l: Vec<Glyph> = lines_of(&out)?.into_iter().flatten().collect();
                ensure!(l == vec![('─', sty_of(&o)); n], "repeated char", "{} glyphs for {n} x {o:?}", l.len());
            }
        }
        let same = CompoundStyle::from(o.object_style);
        ensure!(same == o, "style made of a crossterm style", "{same:?} for {o:?}");
        let nude = StyledChar::nude('x');
        ensure!(nude.to_string() == "x" && nude.compound_style() == &CompoundStyle::default(), "nude char", "{nude:?}");
        ensure!(
            CompoundStyle::with_attr(Attribute::Dim).attrs() == Attribute::Dim.into()
                && sty_of(&CompoundStyle::with_fgbg(Color::Red, Color::Blue)) == overlay(sty_of(&CompoundStyle::with_fg(Color::Red)), sty_of(&CompoundStyle::with_bg(Color::Blue)))
                && sty_of(&CompoundStyle::with_fg(Color::Red)).fg == col(Color::Red)
                && sty_of(&CompoundStyle::with_bg(Color::Blue)).bg == col(Color::Blue),
            "building of a style",
            "with_*"
        );
        // colors alone
        let mut out = Vec::new();
        o.queue_fg(&mut out).unwrap();
        o.queue_bg(&mut out).unwrap();
        out.push(b'x');
        let sc = Screen::of(&out)?;
        let g = sc.row(0, 0, 1)[0].1;
        let w = sty_of(&o);
        ensure!(g.fg == w.fg && g.bg == w.bg && g.attrs == 0, "queued colors", "{g:?} for {o:?}");
        // erasing: the cleared part has the background
        let mut out = Vec::new();
        o.clear(&mut out, ClearType::UntilNewLine).unwrap();
        let mut bg = Vec::new();
        o.queue_bg(&mut bg).unwrap();
        bg.extend(b"\x1b[K");
        ensure!(out == bg, "clearing with a style", "{:?} instead of {:?}", String::from_utf8_lossy(&out), String::from_utf8_lossy(&bg));
        if ops.len() >= 2 {
            obs.nontrivial(hash_str(&trail));
            obs.sample(json!({"steps": trail}));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C19

pub struct C19;

impl Check for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "random texts (all kinds of lines, tables and code included) rendered with the no_style skin, with and without width, through Display, write functions, views and templates: the bytes have no escape; ascii texts rendered with random skins limited to ascii, through the same ways and list views: bytes are ascii outside of escape sequences, ellipsis excepted; non trivial when the text has several kinds of lines"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "positioning the cursor in an area needs escape sequences, and scrollbars are colored: only the text outputs are concerned with no_style",
            "the ellipsis, used when something doesn't fit, isn't an ascii char",
        ]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 30_000 } else { 400_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["no_style_outputs", "no_style_chars", "ascii_outputs", "ascii_chars", "ascii_scrollbars", "tables", "elided"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
        let blocks = *r.pick(&[1, 3, 8]);
        let mut md = text_md(r, alpha, blocks);
        if r.bool() {
            table_md(r, alpha, &mut md);
        }
        json!({
            "skin": rand_skin_seed(r),
            "md": md,
            "width": rand_width(r),
            "height": r.range(3, 12),
            "scroll": r.below(20),
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let md = s(case, "md");
        if parse_ok(md).is_none() {
            return Ok(());
        }
        let width = u(case, "width").max(5);
        let first = md.lines().find(|l| !l.is_empty()).unwrap_or("");
        let outputs = |k: &MadSkin, md: &str| -> Vec<(&'static str, String)> {
            let mut v = vec![
                ("text", k.text(md, Some(width)).to_string()),
                ("unwrapped text", k.text(md, None).to_string()),
                ("inline", k.inline(first).to_string()),
            ];
            let mut b = Vec::new();
            k.write_inline_on(&mut b, first).unwrap();
            k.write_text_on(&mut b, md).unwrap();
            k.write_composite(&mut b, minimad::Composite::from_inline(first)).unwrap();
            v.push(("write", String::from_utf8_lossy(&b).to_string()));
            let mut b = Vec::new();
            for a in [Alignment::Left, Alignment::Unspecified] {
                k.write_composite_fill(&mut b, minimad::Composite::from_inline(first), width, a).unwrap();
            }
            mad_write_inline!(&mut b, k, "**$0** *$1* `$2`", first, "x", width).unwrap();
            v.push(("fill", String::from_utf8_lossy(&b).to_string()));
            let mut e = minimad::OwningTemplateExpander::new();
            e.set("a", first).set_md("b", first);
            let t = minimad::TextTemplate::from("# ${a}\n* ${b}\n|-|-|\n|${a}|${b}|\n|-\n> ${b}\n");
            v.push(("template", FmtText::from_text(k, e.expand(&t), Some(width)).to_string()));
            v
        };
        let none = MadSkin::no_style();
        for (name, o) in outputs(&none, md) {
            obs.ev("no_style_outputs", 1);
            obs.ev("no_style_chars", o.chars().count() as u64);
            ensure!(!o.contains('\u{1b}'), "escape sequence with no style", "{name}: {o:?}");
        }
        if md.contains("|") {
            obs.ev("tables", 1);
        }
        if md.is_ascii() {
            let mut k = skin(case["skin"].as_u64().unwrap_or(0));
            k.limit_to_ascii();
            let mut none = none.clone();
            none.limit_to_ascii();
            for k in [&k, &none] {
                for (name, o) in outputs(k, md) {
                    check_ascii(name, &o, obs)?;
                    if name == "unwrapped text" {
                        ensure!(!o.contains('…') , "ellipsis in an unwrapped text", "{o:?}");
                    }
                }
                let area = Area::new(0, 0, width.min(300) as u16, u(case, "height").max(2) as u16);
                let text = k.area_text(md, &area);
                let mut view = TextView::from(&area, &text);
                view.scroll = u(case, "scroll");
                let mut b = Vec::new();
                view.write_on(&mut b).unwrap();
                if view.content_height() > area.height as usize {
                    obs.ev("ascii_scrollbars", 1);
                }
                check_ascii("view", &String::from_utf8_lossy(&b), obs)?;
                let mut b = Vec::new();
                MadView::from(md.to_string(), area, (*k).clone()).write_on(&mut b).unwrap();
                check_ascii("mad view", &String::from_utf8_lossy(&b), obs)?;
            }
        }
        let kinds = md.lines().filter_map(|l| l.chars().next()).collect::<std::collections::HashSet<_>>().len();
        if kinds > 1 {
            obs.nontrivial(hash_str(md) ^ width as u64);
            obs.sample(json!({"md": md, "width": width}));
        }
        Ok(())
    }
}

fn check_ascii(name: &str, o: &str, obs: &mut Obs) -> R {
    obs.ev("ascii_outputs", 1);
    for c in o.chars() {
        if c == '…' {
            obs.ev("elided", 1);
            continue;
        }
        obs.ev("ascii_chars", 1);
        ensure!(c.is_ascii(), "char out of ascii", "{name}: {c:?} in {o:?}");
    }
    Ok(())
}
