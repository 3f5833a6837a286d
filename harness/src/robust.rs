//! C26 (robustness), C28 (announced dimensions)

use {
    crate::{core::*, gen::*, model::*, render::*, term::*},
    serde_json::{json, Value},
    termimad::{
        minimad::{self, Composite},
        *,
    },
};

// ------------------------------------------------------------- C28

pub struct C28;

/// width of what a line prints with no outer width, without its margins
fn natural_width(skin: &MadSkin, line: &FmtLine<'_>) -> Result<usize, Viol> {
    let out = DisplayableLine::new(skin, line, None).to_string();
    let lines = lines_of(&out)?;
    ensure!(lines.len() <= 1, "several rows", "a line printed {} rows: {out:?}", lines.len());
    let w = lines.first().map(|l| width_of(l)).unwrap_or(0);
    let (l, r) = match line {
        FmtLine::Normal(fc) => skin.line_style(fc.kind).margins_in(None),
        _ => (0, 0),
    };
    Ok(w - l - r)
}

impl Check for C28 {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "random texts x skins, formatted without width, for a width, or as raw text, then rendered at widths from the content width; non trivial when the text has several lines and the widest isn't the first"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["no control chars nor multi-char emoji sequences in texts", "horizontal rules have no width of their own", "skins without special chars"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 180_000 } else { 1_500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["rows_counted", "table_rows", "table_rules", "rules", "rendered_at_content_width", "code_lines", "wrapped_texts", "composite_states", "emoji_composites", "aligned_extensions", "compounds_added"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
        if r.chance(1, 5) {
            // a composite, through its API
            let emoji = r.chance(1, 6);
            let ops: Vec<Value> = (0..r.range(1, 8))
                .map(|_| {
                    let words = r.range(1, 6);
                    json!([r.below(8), if emoji { emojis(r) } else { inline_md(r, alpha, words, false) }, r.below(70), r.below(4)])
                })
                .collect();
            return json!({
                "composite": if emoji { emojis(r) } else { inline_md(r, alpha, 6, false) },
                "emoji": emoji,
                "style": r.below(9),
                "start": r.below(3),
                "skin": rand_skin_seed(r),
                "ops": ops,
            });
        }
        let blocks = *r.pick(&[1, 2, 4, 8, 8, 30]);
        let mut md = text_md(r, alpha, blocks);
        if r.chance(1, 3) {
            table_md(r, alpha, &mut md);
        }
        if r.chance(1, 6) {
            sprinkle(r, &mut md, alpha);
        }
        json!({
            "md": md,
            "skin": rand_skin_seed(r),
            "width": if r.bool() { json!(rand_width(r)) } else { Value::Null },
            "raw": r.chance(1, 10),
            "more": *r.pick(&[0, 0, 1, 2, 3, 10, 40]),
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        if case["composite"].is_string() {
            return run_composite(case, obs);
        }
        let md = s(case, "md");
        let skin = skin(case["skin"].as_u64().unwrap_or(0));
        let width = case["width"].as_u64().map(|w| w as usize);
        if width.map_or(false, |w| w < 3) {
            return Ok(());
        }
        let Some(t) = parse_ok(md) else {
            return Ok(());
        };
        if let Some(w) = width {
            if !has_room(&skin, &t, w) {
                return Ok(());
            }
        }
        let build = || -> FmtText {
            if case["raw"] == true {
                FmtText::raw_str(&skin, md, width)
            } else {
                FmtText::from(&skin, md, width)
            }
        };
        let mut text = build();
        let rows = lines_of(&text.to_string())?;
        ensure!(
            rows.len() == text.lines.len(),
            "number of lines",
            "{} lines announced but {} rows printed",
            text.lines.len(),
            rows.len()
        );
        obs.ev("rows_counted", rows.len() as u64);
        if width.is_some() {
            obs.ev("wrapped_texts", 1);
        }
        let mut widest = 0;
        let mut widest_idx = 0;
        for (i, line) in text.lines.iter().enumerate() {
            let w = natural_width(&skin, line)?;
            match line {
                FmtLine::Normal(fc) => {
                    if fc.kind == CompositeKind::Code {
                        obs.ev("code_lines", 1);
                        // padded to the width of the block
                        ensure!(fc.visible_length <= w, "line width", "{} announced, {w} printed, for {md:?}", fc.visible_length);
                        ensure!(line.visible_length() <= w, "line width", "{} announced, {w} printed, for {md:?}", line.visible_length());
                    } else {
                        ensure!(line.visible_length() == w, "line width", "{} announced, {w} printed, for {md:?}", line.visible_length());
                    }
                }
                FmtLine::TableRow(_) => {
                    obs.ev("table_rows", 1);
                    ensure!(line.visible_length() == w, "table row width", "{} announced, {w} printed, for {md:?}", line.visible_length());
                }
                FmtLine::TableRule(_) => {
                    obs.ev("table_rules", 1);
                    ensure!(line.visible_length() == w, "table rule width", "{} announced, {w} printed, for {md:?}", line.visible_length());
                }
                FmtLine::HorizontalRule => {
                    obs.ev("rules", 1);
                }
            }
            if w > widest {
                widest = w;
                widest_idx = i;
            }
        }
        let cw = text.content_width();
        ensure!(cw == widest, "content width", "content width {cw} but widest line is {widest} wide");
        if rows.len() > 1 && widest_idx > 0 {
            obs.nontrivial(hash_str(&case.to_string()));
        }
        // the content of a line, wherever it's placed
        let solid = |rows: &[Vec<Glyph>], text: &FmtText| -> Vec<Vec<Glyph>> {
            rows.iter()
                .zip(&text.lines)
                .map(|(l, fl)| {
                    if matches!(fl, FmtLine::HorizontalRule) {
                        return Vec::new();
                    }
                    l.iter().copied().filter(|(c, _)| *c != ' ').collect()
                })
                .collect()
        };
        let before = solid(&rows, &text);
        let rw = cw + u(case, "more");
        text.set_rendering_width(rw);
        let moved = lines_of(&text.to_string())?;
        ensure!(moved.len() == text.lines.len(), "number of lines", "{} rows instead of {} when rendered at {rw}", moved.len(), text.lines.len());
        for (i, l) in moved.iter().enumerate() {
            let w = width_of(l);
            ensure!(w <= rw, "rendering width", "row {i} is {w} wide when rendered at {rw} (content width {cw}): {:?}", plain(l));
            if matches!(text.lines[i], FmtLine::HorizontalRule) {
                ensure!(w == rw, "rule width", "a rule is {w} wide instead of {rw}");
            }
        }
        let after = solid(&moved, &text);
        ensure!(before == after, "content changed", "rendering at {rw} changed the content");
        obs.ev("rendered_at_content_width", 1);
        Ok(())
    }
}

/// operations on a formatted composite: the announced width must always be
/// the printed one
fn run_composite(case: &Value, obs: &mut Obs) -> R {
    let src = s(case, "composite");
    let skin = skin(case["skin"].as_u64().unwrap_or(0));
    let Ok(mut comp) = std::panic::catch_unwind(|| Composite::from_inline(src)) else {
        return Ok(());
    };
    use minimad::CompositeStyle as CS;
    comp.style = match u(case, "style") {
        1 => CS::Quote,
        2 => CS::ListItem(0),
        3 => CS::ListItem(2),
        6 => CS::Header(2),
        7 => CS::Code,
        _ => CS::Paragraph,
    };
    let ops = case["ops"].as_array().cloned().unwrap_or_default();
    // what's added must outlive the composite
    let mut added: Vec<Composite<'_>> = Vec::new();
    for op in &ops {
        let txt = op[1].as_str().unwrap_or("");
        let Ok(c) = std::panic::catch_unwind(|| Composite::from_inline(txt)) else {
            return Ok(());
        };
        added.push(c);
    }
    let mut fc = match u(case, "start") {
        0 => FmtComposite::from(comp.clone(), &skin),
        1 if !comp.compounds.is_empty() => {
            let mut fc = FmtComposite::from_compound(comp.compounds[0].clone());
            for c in comp.compounds.iter().skip(1) {
                fc.add_compound(c.clone());
            }
            comp.style = CS::Paragraph;
            fc
        }
        _ => {
            let mut fc = FmtComposite::new();
            for c in &comp.compounds {
                fc.add_compound(c.clone());
            }
            comp.style = CS::Paragraph;
            fc
        }
    };
    match u(case, "style") {
        4 => fc.kind = CompositeKind::ListItemFollowUp(0),
        5 => fc.kind = CompositeKind::ListItemFollowUp(3),
        _ => {}
    }
    fc.recompute_width(&skin);
    let kind = fc.kind;
    let check = |fc: &FmtComposite<'_>, what: &str, obs: &mut Obs| -> Result<Vec<Glyph>, Viol> {
        let ls = skin.line_style(fc.kind);
        let (l, _) = ls.margins_in(None);
        let line = lines_of(&FmtInline { skin: &skin, composite: fc.clone() }.to_string())?.into_iter().next().unwrap_or_default();
        let printed = width_of(&line) - l;
        let (lp, rp) = fc.completions();
        let ctx = || format!("after {what}: visible length {}, spacing {:?}, printed {:?}", fc.visible_length, fc.spacing, plain(&line));
        // the width of emoji sequences depends on the terminal
        let exact = case["emoji"] != true;
        ensure!(!exact || fc.visible_length + lp + rp == printed, "composite width", "{printed} columns printed {}", ctx());
        ensure!(
            skin.visible_composite_length(fc.kind, &fc.compounds) == fc.visible_length,
            "visible composite length",
            "{} {}",
            skin.visible_composite_length(fc.kind, &fc.compounds),
            ctx()
        );
        if let Some(sp) = fc.spacing {
            ensure!(!exact || printed == sp.width.max(fc.visible_length), "spacing not filled", "{printed} columns printed {}", ctx());
            let (el, er) = completions(sp.align, fc.visible_length, sp.width);
            ensure!((lp, rp) == (el, er), "completions", "{:?} instead of {:?} {}", (lp, rp), (el, er), ctx());
        }
        let mut recomputed = fc.clone();
        recomputed.recompute_width(&skin);
        ensure!(recomputed.visible_length == fc.visible_length, "recomputed width", "{} {}", recomputed.visible_length, ctx());
        obs.ev("composite_states", 1);
        obs.ev("emoji_composites", !exact as u64);
        Ok(line[l + lp..].to_vec())
    };
    let line = minimad::Line::Normal(comp.clone());
    ensure!(
        matches!(kind, CompositeKind::ListItemFollowUp(_)) || skin.visible_line_length(&line) == fc.visible_length,
        "visible line length",
        "{} for {:?}, composite: {}",
        skin.visible_line_length(&line),
        src,
        fc.visible_length
    );
    let mut content = check(&fc, "build", obs)?;
    for (op, add) in ops.iter().zip(&added) {
        let n = op[2].as_u64().unwrap_or(0) as usize;
        let align = [Alignment::Unspecified, Alignment::Left, Alignment::Center, Alignment::Right][op[3].as_u64().unwrap_or(0) as usize % 4];
        let before = fc.clone();
        let what;
        match op[0].as_u64().unwrap_or(0) {
            0..=2 => {
                what = format!("add of {:?}", op[1]);
                for c in &add.compounds {
                    fc.add_compound(c.clone());
                }
            }
            3 if !fc.compounds.is_empty() => {
                what = "removal".to_string();
                fc.compounds.remove(n % before.compounds.len());
                fc.recompute_width(&skin);
            }
            4 => {
                what = format!("fit in {n} {align:?}");
                fc.fit_width(n, align, &skin);
                let mark = skin.visible_composite_length(kind, &[]);
                ensure!(case["emoji"] == true || fc.visible_length <= n.max(if mark > 0 { mark + 1 } else { 0 }), "fit width", "{} columns after {what}", fc.visible_length);
            }
            5 | 6 => {
                what = format!("extension to {n} {align:?}");
                fc.extend_width(n, align);
                ensure!(fc.compounds == before.compounds && fc.visible_length == before.visible_length, "extension", "content changed by {what}");
                let (l, r) = fc.completions();
                ensure!(l + r + fc.visible_length >= n, "extension", "{} columns after {what}", l + r + fc.visible_length);
                if let Some(sp) = fc.spacing {
                    ensure!(sp.align == align, "extension", "aligned {:?} after {what}", sp.align);
                    obs.ev("aligned_extensions", 1);
                }
            }
            _ => {
                what = format!("fill of {n} {align:?}");
                fc.fill_width(n, align, &skin);
                let (l, r) = fc.completions();
                ensure!(l + r + fc.visible_length >= n, "fill", "{} columns after {what}", l + r + fc.visible_length);
            }
        }
        ensure!(fc.kind == kind, "kind changed", "{:?} instead of {kind:?} after {what}", fc.kind);
        let now = check(&fc, &what, obs)?;
        // additions append to what's already there
        if what.starts_with("add") {
            let (a, b) = (trim_right(&content), &now);
            ensure!(b.starts_with(a), "addition", "{:?} doesn't start with {:?} after {what}", plain(b), plain(a));
            obs.ev("compounds_added", 1);
        }
        content = now;
    }
    obs.nontrivial(hash_str(&case.to_string()));
    Ok(())
}

/// a text with sequences which aren't as wide as their chars
fn emojis(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(6) {
        s.push_str(r.pick(&[
            "word ", "a", " ", "👨\u{200d}👩\u{200d}👧", "🏳\u{fe0f}\u{200d}🌈", "🇫🇷", "1\u{fe0f}\u{20e3}", "☺\u{fe0f}", "❤\u{fe0f}",
            "👍🏽", "**b👍🏽**", "*☺\u{fe0f}*", "一",
        ]));
    }
    s
}

/// without the blanks at right, which may be padding
fn trim_right(l: &[Glyph]) -> &[Glyph] {
    let mut n = l.len();
    while n > 0 && l[n - 1].0 == ' ' {
        n -= 1;
    }
    &l[..n]
}

// ------------------------------------------------------------- C26

pub struct C26;

static TOKENS: &[&str] = &[
    "*", "**", "***", "~~", "`", "```", "\n", "\n", "\n", "|", "|", "|-", ":-:", "|---|:---:|---:|", "# ", "## ", "######## ", "> ",
    "* ", "  * ", "     * ", "---", "___", "    ", "\t", " ", "  ", "\r\n", "\r", "\\", "\\*", "${a}", "$0", "[a](b)", "<b>", "&amp;",
    "…", "a", "bc", "word", "longer_word", "1234567890", "一", "曰道", "é", "e\u{301}", "\u{301}", "\u{200b}", "\u{200d}", "\u{feff}",
    "👨\u{200d}👩\u{200d}👧", "🏳\u{fe0f}\u{200d}🌈", "🇫🇷", "1\u{fe0f}\u{20e3}", "☺\u{fe0f}", "שלום", "\u{202e}", "\u{0}", "\u{7}", "\u{8}", "\u{b}", "\u{c}", "\u{7f}", "\u{85}",
    "\u{a0}", "\u{2028}", "\u{3000}", "\u{e000}", "\u{10ffff}", "\u{fffd}", "\u{ad}", "ﷺ", "𒐫", "Z\u{360}\u{321}\u{34a}",
];

fn hostile(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(12) {
        0 => {
            // one huge thing
            let t = *r.pick(TOKENS);
            let n = r.range(100, 3000);
            s = t.repeat(n);
        }
        1 => {
            // any chars
            for _ in 0..r.below(60) {
                if let Some(c) = char::from_u32(match r.below(4) {
                    0 => r.below(0x80) as u32,
                    1 => r.below(0x800) as u32,
                    2 => r.below(0x10000) as u32,
                    _ => r.below(0x110000) as u32,
                }) {
                    s.push(c);
                }
            }
        }
        2 => {
            let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
            let n = *r.pick(&[2, 6, 20]);
            s = text_md(r, alpha, n);
            // broken somewhere
            let cs: Vec<char> = s.chars().collect();
            let a = r.below(cs.len() + 1);
            let b = r.range(a, cs.len());
            s = cs[..a].iter().chain(&cs[b..]).collect();
        }
        3 => {
            // long lines
            for _ in 0..r.range(1, 3) {
                for _ in 0..r.range(50, 600) {
                    s.push_str(r.pick(TOKENS).trim_matches('\n'));
                }
                s.push('\n');
            }
        }
        _ => {
            for _ in 0..r.below(40) {
                if r.chance(1, 3) {
                    s.push_str(&word(r, Alpha::Uni, 12));
                } else {
                    s.push_str(r.pick(TOKENS));
                }
            }
        }
    }
    if r.chance(1, 12) {
        s.push_str("\u{1b}[31mx\u{1b}");
    }
    s
}

fn hostile_dim(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 4,
        5 => r.range(200, 2000) as u64,
        6 => *r.pick(&[255, 256, 999, 1000, 1001, 5000]),
        _ => r.range(0, 60) as u64,
    }
}

/// a written output must be text and complete escape sequences, and give
/// back the default style
fn well_formed(out: &[u8], src_has_esc: bool, what: &str, obs: &mut Obs) -> R {
    let Ok(text) = std::str::from_utf8(out) else {
        return viol("invalid utf8", format!("{what} wrote invalid UTF-8"));
    };
    obs.ev("bytes_checked", out.len() as u64);
    if src_has_esc {
        return Ok(());
    }
    let mut sty = Sty::default();
    for op in parse_ops(text)? {
        match op {
            Op::Sgr(g) => apply_sgr(&mut sty, &g),
            Op::Other(o) => return viol("unknown escape", format!("{what} wrote an unknown sequence {o:?}")),
            _ => {}
        }
    }
    ensure!(sty == Sty::default(), "style leak", "{what} lets the style {sty:?}");
    obs.ev("outputs_well_formed", 1);
    Ok(())
}

static KINDS: &[&str] = &[
    "text", "raw", "inline", "fill", "fit", "area", "textview", "madview", "listview", "input", "wrap", "crop", "misc", "built",
];

/// a composite built without parsing
fn built_composite<'s>(r: &mut Rng, words: &[&'s str]) -> Composite<'s> {
    use minimad::{CompositeStyle as CS, Compound};
    let style = match r.below(12) {
        0 | 1 => CS::Quote,
        2 => CS::ListItem(r.below(5) as u8),
        3 => CS::ListItem(*r.pick(&[0, 7, 30, 254, 255])),
        4 => CS::Header(r.range(1, 9) as u8),
        5 => CS::Header(r.range(1, 255) as u8),
        6 | 7 => CS::Code,
        _ => CS::Paragraph,
    };
    let compounds = (0..*r.pick(&[0, 1, 1, 1, 2, 3, 3, 9]))
        .map(|_| {
            let mut c = Compound::raw_str(if words.is_empty() || r.chance(1, 8) { *r.pick(&["", " ", "…", "\u{301}", "  a "]) } else { *r.pick(words) });
            c.bold = r.chance(1, 4);
            c.italic = r.chance(1, 4);
            c.code = r.chance(1, 6);
            c.strikeout = r.chance(1, 6);
            c
        })
        .collect();
    Composite { style, compounds }
}

/// a text built without parsing, with what a parser doesn't make: empty rows,
/// rows and rules of different sizes, rules anywhere, deep items, code fences
pub fn built_text<'s>(r: &mut Rng, src: &'s str) -> minimad::Text<'s> {
    use minimad::{Line, TableRow, TableRule, Text};
    let words: Vec<&str> = src
        .split(|c: char| c.is_control() || (c == ' ' && src.len() % 3 > 0))
        .take(60)
        // long words repeated in several compounds of several narrow cells would make huge texts
        .map(|w| w.char_indices().nth(200).map_or(w, |(i, _)| &w[..i]))
        .collect();
    let most = *r.pick(&[2, 6, 20]);
    let lines = (0..r.range(1, most))
        .map(|_| match r.below(10) {
            0..=4 => Line::Normal(built_composite(r, &words)),
            5 | 6 => Line::TableRow(TableRow { cells: (0..*r.pick(&[0, 1, 2, 3, 3, 9])).map(|_| built_composite(r, &words)).collect() }),
            7 => Line::TableRule(TableRule {
                cells: (0..*r.pick(&[0, 1, 2, 3, 5]))
                    .map(|_| *r.pick(&[Alignment::Unspecified, Alignment::Left, Alignment::Center, Alignment::Right]))
                    .collect(),
            }),
            8 => Line::HorizontalRule,
            _ => Line::CodeFence(built_composite(r, &words)),
        })
        .collect();
    Text { lines }
}

impl Check for C26 {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "hostile strings (control chars, broken markdown and tables, zero width, emoji and bidi sequences, any unicode, huge lines) x skins x dimensions from 0 to 5000, through every formatting, fitting, wrapping and drawing function, with overflow checks and debug assertions on; non trivial when something non empty was written"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "strings on which the minimad parser itself panics are excluded",
            "areas whose right and bottom don't exceed 65535",
            "the passing of an ESC char of the source isn't a malformation",
        ]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 2_500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &[
            "outputs_well_formed", "kind_text", "kind_raw", "kind_inline", "kind_fill", "kind_fit", "kind_area", "kind_textview",
            "kind_madview", "kind_listview", "kind_input", "kind_wrap", "kind_crop", "kind_misc", "kind_built", "zero_width", "huge_width", "huge_text",
        ]
    }
    fn cpu_limit(&self) -> u64 {
        60
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let kind = KINDS[idx as usize % KINDS.len()];
        let ops: Vec<Value> = (0..r.below(12)).map(|_| json!([r.below(16), r.irange(-300, 300)])).collect();
        json!({
            "_kind": kind,
            "src": hostile(r),
            "src2": hostile(r),
            "skin": rand_skin_seed(r),
            "none": r.chance(1, 6),
            "w": hostile_dim(r),
            "h": if r.chance(1, 8) { 300 } else { hostile_dim(r).min(60) },
            "x": *r.pick(&[0, 0, 3, 100, 60000]),
            "y": *r.pick(&[0, 0, 3, 100, 65000]),
            "align": r.below(4),
            "scroll": *r.pick(&[0, 1, 2, 5, 30, 1000, 1000000, usize::MAX / 2, usize::MAX]),
            "ops": ops,
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let kind = s(case, "_kind");
        let src = s(case, "src");
        let src2 = s(case, "src2");
        let esc = src.contains('\u{1b}') || src2.contains('\u{1b}');
        if parse_ok(src).is_none() || parse_ok(src2).is_none() {
            obs.ev("refused_by_minimad", 1);
            return Ok(());
        }
        if std::panic::catch_unwind(|| (Composite::from_inline(src), Composite::from_inline(src2), minimad::Text::raw_str(src))).is_err() {
            obs.ev("refused_by_minimad", 1);
            return Ok(());
        }
        let skin = skin(case["skin"].as_u64().unwrap_or(0));
        let w = u(case, "w");
        let h = u(case, "h");
        let width = if case["none"] == true { None } else { Some(w) };
        let align = [Alignment::Unspecified, Alignment::Left, Alignment::Center, Alignment::Right][u(case, "align") % 4];
        let area = Area::new(u(case, "x") as u16, u(case, "y") as u16, w as u16, h as u16);
        let empty = vec![];
        let ops = case["ops"].as_array().unwrap_or(&empty);
        let mut b: Vec<u8> = Vec::new();
        obs.ev(&format!("kind_{kind}"), 1);
        if w == 0 {
            obs.ev("zero_width", 1);
        }
        if w > 999 {
            obs.ev("huge_width", 1);
        }
        if src.len() > 2000 {
            obs.ev("huge_text", 1);
        }
        match kind {
            "text" => {
                let mut t = skin.text(src, width);
                b.extend(t.to_string().bytes());
                for l in &t.lines {
                    b.extend(DisplayableLine::new(&skin, l, width).to_string().bytes());
                    l.visible_length();
                }
                t.content_width();
                t.set_rendering_width(u(case, "h"));
                b.extend(t.to_string().bytes());
            }
            "built" => {
                let mut r = Rng::new(hash_str(&case["ops"].to_string()) ^ hash_str(src));
                let mut t = FmtText::from_text(&skin, built_text(&mut r, src), width);
                b.extend(t.to_string().bytes());
                for l in &t.lines {
                    b.extend(DisplayableLine::new(&skin, l, width).to_string().bytes());
                    l.visible_length();
                }
                let mut v = TextView::from(&area, &t);
                v.try_scroll_lines(h as i32);
                v.write_on(&mut b).unwrap();
                t.content_width();
                t.set_rendering_width(h);
                b.extend(t.to_string().bytes());
                let c = built_composite(&mut r, &[src2]);
                skin.write_composite_fill(&mut b, c.clone(), w.min(2000), align).unwrap();
                skin.write_composite(&mut b, c).unwrap();
            }
            "raw" => {
                let t = FmtText::raw_str(&skin, src, width);
                b.extend(t.to_string().bytes());
            }
            "inline" => {
                b.extend(skin.inline(src).to_string().bytes());
                skin.write_inline_on(&mut b, src2).unwrap();
                skin.write_composite(&mut b, Composite::from_inline(src)).unwrap();
                skin.write_text_on(&mut b, src).unwrap();
                let t = minimad::parse_text(src, minimad::Options::default());
                for l in &t.lines {
                    skin.visible_line_length(l);
                }
            }
            "fill" => {
                skin.write_composite_fill(&mut b, Composite::from_inline(src), w.min(2000), align).unwrap();
                skin.write_composite_fill(&mut b, Composite::from_inline(src2), h, align).unwrap();
            }
            "fit" => {
                let t = minimad::parse_text(src, minimad::Options::default());
                for l in t.lines {
                    if let minimad::Line::Normal(c) = l {
                        let mut fc = FmtComposite::from(c, &skin);
                        fc.fit_width(w, align, &skin);
                        fc.extend_width(h, align);
                        fc.recompute_width(&skin);
                        fc.fill_width(h, align, &skin);
                        fc.completions();
                        b.extend(FmtInline { skin: &skin, composite: fc }.to_string().bytes());
                    }
                }
            }
            "area" => {
                let t = skin.area_text(src, &area);
                b.extend(t.to_string().bytes());
                skin.write_in_area_on(&mut b, src2, &area).unwrap();
                Rect::new(area.clone(), skin.bold.clone()).draw(&mut b).unwrap();
                let mut rect = Rect::new(area.clone(), skin.bold.clone());
                rect.set_fill(true);
                rect.set_border_style(BORDER_STYLE_MIDDLE_ROUND_LINE);
                rect.draw(&mut b).unwrap();
                area.contains(u(case, "scroll") as u16, 3);
                area.scrollbar(u(case, "scroll"), src.len());
                let mut a = area.clone();
                a.pad_for_max_width(h as u16);
            }
            "textview" => {
                let t = skin.text(src, width);
                let mut v = TextView::from(&area, &t);
                v.show_scrollbar = u(case, "align") != 0;
                v.scroll = u(case, "scroll");
                for op in ops {
                    let n = op[1].as_i64().unwrap_or(0);
                    match op[0].as_u64().unwrap_or(0) {
                        0 => v.try_scroll_lines(n as i32),
                        1 => v.try_scroll_pages(n as i32),
                        2 => v.try_scroll_pages(n as f64 / 7.0),
                        3 => {
                            v.set_scroll(n.unsigned_abs() as usize);
                        }
                        4 => {
                            v.line_up();
                        }
                        5 => {
                            v.line_down();
                        }
                        6 => {
                            v.page_up();
                        }
                        7 => {
                            v.page_down();
                        }
                        _ => {
                            v.write_on(&mut b).unwrap();
                        }
                    }
                    if b.len() > 3_000_000 {
                        break;
                    }
                }
                v.write_on(&mut b).unwrap();
            }
            "madview" => {
                let mut v = MadView::from(src.to_string(), area.clone(), skin.clone());
                v.scroll = u(case, "scroll");
                for op in ops.iter().take(6) {
                    let n = op[1].as_i64().unwrap_or(0);
                    match op[0].as_u64().unwrap_or(0) {
                        0..=2 => v.try_scroll_lines(n as i32),
                        3..=5 => v.try_scroll_pages(n as i32),
                        6..=10 => v.resize(&Area::new(
                            area.left,
                            area.top,
                            (n.unsigned_abs() % 40) as u16,
                            (n.unsigned_abs() / 40) as u16,
                        )),
                        _ => v.write_on(&mut b).unwrap(),
                    }
                }
                v.write_on(&mut b).unwrap();
            }
            "listview" => {
                static ST: std::sync::OnceLock<CompoundStyle> = std::sync::OnceLock::new();
                let st = ST.get_or_init(|| MadSkin::default().bold);
                let mut cols: Vec<ListViewColumn<'_, String>> = Vec::new();
                for (i, op) in ops.iter().take(4).enumerate() {
                    let n = op[1].as_i64().unwrap_or(0).unsigned_abs() as usize;
                    let title: String = src2.chars().filter(|c| !c.is_control()).skip(i).take(n % 9).collect();
                    cols.push(
                        ListViewColumn::new(&title, n % 13, n % 13 + n / 13, {
                            let st = st;
                            Box::new(move |d: &String| ListViewCell::new(d.clone(), st))
                        })
                        .with_align(align),
                    );
                }
                if cols.is_empty() {
                    return Ok(());
                }
                let mut v = ListView::new(area.clone(), cols, &skin);
                if u(case, "align") == 2 {
                    v.sort(Box::new(|a: &String, b: &String| a.cmp(b)));
                }
                for l in src.lines().take(200) {
                    v.add_row(l.to_string());
                }
                v.update_dimensions();
                for op in ops {
                    let n = op[1].as_i64().unwrap_or(0);
                    match op[0].as_u64().unwrap_or(0) {
                        0 => v.try_scroll_lines(n as i32),
                        1 => v.try_scroll_pages(n as i32),
                        2 => v.try_select_next(n < 0),
                        3 => v.select_first_line(),
                        4 => v.select_last_line(),
                        5 => v.unselect(),
                        6 => v.set_filter(Box::new(move |s: &String| s.len() as i64 > n.abs() % 20)),
                        7 => v.remove_filter(),
                        8 => v.clear_rows(),
                        9 => v.add_row(format!("row {n}")),
                        10 => {
                            v.area = Area::new(0, 0, (n.unsigned_abs() % 60) as u16, (n.unsigned_abs() % 7) as u16);
                            if n % 2 == 0 {
                                v.update_dimensions();
                            }
                        }
                        11 => v.scroll_to_bottom(),
                        12 => v.make_selection_visible(),
                        _ => v.write_on(&mut b).unwrap(),
                    }
                    if b.len() > 3_000_000 {
                        break;
                    }
                }
                v.write_on(&mut b).unwrap();
                // a selected row ends with its style: what follows isn't a leak
                return well_formed_list(&b, esc, obs, case);
            }
            "input" => {
                let mut f = InputField::new(area.clone());
                f.set_str(src);
                f.set_normal_style(skin.bold.clone());
                f.password_mode = case["none"] == true;
                for op in ops {
                    let n = op[1].as_i64().unwrap_or(0);
                    match op[0].as_u64().unwrap_or(0) {
                        0 => f.set_area(Area::new(0, 0, (n.unsigned_abs() % 30) as u16, (n.unsigned_abs() % 5) as u16)),
                        1 => f.replace_selection(src2),
                        2 => {
                            f.move_to_start();
                        }
                        3 => {
                            f.page_up();
                        }
                        4 => {
                            f.page_down();
                        }
                        5 => {
                            f.del_word_right();
                            f.del_word_left();
                        }
                        6 => {
                            f.apply_click_event(n.unsigned_abs() as u16, (n.unsigned_abs() % 7) as u16);
                        }
                        7 => f.change_area(1, 2, (n.unsigned_abs() % 20) as u16),
                        8 => {
                            f.move_word_left();
                            f.move_word_right();
                        }
                        9 => f.set_focus(n > 0),
                        10 => {
                            f.cut_selection();
                        }
                        11 => {
                            f.scroll_down();
                            f.scroll_up();
                        }
                        12 => {
                            f.insert_new_line();
                        }
                        _ => {
                            f.display_on(&mut b).unwrap();
                        }
                    }
                    if b.len() > 3_000_000 {
                        break;
                    }
                }
                f.display_on(&mut b).unwrap();
                // the display resets the background before writing
                return well_formed(&b, esc, kind, obs);
            }
            "wrap" => {
                let lines: Vec<FmtLine> = minimad::parse_text(src, minimad::Options::default())
                    .lines
                    .into_iter()
                    .map(|l| FmtLine::from(l, &skin))
                    .collect();
                match wrap::hard_wrap_lines(lines, w, &skin) {
                    Ok(lines) => {
                        for l in &lines {
                            b.extend(DisplayableLine::new(&skin, l, Some(w)).to_string().bytes());
                        }
                    }
                    Err(_) => {
                        ensure!(w < 3, "wrap error", "wrapping at {w} gives an error");
                        obs.ev("wrap_refused", 1);
                    }
                }
                match TblFit::new(h, w) {
                    Ok(mut f) => {
                        for (i, op) in ops.iter().enumerate() {
                            f.see_cell(i, op[0].as_u64().unwrap_or(0) as usize * op[1].as_i64().unwrap_or(0).unsigned_abs() as usize);
                        }
                        let r = f.fit();
                        ensure!(r.col_widths.len() == h, "fit columns", "{} widths for {h} columns", r.col_widths.len());
                    }
                    Err(_) => obs.ev("table_refused", 1),
                }
            }
            "crop" => {
                StrFit::count_fitting(src, w);
                StrFit::make_string(src, w);
                StrFit::make_cow(src2, h);
                let mut cw = CropWriter::new(&mut b, w);
                cw.queue_str(&skin.bold, src).unwrap();
                cw.queue_unstyled_str(src2).unwrap();
                for c in src2.chars() {
                    cw.queue_char(&skin.italic, c).unwrap();
                    cw.queue_unstyled_char(c).unwrap();
                }
                cw.queue_unstyled_g_string(src.to_string()).unwrap();
                cw.queue_g_string(&skin.bold, src2.to_string()).unwrap();
                cw.fill_with_space(&skin.bold).unwrap();
                let sp = Spacing { width: w, align };
                sp.write_str(&mut b, src, &skin.bold).unwrap();
                sp.write_counted_str(&mut b, src2, h, &skin.bold).unwrap();
            }
            _ => {
                for c in src.chars().filter(|c| !c.is_control()).take(3).chain(['─']) {
                    let f = Filling::from_char(c);
                    f.queue_unstyled(&mut b, w).unwrap();
                    f.queue_styled(&mut b, &skin.bold, w + h).unwrap();
                }
                ensure!(compute_scrollbar(u(case, "scroll"), w * 10, h, 3usize).is_some() == (w * 10 > h), "scrollbar", "{w} {h}");
                for i in 0..=10 {
                    b.extend(ProgressBar::new(i as f32 / 10.0, w).to_string().bytes());
                }
                let _ = parse_color(src);
                let _ = parse_attribute(src);
                let _ = parse_align(src);
                let _ = parse_compound_style(src);
                let _ = parse_line_style(src);
                let _ = parse_styled_char(src, '*');
                let _ = parse_style_tokens(src2);
                // pieces of styles
                let defs = ["rgb(", "gray(", "ansi(", "#", "bold", "red", "none", "center", "999999999999999999999999", ")", " ", ",", "-1", "12", "#fff", "é", "*"];
                let mut def = String::new();
                for op in ops {
                    def.push_str(defs[op[0].as_u64().unwrap_or(0) as usize % defs.len()]);
                }
                let _ = parse_line_style(&def);
                let _ = parse_styled_char(&def, '*');
                let _: Result<MadSkin, _> = serde_json::from_str(&json!({"bold": def, "headers": [src, def]}).to_string());
                let _: Result<MadSkin, _> = serde_json::from_str(&json!({"headers": def}).to_string());
                let _: Result<MadSkin, _> = serde_json::from_str(&json!({"scrollbar": def}).to_string());
                let _: Result<MadSkin, _> = serde_json::from_str(&json!({"bullet": src, "table_border_chars": src2}).to_string());
                b.extend(skin.bullet.repeated(w).to_string().bytes());
                skin.quote_mark.queue_repeat(&mut b, h).unwrap();
                for f in [&*SPACE_FILLING] {
                    f.queue_styled(&mut b, &skin.bold, w).unwrap();
                    f.queue_unstyled(&mut b, w).unwrap();
                }
            }
        }
        if !b.is_empty() {
            obs.nontrivial(hash_str(&case.to_string()));
        }
        obs.max("output_bytes", b.len() as u64);
        well_formed(&b, esc, kind, obs)
    }
}

/// the selected background may still be set when the scrollbar or the next
/// row is drawn
fn well_formed_list(b: &[u8], esc: bool, obs: &mut Obs, case: &Value) -> R {
    if !b.is_empty() {
        obs.nontrivial(hash_str(&case.to_string()));
    }
    well_formed(b, esc, "listview", obs)
}
