//! Rendering of texts: C01 (width), C02 (conservation), C04 (exact unwrapped),
//! C05 (layout)

use {
    crate::{core::*, gen::*, model::*, term::*},
    serde_json::{json, Value},
    termimad::{
        minimad::{self, CompositeStyle},
        *,
    },
};

pub fn parse_ok(md: &str) -> Option<minimad::Text<'_>> {
    std::panic::catch_unwind(|| minimad::parse_text(md, minimad::Options::default())).ok()
}

/// the text of a case, whose list items may be deeper than what can be parsed
fn text_of<'s>(case: &Value, md: &'s str) -> Option<minimad::Text<'s>> {
    let mut t = parse_ok(md)?;
    let deep = u(case, "deep").min(255) as u8;
    for l in &mut t.lines {
        if let minimad::Line::Normal(c) = l {
            if let minimad::CompositeStyle::ListItem(d) = &mut c.style {
                *d = d.saturating_add(deep);
            }
        }
    }
    Some(t)
}

/// format the text of a case
fn formatted<'k, 's>(case: &Value, skin: &'k MadSkin, md: &'s str, width: Option<usize>) -> FmtText<'k, 's> {
    match text_of(case, md) {
        Some(t) if u(case, "deep") > 0 => FmtText::from_text(skin, t, width),
        _ => skin.text(md, width),
    }
}

pub fn has_table(t: &minimad::Text<'_>) -> bool {
    t.lines.iter().any(|l| l.is_table_part())
}

/// drop the tables, keeping the other lines
pub fn without_tables(md: &str) -> String {
    let mut s = String::new();
    for l in md.lines() {
        if !l.starts_with('|') {
            s.push_str(l);
            s.push('\n');
        }
    }
    s
}

pub fn max_cw(g: &[Glyph]) -> usize {
    g.iter().map(|(c, _)| cw(*c)).max().unwrap_or(1).max(1)
}

/// whether there's room beside the marks for all composites
pub fn has_room(skin: &MadSkin, t: &minimad::Text<'_>, width: usize) -> bool {
    t.lines.iter().all(|l| match l {
        minimad::Line::Normal(c) => {
            let g = content_of(skin, c);
            let ls = line_style_of(skin, c.style);
            let (lm, rm) = margins(ls, Some(width));
            indents(skin, c.style).0 + max_cw(&g.glyphs) + lm + rm <= width
        }
        minimad::Line::TableRow(r) => r.cells.iter().all(|c| {
            let g = content_of(skin, c);
            indents(skin, c.style).0 + max_cw(&g.glyphs) <= 3
                || indents(skin, c.style).0 + width_of(&g.glyphs) <= 3
        }),
        _ => true,
    })
}

/// add rare things in a text: ellipsis, zero width chars, wide gaps
pub fn sprinkle(r: &mut Rng, md: &mut String, alpha: Alpha) {
    if !r.chance(1, 4) {
        return;
    }
    let mut chars: Vec<String> = md.chars().map(|c| c.to_string()).collect();
    for _ in 0..r.range(1, 4) {
        let i = r.below(chars.len().max(1));
        if i >= chars.len() || chars[i] == "\n" {
            continue;
        }
        match r.below(4) {
            0 if chars[i].chars().all(|c| c.is_ascii_alphabetic()) => chars[i] = "…".to_string(),
            1 if alpha == Alpha::Uni => {
                chars.insert(i, r.pick(&["*\u{301}*", "**\u{200b}**", "\u{200b}", "`\u{301}`"]).to_string())
            }
            2 => chars.insert(i, " ".repeat(r.range(1, 30))),
            _ => {
                let n = *r.pick(&[5, 40, 300]);
                chars.insert(i, "x".repeat(r.range(1, n)))
            }
        }
    }
    *md = chars.concat();
}

fn gen_case(r: &mut Rng, tables: bool, unwrapped: bool) -> Value {
    let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
    let blocks = *r.pick(&[1, 1, 2, 4, 8]);
    let mut md = text_md(r, alpha, blocks);
    if !tables {
        md = without_tables(&md);
    }
    sprinkle(r, &mut md, alpha);
    let mut width = rand_width(r);
    if r.chance(1, 3) {
        // a width near the one of a line
        let ws: Vec<usize> = md.lines().map(|l| l.chars().map(cw).sum()).collect();
        if !ws.is_empty() {
            let w = *r.pick(&ws);
            width = (w as i64 + r.irange(-4, 4)).clamp(3, 700) as usize;
        }
    }
    let mut c = if unwrapped {
        json!({"md": md, "skin": rand_skin_seed(r)})
    } else {
        json!({"md": md, "width": width, "skin": rand_skin_seed(r)})
    };
    if md.contains("* ") && r.chance(1, 8) {
        let deep = *r.pick(&[1, 2, 5, 12, 40, 252, 253, 255]);
        c["deep"] = json!(deep);
        if !unwrapped && deep > 20 {
            c["width"] = json!(deep + r.range(2, 60));
        }
    }
    c
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}
pub fn u(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or(0) as usize
}

fn kinds_seen(t: &minimad::Text<'_>, obs: &mut Obs) {
    for l in &t.lines {
        obs.ev(
            match l {
                minimad::Line::Normal(c) => match c.style {
                    CompositeStyle::Paragraph => "src_paragraph",
                    CompositeStyle::Header(_) => "src_header",
                    CompositeStyle::ListItem(_) => "src_list_item",
                    CompositeStyle::Code => "src_code",
                    CompositeStyle::Quote => "src_quote",
                },
                minimad::Line::TableRow(_) => "src_table_row",
                minimad::Line::TableRule(_) => "src_table_rule",
                _ => "src_rule",
            },
            1,
        );
    }
}

// ------------------------------------------------------------- C01

pub struct C01;

impl Check for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "random markdown texts (paragraphs, headers, lists, quotes, code, rules, tables; ascii, wide and combining chars) x random skins x widths 3..250; non trivial when the output has a line count different from the source one or reaches the width exactly"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["no control chars nor multi-char emoji sequences in texts", "at least one (two for wide chars) column beside list and quote marks"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 450_000 } else { 3_000_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["lines_measured", "lines_full", "deep_lists", "src_table_row", "src_code", "src_quote", "src_list_item", "src_header"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        gen_case(r, true, false)
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let md = s(case, "md");
        let width = u(case, "width");
        if width < 3 {
            return Ok(());
        }
        let skin = skin(case["skin"].as_u64().unwrap_or(0));
        let Some(t) = text_of(case, md) else {
            return Ok(());
        };
        if !has_room(&skin, &t, width) {
            obs.ev("skipped_no_room", 1);
            return Ok(());
        }
        kinds_seen(&t, obs);
        let n = t.lines.len();
        let out = match case["skin"].as_u64().unwrap_or(0) % 3 {
            _ if u(case, "deep") > 0 => {
                obs.ev("deep_lists", 1);
                formatted(case, &skin, md, Some(width)).to_string()
            }
            0 => FmtText::from_text(&skin, t, Some(width)).to_string(),
            1 => FmtText::from(&skin, md, Some(width)).to_string(),
            _ => skin.text(md, Some(width)).to_string(),
        };
        let lines = lines_of(&out)?;
        let mut full = false;
        for (i, l) in lines.iter().enumerate() {
            let w = width_of(l);
            ensure!(
                w <= width,
                "line wider than the requested width",
                "width {width}: line {i} has width {w}: {:?}\n{}",
                plain(l),
                lines.iter().map(|l| plain(l)).collect::<Vec<_>>().join("\n")
            );
            if w == width {
                obs.ev("lines_full", 1);
                full = true;
            }
        }
        obs.ev("lines_measured", lines.len() as u64);
        // raw texts are wrapped too
        let raw = FmtText::raw_str(&skin, md, Some(width)).to_string();
        if margins(&skin.paragraph, Some(width)).0 + margins(&skin.paragraph, Some(width)).1 + 2 <= width {
            for l in lines_of(&raw)? {
                ensure!(
                    width_of(&l) <= width,
                    "raw line wider than the requested width",
                    "width {width}: {:?}",
                    plain(&l)
                );
                obs.ev("raw_lines_measured", 1);
            }
        }
        if full || lines.len() != n {
            obs.nontrivial(hash_str(&out) ^ width as u64);
            obs.sample(json!({"case": case, "rendered": lines.iter().map(|l| plain(l)).collect::<Vec<_>>()}));
        }
        Ok(())
    }
}

// ------------------------------------------------------------- C02

pub struct C02;

impl Check for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "random markdown texts without tables, wrapped at widths 3..250 with random skins; every printed glyph with its style is aligned to the parsed source; non trivial when at least a line was broken"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the minimad parser is the reference for the markdown meaning", "no control chars in texts; an ellipsis char of the text may have the style of ellipsis"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 360_000 } else { 2_500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["glyphs_aligned", "line_breaks", "rewrapped_breaks", "src_code", "src_quote", "src_list_item", "src_header"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        gen_case(r, false, false)
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let md = s(case, "md");
        let width = u(case, "width");
        if width < 3 {
            return Ok(());
        }
        let skin = skin(case["skin"].as_u64().unwrap_or(0));
        let Some(t) = text_of(case, md) else {
            return Ok(());
        };
        if !has_room(&skin, &t, width) || has_table(&t) {
            return Ok(());
        }
        kinds_seen(&t, obs);
        let out = formatted(case, &skin, md, Some(width)).to_string();
        let lines = lines_of(&out)?;
        let src = src_lines(&skin, &t);
        let breaks = check_lines(&skin, &src, &lines, Some(width), Strictness::Content, false)?;
        obs.ev("line_breaks", breaks as u64);
        obs.ev("glyphs_aligned", lines.iter().map(|l| l.len() as u64).sum());
        if breaks > 0 {
            obs.nontrivial(hash_str(&out) ^ width as u64);
            obs.sample(json!({"case": case, "rendered": lines.iter().map(|l| plain(l)).collect::<Vec<_>>()}));
        }
        rewrap(&skin, &t, case, md, width, obs)?;
        // raw text: no markdown interpretation at all
        let raw = FmtText::raw_str(&skin, md, Some(width));
        let rt = minimad::Text { lines: md.lines().map(minimad::Line::raw_str).collect() };
        if has_room(&skin, &rt, width) {
            let src: Vec<SrcLine> = md
                .lines()
                .map(|l| {
                    let c = minimad::Composite::raw_str(l);
                    SrcLine::Composite(content_of(&skin, &c))
                })
                .collect();
            let lines = lines_of(&raw.to_string())?;
            let b = check_lines(&skin, &src, &lines, Some(width), Strictness::Content, false)?;
            obs.ev("raw_line_breaks", b as u64);
        }
        Ok(())
    }
}

// ------------------------------------------------------------- C05

/// the chars of normal lines which can't be dropped, with their attributes
fn kept_chars(lines: &[FmtLine<'_>]) -> Vec<(char, [bool; 4])> {
    lines
        .iter()
        .filter_map(|l| match l {
            FmtLine::Normal(fc) => Some(fc),
            _ => None,
        })
        .flat_map(|fc| &fc.compounds)
        .flat_map(|c| {
            let atts = [c.bold, c.italic, c.strikeout, c.code];
            c.src.chars().filter(move |x| c.code || !x.is_whitespace()).map(move |x| (x, atts))
        })
        .collect()
}

/// wrap again, narrower, lines which may have been wrapped already
fn rewrap(skin: &MadSkin, t: &minimad::Text<'_>, case: &Value, md: &str, width: usize, obs: &mut Obs) -> R {
    let seed = case["skin"].as_u64().unwrap_or(0);
    let narrow = 3 + Rng::new(seed ^ hash_str(md)).below(width - 2);
    if !has_room(skin, t, narrow) {
        return Ok(());
    }
    let lines = formatted(case, skin, md, Some(width)).lines;
    let before = kept_chars(&lines);
    let n = lines.len();
    let Ok(lines) = wrap::hard_wrap_lines(lines, narrow, skin) else {
        return viol("rewrapping refused", format!("{width} then {narrow}"));
    };
    let after = kept_chars(&lines);
    ensure!(
        before == after,
        "content changed when wrapping again",
        "{width} then {narrow}: {:?}\n{:?}",
        before.iter().map(|c| c.0).collect::<String>(),
        after.iter().map(|c| c.0).collect::<String>()
    );
    for l in &lines {
        if let FmtLine::Normal(fc) = l {
            let ls = line_style_of(skin, match fc.kind {
                CompositeKind::Code => minimad::CompositeStyle::Code,
                CompositeKind::Header(n) => minimad::CompositeStyle::Header(n),
                CompositeKind::ListItem(n) | CompositeKind::ListItemFollowUp(n) => minimad::CompositeStyle::ListItem(n),
                CompositeKind::Quote => minimad::CompositeStyle::Quote,
                CompositeKind::Paragraph => minimad::CompositeStyle::Paragraph,
            });
            let (lm, rm) = margins(ls, Some(narrow));
            let marks = wrap::composite_kind_widths(fc.kind, skin).0;
            let w: usize = fc.compounds.iter().flat_map(|c| c.src.chars()).map(cw).sum();
            ensure!(lm + rm + marks + w <= narrow, "too wide when wrapping again", "{width} then {narrow}: {fc:?}");
        }
    }
    obs.ev("rewrapped", 1);
    obs.ev("rewrapped_breaks", (lines.len() - n) as u64);
    Ok(())
}

pub struct C05;

impl Check for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "random markdown texts without tables rendered at widths 3..250 with random alignments and margins; each output line is compared, cell by cell, with the layout model (outer completion, margins, mark, content, block padding, with and without right completion); non trivial when a line has margins or an alignment which moved it"
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 240_000 } else { 1_500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["lines_laid_out", "lines_moved", "src_code", "completed_lines"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        gen_case(r, false, false)
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let md = s(case, "md");
        let width = u(case, "width");
        if width < 3 {
            return Ok(());
        }
        let skin = skin(case["skin"].as_u64().unwrap_or(0));
        let Some(t) = text_of(case, md) else {
            return Ok(());
        };
        if !has_room(&skin, &t, width) || has_table(&t) {
            return Ok(());
        }
        kinds_seen(&t, obs);
        let ft = formatted(case, &skin, md, Some(width));
        let out = ft.to_string();
        let lines = lines_of(&out)?;
        let src = src_lines(&skin, &t);
        check_lines(&skin, &src, &lines, Some(width), Strictness::Exact, false)?;
        obs.ev("lines_laid_out", lines.len() as u64);
        // the same with the right completion, used in areas
        let mut clines = Vec::new();
        for l in &ft.lines {
            let d = DisplayableLine::new(&skin, l, Some(width)).to_string();
            let ls = lines_of(&d)?;
            let line = ls.into_iter().next().unwrap_or_default();
            ensure!(
                width_of(&line) == width,
                "completed line doesn't fill the width",
                "width {width}, got {}: {:?}",
                width_of(&line),
                plain(&line)
            );
            obs.ev("completed_lines", 1);
            clines.push(line);
        }
        check_lines(&skin, &src, &clines, Some(width), Strictness::Exact, true)?;
        let mut moved = false;
        for l in &lines {
            if l.first().map_or(false, |g| g.0 == ' ') {
                obs.ev("lines_moved", 1);
                moved = true;
            }
        }
        if moved {
            obs.nontrivial(hash_str(&out) ^ width as u64);
            obs.sample(json!({"case": case, "rendered": lines.iter().map(|l| plain(l)).collect::<Vec<_>>()}));
        }
        Ok(())
    }
}

// ------------------------------------------------------------- C04

pub struct C04;

impl Check for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "random markdown texts and snippets rendered without wrapping through every inline and text writer; glyphs and styles compared exactly with the model; non trivial when at least two distinct styles are seen"
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 400_000 } else { 1_500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["inline_glyphs", "text_glyphs", "special_chars_seen", "exotic_skins", "src_code", "src_quote", "src_list_item", "src_header"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let mut c = gen_case(r, false, true);
        let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
        c["inline"] = json!(inline_md(r, alpha, 12, true));
        c["special"] = json!(r.chance(1, 3));
        if r.chance(1, 4) {
            c["exotic"] = json!(r.u64() % 1_000_000_007);
        }
        c
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let md = s(case, "md");
        let inl = s(case, "inline");
        let mut skin = skin(case["skin"].as_u64().unwrap_or(0));
        if let Some(seed) = case["exotic"].as_u64() {
            exotic(&mut skin, seed);
            obs.ev("exotic_skins", 1);
        }
        let Some(t) = text_of(case, md) else {
            return Ok(());
        };
        if has_table(&t) {
            return Ok(());
        }
        let Ok(comp) = std::panic::catch_unwind(|| minimad::Composite::from_inline(inl)) else {
            return Ok(());
        };
        // ---- inline
        let par = &skin.paragraph;
        let (lm, _) = margins(par, None);
        let psty = sty_of(&par.compound_style);
        let mut want = rep(lm, ' ', psty);
        want.extend(content_of(&skin, &comp).glyphs);
        let check = |name: &str, out: &str, want: &[Glyph]| -> Result<(), Viol> {
            let lines = lines_of(out)?;
            let got: Vec<Glyph> = lines.into_iter().flatten().collect();
            ensure!(
                got == want,
                format!("{name}: glyphs or styles differ from the source"),
                "src {inl:?}\ngot  {:?}\nwant {:?}\n{got:?}\n{want:?}",
                plain(&got),
                plain(want)
            );
            Ok(())
        };
        check("inline", &skin.inline(inl).to_string(), &want)?;
        let mut b = Vec::new();
        skin.write_inline_on(&mut b, inl).unwrap();
        check("write_inline_on", &String::from_utf8_lossy(&b), &want)?;
        let mut b = Vec::new();
        skin.write_composite(&mut b, comp.clone()).unwrap();
        check("write_composite", &String::from_utf8_lossy(&b), &want)?;
        obs.ev("inline_glyphs", want.len() as u64);
        // ---- special chars
        if case["special"].as_bool() == Some(true) {
            let mut r = Rng::new(hash_str(inl));
            if !comp.compounds.is_empty() {
                let k = r.below(comp.compounds.len());
                let sc = StyledChar::new(rand_cs(&mut r), '★');
                let target = comp.compounds[k].clone();
                let owned: &'static str = Box::leak(target.src.to_string().into_boxed_str());
                let mut key = minimad::Compound::raw_str(owned);
                key.bold = target.bold;
                key.italic = target.italic;
                key.code = target.code;
                key.strikeout = target.strikeout;
                skin.special_chars.insert(key, sc.clone());
                let mut w2 = rep(lm, ' ', psty);
                for c in &comp.compounds {
                    if *c == target {
                        w2.push(('★', sty_of(sc.compound_style())));
                        obs.ev("special_chars_seen", 1);
                    } else {
                        let sty = compound_sty(&skin, &skin.paragraph, c);
                        w2.extend(c.src.chars().map(|ch| (ch, sty)));
                    }
                }
                check("special char", &skin.inline(inl).to_string(), &w2)?;
                skin.special_chars.clear();
            }
        }
        // ---- text
        kinds_seen(&t, obs);
        let src = src_lines(&skin, &t);
        let out = formatted(case, &skin, md, None).to_string();
        let lines = lines_of(&out)?;
        ensure!(
            lines.len() == src.len(),
            "unwrapped text: number of lines",
            "{} lines for {} source lines: {out:?}",
            lines.len(),
            src.len()
        );
        check_lines(&skin, &src, &lines, None, Strictness::Exact, false)?;
        obs.ev("text_glyphs", lines.iter().map(|l| l.len() as u64).sum());
        let mut stys: Vec<Sty> = lines.iter().flatten().map(|g| g.1).collect();
        stys.sort();
        stys.dedup();
        if stys.len() > 1 {
            obs.nontrivial(hash_str(&out) ^ hash_str(inl));
            obs.sample(json!({"case": case, "styles": stys.len()}));
        }
        Ok(())
    }
}
