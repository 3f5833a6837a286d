//! C07 cropped and counted writing, C10 scrollbar geometry, C24 rectangles and
//! areas, C25 progress bar

use {
    crate::{core::*, gen::*, model::*, render::*, term::*},
    serde_json::{json, Value},
    termimad::{crossterm::style::Color, *},
};

// ------------------------------------------------------------------- C07

pub struct C07;

static FILL_CHARS: &[char] = &[' ', '-', '▐', '█', 'é', '═'];

pub fn filling(k: usize) -> &'static Filling {
    use std::sync::OnceLock;
    static F: OnceLock<Vec<Filling>> = OnceLock::new();
    &F.get_or_init(|| FILL_CHARS.iter().map(|c| Filling::from_char(*c)).collect())
        [k % FILL_CHARS.len()]
}

fn crop_text(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => 0,
        1..=5 => r.range(0, 12),
        _ => r.range(0, 60),
    };
    let mode = r.below(4);
    (0..n)
        .map(|_| match (mode, r.below(10)) {
            (0, _) => *r.pick(&['a', 'b', 'Z', ' ', '.', '0']),
            (_, 0..=3) => *r.pick(&['a', 'b', 'Z', ' ', '.', '0', 'é', 'ж']),
            (_, 4..=6) => *r.pick(&['概', '要', '한', '글', 'ー', '（']),
            (2, _) => *r.pick(&['\u{301}', '\u{308}', '\u{200b}', 'e']),
            (3, _) => *r.pick(&['\t', '\t', ' ', 'x']),
            _ => *r.pick(&['…', '─', '█', 'ß', '🚀']),
        })
        .collect()
}

/// longest prefix whose all own prefixes fit (tabs being replaced)
fn crop_oracle(s: &str, max: usize) -> (usize, usize, String) {
    let mut cols: i64 = 0;
    let mut bytes = 0;
    let mut out = String::new();
    for c in s.chars() {
        let w = match c {
            '\t' => 2,
            '\u{8}' => -1,
            c => cw(c) as i64,
        };
        if cols + w > 0 && (cols + w) as usize > max {
            break;
        }
        cols += w;
        bytes += c.len_utf8();
        if c == '\t' {
            out.push_str("  ");
        } else {
            out.push(c);
        }
    }
    (bytes, cols.max(0) as usize, out)
}

fn cs_of(k: u64) -> CompoundStyle {
    if k == 0 {
        CompoundStyle::default()
    } else {
        rand_cs(&mut Rng::new(k))
    }
}

impl Check for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "random strings (wide, combining, tab, backspace chars) cropped at random widths; random sequences of calls of all the queueing functions of a CropWriter with random allowance; fillings of up to 3500 columns; counted strings of random spacing; non trivial when something was cropped or a sequence ended full"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "filling chars and gentle strings are made of chars of one column",
            "counted strings to truncate are made of chars of one column (documented limit)",
        ]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_000_000 } else { 15_000_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["strings_cropped", "writer_ops", "writers_full", "fillings", "counted_padded", "counted_truncated", "tabs_replaced", "custom_tabs"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        match r.below(8) {
            0..=2 => {
                let mut s = crop_text(r);
                if r.chance(1, 6) {
                    s = s.chars().flat_map(|c| if r.chance(1, 3) { vec![c, '\u{8}'] } else { vec![c] }).collect();
                }
                let w: usize = s.chars().map(cw).sum();
                json!({"k": "fit", "s": s, "max": if r.chance(2, 3) { r.range(0, w + 2) } else { r.range(0, 200) }})
            }
            3 => {
                let n = r.range(0, 3000);
                json!({
                    "k": "fill", "f": r.below(6), "style": r.below(50),
                    "n": *r.pick(&[0, 1, 2, 999, 1000, 1001, 1999, 2000, 2001, 3500, n]),
                })
            }
            4 => json!({
                "k": "spacing",
                "s": if r.bool() { crop_text(r).replace('\t', "") } else { word(r, Alpha::Gentle, 20) },
                "width": r.range(0, 40), "align": r.below(4), "style": r.below(50),
            }),
            _ => {
                let n = r.range(1, 14);
                let ops: Vec<Value> = (0..n)
                    .map(|_| {
                        let st = r.below(60);
                        match r.below(11) {
                            0 => json!(["str", crop_text(r), st]),
                            1 => json!(["ustr", crop_text(r), 0]),
                            2 => json!(["char", crop_text(r).chars().next().unwrap_or('a').to_string(), st]),
                            3 => json!(["uchar", crop_text(r).chars().next().unwrap_or('a').to_string(), 0]),
                            4 => json!(["gstr", word(r, Alpha::Gentle, 12), st]),
                            5 => json!(["ugstr", word(r, Alpha::Gentle, 12), 0]),
                            6 => json!(["repeat", r.below(30), st, r.below(6)]),
                            7 => json!(["urepeat", r.below(30), 0, r.below(6)]),
                            8 if r.chance(1, 4) => json!(["fill", 0, st, r.below(6)]),
                            9 if r.chance(1, 4) => json!(["ufill", 0, 0, r.below(6)]),
                            8 | 9 => json!(["str", crop_text(r), st]),
                            _ if r.chance(1, 4) => json!(["space", 0, st]),
                            _ if r.chance(1, 3) => json!(["colors", 0, st]),
                            _ => json!(["uchar", "x", 0]),
                        }
                    })
                    .collect();
                json!({"k": "writer", "tab": r.below(10), "allowed": if r.chance(1, 6) { r.below(300) } else { r.below(40) }, "ops": ops})
            }
        }
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        match s(case, "k") {
            "fit" => {
                let txt = s(case, "s");
                let max = u(case, "max");
                let (bytes, cols, out) = crop_oracle(txt, max);
                let got = StrFit::count_fitting(txt, max);
                ensure!(got == (bytes, cols), "count_fitting", "{got:?} instead of {:?} for {txt:?} in {max}", (bytes, cols));
                let (st, c) = StrFit::make_string(txt, max);
                ensure!(st == out && c == cols, "make_string", "{:?} instead of {:?} for {txt:?} in {max}", (st, c), (out, cols));
                let (st, c) = StrFit::make_cow(txt, max);
                ensure!(st == out && c == cols, "make_cow", "{:?} instead of {:?} for {txt:?} in {max}", (st, c), (out, cols));
                obs.ev("strings_fitted", 1);
                obs.ev("tabs_replaced", out.matches("  ").count().min(txt.matches('\t').count()) as u64);
                if bytes < txt.len() {
                    obs.ev("strings_cropped", 1);
                    obs.nontrivial(hash_str(txt) ^ max as u64);
                }
            }
            "fill" => {
                let (f, n) = (u(case, "f"), u(case, "n"));
                let cs = cs_of(case["style"].as_u64().unwrap_or(0));
                let c = FILL_CHARS[f % FILL_CHARS.len()];
                let mut b = Vec::new();
                filling(f).queue_styled(&mut b, &cs, n).unwrap();
                let l = one_line(&b)?;
                ensure!(l == rep(n, c, sty_of(&cs)), "styled filling", "{} chars instead of {n}: {:?}", l.len(), l.first());
                let mut b = Vec::new();
                filling(f).queue_unstyled(&mut b, n).unwrap();
                ensure!(String::from_utf8_lossy(&b).chars().eq(std::iter::repeat(c).take(n)), "unstyled filling", "{} bytes", b.len());
                let mut b = Vec::new();
                fill_bg(&mut b, n, Color::AnsiValue(77)).unwrap();
                let sc = Screen::of(&b)?;
                ensure!(
                    sc.cells.len() == n && sc.cells.values().all(|c| c.ch == Some(' ') && c.sty.bg == Some(Col::Ansi(77))),
                    "fill_bg", "{} cells instead of {n}", sc.cells.len()
                );
                obs.ev("fillings", 1);
                obs.max("filling_len", n as u64);
            }
            "spacing" => {
                let txt = s(case, "s");
                let width = u(case, "width");
                let align = align_k(case["align"].as_u64().unwrap_or(0));
                let cs = cs_of(case["style"].as_u64().unwrap_or(0));
                let sp = Spacing { width, align };
                let w: usize = txt.chars().map(cw).sum();
                let control = txt.chars().any(|c| c.is_control());
                if control {
                    return Ok(());
                }
                let mut b = Vec::new();
                sp.write_counted_str(&mut b, txt, w, &cs).unwrap();
                let l = one_line(&b)?;
                let (lp, rp) = completions(align, w, width);
                let sty = sty_of(&cs);
                let mut want = rep(lp, ' ', sty);
                want.extend(txt.chars().map(|c| (c, sty)));
                want.extend(rep(rp, ' ', sty));
                if w >= width {
                    let mut n = 0;
                    let fit = txt.chars().take_while(|c| { n += cw(*c); n <= width }).count();
                    let fitw: usize = txt.chars().take(fit).map(cw).sum();
                    want.truncate(fit);
                    want.extend(rep(width - fitw, ' ', sty));
                    obs.ev("counted_truncated", 1);
                } else {
                    obs.ev("counted_padded", 1);
                }
                ensure!(l == want && width_of(&l) == width, "counted string", "{:?} instead of {:?} ({txt:?} in {width} {align:?})", plain(&l), plain(&want));
                {
                    let mut b = Vec::new();
                    sp.write_str(&mut b, txt, &cs).unwrap();
                    let l = one_line(&b)?;
                    ensure!(l == want, "write_str", "{:?} instead of {:?}", plain(&l), plain(&want));
                }
                ensure!(sp.completions_for(w) == (lp, rp), "completions", "{:?}", sp.completions_for(w));
                ensure!(Spacing::optional_completions(align, w, None) == (0, 0), "completions without width", "not null");
                ensure!(
                    Spacing::optional_completions(align, w, Some(width)) == (lp, rp),
                    "optional completions", "{:?}", Spacing::optional_completions(align, w, Some(width))
                );
            }
            _ => {
                let allowed = u(case, "allowed");
                let mut buf: Vec<u8> = Vec::new();
                let mut want: Vec<Glyph> = Vec::new();
                let mut remaining = allowed;
                let mut seen = 0;
                let mut left = allowed;
                // a custom replacement of the tabs, for some writers
                let tab = match u(case, "tab") {
                    0 => "    ",
                    1 => "→",
                    2 => "",
                    3 => "概>",
                    _ => DEFAULT_TAB_REPLACEMENT,
                };
                let custom_tab = tab != DEFAULT_TAB_REPLACEMENT;
                for op in case["ops"].as_array().unwrap_or(&vec![]) {
                    let kind = op[0].as_str().unwrap_or("");
                    let txt = op[1].as_str().unwrap_or("");
                    let n = op[1].as_u64().unwrap_or(0) as usize;
                    let cs = cs_of(op[2].as_u64().unwrap_or(0));
                    let f = op[3].as_u64().unwrap_or(0) as usize;
                    let fc = FILL_CHARS[f % FILL_CHARS.len()];
                    let unstyled = kind.starts_with('u');
                    let sty = if unstyled { Sty::default() } else { sty_of(&cs) };
                    let mut w = CropWriter::new(&mut buf, left);
                    w.tab_replacement = tab;
                    if custom_tab && txt.contains('\t') {
                        obs.ev("custom_tabs", 1);
                    }
                    let mut optional: Option<char> = None;
                    ensure!(w.is_full() == (left == 0), "is_full", "{} with {left} left", w.is_full());
                    let exp: Vec<char>;
                    match kind {
                        "str" | "ustr" => {
                            let replaced = txt.replace('\t', tab);
                            let src = if custom_tab { &replaced } else { txt };
                            let (_, c, o) = if left == 0 { (0, 0, String::new()) } else { crop_oracle(src, left) };
                            if unstyled { w.queue_unstyled_str(txt) } else { w.queue_str(&cs, txt) }.unwrap();
                            exp = o.chars().collect();
                            remaining -= c;
                            if c < txt.chars().map(cw).sum() {
                                obs.ev("writer_crops", 1);
                            }
                        }
                        "char" | "uchar" => {
                            let c = txt.chars().next().unwrap_or('a');
                            if unstyled { w.queue_unstyled_char(c) } else { w.queue_char(&cs, c) }.unwrap();
                            if c == '\t' && custom_tab {
                                let (_, n, o) = if left == 0 { (0, 0, String::new()) } else { crop_oracle(tab, left) };
                                exp = o.chars().collect();
                                remaining -= n;
                            } else if c == '\t' {
                                // the replacement may be cropped too
                                if left == 1 {
                                    exp = vec![];
                                    optional = Some(' ');
                                } else {
                                    exp = vec![' '; left.min(2)];
                                    remaining -= exp.len();
                                }
                            } else if cw(c) < left {
                                exp = vec![c];
                                remaining -= cw(c);
                            } else {
                                exp = vec![];
                                if cw(c) == left {
                                    // it's not specified whether the last column may be
                                    // covered when writing char per char
                                    optional = Some(c);
                                }
                            }
                        }
                        "gstr" | "ugstr" => {
                            if unstyled { w.queue_unstyled_g_string(txt.to_string()) } else { w.queue_g_string(&cs, txt.to_string()) }.unwrap();
                            exp = txt.chars().take(left).collect();
                            remaining -= exp.len();
                        }
                        "repeat" | "urepeat" => {
                            if unstyled { w.repeat_unstyled(filling(f), n) } else { w.repeat(&cs, filling(f), n) }.unwrap();
                            exp = std::iter::repeat(fc).take(n.min(left)).collect();
                            remaining -= exp.len();
                        }
                        "fill" | "ufill" => {
                            if unstyled { w.fill_unstyled(filling(f)) } else { w.fill(&cs, filling(f)) }.unwrap();
                            exp = std::iter::repeat(fc).take(left).collect();
                            remaining = 0;
                        }
                        "space" => {
                            w.fill_with_space(&cs).unwrap();
                            exp = std::iter::repeat(' ').take(left).collect();
                            remaining = 0;
                        }
                        "colors" => {
                            // nothing is printed, the current colors change
                            w.queue_fg(&cs).unwrap();
                            w.queue_bg(&cs).unwrap();
                            w.queue_unstyled_str("").unwrap();
                            exp = vec![];
                        }
                        o => return viol("HARNESS", format!("unknown op {o}")),
                    }
                    if matches!(kind, "str" | "ustr") {
                        // what can be written
                        let mut scrap: Vec<u8> = Vec::new();
                        let mut probe = CropWriter::new(&mut scrap, left);
                        probe.tab_replacement = tab;
                        let (cropped, n) = probe.cropped_str(txt);
                        let replaced = txt.replace('\t', tab);
                        let (_, c, o) = crop_oracle(if custom_tab { &replaced } else { txt }, left);
                        ensure!(cropped == o && n == c, "cropped_str", "{:?} instead of {:?} for {txt:?} in {left}", (cropped, n), (o, c));
                    }
                    let now = w.allowed;
                    obs.ev("writer_ops", 1);
                    if kind == "colors" {
                        // what would be written now has these colors
                        let mut then = buf.clone();
                        then.extend(b"x\x1b[0m");
                        let l = one_line(&then)?;
                        let sty = Sty { fg: sty.fg, bg: sty.bg, ..Default::default() };
                        ensure!(l.last() == Some(&('x', sty)), "current colors", "{:?} instead of {sty:?}", l.last());
                        buf.extend(b"\x1b[0m");
                        obs.ev("current_colors", 1);
                    }
                    let l = one_line(&buf)?;
                    let printed = width_of(&l);
                    ensure!(
                        printed + now == allowed,
                        "printed and allowed columns don't match",
                        "{printed} printed, {now} still allowed, {allowed} initially, after {op}"
                    );
                    if let (Some(c), true) = (optional, l.len() > seen) {
                        want.push((c, sty));
                        remaining -= cw(c);
                    } else {
                        want.extend(exp.into_iter().map(|c| (c, sty)));
                    }
                    ensure!(l == want, "cropped writing", "{:?} instead of {:?} after {op} (allowed: {left})\n{l:?}\n{want:?}", plain(&l), plain(&want));
                    ensure!(now == remaining, "allowance", "{now} instead of {remaining} after {op}");
                    left = now;
                    seen = l.len();
                }
                if left == 0 {
                    obs.ev("writers_full", 1);
                    obs.nontrivial(hash_str(&case["ops"].to_string()) ^ allowed as u64);
                }
            }
        }
        obs.sample(case.clone());
        Ok(())
    }
}

pub fn one_line(b: &[u8]) -> Result<Vec<Glyph>, Viol> {
    let st = match std::str::from_utf8(b) {
        Ok(st) => st,
        Err(e) => return viol("invalid utf8", e.to_string()),
    };
    let mut l = lines_of(st)?;
    match l.len() {
        0 => Ok(vec![]),
        1 => Ok(l.remove(0)),
        _ => viol("several lines", format!("{st:?}")),
    }
}

pub fn align_k(k: u64) -> Alignment {
    match k {
        1 => Alignment::Left,
        2 => Alignment::Center,
        3 => Alignment::Right,
        _ => Alignment::Unspecified,
    }
}

// ------------------------------------------------------------------- C10

pub struct C10;

impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "for each (area height, content height), small ones being all enumerated then random ones up to 65535 rows, the scrollbar is computed for the successive scrolls (all of them or a sorted sample); non trivial when a scrollbar exists; the three entry points are compared"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the scroll is in its bounds and the area isn't empty"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 2_400_000 } else { 6_000_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["scrollbars", "no_scrollbar", "at_bottom", "at_top", "near_bottom"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let (h, c) = if idx < 12_000 {
            (idx / 300 + 1, idx % 300)
        } else {
            let h = *r.pick(&[1, 2, 3, 4, 5, 10, 24, 100, 1000, 30000]);
            let h = r.range(1, h);
            let c = match r.below(5) {
                0 => h + r.below(4),
                1 => h * r.range(1, 20),
                2 => h.saturating_mul(h) + r.below(3),
                3 => r.range(0, 5_000_000),
                _ => r.range(0, 3000),
            };
            (h as u64, c as u64)
        };
        json!({"h": h, "c": c, "top": match r.below(8) { 0..4 => 0, 4 => r.below(65_535 - h as usize), _ => r.below(30) }})
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let (h, c, top) = (u(case, "h"), u(case, "c"), u(case, "top"));
        if h == 0 {
            return Ok(());
        }
        let maxs = c.saturating_sub(h);
        let mut scrolls: Vec<usize> = if maxs <= 400 {
            (0..=maxs).collect()
        } else {
            let mut r = Rng::new(h as u64 * 31 + c as u64);
            let mut v: Vec<usize> = (0..60).map(|_| r.range(0, maxs)).collect();
            v.extend([0, 1, 2, maxs - 2, maxs - 1, maxs]);
            for _ in 0..5 {
                let k = r.range(0, maxs - 2);
                v.extend([k, k + 1, k + 2]);
            }
            v
        };
        if c > h {
            // beyond the end
            scrolls.extend([maxs + 1, c, c + 1, usize::MAX / 2, usize::MAX]);
        }
        scrolls.sort_unstable();
        let mut prev: Option<(usize, usize)> = None;
        for sc in scrolls {
            let ctx = || format!("height {h}, content {c}, scroll {sc}, top {top}");
            let bar: Option<(u16, u16)> = compute_scrollbar(sc, c, h, top as u16);
            let area = Area::new(3, top as u16, 20, h as u16);
            ensure!(area.scrollbar(sc, c) == bar, "Area::scrollbar differs from compute_scrollbar", "{}", ctx());
            if c <= 65535 && sc <= 65535 {
                let b2 = area.scrollbar(sc as u16, c as u16);
                ensure!(b2 == bar, "scrollbar depends on the type", "{b2:?} {bar:?} {}", ctx());
            }
            ensure!(bar.is_some() == (c > h), "scrollbar presence", "{bar:?} {}", ctx());
            let Some((a, b)) = bar else {
                obs.ev("no_scrollbar", 1);
                continue;
            };
            let (a, b) = (a as usize, b as usize);
            obs.ev("scrollbars", 1);
            ensure!(a <= b, "empty scrollbar", "{a}-{b} {}", ctx());
            ensure!(a >= top && b < top + h, "scrollbar out of the area", "{a}-{b} {}", ctx());
            if let Some((pa, pb)) = prev {
                ensure!(a >= pa && b >= pb, "scrollbar moves up", "{pa}-{pb} then {a}-{b} {}", ctx());
            }
            if sc == 0 {
                obs.ev("at_top", 1);
                ensure!(a == top, "not at top", "{a}-{b} {}", ctx());
            } else if h > 1 {
                ensure!(a > top, "at top while scrolled", "{a}-{b} {}", ctx());
            }
            if sc > maxs {
                obs.ev("beyond_the_end", 1);
                prev = Some((a, b));
                continue;
            }
            if sc == maxs {
                obs.ev("at_bottom", 1);
                ensure!(b == top + h - 1, "not at bottom", "{a}-{b} {}", ctx());
            } else if h > 3 && h * h >= c {
                // the thumb has a row at least
                obs.ev("near_bottom", (sc + 2 >= maxs) as u64);
                ensure!(b < top + h - 1, "at bottom while not scrolled to the end", "{a}-{b} {}", ctx());
            }
            let rows = (b - a + 1) as f64;
            let share = h as f64 * h as f64 / c as f64;
            ensure!((rows - share).abs() <= 2.0, "wrong scrollbar length", "{rows} rows, {share} expected, {}", ctx());
            prev = Some((a, b));
        }
        if c > h {
            obs.nontrivial((h as u64) << 32 | c as u64);
            obs.sample(json!({"case": case, "bar_at_end": format!("{prev:?}")}));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------- C24

pub struct C24;

fn borders(k: usize) -> (&'static RectBorderStyle, [char; 8]) {
    // top_left top top_right right bottom_right bottom bottom_left left
    match k % 4 {
        0 => (BORDER_STYLE_BLAND, [' '; 8]),
        1 => (BORDER_STYLE_HALF_WIDTH_OUTSIDE, ['▛', '▀', '▜', '▐', '▟', '▄', '▙', '▌']),
        2 => (BORDER_STYLE_MIDDLE_SQUARE_LINE, ['┌', '─', '┐', '│', '┘', '─', '└', '│']),
        _ => (BORDER_STYLE_MIDDLE_ROUND_LINE, ['╭', '─', '╮', '│', '╯', '─', '╰', '│']),
    }
}

impl Check for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "rectangles of random position, size (from 0), border style, style and filling drawn on an emulated terminal; areas of random geometry probed inside and around, padded, limited and compared to the definitions; non trivial when both dimensions are at least 2"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["right and bottom of areas are in u16 and the padding isn't greater than the half of the dimensions"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 240_000 } else { 3_000_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["rects_filled", "rects_unfilled", "cells", "points", "areas_limited", "degenerated_rects"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let big = r.chance(1, 20);
        let tall = r.chance(1, 400);
        let very = r.chance(1, 60);
        let dim = |r: &mut Rng| if very { r.range(1000, 3300) } else if big { r.range(0, 1200) } else { r.range(0, 12) };
        json!({
            "left": if r.chance(1, 4) { 0 } else { r.range(0, 200) },
            "top": if r.chance(1, 4) { 0 } else { r.range(0, 200) },
            "width": dim(r), "height": if tall { r.range(1000, 1300) } else if very { r.range(0, 5) } else if big { r.range(0, 30) } else { dim(r) },
            "border": r.below(4), "style": r.below(100), "fill": r.bool(),
            "max_width": r.below(20), "dx": r.below(7), "dy": r.below(7),
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let (l, t, w, h) = (u(case, "left") as u16, u(case, "top") as u16, u(case, "width") as u16, u(case, "height") as u16);
        let area = Area::new(l, t, w, h);
        // ---- rect
        let cs = cs_of(case["style"].as_u64().unwrap_or(0));
        let fill = case["fill"] == json!(true);
        let (bs, ch) = borders(u(case, "border"));
        let mut rect = Rect::new(area.clone(), cs.clone());
        rect.set_border_style(bs);
        rect.set_fill(fill);
        let mut b = Vec::new();
        rect.draw(&mut b).unwrap();
        let sc = Screen::of(&b)?;
        let sty = sty_of(&cs);
        ensure!(sc.sty == Sty::default(), "style leak", "{:?}", sc.sty);
        ensure!(
            sc.unpositioned == 0 && sc.erased_right.is_empty() && sc.erased_other.is_empty() && sc.others.is_empty() && sc.controls.is_empty(),
            "unexpected terminal operations", "{:?}", String::from_utf8_lossy(&b)
        );
        let (l, t, w, h) = (l as i32, t as i32, w as i32, h as i32);
        for ((y, x), c) in &sc.cells {
            let inside = *x >= l && *x < l + w && *y >= t && *y < t + h;
            ensure!(inside, "painted out of the area", "{:?} at {x},{y} for {case}", c.ch);
        }
        for y in t..t + h {
            for x in l..l + w {
                let on_v = x == l || x == l + w - 1;
                let on_h = y == t || y == t + h - 1;
                let want = if w < 2 || h < 2 {
                    // not enough room for a real rect: just something of the border
                    None
                } else {
                    Some(match (x == l, x == l + w - 1, y == t, y == t + h - 1) {
                        (true, _, true, _) => ch[0],
                        (_, true, true, _) => ch[2],
                        (_, true, _, true) => ch[4],
                        (true, _, _, true) => ch[6],
                        (_, _, true, _) => ch[1],
                        (_, true, ..) => ch[3],
                        (_, _, _, true) => ch[5],
                        (true, ..) => ch[7],
                        _ => ' ',
                    })
                };
                let cell = sc.cells.get(&(y, x));
                if !on_v && !on_h && !fill {
                    ensure!(cell.is_none(), "interior painted", "{x},{y} for {case}");
                    continue;
                }
                let Some(cell) = cell else {
                    return viol("cell not painted", format!("{x},{y} for {case}"));
                };
                obs.ev("cells", 1);
                ensure!(cell.sty == sty, "wrong style", "{:?} instead of {sty:?} at {x},{y} for {case}", cell.sty);
                match want {
                    Some(c) => ensure!(cell.ch == Some(c), "wrong char", "{:?} instead of {c:?} at {x},{y} for {case}", cell.ch),
                    None => ensure!(cell.ch.map_or(false, |c| ch.contains(&c)), "wrong char", "{:?} at {x},{y} for {case}", cell.ch),
                }
            }
        }
        if w >= 2 && h >= 2 {
            obs.nontrivial(hash_str(&case.to_string()));
            obs.ev(if fill { "rects_filled" } else { "rects_unfilled" }, 1);
        } else {
            obs.ev("degenerated_rects", 1);
        }
        // ---- area
        ensure!(area.right() as i32 == l + w && area.bottom() as i32 == t + h, "right or bottom", "{area:?}");
        for dy in [-2, -1, 0, 1, h / 2, h - 1, h, h + 1] {
            for dx in [-2, -1, 0, 1, w / 2, w - 1, w, w + 1] {
                let (x, y) = (l + dx, t + dy);
                if x < 0 || y < 0 {
                    continue;
                }
                let inside = x >= l && x < l + w && y >= t && y < t + h;
                obs.ev("points", 1);
                ensure!(area.contains(x as u16, y as u16) == inside, "contains", "{x},{y} in {area:?}");
            }
        }
        let mw = u(case, "max_width") as u16;
        let mut lim = area.clone();
        lim.pad_for_max_width(mw);
        ensure!(lim.width == area.width.min(mw) && lim.top == area.top && lim.height == area.height, "pad_for_max_width", "{area:?} limited to {mw} gives {lim:?}");
        let gl = lim.left as i32 - area.left as i32;
        let gr = area.right() as i32 - lim.right() as i32;
        ensure!(gl >= 0 && gr >= 0 && (gl - gr).abs() <= 1, "pad_for_max_width isn't symmetric", "{area:?} limited to {mw} gives {lim:?}");
        if lim != area {
            obs.ev("areas_limited", 1);
        }
        let (dx, dy) = (u(case, "dx") as u16, u(case, "dy") as u16);
        if 2 * dx <= area.width && 2 * dy <= area.height {
            let mut p = area.clone();
            p.pad(dx, dy);
            ensure!(
                p.left == area.left + dx && p.top == area.top + dy && p.right() + dx == area.right() && p.bottom() + dy == area.bottom(),
                "pad", "{area:?} padded by {dx},{dy} gives {p:?}"
            );
            obs.ev("areas_padded", 1);
        }
        obs.sample(case.clone());
        Ok(())
    }
}

// ------------------------------------------------------------------- C25

pub struct C25;

impl Check for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "bars of random length (0 to 400) printed for a sorted series of ratios including 0, 1, exact eighths and their float neighbours, alone and with a format width and alignment; the glyphs are converted to eighths of column; non trivial when the ratio is neither 0 nor 1"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the ratio is in [0, 1]"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 400_000 } else { 1_000_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["bars", "full_bars", "empty_bars", "partial_chars"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let len = if r.chance(1, 8) { r.range(0, 400) } else { r.range(0, 30) };
        let parts: Vec<u32> = (0..r.range(1, 20))
            .map(|_| match r.below(4) {
                0 => (r.below(1001) as f32 / 1000.0).to_bits(),
                1 => {
                    let e = r.below(8 * len + 1) as f32 / (8.0 * len.max(1) as f32);
                    let b = e.to_bits() as i64 + r.irange(-1, 1);
                    if b < 0 || f32::from_bits(b as u32) > 1.0 { 0 } else { b as u32 }
                }
                2 => (r.below(1 << 24) as f32 / (1 << 24) as f32).to_bits(),
                _ => *r.pick(&[0f32.to_bits(), 1f32.to_bits(), 0.999_999_94f32.to_bits(), f32::MIN_POSITIVE.to_bits()]),
            })
            .collect();
        json!({"len": len, "bits": parts, "pad": r.below(60)})
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        static EIGHTHS: &str = " ▏▎▍▌▋▊▉█";
        let len = u(case, "len");
        let mut parts: Vec<f32> = case["bits"]
            .as_array()
            .into_iter()
            .flatten()
            .map(|v| f32::from_bits(v.as_u64().unwrap_or(0) as u32))
            .filter(|p| *p >= 0.0 && *p <= 1.0)
            .collect();
        parts.sort_by(|a, b| a.total_cmp(b));
        let mut prev = 0usize;
        for p in parts {
            let bar = ProgressBar::new(p, len);
            let out = bar.to_string();
            obs.ev("bars", 1);
            let n = out.chars().count();
            ensure!(n <= len, "bar longer than its width", "{out:?} ({n} columns) for {p} of {len}");
            let mut filled = 0;
            let mut ended = false;
            for c in out.chars() {
                let Some(e) = EIGHTHS.chars().position(|k| k == c) else {
                    return viol("unexpected char", format!("{c:?} in {out:?}"));
                };
                ensure!(!ended || e == 0, "hole in the bar", "{out:?}");
                if e < 8 {
                    ended = true;
                }
                if e > 0 && e < 8 {
                    obs.ev("partial_chars", 1);
                }
                filled += e;
            }
            let want = p as f64 * len as f64 * 8.0;
            ensure!((filled as f64 - want).abs() <= 1.0, "wrong filling", "{filled}/8 columns instead of {want}/8 for {p} of {len}: {out:?}");
            if p == 0.0 {
                obs.ev("empty_bars", 1);
                ensure!(filled == 0, "not empty", "{out:?}");
            }
            if p == 1.0 {
                obs.ev("full_bars", 1);
                ensure!(filled == 8 * len, "not full", "{out:?} for {len}");
            }
            ensure!(filled >= prev, "bar less filled for a greater ratio", "{filled}/8 after {prev}/8 for {p} of {len}");
            prev = filled;
            // with a format width
            let pad = u(case, "pad");
            for (k, o) in [format!("{bar:<pad$}"), format!("{bar:>pad$}"), format!("{bar:pad$}")].iter().enumerate() {
                let w = o.chars().count();
                ensure!(w == n.max(pad), "padded bar width", "{w} columns for {pad}: {o:?}");
                let ok = if k == 1 { o.ends_with(&out) } else { o.starts_with(&out) };
                ensure!(ok && o.trim() == out.trim(), "padded bar", "{o:?} / {out:?}");
            }
            if p > 0.0 && p < 1.0 {
                obs.nontrivial((len as u64) << 32 | p.to_bits() as u64);
                obs.sample(json!({"part": p, "len": len, "bar": out}));
            }
        }
        Ok(())
    }
}
