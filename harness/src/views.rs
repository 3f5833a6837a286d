//! C08 drawing of text and markdown views, C09 their scrolling

use {
    crate::{core::*, gen::*, render::*, term::*},
    serde_json::{json, Value},
    termimad::{
        crossterm::event::{KeyCode, KeyEvent, KeyModifiers},
        *,
    },
};

/// glyphs taking room
pub fn solid(g: &[Glyph]) -> Vec<Glyph> {
    g.iter().copied().filter(|(c, _)| cw(*c) > 0).collect()
}

/// check that exactly the area is painted, with nothing else done
pub fn check_paints(sc: &Screen, area: &Area, what: &str) -> R {
    let (l, t, r, b) = (
        area.left as i32,
        area.top as i32,
        area.right() as i32,
        area.bottom() as i32,
    );
    ensure!(
        sc.unpositioned == 0,
        "written before any positioning",
        "{what}"
    );
    for ((y, x), c) in &sc.cells {
        ensure!(
            *x >= l && *x < r && *y >= t && *y < b,
            "painted out of the area",
            "{:?} at {x},{y}, area {area:?}, {what}",
            c.ch
        );
    }
    for (y, x) in &sc.erased_right {
        return viol("erases out of the area", format!("from {x},{y} to the end of line, area {area:?}, {what}"));
    }
    if let Some(op) = sc.erased_other.first().or(sc.others.first()) {
        return viol("unexpected terminal operation", format!("{op:?}, {what}"));
    }
    ensure!(sc.controls.is_empty(), "control chars written", "{:?} {what}", sc.controls);
    ensure!(sc.sty == Sty::default(), "style leak", "{:?} {what}", sc.sty);
    for y in t..b {
        for x in l..r {
            match sc.paints.get(&(y, x)) {
                Some(1) => {}
                n => return viol("cell not painted exactly once", format!("{x},{y}: {n:?}, area {area:?}, {what}")),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C08

pub struct C08;

impl Check for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "random texts drawn through TextView (area formatted, or formatted narrower), MadView and write_in_area_on in random areas of at least 4 columns with random scroll, some having more than 65536 lines; the bytes are interpreted by a terminal emulator recording each paint; non trivial when a scrollbar is drawn"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the area has at least 4 columns and leaves room beside the list and quote marks"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 2_000_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["rows", "blank_rows", "scrollbars", "thumb_rows", "huge_texts", "view_text", "view_mad", "view_skin", "view_noscrollbar"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> Value {
        let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
        let blocks = *r.pick(&[1, 3, 8, 20]);
        let md = text_md(r, alpha, blocks);
        let lines_hint = md.lines().count() * 2;
        let huge = idx % if t == Tier::Quick { 12_000 } else { 8_000 } == 7;
        let width = if r.chance(1, 60) { r.range(200, 2100) } else { rand_width(r).max(4) };
        json!({
            "md": if huge { format!("*x* y\n") } else { md },
            "repeat": if huge { 65_530 + r.below(20) } else { 1 },
            "left": if r.chance(1, 50) { r.below(600) } else { r.below(20) }, "top": if r.chance(1, 50) { r.below(600) } else { r.below(20) },
            "width": width, "height": match r.below(40) { 0..4 => r.range(0, 3), 4 => r.range(25, 300), _ => r.range(1, 25) },
            "scroll": if r.chance(1, 3) { 0 } else if huge { r.range(0, 70_000) } else { r.range(0, lines_hint) },
            "view": if huge { 0 } else { r.below(5) },
            "skin": rand_skin_seed(r),
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let md = s(case, "md").repeat(u(case, "repeat").max(1));
        let (width, height) = (u(case, "width"), u(case, "height"));
        if width < 4 {
            return Ok(());
        }
        let area = Area::new(u(case, "left") as u16, u(case, "top") as u16, width as u16, height as u16);
        let mut skin = skin(case["skin"].as_u64().unwrap_or(0));
        let Some(t) = parse_ok(&md) else { return Ok(()) };
        let view = case["view"].as_u64().unwrap_or(0);
        if view == 4 {
            // margins might be dropped in the formatting width only
            for l in [&mut skin.paragraph, &mut skin.code_block].into_iter().chain(&mut skin.headers) {
                l.left_margin = 0;
                l.right_margin = 0;
            }
        }
        // some texts are formatted for less columns
        let fw = if view == 4 { 3 + (width - 4) * 2 / 3 } else { width - 1 };
        if !has_room(&skin, &t, fw) {
            return Ok(());
        }
        let text = if view == 4 {
            FmtText::from(&skin, &md, Some(fw))
        } else {
            skin.area_text(&md, &area)
        };
        ensure!(text.width == Some(fw), "area text not computed for the area", "{:?} for {width}", text.width);
        let n = text.lines.len();
        let mut scroll = u(case, "scroll");
        let mut b = Vec::new();
        let mut scrollbar = n > height;
        match view {
            1 => {
                obs.ev("view_mad", 1);
                let mut v = MadView::from(md.clone(), area.clone(), skin.clone());
                v.scroll = scroll;
                v.write_on(&mut b).unwrap();
            }
            2 => {
                obs.ev("view_skin", 1);
                scrollbar = false;
                scroll = 0;
                skin.write_in_area_on(&mut b, &md, &area).unwrap();
            }
            3 => {
                obs.ev("view_noscrollbar", 1);
                let mut v = TextView::from(&area, &text);
                v.scroll = scroll;
                v.show_scrollbar = false;
                scrollbar = false;
                ensure!(v.scrollbar().is_none(), "scrollbar while disabled", "{:?}", v.scrollbar());
                v.write_on(&mut b).unwrap();
            }
            _ => {
                obs.ev("view_text", 1);
                let mut v = TextView::from(&area, &text);
                v.scroll = scroll;
                ensure!(v.content_height() == n, "content height", "{} / {n}", v.content_height());
                if scroll <= n.saturating_sub(height) && height > 0 {
                    ensure!(v.scrollbar() == compute_scrollbar(scroll, n, area.height, area.top), "view scrollbar", "{:?}", v.scrollbar());
                }
                v.write_on(&mut b).unwrap();
            }
        }
        let sc = Screen::of(&b)?;
        let what = format!("{n} lines, scroll {scroll}, scrollbar {scrollbar}, view {view}");
        check_paints(&sc, &area, &what)?;
        let (l, t) = (area.left as i32, area.top as i32);
        let tw = width - scrollbar as usize;
        let psty = sty_of(&skin.paragraph.compound_style);
        for j in 0..height {
            let y = t + j as i32;
            let row = solid(&sc.row(y, l, l + tw as i32));
            let want = match text.lines.get(scroll.saturating_add(j)) {
                Some(line) => {
                    obs.ev("rows", 1);
                    let dl = DisplayableLine::new(&skin, line, Some(tw)).to_string();
                    solid(&lines_of(&dl)?.into_iter().next().unwrap_or_default())
                }
                None => {
                    obs.ev("blank_rows", 1);
                    vec![(' ', psty); tw]
                }
            };
            ensure!(row == want, "wrong row", "row {j}: {:?} instead of {:?}, {what}", plain(&row), plain(&want));
        }
        if scrollbar && height > 0 {
            let bar: Option<(u16, u16)> = compute_scrollbar(scroll, n, height, area.top);
            let Some((a, z)) = bar else {
                return viol("no scrollbar computed", what);
            };
            obs.ev("scrollbars", 1);
            if scroll <= n - height {
                for j in 0..height {
                    let y = area.top + j as u16;
                    let thumb = a <= y && y <= z;
                    let want = if thumb { &skin.scrollbar.thumb } else { &skin.scrollbar.track };
                    let got = sc.row(y as i32, l + tw as i32, l + width as i32);
                    let want = vec![(want.nude_char(), sty_of(want.compound_style()))];
                    ensure!(got == want, "wrong scrollbar", "row {j}: {got:?} instead of {want:?}, {what}");
                    obs.ev(if thumb { "thumb_rows" } else { "track_rows" }, 1);
                }
                obs.nontrivial(hash_str(&md) ^ (scroll as u64) << 20 ^ (width as u64) << 8 ^ height as u64);
            }
        }
        if n > 65_535 {
            obs.ev("huge_texts", 1);
        } else {
            obs.sample(case.clone());
        }
        Ok(())
    }
}

// ------------------------------------------------------------------- C09

pub struct C09;

fn rand_i32(r: &mut Rng) -> i64 {
    match r.below(12) {
        0 => i32::MIN as i64,
        1 => i32::MAX as i64,
        2 => i32::MIN as i64 + 1,
        3 => *r.pick(&[-100_000, 100_000, -65_536, 65_536]),
        _ => r.irange(-12, 12),
    }
}

fn key_of(k: u64) -> KeyEvent {
    let code = match k % 10 {
        0 => KeyCode::Up,
        1 => KeyCode::Down,
        2 => KeyCode::PageUp,
        3 => KeyCode::PageDown,
        4 => KeyCode::Char('a'),
        5 => KeyCode::Home,
        6 => KeyCode::Enter,
        7 => KeyCode::Left,
        8 => KeyCode::End,
        _ => KeyCode::F(3),
    };
    let m = match k / 10 {
        1 => KeyModifiers::CONTROL,
        2 => KeyModifiers::ALT,
        3 => KeyModifiers::SHIFT,
        _ => KeyModifiers::NONE,
    };
    KeyEvent::new(code, m)
}

impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "random sequences of scroll operations (absolute, lines, pages, keys with and without modifiers, extreme amounts included) and resizes on a TextView or a MadView compared step by step to a reference counter, the window being drawn and compared at the end; non trivial when the text exceeds the height"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the area has at least 4 columns and 1 row"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 150_000 } else { 2_000_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["ops", "blocked_top", "blocked_bottom", "resizes", "keys_ignored", "keys_handled", "extreme_amounts"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let n = r.range(0, 60);
        let md = if r.chance(1, 4) {
            text_md(r, Alpha::Uni, 10)
        } else if r.chance(1, 3) {
            // wrapped on most widths
            (0..r.range(1, 6)).map(|_| "word ".repeat(r.range(1, 40)) + "\n").collect()
        } else {
            (0..n).map(|i| format!("line {i}\n")).collect()
        };
        let mad = r.bool();
        let ops: Vec<Value> = (0..r.range(1, 20))
            .map(|_| match r.below(12) {
                0 => json!(["set", if r.chance(1, 8) { u64::MAX } else { r.below(80) as u64 }]),
                1 | 2 => json!(["lines", rand_i32(r)]),
                3 => json!(["pages", rand_i32(r)]),
                4 => json!(["fpages", *r.pick(&[0.5, -0.5, 1.0, -1.0, 0.01, -0.01, 1e300, -1e300, 0.33, -2.5])]),
                5 => json!(["up"]),
                6 => json!(["down"]),
                7 => json!(["pup"]),
                8 => json!(["pdown"]),
                9 if mad => json!(["resize", if r.bool() { r.range(4, 12) } else { r.range(4, 150) }, if r.chance(1, 2) { r.range(1, 3) } else { r.range(1, 30) }, r.range(0, 6), r.range(0, 6)]),
                10 if mad => json!(["resize", 0, r.range(1, 40), r.range(0, 6), r.range(0, 6)]),
                _ => json!(["key", if r.chance(3, 4) { r.below(4) } else { r.below(40) }]),
            })
            .collect();
        // many lines, in some cases
        let rep = if idx % 9_973 == 11 { 70_000 } else { 1 };
        let md = if rep > 1 { "line\n".to_string() } else { md };
        let ops = if rep > 1 { [vec![json!(["lines", 69_000])], ops.into_iter().take(5).collect()].concat() } else { ops };
        json!({"md": md, "rep": rep, "mad": mad, "width": r.range(6, 60), "height": if r.chance(1, 30) { r.range(25, 400) } else { r.range(1, 25) }, "ops": ops})
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let md = &s(case, "md").repeat(u(case, "rep").max(1));
        let skin = MadSkin::default();
        let mut area = Area::new(2, 3, u(case, "width").max(4) as u16, u(case, "height").max(1) as u16);
        if parse_ok(md).is_none() {
            return Ok(());
        }
        let mad = case["mad"] == json!(true);
        let lines = |a: &Area| skin.area_text(md, a).lines.len();
        let text_area = area.clone();
        let text = skin.area_text(md, &text_area);
        let mut tv = TextView::from(&text_area, &text);
        let mut mv = MadView::from(md.to_string(), area.clone(), skin.clone());
        let mut model: i128 = 0;
        let mut n = text.lines.len() as i128;
        if n > area.height as i128 {
            obs.nontrivial(hash_str(&case.to_string()));
        }
        for op in case["ops"].as_array().unwrap_or(&vec![]) {
            let h = area.height as i128;
            let max = (n - h).max(0);
            let before = model;
            let mut ret: Option<bool> = None;
            let mut moved: Option<i128> = None;
            let amount = op[1].as_i64().unwrap_or(0) as i128;
            match op[0].as_str().unwrap_or("") {
                "set" => {
                    let v = op[1].as_u64().unwrap_or(0) as usize;
                    if !mad {
                        let got = tv.set_scroll(v);
                        ensure!(got == tv.scroll, "set_scroll doesn't return the actual scroll", "{got} / {}", tv.scroll);
                        moved = Some(v as i128 - before);
                    }
                }
                "lines" => {
                    let amount = amount.clamp(i32::MIN as i128, i32::MAX as i128);
                    if mad { mv.try_scroll_lines(amount as i32) } else { tv.try_scroll_lines(amount as i32) };
                    moved = Some(amount);
                }
                "pages" => {
                    let amount = amount.clamp(i32::MIN as i128, i32::MAX as i128);
                    if mad { mv.try_scroll_pages(amount as i32) } else { tv.try_scroll_pages(amount as i32) };
                    moved = Some(amount * h);
                    if amount.abs() > 1_000_000 {
                        obs.ev("extreme_amounts", 1);
                    }
                }
                "fpages" => {
                    let p = op[1].as_f64().unwrap_or(0.0);
                    if !mad {
                        tv.try_scroll_pages(p);
                        let l = p * h as f64;
                        moved = Some(if l < 0.0 { l.floor() } else { l.ceil() }.clamp(-1e9, 1e9) as i128);
                    }
                }
                "up" if !mad => {
                    ret = Some(tv.line_up());
                    moved = Some(-1);
                }
                "down" if !mad => {
                    ret = Some(tv.line_down());
                    moved = Some(1);
                }
                "pup" if !mad => {
                    ret = Some(tv.page_up());
                    moved = Some(-h);
                }
                "pdown" if !mad => {
                    ret = Some(tv.page_down());
                    moved = Some(h);
                }
                "key" => {
                    let k = op[1].as_u64().unwrap_or(0);
                    let key = key_of(k);
                    let r = match (mad, k % 2 == 0) {
                        (true, true) => mv.apply_key_event(key),
                        (true, false) => mv.apply_key_combination(key),
                        (false, true) => tv.apply_key_event(key),
                        (false, false) => tv.apply_key_combination(key),
                    };
                    ret = Some(r);
                    moved = Some(match k {
                        0 => -1,
                        1 => 1,
                        2 => -h,
                        3 => h,
                        _ => 0,
                    });
                    obs.ev(if k < 4 { "keys_handled" } else { "keys_ignored" }, 1);
                }
                "resize" if mad => {
                    let w = match u(&json!({"v": op[1]}), "v") {
                        0 => area.width,
                        w => w.max(4) as u16,
                    };
                    let nh = op[2].as_u64().unwrap_or(1).max(1) as u16;
                    let at = |i: usize, d: u64| op[i].as_u64().unwrap_or(d) as u16;
                    let na = Area::new(at(3, 2), at(4, 3), w, nh);
                    mv.resize(&na);
                    obs.ev("resizes", 1);
                    let same_width = w == area.width;
                    area = na;
                    n = lines(&area) as i128;
                    let max = (n - area.height as i128).max(0);
                    if same_width {
                        // the scroll is kept if possible
                        ensure!(mv.scroll as i128 == before.min(max), "scroll not kept, or out of bounds, on resize", "{} after {op}, was {before}, max {max}", mv.scroll);
                    } else {
                        ensure!(mv.scroll as i128 <= max, "scroll out of bounds on resize", "{} after {op}, was {before}, max {max}", mv.scroll);
                    }
                    model = mv.scroll as i128;
                }
                _ => {}
            }
            obs.ev("ops", 1);
            let got = if mad { mv.scroll } else { tv.scroll } as i128;
            if let Some(m) = moved {
                let want = (before + m).clamp(0, max);
                if before + m < 0 {
                    obs.ev("blocked_top", 1);
                }
                if before + m > max {
                    obs.ev("blocked_bottom", 1);
                }
                ensure!(got == want, "wrong scroll", "{got} instead of {want} after {op} from {before}, max {max}, height {h}");
                if let Some(r) = ret {
                    ensure!(r == (want != before), "wrong answer on change", "{r} for {before} -> {want} on {op}");
                }
                model = want;
            } else {
                ensure!(got == model, "unexpected scroll change", "{got} instead of {model} after {op}");
            }
            obs.state("scroll_states", (model as u64) << 20 | (n as u64) << 8 | area.height as u64);
        }
        // the drawn window is the one of the scroll
        let mut b = Vec::new();
        if mad { mv.write_on(&mut b).unwrap() } else { tv.write_on(&mut b).unwrap() };
        let sc = Screen::of(&b)?;
        let text = skin.area_text(md, &area);
        let mut v2 = TextView::from(&area, &text);
        v2.scroll = model as usize;
        let mut b2 = Vec::new();
        v2.write_on(&mut b2).unwrap();
        let sc2 = Screen::of(&b2)?;
        ensure!(sc.cells == sc2.cells, "drawn window isn't the one of the scroll", "{case}");
        obs.sample(case.clone());
        Ok(())
    }
}
