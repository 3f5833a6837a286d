//! C06: fitting composites in a width

use {
    crate::{core::*, gen::*, model::*, render::*, term::*},
    serde_json::{json, Value},
    termimad::{
        minimad::{Composite, CompositeStyle, Compound},
        *,
    },
};

pub struct C06;

/// is `res` made of `orig` with non empty parts replaced by ellipsis ?
///
/// Returns the kept pieces, as ranges of orig.
fn pieces(orig: &[Glyph], res: &[Glyph], ell: Glyph) -> Option<Vec<(usize, usize)>> {
    let mut parts: Vec<&[Glyph]> = Vec::new();
    let mut start = 0;
    for i in 0..=res.len() {
        if i == res.len() || res[i] == ell {
            parts.push(&res[start..i]);
            start = i + 1;
        }
    }
    let n = parts.len();
    let mut v = Vec::new();
    if n == 1 {
        return (res == orig).then(|| vec![(0, orig.len())]);
    }
    // first part is a prefix, last one a suffix
    if !orig.starts_with(parts[0]) || !orig.ends_with(parts[n - 1]) {
        return None;
    }
    let mut pos = parts[0].len();
    v.push((0, pos));
    let end = orig.len() - parts[n - 1].len();
    for p in &parts[1..n - 1] {
        // at least a char was removed
        let mut k = pos + 1;
        loop {
            if k + p.len() > end {
                return None;
            }
            if orig[k..].starts_with(p) {
                break;
            }
            k += 1;
        }
        v.push((k, k + p.len()));
        pos = k + p.len();
    }
    if pos + 1 > end {
        return None;
    }
    v.push((end, orig.len()));
    Some(v)
}

fn style_of(k: u64) -> CompositeStyle {
    match k {
        1 => CompositeStyle::Quote,
        2 => CompositeStyle::ListItem(0),
        3 => CompositeStyle::ListItem(2),
        4 => CompositeStyle::Header(2),
        5 => CompositeStyle::Code,
        _ => CompositeStyle::Paragraph,
    }
}

fn align_of(k: u64) -> Alignment {
    match k {
        1 => Alignment::Left,
        2 => Alignment::Center,
        3 => Alignment::Right,
        _ => Alignment::Unspecified,
    }
}

impl Check for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "random styled composites (inline markdown, lone combining marks, empty compounds, all kinds) fitted and filled at random widths (biased around their own width) with each alignment; the printed glyphs are decomposed in kept pieces and ellipsis and compared to the original; non trivial when shortened"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["when the source has ellipsis chars, only the widths and paddings are checked", "the width is greater than the one of the list or quote mark"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_600_000 } else { 10_000_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["fitted", "shortened", "untouched", "internal_ellisions", "both_sides", "padded", "balance_checked", "with_ellipsis_in_source"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
        let n = *r.pick(&[1, 2, 4, 4, 10, 10, 40]);
        let mut inl = inline_md(r, alpha, n, false);
        if r.chance(1, 8) {
            // many zero width chars
            let mut s = String::new();
            for c in inl.chars() {
                s.push(c);
                if c.is_alphanumeric() && r.chance(1, 2) {
                    for _ in 0..r.range(1, 4) {
                        s.push(*r.pick(&['\u{301}', '\u{308}', '\u{200b}', '\u{32d}']));
                    }
                }
            }
            inl = s;
        }
        if r.chance(1, 16) {
            // ellipsis chars in the source
            let cs: Vec<char> = inl.chars().collect();
            inl = cs.iter().flat_map(|c| if c.is_alphanumeric() && r.chance(1, 5) { vec!['…', *c] } else { vec![*c] }).collect();
            if r.bool() {
                inl = format!("**…** {inl}");
            }
        }
        if r.chance(1, 5) {
            // all chars distinct: the removed parts can be determined
            let mut l: Vec<char> = ('!'..='~').filter(|c| !"*`~|<>#-_".contains(*c)).collect();
            r.shuffle(&mut l);
            let n = r.range(1, l.len());
            inl = l[..n].iter().collect();
            if r.chance(1, 2) && n > 3 {
                let k = r.range(1, n - 1);
                let b: usize = l[..k].iter().map(|c| c.len_utf8()).sum();
                inl = format!("**{}**{}", &inl[..b], &inl[b..]);
            }
        }
        let raw = r.chance(1, 8);
        if raw {
            // spaces at ends are kept
            inl = format!("{}{inl}{}", " ".repeat(r.below(3)), " ".repeat(r.below(4)));
        }
        let w: usize = inl.chars().map(cw).sum();
        let width = match r.below(6) {
            0 => r.range(0, 4),
            1 => r.range(0, 100),
            2 => (w as i64 + r.irange(-6, 3)).max(0) as usize,
            _ => r.range(0, w + 1),
        };
        json!({
            "inline": inl,
            "raw": raw,
            "empties": if r.chance(1, 10) { r.range(1, 3) } else { 0 },
            "width": width,
            "align": r.below(4),
            "kind": if r.chance(1, 4) { r.range(1, 5) } else { 0 },
            "skin": rand_skin_seed(r),
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let inl = s(case, "inline");
        let width = u(case, "width");
        let align = align_of(case["align"].as_u64().unwrap_or(0));
        let mut skin = skin(case["skin"].as_u64().unwrap_or(0));
        skin.paragraph.left_margin = 0;
        skin.paragraph.right_margin = 0;
        skin.code_block.left_margin = 0;
        skin.code_block.right_margin = 0;
        for h in &mut skin.headers {
            h.left_margin = 0;
            h.right_margin = 0;
        }
        let raw = case["raw"].as_bool().unwrap_or(false);
        let parsed = std::panic::catch_unwind(|| if raw { Composite::raw_str(inl) } else { Composite::from_inline(inl) });
        let Ok(mut comp) = parsed else {
            return Ok(());
        };
        comp.style = style_of(case["kind"].as_u64().unwrap_or(0));
        let mut r = Rng::new(hash_str(inl));
        for _ in 0..u(case, "empties") {
            let k = r.below(comp.compounds.len() + 1);
            let src = *r.pick(&["", "", "\u{301}", "\u{200b}\u{301}", "\u{200b}", " ", "  ", "-"]);
            comp.compounds.insert(k, Compound::raw_str(src).bold());
        }
        let mark = indents(&skin, comp.style).0;
        if mark > 0 && width <= mark {
            return Ok(());
        }
        let ls = line_style_of(&skin, comp.style);
        let ct = content_of(&skin, &comp);
        let ell = ('…', sty_of(&skin.ellipsis));
        // with an ellipsis in the source, the parts can't be determined
        let with_ell = ct.glyphs.iter().any(|g| g.0 == '…');
        let orig_w = mark + width_of(&ct.glyphs);
        let ascii = ct.glyphs.iter().all(|g| g.0.is_ascii());
        let mut chars: Vec<char> = ct.glyphs.iter().map(|g| g.0).collect();
        chars.sort_unstable();
        let distinct = chars.windows(2).all(|w| w[0] != w[1]);
        let ctx = |out: &[Glyph]| {
            format!(
                "{:?} ({orig_w} columns) in {width} with {align:?}, kind {:?} -> {:?} ({} columns)\n{:?}",
                plain(&ct.glyphs),
                comp.style,
                plain(out),
                width_of(out),
                out
            )
        };
        // ---- fit
        let mut fc = FmtComposite::from(comp.clone(), &skin);
        ensure!(fc.visible_length == orig_w, "visible length", "{} for {:?}", fc.visible_length, inl);
        fc.fit_width(width, align, &skin);
        obs.ev("fitted", 1);
        let vl = fc.visible_length;
        let fitted = fc.clone();
        let out = lines_of(&FmtInline { skin: &skin, composite: fc }.to_string())?
            .into_iter()
            .next()
            .unwrap_or_default();
        ensure!(width_of(&out) == vl, "announced visible length isn't the printed one", "{vl}: {}", ctx(&out));
        ensure!(vl <= width, "fitted composite wider than the width", "{}", ctx(&out));
        let pre = prefix(&skin, comp.style, true);
        ensure!(out.starts_with(&pre), "mark missing", "{}", ctx(&out));
        let res = &out[pre.len()..];
        if orig_w <= width {
            ensure!(res == ct.glyphs, "composite modified while it was fitting", "{}", ctx(&out));
            obs.ev("untouched", 1);
        } else if with_ell {
            obs.ev("with_ellipsis_in_source", 1);
        } else if width == 0 {
            ensure!(res.is_empty(), "not empty", "{}", ctx(&out));
        } else {
            obs.ev("shortened", 1);
            obs.nontrivial(hash_str(&plain(&out)) ^ hash_str(inl) ^ width as u64);
            let Some(p) = pieces(&ct.glyphs, res, ell) else {
                return viol("fitted composite isn't made of parts of the original", ctx(&out));
            };
            ensure!(p.len() > 1, "no ellipsis", "{}", ctx(&out));
            // no more removed than needed
            let slack = if ascii { 0 } else { 2 };
            ensure!(
                width_of(&out) + slack >= width,
                "more removed than needed",
                "{}",
                ctx(&out)
            );
            match align {
                Alignment::Left => {
                    ensure!(p.len() == 2 && p[1].0 == p[1].1, "left aligned: cut elsewhere than at right", "{p:?} {}", ctx(&out));
                }
                Alignment::Right => {
                    ensure!(p.len() == 2 && p[0].0 == p[0].1, "right aligned: cut elsewhere than at left", "{p:?} {}", ctx(&out));
                }
                Alignment::Center => {
                    ensure!(
                        p.len() <= 3 && p.last().map_or(false, |l| l.0 == l.1),
                        "centered: cut in the middle",
                        "{p:?} {}",
                        ctx(&out)
                    );
                    if p.len() == 3 {
                        ensure!(p[0].0 == p[0].1, "centered: cut in the middle", "{p:?} {}", ctx(&out));
                        obs.ev("both_sides", 1);
                        if ascii && distinct && p[1].1 > p[1].0 {
                            obs.ev("balance_checked", 1);
                            let l = p[1].0 as i64;
                            let r = ct.glyphs.len() as i64 - p[1].1 as i64;
                            ensure!((l - r).abs() <= 1, "centered: unbalanced cut", "{l} / {r} {}", ctx(&out));
                        }
                    } else {
                        // (when nothing is kept, there may be only one ellipsis)
                        let kept = p.iter().any(|(a, b)| b > a);
                        ensure!(orig_w - width <= 1 || !kept || !distinct, "centered: cut on one side", "{p:?} {}", ctx(&out));
                    }
                }
                Alignment::Unspecified => {
                    // an internal ellision is done when it's possible
                    if p.len() > 2 || p[1].1 > p[1].0 {
                        obs.ev("internal_ellisions", 1);
                    }
                }
            }
        }
        // the fitter may be used directly
        let mut direct = FmtComposite::from(comp.clone(), &skin);
        if align == Alignment::Unspecified && orig_w % 2 == 0 {
            Fitter::default().fit(&mut direct, width, &skin);
        } else {
            Fitter::for_align(align).fit(&mut direct, width, &skin);
        }
        ensure!(
            direct.compounds == fitted.compounds && direct.visible_length == fitted.visible_length && direct.kind == fitted.kind,
            "direct use of the fitter",
            "{direct:?} instead of {fitted:?}"
        );
        // fitting again changes nothing
        let mut again = fitted.clone();
        again.fit_width(width, align, &skin);
        ensure!(again.compounds == fitted.compounds, "fit isn't idempotent", "{}", ctx(&out));
        // ---- fill
        let mut b = Vec::new();
        skin.write_composite_fill(&mut b, comp.clone(), width, align).unwrap();
        let filled = lines_of(&String::from_utf8_lossy(&b))?
            .into_iter()
            .next()
            .unwrap_or_default();
        let (lp, rp) = completions(align, vl, width);
        let lsty = sty_of(&ls.compound_style);
        let mut want = rep(lp, ' ', lsty);
        want.extend(out.iter().copied());
        want.extend(rep(rp, ' ', lsty));
        ensure!(
            filled == want && width_of(&filled) == width,
            "filled composite",
            "{:?} instead of {:?}\n{filled:?}\n{want:?}\n{}",
            plain(&filled),
            plain(&want),
            ctx(&out)
        );
        if lp + rp > 0 {
            obs.ev("padded", 1);
        }
        obs.sample(json!({"case": case, "fitted": plain(&out), "filled": plain(&filled)}));
        Ok(())
    }
}
