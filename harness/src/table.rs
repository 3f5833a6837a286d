//! C03: tables

use {
    crate::{core::*, gen::*, model::*, render::*, term::*},
    serde_json::{json, Value},
    termimad::{
        crossterm::style::Color,
        minimad::{self, Composite},
        *,
    },
};

/// the color reserved to borders
const BORDER: Col = Col::Rgb(1, 2, 3);

pub struct C03;

/// separators of the tables in the generated texts
const SEPS: &[&str] = &["@\n", "@\n", "# @\n", "* @\n", "> @\n", "**@**\n", "    @\n"];

enum Src<'a> {
    Row(Vec<Composite<'a>>),
    Rule(Vec<Alignment>),
}

/// columns of the border glyphs
fn border_cols(line: &[Glyph]) -> Vec<usize> {
    let mut x = 0;
    let mut v = Vec::new();
    for (c, s) in line {
        if s.fg == Some(BORDER) {
            v.push(x);
        }
        x += cw(*c);
    }
    v
}

/// glyphs between two columns
fn between(line: &[Glyph], a: usize, b: usize) -> Vec<Glyph> {
    let mut x = 0;
    let mut v = Vec::new();
    for g in line {
        // zero width chars at the start of the range belong to it
        // as the precedent glyph is a border
        if x >= a && (x < b || (x == b && cw(g.0) == 0)) && g.1.fg != Some(BORDER) {
            v.push(*g);
        }
        x += cw(g.0);
    }
    v
}

fn check_table(
    skin: &MadSkin,
    src: &[Src<'_>],
    out: &[Vec<Glyph>],
    width: Option<usize>,
    obs: &mut Obs,
) -> Result<bool, Viol> {
    let ctx = || {
        format!(
            "width {width:?}\n{}",
            out.iter().map(|l| plain(l)).collect::<Vec<_>>().join("\n")
        )
    };
    let nb = src
        .iter()
        .map(|s| match s {
            Src::Row(c) => c.len(),
            Src::Rule(a) => a.len(),
        })
        .max()
        .unwrap_or(0);
    let mut natural = vec![3usize; nb];
    // the smallest workable width of columns
    let mut needs = vec![3usize; nb];
    let mut seen = Vec::new();
    for s in src {
        if let Src::Row(cells) = s {
            for (i, c) in cells.iter().enumerate() {
                let ct = content_of(skin, c);
                let ind = indents(skin, c.style).0;
                natural[i] = natural[i].max(ind + width_of(&ct.glyphs));
                needs[i] = needs[i].max((ind + max_cw(&ct.glyphs)).min(ind + width_of(&ct.glyphs)));
                seen.push((i, ind + width_of(&ct.glyphs)));
            }
        }
    }
    let enough = width.map_or(true, |w| w >= nb * 4 + 1);
    let sum: usize = natural.iter().sum();
    let reduced = !enough || width.map_or(false, |w| sum + nb + 1 > w);
    // only used to know whether the columns are wide enough for marks
    let predicted = match (enough, width) {
        (true, Some(w)) => {
            let mut tf = TblFit::new(nb, w).ok().expect("enough width");
            for (i, w) in seen {
                tf.see_cell(i, w);
            }
            tf.fit().col_widths
        }
        _ => vec![3; nb],
    };
    if reduced && predicted.iter().zip(&needs).any(|(w, n)| w < n) {
        obs.ev("tables_without_room", 1);
        return Ok(false);
    }
    // all lines have the same width
    ensure!(!out.is_empty(), "table not rendered", "{}", ctx());
    let w0 = width_of(&out[0]);
    for l in out {
        ensure!(width_of(l) == w0, "table lines of different widths", "{}", ctx());
    }
    let pad = out[0].iter().take_while(|g| g.0 == ' ' && g.1.fg != Some(BORDER)).count();
    let twidth = w0 - pad;
    if let Some(w) = width {
        ensure!(w0 <= w, "table wider than available", "{}", ctx());
    }
    let (lp, _) = width.map_or((0, 0), |w| completions(skin.table.align, twidth, w));
    ensure!(lp == pad, "table alignment", "pad {pad} instead of {lp}: {}", ctx());
    // columns
    let cols = if enough { nb } else { (width.unwrap() - 1) / 4 };
    if cols == 0 {
        obs.ev("tables_without_columns", 1);
        return Ok(false);
    }
    let tbc = skin.table_border_chars;
    let tsty = sty_of(&skin.table.compound_style);
    // positions of the vertical borders
    let mut borders: Option<Vec<usize>> = None;
    for l in out {
        let is_rule = l.iter().skip(pad).all(|g| g.1.fg == Some(BORDER));
        if !is_rule {
            let b = border_cols(l);
            match &borders {
                None => borders = Some(b),
                Some(o) => ensure!(*o == b, "vertical borders not aligned", "{}", ctx()),
            }
        }
    }
    let borders = match borders {
        Some(b) => b,
        None => {
            // only rules: the widths are the natural ones
            let ws: Vec<usize> = if enough { natural.clone() } else { vec![3; cols] };
            let mut x = pad;
            let mut v = vec![x];
            for w in ws {
                x += w + 1;
                v.push(x);
            }
            v
        }
    };
    ensure!(
        borders.len() == cols + 1 && borders[0] == pad && borders[cols] + 1 == w0,
        "wrong number of columns",
        "expected {cols} columns, borders at {borders:?}: {}",
        ctx()
    );
    let widths: Vec<usize> = (0..cols).map(|i| borders[i + 1] - borders[i] - 1).collect();
    if !enough {
        ensure!(
            widths.iter().all(|w| *w == 3),
            "width of columns when some are removed",
            "{widths:?} {}",
            ctx()
        );
        obs.ev("tables_with_removed_columns", 1);
    } else if !reduced {
        ensure!(widths == natural, "column widths", "{widths:?} instead of {natural:?}: {}", ctx());
    } else {
        obs.ev("tables_reduced", 1);
        for i in 0..cols {
            ensure!(
                widths[i] >= 3 && widths[i] <= natural[i],
                "reduced column width",
                "{widths:?} for natural widths {natural:?}: {}",
                ctx()
            );
        }
        ensure!(
            twidth == width.unwrap(),
            "reduced table doesn't use the available width",
            "{} for {:?}: {}",
            twidth,
            width,
            ctx()
        );
    }
    // content
    let columns: Vec<Vec<Vec<Glyph>>> = (0..cols)
        .map(|i| out.iter().map(|l| between(l, borders[i] + 1, borders[i + 1])).collect())
        .collect();
    let psty = sty_of(&skin.paragraph.compound_style);
    let blank: Vec<Vec<bool>> = (0..cols)
        .map(|i| columns[i].iter().map(|l| *l == rep(widths[i], ' ', psty)).collect())
        .collect();
    let is_rule: Vec<bool> =
        out.iter().map(|l| l.iter().skip(pad).all(|g| g.1.fg == Some(BORDER))).collect();
    for (l, rule) in out.iter().zip(&is_rule) {
        if !rule {
            let b: Vec<Glyph> = l.iter().filter(|g| g.1.fg == Some(BORDER)).copied().collect();
            ensure!(
                b == rep(cols + 1, tbc.vertical, tsty),
                "vertical border chars",
                "{b:?} {}",
                ctx()
            );
        }
    }
    let mut aligns = vec![Alignment::Center; cols];
    let nlines = out.len();
    // the possible positions in the output
    let mut states: Vec<usize> = vec![0];
    for (is, s) in src.iter().enumerate() {
        let mut next: Vec<usize> = Vec::new();
        match s {
            Src::Rule(a) => {
                for &io in &states {
                    if io >= nlines {
                        continue;
                    }
                    let (l, m, r) = if io == 0 {
                        (tbc.top_left_corner, tbc.top_junction, tbc.top_right_corner)
                    } else if is == src.len() - 1 {
                        (tbc.bottom_left_corner, tbc.bottom_junction, tbc.bottom_right_corner)
                    } else {
                        (tbc.left_junction, tbc.cross, tbc.right_junction)
                    };
                    let mut e = rep(pad, ' ', psty);
                    for i in 0..cols {
                        e.push((if i == 0 { l } else { m }, tsty));
                        e.extend(rep(widths[i], tbc.horizontal, tsty));
                    }
                    e.push((r, tsty));
                    if e == out[io] {
                        next.push(io + 1);
                    }
                }
                for i in 0..cols {
                    aligns[i] = a.get(i).copied().unwrap_or(Alignment::Unspecified);
                }
                obs.ev("rules_checked", 1);
            }
            Src::Row(cells) => {
                for &io in &states {
                    let mut last = io; // lines before the next rule
                    while last < nlines && !is_rule[last] {
                        last += 1;
                    }
                    let max = last - io;
                    let mut possible = vec![true; max + 1];
                    let mut reached = vec![false; max + 1];
                    possible[0] = false;
                    for i in 0..cols {
                        let empty = Content {
                            style: minimad::CompositeStyle::Paragraph,
                            glyphs: vec![],
                            seam: vec![],
                            word: vec![],
                            ws: vec![],
                        };
                        let c = cells.get(i).map(|c| content_of(skin, c)).unwrap_or(empty);
                        let ends =
                            match_cell(skin, &c, &columns[i][io..last], widths[i], aligns[i]);
                        let mut can = vec![false; max + 1];
                        for m in ends {
                            can[m] = true;
                            reached[m] = true;
                            let mut k = m;
                            while k < max && blank[i][io + k] {
                                k += 1;
                                can[k] = true;
                            }
                        }
                        for k in 0..=max {
                            possible[k] &= can[k];
                        }
                    }
                    for k in 1..=max {
                        if possible[k] && reached[k] {
                            if k > 1 {
                                obs.ev("rows_wrapped", 1);
                            }
                            next.push(io + k);
                        }
                    }
                }
                obs.ev("cells_checked", cols as u64);
            }
        }
        next.sort();
        next.dedup();
        if next.is_empty() {
            return viol(
                match s {
                    Src::Row(_) => "table row content",
                    Src::Rule(_) => "table rule",
                },
                format!(
                    "source line {is} isn't rendered from output lines {states:?}: {}\naligns {aligns:?} widths {widths:?}\n{}\n{:?}",
                    match s {
                        Src::Row(cells) => format!("{:?}", cells
                            .iter()
                            .map(|c| (c.style, c.compounds.iter().map(|c| c.src).collect::<Vec<_>>()))
                            .collect::<Vec<_>>()),
                        Src::Rule(a) => format!("{a:?}"),
                    },
                    ctx(),
                    states.iter().filter_map(|io| out.get(*io)).collect::<Vec<_>>(),
                ),
            );
        }
        states = next;
    }
    ensure!(
        states.contains(&nlines),
        "spurious table lines",
        "ends at {states:?} of {nlines}: {}",
        ctx()
    );
    Ok(true)
}

impl Check for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "random tables (1 to 14 columns, ragged rows, empty, styled, list and quote cells, wide chars, any alignment rules), alone or between paragraphs, unwrapped or at widths 3..250, random skins with a color reserved to borders; every line of the grid is parsed back and compared to the source; non trivial when the table is reduced or has several aligned columns"
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 80_000 } else { 2_000_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["cells_checked", "rows_wrapped", "tables_reduced", "tables_with_removed_columns", "rules_checked", "fits_checked", "fits_reduced", "fits_natural", "balanced_reductions"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
        let mut md = String::new();
        let n = r.range(1, 2);
        for i in 0..n {
            if i > 0 || r.chance(1, 5) {
                md.push_str(r.pick(SEPS));
            }
            let mut table = String::new();
            table_md(r, alpha, &mut table);
            sprinkle(r, &mut table, alpha);
            md.push_str(&table);
        }
        if r.chance(1, 4) {
            md.push_str(r.pick(SEPS));
        }
        let mut width = json!(rand_width(r));
        if r.chance(1, 8) {
            width = Value::Null;
        }
        let most = *r.pick(&[5, 20, 60, 60, 400]);
        let cells: Vec<u64> = (0..r.range(1, 30)).map(|_| (if r.chance(1, 6) { r.below(400) } else { r.below(most) }) as u64).collect();
        let cols = if r.chance(1, 8) { r.range(0, 40) } else { r.range(1, 8) };
        let fit_width = match r.below(6) {
            0 => cols * 4 + r.below(3),
            1 => r.range(0, 700),
            2 => r.range(cols * 4, cols * 20),
            _ => r.range(1, 120),
        };
        json!({"md": md, "width": width, "skin": rand_skin_seed(r), "fit": {"cols": cols, "width": fit_width, "cells": cells}})
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let md = s(case, "md");
        let width = case["width"].as_u64().map(|w| w as usize);
        if width.map_or(false, |w| w < 3) {
            return Ok(());
        }
        // ---- the column fitter alone
        let f = &case["fit"];
        let (fc, fw) = (u(f, "cols"), u(f, "width"));
        match TblFit::new(fc, fw) {
            Err(_) => ensure!(fw < fc * 4 + 1, "TblFit refuses a sufficient width", "{f}"),
            Ok(mut tf) => {
                ensure!(fw >= fc * 4 + 1, "TblFit accepts an insufficient width", "{f}");
                let mut nat = vec![3usize; fc];
                let mut seen = vec![(0usize, 0usize); fc];
                if let Some(a) = f["cells"].as_array() {
                    for (i, c) in a.iter().enumerate() {
                        let w = c.as_u64().unwrap_or(0) as usize;
                        if fc > 0 {
                            tf.see_cell(i % fc, w);
                            // there's no such column
                            tf.see_cell(fc + i, 1000);
                            nat[i % fc] = nat[i % fc].max(w);
                            seen[i % fc].0 += w;
                            seen[i % fc].1 += 1;
                        }
                    }
                }
                let res = tf.fit();
                let got: usize = res.col_widths.iter().sum();
                let sum: usize = nat.iter().sum();
                let avail = fw - 1 - fc;
                ensure!(res.col_widths.len() == fc, "TblFit number of columns", "{f}");
                ensure!(got <= avail, "TblFit exceeds the available width", "{f} -> {:?}", res.col_widths);
                if sum <= avail {
                    ensure!(res.col_widths == nat, "TblFit reduces without need", "{f} -> {:?}", res.col_widths);
                } else {
                    ensure!(
                        res.col_widths.iter().zip(&nat).all(|(w, n)| *w >= 3 && w <= n) && got == avail,
                        "TblFit bad reduction",
                        "{f} -> {:?} from {nat:?}",
                        res.col_widths
                    );
                    // balance: but for rounding, no column gets less than its average
                    // content reduced in the proportion of the whole table
                    for (i, &w) in res.col_widths.iter().enumerate() {
                        let avg = if seen[i].1 == 0 { 0 } else { seen[i].0.div_ceil(seen[i].1) };
                        let floor = 3 + nat[i].min(avg).saturating_sub(3) * (avail - 3 * fc) / (sum - 3 * fc);
                        ensure!(w + 1 >= floor, "TblFit unbalanced", "column {i} gets {w} instead of {floor} in {f} -> {:?} from {nat:?}", res.col_widths);
                        if floor > 5 {
                            obs.ev("balanced_reductions", 1);
                        }
                    }
                }
                // some cells have to be wrapped when they're wider than their column
                let wrapped = nat.iter().zip(&res.col_widths).any(|(n, w)| n > w);
                ensure!(res.reduced == wrapped, "TblFit reduced flag", "{} for {f} -> {:?} from {nat:?}", res.reduced, res.col_widths);
                obs.ev("fits_checked", 1);
                obs.ev(if wrapped { "fits_reduced" } else { "fits_natural" }, 1);
            }
        }
        let mut skin = skin(case["skin"].as_u64().unwrap_or(0));
        let b = Color::Rgb { r: 1, g: 2, b: 3 };
        skin.table.compound_style.set_fg(b);
        let Some(t) = parse_ok(md) else {
            return Ok(());
        };
        // margins would move the separator lines, they're not relevant here
        let sep = "@";
        let mut tables: Vec<Vec<Src<'_>>> = vec![vec![]];
        for l in t.lines {
            match l {
                minimad::Line::TableRow(r) => tables.last_mut().unwrap().push(Src::Row(r.cells)),
                minimad::Line::TableRule(r) => tables.last_mut().unwrap().push(Src::Rule(r.cells)),
                minimad::Line::Normal(c)
                    if c.compounds.len() == 1 && c.compounds[0].src == sep =>
                {
                    tables.push(vec![])
                }
                _ => return Ok(()),
            }
        }
        let ft = skin.text(md, width);
        let out = lines_of(&ft.to_string())?;
        let mut outs: Vec<Vec<Vec<Glyph>>> = vec![vec![]];
        for l in out {
            if plain(&l).trim().ends_with(sep) {
                outs.push(vec![]);
            } else {
                outs.last_mut().unwrap().push(l);
            }
        }
        ensure!(outs.len() == tables.len(), "lines between tables", "{:?}", ft.to_string());
        let mut interesting = true;
        for (src, out) in tables.iter().zip(&outs) {
            if src.is_empty() {
                ensure!(out.is_empty(), "spurious lines", "{out:?}");
                continue;
            }
            let done = check_table(&skin, src, out, width, obs)?;
            interesting &= done;
        }
        // with right completion
        if let (Some(w), true) = (width, interesting) {
            for l in ft.lines.iter().take(20) {
                let d = DisplayableLine::new(&skin, l, width).to_string();
                let line = lines_of(&d)?.into_iter().next().unwrap_or_default();
                ensure!(
                    width_of(&line) == w,
                    "completed table line doesn't fill the width",
                    "{:?} for {w}",
                    plain(&line)
                );
                obs.ev("completed_lines", 1);
            }
        }
        if interesting {
            obs.nontrivial(hash_str(&ft.to_string()));
            obs.sample(json!({"case": case, "rendered": outs.iter().flatten().map(|l| plain(l)).collect::<Vec<_>>()}));
        }
        Ok(())
    }
}
