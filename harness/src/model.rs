//! Reference model of the rendering of markdown lines, written from the
//! documentation, on top of the markdown parser only.

use {
    crate::{
        core::{viol, Viol},
        gen::*,
        term::*,
    },
    std::collections::BTreeSet,
    termimad::{
        minimad::{self, Composite, CompositeStyle, Compound},
        *,
    },
};

/// style of a compound, on a line
pub fn compound_sty(skin: &MadSkin, ls: &LineStyle, c: &Compound<'_>) -> Sty {
    let mut s = sty_of(&ls.compound_style);
    if c.italic {
        s = overlay(s, sty_of(&skin.italic));
    }
    if c.strikeout {
        s = overlay(s, sty_of(&skin.strikeout));
    }
    if c.bold {
        s = overlay(s, sty_of(&skin.bold));
    }
    if c.code {
        s = overlay(s, sty_of(&skin.inline_code));
    }
    s
}

pub fn line_style_of<'a>(skin: &'a MadSkin, style: CompositeStyle) -> &'a LineStyle {
    match style {
        CompositeStyle::Code => &skin.code_block,
        CompositeStyle::Header(l) if (l as usize) <= skin.headers.len() => {
            &skin.headers[l as usize - 1]
        }
        _ => &skin.paragraph,
    }
}

pub fn indents(skin: &MadSkin, style: CompositeStyle) -> (usize, usize) {
    match style {
        CompositeStyle::ListItem(d) => {
            let i = 2 + d as usize;
            match skin.list_items_indentation_mode {
                ListItemsIndentationMode::Block => (i, i),
                ListItemsIndentationMode::FirstLineOnly => (i, 0),
            }
        }
        CompositeStyle::Quote => (2, 2),
        _ => (0, 0),
    }
}

pub struct Content {
    pub style: CompositeStyle,
    pub glyphs: Vec<Glyph>,
    /// for each glyph, whether it may be separated from the precedent
    /// one even without white space (other compound)
    pub seam: Vec<bool>,
    /// for each glyph, the width of the unbreakable word it's part of
    pub word: Vec<usize>,
    pub ws: Vec<bool>,
}

pub fn content_of(skin: &MadSkin, c: &Composite<'_>) -> Content {
    let ls = line_style_of(skin, c.style);
    let mut glyphs = Vec::new();
    let mut seam = Vec::new();
    let mut word = Vec::new();
    let mut ws = Vec::new();
    for comp in &c.compounds {
        let sty = if comp.src == "…" {
            sty_of(&skin.ellipsis)
        } else {
            compound_sty(skin, ls, comp)
        };
        let chars: Vec<char> = comp.src.chars().collect();
        let mut i = 0;
        while i < chars.len() {
            let blank = |c: char| c.is_whitespace() && !comp.code;
            let mut j = i;
            let mut w = 0;
            while j < chars.len() && blank(chars[j]) == blank(chars[i]) {
                w += cw(chars[j]);
                j += 1;
            }
            for k in i..j {
                glyphs.push((chars[k], sty));
                seam.push(k == 0);
                word.push(w);
                // the blanks of an inline code are part of its text
                ws.push(chars[k].is_whitespace() && !comp.code);
            }
            i = j;
        }
    }
    Content {
        style: c.style,
        glyphs,
        seam,
        word,
        ws,
    }
}

/// A wrapped ellipsis may have the style of the ellipsis or the one of
/// its text (depending on it being isolated by the wrapping): make it neutral.
pub fn neutral_ellipsis(skin: &MadSkin, g: &[Glyph]) -> Vec<Glyph> {
    let sty = sty_of(&skin.ellipsis);
    g.iter()
        .map(|g| if g.0 == '…' { (g.0, sty) } else { *g })
        .collect()
}

pub fn width_of(g: &[Glyph]) -> usize {
    glyphs_width(g)
}

pub fn rep(n: usize, c: char, s: Sty) -> Vec<Glyph> {
    vec![(c, s); n]
}

/// prefix of a line for a kind of composite
pub fn prefix(skin: &MadSkin, style: CompositeStyle, first: bool) -> Vec<Glyph> {
    let par = sty_of(&skin.paragraph.compound_style);
    let mut v = Vec::new();
    match style {
        CompositeStyle::ListItem(d) => {
            if first {
                v.extend(rep(d as usize, ' ', par));
                v.push((skin.bullet.nude_char(), sty_of(skin.bullet.compound_style())));
                v.push((' ', par));
            } else if skin.list_items_indentation_mode == ListItemsIndentationMode::Block {
                v.extend(rep(d as usize + 2, ' ', par));
            }
        }
        CompositeStyle::Quote => {
            v.push((
                skin.quote_mark.nude_char(),
                sty_of(skin.quote_mark.compound_style()),
            ));
            v.push((' ', par));
        }
        _ => {}
    }
    v
}

pub fn completions(align: Alignment, inner: usize, outer: usize) -> (usize, usize) {
    if inner >= outer {
        return (0, 0);
    }
    let d = outer - inner;
    match align {
        Alignment::Left | Alignment::Unspecified => (0, d),
        Alignment::Right => (d, 0),
        Alignment::Center => (d / 2, d - d / 2),
    }
}

pub fn margins(ls: &LineStyle, width: Option<usize>) -> (usize, usize) {
    match width {
        Some(w) if w < ls.left_margin + ls.right_margin + 3 => (0, 0),
        _ => (ls.left_margin, ls.right_margin),
    }
}

/// exact glyphs of a rendered line
pub fn expected_line(
    skin: &MadSkin,
    style: CompositeStyle,
    first: bool,
    chunk: &[Glyph],
    block_width: Option<usize>,
    width: Option<usize>,
    right_completion: bool,
) -> Vec<Glyph> {
    let ls = line_style_of(skin, style);
    let par = sty_of(&skin.paragraph.compound_style);
    let lsty = sty_of(&ls.compound_style);
    let pre = prefix(skin, style, first);
    let vis = pre.len() + width_of(chunk);
    let inner = block_width.map_or(vis, |b| b.max(vis));
    let (lm, rm) = margins(ls, width);
    let (lpo, rpo) = match width {
        Some(w) => completions(ls.align, inner + lm + rm, w),
        None => (0, 0),
    };
    let mut v = rep(lpo + lm, ' ', par);
    v.extend(pre);
    v.extend_from_slice(chunk);
    v.extend(rep(inner - vis, ' ', lsty));
    if right_completion {
        v.extend(rep(rpo + rm, ' ', par));
    }
    v
}

fn is_ws(c: char) -> bool {
    c.is_whitespace()
}

fn trim(g: &[Glyph]) -> &[Glyph] {
    let mut a = 0;
    let mut b = g.len();
    while a < b && is_ws(g[a].0) {
        a += 1;
    }
    while b > a && is_ws(g[b - 1].0) {
        b -= 1;
    }
    &g[a..b]
}

/// exact glyphs of a line of a table cell
pub fn expected_cell(
    skin: &MadSkin,
    style: CompositeStyle,
    first: bool,
    chunk: &[Glyph],
    width: usize,
    align: Alignment,
) -> Vec<Glyph> {
    let par = sty_of(&skin.paragraph.compound_style);
    let pre = prefix(skin, style, first);
    let vis = pre.len() + width_of(chunk);
    let (lp, rp) = completions(align, vis, width);
    let mut v = rep(lp, ' ', par);
    v.extend(pre);
    v.extend_from_slice(chunk);
    v.extend(rep(rp, ' ', par));
    v
}

/// Return all the numbers of lines which may be a full and right rendering of a cell
/// at the start of the lines of its column.
pub fn match_cell(
    skin: &MadSkin,
    c: &Content,
    out: &[Vec<Glyph>],
    width: usize,
    align: Alignment,
) -> Vec<usize> {
    let out: Vec<Vec<Glyph>> = out.iter().map(|l| neutral_ellipsis(skin, l)).collect();
    let c = &Content {
        style: c.style,
        glyphs: neutral_ellipsis(skin, &c.glyphs),
        seam: c.seam.clone(),
        word: c.word.clone(),
        ws: c.ws.clone(),
    };
    let (first_indent, _) = indents(skin, c.style);
    let whole = first_indent + width_of(&c.glyphs) <= width;
    let avail = width.saturating_sub(first_indent);
    let len = c.glyphs.len();
    let mut states: BTreeSet<usize> = BTreeSet::new();
    states.insert(0);
    let mut ends = Vec::new();
    for (il, line) in out.iter().enumerate() {
        let mut next = BTreeSet::new();
        let mut done = false;
        let pre_len = prefix(skin, c.style, il == 0).len();
        for &pos in &states {
            let range = if whole { len - pos..=len - pos } else { 0..=len - pos };
            let mut w = pre_len + if whole { width_of(&c.glyphs[pos..]) } else { 0 };
            for n in range {
                if !whole && n > 0 {
                    w += cw(c.glyphs[pos + n - 1].0);
                }
                if w > width {
                    break;
                }
                if line.len() != n + pre_len + width - w {
                    continue;
                }
                let chunk = &c.glyphs[pos..pos + n];
                let e = expected_cell(skin, c.style, il == 0, chunk, width, align);
                if e != *line {
                    continue;
                }
                let mut p = pos + n;
                loop {
                    if p >= len {
                        done = true;
                        break;
                    }
                    if !whole && p > pos {
                        let at_ws = p > pos + n || c.ws[p] || c.ws[p - 1] || c.seam[p];
                        if at_ws || c.word[p] > avail {
                            next.insert(p);
                        }
                    }
                    if c.ws[p] {
                        p += 1;
                    } else {
                        break;
                    }
                }
            }
        }
        if done {
            ends.push(il + 1);
        }
        if next.is_empty() {
            break;
        }
        states = next;
    }
    ends
}

#[derive(Clone, Copy, PartialEq)]
pub enum Strictness {
    /// only the content matters, whatever the leading and trailing spaces
    Content,
    /// everything must be right
    Exact,
}

pub enum SrcLine {
    Composite(Content),
    Rule,
    /// code lines of a same block are grouped
    Table,
}

pub fn src_lines(skin: &MadSkin, text: &minimad::Text<'_>) -> Vec<SrcLine> {
    text.lines
        .iter()
        .map(|l| match l {
            minimad::Line::Normal(c) => SrcLine::Composite(content_of(skin, c)),
            minimad::Line::HorizontalRule | minimad::Line::CodeFence(..) => SrcLine::Rule,
            minimad::Line::TableRow(_) | minimad::Line::TableRule(_) => SrcLine::Table,
        })
        .collect()
}

pub fn is_code(l: &SrcLine) -> bool {
    matches!(l, SrcLine::Composite(c) if c.style == CompositeStyle::Code)
}

/// Whether a composite doesn't need any wrapping at this width
pub fn fits(skin: &MadSkin, c: &Content, width: Option<usize>) -> bool {
    match width {
        None => true,
        Some(w) if w < 3 => true,
        Some(w) => {
            let (lm, rm) = margins(line_style_of(skin, c.style), width);
            indents(skin, c.style).0 + width_of(&c.glyphs) + lm + rm <= w
        }
    }
}

fn match_chunk(
    skin: &MadSkin,
    c: &Content,
    pos: usize,
    first: bool,
    line: &[Glyph],
    width: Option<usize>,
    block_width: Option<usize>,
    strict: Strictness,
    right_completion: bool,
    whole: bool,
) -> Vec<usize> {
    let mut found = Vec::new();
    let lw = width_of(line);
    let ns: Box<dyn Iterator<Item = usize>> = if whole {
        Box::new(std::iter::once(c.glyphs.len() - pos))
    } else {
        Box::new(0..=(c.glyphs.len() - pos).min(lw * 4 + 40))
    };
    match strict {
        Strictness::Exact => {
            for n in ns {
                let chunk = &c.glyphs[pos..pos + n];
                if !whole && width_of(chunk) > lw {
                    break;
                }
                let e = expected_line(
                    skin,
                    c.style,
                    first,
                    chunk,
                    block_width,
                    width,
                    right_completion,
                );
                if e.len() == line.len() && e == line {
                    found.push(n);
                }
            }
        }
        Strictness::Content => {
            let mut l = trim(line);
            // marker
            let pre = prefix(skin, c.style, first);
            let mark = trim(&pre);
            if !mark.is_empty() {
                if l.is_empty() || l[0] != mark[0] {
                    return found;
                }
                l = &l[1..];
                l = trim(l);
            }
            for n in ns {
                let chunk = &c.glyphs[pos..pos + n];
                let t = trim(chunk);
                if t.len() > l.len() {
                    break;
                }
                if t == l && keeps_code_blanks(c, pos, n, line, l) {
                    found.push(n);
                }
            }
        }
    }
    found
}

/// whether the blanks of inline code around the text of the chunk are in the line
fn keeps_code_blanks(c: &Content, pos: usize, n: usize, line: &[Glyph], trimmed: &[Glyph]) -> bool {
    let (mut a, mut b) = (pos, pos + n);
    while a < b && c.ws[a] {
        a += 1;
    }
    while b > a && c.ws[b - 1] {
        b -= 1;
    }
    let kept = &c.glyphs[a..b];
    let text = trim(kept);
    if text.is_empty() {
        // nothing but blanks, some being code
        return kept.is_empty() || line.windows(kept.len()).any(|w| w == kept);
    }
    if text.len() == kept.len() {
        return true;
    }
    let before = kept.iter().take_while(|g| is_ws(g.0)).count();
    let start = (trimmed.as_ptr() as usize - line.as_ptr() as usize) / std::mem::size_of::<Glyph>();
    let Some(start) = start.checked_sub(before) else {
        return false;
    };
    line.len() >= start + kept.len() && line[start..start + kept.len()] == *kept
}

/// Check that the output lines are a correct rendering of the source lines.
///
/// Table lines must have been excluded.
pub fn check_lines(
    skin: &MadSkin,
    src: &[SrcLine],
    out: &[Vec<Glyph>],
    width: Option<usize>,
    strict: Strictness,
    right_completion: bool,
) -> Result<usize, Viol> {
    let wrapping = width.filter(|w| *w >= 3);
    let neutral = wrapping.is_some();
    let contents: Vec<Option<Content>> = src
        .iter()
        .map(|s| match s {
            SrcLine::Composite(c) if neutral && c.glyphs.iter().any(|g| g.0 == '…') => {
                Some(Content {
                    style: c.style,
                    glyphs: neutral_ellipsis(skin, &c.glyphs),
                    seam: c.seam.clone(),
                    word: c.word.clone(),
                    ws: c.ws.clone(),
                })
            }
            _ => None,
        })
        .collect();
    // (src line, pos, first, index of code block width)
    type St = (usize, usize, bool, usize);
    let mut states: BTreeSet<St> = BTreeSet::new();
    states.insert((0, 0, true, 0));
    let mut breaks = 0;
    let mut last_nonempty: BTreeSet<St> = states.clone();
    for (il, line) in out.iter().enumerate() {
        let line = &if neutral { neutral_ellipsis(skin, line) } else { line.clone() };
        let mut next: BTreeSet<St> = BTreeSet::new();
        for &(is, pos, first, bw) in &states {
            let Some(s) = src.get(is) else {
                continue;
            };
            let c = match s {
                SrcLine::Table => return viol("HARNESS", "table in check_lines".into()),
                SrcLine::Rule => {
                    let e = rep(
                        width.unwrap_or(0),
                        skin.horizontal_rule.nude_char(),
                        sty_of(skin.horizontal_rule.compound_style()),
                    );
                    if &e == line {
                        next.insert((is + 1, 0, true, 0));
                    }
                    continue;
                }
                SrcLine::Composite(c) => contents[is].as_ref().unwrap_or(c),
            };
            let whole = fits(skin, c, width) || wrapping.is_none();
            // candidates for the width of the code block
            let bws: Vec<usize> = if c.style == CompositeStyle::Code && strict == Strictness::Exact
            {
                if bw > 0 {
                    vec![bw - 1]
                } else {
                    (0..=width_of(line)).collect()
                }
            } else {
                vec![usize::MAX]
            };
            for b in bws {
                let block_width = if b == usize::MAX { None } else { Some(b) };
                for n in match_chunk(
                    skin,
                    c,
                    pos,
                    first,
                    line,
                    width,
                    block_width,
                    strict,
                    right_completion,
                    whole,
                ) {
                    if let Some(b) = block_width {
                        // no line may be wider than the block
                        if width_of(&c.glyphs[pos..pos + n]) > b {
                            continue;
                        }
                    }
                    let nbw = block_width.map_or(0, |b| b + 1);
                    let len = c.glyphs.len();
                    let (first_indent, _) = indents(skin, c.style);
                    let (lm, rm) = margins(line_style_of(skin, c.style), width);
                    let avail = width
                        .unwrap_or(usize::MAX)
                        .saturating_sub(first_indent + lm + rm);
                    if strict == Strictness::Exact && wrapping.is_some() {
                        // the right margin isn't for the content
                        let mark = prefix(skin, c.style, first).len();
                        let chunk = width_of(&c.glyphs[pos..pos + n]);
                        if mark + chunk + lm + rm > width.unwrap_or(usize::MAX) {
                            continue;
                        }
                    }
                    let mut p = pos + n;
                    loop {
                        if p >= len {
                            // end of composite
                            let cont = is_code(s) && src.get(is + 1).map_or(false, is_code);
                            next.insert((is + 1, 0, true, if cont { nbw } else { 0 }));
                            break;
                        }
                        if !whole && p > pos {
                            let at_ws = p > pos + n
                                || c.ws[p]
                                || (p > 0 && c.ws[p - 1])
                                || c.seam[p];
                            if at_ws || c.word[p] > avail {
                                next.insert((is, p, false, nbw));
                            }
                        }
                        if c.ws[p] {
                            p += 1;
                        } else {
                            break;
                        }
                    }
                }
            }
        }
        if next.is_empty() {
            let st: Vec<String> = last_nonempty
                .iter()
                .take(6)
                .map(|(is, pos, first, bw)| {
                    format!(
                        "source line {is}{} pos {pos} first={first} bw={bw}: {}",
                        match src.get(*is) {
                            Some(SrcLine::Composite(c)) => format!(" {:?}", c.style),
                            Some(_) => " rule".to_string(),
                            None => " (none left)".to_string(),
                        },
                        match src.get(*is) {
                            Some(SrcLine::Composite(c)) =>
                                format!("{:?}", plain(&c.glyphs[(*pos).min(c.glyphs.len())..])),
                            _ => String::new(),
                        }
                    )
                })
                .collect();
            let p: Vec<String> = out.iter().map(|l| plain(l)).collect();
            return viol(
                "rendered line doesn't match the source",
                format!(
                    "width {width:?}: output line {il} {:?} isn't a correct rendering from any of {st:#?}\nglyphs: {:?}\nfull output: {p:#?}",
                    plain(line),
                    line
                ),
            );
        }
        breaks += 1;
        states = next;
        last_nonempty = states.clone();
    }
    if states.iter().any(|s| s.0 == src.len() && s.1 == 0) {
        Ok(breaks - src.len().min(breaks))
    } else {
        let p: Vec<String> = out.iter().map(|l| plain(l)).collect();
        viol(
            "source content missing at the end of the rendering",
            format!("width {width:?}: states {states:?} of {} lines; output {p:#?}", src.len()),
        )
    }
}
