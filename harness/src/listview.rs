//! C11 drawing of list views, C12 coherence of their state

use {
    crate::{core::*, gen::*, model::*, render::*, term::*},
    serde_json::{json, Value},
    termimad::*,
};

#[derive(Clone, Debug)]
struct Item {
    id: usize,
    key: i64,
    tag: u64,
    cells: Vec<String>,
}

struct Col_ {
    title: String,
    min: usize,
    max: usize,
    align: Alignment,
}

/// what the list view should be
struct Model {
    rows: Vec<Item>,
    filter: Option<u64>,
    sort: Option<u64>,
    selection: Option<usize>, // id
    next_id: usize,
    /// observed scroll (number of displayed rows hidden at top)
    scroll: usize,
}

fn passes(f: Option<u64>, i: &Item) -> bool {
    match f {
        None => true,
        Some(m) => m & (1 << (i.tag % 8)) != 0,
    }
}

fn compare(k: u64, a: &Item, b: &Item) -> std::cmp::Ordering {
    match k % 3 {
        0 => a.key.cmp(&b.key),
        1 => b.key.cmp(&a.key),
        _ => a.tag.cmp(&b.tag),
    }
}

impl Model {
    fn displayed(&self) -> Vec<&Item> {
        self.rows.iter().filter(|i| passes(self.filter, i)).collect()
    }
    fn rank_of(&self, id: usize) -> Option<usize> {
        self.displayed().iter().position(|i| i.id == id)
    }
}

fn cell_style(skin: &MadSkin, k: usize) -> &CompoundStyle {
    match k % 4 {
        0 => &skin.bold,
        1 => &skin.italic,
        2 => &skin.paragraph.compound_style,
        _ => &skin.inline_code,
    }
}

fn tbody(area: &Area) -> usize {
    (area.height as usize).saturating_sub(2)
}

/// widths of the columns, as can be seen in the separator line
fn drawn_widths(line: &str, n: usize) -> Vec<usize> {
    let l = line.trim_end_matches('·');
    let v: Vec<usize> = l.split(|c| c == '┬' || c == '┼').map(|p| p.chars().count()).collect();
    if n == 0 { vec![] } else { v }
}

/// draw the view and compare what can be seen with the model
///
/// Return the observed scroll
fn observe(
    lv: &ListView<'_, Item>,
    m: &Model,
    cols: &[Col_],
    full: bool,
    ctx: &str,
    obs: &mut Obs,
) -> Result<(usize, bool), Viol> {
    let skin = lv.skin;
    let area = &lv.area;
    let mut b = Vec::new();
    lv.write_on(&mut b).unwrap();
    let sc = Screen::of(&b)?;
    let (l, t, w, h) = (area.left as i32, area.top as i32, area.width as i32, area.height as i32);
    let displayed = m.displayed();
    let n = displayed.len();
    let tb = tbody(area);
    obs.ev("drawings", 1);
    if full {
        ensure!(sc.sty == Sty::default(), "style leak", "{:?} {ctx}", sc.sty);
        ensure!(sc.controls.is_empty() && sc.others.is_empty() && sc.erased_other.is_empty(), "unexpected operations", "{ctx}");
        for ((y, x), c) in &sc.cells {
            ensure!(
                *x >= l && *x < l + w && *y >= t && *y < t + h,
                "painted out of the area",
                "{:?} at {x},{y}, area {area:?} {ctx}",
                c.ch
            );
        }
        if let Some((y, x)) = sc.erased_right.first() {
            return viol("erases out of the area", format!("at {x},{y}, area {area:?}, {ctx}"));
        }
    }
    // ---- column widths
    let sep = sc.row_text(t + 1, l, l + w - 1);
    let widths = drawn_widths(&sep, cols.len());
    ensure!(widths.len() == cols.len(), "columns missing in the separator", "{sep:?} {ctx}");
    if full {
        let avail = area.width as usize - cols.len();
        let sum_max: usize = cols.iter().fold(0, |s, c| s.saturating_add(c.max));
        let sum: usize = widths.iter().sum();
        for (c, w) in cols.iter().zip(&widths) {
            ensure!(*w >= c.min && *w <= c.max, "column width out of its bounds", "{w} for {}..{} {ctx}", c.min, c.max);
        }
        ensure!(sum == avail.min(sum_max), "columns don't fill the width", "{sum} columns, {avail} available, {sum_max} at most, {sep:?} {ctx}");
    }
    // ---- title and separator
    if full {
        let mut want_title: Vec<Glyph> = Vec::new();
        let mut want_sep: Vec<Glyph> = Vec::new();
        let tsty = sty_of(&skin.table.compound_style);
        let hsty = sty_of(&skin.headers[0].compound_style);
        let mut i = 0;
        while i < cols.len() {
            let mut j = i + 1;
            while j < cols.len() && cols[j].title == cols[i].title {
                j += 1;
            }
            if i > 0 {
                want_title.push(('│', tsty));
                want_sep.push(('┼', tsty));
            }
            let tw = widths[i..j].iter().sum::<usize>() + (j - i - 1);
            want_title.extend(counted(&cols[i].title, tw, Alignment::Center).into_iter().map(|c| (c, hsty)));
            for k in i..j {
                if k > i {
                    want_sep.push(('┬', tsty));
                    obs.ev("merged_titles", 1);
                }
                want_sep.extend(rep(widths[k], '─', tsty));
            }
            i = j;
        }
        let tot = want_sep.len() as i32;
        let got = sc.row(t, l, l + tot);
        ensure!(got == want_title, "wrong title line", "{:?} instead of {:?} {ctx}", plain(&got), plain(&want_title));
        let got = sc.row(t + 1, l, l + tot);
        ensure!(got == want_sep, "wrong separator line", "{:?} instead of {:?} {ctx}", plain(&got), plain(&want_sep));
    }
    // ---- rows
    let w0 = widths[0] as i32;
    let mut first: Option<usize> = None;
    let mut seen = 0;
    let mut sel_seen = false;
    for j in 0..tb {
        let y = t + 2 + j as i32;
        let txt = sc.row_text(y, l, l + w0);
        let id: Option<usize> = txt.trim_matches(|c: char| !c.is_ascii_digit()).parse().ok();
        match (id, first) {
            (Some(id), None) => {
                ensure!(j == 0, "blank row before rows", "row {j} {ctx}");
                let Some(rank) = m.rank_of(id) else {
                    return viol("a row which isn't to be displayed is drawn", format!("id {id} {ctx}"));
                };
                first = Some(rank);
            }
            (Some(id), Some(f)) => {
                let want = displayed.get(f + j).map(|i| i.id);
                ensure!(want == Some(id), "wrong row drawn", "{id} instead of {want:?} in row {j} {ctx}");
            }
            (None, f) => {
                let missing = displayed.get(f.unwrap_or(0) + j).map(|i| i.id);
                ensure!(missing.is_none(), "missing row", "{missing:?} not drawn in row {j}: {txt:?} {ctx}");
                if full {
                    let row = sc.row(y, l, l + w - (n > tb) as i32);
                    ensure!(
                        row.iter().all(|g| *g == (' ', Sty::default())) && row.len() > 0,
                        "blank row not blank",
                        "{:?} {ctx}",
                        plain(&row)
                    );
                    obs.ev("blank_rows", 1);
                }
            }
        }
        if let Some(id) = id {
            seen += 1;
            let item = &displayed[first.unwrap() + j];
            let selected = m.selection == Some(id);
            let bg = Some(Col::Ansi(237));
            let marked = sc.row(y, l, l + w0).iter().all(|g| g.1.bg == bg);
            if selected {
                sel_seen = true;
                ensure!(marked, "selected row not marked", "{:?} {ctx}", sc.row(y, l, l + w0));
            }
            if full {
                let mut x = l;
                for (k, cw) in widths.iter().enumerate() {
                    if k > 0 {
                        let g = sc.row(y, x, x + 1);
                        let mut s = sty_of(&skin.table.compound_style);
                        if selected && s.bg.is_none() {
                            s.bg = bg;
                        }
                        ensure!(g == vec![('│', s)], "wrong column separator", "{g:?} instead of {s:?} {ctx}");
                        x += 1;
                    }
                    let mut s = sty_of(cell_style(skin, k));
                    if selected {
                        s.bg = bg;
                    }
                    let want: Vec<Glyph> = counted(&item.cells[k], *cw, cols[k].align).into_iter().map(|c| (c, s)).collect();
                    let got = sc.row(y, x, x + *cw as i32);
                    ensure!(got == want, "wrong cell", "{got:?} instead of {want:?}, column {k} row {j} {ctx}");
                    obs.ev("cells", 1);
                    x += *cw as i32;
                }
                // nothing of a previous drawing may remain (eg a scrollbar)
                for x in x..l + w - (n > tb) as i32 {
                    ensure!(
                        sc.cells.get(&(y, x)).map_or(false, |c| c.ch == Some(' ')),
                        "end of row not overwritten",
                        "row {j} column {x} {ctx}"
                    );
                    obs.ev("row_ends", 1);
                }
            }
        }
    }
    // ---- scroll
    let scroll = first.unwrap_or(0);
    let max = if n > tb { n - tb + 1 } else { 0 };
    ensure!(scroll <= max, "scroll out of bounds", "{scroll} hidden rows of {n}, {tb} rows high {ctx}");
    let bottom = scroll + tb >= n;
    ensure!(lv.do_scroll_show_bottom() == bottom, "do_scroll_show_bottom", "{} with {scroll} hidden rows of {n} {ctx}", !bottom);
    obs.ev("rows_seen", seen);
    // ---- scrollbar
    if full && tb > 0 {
        let bar: Option<(u16, u16)> = compute_scrollbar(scroll, n, tb, area.top + 2);
        for j in 0..tb {
            let y = t + 2 + j as i32;
            if let Some((a, z)) = bar {
                let thumb = y >= a as i32 && y <= z as i32;
                let want = if thumb { &skin.scrollbar.thumb } else { &skin.scrollbar.track };
                let want = vec![(want.nude_char(), sty_of(want.compound_style()))];
                let got = sc.row(y, l + w - 1, l + w);
                ensure!(got == want, "wrong scrollbar", "row {j}: {got:?} instead of {want:?}, thumb {a}-{z} {ctx}");
                obs.ev(if thumb { "thumb_rows" } else { "track_rows" }, 1);
            }
        }
        ensure!(lv.scrollbar().is_some() == bar.is_some(), "scrollbar presence", "{:?} {ctx}", lv.scrollbar());
    }
    Ok((scroll, sel_seen))
}

/// a string in a number of chars
fn counted(s: &str, width: usize, align: Alignment) -> Vec<char> {
    // the longest start of the string which fits, in columns
    let mut n = 0;
    let mut fit: Vec<char> = Vec::new();
    let mut cut = false;
    for c in s.chars() {
        if n + cw(c) > width {
            cut = true;
            break;
        }
        n += cw(c);
        fit.push(c);
    }
    // (a wide char which doesn't fit is replaced by a space)
    let (lp, rp) = if cut { (0, width - n) } else { completions(align, n, width) };
    std::iter::repeat(' ').take(lp).chain(fit).chain(std::iter::repeat(' ').take(rp)).collect()
}

fn gen_ops(r: &mut Rng, n: usize, layouts: bool) -> Vec<Value> {
    (0..n)
        .map(|_| match r.below(24) {
            0..=3 => json!(["add", r.irange(-50, 50), r.below(8)]),
            4 => json!(["addn", r.irange(-50, 50), r.below(8), r.below(30)]),
            5 if r.chance(1, 4) => json!(["clear"]),
            6 => json!(["filter", r.below(256)]),
            7 => json!(["unfilter"]),
            8..=10 => json!(["next"]),
            11 | 12 => json!(["prev"]),
            13 => json!(["first"]),
            14 => json!(["last"]),
            15 if r.bool() => json!(["unselect"]),
            16 => json!(["lines", match r.below(10) { 0 => i32::MIN as i64, 1 => i32::MAX as i64, _ => r.irange(-15, 15) }]),
            17 => json!(["pages", match r.below(10) { 0 => i32::MIN as i64, 1 => i32::MAX as i64, _ => r.irange(-3, 3) }]),
            18 => json!(["bottom"]),
            19 => json!(["visible"]),
            20 if r.chance(1, 3) => json!(["sort", r.below(3)]),
            21 if layouts => json!(["resize", r.range(0, 60), r.range(3, 20)]),
            _ => json!(["lines", r.irange(-4, 8)]),
        })
        .collect()
}

fn gen_cols(r: &mut Rng) -> Vec<Value> {
    let n = if r.chance(1, 10) { r.range(5, 9) } else { r.range(1, 4) };
    let mut title = String::new();
    (0..n)
        .map(|i| {
            if i == 0 || !r.chance(1, 3) {
                title = word(r, Alpha::Gentle, 12);
            }
            if r.chance(1, 12) {
                title = format!("{}{title}一", r.pick(&["", "日本語の", "漢"]));
            }
            if r.chance(1, 12) {
                // nearly the same title
                title = match r.below(3) {
                    0 => format!("{title} "),
                    1 => title.to_uppercase(),
                    _ => String::new(),
                };
            }
            let min = if i == 0 { 6 } else { r.range(0, 8) };
            let more = if r.chance(1, 20) { 400 } else if r.chance(1, 6) { 90 } else { 12 };
            let max = match r.below(24) {
                0 => u64::MAX,
                1 => i32::MAX as u64 + r.below(20) as u64,
                2 => u32::MAX as u64 + r.below(20) as u64,
                _ => (min + r.below(more)) as u64,
            };
            json!([title, min, max, r.below(4)])
        })
        .collect()
}

fn run_list(case: &Value, obs: &mut Obs, full: bool) -> R {
    // (the extracting closures must be 'static)
    let sk: &'static MadSkin = Box::leak(Box::new(skin(case["skin"].as_u64().unwrap_or(0))));
    let cols: Vec<Col_> = case["cols"]
        .as_array()
        .into_iter()
        .flatten()
        .enumerate()
        .map(|(i, c)| {
            let min = (c[1].as_u64().unwrap_or(0) as usize).max(if i == 0 { 6 } else { 0 });
            Col_ {
                title: c[0].as_str().unwrap_or("").to_string(),
                min,
                max: min.max(c[2].as_u64().unwrap_or(0) as usize),
                align: crate::writing::align_k(c[3].as_u64().unwrap_or(0)),
            }
        })
        .collect();
    if cols.is_empty() {
        return Ok(());
    }
    let min_w = cols.iter().map(|c| c.min).sum::<usize>() + cols.len();
    let width = |extra: usize| (min_w + extra) as u16;
    let area = Area::new(
        u(case, "left") as u16,
        u(case, "top") as u16,
        width(u(case, "extra")),
        u(case, "height").max(3) as u16,
    );
    let columns: Vec<ListViewColumn<'_, Item>> = cols
        .iter()
        .enumerate()
        .map(|(k, c)| {
            let style = cell_style(sk, k);
            ListViewColumn::new(&c.title, c.min, c.max, Box::new(move |i: &Item| ListViewCell::new(i.cells[k].clone(), style)))
                .with_align(c.align)
        })
        .collect();
    let mut lv = ListView::new(area, columns, sk);
    lv.update_dimensions();
    let mut m = Model {
        rows: vec![],
        filter: None,
        sort: None,
        selection: None,
        next_id: 1,
        scroll: 0,
    };
    let mut wr = Rng::new(hash_str(&case["cols"].to_string()));
    let empty = vec![];
    let ops = case["ops"].as_array().unwrap_or(&empty);
    for (iop, op) in std::iter::once(&json!(["start"])).chain(ops).enumerate() {
        let before_displayed: Vec<usize> = m.displayed().iter().map(|i| i.id).collect();
        let n_before = before_displayed.len();
        let tb = tbody(&lv.area);
        let was_bottom = m.scroll + tb >= n_before;
        let name = op[0].as_str().unwrap_or("");
        let mut moved: Option<i128> = None;
        let mut selection_op = false;
        // None when the selection isn't determined
        let mut want_sel: Option<Option<usize>> = Some(m.selection);
        match name {
            "add" | "addn" => {
                let k = op[3].as_u64().unwrap_or(1).clamp(1, 70_000);
                for j in 0..k {
                    let id = m.next_id;
                    m.next_id += 1;
                    let tag = op[2].as_u64().unwrap_or(0) + j;
                    let mut cells = vec![id.to_string()];
                    for _ in 1..cols.len() {
                        let w = word(&mut wr, Alpha::Gentle, 14);
                        cells.push(match wr.below(16) {
                            0 | 1 => String::new(),
                            2 => format!("{w}{}", " ".repeat(wr.range(1, 4))),
                            3 => format!("{}{w}", " ".repeat(wr.range(1, 4))),
                            4 => format!("{w}  {w}"),
                            5 => " ".repeat(wr.range(1, 9)),
                            6 => w.repeat(9),
                            7 => format!("{}{w}漢字", wr.pick(&["一", "a一", "日本語", "é😀"])),
                            8 => "概要日本語".chars().take(wr.range(1, 5)).collect(),
                            _ => w,
                        });
                    }
                    let item = Item { id, key: op[1].as_i64().unwrap_or(0) + (j as i64 * 7) % 5, tag, cells };
                    m.rows.push(item.clone());
                    if let Some(k) = m.sort {
                        m.rows.sort_by(|a, b| compare(k, a, b));
                    }
                    lv.add_row(item);
                }
            }
            "clear" => {
                m.rows.clear();
                want_sel = Some(None);
                lv.clear_rows();
            }
            "filter" => {
                let mask = op[1].as_u64().unwrap_or(0);
                m.filter = Some(mask);
                lv.set_filter(Box::new(move |i: &Item| passes(Some(mask), i)));
            }
            "unfilter" => {
                m.filter = None;
                lv.remove_filter();
            }
            "sort" => {
                // existing rows are sorted at next addition
                let k = op[1].as_u64().unwrap_or(0);
                m.sort = Some(k);
                lv.sort(Box::new(move |a: &Item, b: &Item| compare(k, a, b)));
            }
            "next" | "prev" => {
                selection_op = true;
                let d = &before_displayed;
                if d.is_empty() {
                } else if d.len() == 1 {
                    want_sel = Some(Some(d[0]));
                } else if let Some(sel) = m.selection {
                    // next displayed row, in the order of rows, cycling
                    let pos = m.rows.iter().position(|i| i.id == sel);
                    let Some(pos) = pos else { return viol("HARNESS", "lost selection".into()) };
                    let len = m.rows.len();
                    let next = (1..=len)
                        .map(|k| if name == "next" { (pos + k) % len } else { (pos + len - k) % len })
                        .find(|k| passes(m.filter, &m.rows[*k]))
                        .map(|k| m.rows[k].id);
                    want_sel = Some(next);
                    obs.ev("selection_moves", 1);
                } else {
                    // first row of the window
                    want_sel = Some(d.get(m.scroll).copied());
                    obs.ev("selections_from_none", 1);
                }
                lv.try_select_next(name == "prev");
            }
            "first" => {
                selection_op = true;
                want_sel = Some(before_displayed.first().copied());
                lv.select_first_line();
            }
            "last" => {
                selection_op = true;
                want_sel = Some(before_displayed.last().copied());
                lv.select_last_line();
            }
            "unselect" => {
                want_sel = Some(None);
                lv.unselect();
            }
            "lines" => {
                let k = op[1].as_i64().unwrap_or(0) as i32;
                moved = Some(k as i128);
                lv.try_scroll_lines(k);
            }
            "pages" => {
                let k = op[1].as_i64().unwrap_or(0) as i32;
                moved = Some(k as i128 * tb as i128);
                lv.try_scroll_pages(k);
            }
            "bottom" => lv.scroll_to_bottom(),
            "visible" => {
                selection_op = true;
                lv.make_selection_visible();
            }
            "resize" => {
                lv.area.width = width(op[1].as_u64().unwrap_or(0) as usize);
                lv.area.height = op[2].as_u64().unwrap_or(3).max(3) as u16;
                lv.update_dimensions();
                // the scroll isn't changed
                lv.try_scroll_lines(0);
            }
            _ => {}
        }
        let tb = tbody(&lv.area);
        let ctx = || format!("after op {iop} {op}, {} rows high, case {case}", tb);
        obs.ev("ops", 1);
        if let Some(ws) = want_sel {
            let got = lv.get_selection().map(|i| i.id);
            ensure!(got == ws, "wrong selection", "{got:?} instead of {ws:?} {}", ctx());
            ensure!(lv.has_selection() == got.is_some(), "has_selection", "{}", ctx());
            m.selection = ws;
        }
        let n = m.displayed().len();
        if lv.area.height > 2 {
            ensure!(usize::from(lv.tbody_height()) == tb, "tbody height", "{} instead of {tb} {}", lv.tbody_height(), ctx());
        }
        ensure!(lv.row_counts() == (n, m.rows.len()), "row counts", "{:?} instead of {:?} {}", lv.row_counts(), (n, m.rows.len()), ctx());
        let (scroll, sel_seen) = observe(&lv, &m, &cols, full, &ctx(), obs)?;
        let sel_displayed = m.selection.map_or(false, |id| m.rank_of(id).is_some());
        if (selection_op || moved.is_some()) && sel_displayed {
            ensure!(sel_seen, "selection not visible", "{}", ctx());
            obs.ev("selection_visible_checks", 1);
        }
        let max = if n > tb { n - tb } else { 0 } as i128;
        if let Some(k) = moved {
            let target = m.scroll as i128 + k;
            let lo = target.clamp(0, max);
            // a blank row may be left at the end
            let hi = target.clamp(0, if max > 0 { max + 1 } else { 0 });
            if m.selection.is_none() {
                ensure!(scroll as i128 == lo || scroll as i128 == hi, "wrong scroll", "{scroll} instead of {lo} (was {}) {}", m.scroll, ctx());
                obs.ev("scroll_moves", 1);
                if lo != target {
                    obs.ev("scroll_blocked", 1);
                }
            }
        }
        if name == "bottom" {
            ensure!(scroll as i128 == max, "not at bottom", "{scroll} instead of {max} {}", ctx());
        }
        if name == "add" && m.sort.is_none() && was_bottom {
            ensure!(scroll + tb >= n, "doesn't stick to the bottom", "{}", ctx());
            if n > tb {
                obs.ev("sticks", 1);
            }
        }
        if matches!(name, "add" | "addn") && (m.sort.is_some() || !was_bottom) {
            // the view isn't following the additions
            ensure!(scroll == m.scroll, "scroll changed on addition", "{} -> {scroll} {}", m.scroll, ctx());
            if scroll > 0 {
                obs.ev("scroll_kept_on_add", 1);
            }
        }
        if name == "visible" || name == "unselect" || name == "start" {
            if !sel_displayed {
                ensure!(scroll == m.scroll, "scroll changed", "{} -> {scroll} {}", m.scroll, ctx());
            }
        }
        m.scroll = scroll;
        if n > 65_536 && scroll > 65_536 {
            obs.ev("huge_scrolled_states", 1);
        }
        if n > tb {
            obs.nontrivial(hash_str(&format!("{scroll} {n} {tb} {:?} {:?}", m.selection, m.filter)));
        }
        if m.filter.is_some() && n < m.rows.len() {
            obs.ev("filtered_states", 1);
            if scroll > 0 {
                obs.ev("filtered_scrolled_states", 1);
            }
        }
    }
    obs.sample(case.clone());
    Ok(())
}

pub struct C11;

impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "list views of 1 to 9 random columns (merged titles, all alignments, min and max widths) in random areas with random rows, filter, selection and scroll; drawn on an emulated terminal after each operation and compared cell by cell with the expected grid; non trivial when the rows exceed the height"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the area has at least 3 rows and the room for the minimal widths of columns",
            "cells and titles contain neither control chars nor emoji sequences",
            "update_dimensions is called after a resize, as documented",
        ]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 50_000 } else { 500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["cells", "row_ends", "merged_titles", "blank_rows", "thumb_rows", "track_rows", "filtered_scrolled_states"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let n = r.range(1, 10);
        let mut ops = vec![json!(["addn", r.irange(-50, 50), r.below(8), r.below(40)])];
        ops.extend(gen_ops(r, n, true));
        json!({
            "cols": gen_cols(r), "skin": rand_skin_seed(r), "left": if r.chance(1, 50) { r.below(500) } else { r.below(12) }, "top": if r.chance(1, 50) { r.below(500) } else { r.below(12) },
            "extra": if r.chance(1, 4) { r.below(3) } else if r.chance(1, 20) { r.below(700) } else { r.below(50) },
            "height": if r.chance(1, 40) { r.range(20, 120) } else { r.range(3, 20) }, "ops": ops,
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        run_list(case, obs, true)
    }
}

pub struct C12;

impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "random sequences of up to 60 operations (additions, clearing, filters, sort orders, selection moves, scrollings of any amount) applied to a list view and to a reference model; after each one the counts, the selection and the drawn window of rows are compared; non trivial: distinct states with more rows than the height"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a sort order is applied to the existing rows at the next addition",
            "a filter may hide the selected row, which then stays selected",
            "one blank row may be left at the end when scrolled to the maximum",
        ]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 75_000 } else { 500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["selection_moves", "selections_from_none", "scroll_moves", "scroll_blocked", "sticks", "filtered_scrolled_states", "selection_visible_checks", "scroll_kept_on_add", "huge_scrolled_states"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let huge = idx % 2_500 == 77;
        let n = if huge { r.range(3, 12) } else { r.range(3, 60) };
        let mut ops = vec![];
        if huge {
            ops.push(json!(["addn", 1, 1, r.range(66_000, 68_000)]));
            ops.push(json!(["bottom"]));
        } else if r.chance(1, 3) {
            ops.push(json!(["sort", r.below(3)]));
        }
        ops.extend(gen_ops(r, n, false));
        if huge {
            ops.retain(|o| o[0] != "sort");
        }
        json!({
            "cols": [["id", 6, 6, 1]], "skin": 0, "left": 0, "top": 0,
            "extra": 0, "height": if r.chance(1, 4) { r.range(3, 5) } else { r.range(3, 20) }, "ops": ops,
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        run_list(case, obs, false)
    }
}
