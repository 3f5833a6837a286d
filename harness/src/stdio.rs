//! C20 (templates), C21 (questions), C29 (printing on stdout)

use {
    crate::{core::*, gen::*, model::*, ptys::*, render::*, term::*},
    serde_json::{json, Value},
    std::io::Write,
    termimad::{
        minimad::{Composite, Compound, Line, OwningTemplateExpander, Text, TextTemplate},
        *,
    },
};

/// what a string shows: chars with their style, and cursor moves
#[derive(Debug, Clone, PartialEq)]
pub enum N {
    G(char, Sty),
    Op(Op),
}

pub fn normal(out: &str) -> Result<Vec<N>, Viol> {
    let mut v = Vec::new();
    let mut sty = Sty::default();
    for op in parse_ops(out)? {
        match op {
            Op::Print(c) if c.is_control() => v.push(N::G(c, Sty::default())),
            Op::Print(c) => v.push(N::G(c, sty)),
            Op::Sgr(g) => apply_sgr(&mut sty, &g),
            o => v.push(N::Op(o)),
        }
    }
    ensure!(sty == Sty::default(), "style leak", "style {sty:?} still set at end of {out:?}");
    Ok(v)
}

fn shown(n: &[N]) -> String {
    n.iter()
        .map(|n| match n {
            N::G(c, _) => c.to_string(),
            N::Op(o) => format!("<{o:?}>"),
        })
        .collect()
}

pub fn same(got: &str, expected: &str, what: &str) -> R {
    let g = normal(got)?;
    let e = normal(expected)?;
    if g != e {
        let (sg, se) = (shown(&g), shown(&e));
        if sg == se {
            let at = g.iter().zip(&e).position(|(a, b)| a != b);
            return viol("other style", format!("{what}: not the expected styles in {sg:?} from {at:?}: {:?} instead of {:?}", at.map(|i| &g[i]), at.map(|i| &e[i])));
        }
        return viol("other output", format!("{what}: printed {sg:?} instead of {se:?}"));
    }
    Ok(())
}

/// as a stdout printing, with the terminal's width
const SEP: char = '\u{1e}';

// ------------------------------------------------- templates

macro_rules! tpl_calls {
    ($mac:ident, $vals:expr, ($($pre:expr),*), $md:literal) => {{
        let v = $vals;
        match v.len() {
            0 => { $mac!($($pre),*, $md) }
            1 => { $mac!($($pre),*, $md, &v[0]) }
            2 => { $mac!($($pre),*, $md, &v[0], &v[1]) }
            3 => { $mac!($($pre),*, $md, v[0], v[1], v[2]) }
            4 => { $mac!($($pre),*, $md, v[0], &v[1], v[2].as_str(), v[3],) }
            5 => { $mac!($($pre),*, $md, v[0], v[1], v[2], v[3], v[4]) }
            _ => { $mac!($($pre),*, $md, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10]) }
        }
    }};
}

macro_rules! templates {
    ($($md:literal),* $(,)?) => {
        pub static TPLS: &[&str] = &[$($md),*];
        pub fn write_tpl<W: std::io::Write>(idx: usize, w: &mut W, skin: &MadSkin, vals: &[String]) -> Result<(), Error> {
            let mut i = 0;
            $(
                if i == idx {
                    return tpl_calls!(mad_write_inline, vals, (w, skin), $md);
                }
                i += 1;
            )*
            let _ = i;
            panic!("no template {idx}");
        }
        fn print_tpl(idx: usize, skin: &MadSkin, vals: &[String]) {
            let mut i = 0;
            $(
                if i == idx {
                    tpl_calls!(mad_print_inline, vals, (skin), $md);
                    return;
                }
                i += 1;
            )*
            let _ = i;
            panic!("no template {idx}");
        }
    };
}

templates![
    "$0",
    "**$0 formula:** *$1*",
    "$0$1$2",
    "a$0b$0c",
    "`$0` is $1 or ~~$2~~",
    "**bold $0 and *italic $1* end**",
    "$1 then $0",
    "$9 $8 $0",
    "no placeholder at all",
    "",
    "* $0 in a star",
    "[$0] ",
    "[**$0**] ",
    "$0 costs $ 10 or $x, not $",
    "***$0*** `code $1 code`",
    "é一$0道$1é",
    "~~$0~~**$0***$0*`$0`",
    "  $0  $1  ",
    "$10 and $01",
    "# $0 | $1 | $2",
    "> $0",
    "$0 *unclosed $1",
    "\\*$0\\* $1",
    "$4$3$2$1$0",
    "**$0**: ${name} $1",
    "$5$6$7$8$9",
];

static VALUE_PARTS: &[&str] = &[
    "*", "**", "`", "~~", "$0", "$1", "$2", "${a}", "${x}", "|", "# ", "> ", "\\", "$", "}", "{", " ", "  ", "a", "word", "Disk", "2*π*r",
    "é", "一", "道", "_", "1", "-", "---", "* ", "[x](y)",
];

fn value(r: &mut Rng) -> String {
    if r.chance(1, 5) {
        let maxw = *r.pick(&[3, 12, 40]);
        return word(r, Alpha::Uni, maxw);
    }
    (0..r.below(6)).map(|_| *r.pick(VALUE_PARTS)).collect()
}

/// the composite of a template, with places replaced
fn substitute<'a>(tpl: &'a str, vals: &'a [String]) -> Composite<'a> {
    let parsed = Composite::from_inline(tpl);
    let mut compounds: Vec<Compound<'a>> = Vec::new();
    for c in &parsed.compounds {
        let push = |compounds: &mut Vec<Compound<'a>>, s: &'a str| {
            if !s.is_empty() {
                let mut n = c.clone();
                n.src = s;
                compounds.push(n);
            }
        };
        let src: &'a str = c.src;
        let b = src.as_bytes();
        let mut start = 0;
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'$' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
                let d = (b[i + 1] - b'0') as usize;
                push(&mut compounds, &src[start..i]);
                push(&mut compounds, if d < vals.len() { &vals[d] } else { &src[i..i + 2] });
                start = i + 2;
                i += 2;
            } else {
                i += 1;
            }
        }
        push(&mut compounds, &src[start..]);
    }
    Composite { style: parsed.style, compounds }
}

/// check an inline output is made of the passed composite
fn check_inline(skin: &MadSkin, out: &str, comp: &Composite<'_>, what: &str) -> R {
    let got = normal(out)?;
    let mut exp: Vec<N> = Vec::new();
    let (l, r) = margins(line_style_of(skin, comp.style), None);
    let pad = |n: usize, exp: &mut Vec<N>| {
        for _ in 0..n {
            exp.push(N::G(' ', sty_of(&skin.paragraph.compound_style)));
        }
    };
    pad(l, &mut exp);
    for (c, sty) in content_of(skin, comp).glyphs {
        exp.push(N::G(c, if c.is_control() { Sty::default() } else { sty }));
    }
    // the right margin is or isn't written
    if got.len() == exp.len() + r {
        pad(r, &mut exp);
    }
    ensure!(shown(&got) == shown(&exp), "other text", "{what}: {:?} instead of {:?}", shown(&got), shown(&exp));
    ensure!(got == exp, "other style", "{what}: other styles than expected for {:?}", shown(&got));
    Ok(())
}

// ------------------------------------------------- expanders

/// template lines. Upper case names are in repeated parts
static TPL_LINES: &[&str] = &[
    "# ${a} title",
    "## *${b}*",
    "Some **${b}** and *${c}* or `${a}` end",
    "${a}${b}${c}",
    "* item ${b}",
    "  * ${c} sub",
    "> quote ${c} with ${a}",
    "    code ${a} here",
    "|${a}|**${b}**|x|",
    "|:-:|-:|:-|",
    "|-|-|-|",
    "|${c}${c}|`${a}`|${d}|",
    "plain text $ without {place} or }",
    "---",
    "",
    "${d} is never set and ${a",
    "*${a} ${b}* ~~${c}~~",
];

static SUB_LINES: &[&str] = &["|**${x}**|`${a}/${y}`|${y}|", "**${x}** (*${y}*): ${a}", "* ${y} ${x} ${y}", "## ${x}", "no place", "|${x}|", "> ${z} ${b}"];

fn gen_expander(r: &mut Rng) -> Value {
    let mut parts = Vec::new();
    for _ in 0..r.range(1, 7) {
        match r.below(6) {
            0 => {
                let n = r.range(1, 3);
                let lines: Vec<&str> = (0..n).map(|_| *r.pick(SUB_LINES)).collect();
                parts.push(json!({"sub": r.pick(&["rows", "others"]), "lines": lines}));
            }
            1 => {
                parts.push(json!({"lines": ["```", r.pick(&["in ${a} code", "${b}", "x"]), "```"]}));
            }
            _ => {
                let n = r.range(1, 3);
                let lines: Vec<&str> = (0..n).map(|_| *r.pick(TPL_LINES)).collect();
                parts.push(json!({"lines": lines}));
            }
        }
    }
    let mut sets = Vec::new();
    for n in ["a", "b", "c"] {
        if !r.chance(1, 6) {
            sets.push(json!([n, value(r), r.chance(1, 5)]));
        }
    }
    if r.chance(1, 4) {
        sets.push(json!(["a", value(r), false]));
    }
    let mut rows = Vec::new();
    for _ in 0..r.below(5) {
        let name = r.pick(&["rows", "rows", "others", "unknown"]).to_string();
        let mut vals = Vec::new();
        for n in ["x", "y"] {
            if !r.chance(1, 8) {
                vals.push(json!([n, value(r), r.chance(1, 6)]));
            }
        }
        if r.chance(1, 5) {
            vals.push(json!(["a", value(r), false]));
        }
        rows.push(json!({"sub": name, "vals": vals}));
    }
    json!({
        "f": r.pick(&["expander", "owning", "owning_md"]),
        "parts": parts,
        "sets": sets,
        "rows": rows,
        "default": if r.chance(1, 4) { json!(value(r)) } else { Value::Null },
    })
}

pub fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}

fn expander_template(op: &Value) -> String {
    // the first line and the last one keep the cleaning from removing spaces
    let mut s = "first line\n".to_string();
    for p in arr(&op["parts"]) {
        if let Some(name) = p["sub"].as_str() {
            s.push_str(&format!("${{{name}\n"));
        }
        for l in arr(&p["lines"]) {
            s.push_str(st(l));
            s.push('\n');
        }
        if p["sub"].is_string() {
            s.push_str("}\n");
        }
    }
    s.push_str("last line\n");
    s
}

/// a `set` with an empty md value is a no-op in minimad: don't use it
fn is_md(v: &Value) -> bool {
    v[2] == true && !st(&v[1]).is_empty() && !Composite::from_inline(st(&v[1])).compounds.is_empty()
}

/// execute, in the child, a printing of expander
fn exec_expander(op: &Value, skin: &MadSkin) {
    let template = expander_template(op);
    if st(&op["f"]) == "expander" {
        let tt = TextTemplate::from(template.as_str());
        let mut e = tt.expander();
        if let Some(d) = op["default"].as_str() {
            e.set_all(d);
        }
        for v in arr(&op["sets"]) {
            if is_md(v) {
                e.set_md(st(&v[0]), st(&v[1]));
            } else {
                e.set(st(&v[0]), st(&v[1]));
            }
        }
        for row in arr(&op["rows"]) {
            let sub = e.sub(st(&row["sub"]));
            for v in arr(&row["vals"]) {
                if is_md(v) {
                    sub.set_md(st(&v[0]), st(&v[1]));
                } else {
                    sub.set(st(&v[0]), st(&v[1]));
                }
            }
        }
        skin.print_expander(e);
    } else {
        let mut e = OwningTemplateExpander::new();
        if let Some(d) = op["default"].as_str() {
            e.set_default(d);
        }
        for v in arr(&op["sets"]) {
            if is_md(v) {
                e.set_md(st(&v[0]), st(&v[1]));
            } else {
                e.set(st(&v[0]), st(&v[1]));
            }
        }
        for row in arr(&op["rows"]) {
            let sub = e.sub(st(&row["sub"]));
            for v in arr(&row["vals"]) {
                if is_md(v) {
                    sub.set_md(st(&v[0]), st(&v[1]));
                } else {
                    sub.set(st(&v[0]), st(&v[1]));
                }
            }
        }
        if st(&op["f"]) == "owning" {
            let tt = TextTemplate::from(template.as_str());
            skin.print_owning_expander(&e, &tt);
        } else {
            skin.print_owning_expander_md(&e, template.clone());
        }
    }
}

#[derive(Clone)]
struct Place {
    name: String,
    value: String,
    md: bool,
}

/// the text obtained by replacing the places, one by one
fn expanded_text(op: &Value) -> (String, Vec<Place>) {
    let mut md = "first line\n".to_string();
    let mut places: Vec<Place> = Vec::new();
    let lookup = |name: &str, row: Option<&Value>| -> Place {
        let mut p = Place { name: name.to_string(), value: format!("${{{name}}}"), md: false };
        if let Some(d) = op["default"].as_str() {
            p.value = d.to_string();
        }
        // markdown values are applied last, the first one being kept
        let mut md_value: Option<String> = None;
        for v in arr(&op["sets"]) {
            if st(&v[0]) == name && !is_md(v) {
                p.value = st(&v[1]).to_string();
            }
        }
        if let Some(row) = row {
            for v in arr(&row["vals"]) {
                if st(&v[0]) == name {
                    if is_md(v) {
                        md_value.get_or_insert(st(&v[1]).to_string());
                    } else {
                        p.value = st(&v[1]).to_string();
                    }
                }
            }
        }
        for v in arr(&op["sets"]) {
            if st(&v[0]) == name && is_md(v) {
                md_value.get_or_insert(st(&v[1]).to_string());
            }
        }
        if let Some(v) = md_value {
            p.value = v;
            p.md = true;
        }
        p
    };
    let mut add = |line: &str, row: Option<&Value>| {
        let mut rest = line;
        while let Some(i) = rest.find("${") {
            let Some(e) = rest[i..].find('}') else { break };
            let name = &rest[i + 2..i + e];
            md.push_str(&rest[..i]);
            md.push_str(&format!("QZ{:05}QZ", places.len()));
            places.push(lookup(name, row));
            rest = &rest[i + e + 1..];
        }
        md.push_str(rest);
        md.push('\n');
    };
    for p in arr(&op["parts"]) {
        if let Some(name) = p["sub"].as_str() {
            for row in arr(&op["rows"]) {
                if st(&row["sub"]) == name {
                    for l in arr(&p["lines"]) {
                        add(st(l), Some(row));
                    }
                }
            }
        } else {
            for l in arr(&p["lines"]) {
                add(st(l), None);
            }
        }
    }
    md.push_str("last line\n");
    (md, places)
}

fn fill<'a>(c: &Composite<'a>, places: &'a [Place]) -> Composite<'a> {
    let mut compounds = Vec::new();
    for comp in &c.compounds {
        let src: &'a str = comp.src;
        let mut start = 0;
        while let Some(i) = src[start..].find("QZ") {
            let i = start + i;
            let idx: usize = src[i + 2..i + 7].parse().unwrap();
            if i > start {
                let mut n = comp.clone();
                n.src = &src[start..i];
                compounds.push(n);
            }
            let p = &places[idx];
            if p.md {
                compounds.extend(Composite::from_inline(&p.value).compounds);
            } else {
                let mut n = comp.clone();
                n.src = &p.value;
                compounds.push(n);
            }
            start = i + 9;
        }
        if start < src.len() {
            let mut n = comp.clone();
            n.src = &src[start..];
            compounds.push(n);
        }
    }
    Composite { style: c.style, compounds }
}

fn expected_expander(op: &Value, skin: &MadSkin, cols: usize) -> String {
    let (md, places) = expanded_text(op);
    let parsed = TextTemplate::from(md.as_str()).text;
    let mut text = Text { lines: Vec::new() };
    for l in parsed.lines {
        text.lines.push(match l {
            Line::Normal(c) => Line::Normal(fill(&c, &places)),
            Line::TableRow(mut row) => {
                for c in row.cells.iter_mut() {
                    *c = fill(c, &places);
                }
                Line::TableRow(row)
            }
            o => o,
        });
    }
    FmtText::from_text(skin, text, Some(cols)).to_string()
}

// ------------------------------------------------- ops executed in the child

pub fn list_of<'s>(skin: &'s MadSkin, op: &Value) -> ListView<'s, String> {
    static ST: std::sync::OnceLock<CompoundStyle> = std::sync::OnceLock::new();
    let style = ST.get_or_init(CompoundStyle::default);
    let cols = vec![
        ListViewColumn::new("one", 4, 12, Box::new(move |s: &String| ListViewCell::new(s.clone(), style))),
        ListViewColumn::new("two", 3, 5, Box::new(move |s: &String| ListViewCell::new(s.len().to_string(), style))),
    ];
    let mut l = ListView::new(area_of(op), cols, skin);
    for line in st(&op["a"]).lines() {
        l.add_row(line.chars().filter(|c| !c.is_control()).collect());
    }
    l.update_dimensions();
    if op["n"].as_u64() == Some(1) {
        l.try_select_next(false);
    }
    l
}

pub fn area_of(op: &Value) -> Area {
    let a: Vec<u16> = arr(&op["area"]).iter().map(|v| v.as_u64().unwrap_or(3) as u16).collect();
    Area::new(a[0], a[1], a[2].max(4), a[3].max(3))
}

fn exec_op(op: &Value, skin: &MadSkin) {
    let a = st(&op["a"]);
    match st(&op["f"]) {
        "print_inline" => skin.print_inline(a),
        "print_text" => skin.print_text(a),
        "write_inline" => skin.write_inline(a).unwrap(),
        "write_text" => skin.write_text(a).unwrap(),
        "write_text_on" => {
            let mut v = Vec::new();
            skin.write_text_on(&mut v, a).unwrap();
            print!("{}", String::from_utf8(v).unwrap());
        }
        "write_inline_on" => {
            let mut v = Vec::new();
            skin.write_inline_on(&mut v, a).unwrap();
            print!("{}", String::from_utf8(v).unwrap());
        }
        "term_text" => print!("{}", skin.term_text(a)),
        "print_composite" => skin.print_composite(Composite::from_inline(a)),
        "write_in_area" => skin.write_in_area(a, &area_of(op)).unwrap(),
        "g_print_inline" => print_inline(a),
        "g_print_text" => print_text(a),
        "g_term_text" => print!("{}", term_text(a)),
        "g_inline" => print!("{}", inline(a)),
        "g_text" => print!("{}", text(a)),
        "full_screen" => {
            let f = Area::full_screen();
            print!("{},{},{},{} {:?}", f.left, f.top, f.width, f.height, terminal_size());
        }
        "text_view" => {
            let area = area_of(op);
            let t = skin.area_text(a, &area);
            let mut v = TextView::from(&area, &t);
            v.try_scroll_lines(op["n"].as_i64().unwrap_or(0) as i32);
            v.write().unwrap();
        }
        "mad_view" => {
            let mut v = MadView::from(a.to_string(), area_of(op), skin.clone());
            v.try_scroll_lines(op["n"].as_i64().unwrap_or(0) as i32);
            v.write().unwrap();
            std::io::stdout().flush().unwrap();
        }
        "list_view" => list_of(skin, op).write().unwrap(),
        "input" => {
            let mut f = InputField::new(area_of(op));
            f.set_str(a);
            let p = f.display().unwrap();
            print!("{p:?}");
        }
        "tpl" => {
            let vals: Vec<String> = arr(&op["vals"]).iter().map(|v| st(v).to_string()).collect();
            print_tpl(op["i"].as_u64().unwrap_or(0) as usize, skin, &vals);
        }
        _ => exec_expander(op, skin),
    }
}

/// what must be printed
fn expected_op(op: &Value, skin: &MadSkin, cols: usize, rows: usize) -> String {
    let a = st(&op["a"]);
    let def = MadSkin::default();
    let mut v: Vec<u8> = Vec::new();
    let mut suffix = String::new();
    match st(&op["f"]) {
        "print_inline" | "write_inline" | "print_composite" | "write_inline_on" => return skin.inline(a).to_string(),
        "print_text" | "write_text" | "term_text" | "write_text_on" => return FmtText::from(skin, a, Some(cols)).to_string(),
        "write_in_area" => skin.write_in_area_on(&mut v, a, &area_of(op)).unwrap(),
        "g_print_inline" | "g_inline" => return def.inline(a).to_string(),
        "g_print_text" | "g_term_text" => return FmtText::from(&def, a, Some(cols)).to_string(),
        "g_text" => return FmtText::from(&def, a, None).to_string(),
        "full_screen" => return format!("0,0,{cols},{rows} ({cols}, {rows})"),
        "text_view" => {
            let area = area_of(op);
            let t = skin.area_text(a, &area);
            let mut tv = TextView::from(&area, &t);
            tv.try_scroll_lines(op["n"].as_i64().unwrap_or(0) as i32);
            tv.write_on(&mut v).unwrap();
        }
        "mad_view" => {
            let mut mv = MadView::from(a.to_string(), area_of(op), skin.clone());
            mv.try_scroll_lines(op["n"].as_i64().unwrap_or(0) as i32);
            mv.write_on(&mut v).unwrap();
        }
        "list_view" => list_of(skin, op).write_on(&mut v).unwrap(),
        "input" => {
            let mut f = InputField::new(area_of(op));
            f.set_str(a);
            let p = f.display_on(&mut v).unwrap();
            suffix = format!("{p:?}");
        }
        _ => return expected_expander(op, skin, cols),
    }
    format!("{}{suffix}", String::from_utf8_lossy(&v))
}

/// main function of the printing child
pub fn child_ops(job: &Value) -> i32 {
    termimad::crossterm::style::force_color_output(true);
    let skin = skin(job["skin"].as_u64().unwrap_or(0));
    for op in arr(&job["ops"]) {
        print!("{SEP}");
        exec_op(op, &skin);
    }
    print!("{SEP}");
    0
}

fn run_ops(case: &Value, obs: &mut Obs) -> R {
    let cols = u(case, "cols").max(3);
    let rows = u(case, "rows").max(3);
    let skin = skin(case["skin"].as_u64().unwrap_or(0));
    let ops = arr(&case["ops"]);
    // sources for which there's no room aren't specified
    let mut kept = Vec::new();
    for op in ops {
        let a = st(&op["a"]);
        if let Some(_) = op["area"].as_array() {
            if arr(&op["area"]).len() != 4 {
                continue;
            }
        }
        if parse_ok(a).is_none() {
            continue;
        }
        kept.push(op.clone());
    }
    let job = json!({"skin": case["skin"], "ops": kept});
    let o = run_child("ops", &job, cols as u16, rows as u16, None)?;
    check_end(&o, "printing")?;
    obs.ev("children", 1);
    let Ok(out) = String::from_utf8(o.stdout) else {
        return viol("invalid utf8", "invalid UTF-8 on stdout".to_string());
    };
    let parts: Vec<&str> = out.split(SEP).collect();
    ensure!(parts.len() == kept.len() + 2, "HARNESS", "{} parts for {} ops", parts.len(), kept.len());
    for (op, part) in kept.iter().zip(&parts[1..]) {
        let f = st(&op["f"]);
        obs.ev(&format!("f_{f}"), 1);
        obs.ev("bytes_compared", part.len() as u64);
        if f == "tpl" {
            let vals: Vec<String> = arr(&op["vals"]).iter().map(|v| st(v).to_string()).collect();
            let i = op["i"].as_u64().unwrap_or(0) as usize;
            let comp = substitute(TPLS[i], &vals);
            check_inline(&skin, part, &comp, &format!("template {:?} with {vals:?}", TPLS[i]))?;
        } else {
            let e = expected_op(op, &skin, cols, rows);
            same(part, &e, f)?;
        }
    }
    obs.nontrivial(hash_str(&case.to_string()));
    Ok(())
}

// ------------------------------------------------- C29

pub struct C29;

static FS: &[&str] = &[
    "print_inline", "print_text", "write_inline", "write_text", "write_text_on", "write_inline_on", "term_text", "print_composite",
    "write_in_area", "g_print_inline", "g_print_text", "g_term_text", "g_inline", "g_text", "full_screen", "text_view", "mad_view",
    "list_view", "input",
];

impl Check for C29 {
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "child processes whose controlling pseudo terminal has a random size call a random sequence of the functions printing on stdout, with random texts, skins and areas; all are non trivial"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["terminal of at least 3 columns and rows", "what the objects display when formatted in memory is decided by the other properties"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 18_000 } else { 300_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &[
            "f_print_inline", "f_print_text", "f_write_inline", "f_write_text", "f_write_text_on", "f_write_inline_on", "f_term_text",
            "f_print_composite", "f_write_in_area", "f_g_print_inline", "f_g_print_text", "f_g_term_text", "f_g_inline", "f_g_text",
            "f_full_screen", "f_text_view", "f_mad_view", "f_list_view", "f_input",
        ]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 12) {
            let f = *r.pick(FS);
            let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
            let a = if f.contains("inline") || f == "print_composite" {
                inline_md(r, alpha, 12, false)
            } else if f == "input" {
                let w = inline_md(r, alpha, 6, false);
                w.chars().filter(|c| !c.is_control()).collect()
            } else {
                text_md(r, alpha, 4)
            };
            // spaces and line ends around are part of the text
            let a = match r.below(12) {
                0 => format!("{a}{}", " ".repeat(r.range(1, 4))),
                1 => format!("{}{a}", " ".repeat(r.range(1, 4))),
                2 if f != "input" => format!("{a}{}", "\n".repeat(r.range(1, 3))),
                3 if f != "input" => format!("{}{a}", "\n".repeat(r.range(1, 3))),
                4 => String::new(),
                _ => a,
            };
            ops.push(json!({
                "f": f,
                "a": a,
                "n": r.below(6),
                "area": [r.below(20), r.below(10), r.range(4, 60), r.range(3, 20)],
            }));
        }
        json!({
            "ops": ops,
            "skin": rand_skin_seed(r),
            "cols": *r.pick(&[5, 10, 20, 40, 80, 81, 132, 200, 333]) + r.below(3),
            "rows": r.range(3, 60),
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        run_ops(case, obs)
    }
}

// ------------------------------------------------- C20

pub struct C20;

impl Check for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "26 templates (repeated, missing, adjacent and styled places) x 0 to 11 random values full of markdown and placeholder syntax, written with mad_write_inline! and, in child processes, printed with mad_print_inline! and the three printings of expanders (random templates with tables, code, repeated parts, raw and markdown values, default value); non trivial when a value contains markdown or placeholder syntax"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the expansion itself, done by minimad, isn't in this codebase: the printed text is compared with an independent replacement of the places",
            "a value made of the only ellipsis char takes the ellipsis style",
            "terminals of at least 20 columns",
        ]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 40_000 } else { 500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["written_templates", "f_tpl", "f_expander", "f_owning", "f_owning_md", "missing_values", "extra_values"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let gen_vals = |r: &mut Rng| -> Vec<String> {
            let n = *r.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 11]);
            (0..n)
                .map(|_| {
                    let mut v = value(r);
                    if r.chance(1, 15) {
                        v.push('\n');
                        v.push_str(&value(r));
                    }
                    v
                })
                .collect()
        };
        let written: Vec<Value> = (0..40).map(|_| json!({"i": r.below(TPLS.len()), "vals": gen_vals(r)})).collect();
        let mut ops = Vec::new();
        if r.chance(1, 3) {
            for _ in 0..r.range(4, 16) {
                if r.bool() {
                    ops.push(json!({"f": "tpl", "i": r.below(TPLS.len()), "vals": gen_vals(r)}));
                } else {
                    ops.push(gen_expander(r));
                }
            }
        }
        json!({
            "written": written,
            "ops": ops,
            "skin": rand_skin_seed(r),
            "cols": r.range(20, 120),
            "rows": r.range(3, 60),
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let skin = skin(case["skin"].as_u64().unwrap_or(0));
        let mut first_run: Vec<String> = Vec::new();
        for round in 0..2 {
            for (k, t) in arr(&case["written"]).iter().enumerate() {
                let vals: Vec<String> = arr(&t["vals"]).iter().map(|v| st(v).to_string()).collect();
                let i = t["i"].as_u64().unwrap_or(0) as usize;
                if !(vals.len() <= 5 || vals.len() == 11) {
                    continue;
                }
                let mut b = Vec::new();
                if let Err(e) = write_tpl(i, &mut b, &skin, &vals) {
                    return viol("error", format!("{e}"));
                }
                let Ok(out) = String::from_utf8(b) else {
                    return viol("invalid utf8", format!("{vals:?}"));
                };
                if round == 1 {
                    if let Some(f) = first_run.get(k) {
                        ensure!(*f == out, "not repeatable", "template {:?} with {vals:?} doesn't always give the same output", TPLS[i]);
                    }
                    continue;
                }
                first_run.push(out.clone());
                let comp = substitute(TPLS[i], &vals);
                check_inline(&skin, &out, &comp, &format!("template {:?} with {vals:?}", TPLS[i]))?;
                obs.ev("written_templates", 1);
                let places = TPLS[i].matches('$').count();
                if places > vals.len() {
                    obs.ev("missing_values", 1);
                }
                if vals.len() > places {
                    obs.ev("extra_values", 1);
                }
                if vals.iter().any(|v| v.contains(['*', '`', '~', '$', '|'])) {
                    obs.nontrivial(hash_str(&t.to_string()));
                }
            }
        }
        if !arr(&case["ops"]).is_empty() {
            run_ops(case, obs)?;
        }
        Ok(())
    }
}

// ------------------------------------------------- C21

pub struct C21;

/// questions asked with the macro; returns what the executed block gives
fn ask_macro(idx: usize, skin: &MadSkin) -> String {
    match idx {
        0 => {
            let b: bool = ask!(skin, "Do you want to **erase** the disk ?", ('n') {
                ('y', "**Y**es") => { true }
                ('n', "**N**o") => { false }
            });
            format!("{b}")
        }
        1 => {
            let s: &str = ask!(skin, "What do I serve you ?", {
                ('b', "**B**eer") => {
                    ask!(skin, "Really ? We have wine and orange juice too", (2) {
                        ("oj", "**o**range **j**uice") => { "orange juice" }
                        ('w' , "ok for some wine") => { "wine2" }
                        ('b' , "I said **beer**") => { "beer" }
                        ( 2  , "Make it **2** beer glasses!") => { "beer x 2" }
                    })
                }
                ('w', "**W**ine") => { "wine" }
                ("", "nothing") => { "nothing" }
            });
            s.to_string()
        }
        2 => {
            let n: usize = ask!(skin, "one\n\ntwo `lines`", {
                (1, "a") => { 1 }
                (11, "b") => { 11 }
                ("1 ", "never") => { 12 }
                ("é", "c") => { 2 }
                (1, "same key") => { 3 }
            });
            format!("{n}")
        }
        _ => {
            let mut steps = Vec::new();
            let end = ask!(skin, "# side effects", ("b") {
                ("a", "x") => { steps.push(1); "A" }
                ("b", "y") => { steps.push(2); "B" }
                ("c", "z") => { steps.push(3); "C" }
            });
            format!("{end} {steps:?}")
        }
    }
}

/// something looking like a key
fn near_key(r: &mut Rng, k: &str) -> String {
    let chars: Vec<char> = k.chars().collect();
    let n = chars.len();
    match r.below(9) {
        0 => chars[..n.min(r.below(n + 1))].iter().collect(),
        1 => chars[..n.saturating_sub(1)].iter().collect(),
        2 => chars[n.min(1)..].iter().collect(),
        3 => format!("{k}{}", r.pick(&["x", "!", "  x", "\\", "."])),
        4 => format!(" {k}"),
        5 => format!("{k} "),
        6 => k.to_uppercase(),
        7 => k.to_lowercase(),
        _ => format!("{k}{k}"),
    }
}

struct Q {
    md: Option<String>,
    answers: Vec<(String, String)>,
    default: Option<String>,
}

fn macro_q(idx: usize, sub: bool) -> Q {
    let a = |v: &[(&str, &str)]| v.iter().map(|(k, m)| (k.to_string(), m.to_string())).collect();
    match (idx, sub) {
        (0, _) => Q {
            md: Some("Do you want to **erase** the disk ?".into()),
            answers: a(&[("y", "**Y**es"), ("n", "**N**o")]),
            default: Some("n".into()),
        },
        (1, false) => Q {
            md: Some("What do I serve you ?".into()),
            answers: a(&[("b", "**B**eer"), ("w", "**W**ine"), ("", "nothing")]),
            default: None,
        },
        (1, true) => Q {
            md: Some("Really ? We have wine and orange juice too".into()),
            answers: a(&[("oj", "**o**range **j**uice"), ("w", "ok for some wine"), ("b", "I said **beer**"), ("2", "Make it **2** beer glasses!")]),
            default: Some("2".into()),
        },
        (2, _) => Q {
            md: Some("one\n\ntwo `lines`".into()),
            answers: a(&[("1", "a"), ("11", "b"), ("1 ", "never"), ("é", "c"), ("1", "same key")]),
            default: None,
        },
        _ => Q {
            md: Some("# side effects".into()),
            answers: a(&[("a", "x"), ("b", "y"), ("c", "z")]),
            default: Some("b".into()),
        },
    }
}

fn macro_result(idx: usize, sub: bool, key: &str) -> &'static str {
    match (idx, sub, key) {
        (0, _, "y") => "true",
        (0, _, "n") => "false",
        (1, false, "w") => "wine",
        (1, false, "") => "nothing",
        (1, true, "oj") => "orange juice",
        (1, true, "w") => "wine2",
        (1, true, "b") => "beer",
        (1, true, "2") => "beer x 2",
        (2, _, "1") => "1",
        (2, _, "11") => "11",
        (2, _, "é") => "2",
        (3, _, "a") => "A [1]",
        (3, _, "b") => "B [2]",
        (3, _, "c") => "C [3]",
        _ => "?",
    }
}

fn json_q(q: &Value) -> Q {
    Q {
        md: q["md"].as_str().map(|s| s.to_string()),
        answers: arr(&q["answers"]).iter().map(|a| (st(&a[0]).to_string(), st(&a[1]).to_string())).collect(),
        default: q["default"].as_str().map(|s| s.to_string()),
    }
}

pub fn child_ask(job: &Value) -> i32 {
    termimad::crossterm::style::force_color_output(true);
    let skin = skin(job["skin"].as_u64().unwrap_or(0));
    for q in arr(&job["questions"]) {
        let res = if let Some(m) = q["macro"].as_u64() {
            format!("ok:{}", ask_macro(m as usize, &skin))
        } else {
            let qd = json_q(q);
            let mut question = match &qd.md {
                Some(md) => Question::new(md),
                None => {
                    let mut q = Question::new("");
                    q.md = None;
                    q
                }
            };
            for (k, md) in &qd.answers {
                match k.parse::<u32>() {
                    Ok(n) if n.to_string() == *k => question.add_answer(n, md),
                    _ => question.add_answer(k, md),
                }
            }
            if let Some(d) = &qd.default {
                question.set_default(d);
            }
            let exotic = question.has_exotic_default();
            match question.ask(&skin) {
                Ok(s) => format!("ok:{s}{}", if exotic { "(exotic)" } else { "" }),
                Err(e) => format!("err:{:?}", e.kind()),
            }
        };
        print!("{SEP}{res}{SEP}");
    }
    print!("{SEP}");
    0
}

/// what's printed for a question
fn question_text(q: &Q, skin: &MadSkin, cols: usize) -> String {
    let mut s = String::new();
    if let Some(md) = &q.md {
        s.push_str(&FmtText::from(skin, md, Some(cols)).to_string());
    }
    for (k, md) in &q.answers {
        let key = |bold: bool| {
            let mut c = vec![Compound::raw_str("[")];
            let k = Compound::raw_str(k);
            c.push(if bold { k.bold() } else { k });
            c.push(Compound::raw_str("] "));
            FmtInline {
                skin,
                composite: FmtComposite::from(Composite { style: minimad::CompositeStyle::Paragraph, compounds: c }, skin),
            }
            .to_string()
        };
        s.push_str(&key(q.default.as_ref() == Some(k)));
        s.push_str(&FmtText::from(skin, md, Some(cols)).to_string());
    }
    s
}

impl Check for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "child processes asking sequences of random questions (keys being chars, words, numbers, empty or repeated; default absent, among keys or exotic) and 4 uses of the ask! macro (nested, with side effects), fed with random lines: keys, wrong keys, keys with spaces around or another case, empty lines, CRLF, invalid UTF-8, unterminated last line, end of input anywhere; non trivial when a line is refused"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["trailing white spaces of the answer are ignored, leading ones aren't"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 25_000 } else { 500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["answered", "defaulted", "refused_lines", "ended_without_answer", "unterminated_line", "invalid_utf8_line", "macro_questions", "nested_macro", "exotic_default", "end_with_default"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let keys: &[&str] = &["y", "n", "Y", "yes", "1", "2", "12", "", "é", "o j", " x", "a*b*", "$0", "*", "一", "quit", "`", "\\", "quit now", "overwrite", "éléphant", "123456789", "{0}"];
        let mut questions = Vec::new();
        for _ in 0..r.range(1, 5) {
            if r.chance(1, 4) {
                questions.push(json!({"macro": r.below(4)}));
                continue;
            }
            let mut ks: Vec<String> = Vec::new();
            let n = if r.chance(1, 15) { 0 } else { r.range(1, 5) };
            for _ in 0..n {
                let k = r.pick(keys).to_string();
                if !ks.contains(&k) || r.chance(1, 10) {
                    ks.push(k);
                }
            }
            let default = match r.below(5) {
                0 | 1 if !ks.is_empty() => json!(r.pick(&ks).clone()),
                2 => json!(*r.pick(&["other", "y", "", "é"])),
                3 if !ks.is_empty() => {
                    let k = r.pick(&ks).clone();
                    json!(near_key(r, &k))
                }
                _ => Value::Null,
            };
            let answers: Vec<Value> = ks.iter().map(|k| json!([k, inline_md(r, Alpha::Ascii, 5, false)])).collect();
            let md = if r.chance(1, 8) { Value::Null } else { json!(inline_md(r, Alpha::Uni, 12, false)) };
            questions.push(json!({"md": md, "answers": answers, "default": default}));
        }
        let mut lines: Vec<Value> = Vec::new();
        for q in &questions {
            let qd = match q["macro"].as_u64() {
                Some(m) => macro_q(m as usize, false),
                None => json_q(q),
            };
            for _ in 0..if r.bool() { 0 } else { r.below(4) } {
                lines.push(json!(match r.below(11) {
                    8..=10 if !qd.answers.is_empty() => {
                        let k = qd.answers[r.below(qd.answers.len())].0.clone();
                        near_key(r, &k)
                    }
                    0 => "".to_string(),
                    1 => "   ".to_string(),
                    2 => r.pick(keys).to_uppercase(),
                    3 => format!(" {}", r.pick(keys)),
                    4 => format!("{}{}", r.pick(keys), r.pick(keys)),
                    5 => word(r, Alpha::Uni, 10),
                    6 => "a ".repeat(r.range(1, 3000)),
                    _ => r.pick(keys).to_string(),
                }));
            }
            if r.chance(1, 25) {
                lines.push(json!([255, 254, 65]));
                continue;
            }
            if !qd.answers.is_empty() && !r.chance(1, 12) {
                let k = &qd.answers[r.below(qd.answers.len())].0;
                lines.push(json!(format!("{k}{}", r.pick(&["", "", "", " ", "\t", "\r", "  \r", "\u{a0}"]))));
            }
            if r.chance(1, 3) {
                lines.push(json!(*r.pick(&["oj", "w", "b", "2", ""])));
            }
        }
        if r.chance(1, 6) {
            lines.truncate(r.below(lines.len() + 1));
        }
        json!({
            "questions": questions,
            "lines": lines,
            "terminated": !r.chance(1, 4),
            "skin": rand_skin_seed(r),
            "cols": r.range(20, 120),
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let cols = u(case, "cols").max(20);
        let skin = skin(case["skin"].as_u64().unwrap_or(0));
        let mut questions: Vec<Value> = arr(&case["questions"]).to_vec();
        // the bytes given on stdin
        let mut bytes: Vec<u8> = Vec::new();
        let lines = arr(&case["lines"]);
        for (i, l) in lines.iter().enumerate() {
            match l {
                Value::String(s) => bytes.extend(s.replace('\n', "").bytes()),
                l => bytes.extend(arr(l).iter().map(|b| b.as_u64().unwrap_or(65) as u8).filter(|b| *b != 10)),
            }
            if i + 1 < lines.len() || case["terminated"] == true {
                bytes.push(b'\n');
            }
        }
        // the lines to read
        let mut input: Vec<Vec<u8>> = Vec::new();
        let mut rest = &bytes[..];
        while !rest.is_empty() {
            let n = rest.iter().position(|b| *b == b'\n').map_or(rest.len(), |p| p + 1);
            input.push(rest[..n].to_vec());
            rest = &rest[n..];
        }
        let unterminated = bytes.last().map_or(false, |b| *b != b'\n');
        let mut next = input.iter();
        enum Res {
            Ok(String, bool),
            Err,
        }
        let simulate = |q: &Q, next: &mut std::slice::Iter<'_, Vec<u8>>, obs: &mut Obs| -> (Res, usize) {
            let mut refused = 0;
            loop {
                let line: String = match next.next() {
                    None => {
                        return match &q.default {
                            Some(d) => {
                                obs.ev("end_with_default", 1);
                                (Res::Ok(d.clone(), true), refused)
                            }
                            None if q.answers.iter().any(|(k, _)| k.is_empty()) => (Res::Ok(String::new(), false), refused),
                            None => {
                                obs.ev("ended_without_answer", 1);
                                (Res::Err, refused)
                            }
                        };
                    }
                    Some(b) => match std::str::from_utf8(b) {
                        Ok(s) => s.trim_end().to_string(),
                        Err(_) => {
                            obs.ev("invalid_utf8_line", 1);
                            return (Res::Err, refused);
                        }
                    },
                };
                if line.is_empty() {
                    if let Some(d) = &q.default {
                        obs.ev("defaulted", 1);
                        return (Res::Ok(d.clone(), true), refused);
                    }
                }
                if q.answers.iter().any(|(k, _)| *k == line) {
                    obs.ev("answered", 1);
                    return (Res::Ok(line, false), refused);
                }
                obs.ev("refused_lines", 1);
                refused += 1;
            }
        };
        struct Exp {
            // (question text, number of refused lines)
            dialog: Vec<(String, usize)>,
            result: String,
        }
        let mut expected: Vec<Exp> = Vec::new();
        let mut n = 0;
        for q in &questions {
            let mut dialog = Vec::new();
            let result = if let Some(m) = q["macro"].as_u64() {
                let m = m as usize;
                let mq = macro_q(m, false);
                // a failing question panics in a macro: don't ask it
                let mut probe = next.clone();
                let mut scrap = Obs::default();
                let (r1, refused1) = simulate(&mq, &mut probe, &mut scrap);
                let Res::Ok(key, _) = r1 else { break };
                let mut sub = None;
                if m == 1 && key == "b" {
                    let sq = macro_q(m, true);
                    let (r2, refused2) = simulate(&sq, &mut probe, &mut scrap);
                    let Res::Ok(k2, _) = r2 else { break };
                    sub = Some((sq, k2, refused2));
                    obs.ev("nested_macro", 1);
                }
                next = probe;
                obs.ev("macro_questions", 1);
                dialog.push((question_text(&mq, &skin, cols), refused1));
                match sub {
                    None => format!("ok:{}", macro_result(m, false, &key)),
                    Some((sq, k2, refused2)) => {
                        dialog.push((question_text(&sq, &skin, cols), refused2));
                        format!("ok:{}", macro_result(m, true, &k2))
                    }
                }
            } else {
                let qd = json_q(q);
                let exotic = qd.default.as_ref().map_or(false, |d| !qd.answers.iter().any(|(k, _)| k == d));
                if exotic {
                    obs.ev("exotic_default", 1);
                }
                let (r, refused) = simulate(&qd, &mut next, obs);
                dialog.push((question_text(&qd, &skin, cols), refused));
                match r {
                    Res::Ok(s, _) => format!("ok:{s}{}", if exotic { "(exotic)" } else { "" }),
                    Res::Err => "err:".to_string(),
                }
            };
            if dialog.iter().any(|(_, n)| *n > 0) {
                obs.nontrivial(hash_str(&case.to_string()));
            }
            expected.push(Exp { dialog, result });
            n += 1;
        }
        if unterminated {
            obs.ev("unterminated_line", 1);
        }
        questions.truncate(n);
        let job = json!({"skin": case["skin"], "questions": questions});
        let o = run_child("ask", &job, cols as u16, 50, Some(&bytes))?;
        check_end(&o, "asking")?;
        obs.ev("children", 1);
        let Ok(out) = String::from_utf8(o.stdout) else {
            return viol("invalid utf8", "invalid UTF-8 on stdout".to_string());
        };
        let parts: Vec<&str> = out.split(SEP).collect();
        ensure!(parts.len() == 2 * expected.len() + 2, "HARNESS", "{} parts for {} questions: {out:?}", parts.len(), expected.len());
        for (i, e) in expected.iter().enumerate() {
            let (printed, result) = (parts[2 * i], parts[2 * i + 1]);
            ensure!(
                if e.result == "err:" { result.starts_with("err:") } else { result == e.result },
                "other answer",
                "question {i} gives {result:?} instead of {:?}",
                e.result
            );
            let mut rest = normal(printed)?;
            for (text, refused) in &e.dialog {
                let t = normal(text)?;
                ensure!(
                    rest.len() >= t.len() && rest[..t.len()] == t[..],
                    "question text",
                    "question {i} is printed {:?} and not {:?}",
                    shown(&rest),
                    shown(&t)
                );
                rest.drain(..t.len());
                // a message for each refused line
                for _ in 0..*refused {
                    let l = rest.iter().position(|n| matches!(n, N::G('\n', _)));
                    match l {
                        Some(l) if l > 0 => {
                            rest.drain(..=l);
                        }
                        _ => return viol("silent refusal", format!("no message for a refused answer in {printed:?}")),
                    }
                }
            }
            ensure!(rest.is_empty(), "more output", "question {i} prints more than expected: {:?}", shown(&rest));
        }
        Ok(())
    }
}
