//! C13 edition of input contents, C14 drawing of input fields, C15 their events

use {
    crokey::{KeyCombination, OneToThree},
    crate::{core::*, gen::*, render::*, term::*, views::check_paints},
    serde_json::{json, Value},
    termimad::{
        crossterm::event::{
            Event, KeyCode, KeyEvent, KeyModifiers, MouseButton, MouseEvent, MouseEventKind,
        },
        *,
    },
};

// ------------------------------------------------------------------- model

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
struct Pos {
    y: usize,
    x: usize,
}

impl Pos {
    fn new(x: usize, y: usize) -> Pos {
        Pos { y, x }
    }
}

/// texts nearly equal to the given one
fn near_texts(text: &str) -> Vec<String> {
    let chars: Vec<char> = text.chars().collect();
    let n = chars.len();
    if n == 0 {
        return vec![];
    }
    let mut at = vec![0, n / 2, n - 1];
    at.extend(chars.iter().position(|c| *c == '\n'));
    at.dedup();
    let mut near = vec![chars[1..].iter().collect(), chars[..n - 1].iter().collect()];
    for i in at {
        let c = chars[i];
        let mut others = vec!['\r', ' ', '\u{1}', '\n'];
        others.extend(c.to_lowercase());
        others.extend(c.to_uppercase());
        others.extend(char::from_u32(c as u32 ^ 1));
        for o in others {
            if o != c {
                let mut v = chars.clone();
                v[i] = o;
                near.push(v.into_iter().collect());
            }
        }
    }
    near
}

/// A plain text editor working on a flat text
#[derive(Clone, Default, Debug, PartialEq)]
struct Ed {
    t: Vec<char>,
    cur: usize,
    tail: Option<usize>,
}

fn skipped(c: char) -> bool {
    c == '\r' || c == '\x08'
}

impl Ed {
    fn of(s: &str) -> Ed {
        let t: Vec<char> = s.chars().filter(|c| !skipped(*c)).collect();
        Ed { cur: t.len(), t, tail: None }
    }
    fn text(&self) -> String {
        self.t.iter().collect()
    }
    fn lines(&self) -> Vec<Vec<char>> {
        self.t.split(|c| *c == '\n').map(|l| l.to_vec()).collect()
    }
    fn set_lines(&mut self, l: Vec<Vec<char>>) {
        self.t = l.join(&'\n');
    }
    fn pos_at(&self, o: usize) -> Pos {
        let y = self.t[..o].iter().filter(|c| **c == '\n').count();
        Pos::new(o - self.line_start(o), y)
    }
    fn line_start(&self, o: usize) -> usize {
        (0..o).rev().find(|i| self.t[*i] == '\n').map_or(0, |i| i + 1)
    }
    fn line_end(&self, o: usize) -> usize {
        (o..self.t.len()).find(|i| self.t[*i] == '\n').unwrap_or(self.t.len())
    }
    /// offset of the nearest valid position: after the last line, that's the end
    fn offset(&self, p: Pos) -> usize {
        let mut start = 0;
        for _ in 0..p.y {
            let e = self.line_end(start);
            if e == self.t.len() {
                return e;
            }
            start = e + 1;
        }
        (start + p.x).min(self.line_end(start))
    }
    fn pos(&self) -> Pos {
        self.pos_at(self.cur)
    }
    /// both ends are included, unless that's the end of the text
    fn range(&self) -> std::ops::Range<usize> {
        let o = self.tail.unwrap_or(self.cur);
        let (a, b) = (o.min(self.cur), o.max(self.cur));
        a..(b + 1).min(self.t.len())
    }
    fn selected(&self) -> String {
        self.t[self.range()].iter().collect()
    }
    fn wide(&self) -> bool {
        self.tail.map_or(false, |t| t != self.cur)
    }
    fn insert(&mut self, c: char) {
        if !skipped(c) {
            self.t.insert(self.cur, c);
            self.cur += 1;
        }
    }
    fn insert_str(&mut self, s: &str) {
        for c in s.chars() {
            self.insert(c);
        }
    }
    fn del_selection(&mut self) -> bool {
        let r = self.range();
        let changed = !r.is_empty() || self.wide();
        self.cur = r.start;
        self.t.drain(r);
        self.tail = None;
        changed
    }
    fn vertical(&mut self, dy: i64, width: &dyn Fn(char) -> usize) -> (bool, Vec<usize>) {
        let lines = self.lines();
        let p = self.pos();
        let last = lines.len() as i64 - 1;
        if (dy < 0 && p.y == 0) || (dy > 0 && p.y as i64 == last) {
            return (false, vec![self.cur]);
        }
        let ny = (p.y as i64 + dy).clamp(0, last) as usize;
        let col: usize = lines[p.y][..p.x].iter().map(|c| width(*c)).sum();
        let start = self.offset(Pos::new(0, ny));
        // the position in the target line at the same column, or around it when
        // it's inside a wide char
        let mut sum = 0;
        let mut ok = vec![];
        for (i, c) in lines[ny].iter().enumerate() {
            if sum == col {
                ok.push(start + i);
            } else if sum > col && ok.is_empty() {
                ok.push(start + i - 1);
                ok.push(start + i);
                break;
            } else if sum > col {
                break;
            }
            sum += width(*c);
        }
        if ok.is_empty() {
            let e = start + lines[ny].len();
            ok.push(e);
            if sum > col {
                ok.push(e - 1);
            }
        }
        (true, ok)
    }
    fn word_left(&mut self) -> bool {
        let s = self.line_start(self.cur);
        if self.cur == s {
            return false;
        }
        self.cur = (s + 1..self.cur)
            .rev()
            .find(|i| !self.t[*i - 1].is_alphanumeric())
            .unwrap_or(s);
        true
    }
    fn word_right(&mut self) -> bool {
        let e = self.line_end(self.cur);
        if self.cur == e {
            return false;
        }
        self.cur = (self.cur + 1..e)
            .find(|i| i + 1 >= e || !self.t[*i + 1].is_alphanumeric())
            .unwrap_or(e);
        true
    }
    fn del_word_left(&mut self) -> bool {
        let e = self.cur;
        let r = self.word_left();
        self.t.drain(self.cur..e);
        r
    }
    /// see the unit tests of termimad
    fn del_word_right(&mut self) -> bool {
        let s = self.line_start(self.cur);
        let e = self.line_end(self.cur);
        if self.cur == e {
            if self.cur > s {
                self.cur -= 1;
                return true;
            }
            return false;
        }
        let stop = (self.cur..e).find(|i| !self.t[*i].is_alphanumeric());
        self.t.drain(self.cur..stop.map_or(e, |i| i + 1));
        if stop.is_none() && self.cur > s {
            self.cur -= 1;
        }
        true
    }
    fn select_word(&mut self) -> bool {
        let is_word = |c: char| c.is_alphanumeric() || c == '_';
        let e = self.line_end(self.cur);
        let s = self.line_start(self.cur);
        if self.cur == e || !is_word(self.t[self.cur]) {
            return false;
        }
        let a = (s..self.cur).rev().find(|i| !is_word(self.t[*i])).map_or(s, |i| i + 1);
        let b = (self.cur..e).find(|i| !is_word(self.t[*i])).unwrap_or(e) - 1;
        self.tail = Some(a);
        self.cur = b;
        true
    }
    fn swap_lines(&mut self, a: usize, b: usize) -> bool {
        let mut l = self.lines();
        if a == b || a >= l.len() || b >= l.len() {
            return false;
        }
        let p = self.pos();
        l.swap(a, b);
        self.set_lines(l);
        self.cur = self.offset(p);
        true
    }
    fn move_line(&mut self, dy: i64) -> bool {
        let p = self.pos();
        let o = p.y as i64 + dy;
        if o < 0 {
            return false;
        }
        let moved = self.swap_lines(p.y, o as usize);
        if moved {
            self.cur = self.offset(Pos::new(p.x, o as usize));
        }
        moved
    }
}

fn real_width(c: char) -> usize {
    if c == '\t' {
        2
    } else {
        cw(c)
    }
}

/// all what can be observed of a content
#[derive(Debug)]
struct Snap {
    text: String,
    cursor: Pos,
    min: Pos,
    max: Pos,
    has: bool,
    wide: bool,
    selected: String,
    iterated: String,
    lines: Vec<Vec<char>>,
    line_strings: Vec<String>,
    line_widths: Vec<usize>,
    line_cols: Vec<usize>,
    by_index: Vec<Vec<char>>,
    saturated: Vec<char>,
    after_last: bool,
    line_count: usize,
    current: Vec<char>,
    empty: bool,
    end: Pos,
    can_left: bool,
    can_right: bool,
    is_text: bool,
    is_other: bool,
    picked: String,
    in_range: Vec<(usize, usize, bool)>,
    bad_cols: Vec<(usize, usize, usize)>,
}

macro_rules! snap {
    ($c:expr) => {{
        let c = $c;
        let own = |x: usize, y: usize| Pos { x, y };
        let sel = c.selection();
        let (p, e) = (c.cursor_pos(), c.end());
        let text = c.to_string();
        let mut other = text.clone();
        if other.pop().is_none() {
            other.push('a');
        }
        let n = c.lines().len();
        Snap {
            cursor: own(p.x, p.y),
            min: own(sel.min.x, sel.min.y),
            max: own(sel.max.x, sel.max.y),
            has: c.has_selection(),
            wide: c.has_wide_selection(),
            selected: c.selection_string(),
            iterated: c.into_iter().collect(),
            lines: c.lines().iter().map(|l| l.chars.clone()).collect(),
            line_strings: c.lines().iter().map(|l| l.to_string()).collect(),
            line_widths: c.lines().iter().map(|l| l.width()).collect(),
            line_cols: c.lines().iter().map(|l| l.char_idx_to_col(l.chars.len())).collect(),
            by_index: (0..n).map(|y| c.line(y).map(|l| l.chars.clone()).unwrap_or_default()).collect(),
            saturated: c.line_saturating(n + 3).chars.clone(),
            after_last: c.line(n).is_some(),
            line_count: c.line_count(),
            current: c.current_line().chars.clone(),
            empty: c.is_empty(),
            end: own(e.x, e.y),
            can_left: c.can_move_left(),
            can_right: c.can_move_right(),
            is_text: c.is_str(&text),
            is_other: c.is_str(&other)
                || c.is_str(&format!("{text}a"))
                || c.is_str(&format!("{text}\n"))
                || (text.contains('\n') && c.is_str(&text.replacen('\n', " ", 1)))
                || (!text.is_empty() && c.is_str(""))
                || near_texts(&text).iter().any(|near| c.is_str(near)),
            picked: c.selection_chars().collect(),
            in_range: {
                // the positions of the content which are in the selection
                let mut v = Vec::new();
                for (y, l) in c.lines().iter().enumerate() {
                    for x in 0..=l.chars.len() {
                        let mut p = c.end();
                        p.x = x;
                        p.y = y;
                        let is_in = sel.contains(x, y);
                        if is_in != sel.contains_pos(p) || is_in != (p >= sel.min && p <= sel.max) {
                            v.push((x, y, is_in));
                        }
                    }
                }
                v
            },
            bad_cols: {
                // the first column of each char is the one of this char, the other ones too
                let mut v = Vec::new();
                for (y, l) in c.lines().iter().enumerate() {
                    // (a sample of the long lines)
                    for x in (0..l.chars.len()).step_by(1 + l.chars.len() / 300) {
                        for col in l.char_idx_to_col(x)..l.char_idx_to_col(x + 1) {
                            if l.col_to_char_idx(col) != Some(x) {
                                v.push((x, y, col));
                            }
                        }
                    }
                    if l.col_to_char_idx(l.width()).is_some() {
                        v.push((l.chars.len(), y, l.width()));
                    }
                }
                v
            },
            text,
        }
    }};
}

struct Args<'a> {
    name: &'a str,
    c: char,
    st: &'a str,
    n: usize,
    x: usize,
    y: usize,
}

macro_rules! common_ops {
    ($t:expr, $a:expr) => {
        match $a.name {
            "insert_str" => {
                $t.insert_str($a.st);
                None
            }
            "clear" => {
                $t.clear();
                None
            }
            "set_str" => {
                $t.set_str($a.st);
                None
            }
            "left" => Some($t.move_left()),
            "right" => Some($t.move_right()),
            "up" => Some($t.move_up()),
            "down" => Some($t.move_down()),
            "start" => Some($t.move_to_start()),
            "end" => Some($t.move_to_end()),
            "line_start" => Some($t.move_to_line_start()),
            "line_end" => Some($t.move_to_line_end()),
            "word_left" => Some($t.move_word_left()),
            "word_right" => Some($t.move_word_right()),
            "del_left" => Some($t.del_char_left()),
            "del_below" => Some($t.del_char_below()),
            "del_word_left" => Some($t.del_word_left()),
            "del_word_right" => Some($t.del_word_right()),
            "del_selection" => Some($t.del_selection()),
            "line_up" => Some($t.move_current_line_up()),
            "line_down" => Some($t.move_current_line_down()),
            "select_word" => Some($t.select_word_around()),
            _ => None,
        }
    };
}

trait Target {
    fn is_field(&self) -> bool {
        false
    }
    fn field(&mut self) -> Option<&mut InputField> {
        None
    }
    fn call(&mut self, a: &Args) -> Option<bool>;
    fn snap(&self) -> Snap;
}

impl Target for InputField {
    fn is_field(&self) -> bool {
        true
    }
    fn field(&mut self) -> Option<&mut InputField> {
        Some(self)
    }
    fn call(&mut self, a: &Args) -> Option<bool> {
        match a.name {
            "insert_char" => {
                self.put_char(a.c);
                None
            }
            "new_line" => {
                self.insert_new_line();
                None
            }
            "ups" => Some(self.page_up()),
            "downs" => Some(self.page_down()),
            _ => common_ops!(self, a),
        }
    }
    fn snap(&self) -> Snap {
        // what the field says of its content must be what the content says
        let mut s = snap!(self.content());
        s.is_text &= self.is_content(&s.text) && self.get_content() == s.text;
        s.is_other |= self.is_content(&format!("{}a", s.text)) || (!s.text.is_empty() && self.is_content(""));
        s.can_left &= self.can_move_left();
        s.can_right &= self.can_move_right();
        s.empty &= self.is_empty();
        s
    }
}

/// the content alone (its type can't be named out of termimad)
struct Content<C> {
    c: C,
    call: fn(&mut C, &Args) -> Option<bool>,
    snap: fn(&C) -> Snap,
}

impl<C> Target for Content<C> {
    fn call(&mut self, a: &Args) -> Option<bool> {
        (self.call)(&mut self.c, a)
    }
    fn snap(&self) -> Snap {
        (self.snap)(&self.c)
    }
}

fn boxed<C: 'static>(
    c: C,
    call: fn(&mut C, &Args) -> Option<bool>,
    snap: fn(&C) -> Snap,
) -> Box<dyn Target> {
    Box::new(Content { c, call, snap })
}

fn content_target(s: &str) -> Box<dyn Target> {
    let mut f = InputField::default();
    f.set_str(s);
    boxed(
        f.content().clone(),
        |c, a| match a.name {
            "insert_char" => {
                c.insert_char(a.c);
                None
            }
            "new_line" => {
                c.insert_new_line();
                None
            }
            "push" => {
                c.push_char(a.c);
                None
            }
            "ups" => Some(c.move_lines_up(a.n)),
            "downs" => Some(c.move_lines_down(a.n)),
            "swap" => Some(c.swap_lines(a.x, a.y)),
            "set_cursor" | "set_tail" => {
                let mut p = c.end();
                p.x = a.x;
                p.y = a.y;
                let v = c.make_valid_pos(p);
                if a.name == "set_tail" {
                    c.set_selection_tail(p);
                    None
                } else {
                    c.set_cursor_pos(p);
                    Some(v == c.cursor_pos())
                }
            }
            "select" => {
                c.make_selection();
                None
            }
            "unselect" => {
                c.unselect();
                None
            }
            _ => common_ops!(c, a),
        },
        |c| snap!(c),
    )
}

/// what should be true after an operation
#[derive(Default)]
struct Expect {
    ret: Option<bool>,
    /// the possible positions of the cursor, when not just the one of the model
    cur: Option<Vec<usize>>,
    /// the selection isn't specified (but must be valid)
    free_tail: bool,
}

fn pos_of(op: &Value) -> Pos {
    Pos::new(u(op, "x"), u(op, "y"))
}

/// do an operation on both the target and the model
fn apply_op(t: &mut dyn Target, m: &mut Ed, op: &Value, e: &mut Expect) -> R {
    let name = op["op"].as_str().unwrap_or("");
    let st: String = op["s"].as_str().unwrap_or("").to_string();
    let a = Args {
        name,
        c: st.chars().next().unwrap_or('a'),
        st: &st,
        n: u(op, "n").max(1),
        x: u(op, "x"),
        y: u(op, "y"),
    };
    let (n, c) = (a.n, a.c);
    let p = pos_of(op);
    let text_before = m.t.clone();
    match name {
        "swap" | "set_cursor" | "set_tail" | "select" | "unselect" | "push" if t.is_field() => return Ok(()),
        "cut" | "copy" | "paste" | "shift" if !t.is_field() => return Ok(()),
        _ => {}
    }
    let got = t.call(&a);
    match name {
        "insert_char" => m.insert(c),
        "insert_str" => m.insert_str(&st),
        "new_line" => m.insert('\n'),
        "clear" => *m = Ed::default(),
        "set_str" => {
            if m.text() != st {
                *m = Ed::of(&st);
            }
        }
        "push" => {
            if !skipped(c) {
                m.t.push(c);
            }
        }
        "left" => {
            e.ret = Some(m.cur > 0);
            m.cur = m.cur.saturating_sub(1);
        }
        "right" => {
            e.ret = Some(m.cur < m.t.len());
            m.cur = (m.cur + 1).min(m.t.len());
        }
        "up" | "down" | "ups" | "downs" => {
            let d = if name.ends_with('s') { n as i64 } else { 1 };
            let (r, ok) = m.vertical(if name.starts_with("up") { -d } else { d }, &real_width);
            e.ret = Some(r);
            e.cur = Some(ok);
        }
        "start" => {
            e.ret = Some(m.cur > 0);
            m.cur = 0;
        }
        "end" => {
            e.ret = Some(m.cur < m.t.len());
            m.cur = m.t.len();
        }
        "line_start" => {
            let s = m.line_start(m.cur);
            e.ret = Some(m.cur > s);
            m.cur = s;
        }
        "line_end" => {
            let s = m.line_end(m.cur);
            e.ret = Some(m.cur < s);
            m.cur = s;
        }
        "word_left" => e.ret = Some(m.word_left()),
        "word_right" => e.ret = Some(m.word_right()),
        "del_left" => {
            e.ret = Some(m.cur > 0);
            if m.cur > 0 {
                m.cur -= 1;
                m.t.remove(m.cur);
            }
        }
        "del_below" => {
            e.ret = Some(m.cur < m.t.len());
            if m.cur < m.t.len() {
                m.t.remove(m.cur);
            }
        }
        "del_word_left" => e.ret = Some(m.del_word_left()),
        "del_word_right" => e.ret = Some(m.del_word_right()),
        "del_selection" => {
            e.free_tail = !m.wide();
            e.ret = Some(m.del_selection());
        }
        "line_up" => e.ret = Some(m.move_line(-1)),
        "line_down" => e.ret = Some(m.move_line(1)),
        "select_word" => e.ret = Some(m.select_word()),
        "swap" => e.ret = Some(m.swap_lines(p.x, p.y)),
        "set_cursor" => {
            e.ret = Some(true);
            m.cur = m.offset(p);
        }
        "set_tail" => m.tail = Some(m.offset(p)),
        "select" => {
            if m.tail.is_none() {
                m.tail = Some(m.cur);
            }
        }
        "unselect" => m.tail = None,
        // operations of fields
        _ => {
            let Some(f) = t.field() else { return Ok(()) };
            match name {
                "cut" => {
                    let exp = m.selected();
                    let s = f.cut_selection();
                    ensure!(s == exp, "wrong cut", "{s:?} cut instead of {exp:?}");
                    e.free_tail = !m.wide();
                    m.del_selection();
                }
                "copy" => {
                    let exp = m.selected();
                    let s = f.copy_selection();
                    ensure!(s == exp, "wrong copy", "{s:?} copied instead of {exp:?}");
                }
                "paste" => {
                    f.replace_selection(&st);
                    if m.wide() {
                        m.del_selection();
                    }
                    m.insert_str(&st);
                }
                "shift" => {
                    // moves with the shift key are how to select in a field
                    let (code, new) = match n % 4 {
                        0 => (KeyCode::Left, m.cur.saturating_sub(1)),
                        1 => (KeyCode::Right, (m.cur + 1).min(m.t.len())),
                        2 => (KeyCode::Home, m.line_start(m.cur)),
                        _ => (KeyCode::End, m.line_end(m.cur)),
                    };
                    f.apply_keycode_event(code, true);
                    if m.tail.is_none() {
                        m.tail = Some(m.cur);
                    }
                    m.cur = new;
                }
                _ => {}
            }
        }
    }
    if m.t != text_before && !matches!(name, "del_selection" | "cut" | "set_str" | "clear") {
        e.free_tail = true;
    }
    if let (Some(g), Some(x)) = (got, e.ret) {
        ensure!(g == x, format!("{name} returns {g}"), "expected {x}, model {m:?}");
    }
    Ok(())
}

/// compare what's observed with the model (updated where it's free)
fn observe(c: &Snap, m: &mut Ed, e: &Expect, name: &str) -> R {
    let text = &c.text;
    ensure!(
        *text == m.text(),
        format!("wrong content after {name}"),
        "{text:?} instead of {:?}",
        m.text()
    );
    let p = c.cursor;
    match &e.cur {
        None => {
            ensure!(
                p == m.pos(),
                format!("wrong cursor after {name}"),
                "{p:?} instead of {:?} in {text:?}",
                m.pos()
            );
        }
        Some(ok) => {
            ensure!(
                {
                    let o = m.offset(p);
                    m.pos_at(o) == p && ok.contains(&o)
                },
                format!("wrong cursor after {name}"),
                "{p:?} not among {:?} in {text:?}",
                ok.iter().take(300).map(|o| m.pos_at(*o)).collect::<Vec<_>>()
            );
            m.cur = m.offset(p);
        }
    }
    ensure!(
        c.min <= c.max && (c.min == p || c.max == p),
        "incoherent selection",
        "{:?} {:?} with the cursor on {p:?}",
        c.min,
        c.max
    );
    let other = if c.min == p { c.max } else { c.min };
    ensure!(
        m.pos_at(m.offset(other)) == other,
        format!("invalid selection after {name}"),
        "{other:?} is not a position of {text:?}"
    );
    if e.free_tail {
        m.tail = c.has.then(|| m.offset(other));
    }
    ensure!(
        c.has == m.tail.is_some() && c.wide == m.wide(),
        format!("wrong selection after {name}"),
        "{} {} instead of {:?} (cursor {})",
        c.has,
        c.wide,
        m.tail,
        m.cur
    );
    let tail = m.pos_at(m.tail.unwrap_or(m.cur));
    ensure!(
        other == tail,
        format!("wrong selection after {name}"),
        "tail is {other:?} instead of {tail:?}"
    );
    let lines = m.lines();
    ensure!(
        c.selected == m.selected(),
        "wrong selected text",
        "{:?} instead of {:?} in {text:?}",
        c.selected,
        m.selected()
    );
    ensure!(c.iterated == *text, "wrong iterated chars", "{text:?}");
    ensure!(c.is_text, "not itself", "{text:?}");
    ensure!(!c.is_other, "said to be another content", "{text:?}");
    ensure!(c.picked == c.selected, "wrong selected chars", "{:?} / {:?}", c.picked, c.selected);
    ensure!(c.in_range.is_empty(), "selection range inconsistent", "{:?} in {text:?}", c.in_range);
    ensure!(c.bad_cols.is_empty(), "columns and chars inconsistent", "{:?} in {text:?}", c.bad_cols);
    ensure!(c.line_count == lines.len() && c.lines == lines, "wrong lines", "{c:?}");
    ensure!(c.by_index == lines && !c.after_last, "wrong line access", "{c:?}");
    for (y, l) in lines.iter().enumerate() {
        ensure!(c.line_strings[y] == l.iter().collect::<String>(), "wrong line string", "{y}");
        let w: usize = l.iter().map(|c| real_width(*c)).sum();
        ensure!(c.line_widths[y] == w && c.line_cols[y] == w, "wrong line width", "{y} {c:?}");
    }
    ensure!(Some(&c.saturated) == lines.last(), "wrong last line", "{text:?}");
    ensure!(c.current == lines[p.y], "wrong current line", "{p:?}");
    ensure!(c.empty == text.is_empty(), "wrong emptiness", "{text:?}");
    ensure!(c.end == m.pos_at(m.t.len()), "wrong end", "{:?}", c.end);
    ensure!(
        c.can_left == (m.cur > 0) && c.can_right == (m.cur < m.t.len()),
        "wrong possible moves",
        "{} {} at {p:?}",
        c.can_left,
        c.can_right
    );
    Ok(())
}

fn rand_text(r: &mut Rng, alpha: Alpha, max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(14) {
            0 | 1 => s.push('\n'),
            2 | 3 => s.push(' '),
            4 => s.push_str(r.pick(&["_", ".", "-", "42", "\t", "a b", "A_b", "'", "\u{a0}"])),
            5 if alpha == Alpha::Uni => s.push_str(r.pick(&["一", "é", "한", "ж", "→", "🦀", "²", "Ⅷ", "«"])),
            _ => s.push_str(&word(r, Alpha::Ascii, 6)),
        }
    }
    s
}

fn rand_char(r: &mut Rng, alpha: Alpha) -> String {
    match r.below(12) {
        0 | 1 => " ".into(),
        2 => "\n".into(),
        3 => r.pick(&["_", ".", "-", "4", "\t"]).to_string(),
        4 | 5 if alpha == Alpha::Uni => r.pick(&["一", "é", "한", "ж", "→", "🦀", "²", "Ⅷ", "«"]).to_string(),
        _ => ((b'a' + r.below(26) as u8) as char).to_string(),
    }
}

static EDITS: &[&str] = &[
    "insert_char", "insert_char", "insert_str", "new_line", "clear", "set_str", "push", "del_left", "del_below",
    "del_word_left", "del_word_right", "del_selection", "line_up", "line_down", "swap", "cut", "paste",
];
static MOVES: &[&str] = &[
    "left", "left", "right", "right", "up", "down", "ups", "downs", "start", "end", "line_start", "line_end",
    "word_left", "word_right", "select_word", "set_cursor", "set_cursor", "set_tail", "select", "unselect", "copy",
    "shift", "shift",
];

fn rand_op(r: &mut Rng, alpha: Alpha) -> Value {
    let name = if r.bool() { *r.pick(EDITS) } else { *r.pick(MOVES) };
    // rare destruction of everything
    let name = if matches!(name, "clear" | "set_str") && !r.chance(1, 5) { "insert_char" } else { name };
    let x = if r.chance(1, 6) { 1000 } else { r.below(9) };
    let y = if r.chance(1, 8) { 1000 } else { r.below(5) };
    match name {
        "insert_char" | "push" => {
            let s = if r.chance(1, 20) { r.pick(&["\r", "\x08"]).to_string() } else { rand_char(r, alpha) };
            json!({"op": name, "s": s})
        }
        "insert_str" | "paste" => {
            let crlf = r.chance(1, 8);
            let s = rand_text(r, alpha, 4);
            let s = if r.chance(1, 12) { s.replace(' ', "\x08") } else { s };
            json!({"op": name, "s": if crlf { s.replace('\n', "\r\n") } else { s }})
        }
        "set_str" => json!({"op": name, "s": rand_text(r, alpha, 4)}),
        "ups" | "downs" | "shift" => json!({"op": name, "n": r.range(1, 6)}),
        "swap" | "set_cursor" | "set_tail" => json!({"op": name, "x": x, "y": y}),
        _ => json!({"op": name}),
    }
}

// ------------------------------------------------------------------- C13

pub struct C13;

impl Check for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "histories of up to 60 operations (edition, moves, selection) on an InputFieldContent or through an InputField, with a random initial text having wide chars, tabs, words and empty lines; after each operation the content, cursor and selection are compared with a flat text editor; non trivial when at least one selection having several lines was deleted or copied, or lines were joined"
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 300_000 } else { 6_000_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["ops", "on_content", "on_field", "joins", "multiline_deletions", "wide_selections"]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
        let n = *r.pick(&[5, 15, 30, 60]);
        let max = *r.pick(&[0, 3, 8, 20]);
        json!({
            "init": rand_text(r, alpha, max),
            "field": r.bool(),
            "height": r.range(1, 6),
            "ops": (0..n).map(|_| rand_op(r, alpha)).collect::<Vec<_>>(),
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let init = s(case, "init");
        let mut m = Ed::of(&init);
        let height = u(case, "height").max(1);
        let mut t: Box<dyn Target> = if case["field"].as_bool().unwrap_or(false) {
            obs.ev("on_field", 1);
            let mut f = InputField::new(Area::new(2, 2, 12, height as u16));
            f.set_str(&init);
            Box::new(f)
        } else {
            obs.ev("on_content", 1);
            content_target(&init)
        };
        observe(&t.snap(), &mut m, &Expect::default(), "init")?;
        let ops = case["ops"].as_array().cloned().unwrap_or_default();
        for (k, op) in ops.iter().enumerate() {
            let mut op = op.clone();
            let name = op["op"].as_str().unwrap_or("").to_string();
            if t.is_field() && matches!(name.as_str(), "ups" | "downs") {
                op["n"] = json!(height);
            }
            let before = m.clone();
            let mut e = Expect::default();
            let ctx = |v: Viol| Viol {
                sig: v.sig,
                msg: format!("{} (op {k}: {op}, from {before:?})", v.msg),
            };
            apply_op(&mut *t, &mut m, &op, &mut e).map_err(ctx)?;
            observe(&t.snap(), &mut m, &e, &name).map_err(ctx)?;
            obs.ev("ops", 1);
            if m.wide() {
                obs.ev("wide_selections", 1);
            }
            let nl = |t: &[char]| t.iter().filter(|c| **c == '\n').count();
            let (b, a) = (nl(&before.t), nl(&m.t));
            if a < b && matches!(name.as_str(), "del_left" | "del_below") {
                obs.ev("joins", 1);
                obs.nontrivial(hash_str(&case.to_string()));
            }
            if matches!(name.as_str(), "del_selection" | "cut" | "paste" | "copy")
                && nl(&before.t[before.range()]) > 0
            {
                obs.ev("multiline_deletions", 1);
                obs.nontrivial(hash_str(&case.to_string()));
            }
            obs.state("states", hash_str(&format!("{m:?}")));
            obs.state("op_sequences", hash_str(&format!("{name}{}{}{}", m.wide(), m.cur == m.t.len(), before.wide())));
        }
        obs.max("max_text_len", m.t.len() as u64);
        Ok(())
    }
}

// ------------------------------------------------------------------- fields

/// a field and what is known of it
struct Fx {
    f: InputField,
    m: Ed,
    focused: bool,
    area: Area,
    password: bool,
    normal: Sty,
    unfocused: Sty,
    cursor: Sty,
    nl_keys: Vec<KeyEvent>,
    /// whether the cursor must be visible (it may be hidden by scrolling)
    must_show: bool,
}

static NL_KEYS: &[(KeyCode, KeyModifiers)] = &[
    (KeyCode::Enter, KeyModifiers::NONE),
    (KeyCode::Enter, KeyModifiers::ALT),
    (KeyCode::Enter, KeyModifiers::SHIFT),
    (KeyCode::Char('j'), KeyModifiers::CONTROL),
];

fn area_of(v: &Value) -> Area {
    Area::new(u(v, "left") as u16, u(v, "top") as u16, u(v, "width") as u16, u(v, "height") as u16)
}

fn rand_area(r: &mut Rng) -> Value {
    let mut w = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 20]);
    let mut h = *r.pick(&[1, 1, 1, 2, 3, 4, 5, 6, 8]);
    match r.below(60) {
        0 => w = r.range(21, 130),
        1 => h = r.range(9, 40),
        2 => w = r.range(250, 300),
        _ => {}
    }
    let (left, top) = if r.chance(1, 60) { (r.below(400), r.below(400)) } else { (r.below(6), r.below(6)) };
    json!({"left": left, "top": top, "width": w, "height": h})
}

impl Fx {
    fn new(case: &Value) -> Fx {
        let mut r = Rng::new(case["style"].as_u64().unwrap_or(0));
        let plain = case["style"].as_u64().unwrap_or(0) == 0;
        let rs = |r: &mut Rng| if plain { CompoundStyle::default() } else { rand_cs(r) };
        let (n, un) = (rs(&mut r), rs(&mut r));
        let mut cs = n.clone();
        cs.add_attr(termimad::crossterm::style::Attribute::Reverse);
        let area = area_of(&case["area"]);
        let mut f = InputField::new(area.clone());
        f.set_normal_style(n.clone());
        f.set_unfocused_style(un.clone());
        f.password_mode = case["password"].as_bool().unwrap_or(false);
        let mut nl_keys = vec![];
        for (i, (code, mods)) in NL_KEYS.iter().enumerate() {
            if u(case, "nl") & (1 << i) != 0 {
                let k = KeyEvent::new(*code, *mods);
                f.new_line_on(k);
                nl_keys.push(k);
            }
        }
        let init = s(case, "init");
        f.set_str(&init);
        Fx {
            password: f.password_mode,
            m: Ed::of(&init),
            focused: true,
            area,
            normal: sty_of(&n),
            unfocused: sty_of(&un),
            cursor: sty_of(&cs),
            nl_keys,
            must_show: true,
            f,
        }
    }
    fn width(&self, c: char) -> usize {
        if self.password {
            1
        } else {
            real_width(c)
        }
    }
    /// width available for the text
    fn text_width(&self, n: usize) -> usize {
        (self.area.width as usize).saturating_sub((n > self.area.height as usize) as usize)
    }
    fn scroll(&self) -> Pos {
        let p = self.f.scroll();
        Pos::new(p.x, p.y)
    }
    /// update the model from what's observed
    fn adopt(&mut self) {
        let c = self.f.content();
        let p = c.cursor_pos();
        let sel = c.selection();
        self.m.t = c.to_string().chars().collect();
        self.m.cur = self.m.offset(Pos::new(p.x, p.y));
        let other = if sel.min == p { sel.max } else { sel.min };
        self.m.tail = c.has_selection().then(|| self.m.offset(Pos::new(other.x, other.y)));
    }
}

/// what should be in a cell
#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    /// a char of the text, with its offset
    Char(usize),
    /// second cell of a wide char or of a tab
    Cont(usize),
    Ellipsis,
    /// at right: the chars from this offset to the end of the line are hidden
    RightEllipsis(usize),
    EllipsisOrBlank,
    Blank,
    /// just after the last char of the line
    End(usize),
}

/// what should be in a row of text
fn wanted_row(fx: &Fx, line: &[char], start: usize, w: usize) -> Vec<Want> {
    let sx = fx.scroll().x;
    let lw: usize = line.iter().map(|c| fx.width(*c)).sum();
    let left = if sx > 0 && w > 4 { 1 } else { 0 };
    let overflow = lw > sx + w;
    let limit = if overflow { w.saturating_sub(1) } else { w };
    let mut v = vec![Want::Blank; w];
    let mut col = 0;
    let mut after = None;
    let mut hidden = start;
    for (i, c) in line.iter().enumerate() {
        let cw = fx.width(*c);
        let (a, b) = (col, col + cw);
        col = b;
        if a < sx + left {
            continue;
        }
        if b > sx + limit {
            if overflow && after.is_none() {
                after = Some(a - sx);
                hidden = start + i;
            }
            continue;
        }
        for k in a..b {
            v[k - sx] = if k == a { Want::Char(start + i) } else { Want::Cont(start + i) };
        }
    }
    if overflow && w > 0 {
        // a char may be hidden both at left and at right
        v[after.unwrap_or(limit).min(w - 1)] = match after {
            Some(k) if k < w => Want::RightEllipsis(hidden),
            _ => Want::EllipsisOrBlank,
        };
    }
    if left == 1 {
        v[0] = if lw > 0 { Want::Ellipsis } else { Want::EllipsisOrBlank };
        if lw <= sx {
            v[0] = Want::EllipsisOrBlank;
        }
    }
    if lw >= sx + left && lw < sx + w {
        v[lw - sx] = Want::End(start + line.len());
    }
    v
}

fn check_display(fx: &Fx, obs: &mut Obs) -> R {
    let mut b = Vec::new();
    let ret = fx.f.display_on(&mut b).unwrap();
    let sc = Screen::of(&b)?;
    let area = &fx.area;
    let lines = fx.m.lines();
    let n = lines.len();
    let (h, w) = (area.height as usize, fx.text_width(n));
    let scroll = fx.scroll();
    let ctx = format!(
        "area {area:?}, scroll {scroll:?}, text {:?}, cursor {}, tail {:?}, focused {}, password {}",
        fx.m.text(), fx.m.cur, fx.m.tail, fx.focused, fx.password
    );
    ensure!(fx.f.focused() == fx.focused, "wrong focus", "{ctx}");
    ensure!(*fx.f.area() == fx.area, "wrong area", "{ctx}");
    check_paints(&sc, area, &ctx)?;
    obs.ev("drawings", 1);
    ensure!(
        scroll.y == 0 || scroll.y + h <= n,
        "scrolled after the end",
        "{ctx}"
    );
    let base = if fx.focused { fx.normal } else { fx.unfocused };
    let range = fx.m.range();
    let (mut start, mut cursor_seen) = (0, None);
    for (y, line) in lines.iter().enumerate() {
        if y >= scroll.y && y < scroll.y + h {
            let j = y - scroll.y;
            let sy = area.top as i32 + j as i32;
            let row = wanted_row(fx, line, start, w);
            for (x, want) in row.iter().enumerate() {
                let cell = &sc.cells[&(sy, area.left as i32 + x as i32)];
                let g = cell.ch.unwrap_or(' ');
                let what = format!("{want:?} but {g:?} {:?} at {x},{j}: {:?}, {ctx}", cell.sty,
                    sc.row_text(sy, area.left as i32, area.right() as i32));
                match *want {
                    Want::Char(o) | Want::Cont(o) => {
                        let exp = match fx.m.t[o] {
                            _ if fx.password => '*',
                            '\t' => ' ',
                            c => c,
                        };
                        ensure!(g == exp, "wrong char displayed", "{what}");
                        ensure!(
                            cell.cont == (matches!(want, Want::Cont(_)) && fx.m.t[o] != '\t'),
                            "misplaced wide char",
                            "{what}"
                        );
                        let marked = fx.focused && range.contains(&o);
                        let st = if marked { fx.cursor } else { base };
                        ensure!(
                            cell.sty == st,
                            if marked { "selected char not marked" } else { "wrong style" },
                            "{what}"
                        );
                        if o == fx.m.cur && matches!(want, Want::Char(_)) {
                            cursor_seen = Some((x, j));
                        }
                        obs.ev("chars", 1);
                        obs.ev("marked_chars", marked as u64);
                    }
                    Want::Ellipsis => {
                        obs.ev("ellipsis", 1);
                        ensure!(g == '…', "no ellipsis where text is hidden", "{what}");
                        ensure!(
                            cell.sty == base || (fx.focused && cell.sty == fx.cursor),
                            "wrong style",
                            "{what}"
                        );
                    }
                    Want::RightEllipsis(o) => {
                        obs.ev("ellipsis", 1);
                        ensure!(g == '…', "no ellipsis where text is hidden", "{what}");
                        let hidden = o..start + line.len();
                        let all = fx.focused && hidden.clone().all(|o| range.contains(&o));
                        let none = !fx.focused || !hidden.clone().any(|o| range.contains(&o));
                        // it may be marked or not when only a part of what it hides is selected
                        if all {
                            ensure!(cell.sty == fx.cursor, "selected hidden text not marked", "{what}");
                            obs.ev("marked_ellipsis", 1);
                        } else if none {
                            ensure!(cell.sty == base, "wrong style", "{what}");
                        } else {
                            ensure!(cell.sty == base || cell.sty == fx.cursor, "wrong style", "{what}");
                        }
                    }
                    Want::EllipsisOrBlank => {
                        ensure!(g == '…' || g == ' ', "wrong char displayed", "{what}");
                    }
                    Want::Blank => {
                        ensure!(g == ' ', "wrong char displayed", "{what}");
                        ensure!(cell.sty == base, "wrong style", "{what}");
                    }
                    Want::End(o) => {
                        ensure!(g == ' ', "wrong char displayed", "{what}");
                        if o == fx.m.cur {
                            cursor_seen = Some((x, j));
                            if fx.focused {
                                ensure!(cell.sty == fx.cursor, "cursor not marked", "{what}");
                                obs.ev("cursor_at_end", 1);
                            }
                        }
                        if !(fx.focused && range.contains(&o)) && o != fx.m.cur {
                            ensure!(cell.sty == base, "wrong style", "{what}");
                        }
                    }
                }
            }
        }
        start += line.len() + 1;
    }
    for j in n.saturating_sub(scroll.y)..h {
        for x in 0..w {
            let cell = &sc.cells[&(area.top as i32 + j as i32, area.left as i32 + x as i32)];
            ensure!(cell.ch == Some(' ') && cell.sty == base, "row after the end isn't blank", "{cell:?} {x},{j} {ctx}");
        }
    }
    if n > h && area.width > 0 {
        let skin = get_default_skin();
        let exp = compute_scrollbar(scroll.y, n, h as u16, area.top);
        for j in 0..h {
            let y = area.top + j as u16;
            let cell = &sc.cells[&(y as i32, area.right() as i32 - 1)];
            let thumb = exp.map_or(false, |(a, b)| a <= y && y <= b);
            let want = if thumb { &skin.scrollbar.thumb } else { &skin.scrollbar.track };
            ensure!(
                cell.ch == Some(want.get_char()) && cell.sty.fg == sty_of(want.compound_style()).fg,
                "wrong scrollbar",
                "{cell:?} on {y}, thumb expected on {exp:?}, {ctx}"
            );
            obs.ev("scrollbar_cells", 1);
        }
    }
    if fx.focused {
        if fx.must_show && w >= 3 && h > 0 {
            obs.ev("cursors_seen", 1);
            ensure!(cursor_seen.is_some(), "cursor hidden", "{ctx}");
        }
        let exp = cursor_seen.map(|(x, j)| (area.left + x as u16, area.top + j as u16));
        if exp.is_some() {
            ensure!(ret == exp, "wrong cursor position returned", "{ret:?} instead of {exp:?}, {ctx}");
        }
    } else {
        ensure!(ret.is_none(), "cursor rendered without focus", "{ret:?} {ctx}");
    }
    if scroll.x > 0 {
        obs.ev("x_scrolled", 1);
    }
    if scroll.y > 0 {
        obs.ev("y_scrolled", 1);
    }
    obs.ev(if fx.focused { "focused" } else { "not_focused" }, 1);
    Ok(())
}

static CODES: &[(&str, KeyCode)] = &[
    ("Backspace", KeyCode::Backspace),
    ("Delete", KeyCode::Delete),
    ("Home", KeyCode::Home),
    ("End", KeyCode::End),
    ("Up", KeyCode::Up),
    ("Down", KeyCode::Down),
    ("Left", KeyCode::Left),
    ("Right", KeyCode::Right),
    ("PageUp", KeyCode::PageUp),
    ("PageDown", KeyCode::PageDown),
    ("Enter", KeyCode::Enter),
    ("Esc", KeyCode::Esc),
    ("Tab", KeyCode::Tab),
    ("BackTab", KeyCode::BackTab),
    ("Insert", KeyCode::Insert),
    ("F5", KeyCode::F(5)),
    ("Null", KeyCode::Null),
];

static MODS: &[KeyModifiers] = &[
    KeyModifiers::NONE,
    KeyModifiers::SHIFT,
    KeyModifiers::CONTROL,
    KeyModifiers::ALT,
    KeyModifiers::from_bits_truncate(
        KeyModifiers::CONTROL.bits() | KeyModifiers::SHIFT.bits(),
    ),
    // those ones are received from terminals having the kitty protocol
    KeyModifiers::SUPER,
    KeyModifiers::from_bits_truncate(
        KeyModifiers::SUPER.bits() | KeyModifiers::SHIFT.bits(),
    ),
    KeyModifiers::from_bits_truncate(
        KeyModifiers::ALT.bits() | KeyModifiers::SHIFT.bits(),
    ),
    KeyModifiers::META,
    KeyModifiers::from_bits_truncate(
        KeyModifiers::HYPER.bits() | KeyModifiers::SHIFT.bits(),
    ),
];

static MOUSE: &[MouseEventKind] = &[
    MouseEventKind::Down(MouseButton::Left),
    MouseEventKind::Up(MouseButton::Left),
    MouseEventKind::Drag(MouseButton::Left),
    MouseEventKind::ScrollDown,
    MouseEventKind::ScrollUp,
    MouseEventKind::Down(MouseButton::Right),
    MouseEventKind::Up(MouseButton::Right),
    MouseEventKind::Drag(MouseButton::Middle),
    MouseEventKind::Moved,
    MouseEventKind::ScrollLeft,
];

fn rand_key(r: &mut Rng, alpha: Alpha) -> Value {
    let mods = if r.chance(1, 2) { 0 } else if r.chance(2, 3) { 1 } else { r.range(2, MODS.len() - 1) };
    let code = match r.below(10) {
        0..=2 => {
            let c = rand_char(r, alpha).replace(['\n', '\t'], "x");
            if mods == 1 { c.to_uppercase() } else { c }
        }
        3 => CODES[r.below(2)].0.to_string(),
        4 => r.pick(CODES).0.to_string(),
        5 if r.bool() => "j".to_string(),
        _ => CODES[r.range(2, 9)].0.to_string(),
    };
    let mods = if code == "j" { 2 } else { mods };
    json!({"ev": "key", "code": code, "mods": mods, "via": r.below(5)})
}

/// an event which isn't for input fields
fn rand_other(r: &mut Rng) -> Value {
    json!({"ev": "other", "n": r.below(8), "k": r.below(100), "mods": r.below(2), "via": r.below(2), "double": r.chance(1, 4)})
}

fn send_other(fx: &mut Fx, op: &Value) -> (bool, String) {
    let k = u(op, "k");
    let double = op["double"].as_bool().unwrap_or(false);
    let event = match u(op, "n") {
        0 => Event::FocusGained,
        1 => Event::FocusLost,
        2 => Event::Resize(10 + k as u16, 5 + k as u16 / 3),
        3 => Event::Paste("pasted".to_string()),
        n => {
            // several keys pressed together
            let codes = if n % 2 == 0 {
                OneToThree::Two(KeyCode::Char('a'), CODES[k % CODES.len()].1)
            } else {
                OneToThree::Three(KeyCode::Char('a'), KeyCode::Char('b'), CODES[k % CODES.len()].1)
            };
            let combination = KeyCombination::new(codes, MODS[u(op, "mods")]);
            let ret = fx.f.apply_key_combination(combination);
            return (ret, format!("{combination}"));
        }
    };
    let what = format!("{event:?}");
    let ret = match u(op, "via") {
        0 => fx.f.apply_event(&event, double),
        _ => {
            let mut e = TimedEvent::new(event);
            e.double_click = double;
            fx.f.apply_timed_event(&e)
        }
    };
    (ret, what)
}

fn rand_mouse(r: &mut Rng) -> Value {
    let kind = if r.chance(3, 4) { r.below(5) } else { r.range(5, MOUSE.len() - 1) };
    json!({
        "ev": "mouse", "kind": kind, "in": r.chance(3, 4),
        // relative to the area
        "x": r.irange(-1, 22).min(r.irange(-1, 22)), "y": r.irange(-1, 8).min(r.irange(-1, 8)),
        "mods": if r.chance(1, 5) { r.range(1, 2) } else { 0 },
        "double": kind < 2 && r.chance(1, 3),
        "via": r.below(4),
    })
}

/// send a key or mouse event
///
/// Return what the field returned
fn send(fx: &mut Fx, op: &Value) -> (bool, Option<KeyEvent>, Option<MouseEvent>) {
    let mods = MODS[u(op, "mods") % MODS.len()];
    let via = u(op, "via");
    if op["ev"] == "key" {
        let name = s(op, "code");
        let code = CODES
            .iter()
            .find(|(n, _)| *n == name)
            .map(|c| c.1)
            .unwrap_or_else(|| {
                let c = name.chars().next().unwrap_or('a');
                // that's how chars are received when shift is pressed
                KeyCode::Char(if mods == KeyModifiers::SHIFT { c.to_ascii_uppercase() } else { c })
            });
        let key = KeyEvent::new(code, mods);
        let plain = mods == KeyModifiers::NONE || mods == KeyModifiers::SHIFT;
        let ret = match via {
            0 => fx.f.apply_event(&Event::Key(key), false),
            1 => fx.f.apply_timed_event(&TimedEvent::new(Event::Key(key))),
            2 => fx.f.apply_key_event(key),
            // this one is for when the focus and the new lines are managed by the caller
            4 if plain && fx.focused && !fx.nl_keys.contains(&key) => {
                fx.f.apply_keycode_event(code, mods == KeyModifiers::SHIFT)
            }
            _ => fx.f.apply_key_combination(key),
        };
        (ret, Some(key), None)
    } else {
        let (column, row) = mouse_at(fx, op);
        let me = MouseEvent {
            kind: MOUSE[u(op, "kind") % MOUSE.len()],
            column,
            row,
            modifiers: mods,
        };
        let double = op["double"].as_bool().unwrap_or(false);
        let ret = match via {
            0 => fx.f.apply_event(&Event::Mouse(me), double),
            1 => {
                let mut e = TimedEvent::new(Event::Mouse(me));
                e.double_click = double;
                fx.f.apply_timed_event(&e)
            }
            2 if simple_click(&me) && !double => fx.f.apply_click_event(me.column, me.row),
            _ => fx.f.apply_mouse_event(me, double),
        };
        (ret, None, Some(me))
    }
}

fn mouse_at(fx: &Fx, op: &Value) -> (u16, u16) {
    let inside = op["in"].as_bool().unwrap_or(false);
    let at = |o: u16, k: &str, size: u16| {
        let v = op[k].as_i64().unwrap_or(0);
        let v = if inside { v.rem_euclid(size.max(1) as i64) } else { v };
        (o as i64 + v).max(0) as u16
    };
    (at(fx.area.left, "x", fx.area.width), at(fx.area.top, "y", fx.area.height))
}

fn simple_click(me: &MouseEvent) -> bool {
    me.kind == MouseEventKind::Down(MouseButton::Left) && me.modifiers == KeyModifiers::NONE
}

/// the cells of the row `j`, as they should be displayed
fn wanted_at(fx: &Fx, x: usize, j: usize) -> Option<Want> {
    let lines = fx.m.lines();
    let y = fx.scroll().y + j;
    let line = lines.get(y)?;
    let start = fx.m.offset(Pos::new(0, y));
    wanted_row(fx, line, start, fx.text_width(lines.len())).get(x).copied()
}

/// other operations on the fields
fn field_op(fx: &mut Fx, op: &Value) {
    match op["ev"].as_str().unwrap_or("") {
        "area" => {
            let a = area_of(&op["area"]);
            if op["change"].as_bool().unwrap_or(false) {
                fx.f.change_area(a.left, a.top, a.width);
                fx.area = Area::new(a.left, a.top, a.width, fx.area.height);
            } else {
                fx.f.set_area(a.clone());
                fx.area = a;
            }
        }
        "focus" => {
            let b = op["b"].as_bool().unwrap_or(false);
            fx.f.set_focus(b);
            fx.focused = b;
        }
        "mono" => {
            fx.f.set_mono_line();
            fx.nl_keys.clear();
        }
        "scroll" => {
            if op["b"].as_bool().unwrap_or(false) {
                fx.f.scroll_up();
            } else {
                fx.f.scroll_down();
            }
        }
        _ => {}
    }
}

fn rand_field_op(r: &mut Rng) -> Value {
    match r.below(25) {
        0..=12 => json!({"ev": "area", "area": rand_area(r), "change": r.chance(1, 3)}),
        13 => json!({"ev": "mono"}),
        14..=19 => json!({"ev": "focus", "b": r.chance(2, 3)}),
        _ => json!({"ev": "scroll", "b": r.bool()}),
    }
}

fn rand_field(r: &mut Rng, alpha: Alpha, idx: u64, t: Tier) -> Value {
    let max = *r.pick(&[0, 3, 8, 20, 60]);
    let mono = r.chance(1, 4);
    let huge = idx % if t == Tier::Quick { 15_000 } else { 10_000 } == 7;
    let mut init = rand_text(r, alpha, max);
    if mono {
        init = init.replace('\n', " ");
    }
    if huge {
        init = if r.bool() { "a\n".repeat(65_530 + r.below(20)) } else { "012 3.67é9".repeat(10_100 + r.below(20)) };
    }
    json!({
        "init": init,
        "area": rand_area(r),
        "style": if r.chance(1, 4) { 0 } else { r.u64() % 1_000_000 },
        "password": r.chance(1, 5),
        "nl": if r.bool() { 0 } else { r.below(16) },
    })
}

// ------------------------------------------------------------------- C14

pub struct C14;

impl Check for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "histories of up to 25 editions, moves, selections, area changes, focus changes, key and mouse events on an input field in an area of 1 to 20 columns and 1 to 8 rows, with mono and multi-line contents (some having more than 65536 lines), in normal or password mode; the field is drawn after each step, the bytes are interpreted by a terminal emulator and each cell is compared with what should be displayed; non trivial when the content was scrolled"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "chars of the content are tabs or take one or two columns",
            "the cursor is required to be visible when the area leaves at least 3 columns for the text",
        ]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 150_000 } else { 2_500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["drawings", "chars", "marked_chars", "ellipsis", "marked_ellipsis", "cursor_at_end", "scrollbar_cells", "cursors_seen", "x_scrolled", "y_scrolled", "focused", "not_focused", "password_fields", "huge_texts"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> Value {
        let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
        let mut c = rand_field(r, alpha, idx, t);
        let n = *r.pick(&[3, 8, 25]);
        let n = if s(&c, "init").len() > 100_000 { 3 } else { n };
        c["ops"] = (0..n)
            .map(|_| match r.below(10) {
                0 => rand_field_op(r),
                1 | 2 => rand_key(r, alpha),
                3 => rand_mouse(r),
                _ => rand_op(r, alpha),
            })
            .collect();
        c
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let mut fx = Fx::new(case);
        obs.ev("password_fields", fx.password as u64);
        obs.ev("huge_texts", (fx.m.t.len() > 100_000) as u64);
        check_display(&fx, obs)?;
        for (k, op) in case["ops"].as_array().cloned().unwrap_or_default().iter().enumerate() {
            let state = |fx: &Fx| (fx.m.t.clone(), fx.m.cur, fx.area.clone(), fx.focused);
            let before = state(&fx);
            let scroll = fx.scroll();
            if op["op"].is_string() {
                // the model of editions isn't used here
                let _ = apply_op(&mut fx.f, &mut fx.m, op, &mut Expect::default());
            } else if matches!(op["ev"].as_str(), Some("key" | "mouse")) {
                send(&mut fx, op);
                fx.focused = fx.f.focused();
            } else {
                field_op(&mut fx, op);
            }
            fx.adopt();
            if state(&fx) != before {
                fx.must_show = true;
            } else if fx.scroll() != scroll {
                fx.must_show = false;
            }
            check_display(&fx, obs).map_err(|v| Viol {
                sig: v.sig,
                msg: format!("{} (after op {k}: {op})", v.msg),
            })?;
            if fx.scroll() != Pos::default() {
                obs.nontrivial(hash_str(&case.to_string()));
            }
            obs.state("displays", hash_str(&format!("{:?}{:?}{:?}{}", fx.m, fx.area, fx.scroll(), fx.focused)));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------- C15

pub struct C15;

impl Check for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "histories of up to 40 key and mouse events (sent through the five entry points), mixed with area and focus changes, on a field with a random content, area, set of new line keys; after each event the returned value, content, cursor, selection and focus are compared with the documented effect of the event; non trivial when the content was scrolled"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["chars of the content are tabs or take one or two columns"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 2_500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &["events", "keys", "ignored_keys", "unhandled_events", "unfocused_keys", "new_line_keys", "clicks_on_chars", "clicks_elsewhere", "clicks_outside", "drags", "double_clicks", "focusing_clicks", "wheel", "replaced_selections", "mono_line"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> Value {
        let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
        let mut c = rand_field(r, alpha, idx, t);
        let n = *r.pick(&[3, 10, 40]);
        let n = if s(&c, "init").len() > 100_000 { 3 } else { n };
        let mut ops = Vec::new();
        for _ in 0..n {
            match r.below(12) {
                0 => ops.push(rand_field_op(r)),
                1..=6 => ops.push(match r.below(10) {
                    0 => rand_other(r),
                    _ => rand_key(r, alpha),
                }),
                7 => {
                    // a complete drag
                    let mut m = rand_mouse(r);
                    m["double"] = json!(false);
                    m["mods"] = json!(0);
                    for k in [0, 2, 2, 1] {
                        m["kind"] = json!(k);
                        ops.push(m.clone());
                        if k > 0 && r.chance(3, 4) {
                            m["x"] = json!(r.below(12));
                            m["y"] = json!(r.below(3));
                        }
                    }
                }
                8 => {
                    let mut m = rand_mouse(r);
                    m["mods"] = json!(0);
                    for (k, d) in [(0, false), (1, false), (0, true), (1, true)] {
                        m["kind"] = json!(k);
                        m["double"] = json!(d);
                        ops.push(m.clone());
                    }
                }
                _ => ops.push(rand_mouse(r)),
            }
        }
        c["ops"] = json!(ops);
        c
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let mut fx = Fx::new(case);
        let mut lines = fx.m.lines().len();
        for (k, op) in case["ops"].as_array().cloned().unwrap_or_default().iter().enumerate() {
            let ctx = format!(
                "op {k}: {op}, text {:?}, cursor {}, tail {:?}, focused {}, area {:?}, scroll {:?}",
                fx.m.text(), fx.m.cur, fx.m.tail, fx.focused, fx.area, fx.scroll()
            );
            if op["ev"] == "other" {
                let scroll = fx.scroll();
                let (ret, what) = send_other(&mut fx, op);
                ensure!(!ret, "unhandled event said used", "{what} {ctx}");
                observe(&fx.f.snap(), &mut fx.m, &Expect::default(), "unhandled event")?;
                ensure!(fx.f.focused() == fx.focused && *fx.f.area() == fx.area, "state changed by an unhandled event", "{what} {ctx}");
                ensure!(fx.scroll() == scroll, "scroll changed by an unhandled event", "{what} {ctx}");
                obs.ev("unhandled_events", 1);
                continue;
            }
            if !matches!(op["ev"].as_str(), Some("key" | "mouse")) {
                field_op(&mut fx, op);
                observe(&fx.f.snap(), &mut fx.m, &Expect::default(), "field operation")?;
                continue;
            }
            self.event(&mut fx, op, obs).map_err(|v| Viol {
                sig: v.sig,
                msg: format!("{} ({ctx})", v.msg),
            })?;
            if fx.nl_keys.is_empty() && op["ev"] == "key" {
                obs.ev("mono_line", 1);
                ensure!(fx.m.lines().len() <= lines, "line added in a mono line field", "{ctx}");
            }
            lines = fx.m.lines().len();
            obs.ev("events", 1);
            if obs.nontrivial.len() < 3_000_000 && fx.scroll() != Pos::default() {
                obs.nontrivial(hash_str(&case.to_string()));
            }
        }
        Ok(())
    }
}

impl C15 {
    fn event(&self, fx: &mut Fx, op: &Value, obs: &mut Obs) -> R {
        // what is displayed
        let mut b = Vec::new();
        fx.f.display_on(&mut b).unwrap();
        let sc = Screen::of(&b)?;
        let (old, focused, scroll) = (fx.m.clone(), fx.focused, fx.scroll());
        let mut e = Expect::default();
        // what is displayed where the mouse event is
        let mut want = None;
        if op["ev"] == "mouse" {
            let (x, y) = mouse_at(fx, op);
            if fx.area.contains(x, y) {
                let (x, y) = ((x - fx.area.left) as usize, (y - fx.area.top) as usize);
                want = Some((wanted_at(fx, x, y), y));
            }
        }
        let (ret, key, mouse) = send(fx, op);
        if let Some(key) = key {
            obs.ev("keys", 1);
            let code = key.code;
            let shift = key.modifiers == KeyModifiers::SHIFT;
            let plain = shift || key.modifiers == KeyModifiers::NONE;
            let m = &mut fx.m;
            let mut check_ret = true;
            if !focused {
                obs.ev("unfocused_keys", 1);
                e.ret = Some(false);
            } else if fx.nl_keys.contains(&key) {
                obs.ev("new_line_keys", 1);
                if m.wide() {
                    m.del_selection();
                }
                m.insert('\n');
                m.tail = None;
                e.ret = Some(true);
            } else if plain {
                match code {
                    KeyCode::Char(c) => {
                        if m.wide() {
                            obs.ev("replaced_selections", 1);
                            m.del_selection();
                        }
                        m.tail = None;
                        m.insert(c);
                        e.ret = Some(true);
                    }
                    KeyCode::Backspace | KeyCode::Delete => {
                        if m.wide() {
                            obs.ev("replaced_selections", 1);
                            m.del_selection();
                            e.ret = Some(true);
                        } else if code == KeyCode::Backspace {
                            e.ret = Some(m.cur > 0);
                            if m.cur > 0 {
                                m.cur -= 1;
                                m.t.remove(m.cur);
                            }
                        } else {
                            e.ret = Some(m.cur < m.t.len());
                            if m.cur < m.t.len() {
                                m.t.remove(m.cur);
                            }
                        }
                        m.tail = None;
                    }
                    KeyCode::Home | KeyCode::End | KeyCode::Left | KeyCode::Right | KeyCode::Up | KeyCode::Down
                    | KeyCode::PageUp | KeyCode::PageDown => {
                        if shift && m.tail.is_none() {
                            m.tail = Some(m.cur);
                        } else if !shift {
                            m.tail = None;
                        }
                        let h = fx.area.height as i64;
                        match code {
                            KeyCode::Home => m.cur = m.line_start(m.cur),
                            KeyCode::End => m.cur = m.line_end(m.cur),
                            KeyCode::Left => m.cur = m.cur.saturating_sub(1),
                            KeyCode::Right => m.cur = (m.cur + 1).min(m.t.len()),
                            KeyCode::Up => e.cur = Some(m.vertical(-1, &real_width).1),
                            KeyCode::Down => e.cur = Some(m.vertical(1, &real_width).1),
                            KeyCode::PageUp => e.cur = Some(m.vertical(-h, &real_width).1),
                            _ => e.cur = Some(m.vertical(h, &real_width).1),
                        }
                        // when the cursor can't move, whether the event is used isn't specified
                        check_ret = m.cur != old.cur;
                        e.ret = Some(true);
                    }
                    _ => e.ret = Some(false),
                }
            } else {
                e.ret = Some(false);
            }
            if e.ret == Some(false) && *m == old {
                obs.ev("ignored_keys", 1);
            }
            if check_ret {
                ensure!(
                    Some(ret) == e.ret,
                    format!("event said {}", if ret { "used" } else { "ignored" }),
                    "{key:?}"
                );
            }
        } else if let Some(me) = mouse {
            let double = op["double"].as_bool().unwrap_or(false);
            match want {
                None => {
                    obs.ev("clicks_outside", 1);
                    ensure!(!ret, "event out of the area said used", "{me:?}");
                }
                Some(_) if !focused => {
                    if me.kind == MouseEventKind::Down(MouseButton::Left) {
                        obs.ev("focusing_clicks", 1);
                        fx.focused = true;
                        ensure!(ret, "focusing click said ignored", "{me:?}");
                    }
                }
                Some((want, row)) => {
                    let m = &mut fx.m;
                    let mut target = None;
                    let left_down = me.kind == MouseEventKind::Down(MouseButton::Left);
                    let drag = me.kind == MouseEventKind::Drag(MouseButton::Left);
                    let second_up = me.kind == MouseEventKind::Up(MouseButton::Left) && double;
                    if left_down || drag || second_up {
                        ensure!(ret, "mouse event said ignored", "{me:?}");
                        let y = scroll.y + row;
                        target = Some(match want {
                            Some(Want::Char(o) | Want::Cont(o)) => {
                                obs.ev("clicks_on_chars", 1);
                                let g = sc.char_at(me.column as i32, me.row as i32);
                                let p = fx.f.content().cursor_pos();
                                let c = m.t.get(m.offset(Pos::new(p.x, p.y))).copied();
                                if !fx.password && !second_up && m.t[o] != '\t' {
                                    ensure!(g == c, "cursor not put on the displayed char", "{c:?} instead of {g:?} {me:?}");
                                }
                                vec![o]
                            }
                            Some(Want::End(o)) => {
                                obs.ev("clicks_elsewhere", 1);
                                vec![o]
                            }
                            _ => {
                                // hidden chars: the cursor must be somewhere in the line
                                obs.ev("clicks_elsewhere", 1);
                                let a = m.offset(Pos::new(0, y.min(m.lines().len() - 1)));
                                (a..=m.line_end(a)).collect()
                            }
                        });
                    }
                    if left_down {
                        if me.modifiers == KeyModifiers::SHIFT {
                            if m.tail.is_none() {
                                m.tail = Some(m.cur);
                            }
                        } else {
                            m.tail = None;
                        }
                        // apply_click_event doesn't change the selection
                        e.free_tail = simple_click(&me) && !double && u(op, "via") == 2;
                    } else if drag {
                        obs.ev("drags", 1);
                        if m.tail.is_none() {
                            m.tail = Some(m.cur);
                        }
                    } else if matches!(me.kind, MouseEventKind::ScrollDown | MouseEventKind::ScrollUp) {
                        obs.ev("wheel", 1);
                        let n = m.lines().len();
                        let h = fx.area.height as usize;
                        let max = n.saturating_sub(h);
                        let exp = if me.kind == MouseEventKind::ScrollUp {
                            scroll.y.saturating_sub(1)
                        } else {
                            (scroll.y + 1).min(max)
                        };
                        ensure!(fx.f.scroll().y == exp, "wheel not followed", "{:?} instead of {exp}", fx.f.scroll());
                    }
                    if second_up {
                        obs.ev("double_clicks", 1);
                        // the cursor is first put on the clicked char
                        let mut fits = None;
                        let p = fx.f.content().cursor_pos();
                        // (in long texts, no word is that long)
                        let near = m.offset(Pos::new(p.x, p.y));
                        let far = if m.t.len() > 100_000 { 300 } else { usize::MAX };
                        for o in target.take().unwrap().into_iter().filter(|o| o.abs_diff(near) < far) {
                            let mut k = m.clone();
                            k.cur = o;
                            k.select_word();
                            if k.pos() == Pos::new(p.x, p.y) {
                                fits = Some(k);
                            }
                        }
                        match fits {
                            Some(k) => *m = k,
                            None => return viol("wrong cursor after double click", format!("{p:?} {want:?}")),
                        }
                        e.free_tail = want.map_or(true, |w| !matches!(w, Want::Char(_) | Want::Cont(_)));
                    }
                    e.cur = target;
                }
            }
        }
        ensure!(fx.f.focused() == fx.focused, "wrong focus", "{} instead of {}", fx.f.focused(), fx.focused);
        observe(&fx.f.snap(), &mut fx.m, &e, "the event")
    }
}
