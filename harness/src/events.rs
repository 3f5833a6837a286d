//! C22 (event source), C23 (ticker)

use {
    crate::{core::*, ptys::*},
    crokey::{Combiner, KeyCombination},
    serde_json::{json, Value},
    std::{
        io::{BufRead, BufReader, Read, Write},
        os::{
            fd::{AsRawFd, FromRawFd, OwnedFd},
            unix::{net::UnixStream, process::CommandExt},
        },
        process::{Child, Stdio},
        time::{Duration, Instant},
    },
    termimad::{
        crossterm::event::{
            Event, KeyCode, KeyEvent, KeyEventKind, KeyModifiers, ModifierKeyCode, MouseButton, MouseEvent, MouseEventKind,
        },
        *,
    },
};

fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

// ------------------------------------------------- the child

fn thread_count() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

pub fn child_events(_job: &Value) -> i32 {
    let sock = unsafe { UnixStream::from_raw_fd(3) };
    let mut reader = BufReader::new(sock.try_clone().unwrap());
    let mut writer = sock;
    let start = Instant::now();
    let mut source: Option<EventSource> = None;
    let mut old_receivers = Vec::new();
    let mut line = String::new();
    loop {
        line.clear();
        match reader.read_line(&mut line) {
            Ok(0) | Err(_) => return 0,
            _ => {}
        }
        let cmd: Value = serde_json::from_str(&line).unwrap();
        let ms = Duration::from_millis(cmd["ms"].as_u64().unwrap_or(0));
        let reply = match cmd["c"].as_str().unwrap_or("") {
            "new" => {
                let o = &cmd["opts"];
                let b = |k: &str, d: bool| o[k].as_bool().unwrap_or(d);
                let res = if o["default"] == true {
                    EventSource::new()
                } else {
                    EventSource::with_options(EventSourceOptions {
                        combine_keys: b("combine_keys", false),
                        mandate_modifier_for_multiple_keys: b("mandate", true),
                        discard_raw_key_events: b("discard_raw", true),
                        discard_mouse_move: b("discard_move", true),
                        discard_mouse_drag: b("discard_drag", false),
                    })
                };
                match res {
                    Ok(s) => {
                        let multi = s.supports_multi_key_combinations();
                        old_receivers.push(s.receiver());
                        source = Some(s);
                        json!({"ok": true, "multi": multi})
                    }
                    Err(e) => json!({"err": e.to_string()}),
                }
            }
            "recv" => {
                let rx = match &source {
                    Some(s) => s.receiver(),
                    None => old_receivers.last().unwrap().clone(),
                };
                match rx.recv_timeout(ms) {
                    Ok(e) => {
                        let is_key = match &e.event {
                            Event::Key(k) => e.is_key(*k),
                            _ => false,
                        };
                        json!({
                            "ev": format!("{:?}", e.event),
                            "t": e.time.saturating_duration_since(start).as_micros() as u64,
                            "now": start.elapsed().as_micros() as u64,
                            "double": e.double_click,
                            "comb": e.key_combination.map(|c| format!("{c:?}")),
                            "is_key": is_key,
                            "is_other": e.is_key(KeyCode::F(77)),
                            "click": e.as_click().map(|(x, y)| vec![x, y]),
                        })
                    }
                    Err(e) => json!({"none": e.is_disconnected() }),
                }
            }
            "unblock" => {
                source.as_ref().unwrap().unblock(cmd["q"] == true);
                json!({"ok": true})
            }
            "seq" => match source.as_ref().unwrap().escape_sequence_receiver().recv_timeout(ms) {
                Ok(s) => json!({
                    "keys": s.keys.iter().map(|k| format!("{k:?}")).collect::<Vec<_>>(),
                    "str": s.to_string(),
                }),
                Err(_) => json!({"none": true}),
            },
            "count" => {
                let c = source.as_ref().unwrap().shared_event_count();
                json!({"count": c.load(std::sync::atomic::Ordering::SeqCst)})
            }
            "idle" => {
                let (cpu, wall) = crate::concur::idle(ms);
                json!({"cpu": cpu.as_micros() as u64, "wall": wall.as_micros() as u64})
            }
            "threads" => json!({"threads": thread_count()}),
            "drop" => {
                source = None;
                json!({"ok": true})
            }
            _ => return 0,
        };
        if writeln!(writer, "{reply}").is_err() {
            return 0;
        }
    }
}

// ------------------------------------------------- tokens

fn key(code: KeyCode, m: KeyModifiers) -> Event {
    Event::Key(KeyEvent::new(code, m))
}

fn mods_of(n: u64) -> KeyModifiers {
    let mut m = KeyModifiers::NONE;
    if n & 1 != 0 {
        m |= KeyModifiers::SHIFT;
    }
    if n & 2 != 0 {
        m |= KeyModifiers::ALT;
    }
    if n & 4 != 0 {
        m |= KeyModifiers::CONTROL;
    }
    m
}

fn char_event(c: char) -> Event {
    key(KeyCode::Char(c), if c.is_uppercase() { KeyModifiers::SHIFT } else { KeyModifiers::NONE })
}

fn with_alt(e: Event) -> Event {
    match e {
        Event::Key(mut k) => {
            k.modifiers |= KeyModifiers::ALT;
            Event::Key(k)
        }
        e => e,
    }
}

static NAMED: &[(&str, KeyCode, bool)] = &[
    ("\r", KeyCode::Enter, true),
    ("\t", KeyCode::Tab, true),
    ("\u{7f}", KeyCode::Backspace, true),
    ("\u{1b}[A", KeyCode::Up, false),
    ("\u{1b}[B", KeyCode::Down, false),
    ("\u{1b}[C", KeyCode::Right, false),
    ("\u{1b}[D", KeyCode::Left, false),
    ("\u{1b}[H", KeyCode::Home, false),
    ("\u{1b}[F", KeyCode::End, false),
    ("\u{1b}OH", KeyCode::Home, false),
    ("\u{1b}OA", KeyCode::Up, false),
    ("\u{1b}[3~", KeyCode::Delete, false),
    ("\u{1b}[2~", KeyCode::Insert, false),
    ("\u{1b}[5~", KeyCode::PageUp, false),
    ("\u{1b}[6~", KeyCode::PageDown, false),
    ("\u{1b}OP", KeyCode::F(1), false),
    ("\u{1b}OS", KeyCode::F(4), false),
    ("\u{1b}[15~", KeyCode::F(5), false),
    ("\u{1b}[24~", KeyCode::F(12), false),
];

static ARROWS: &[(char, KeyCode)] = &[
    ('A', KeyCode::Up),
    ('B', KeyCode::Down),
    ('C', KeyCode::Right),
    ('D', KeyCode::Left),
    ('H', KeyCode::Home),
    ('F', KeyCode::End),
];

/// bytes of a token, and the events crossterm reads from them
fn token(t: &Value) -> (Vec<u8>, Vec<Event>) {
    let n = |k: &str| t[k].as_u64().unwrap_or(0);
    let str = |k: &str| t[k].as_str().unwrap_or("");
    let one = |s: String, e: Event| (s.into_bytes(), vec![e]);
    match str("t") {
        "text" => {
            let s: String = str("v").chars().filter(|c| !c.is_control()).collect();
            let evs = s.chars().map(char_event).collect();
            (s.into_bytes(), evs)
        }
        "ctrl" => {
            let k = n("v") % 26;
            // tab, enter and line feed aren't sent as ctrl keys
            let k = if matches!(k, 8 | 9 | 12) { 0 } else { k } as u8;
            (vec![k + 1], vec![key(KeyCode::Char((b'a' + k) as char), KeyModifiers::CONTROL)])
        }
        "alt" => {
            let c = str("v").chars().next().filter(|c| !c.is_control() && !"[O_\\".contains(*c)).unwrap_or('a');
            one(format!("\u{1b}{c}"), with_alt(char_event(c)))
        }
        "named" => {
            let (s, c, simple) = &NAMED[n("v") as usize % NAMED.len()];
            if *simple && n("m") % 2 == 1 {
                one(format!("\u{1b}{s}"), key(*c, KeyModifiers::ALT))
            } else {
                one(s.to_string(), key(*c, KeyModifiers::NONE))
            }
        }
        "arrow" => {
            let (c, k) = ARROWS[n("v") as usize % ARROWS.len()];
            let m = 1 + n("m") % 7;
            one(format!("\u{1b}[1;{}{c}", m + 1), key(k, mods_of(m)))
        }
        "csiu" => {
            // press, repeat or release in the kitty protocol
            let c = str("v").chars().next().filter(|c| c.is_ascii_lowercase() || *c == ' ' || *c == 'S').unwrap_or('a');
            let kind = 1 + n("k") % 3;
            let m = n("m") % 8;
            if c == 'S' {
                // the left shift key itself
                let mut k = KeyEvent::new(KeyCode::Modifier(ModifierKeyCode::LeftShift), mods_of(m | 1));
                k.kind = [KeyEventKind::Press, KeyEventKind::Repeat, KeyEventKind::Release][kind as usize - 1];
                return one(format!("\u{1b}[57441;{}:{kind}u", m + 1), Event::Key(k));
            }
            let mut k = KeyEvent::new(KeyCode::Char(c), mods_of(m));
            k.kind = [KeyEventKind::Press, KeyEventKind::Repeat, KeyEventKind::Release][kind as usize - 1];
            one(format!("\u{1b}[{};{}:{kind}u", c as u32, m + 1), Event::Key(k))
        }
        "mouse" => {
            let (x, y) = (n("x") as u16 % 200, n("y") as u16 % 60);
            let b = n("b") % 3;
            let button = [MouseButton::Left, MouseButton::Middle, MouseButton::Right][b as usize];
            let m = n("m") % 8;
            let mut cb = b;
            let mut fin = 'M';
            let kind = match n("k") % 8 {
                0 | 1 => MouseEventKind::Down(button),
                2 | 3 => {
                    fin = 'm';
                    MouseEventKind::Up(button)
                }
                4 => {
                    cb |= 32;
                    MouseEventKind::Drag(button)
                }
                5 => {
                    cb = 35;
                    MouseEventKind::Moved
                }
                6 => {
                    cb = 64;
                    MouseEventKind::ScrollUp
                }
                _ => {
                    cb = 65;
                    MouseEventKind::ScrollDown
                }
            };
            if m & 1 != 0 {
                cb |= 4;
            }
            if m & 2 != 0 {
                cb |= 8;
            }
            if m & 4 != 0 {
                cb |= 16;
            }
            one(
                format!("\u{1b}[<{cb};{};{}{fin}", x + 1, y + 1),
                Event::Mouse(MouseEvent { kind, column: x, row: y, modifiers: mods_of(m) }),
            )
        }
        "focus" => {
            if t["v"] == true {
                one("\u{1b}[I".into(), Event::FocusGained)
            } else {
                one("\u{1b}[O".into(), Event::FocusLost)
            }
        }
        "paste" => {
            let s: String = str("v").chars().filter(|c| *c != '\u{1b}').collect();
            one(format!("\u{1b}[200~{s}\u{1b}[201~"), Event::Paste(s))
        }
        "seqstart" => one("\u{1b}_".into(), key(KeyCode::Char('_'), KeyModifiers::ALT)),
        "seqend" => one("\u{1b}\\".into(), key(KeyCode::Char('\\'), KeyModifiers::ALT)),
        // only when idle
        "esc" => one("\u{1b}".into(), key(KeyCode::Esc, KeyModifiers::NONE)),
        "resize" => (vec![], vec![Event::Resize(20 + n("v") as u16 % 100, 10 + n("v") as u16 % 30)]),
        _ => (vec![], vec![]),
    }
}

fn solo(t: &Value) -> bool {
    t["t"] == "esc" || t["t"] == "resize" || t["t"] == "seqresize" || t["t"] == "flood"
}

fn gen_mouse(r: &mut Rng) -> Value {
    json!({
        "t": "mouse",
        "x": r.below(2) * 7,
        "y": r.below(2),
        "b": if r.chance(1, 4) { r.below(3) } else { 0 },
        "k": r.below(8),
        "m": if r.chance(1, 8) { r.below(8) } else { 0 },
    })
}

fn gen_plain(r: &mut Rng) -> Value {
    match r.below(8) {
        0 | 1 => json!({"t": "named", "v": r.below(NAMED.len()), "m": r.below(2)}),
        _ => {
            let n = r.range(1, 6);
            let s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '1', ';', '_', '\\', ' ', 'é', '一', 'É', '$', 'x'])).collect();
            json!({"t": "text", "v": s})
        }
    }
}

fn gen_token(r: &mut Rng, out: &mut Vec<Value>) {
    match r.below(16) {
        0..=3 => out.push(gen_plain(r)),
        4 => out.push(json!({"t": "ctrl", "v": r.below(26)})),
        5 => out.push(json!({"t": "alt", "v": r.pick(&["a", "Z", "é", "1", " "])})),
        6 => out.push(json!({"t": "arrow", "v": r.below(6), "m": r.below(7)})),
        7 => out.push(json!({"t": "csiu", "v": r.pick(&["a", "b"]), "k": r.below(3), "m": r.below(8)})),
        8 | 9 => out.push(gen_mouse(r)),
        10 => {
            // a click, maybe double
            let (x, y) = (r.below(30), r.below(20));
            for _ in 0..r.range(1, 2) {
                for k in [0, 2] {
                    out.push(json!({"t": "mouse", "x": x, "y": y, "b": 0, "k": k, "m": 0}));
                    if r.chance(1, 8) {
                        out.push(gen_mouse(r));
                    }
                }
            }
        }
        11 => out.push(json!({"t": "focus", "v": r.bool()})),
        12 => out.push(json!({"t": "paste", "v": r.pick(&["", "hello", "two\nlines", "é一\t[A"])})),
        13 | 14 => {
            out.push(json!({"t": "seqstart"}));
            for _ in 0..r.below(5) {
                out.push(gen_plain(r));
            }
            match r.below(7) {
                0 => out.push(gen_mouse(r)),
                6 => {
                    // interrupted by another one
                    out.push(json!({"t": "seqstart"}));
                    for _ in 0..r.below(3) {
                        out.push(gen_plain(r));
                    }
                }
                1 => out.push(json!({"t": "ctrl", "v": r.below(26)})),
                2 => out.push(json!({"t": r.pick(&["focus", "paste"]), "v": "pasted"})),
                3 => out.push(json!({"t": "alt", "v": "q"})),
                _ => {}
            }
            out.push(json!({"t": "seqend"}));
        }
        _ => out.push(json!({"t": r.pick(&["esc", "esc", "resize", "resize", "seqresize", "flood"]), "v": r.below(100)})),
    }
}

// ------------------------------------------------- the expected deliveries

#[derive(Default)]
struct Model {
    /// crokey is trusted
    combiner: Combiner,
    discard_raw: bool,
    discard_move: bool,
    discard_drag: bool,
    seq: Option<Vec<KeyEvent>>,
    events: Vec<(Event, Option<KeyCombination>)>,
    seqs: Vec<Vec<KeyEvent>>,
    interrupted: u64,
    discarded: u64,
}

impl Model {
    fn send(&mut self, e: Event) {
        let mut comb = None;
        let dropped = match &e {
            Event::Key(k) => {
                comb = self.combiner.transform(*k);
                self.discard_raw && comb.is_none()
            }
            Event::Mouse(m) => {
                (self.discard_move && m.kind == MouseEventKind::Moved)
                    || (self.discard_drag && matches!(m.kind, MouseEventKind::Drag(_)))
            }
            _ => false,
        };
        if dropped {
            self.discarded += 1;
        } else {
            self.events.push((e, comb));
        }
    }
    fn see(&mut self, e: Event) {
        let start = KeyEvent::new(KeyCode::Char('_'), KeyModifiers::ALT);
        let end = KeyEvent::new(KeyCode::Char('\\'), KeyModifiers::ALT);
        match self.seq.take() {
            None => match e {
                Event::Key(k) if k.code == start.code && k.modifiers == start.modifiers => self.seq = Some(vec![k]),
                e => self.send(e),
            },
            Some(mut keys) => {
                if let Event::Key(k) = e {
                    if k.code == end.code && k.modifiers == end.modifiers {
                        keys.push(k);
                        self.seqs.push(keys);
                        return;
                    }
                    if !k.modifiers.intersects(KeyModifiers::ALT | KeyModifiers::CONTROL) {
                        keys.push(k);
                        self.seq = Some(keys);
                        return;
                    }
                }
                self.interrupted += 1;
                for k in keys {
                    self.send(Event::Key(k));
                }
                // it may start another sequence
                self.see(e);
            }
        }
    }
}

// ------------------------------------------------- the parent

struct Session {
    pty: Pty,
    child: Child,
    reader: BufReader<UnixStream>,
    writer: UnixStream,
    out: Vec<u8>,
}

impl Drop for Session {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Session {
    fn open() -> Result<Session, Viol> {
        let pty = Pty::open(80, 24)?;
        nonblock(pty.master.as_raw_fd());
        let (a, b) = UnixStream::pair().map_err(|e| Viol { sig: "HARNESS".into(), msg: e.to_string() })?;
        a.set_read_timeout(Some(Duration::from_secs(15))).unwrap();
        let mut c = child_command(None, "events", &json!({}), &pty);
        let dup = |fd: i32| unsafe { OwnedFd::from_raw_fd(libc::dup(fd)) };
        c.stdin(Stdio::from(dup(pty.slave.as_raw_fd())));
        c.stdout(Stdio::from(dup(pty.slave.as_raw_fd())));
        c.stderr(Stdio::piped());
        let bfd = b.as_raw_fd();
        unsafe {
            c.pre_exec(move || {
                if bfd == 3 {
                    libc::fcntl(3, libc::F_SETFD, 0);
                } else if libc::dup2(bfd, 3) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let child = c.spawn().map_err(|e| Viol { sig: "HARNESS".into(), msg: e.to_string() })?;
        Ok(Session {
            pty,
            child,
            reader: BufReader::new(a.try_clone().unwrap()),
            writer: a,
            out: Vec::new(),
        })
    }
    fn tell(&mut self, cmd: &Value) -> R {
        match writeln!(self.writer, "{cmd}") {
            Ok(()) => Ok(()),
            Err(_) => self.answer(cmd).map(|_| ()),
        }
    }
    fn ask(&mut self, cmd: Value) -> Result<Value, Viol> {
        self.tell(&cmd)?;
        self.answer(&cmd)
    }
    fn answer(&mut self, cmd: &Value) -> Result<Value, Viol> {
        let mut line = String::new();
        match self.reader.read_line(&mut line) {
            Ok(n) if n > 0 => Ok(serde_json::from_str(&line).unwrap()),
            r => {
                let _ = self.child.kill();
                let mut err = String::new();
                if let Some(mut e) = self.child.stderr.take() {
                    let _ = e.read_to_string(&mut err);
                }
                if let Some(p) = err.find("panicked at") {
                    return viol("panic in event source", format!("{cmd}: {}", &err[p..]));
                }
                viol("no answer", format!("no answer of the child to {cmd}: {r:?} {err}"))
            }
        }
    }
    fn read_master(&mut self) {
        let mut buf = [0u8; 4096];
        loop {
            let n = unsafe { libc::read(self.pty.master.as_raw_fd(), buf.as_mut_ptr() as *mut _, buf.len()) };
            if n <= 0 {
                break;
            }
            self.out.extend_from_slice(&buf[..n as usize]);
        }
    }
    fn type_bytes(&mut self, bytes: &[u8]) -> R {
        let mut sent = 0;
        let deadline = Instant::now() + Duration::from_secs(5);
        while sent < bytes.len() {
            let n = unsafe { libc::write(self.pty.master.as_raw_fd(), bytes[sent..].as_ptr() as *const _, bytes.len() - sent) };
            if n > 0 {
                sent += n as usize;
            } else if Instant::now() > deadline {
                return viol("HARNESS", "can't write on the pty".to_string());
            } else {
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        Ok(())
    }
    /// the program is documented as not using CPU when idle
    fn check_idle(&mut self, when: &str, obs: &mut Obs) -> R {
        let mut rep = Value::Null;
        for _ in 0..4 {
            rep = self.ask(json!({"c": "idle", "ms": 30}))?;
            let (cpu, wall) = (rep["cpu"].as_u64().unwrap_or(0), rep["wall"].as_u64().unwrap_or(0));
            obs.max("idle_cpu_us", cpu);
            if cpu < wall / 15 + 1000 {
                obs.ev("idle_measures", 1);
                return Ok(());
            }
        }
        viol("busy waiting", format!("microseconds used {when}: {rep}"))
    }
    fn wait_threads(&mut self, n: u64) -> R {
        let deadline = Instant::now() + Duration::from_secs(5);
        loop {
            let t = self.ask(json!({"c": "threads"}))?["threads"].as_u64().unwrap_or(0);
            if t <= n {
                return Ok(());
            }
            if Instant::now() > deadline {
                return viol("thread leak", format!("{t} threads instead of {n}, 5 s after quitting"));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}

/// the last left button release
#[derive(Clone, Copy)]
struct Up {
    x: u16,
    y: u16,
    t: u64,
    double: bool,
}

/// a source being used
struct Use<'s> {
    s: &'s mut Session,
    model: Model,
    received: usize,
    got_seqs: usize,
    last_up: Option<Up>,
    last_t: u64,
    /// an event was received and unblock not called
    blocked: bool,
    written: usize,
    size: (u16, u16),
}

impl Use<'_> {
    fn pending(&self) -> usize {
        self.model.events.len() - self.received
    }
    fn unblock(&mut self) -> R {
        if self.blocked {
            self.s.ask(json!({"c": "unblock", "q": false}))?;
            self.blocked = false;
        }
        Ok(())
    }
    fn receive(&mut self, obs: &mut Obs) -> R {
        self.unblock()?;
        receive_one(self.s, &self.model, &mut self.received, &mut self.last_up, &mut self.last_t, obs)?;
        self.blocked = true;
        Ok(())
    }
    /// receive all that was typed, and unblock
    fn receive_all(&mut self, obs: &mut Obs) -> R {
        while self.pending() > 0 {
            self.receive(obs)?;
        }
        self.unblock()
    }
    /// type something never discarded, and wait for it. After that, the source has nothing more to read
    fn mark(&mut self, obs: &mut Obs) -> Result<bool, Viol> {
        if self.model.seq.is_some() {
            return Ok(false);
        }
        let n = self.model.events.len();
        self.model.see(Event::FocusGained);
        self.s.type_bytes(b"\x1b[I")?;
        let sent = self.model.events.len() > n;
        self.receive_all(obs)?;
        Ok(sent)
    }
    fn read_seqs(&mut self, obs: &mut Obs) -> R {
        while self.got_seqs < self.model.seqs.len() {
            let rep = self.s.ask(json!({"c": "seq", "ms": 5000}))?;
            ensure!(rep["none"] != true, "sequence lost", "no escape sequence {:?}", self.model.seqs[self.got_seqs]);
            check_seq(&rep, &self.model, &mut self.got_seqs, obs)?;
        }
        Ok(())
    }
    /// type something which mustn't be mixed with other input
    fn alone(&mut self, t: &Value, obs: &mut Obs) -> R {
        if !self.mark(obs)? {
            return Ok(());
        }
        let v = t["v"].as_u64().unwrap_or(0);
        if t["t"] == "flood" {
            // more sequences than what can be kept
            self.read_seqs(obs)?;
            let n = 7 + v as usize % 8;
            let mut bytes = Vec::new();
            for i in 0..n {
                let c = (b'a' + (v as usize + i) as u8 % 26) as char;
                if i < 10 {
                    self.model.seqs.push(vec![
                        KeyEvent::new(KeyCode::Char('_'), KeyModifiers::ALT),
                        KeyEvent::new(KeyCode::Char(c), KeyModifiers::NONE),
                        KeyEvent::new(KeyCode::Char('\\'), KeyModifiers::ALT),
                    ]);
                }
                bytes.extend(format!("\u{1b}_{c}\u{1b}\\").into_bytes());
            }
            self.s.type_bytes(&bytes)?;
            ensure!(self.mark(obs)?, "HARNESS", "no mark");
            self.read_seqs(obs)?;
            let rep = self.s.ask(json!({"c": "seq", "ms": 0}))?;
            ensure!(rep["none"] == true, "unexpected sequence", "received {rep} after a flood of {n} sequences");
            obs.ev(if n > 10 { "overflowing_floods" } else { "floods" }, 1);
            return Ok(());
        }
        if t["t"] == "resize" || t["t"] == "seqresize" {
            if t["t"] == "seqresize" {
                // the resize comes in the middle of a sequence
                let keys: String = "x1 ;ab".chars().take(v as usize % 7).collect();
                self.model.see(key(KeyCode::Char('_'), KeyModifiers::ALT));
                for c in keys.chars() {
                    self.model.see(char_event(c));
                }
                self.s.type_bytes(format!("\u{1b}_{keys}").as_bytes())?;
                // wait for it to be read
                std::thread::sleep(Duration::from_millis(50));
                obs.ev("sequences_interrupted_by_resize", 1);
            }
            let mut c = 20 + v as u16 % 100;
            let r = 10 + v as u16 % 30;
            if (c, r) == self.size {
                c += 1;
            }
            self.size = (c, r);
            self.model.see(Event::Resize(c, r));
            self.s.pty.resize(c, r);
            obs.ev("resizes", 1);
        } else {
            let n = self.model.events.len();
            let (b, evs) = token(t);
            for e in evs {
                self.model.see(e);
            }
            self.s.type_bytes(&b)?;
            if self.model.events.len() == n {
                // wait for it to be read
                std::thread::sleep(Duration::from_millis(50));
            }
            obs.ev("lone_escapes", 1);
        }
        while self.pending() > 0 {
            self.receive(obs)?;
        }
        Ok(())
    }
    /// type the next tokens, up to n
    fn type_tokens(&mut self, tokens: &[Value], next: &mut usize, n: usize, obs: &mut Obs) -> R {
        let mut bytes = Vec::new();
        for _ in 0..n {
            let Some(t) = tokens.get(*next) else { break };
            if solo(t) {
                if bytes.is_empty() {
                    *next += 1;
                    self.alone(t, obs)?;
                }
                break;
            }
            let (b, evs) = token(t);
            if self.written + bytes.len() + b.len() > 900 {
                *next = tokens.len();
                break;
            }
            *next += 1;
            if self.model.seqs.len() - self.got_seqs >= 9 && t["t"] == "seqend" {
                continue;
            }
            for e in evs {
                self.model.see(e);
            }
            bytes.extend(b);
        }
        if !bytes.is_empty() {
            obs.max("bytes_in_burst", bytes.len() as u64);
            obs.ev("bursts", 1);
            self.written += bytes.len();
            self.s.type_bytes(&bytes)?;
        }
        Ok(())
    }
}

fn run_session(case: &Value, obs: &mut Obs) -> R {
    let mut session = Session::open()?;
    let before = session.pty.termios()?;
    let threads0 = session.ask(json!({"c": "threads"}))?["threads"].as_u64().unwrap_or(0);
    let mut size = (80, 24);
    for (isrc, src) in arr(&case["sources"]).iter().enumerate() {
        let opts = &src["opts"];
        let is_default = opts["default"] == true;
        let combine = !is_default && opts["combine_keys"] == true;
        let kitty = src["kitty"].as_u64().unwrap_or(0);
        session.read_master();
        session.out.clear();
        let new = json!({"c": "new", "opts": opts});
        let rep = if combine {
            session.tell(&new)?;
            // play the part of the terminal
            let deadline = Instant::now() + Duration::from_secs(10);
            let asked = loop {
                session.read_master();
                if session.out.windows(3).any(|w| w == b"\x1b[c") {
                    break true;
                }
                if Instant::now() > deadline {
                    break false;
                }
                std::thread::sleep(Duration::from_millis(1));
            };
            ensure!(asked, "no kitty query", "the terminal isn't asked whether it's able to combine keys: {:?}", String::from_utf8_lossy(&session.out));
            match kitty % 8 {
                0 => {} // never answers
                1 | 2 => session.type_bytes(b"\x1b[?1;2c")?,
                _ => session.type_bytes(b"\x1b[?0u\x1b[?1;2c")?,
            }
            session.answer(&new)?
        } else {
            session.ask(new)?
        };
        if combine && kitty % 8 == 0 {
            obs.ev("mute_terminals", 1);
            ensure!(rep["ok"] != true || rep["multi"] == false, "combining", "combining with a terminal not answering");
            if rep["ok"] != true {
                let after = session.pty.termios()?;
                ensure!(after == before, "terminal not restored", "no event source ({rep}) but terminal modes are {after:?} instead of {before:?}");
                session.wait_threads(threads0)?;
                obs.ev("failed_sources", 1);
                continue;
            }
        }
        ensure!(rep["ok"] == true, "HARNESS", "no event source: {rep}");
        let multi = combine && kitty % 8 >= 3;
        ensure!(rep["multi"] == multi, "combining", "multi key combinations support is {} with combine={combine} and kitty={kitty}", rep["multi"]);
        if multi {
            obs.ev("combining_sources", 1);
        }
        obs.ev("sources", 1);
        if isrc > 0 {
            obs.ev("sources_after_quit", 1);
        }
        let raw = session.pty.termios()?;
        ensure!(
            raw.3 & (libc::ICANON | libc::ECHO) == 0,
            "not raw",
            "the terminal isn't in raw mode with an event source"
        );
        let mut model = Model {
            discard_raw: is_default || opts["discard_raw"].as_bool().unwrap_or(true),
            discard_move: is_default || opts["discard_move"].as_bool().unwrap_or(true),
            discard_drag: !is_default && opts["discard_drag"].as_bool().unwrap_or(false),
            ..Default::default()
        };
        model.combiner.set_mandate_modifier_for_multiple_keys(is_default || opts["mandate"].as_bool().unwrap_or(true));
        if multi {
            model.combiner.set_keyboard_enhancement_flags_externally_managed();
            model.combiner.enable_combining().unwrap();
        }
        let tokens = arr(&src["tokens"]);
        let quit_after = src["quit_after"].as_u64().map(|n| n as usize);
        let mut has_quit = false;
        let mut next = 0;
        let mut u = Use {
            s: &mut session,
            model,
            received: 0,
            got_seqs: 0,
            last_up: None,
            last_t: 0,
            blocked: false,
            written: 0,
            size,
        };
        for act in arr(&src["acts"]) {
            let n = act[1].as_u64().unwrap_or(1) as usize;
            match act[0].as_u64().unwrap_or(0) {
                0 => u.type_tokens(tokens, &mut next, n, obs)?,
                1 => {
                    for _ in 0..n.min(u.pending()) {
                        u.receive(obs)?;
                        if quit_after.map_or(false, |q| u.received >= q) {
                            has_quit = true;
                            break;
                        }
                    }
                }
                2 => {
                    // most consumers unblock immediately
                    u.unblock()?;
                    std::thread::sleep(Duration::from_millis(n as u64 % 1000));
                }
                3 => {
                    // nothing more until unblocked
                    if u.blocked {
                        let rep = u.s.ask(json!({"c": "recv", "ms": n % 40}))?;
                        ensure!(rep["none"].is_boolean(), "event while blocked", "received {rep} before having unblocked the source");
                        obs.ev("silences_while_blocked", 1);
                        if n % 3 == 0 {
                            u.s.check_idle("while blocked", obs)?;
                        }
                        if u.pending() > 0 {
                            obs.ev("silences_with_pending_input", 1);
                        }
                        if n % 2 == 0 {
                            u.unblock()?;
                        }
                    }
                }
                4 => {
                    let rep = u.s.ask(json!({"c": "seq", "ms": 0}))?;
                    if rep["none"] != true {
                        check_seq(&rep, &u.model, &mut u.got_seqs, obs)?;
                    }
                }
                _ => {
                    if u.blocked {
                        let c = u.s.ask(json!({"c": "count"}))?["count"].as_u64();
                        ensure!(c == Some(u.received as u64), "event count", "count is {c:?} after {} events", u.received);
                        obs.ev("counts", 1);
                    }
                }
            }
            if has_quit {
                break;
            }
        }
        if !has_quit {
            while next < tokens.len() {
                u.type_tokens(tokens, &mut next, 1000, obs)?;
                u.receive_all(obs)?;
                if u.model.seq.is_none() {
                    u.read_seqs(obs)?;
                }
            }
            u.receive_all(obs)?;
            u.read_seqs(obs)?;
            let rep = u.s.ask(json!({"c": "recv", "ms": 20}))?;
            ensure!(rep["none"].is_boolean(), "unexpected event", "received {rep} while all was received");
            let rep = u.s.ask(json!({"c": "seq", "ms": 0}))?;
            ensure!(rep["none"] == true, "unexpected sequence", "received {rep} while all was received");
            if u.received % 3 == 0 {
                u.s.check_idle("while there's nothing to read", obs)?;
            }
            let c = u.s.ask(json!({"c": "count"}))?["count"].as_u64();
            ensure!(c == Some(u.received as u64), "event count", "count is {c:?} after {} events", u.received);
            // a last event to quit. An interrupted sequence is given before it
            u.model.see(Event::FocusLost);
            u.s.type_bytes(b"\x1b[O")?;
            u.receive(obs)?;
            while u.pending() > 0 {
                u.receive(obs)?;
            }
        } else if u.pending() > 0 {
            obs.ev("quits_with_pending_input", 1);
        }
        obs.ev("interrupted_sequences", u.model.interrupted);
        obs.ev("discarded_events", u.model.discarded);
        size = u.size;
        let unread = src["drop_unread"] == true && !has_quit;
        if unread {
            // an event sent by the source and never received
            u.unblock()?;
            u.s.type_bytes(b"\x1b[O")?;
            let deadline = Instant::now() + Duration::from_secs(10);
            loop {
                let c = u.s.ask(json!({"c": "count"}))?["count"].as_u64();
                if c == Some(u.received as u64 + 1) {
                    break;
                }
                ensure!(Instant::now() < deadline, "event lost", "count is {c:?} after {} events and a focus loss", u.received);
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        let (received, blocked) = (u.received, u.blocked);
        let s = u.s;
        if unread {
            s.ask(json!({"c": "drop"}))?;
            obs.ev("drops_with_unread_event", 1);
        } else if src["just_drop"] == true && blocked {
            // the source is dropped with neither unblocking nor quitting: there's
            // nobody to unblock it anymore
            s.ask(json!({"c": "drop"}))?;
            obs.ev("drops_while_blocked", 1);
        } else {
            s.ask(json!({"c": "unblock", "q": true}))?;
            obs.ev("quits", 1);
        }
        s.wait_threads(threads0)?;
        obs.ev("ended_threads", 1);
        if src["type_after_quit"] == true {
            s.type_bytes(b"xyz")?;
        }
        if unread {
            s.ask(json!({"c": "recv", "ms": 0}))?;
        }
        let rep = s.ask(json!({"c": "recv", "ms": 20}))?;
        ensure!(rep["none"].is_boolean(), "event after quit", "received {rep} after having quit");
        s.ask(json!({"c": "drop"}))?;
        let after = s.pty.termios()?;
        ensure!(after == before, "terminal not restored", "terminal modes are {after:?} instead of {before:?} after the drop");
        obs.ev("restored_terminals", 1);
        s.read_master();
        let count = |pat: &[u8], end: u8| {
            s.out
                .windows(pat.len())
                .enumerate()
                .filter(|(i, w)| {
                    *w == pat && s.out[i + pat.len()..].iter().find(|b| !b.is_ascii_digit()) == Some(&end)
                })
                .count()
        };
        let (pushed, popped) = (count(b"\x1b[>", b'u'), count(b"\x1b[<", b'u'));
        ensure!(
            pushed == multi as usize && popped == pushed,
            "keyboard flags",
            "keyboard flags pushed {pushed} times and popped {popped} times, combining={multi}: {:?}",
            String::from_utf8_lossy(&s.out)
        );
        obs.max("events_of_a_source", received as u64);
        if received > 3 {
            obs.nontrivial(hash_str(&src.to_string()));
        }
        if has_quit || src["type_after_quit"] == true {
            // unread events are kept in crossterm: don't go on
            break;
        }
    }
    Ok(())
}

fn check_seq(rep: &Value, model: &Model, got: &mut usize, obs: &mut Obs) -> R {
    ensure!(*got < model.seqs.len(), "unexpected sequence", "sequence {rep} wasn't typed");
    let keys: Vec<String> = model.seqs[*got].iter().map(|k| format!("{k:?}")).collect();
    ensure!(rep["keys"] == json!(keys), "other sequence", "sequence {} instead of {keys:?}", rep["keys"]);
    let str: String = model.seqs[*got]
        .iter()
        .filter_map(|k| match k.code {
            KeyCode::Char(c) if k.modifiers == KeyModifiers::NONE => Some(c),
            _ => None,
        })
        .collect();
    ensure!(rep["str"] == json!(str), "sequence text", "sequence displayed {} instead of {str:?}", rep["str"]);
    *got += 1;
    obs.ev("sequences", 1);
    Ok(())
}

fn receive_one(s: &mut Session, model: &Model, received: &mut usize, last_up: &mut Option<Up>, last_t: &mut u64, obs: &mut Obs) -> R {
    let (exp, comb) = &model.events[*received];
    let rep = s.ask(json!({"c": "recv", "ms": 5000}))?;
    ensure!(
        rep["ev"].is_string(),
        "event lost",
        "event {} isn't received: {exp:?} (disconnected: {})",
        *received,
        rep["none"]
    );
    ensure!(rep["ev"] == json!(format!("{exp:?}")), "other event", "event {} is {} instead of {exp:?}", *received, rep["ev"]);
    *received += 1;
    obs.ev("events", 1);
    let t = rep["t"].as_u64().unwrap_or(0);
    let now = rep["now"].as_u64().unwrap_or(0);
    ensure!(t >= *last_t && t <= now, "event time", "event at {t} µs, after an event at {last_t} µs, received at {now} µs");
    *last_t = t;
    let double = rep["double"] == true;
    match exp {
        Event::Key(k) => {
            ensure!(!double, "double click", "a key is flagged as double click");
            let comb = json!(comb.map(|c| format!("{c:?}")));
            ensure!(rep["comb"] == comb, "key combination", "combination {} instead of {comb} for {k:?}", rep["comb"]);
            if comb != Value::Null && comb != json!(format!("{:?}", KeyCombination::from(*k))) {
                obs.ev("real_combinations", 1);
            }
            ensure!(rep["is_key"] == true && rep["is_other"] == false, "is_key", "is_key is wrong for {k:?}");
            obs.ev("keys", 1);
            if k.kind != KeyEventKind::Press {
                obs.ev("raw_keys", 1);
            }
        }
        Event::Mouse(m) => {
            obs.ev("mouse_events", 1);
            ensure!(rep["comb"] == Value::Null, "key combination", "a mouse event has a combination");
            let left = matches!(m.kind, MouseEventKind::Down(MouseButton::Left) | MouseEventKind::Up(MouseButton::Left));
            let mut may = (false, false); // can be simple, can be double
            match last_up {
                Some(up) if left && up.x == m.column && up.y == m.row => {
                    let dt = t.saturating_sub(up.t) / 1000;
                    may = (dt > 600 || up.double, dt < 800);
                    if dt < 600 && !up.double {
                        obs.ev("double_clicks", 1);
                    }
                    if dt > 800 {
                        obs.ev("too_slow_double_clicks", 1);
                    }
                }
                _ => may.0 = true,
            }
            ensure!(
                if double { may.1 } else { may.0 },
                "double click",
                "{m:?} at {t} µs is {} a double click but the last release was at {:?}",
                if double { "flagged" } else { "not flagged" },
                last_up.map(|u| (u.x, u.y, u.t, u.double))
            );
            if m.kind == MouseEventKind::Up(MouseButton::Left) {
                *last_up = Some(Up { x: m.column, y: m.row, t, double });
            }
            let click = if m.kind == MouseEventKind::Up(MouseButton::Left) && m.modifiers == KeyModifiers::NONE && !double {
                json!([m.column, m.row])
            } else {
                Value::Null
            };
            ensure!(rep["click"] == click, "as_click", "as_click gives {} instead of {click} for {m:?}, double={double}", rep["click"]);
        }
        _ => {
            ensure!(!double && rep["comb"] == Value::Null && rep["click"] == Value::Null, "decorated event", "{exp:?} is {rep}");
            obs.ev("other_events", 1);
        }
    }
    Ok(())
}

pub struct C22;

impl Check for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "a child process with one or several successive event sources on a pseudo terminal in which random bursts of keys, mouse reports, pastes, focus changes, complete or interrupted escape sequences and resizes are typed, while it receives events, unblocks or waits in random order, then quits with or without pending input; non trivial when a source delivered more than 3 events"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "events are read from the terminal by crossterm (bursts below 1000 bytes, complete encodings in one write)",
            "unblock is called once per received event",
            "clicks spaced by 600 to 800 ms, and clicks following a double click, may be flagged or not",
            "a violation is reported only when seen at least twice in 7 executions of the session",
        ]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 1_200 } else { 60_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &[
            "idle_measures", "events", "keys", "raw_keys", "mouse_events", "double_clicks", "too_slow_double_clicks", "sequences", "interrupted_sequences",
            "discarded_events", "silences_with_pending_input", "quits_with_pending_input", "ended_threads", "restored_terminals",
            "sources_after_quit", "combining_sources", "real_combinations", "mute_terminals", "overflowing_floods", "resizes", "lone_escapes", "counts",
            "sequences_interrupted_by_resize", "drops_while_blocked", "drops_with_unread_event",
        ]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let n = if r.chance(1, 4) { 2 } else { 1 };
        let mut sources = Vec::new();
        for _ in 0..n {
            let mut tokens = Vec::new();
            let slow = r.chance(1, 12);
            for _ in 0..r.range(1, if slow { 6 } else { 20 }) {
                gen_token(r, &mut tokens);
            }
            let mut acts = Vec::new();
            if slow {
                // slow clicks at the same place
                tokens.clear();
                let (x, y) = (r.below(30), r.below(20));
                let mut clicks = Vec::new();
                for _ in 0..2 {
                    for k in [0, 2] {
                        clicks.push(json!({"t": "mouse", "x": x, "y": y, "b": 0, "k": k, "m": 0}));
                    }
                }
                tokens.extend(clicks);
                acts = vec![json!([0, 2]), json!([1, 2]), json!([2, *r.pick(&[300, 850, 850, 900])]), json!([0, 2]), json!([1, 2])];
            } else {
                for _ in 0..r.below(30) {
                    acts.push(match r.below(12) {
                        0..=3 => json!([0, *r.pick(&[1, 1, 2, 5, 20])]),
                        4..=6 => json!([1, *r.pick(&[1, 1, 2, 5, 20])]),
                        7 => json!([2, r.below(4)]),
                        8 | 9 => json!([3, r.below(12)]),
                        10 => json!([4, 0]),
                        _ => json!([5, 0]),
                    });
                }
            }
            let combining = !slow && r.chance(1, 4);
            if combining {
                // chords
                for _ in 0..r.range(1, 8) {
                    let m = *r.pick(&[0, 0, 0, 2, 4, 5]);
                    let shift = r.chance(1, 6);
                    let keys: Vec<&str> = (0..r.range(1, 4)).map(|_| *r.pick(&["a", "b", "c", " "])).collect();
                    let mut chord = Vec::new();
                    for k in [0, 2] {
                        if shift {
                            chord.push(json!({"t": "csiu", "v": "S", "k": k, "m": 0}));
                        }
                        for c in &keys {
                            chord.push(json!({"t": "csiu", "v": c, "k": k, "m": m}));
                            if k == 0 && r.chance(1, 5) {
                                chord.push(json!({"t": "csiu", "v": c, "k": 1, "m": m}));
                            }
                        }
                    }
                    let at = r.below(tokens.len() + 1);
                    tokens.splice(at..at, chord);
                }
            }
            let quit_after = if r.chance(1, 6) { json!(r.range(1, 8)) } else { Value::Null };
            let opts = if !combining && r.chance(1, 3) {
                json!({"default": true})
            } else {
                json!({"combine_keys": combining, "discard_raw": r.bool(), "discard_move": r.bool(), "discard_drag": r.bool(), "mandate": r.bool()})
            };
            sources.push(json!({
                "opts": opts,
                "kitty": if r.chance(1, 15) { 0 } else { r.range(1, 7) },
                "tokens": tokens,
                "acts": acts,
                "quit_after": quit_after,
                "type_after_quit": r.chance(1, 4),
                "just_drop": r.chance(1, 4),
                "drop_unread": r.chance(1, 8),
            }));
        }
        json!({"sources": sources})
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let first = match run_session(case, obs) {
            Ok(()) => return Ok(()),
            Err(v) if v.sig == "HARNESS" => return Err(v),
            Err(v) => v,
        };
        let mut scrap = Obs::default();
        for _ in 0..6 {
            if let Err(v) = run_session(case, &mut scrap) {
                if v.sig == "HARNESS" {
                    continue;
                }
                return Err(v);
            }
        }
        obs.ev("unreproduced", 1);
        obs.sample(json!({"unreproduced": first.msg, "case": case}));
        Ok(())
    }
}
