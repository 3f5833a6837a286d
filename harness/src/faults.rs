//! C30: write failures are reported. Faults are injected in the writers given
//! to all the functions taking one, and in the standard output of children.

use {
    crate::{core::*, gen::*, ptys::*, render::*, stdio::*, writing::*},
    serde_json::{json, Value},
    std::{
        io::{self, Write},
        os::fd::FromRawFd,
    },
    termimad::{
        crossterm::{
            style::Color,
            terminal::ClearType,
        },
        minimad::Composite,
        *,
    },
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// all the writes fail after the accepted bytes
    Permanent(io::ErrorKind),
    /// only one write fails
    Transient,
    /// the writer accepts nothing more but doesn't return an error
    Zero,
    /// flushing fails, writing doesn't
    Flush,
}

/// A writer failing when it should accept more than some bytes
struct Faulty {
    accepted: usize,
    mode: Mode,
    written: Vec<u8>,
    failures: usize,
    flushes: usize,
}

impl Faulty {
    fn new(accepted: usize, mode: Mode) -> Self {
        Faulty { accepted, mode, written: Vec::new(), failures: 0, flushes: 0 }
    }
}

impl Write for Faulty {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let left = self.accepted.saturating_sub(self.written.len());
        if left == 0 {
            match self.mode {
                Mode::Permanent(kind) => {
                    self.failures += 1;
                    return Err(io::Error::new(kind, "injected failure"));
                }
                Mode::Transient => {
                    self.failures += 1;
                    self.accepted = usize::MAX;
                    return Err(io::Error::new(io::ErrorKind::Other, "injected failure"));
                }
                Mode::Zero => {
                    self.failures += 1;
                    return Ok(0);
                }
                Mode::Flush => {}
            }
        }
        let n = if self.mode == Mode::Flush { buf.len() } else { left.min(buf.len()) };
        self.written.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.mode == Mode::Flush {
            self.failures += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "injected failure"));
        }
        Ok(())
    }
}

/// A writer accepting only a few bytes at each call, sometimes interrupted
struct Slow {
    rng: Rng,
    max: usize,
    written: Vec<u8>,
    calls: usize,
    interruptions: usize,
    interrupted: bool,
}

impl Write for Slow {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if !self.interrupted && self.rng.chance(1, 4) {
            self.interrupted = true;
            self.interruptions += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        self.interrupted = false;
        let n = self.rng.range(1, self.max).min(buf.len());
        self.written.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

type Draw<'a> = &'a dyn Fn(&mut dyn Write) -> Result<(), Error>;

/// functions given a writer, and whether they're documented as not flushing
static FS: &[(&str, bool)] = &[
    ("write_text_on", false),
    ("write_inline_on", false),
    ("write_composite", false),
    ("write_composite_fill", false),
    ("write_in_area_on", true),
    ("template", false),
    ("text_view", false),
    ("mad_view", false),
    ("list_view", false),
    ("input", true),
    ("rect", false),
    ("crop_writer", false),
    ("filling", false),
    ("fill_bg", false),
    ("styled_char", false),
    ("compound_style", false),
    ("spacing", false),
    ("tokens", false),
];

fn cs(op: &Value) -> CompoundStyle {
    rand_cs(&mut Rng::new(op["style"].as_u64().unwrap_or(1)))
}

/// build what's to be drawn then give the drawing function
fn with_draw(op: &Value, skin: &MadSkin, f: &mut dyn FnMut(Draw<'_>) -> R) -> R {
    let a = st(&op["a"]);
    let n = u(op, "n");
    match st(&op["f"]) {
        "write_text_on" => f(&|mut w| skin.write_text_on(&mut w, a)),
        "write_inline_on" => f(&|mut w| skin.write_inline_on(&mut w, a)),
        "write_composite" => f(&|mut w| skin.write_composite(&mut w, Composite::from_inline(a))),
        "write_composite_fill" => f(&|mut w| {
            skin.write_composite_fill(&mut w, Composite::from_inline(a), n, align_k(n as u64))
        }),
        "write_in_area_on" => f(&|mut w| skin.write_in_area_on(&mut w, a, &area_of(op))),
        "template" => {
            let i = u(op, "i") % TPLS.len();
            let vals = vec![a.to_string(), n.to_string()];
            f(&|mut w| write_tpl(i, &mut w, skin, &vals))
        }
        "text_view" => {
            let area = area_of(op);
            let t = skin.area_text(a, &area);
            let mut v = TextView::from(&area, &t);
            v.show_scrollbar = n % 3 > 0;
            v.try_scroll_lines(n as i32);
            f(&|mut w| v.write_on(&mut w))
        }
        "mad_view" => {
            let mut v = MadView::from(a.to_string(), area_of(op), skin.clone());
            v.try_scroll_lines(n as i32);
            f(&|mut w| v.write_on(&mut w))
        }
        "list_view" => {
            let l = list_of(skin, op);
            f(&|mut w| l.write_on(&mut w))
        }
        "input" => {
            let mut i = input_of(op);
            i.set_focus(n % 3 > 0);
            f(&|mut w| {
                i.display_on(&mut w)?;
                Ok(())
            })
        }
        "rect" => {
            let mut r = Rect::new(area_of(op), cs(op));
            r.set_fill(n % 2 == 0);
            r.set_border_style([BORDER_STYLE_BLAND, BORDER_STYLE_MIDDLE_ROUND_LINE, BORDER_STYLE_HALF_WIDTH_OUTSIDE][n % 3]);
            f(&|mut w| r.draw(&mut w))
        }
        "crop_writer" => f(&|mut w| {
            let mut cw = CropWriter::new(&mut w, u(op, "limit"));
            for o in arr(&op["ops"]) {
                let cs = cs(o);
                let s = st(&o["s"]);
                let n = u(o, "n");
                match u(o, "k") {
                    0 => cw.queue_str(&cs, s)?,
                    1 => cw.queue_unstyled_str(s)?,
                    2 => cw.queue_char(&cs, s.chars().next().unwrap_or('a'))?,
                    3 => cw.queue_unstyled_char(s.chars().next().unwrap_or('a'))?,
                    4 => cw.queue_g_string(&cs, "gentle".to_string())?,
                    5 => cw.queue_unstyled_g_string("gentle".to_string())?,
                    6 => cw.repeat(&cs, filling(n), n)?,
                    7 => cw.repeat_unstyled(filling(n), n)?,
                    8 => cw.queue_fg(&cs)?,
                    9 => cw.queue_bg(&cs)?,
                    10 => cw.fill(&cs, filling(n))?,
                    11 => cw.fill_unstyled(filling(n))?,
                    _ => cw.fill_with_space(&cs)?,
                }
            }
            Ok(())
        }),
        "filling" => {
            let cs = cs(op);
            let len = u(op, "len");
            f(&|mut w| match n % 2 {
                0 => filling(n).queue_styled(&mut w, &cs, len),
                _ => filling(n).queue_unstyled(&mut w, len),
            })
        }
        "fill_bg" => f(&|mut w| fill_bg(&mut w, u(op, "len"), Color::AnsiValue(3))),
        "styled_char" => {
            let sc = StyledChar::new(cs(op), a.chars().next().unwrap_or('x'));
            f(&|mut w| {
                sc.queue(&mut w)?;
                sc.queue_repeat(&mut w, n)
            })
        }
        "compound_style" => {
            let cs = cs(op);
            f(&|mut w| {
                cs.queue_fg(&mut w)?;
                cs.queue_bg(&mut w)?;
                cs.queue(&mut w, n)?;
                cs.queue_str(&mut w, a)?;
                cs.clear(&mut w, ClearType::UntilNewLine)
            })
        }
        "spacing" => {
            let cs = cs(op);
            let sp = Spacing { width: n * 3, align: align_k(n as u64) };
            f(&|mut w| {
                sp.write_str(&mut w, "some text", &cs)?;
                sp.write_counted_str(&mut w, "bits", 4, &cs)
            })
        }
        "tokens" => {
            let mut tokens = Vec::new();
            skin.headers[n % 8].push_style_tokens(&mut tokens);
            cs(op).push_style_tokens(&mut tokens);
            f(&|mut w| Ok(write_style_tokens(&mut w, &tokens)?))
        }
        o => viol("HARNESS", format!("no function {o}")),
    }
}

fn input_of(op: &Value) -> InputField {
    let mut i = InputField::new(area_of(op));
    if op["lines"] == true {
        i.new_line_on(InputField::ENTER);
    }
    i.set_str(st(&op["a"]));
    for _ in 0..u(op, "n") {
        i.move_left();
    }
    i
}

fn check_faults(op: &Value, skin: &MadSkin, case: &Value, obs: &mut Obs) -> R {
    let name = st(&op["f"]).to_string();
    let no_flush = FS.iter().any(|f| f.0 == name && f.1);
    let mut r = Rng::new(case["cuts"].as_u64().unwrap_or(0) ^ hash_str(&op.to_string()));
    with_draw(op, skin, &mut |draw: Draw<'_>| {
        let mut full: Vec<u8> = Vec::new();
        if let Err(e) = draw(&mut full) {
            return viol("error without cause", format!("{name}: {e} with a writer which never fails"));
        }
        obs.ev(&format!("f_{name}"), 1);
        // where it fails
        let mut cuts: Vec<usize> = if full.len() <= 16 {
            (0..=full.len()).collect()
        } else {
            let mut v = vec![0, 1, full.len() - 1, full.len()];
            for _ in 0..8 {
                v.push(r.below(full.len()));
            }
            // at the limits of the escape sequences
            let esc: Vec<usize> = (0..full.len()).filter(|i| full[*i] == 0x1b || full[*i] == b'm' || full[*i] == b'\n').collect();
            for _ in 0..6.min(esc.len()) {
                v.push(*r.pick(&esc) + r.below(2));
            }
            v
        };
        cuts.sort_unstable();
        cuts.dedup();
        for k in cuts {
            let mode = match r.below(8) {
                0 => Mode::Zero,
                1..=3 => Mode::Transient,
                4 => Mode::Permanent(io::ErrorKind::BrokenPipe),
                5 => Mode::Permanent(io::ErrorKind::WouldBlock),
                _ => Mode::Permanent(io::ErrorKind::Other),
            };
            let mut w = Faulty::new(k, mode);
            let res = draw(&mut w);
            let what = format!("{name} on a writer accepting {k} of the {} bytes ({mode:?})", full.len());
            obs.ev("faulty_drawings", 1);
            if w.failures == 0 {
                ensure!(k >= full.len(), "less written", "{what}: {} bytes written and no failure met", w.written.len());
                if let Err(e) = res {
                    return viol("error without cause", format!("{what}: {e}"));
                }
                ensure!(w.written == full, "other bytes", "{what}: other bytes than on a good writer");
                continue;
            }
            match res {
                Ok(()) => return viol("failure not reported", format!("{what}: the error of the writer isn't returned")),
                Err(Error::IO(e)) => {
                    let ok = match mode {
                        Mode::Zero => e.kind() == io::ErrorKind::WriteZero,
                        Mode::Permanent(kind) => e.kind() == kind && e.to_string() == "injected failure",
                        _ => e.kind() == io::ErrorKind::Other && e.to_string() == "injected failure",
                    };
                    ensure!(ok, "other error", "{what}: the returned error is {e:?}");
                }
                Err(e) => return viol("other error", format!("{what}: the returned error is {e:?}")),
            }
            ensure!(
                w.written.len() == k && w.written[..] == full[..k],
                "writes after a failure",
                "{what}: {} bytes written: {:?}",
                w.written.len(),
                String::from_utf8_lossy(&w.written)
            );
            obs.ev("failures_reported", 1);
            obs.state("failure_points", hash_str(&name) ^ mix(k as u64));
        }
        // a failed drawing has no consequence on the next one
        let mut again: Vec<u8> = Vec::new();
        let ok = draw(&mut again).is_ok();
        ensure!(ok && again == full, "redrawing", "{name}: not the same drawing after a failed one");
        // partial writes and interruptions
        let mut w = Slow { rng: Rng::new(r.u64()), max: r.range(1, 9), written: Vec::new(), calls: 0, interruptions: 0, interrupted: false };
        if let Err(e) = draw(&mut w) {
            return viol("error without cause", format!("{name}: {e} on a writer which is only slow and interrupted"));
        }
        ensure!(w.written == full, "other bytes", "{name}: other bytes on a slow writer");
        obs.ev("slow_drawings", 1);
        obs.ev("interruptions", w.interruptions as u64);
        // flushing
        let mut w = Faulty::new(usize::MAX, Mode::Flush);
        let res = draw(&mut w);
        ensure!(!no_flush || w.flushes == 0, "flushes", "{name} is documented as not flushing");
        ensure!(
            res.is_err() == (w.failures > 0),
            "failure not reported",
            "{name}: {} failed flushes but the result is {res:?}",
            w.failures
        );
        ensure!(w.failures > 0 || w.written == full, "other bytes", "{name}: other bytes than on a good writer");
        Ok(())
    })
}

// ------------------------------------------------- functions writing on stdout

static STDOUT_FS: &[&str] = &["write_text", "write_inline", "write_in_area", "text_view", "mad_view", "list_view", "input"];

/// call a function writing on stdout
fn write_stdout(op: &Value, skin: &MadSkin) -> Result<(), Error> {
    let a = st(&op["a"]);
    match st(&op["f"]) {
        "write_text" => skin.write_text(a),
        "write_inline" => skin.write_inline(a),
        "write_in_area" => skin.write_in_area(a, &area_of(op)),
        "text_view" => {
            let area = area_of(op);
            let t = skin.area_text(a, &area);
            TextView::from(&area, &t).write()
        }
        "mad_view" => MadView::from(a.to_string(), area_of(op), skin.clone()).write(),
        "list_view" => list_of(skin, op).write(),
        _ => {
            input_of(op).display()?;
            Ok(())
        }
    }
}

fn open(path: &str) -> i32 {
    let p = std::ffi::CString::new(path).unwrap();
    unsafe { libc::open(p.as_ptr(), libc::O_RDWR) }
}

/// main function of the child: it replaces its standard output
pub fn child_faults(job: &Value) -> i32 {
    termimad::crossterm::style::force_color_output(true);
    let skin = skin(job["skin"].as_u64().unwrap_or(0));
    let full = open("/dev/full");
    let null = open("/dev/null");
    let reports_fd = unsafe { libc::dup(1) };
    if full < 0 || null < 0 || reports_fd < 0 {
        eprintln!("HARNESS: no /dev/full or /dev/null");
        return 3;
    }
    let mut reports = unsafe { std::fs::File::from_raw_fd(reports_fd) };
    for op in arr(&job["ops"]) {
        let name = std::ffi::CString::new("out").unwrap();
        // what has been really written when the function returns
        let mem = unsafe { libc::memfd_create(name.as_ptr(), 0) };
        if mem < 0 {
            eprintln!("HARNESS: memfd");
            return 3;
        }
        unsafe { libc::dup2(mem, 1) };
        let res = write_stdout(op, &skin);
        let size = unsafe { libc::lseek(mem, 0, libc::SEEK_END) };
        let _ = io::stdout().flush();
        let total = unsafe { libc::lseek(mem, 0, libc::SEEK_END) };
        unsafe { libc::close(mem) };
        // the same with no room
        unsafe { libc::dup2(full, 1) };
        let failed = write_stdout(op, &skin);
        unsafe { libc::dup2(null, 1) };
        let _ = io::stdout().flush();
        let kind = |r: &Result<(), Error>| match r {
            Ok(()) => "ok".to_string(),
            Err(Error::IO(e)) => format!("{:?}", e.kind()),
            Err(e) => format!("{e:?}"),
        };
        let rep = json!({"res": kind(&res), "size": size, "total": total, "failed": kind(&failed)});
        if writeln!(reports, "{rep}").is_err() {
            return 3;
        }
    }
    0
}

fn check_stdout(case: &Value, skin: &MadSkin, obs: &mut Obs) -> R {
    let ops: Vec<Value> = arr(&case["stdout"]).iter().filter(|op| parse_ok(st(&op["a"])).is_some()).cloned().collect();
    if ops.is_empty() {
        return Ok(());
    }
    let cols = 40;
    let job = json!({"skin": case["skin"], "ops": ops});
    let o = run_child("faults", &job, cols, 20, None)?;
    check_end(&o, "writing on a failing stdout")?;
    obs.ev("children", 1);
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let reps: Vec<Value> = out.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    ensure!(reps.len() == ops.len(), "HARNESS", "{} reports for {} ops", reps.len(), ops.len());
    for (op, rep) in ops.iter().zip(&reps) {
        let f = st(&op["f"]);
        obs.ev(&format!("out_{f}"), 1);
        let mut buf: Vec<u8> = Vec::new();
        let a = st(&op["a"]);
        match f {
            "write_text" => buf.extend(FmtText::from(skin, a, Some(cols as usize)).to_string().bytes()),
            "write_inline" => skin.write_inline_on(&mut buf, a).unwrap(),
            "write_in_area" => skin.write_in_area_on(&mut buf, a, &area_of(op)).unwrap(),
            "text_view" => {
                let area = area_of(op);
                let t = skin.area_text(a, &area);
                TextView::from(&area, &t).write_on(&mut buf).unwrap()
            }
            "mad_view" => MadView::from(a.to_string(), area_of(op), skin.clone()).write_on(&mut buf).unwrap(),
            "list_view" => list_of(skin, op).write_on(&mut buf).unwrap(),
            _ => {
                input_of(op).display_on(&mut buf).unwrap();
            }
        }
        ensure!(st(&rep["res"]) == "ok", "error without cause", "{f} on a good stdout: {rep}");
        ensure!(
            u(rep, "total") == buf.len(),
            "other bytes",
            "{f} wrote {} bytes on stdout instead of {}",
            rep["total"],
            buf.len()
        );
        ensure!(
            u(rep, "size") == buf.len(),
            "not flushed",
            "{f}: only {} of the {} bytes are on stdout when it returns",
            rep["size"],
            buf.len()
        );
        if !buf.is_empty() {
            ensure!(
                st(&rep["failed"]) == "StorageFull",
                "failure not reported",
                "{f}: result {} on a stdout with no room (the {} bytes are refused)",
                rep["failed"],
                buf.len()
            );
            obs.ev("stdout_failures_reported", 1);
        }
    }
    Ok(())
}

// ------------------------------------------------- C30

pub struct C30;

fn gen_op(r: &mut Rng, f: &str) -> Value {
    let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
    let a = match f {
        "write_inline_on" | "write_inline" | "write_composite" | "write_composite_fill" | "template" | "compound_style" => {
            inline_md(r, alpha, 12, false)
        }
        "input" => {
            let w = inline_md(r, alpha, 6, false);
            w.chars().filter(|c| !c.is_control()).collect()
        }
        "styled_char" => word(r, alpha, 3),
        _ => text_md(r, alpha, 4),
    };
    let mut op = json!({
        "f": f,
        "a": a,
        "n": r.below(9),
        "style": r.below(500),
        "len": *r.pick(&[0, 1, 5, 80, 999, 1000, 1001, 2500]),
        "area": [r.below(20), r.below(10), r.range(4, 60), r.range(3, 20)],
    });
    match f {
        "template" => op["i"] = json!(r.below(26)),
        "input" => op["lines"] = json!(r.bool()),
        "crop_writer" => {
            op["limit"] = json!(r.below(60));
            op["ops"] = (0..r.range(1, 10))
                .map(|_| {
                    json!({
                        "k": if r.chance(1, 8) { r.range(10, 12) } else { r.below(10) },
                        "style": r.below(500),
                        "s": word(r, alpha, 9),
                        "n": r.below(12),
                    })
                })
                .collect();
        }
        _ => {}
    }
    op
}

impl Check for C30 {
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "all the functions given a writer (18 kinds of drawing) draw on writers failing after a number of bytes (every one for short drawings, about 18 for others, limits of escape sequences preferred) once, for ever, with an error or by accepting nothing, on writers accepting a few bytes per call and interrupting, and on writers whose flush fails; the 7 functions writing on stdout are called in children whose stdout is a file then /dev/full; non trivial when a failure was injected before the end of the drawing"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["printing functions based on print! (print_text, print_inline, etc.) panic when stdout fails, as print! does, and aren't specified here"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 24_000 } else { 500_000 }
    }
    fn required(&self) -> &'static [&'static str] {
        &[
            "f_write_text_on", "f_write_inline_on", "f_write_composite", "f_write_composite_fill", "f_write_in_area_on", "f_template",
            "f_text_view", "f_mad_view", "f_list_view", "f_input", "f_rect", "f_crop_writer", "f_filling", "f_fill_bg", "f_styled_char",
            "f_compound_style", "f_spacing", "f_tokens", "failures_reported", "slow_drawings", "interruptions", "out_write_text",
            "out_write_inline", "out_write_in_area", "out_text_view", "out_mad_view", "out_list_view", "out_input", "stdout_failures_reported",
        ]
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _t: Tier) -> Value {
        let ops: Vec<Value> = (0..r.range(1, 3))
            .map(|_| {
                let f = r.pick(FS).0;
                gen_op(r, f)
            })
            .collect();
        let mut stdout = Vec::new();
        if r.chance(1, 12) {
            for _ in 0..r.range(1, 10) {
                let f = *r.pick(STDOUT_FS);
                stdout.push(gen_op(r, f));
            }
        }
        json!({"ops": ops, "stdout": stdout, "skin": rand_skin_seed(r), "cuts": r.below(1 << 30)})
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let skin = skin(case["skin"].as_u64().unwrap_or(0));
        for op in arr(&case["ops"]) {
            if arr(&op["area"]).len() != 4 || parse_ok(st(&op["a"])).is_none() {
                continue;
            }
            let before = obs.counts.get("failures_reported").copied().unwrap_or(0);
            check_faults(op, &skin, case, obs)?;
            if obs.counts.get("failures_reported").copied().unwrap_or(0) > before {
                obs.nontrivial(hash_str(&op.to_string()));
            }
        }
        check_stdout(case, &skin, obs)
    }
}
