//! C23 (ticker), C27 (purity and threads)

use {
    crate::{core::*, gen::*, ptys::*, render::*},
    serde_json::{json, Value},
    std::{
        process::{Command, Stdio},
        sync::{Arc, Barrier},
        time::{Duration, Instant},
    },
    termimad::*,
};

fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

/// Run a job in a subprocess, either of this program or of the one
/// instrumented with ThreadSanitizer
fn run_job(kind: &str, job: &Value, tsan: bool) -> Result<Output, Viol> {
    let exe = if tsan {
        match std::env::var("MON_TSAN_EXE") {
            Ok(e) => e.into(),
            Err(_) => return viol("HARNESS", "no MON_TSAN_EXE".to_string()),
        }
    } else {
        std::env::current_exe().unwrap()
    };
    let path = std::env::temp_dir().join(format!("mon-job-{}-{:x}.json", std::process::id(), hash_str(&job.to_string())));
    std::fs::write(&path, job.to_string()).unwrap();
    let mut c = Command::new(exe);
    c.arg("--child").arg(kind).arg(json!({"file": path}).to_string());
    c.env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66 report_signal_unsafe=0");
    c.env_remove("NO_COLOR");
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if tsan {
        use std::os::unix::process::CommandExt;
        unsafe {
            c.pre_exec(|| {
                let lim = libc::rlimit {
                    rlim_cur: libc::RLIM_INFINITY,
                    rlim_max: libc::RLIM_INFINITY,
                };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                Ok(())
            });
        }
    }
    let r = c.spawn().map_err(|e| Viol { sig: "HARNESS".into(), msg: format!("spawn: {e}") });
    let o = r.and_then(|child| collect(child, &[], Duration::from_secs(120)));
    let _ = std::fs::remove_file(&path);
    let o = o?;
    if o.stderr.contains("WARNING: ThreadSanitizer") {
        let p = o.stderr.find("WARNING: ThreadSanitizer").unwrap();
        let msg: String = o.stderr[p..].chars().take(4000).collect();
        return viol("data race", msg);
    }
    if o.stderr.contains("FATAL: ThreadSanitizer") {
        return viol("HARNESS", o.stderr.clone());
    }
    check_end(&o, kind)?;
    Ok(o)
}

pub fn job_of(job: &Value) -> Value {
    let f = std::fs::read_to_string(job["file"].as_str().unwrap_or("")).expect("HARNESS: no job file");
    serde_json::from_str(&f).expect("HARNESS: bad job file")
}

// ------------------------------------------------------------- C23

struct Beam {
    id: TickBeamId,
    start: Instant,
    period: Duration,
    /// None when infinite
    count: Option<usize>,
    ticks: usize,
    stopped: bool,
    late_ticks: usize,
}

impl Beam {
    fn complete(&self, more: usize) -> bool {
        match self.count {
            Some(c) => self.ticks >= c,
            None => self.ticks >= more,
        }
    }
}

const WAIT: Duration = Duration::from_secs(20);

#[derive(Default)]
struct History {
    beams: Vec<Beam>,
    events: u64,
}

impl History {
    fn tick(&mut self, (i, magic): (u32, u64)) -> R {
        let now = Instant::now();
        self.events += 1;
        let nb = self.beams.len();
        let Some(b) = self.beams.get_mut(i as usize) else {
            return viol("payload", format!("tick with payload {i} while there are {nb} beams"));
        };
        ensure!(magic == (i as u64).wrapping_mul(0x1234_5678_9abc_def1), "payload", "altered payload {i} {magic:x}");
        b.ticks += 1;
        if b.stopped {
            b.late_ticks += 1;
            ensure!(b.late_ticks <= 1, "ticks after stop", "{} ticks of beam {i} after it was stopped", b.late_ticks);
        }
        if let Some(c) = b.count {
            ensure!(b.ticks <= c, "too many ticks", "beam {i} was to do {c} ticks and did {}", b.ticks);
        }
        let after = now - b.start;
        ensure!(
            after >= b.period * b.ticks as u32,
            "early tick",
            "tick {} of beam {i} comes {after:?} after its start, with a period of {:?}",
            b.ticks,
            b.period
        );
        Ok(())
    }
    fn drain(&mut self, t: &Ticker<(u32, u64)>) -> R {
        while let Ok(p) = t.tick_receiver.try_recv() {
            self.tick(p)?;
        }
        Ok(())
    }
}

/// do nothing for some time, return the CPU time used by the process and the elapsed time
pub fn idle(d: Duration) -> (Duration, Duration) {
    let cpu = || {
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
        Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
    };
    let (start, before) = (Instant::now(), cpu());
    std::thread::sleep(d);
    (cpu().saturating_sub(before), start.elapsed())
}

fn run_ticks(case: &Value, ev: &mut dyn FnMut(&str, u64)) -> R {
    let mut t: Ticker<(u32, u64)> = Ticker::new();
    let mut h = History::default();
    let ms = |v: &Value| Duration::from_millis(v.as_u64().unwrap_or(0).min(120_000));
    for op in arr(&case["ops"]) {
        match op[0].as_str().unwrap_or("") {
            "start" => {
                if h.beams.len() > 90 {
                    continue;
                }
                let i = h.beams.len() as u32;
                let payload = (i, (i as u64).wrapping_mul(0x1234_5678_9abc_def1));
                let mut period = ms(&op[2]);
                let n = op[3].as_u64().unwrap_or(0).min(400) as usize;
                if n > 40 {
                    ev("long_beams", 1);
                }
                let start = Instant::now();
                let (id, count) = match op[1].as_str().unwrap_or("") {
                    "once" => (t.tick_once(payload, period), Some(1)),
                    "several" => (t.tick_several_times(payload, period, n), Some(n)),
                    _ => {
                        period = period.max(Duration::from_millis(1));
                        (t.tick_infinitely(payload, period), None)
                    }
                };
                for b in &h.beams {
                    ensure!(b.id != id, "beam id", "identifier {id} is given twice");
                }
                if h.beams.len() == 30 {
                    ev("crowded_tickers", 1);
                }
                h.beams.push(Beam { id, start, period, count, ticks: 0, stopped: false, late_ticks: 0 });
                ev("starts", 1);
            }
            "sleep" => std::thread::sleep(ms(&op[1]).min(Duration::from_millis(500))),
            "drain" => h.drain(&t)?,
            "stop" => {
                if h.beams.is_empty() {
                    t.stop_beam(7777);
                    continue;
                }
                let i = op[1].as_u64().unwrap_or(0) as usize % h.beams.len();
                t.stop_beam(h.beams[i].id);
                h.drain(&t)?;
                ev(if h.beams[i].stopped { "repeated_stops" } else { "stops" }, 1);
                if h.beams[i].count == Some(h.beams[i].ticks) {
                    ev("stops_of_finished_beams", 1);
                } else if h.beams[i].ticks > 0 {
                    ev("stops_of_started_beams", 1);
                }
                h.beams[i].stopped = true;
            }
            _ => {
                t.stop_all_beams();
                h.drain(&t)?;
                for b in &mut h.beams {
                    b.stopped = true;
                }
                ev("stops_of_all", 1);
            }
        }
    }
    // the beams which weren't stopped go on (the very long ones excepted)
    let long = Duration::from_millis(1000);
    let deadline = Instant::now() + WAIT;
    let goals: Vec<usize> = h.beams.iter().map(|b| b.ticks + 2).collect();
    loop {
        let missing = h
            .beams
            .iter()
            .zip(&goals)
            .position(|(b, g)| !b.stopped && b.period < long && !b.complete(*g));
        let Some(i) = missing else { break };
        ensure!(
            Instant::now() < deadline,
            "missing tick",
            "beam {i}, of period {:?} and count {:?}, made only {} ticks in 20 s",
            h.beams[i].period,
            h.beams[i].count,
            h.beams[i].ticks
        );
        if let Ok(p) = t.tick_receiver.recv_timeout(Duration::from_millis(200)) {
            h.tick(p)?;
        }
    }
    for b in &h.beams {
        if !b.stopped && b.period < long {
            ev(if b.count.is_some() { "completed_beams" } else { "continuing_beams" }, 1);
        }
        if b.stopped && b.count.map_or(true, |c| b.ticks < c) {
            ev("interrupted_beams", 1);
        }
    }
    // waiting takes no CPU
    if case["idle"] == true && h.beams.iter().all(|b| b.stopped || b.complete(usize::MAX) || b.period >= Duration::from_millis(5)) {
        let mut worst = None;
        for _ in 0..4 {
            let (cpu, wall) = idle(Duration::from_millis(40));
            worst = (cpu > wall / 5 + Duration::from_millis(5)).then_some((cpu, wall));
            if worst.is_none() {
                break;
            }
        }
        if let Some((cpu, wall)) = worst {
            return viol("busy waiting", format!("{cpu:?} of CPU used during {wall:?} with only slow beams"));
        }
        ev("idle_measures", 1);
        if h.beams.iter().any(|b| !b.stopped && !b.complete(usize::MAX)) {
            ev("idle_measures_with_beams", 1);
        }
    }
    // no tick in excess
    let max = h.beams.iter().map(|b| b.period).filter(|p| *p < long).max().unwrap_or_default();
    let watch = |h: &mut History, rx: &dyn Fn(Duration) -> Option<(u32, u64)>| -> R {
        let end = Instant::now() + max * 3 + Duration::from_millis(5);
        loop {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() {
                return Ok(());
            }
            if let Some(p) = rx(left) {
                h.tick(p)?;
            }
        }
    };
    watch(&mut h, &|d| t.tick_receiver.recv_timeout(d).ok())?;
    let rx = t.tick_receiver.clone();
    if case["end"] == "stop_all" {
        t.stop_all_beams();
        h.drain(&t)?;
        for b in &mut h.beams {
            b.stopped = true;
        }
        watch(&mut h, &|d| t.tick_receiver.recv_timeout(d).ok())?;
        ev("final_stop_all", 1);
    }
    let remaining = h.beams.iter().filter(|b| !b.stopped && !b.complete(usize::MAX)).count();
    if remaining > 0 {
        ev("drops_with_active_beams", 1);
    }
    drop(t);
    while let Ok(p) = rx.try_recv() {
        h.tick(p)?;
    }
    for b in &mut h.beams {
        b.stopped = true;
    }
    // (a stopped beam doesn't wait for its period, be it of a minute)
    let end = Instant::now() + WAIT;
    loop {
        match rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
            Ok(p) => h.tick(p)?,
            Err(e) if e.is_disconnected() => {
                ev("closed_channels", 1);
                if h.beams.iter().any(|b| b.period >= long) {
                    ev("long_beams_ended", 1);
                }
                break;
            }
            Err(_) => return viol("still active", "the tick channel isn't closed 20 s after the drop of the ticker".to_string()),
        }
    }
    ev("ticks", h.events);
    Ok(())
}

/// how late may the last tick of a beam come ? A thread sleeping the same times
/// gives what the machine does.
fn run_pace(case: &Value, ev: &mut dyn FnMut(&str, u64)) -> R {
    let period = Duration::from_millis(case["period"].as_u64().unwrap_or(20).clamp(10, 200));
    let count = case["count"].as_u64().unwrap_or(3).clamp(1, 10) as usize;
    let mut worst = String::new();
    for _ in 0..6 {
        let mut t: Ticker<()> = Ticker::new();
        let start = Instant::now();
        let control = std::thread::spawn(move || {
            for _ in 0..count {
                std::thread::sleep(period);
            }
            start.elapsed()
        });
        match case["kind"].as_str().unwrap_or("") {
            "infinite" => {
                t.tick_infinitely((), period);
            }
            "several" => {
                t.tick_several_times((), period, count);
            }
            _ => {
                t.tick_once((), period * count as u32);
            }
        }
        let n = if case["kind"] == "once" { 1 } else { count };
        for i in 0..n {
            if t.tick_receiver.recv_timeout(WAIT).is_err() {
                return viol("missing tick", format!("tick {i} of {n} doesn't come in 20 s"));
            }
        }
        let el = start.elapsed();
        let control = control.join().unwrap();
        if el < control + period * count as u32 / 2 + Duration::from_millis(40) {
            ev("paced_beams", 1);
            return Ok(());
        }
        worst = format!("{count} ticks with a period of {period:?} took {el:?} while sleeping took {control:?}");
    }
    viol("late ticks", format!("6 times out of 6, {worst}"))
}

pub fn child_ticker(job: &Value) -> i32 {
    let job = job_of(job);
    let mut evs = serde_json::Map::new();
    let mut fails = Vec::new();
    for case in arr(&job["cases"]) {
        let r = run_ticks(case, &mut |k, n| {
            let v = evs.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
            evs.insert(k.to_string(), json!(v + n));
        });
        if let Err(v) = r {
            fails.push(json!([v.sig, v.msg]));
        }
    }
    println!("{}", json!({"evs": evs, "fails": fails}));
    0
}

fn gen_ticks(r: &mut Rng) -> Value {
    let mut ops = Vec::new();
    let mut beams = 0;
    let small = r.bool();
    for _ in 0..r.range(1, 14) {
        match r.below(10) {
            0..=4 => {
                let kind = *r.pick(&["once", "several", "several", "infinite"]);
                let period = if r.chance(1, 12) {
                    60_000
                } else if small {
                    r.below(4)
                } else {
                    *r.pick(&[0, 1, 2, 5, 10, 25])
                };
                if r.chance(1, 30) {
                    // many ticks
                    ops.push(json!(["start", "several", r.below(2), r.range(30, 300)]));
                } else if r.chance(1, 200) {
                    // many beams
                    for _ in 0..r.range(20, 50) {
                        ops.push(json!(["start", *r.pick(&["once", "several", "infinite"]), r.range(1, 25), r.below(6)]));
                        beams += 1;
                    }
                } else {
                    ops.push(json!(["start", kind, period, r.below(6)]));
                }
                beams += 1;
            }
            5 | 6 => ops.push(json!(["sleep", *r.pick(&[0, 1, 2, 5, 12, 30])])),
            7 => ops.push(json!(["drain"])),
            8 => {
                for _ in 0..r.range(1, 2) {
                    ops.push(json!(["stop", r.below(beams.max(1))]));
                }
            }
            _ => {
                if r.chance(1, 3) {
                    ops.push(json!(["stop_all"]));
                } else {
                    ops.push(json!(["stop", r.below(beams.max(1))]));
                }
            }
        }
    }
    json!({"ops": ops, "end": r.pick(&["drop", "stop_all"]), "idle": r.chance(1, 3)})
}

pub struct C23;

impl Check for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "random histories of starts of beams (once, several times, infinitely; periods from 0 ms to 25 ms or of 60 s), stops of a beam, of all, repeated stops, pauses, end by stop_all_beams or drop, with a monitor counting and dating the ticks of each beam; part of them in a program instrumented with ThreadSanitizer; some beams compared with a sleeping thread; non trivial when at least 3 ticks were observed"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "ticks are given 20 s to come, so only a lost tick is reported as missing",
            "a tick is late when the 6 tries all last 50% more than a thread sleeping as many times",
            "infinite beams have a period of at least 1 ms",
        ]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 4_000 } else { 120_000 }
    }
    fn cpu_limit(&self) -> u64 {
        120
    }
    fn required(&self) -> &'static [&'static str] {
        &[
            "idle_measures_with_beams", "long_beams_ended", "ticks", "starts", "stops", "repeated_stops", "stops_of_finished_beams", "stops_of_started_beams", "stops_of_all", "completed_beams", "long_beams", "crowded_tickers",
            "continuing_beams", "interrupted_beams", "drops_with_active_beams", "closed_channels", "final_stop_all", "paced_beams", "tsan_runs",
            "tsan_ticks",
        ]
    }
    fn gen(&self, r: &mut Rng, idx: u64, t: Tier) -> Value {
        let tsan_every = if t == Tier::Quick { 400 } else { 800 };
        if idx % tsan_every == 3 {
            let cases: Vec<Value> = (0..20).map(|_| gen_ticks(r)).collect();
            json!({"_kind": "tsan", "cases": cases})
        } else if idx % 40 == 7 {
            json!({"_kind": "pace", "kind": r.pick(&["once", "several", "infinite"]), "period": r.range(15, 60), "count": r.range(2, 5)})
        } else {
            gen_ticks(r)
        }
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        match case["_kind"].as_str().unwrap_or("") {
            "tsan" => {
                let o = run_job("ticker", case, true)?;
                let rep: Value = match serde_json::from_slice(&o.stdout) {
                    Ok(v) => v,
                    Err(e) => return viol("HARNESS", format!("bad report: {e} {:?}", o.stderr)),
                };
                if let Some(f) = arr(&rep["fails"]).first() {
                    return viol(f[0].as_str().unwrap_or("?"), f[1].to_string());
                }
                obs.ev("tsan_runs", 1);
                obs.ev("tsan_ticks", rep["evs"]["ticks"].as_u64().unwrap_or(0));
                Ok(())
            }
            "pace" => run_pace(case, &mut |k, n| obs.ev(k, n)),
            _ => {
                let mut ticks = 0;
                run_ticks(case, &mut |k, n| {
                    if k == "ticks" {
                        ticks = n;
                    }
                    obs.ev(k, n);
                })?;
                if ticks >= 3 {
                    obs.nontrivial(hash_str(&case.to_string()));
                }
                Ok(())
            }
        }
    }
}

// ------------------------------------------------------------- C27

static TASKS: &[&str] = &[
    "text", "text", "text", "unwrapped", "inline", "default_inline", "default_text", "area", "write_area", "view", "raw", "fit", "parse", "template",
    "progress", "list", "rect", "expander", "filling", "skinparse", "input",
];

fn render_task(task: &Value, skin: &MadSkin) -> String {
    let md = s(task, "md");
    let w = u(task, "w").clamp(3, 200);
    let n = u(task, "n");
    let area = Area::new(2, 1, w as u16, 3 + (n % 12) as u16);
    let mut b: Vec<u8> = Vec::new();
    match s(task, "k") {
        "text" => return skin.text(md, Some(w)).to_string(),
        "unwrapped" => {
            let t = skin.text(md, None);
            return format!("{} {t}", t.content_width());
        }
        "inline" => return skin.inline(md.lines().next().unwrap_or("")).to_string(),
        "default_inline" => return termimad::inline(md.lines().next().unwrap_or("")).to_string(),
        "default_text" => return format!("{}{}", termimad::text(md), get_default_skin().text(md, Some(w))),
        "area" => return skin.area_text(md, &area).to_string(),
        "write_area" => skin.write_in_area_on(&mut b, md, &area).unwrap(),
        "view" => {
            let t = skin.area_text(md, &area);
            let mut v = TextView::from(&area, &t);
            v.try_scroll_lines(n as i32 % 7);
            v.write_on(&mut b).unwrap();
        }
        "raw" => return FmtText::raw_str(skin, md, Some(w)).to_string(),
        "fit" => {
            let (a, aw) = StrFit::make_cow(md, w);
            let mut fc = FmtComposite::from(minimad::Composite::from_inline(md.lines().next().unwrap_or("")), skin);
            Fitter::for_align([Alignment::Left, Alignment::Center, Alignment::Right][n % 3]).fit(&mut fc, w, skin);
            return format!("{a} {aw} {}", FmtInline { skin, composite: fc });
        }
        "parse" => {
            for d in ["gray(7)", "rgb(1,2,3)", "ansi(77)", "red bold", "#fc3 underlined", "none", "bad", "Dark Blue", "#00112", "right", "italic"] {
                b.extend(
                    format!(
                        "{:?} {:?} {:?} {:?} {:?}\n",
                        parse_color(d).ok(),
                        parse_compound_style(d).ok(),
                        parse_line_style(d).ok(),
                        parse_styled_char(d, 'x').ok(),
                        parse_align(d),
                    )
                    .into_bytes(),
                );
            }
        }
        "template" => {
            let v = md.lines().next().unwrap_or("");
            mad_write_inline!(&mut b, skin, "**$0** and *$1* or `$0`", v, n).unwrap();
            mad_write_inline!(&mut b, skin, "~~$2~~ $1$1", "a", v, "c").unwrap();
        }
        "progress" => {
            for i in 0..20 {
                b.extend(format!("{}|", ProgressBar::new(i as f32 / 19.0, w)).into_bytes());
            }
        }
        "list" => {
            static ST: std::sync::OnceLock<CompoundStyle> = std::sync::OnceLock::new();
            let st = ST.get_or_init(|| MadSkin::default().bold);
            let columns: Vec<ListViewColumn<'_, String>> = vec![
                ListViewColumn::new("one", 2, 20, Box::new(move |l: &String| ListViewCell::new(l.clone(), st))),
                ListViewColumn::new("two", 2, 30, Box::new(move |l: &String| ListViewCell::new(l.len().to_string(), st))).with_align(Alignment::Right),
            ];
            let mut lv = ListView::new(Area::new(0, 0, w.max(12) as u16, area.height + 1), columns, skin);
            for l in md.lines() {
                lv.add_row(l.to_string());
            }
            lv.try_select_next(n % 2 == 0);
            lv.write_on(&mut b).unwrap();
        }
        "rect" => {
            let mut rect = Rect::new(area, skin.bold.clone());
            rect.set_border_style([BORDER_STYLE_BLAND, BORDER_STYLE_MIDDLE_ROUND_LINE, BORDER_STYLE_HALF_WIDTH_OUTSIDE][n % 3]);
            rect.set_fill(n % 2 == 0);
            rect.draw(&mut b).unwrap();
        }
        "expander" => {
            let tt = minimad::TextTemplate::from("# ${title}\n* ${a}\n${rows\n|**${x}**|${y}|\n}\n");
            let mut e = tt.expander();
            e.set("title", md.lines().next().unwrap_or("")).set("a", "b*c");
            for l in md.lines() {
                let sub = e.sub("rows");
                sub.set("x", l).set("y", "$");
            }
            return FmtText::from_text(skin, e.expand(), Some(w)).to_string();
        }
        "filling" => {
            SPACE_FILLING.queue_styled(&mut b, &skin.bold, w).unwrap();
            SPACE_FILLING.queue_unstyled(&mut b, n).unwrap();
            Filling::from_char('=').queue_unstyled(&mut b, n * 3).unwrap();
        }
        "skinparse" => {
            let src = ["{bold: \"red\", headers: [\"gray(20) bold\"], table: \"center\"}", "{bullet: \"• yellow\", scrollbar: \"| red\"}"][n % 2];
            let parsed: MadSkin = deser_hjson::from_str(src).unwrap();
            return format!("{parsed:?} {}", parsed.text(md, Some(w)));
        }
        _ => {
            let mut i = InputField::new(Area::new(0, 0, w as u16, 3));
            i.new_line_on(crossterm::event::KeyCode::Enter);
            i.set_str(md);
            i.display_on(&mut b).unwrap();
        }
    }
    String::from_utf8_lossy(&b).to_string()
}

fn render_safe(task: &Value, skin: &MadSkin) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| render_task(task, skin))) {
        Ok(s) => s,
        Err(_) => "PANIC".to_string(),
    }
}

pub fn child_purity(job: &Value) -> i32 {
    let job = job_of(job);
    std::panic::set_hook(Box::new(|_| {}));
    termimad::crossterm::style::force_color_output(true);
    let tasks: Arc<Vec<Value>> = Arc::new(arr(&job["tasks"]).to_vec());
    let skins: Arc<Vec<MadSkin>> = Arc::new(arr(&job["skins"]).iter().map(|v| skin(v.as_u64().unwrap_or(0))).collect());
    let before: Vec<(MadSkin, String)> = skins.iter().map(|s| (s.clone(), format!("{s:?}"))).collect();
    let nb = u(&job, "threads").clamp(1, 32);
    let barrier = Arc::new(Barrier::new(nb));
    let threads: Vec<_> = (0..nb)
        .map(|i| {
            let (tasks, skins, barrier) = (tasks.clone(), skins.clone(), barrier.clone());
            let seed = u(&job, "seed") as u64;
            std::thread::spawn(move || {
                let mut r = Rng::new(seed.wrapping_add(i as u64));
                let mut order: Vec<usize> = (0..tasks.len()).collect();
                if i % 3 != 0 {
                    r.shuffle(&mut order);
                }
                let mut got = vec![String::new(); tasks.len()];
                barrier.wait();
                for k in order {
                    if r.chance(1, 8) {
                        std::thread::yield_now();
                    }
                    let t = &tasks[k];
                    got[k] = render_safe(t, &skins[u(t, "skin") % skins.len()]);
                }
                got
            })
        })
        .collect();
    let outs: Vec<Option<Vec<String>>> = threads.into_iter().map(|t| t.join().ok()).collect();
    let alone: Vec<String> = tasks.iter().map(|t| render_safe(t, &skins[u(t, "skin") % skins.len()])).collect();
    let mut fails = Vec::new();
    for (i, o) in outs.iter().enumerate() {
        match o {
            None => fails.push(json!(["thread", i])),
            Some(o) => {
                for (k, t) in tasks.iter().enumerate() {
                    if o[k] != alone[k] {
                        fails.push(json!(["concurrent", t, o[k], alone[k]]));
                    }
                }
            }
        }
    }
    for (s, (b, d)) in skins.iter().zip(&before) {
        if s != b || format!("{s:?}") != *d {
            fails.push(json!(["skin changed", format!("{s:?}"), d]));
        }
    }
    if *get_default_skin() != MadSkin::default() {
        fails.push(json!(["default skin changed", "", ""]));
    }
    fails.truncate(5);
    println!("{}", json!({"alone": alone, "fails": fails}));
    0
}

pub struct C27;

impl Check for C27 {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "sets of renderings (texts, inlines, areas, views, tables, lists, fields, fittings, templates, parsings of styles, default skin) done concurrently by 2 to 8 threads of a fresh process with shared skins in various orders, then sequentially, then in another process with another history, outputs compared; part of them in a program instrumented with ThreadSanitizer; non trivial when at least 2 threads rendered at least 5 tasks"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["interleavings are those of the system's scheduler (with random yields)"]
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick { 3_000 } else { 40_000 }
    }
    fn cpu_limit(&self) -> u64 {
        120
    }
    fn required(&self) -> &'static [&'static str] {
        &["renderings", "concurrent_renderings", "default_skin_first_uses", "repeated_renderings", "tsan_runs", "tsan_renderings", "unchanged_skins"]
    }
    fn gen(&self, r: &mut Rng, idx: u64, _t: Tier) -> Value {
        let n = r.range(2, 16);
        let mut tasks = Vec::new();
        for _ in 0..n {
            let alpha = if r.bool() { Alpha::Ascii } else { Alpha::Uni };
            let nb = *r.pick(&[1, 2, 4]);
            let mut md = text_md(r, alpha, nb);
            if r.chance(1, 4) {
                table_md(r, alpha, &mut md);
            }
            tasks.push(json!({"k": r.pick(TASKS), "md": md, "w": rand_width(r), "n": r.below(20), "skin": r.below(3)}));
        }
        if r.bool() {
            // same text, other width or skin
            let mut t = r.pick(&tasks).clone();
            if r.bool() {
                t["w"] = json!(rand_width(r));
            } else {
                t["skin"] = json!(r.below(3));
            }
            tasks.push(t);
        }
        if r.bool() {
            // all on the same function
            let k = *r.pick(TASKS);
            for t in &mut tasks {
                t["k"] = json!(k);
            }
        }
        json!({
            "_tsan": idx % 30 == 4,
            "tasks": tasks,
            "skins": (0..3).map(|_| rand_skin_seed(r)).collect::<Vec<_>>(),
            "threads": *r.pick(&[2, 2, 4, 8]),
            "seed": r.below(1_000_000_000),
        })
    }
    fn run(&self, case: &Value, obs: &mut Obs) -> R {
        let tasks = arr(&case["tasks"]);
        let skins: Vec<MadSkin> = arr(&case["skins"]).iter().map(|v| skin(v.as_u64().unwrap_or(0))).collect();
        if skins.is_empty() {
            return Ok(());
        }
        for t in tasks {
            if parse_ok(s(t, "md")).is_none() {
                return Ok(());
            }
        }
        let before: Vec<String> = skins.iter().map(|s| format!("{s:?}")).collect();
        let mut mine: Vec<String> = Vec::new();
        for t in tasks {
            let skin = &skins[u(t, "skin") % skins.len()];
            mine.push(render_safe(t, skin));
        }
        for (i, t) in tasks.iter().enumerate().rev() {
            let again = render_safe(t, &skins[u(t, "skin") % skins.len()]);
            ensure!(again == mine[i], "other output again", "{t} is rendered {:?} then {again:?}", mine[i]);
            obs.ev("repeated_renderings", 1);
        }
        for (s, b) in skins.iter().zip(&before) {
            ensure!(format!("{s:?}") == *b, "skin changed", "{s:?} instead of {b}");
            obs.ev("unchanged_skins", 1);
        }
        let tsan = case["_tsan"] == true;
        // several runs of the same job meet other interleavings
        for _ in 0..if tsan { 1 } else { 2 } {
            let o = run_job("purity", case, tsan)?;
            let rep: Value = match serde_json::from_slice(&o.stdout) {
                Ok(v) => v,
                Err(e) => return viol("HARNESS", format!("bad report: {e} {:?}", o.stderr)),
            };
            if let Some(f) = arr(&rep["fails"]).first() {
                return viol(f[0].as_str().unwrap_or("?"), f.to_string());
            }
            let alone = arr(&rep["alone"]);
            ensure!(alone.len() == mine.len(), "HARNESS", "bad report: {rep}");
            for (i, a) in alone.iter().enumerate() {
                ensure!(a == &json!(mine[i]), "other output elsewhere", "{} is rendered {:?} in a process and {a:?} in another one", tasks[i], mine[i]);
            }
            let n = (tasks.len() * u(case, "threads")) as u64;
            obs.ev("renderings", mine.len() as u64 * 3);
            obs.ev("concurrent_renderings", n);
            if tsan {
                obs.ev("tsan_runs", 1);
                obs.ev("tsan_renderings", n);
            }
            if tasks.iter().any(|t| s(t, "k").starts_with("default")) {
                obs.ev("default_skin_first_uses", 1);
            }
        }
        if tasks.len() >= 5 {
            obs.nontrivial(hash_str(&case.to_string()));
        }
        Ok(())
    }
}
