//! Framework: deterministic case generation, sharded workers, verdicts,
//! shrinking, replay files, evidence.

use {
    serde_json::{json, Value},
    std::{
        cell::RefCell,
        collections::{BTreeMap, HashSet},
        io::{Read, Write},
        panic::{self, AssertUnwindSafe},
        process::{Command, Stdio},
        sync::atomic::{AtomicU64, Ordering},
        time::{Duration, Instant},
    },
};

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// in [0, n)
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// in [a, b]
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn irange(&mut self, a: i64, b: i64) -> i64 {
        a + (self.u64() % ((b - a + 1) as u64)) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    /// true with n chances out of d
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- verdicts

#[derive(Debug, Clone)]
pub struct Viol {
    /// short stable signature of what is violated
    pub sig: String,
    /// details
    pub msg: String,
}

pub type R = Result<(), Viol>;

pub fn viol<T>(sig: &str, msg: String) -> Result<T, Viol> {
    Err(Viol {
        sig: sig.to_string(),
        msg,
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::core::Viol { sig: $sig.to_string(), msg: format!($($arg)*) });
        }
    };
}

/// what the monitors observed
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: BTreeMap<String, HashSet<u64>>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<Value>,
}

impl Obs {
    pub fn ev(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxima.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// declare the current case non trivial, with an identity
    pub fn nontrivial(&mut self, h: u64) {
        self.nontrivial.insert(h);
    }
    /// observe a distinct state in a named class
    pub fn state(&mut self, class: &str, h: u64) {
        if let Some(s) = self.distinct.get_mut(class) {
            if s.len() < 2_000_000 {
                s.insert(h);
            }
        } else {
            let mut s = HashSet::new();
            s.insert(h);
            self.distinct.insert(class.to_string(), s);
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 2 {
            self.samples.push(v);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// number of cases to run
    fn cases(&self, tier: Tier) -> u64;
    /// max number of worker processes
    fn max_workers(&self) -> usize {
        8
    }
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Value;
    fn run(&self, case: &Value, obs: &mut Obs) -> R;
    /// counters which must not be zero at the end of a run
    fn required(&self) -> &'static [&'static str] {
        &[]
    }
    /// whether the generic shrinker may be applied
    fn shrinkable(&self) -> bool {
        true
    }
    /// CPU seconds after which a case is suspected not to terminate
    fn cpu_limit(&self) -> u64 {
        30
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Outcome {
    Held,
    Violated(Viol),
    HarnessError(String),
}

pub fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/harness/")
}

/// run a case, turning panics of the tested code into violations
pub fn run_guarded(check: &dyn Check, case: &Value, obs: &mut Obs) -> Outcome {
    match panic::catch_unwind(AssertUnwindSafe(|| check.run(case, obs))) {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(v)) => {
            if v.sig == "HARNESS" {
                Outcome::HarnessError(v.msg)
            } else {
                Outcome::Violated(v)
            }
        }
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if is_harness_location(&loc) {
                Outcome::HarnessError(format!("panic in the harness at {loc}: {msg}"))
            } else {
                Outcome::Violated(Viol {
                    sig: format!("panic at {loc}"),
                    msg: format!("the tested code panicked at {loc}: {msg}"),
                })
            }
        }
    }
}

// ---------------------------------------------------------------- shrinking

fn candidates(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::String(s) => {
            let chars: Vec<char> = s.chars().collect();
            let n = chars.len();
            let mut size = n / 2;
            while size >= 1 {
                let mut i = 0;
                while i + size <= n {
                    let mut c: Vec<char> = Vec::with_capacity(n - size);
                    c.extend(&chars[..i]);
                    c.extend(&chars[i + size..]);
                    out.push(Value::String(c.into_iter().collect()));
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        Value::Array(a) => {
            let n = a.len();
            let mut size = n / 2;
            while size >= 1 {
                let mut i = 0;
                while i + size <= n {
                    let mut c = a[..i].to_vec();
                    c.extend_from_slice(&a[i + size..]);
                    out.push(Value::Array(c));
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            for (i, e) in a.iter().enumerate() {
                let mut sub = Vec::new();
                candidates(e, &mut sub);
                for s in sub {
                    let mut c = a.clone();
                    c[i] = s;
                    out.push(Value::Array(c));
                }
            }
        }
        Value::Object(o) => {
            for (k, e) in o {
                if k.starts_with('_') {
                    continue;
                }
                let mut sub = Vec::new();
                candidates(e, &mut sub);
                for s in sub {
                    let mut c = o.clone();
                    c.insert(k.clone(), s);
                    out.push(Value::Object(c));
                }
            }
        }
        Value::Number(n) => {
            if let Some(u) = n.as_u64() {
                for c in [0, u / 2, u.saturating_sub(1)] {
                    if c < u {
                        out.push(json!(c));
                    }
                }
            } else if let Some(i) = n.as_i64() {
                for c in [0, i / 2, i + 1] {
                    if c > i {
                        out.push(json!(c));
                    }
                }
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        _ => {}
    }
}

fn shrink(check: &dyn Check, case: &Value, v: &Viol, budget: Duration) -> (Value, Viol) {
    let start = Instant::now();
    let mut best = case.clone();
    let mut best_v = v.clone();
    if !check.shrinkable() {
        return (best, best_v);
    }
    'outer: loop {
        let mut cands = Vec::new();
        candidates(&best, &mut cands);
        for c in cands {
            if start.elapsed() > budget {
                break 'outer;
            }
            let mut obs = Obs::default();
            if let Outcome::Violated(cv) = run_guarded(check, &c, &mut obs) {
                if cv.sig == v.sig {
                    best = c;
                    best_v = cv;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (best, best_v)
}

// ---------------------------------------------------------------- workers

fn case_rng(seed: u64, id: &str, idx: u64) -> Rng {
    Rng::new(mix(seed ^ hash_str(id)) ^ mix(idx.wrapping_mul(0x2545_F491_4F6C_DD1D)))
}

pub fn make_case(check: &dyn Check, seed: u64, idx: u64, tier: Tier) -> Value {
    check.gen(&mut case_rng(seed, check.id(), idx), idx, tier)
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

struct Shared(*mut u64);
unsafe impl Send for Shared {}

fn map_progress(path: &str) -> Shared {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .expect("progress file");
    f.set_len(8).expect("progress file len");
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    Shared(p as *mut u64)
}

/// worker entry: mon --worker ID SEED TIER SHARD NSHARDS NCASES PROGRESS_FILE BUDGET_S ONLY(-1 or idx)
pub fn worker(check: &dyn Check, args: &[String]) -> i32 {
    install_hook();
    termimad::crossterm::style::force_color_output(true);
    let seed: u64 = args[0].parse().unwrap();
    let tier = if args[1] == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let shard: u64 = args[2].parse().unwrap();
    let nshards: u64 = args[3].parse().unwrap();
    let ncases: u64 = args[4].parse().unwrap();
    let progress = map_progress(&args[5]);
    let mut budget = Duration::from_secs(args[6].parse().unwrap());
    let only: i64 = args[7].parse().unwrap();
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 3 << 30,
            // sanitized children raise it
            rlim_max: libc::RLIM_INFINITY,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        // with many threads, malloc would otherwise reserve more than this limit
        libc::mallopt(libc::M_ARENA_MAX, 8);
        let z = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    let start = Instant::now();
    let mut obs = Obs::default();
    let mut viols: Vec<(Value, Viol, u64)> = Vec::new();
    let mut harness_errors: Vec<String> = Vec::new();
    let mut evaluations = 0u64;
    let mut idx = shard;
    if only >= 0 {
        idx = only as u64;
    }
    while idx < ncases {
        if start.elapsed() > budget {
            break;
        }
        unsafe { std::ptr::write_volatile(progress.0, idx) };
        PROGRESS.store(idx, Ordering::Relaxed);
        let case = make_case(check, seed, idx, tier);
        evaluations += 1;
        match run_guarded(check, &case, &mut obs) {
            Outcome::Held => {}
            Outcome::Violated(v) => {
                if !viols.iter().any(|(_, o, _)| o.sig == v.sig) {
                    viols.push((case, v, idx));
                    // something is found: no need to explore much further
                    budget = budget.min(start.elapsed() + Duration::from_secs(20));
                    if viols.len() >= 12 {
                        break;
                    }
                }
            }
            Outcome::HarnessError(e) => {
                harness_errors.push(format!("case {idx}: {e}: {case}"));
                if harness_errors.len() > 3 {
                    break;
                }
            }
        }
        if only >= 0 {
            break;
        }
        idx += nshards;
    }
    unsafe { std::ptr::write_volatile(progress.0, u64::MAX) };
    let viols: Vec<Value> = viols
        .into_iter()
        .map(|(c, v, idx)| {
            let (sc, sv) = shrink(check, &c, &v, Duration::from_secs(6));
            json!({"idx": idx, "sig": sv.sig, "msg": sv.msg, "case": sc, "original": c})
        })
        .collect();
    let out = json!({
        "evaluations": evaluations,
        "counts": obs.counts,
        "maxima": obs.maxima,
        "distinct": obs.distinct.iter().map(|(k, v)| (k.clone(), v.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>())).collect::<BTreeMap<_,_>>(),
        "nontrivial": obs.nontrivial.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>(),
        "samples": obs.samples,
        "violations": viols,
        "harness_errors": harness_errors,
    });
    let mut so = std::io::stdout();
    so.write_all(format!("\nWORKER-RESULT {out}\n").as_bytes())
        .unwrap();
    so.flush().unwrap();
    0
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}

enum WorkerEnd {
    Done(Value),
    /// died or was stopped at this case
    Lost { idx: u64, why: String, hang: bool },
}

fn run_worker(
    check: &dyn Check,
    seed: u64,
    tier: Tier,
    shard: u64,
    nshards: u64,
    ncases: u64,
    budget: u64,
    only: i64,
) -> WorkerEnd {
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("mon-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let pf = dir.join(format!("{}-{shard}-{only}", check.id()));
    let pfs = pf.to_string_lossy().to_string();
    let _ = std::fs::remove_file(&pf);
    let progress = map_progress(&pfs);
    let ef = std::fs::File::create(dir.join(format!("{}-{shard}-{only}.err", check.id()))).unwrap();
    let mut child = Command::new(exe)
        .args([
            "--worker",
            check.id(),
            &seed.to_string(),
            if tier == Tier::Thorough { "thorough" } else { "quick" },
            &shard.to_string(),
            &nshards.to_string(),
            &ncases.to_string(),
            &pfs,
            &budget.to_string(),
            &only.to_string(),
        ])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(ef)
        .spawn()
        .unwrap();
    let mut so = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = so.read_to_end(&mut b);
        b
    });
    let pid = child.id();
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64;
    let mut last_idx = u64::MAX - 1;
    let mut since_cpu = 0u64;
    let mut since_wall = Instant::now();
    let mut lost: Option<(String, bool)> = None;
    let status = loop {
        if let Some(st) = child.try_wait().unwrap() {
            break st;
        }
        std::thread::sleep(Duration::from_millis(20));
        let idx = unsafe { std::ptr::read_volatile(progress.0) };
        let cpu = cpu_ticks(pid).unwrap_or(0);
        if idx != last_idx {
            last_idx = idx;
            since_cpu = cpu;
            since_wall = Instant::now();
        } else if idx != u64::MAX && (cpu.saturating_sub(since_cpu)) > check.cpu_limit() * hz {
            lost = Some((
                format!("no end after {} s of CPU", check.cpu_limit()),
                true,
            ));
            let _ = child.kill();
        } else if since_wall.elapsed() > Duration::from_secs(300) {
            lost = Some(("wall clock watchdog".to_string(), false));
            let _ = child.kill();
        }
    };
    let bytes = reader.join().unwrap();
    let s = String::from_utf8_lossy(&bytes);
    let idx = unsafe { std::ptr::read_volatile(progress.0) };
    unsafe { libc::munmap(progress.0 as *mut _, 8) };
    if let Some((why, hang)) = lost {
        return WorkerEnd::Lost { idx, why, hang };
    }
    for line in s.lines() {
        if let Some(j) = line.strip_prefix("WORKER-RESULT ") {
            return WorkerEnd::Done(serde_json::from_str(j).unwrap());
        }
    }
    WorkerEnd::Lost {
        idx,
        why: format!("worker ended with {status}"),
        hang: false,
    }
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR")
        .map(std::path::PathBuf::from)
        .unwrap_or_else(|_| std::path::PathBuf::from("/verif"))
}

pub fn write_replay(id: &str, idx: u64, seed: u64, v: &Viol, case: &Value) -> String {
    let dir = verif_dir().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{:08x}.json", hash_str(&format!("{}{}", v.sig, case)) as u32));
    let _ = std::fs::write(
        &path,
        serde_json::to_string_pretty(&json!({
            "property": id, "idx": idx, "seed": seed, "sig": v.sig, "msg": v.msg, "case": case,
        }))
        .unwrap(),
    );
    path.to_string_lossy().to_string()
}

/// a finding is known when the file has an entry with the same property,
/// signature and (shrunk or original) case
fn is_known(known: &[Value], id: &str, v: &Value) -> bool {
    known.iter().any(|k| {
        k["property"] == id
            && k["status"] == "known"
            && k["sig"] == v["sig"]
            && (k["case"] == v["case"] || k["case"] == v["original"])
    })
}

pub fn run_check(check: &dyn Check, tier: Tier, seed: u64) -> i32 {
    let start = Instant::now();
    let id = check.id();
    let scale: f64 = std::env::var("MON_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let ncases = ((check.cases(tier) as f64 * scale) as u64).max(1);
    let ncpu = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4);
    let workers = std::env::var("MON_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(ncpu);
    let n = workers.min(check.max_workers()).max(1) as u64;
    let budget = if tier == Tier::Quick { 240 } else { 2400 };
    let known: Vec<Value> = std::fs::read_to_string(verif_dir().join("known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        .and_then(|v| v["findings"].as_array().cloned())
        .unwrap_or_default();
    let ends: Vec<WorkerEnd> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|shard| {
                s.spawn(move || run_worker(check, seed, tier, shard, n, ncases, budget, -1))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut evaluations = 0u64;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: BTreeMap<String, HashSet<String>> = BTreeMap::new();
    let mut nontrivial: HashSet<String> = HashSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut viols: Vec<Value> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    for end in ends {
        match end {
            WorkerEnd::Done(v) => {
                evaluations += v["evaluations"].as_u64().unwrap();
                for (k, c) in v["counts"].as_object().unwrap() {
                    *counts.entry(k.clone()).or_insert(0) += c.as_u64().unwrap();
                }
                for (k, c) in v["maxima"].as_object().unwrap() {
                    let e = maxima.entry(k.clone()).or_insert(0);
                    *e = (*e).max(c.as_u64().unwrap());
                }
                for (k, a) in v["distinct"].as_object().unwrap() {
                    distinct
                        .entry(k.clone())
                        .or_default()
                        .extend(a.as_array().unwrap().iter().map(|h| h.as_str().unwrap().to_string()));
                }
                nontrivial.extend(
                    v["nontrivial"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|h| h.as_str().unwrap().to_string()),
                );
                if samples.len() < 4 {
                    samples.extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
                }
                viols.extend(v["violations"].as_array().unwrap().iter().cloned());
                errors.extend(
                    v["harness_errors"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|e| e.as_str().unwrap().to_string()),
                );
            }
            WorkerEnd::Lost { idx, why, hang } => {
                // rerun the case alone: only a reproducible death is a violation
                let case = make_case(check, seed, idx, tier);
                match run_worker(check, seed, tier, 0, 1, ncases, budget, idx as i64) {
                    WorkerEnd::Done(v) => {
                        let vs = v["violations"].as_array().unwrap();
                        if vs.is_empty() {
                            errors.push(format!(
                                "worker lost at case {idx} ({why}), not reproduced"
                            ));
                        } else {
                            viols.extend(vs.iter().cloned());
                        }
                    }
                    WorkerEnd::Lost {
                        why: why2,
                        hang: hang2,
                        ..
                    } => {
                        if (hang && hang2) || why2.contains("signal") {
                            let sig = if hang { "no termination".to_string() } else { format!("crash: {why2}") };
                            viols.push(json!({"idx": idx, "sig": sig, "msg": why2, "case": case, "original": case}));
                        } else {
                            errors.push(format!("case {idx}: {why}, then {why2}: {case}"));
                        }
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(
        std::env::temp_dir().join(format!("mon-{}", std::process::id())),
    );
    // known findings are replayed on their exact input
    let mut known_seen = 0;
    install_hook();
    termimad::crossterm::style::force_color_output(true);
    for k in &known {
        if k["property"] == id && k["status"] == "known" {
            let mut o = Obs::default();
            if let Outcome::Violated(v) = run_guarded(check, &k["case"], &mut o) {
                if k["sig"] == v.sig.as_str() {
                    println!(
                        "KNOWN-FINDING: property={id} {}",
                        k["what"].as_str().unwrap_or("")
                    );
                    known_seen += 1;
                } else {
                    viols.push(json!({"idx":0,"sig":v.sig,"msg":v.msg,"case":k["case"],"original":k["case"]}));
                }
            }
        }
    }
    let mut seen: HashSet<String> = HashSet::new();
    let mut reported = 0u64;
    for v in &viols {
        if is_known(&known, id, v) {
            continue;
        }
        let sig = v["sig"].as_str().unwrap().to_string();
        if !seen.insert(sig.clone()) {
            continue;
        }
        reported += 1;
        let vv = Viol {
            sig,
            msg: v["msg"].as_str().unwrap().to_string(),
        };
        let path = write_replay(id, v["idx"].as_u64().unwrap_or(0), seed, &vv, &v["case"]);
        println!("--- {}\n{}\ncase: {}", vv.sig, vv.msg, v["case"]);
        println!("VIOLATION property={id} replay={path}");
    }
    for e in errors.iter().take(5) {
        println!("ERROR: {e}");
    }
    let mut missing: Vec<&str> = Vec::new();
    for r in check.required() {
        if counts.get(*r).copied().unwrap_or(0) == 0 {
            missing.push(r);
        }
    }
    let distinct_counts: BTreeMap<String, usize> =
        distinct.iter().map(|(k, v)| (k.clone(), v.len())).collect();
    let evidence = json!({
        "property": id,
        "tier": if tier == Tier::Thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial.len(),
            "rule": check.rule(),
            "samples": samples,
            "planned_cases": ncases,
            "events_observed": counts,
            "maxima_observed": maxima,
            "distinct_states_observed": distinct_counts,
            "known_findings_seen": known_seen,
        },
        "assumptions": check.assumptions(),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": reported,
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(
        evdir.join(format!("{id}.json")),
        serde_json::to_string_pretty(&evidence).unwrap(),
    )
    .unwrap();
    println!(
        "{id}: {evaluations}/{ncases} cases, {} distinct non-trivial, {reported} violations, {:.1} s",
        nontrivial.len(),
        start.elapsed().as_secs_f64()
    );
    if std::env::var("MON_VERBOSE").is_ok() {
        println!("{}", serde_json::to_string_pretty(&evidence["coverage"]).unwrap());
    }
    if reported > 0 {
        return 1;
    }
    if !errors.is_empty() {
        return 2;
    }
    if evaluations == 0 || nontrivial.is_empty() {
        println!("ERROR: nothing observed");
        return 2;
    }
    if !missing.is_empty() {
        println!("ERROR: events never observed: {missing:?}");
        return 2;
    }
    0
}

/// replay a recorded case
pub fn replay(check: &dyn Check, path: &str) -> i32 {
    install_hook();
    termimad::crossterm::style::force_color_output(true);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let case = if v.get("case").is_some() { v["case"].clone() } else { v };
    let mut obs = Obs::default();
    match run_guarded(check, &case, &mut obs) {
        Outcome::Held => {
            println!("{}: held on {path}", check.id());
            0
        }
        Outcome::Violated(v) => {
            println!("--- {}\n{}", v.sig, v.msg);
            println!("VIOLATION property={} replay={path}", check.id());
            1
        }
        Outcome::HarnessError(e) => {
            println!("ERROR: {e}");
            2
        }
    }
}
