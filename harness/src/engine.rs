//! Choice-sequence based property testing engine: generation, shrinking, worker processes, evidence.

use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------------------
// choices

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in bytes {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut s = h;
    splitmix(&mut s)
}

/// Source of all random choices of a case. Choices are recorded, so that a case can be replayed from (and shrunk
/// through) its sequence of choices. 0 is always the simplest choice.
pub struct Src {
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    state: u64,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { replay: None, rec: Vec::new(), state: seed }
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Src { replay: Some(choices), rec: Vec::new(), state: 0 }
    }

    /// A choice in [0, max].
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &self.replay {
            Some(choices) => choices.get(self.rec.len()).copied().unwrap_or(0).min(max),
            None => {
                let r = splitmix(&mut self.state);
                if max == u64::MAX {
                    r
                } else {
                    ((u128::from(r) * (u128::from(max) + 1)) >> 64) as u64
                }
            }
        };
        self.rec.push(v);
        v
    }

    /// lo..=hi, simplest: lo
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi);
        lo + self.draw((hi - lo) as u64) as usize
    }

    /// lo..=hi with sizes distributed roughly log-uniformly, simplest: lo
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi);
        let span = hi - lo;
        let bits = (usize::BITS - span.leading_zeros()) as usize;
        let b = self.range(0, bits);
        let cap = if b >= 63 { span } else { span.min((1usize << b) - 1) };
        lo + self.range(0, cap)
    }

    /// lo..=hi, mixing sizes and uniform values
    pub fn num(&mut self, lo: usize, hi: usize) -> usize {
        if self.bool() {
            self.range(lo, hi)
        } else {
            self.size(lo, hi)
        }
    }

    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }

    /// true with probability num/den; simplest: false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }

    pub fn pick<T: Clone>(&mut self, options: &[T]) -> T {
        options[self.range(0, options.len() - 1)].clone()
    }

    /// Index of the chosen weight; simplest: 0
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total - 1);
        for (i, &w) in weights.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }

    pub fn seed(&mut self) -> u64 {
        self.draw(u64::MAX >> 11)
    }

    /// A list; `max` elements at most.
    pub fn list<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let n = self.size(min, max);
        (0..n).map(|_| f(self)).collect()
    }
}

/// Bulk pseudo randomness, seeded by a choice.
pub struct Rng(pub u64);

impl Rng {
    pub fn u64(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    /// (0, 1)
    pub fn unit(&mut self) -> f64 {
        ((self.u64() >> 11) as f64 + 0.5) / (1u64 << 53) as f64
    }
    pub fn gauss(&mut self) -> f64 {
        let (a, b) = (self.unit(), self.unit());
        (-2.0 * a.ln()).sqrt() * (2.0 * std::f64::consts::PI * b).cos()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ------------------------------------------------------------------------------------------------
// properties

/// Context of one case: labels, non-triviality and known findings.
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    /// set by a check that recognizes a listed finding; the key is looked up in the known findings file
    pub finding: Option<String>,
    pub metrics: Vec<(String, f64)>,
}

impl Cx {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.to_string());
        }
    }
    pub fn metric(&mut self, name: &str, v: f64) {
        self.metrics.push((name.to_string(), v));
    }
}

pub type Res = Result<(), String>;

pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Upper bound on the number of worker processes (for families using several threads per case).
    pub workers: usize,
    /// Run by workers built with this sanitizer only ("asan", "tsan"); such families report only how the process ends.
    pub build: &'static str,
    pub gen: Box<dyn Fn(&mut Src) -> Value>,
    pub run: Box<dyn Fn(&Value, &mut Cx) -> Res>,
}

pub fn family<C, G, R>(name: &'static str, quick: u64, thorough: u64, gen: G, run: R) -> Family
where
    C: serde::Serialize + serde::de::DeserializeOwned,
    G: Fn(&mut Src) -> C + 'static,
    R: Fn(&C, &mut Cx) -> Res + 'static,
{
    Family {
        name,
        quick,
        thorough,
        workers: 64,
        build: "",
        gen: Box::new(move |s| serde_json::to_value(gen(s)).expect("case to json")),
        run: Box::new(move |v, cx| {
            let case: C = serde_json::from_value(v.clone()).map_err(|e| format!("HARNESS: bad case: {}", e)).unwrap();
            run(&case, cx)
        }),
    }
}

impl Family {
    pub fn workers(mut self, n: usize) -> Self {
        self.workers = n;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Family>,
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*)); }
    };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(true);
}

static ANY_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {}: {}", loc, msg);
        LAST_PANIC.with(|p| *p.borrow_mut() = text.clone());
        if let Ok(mut p) = ANY_PANIC.lock() {
            *p = text.clone();
        }
        if std::env::var_os("GV_SHOW_PANICS").is_some() {
            eprintln!("{}", text);
        }
    }));
}

/// Runs `f`, turning a panic into an error with its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let mut text = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
            if text.is_empty() {
                text = ANY_PANIC.lock().map(|p| p.clone()).unwrap_or_default();
            }
            Err(text)
        }
    }
}

pub fn run_case(fam: &Family, case: &Value, cx: &mut Cx) -> Res {
    match no_panic(|| (fam.run)(case, cx)) {
        Ok(r) => r,
        Err(p) => {
            if p.contains("HARNESS:") {
                eprintln!("{}", p);
                std::process::exit(70);
            }
            Err(p)
        }
    }
}

// ------------------------------------------------------------------------------------------------
// worker process

fn case_seed(seed: u64, prop: &str, fam: &str, idx: u64) -> u64 {
    hash_bytes(format!("{}/{}/{}/{}", seed, prop, fam, idx).as_bytes())
}

fn fam_cases(f: &Family, tier: &str) -> u64 {
    let base = if tier == "thorough" { f.thorough } else { f.quick };
    match std::env::var("GV_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
        Some(x) => ((base as f64 * x).ceil() as u64).max(1),
        None => base,
    }
}

pub struct ProgressFile(std::fs::File);

impl ProgressFile {
    fn set(&self, fam: usize, idx: u64) {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(fam as u64 + 1).to_le_bytes());
        b[8..].copy_from_slice(&idx.to_le_bytes());
        let _ = self.0.write_all_at(&b, 0);
    }
    fn get(path: &str) -> Option<(usize, u64)> {
        let b = std::fs::read(path).ok()?;
        if b.len() < 16 {
            return None;
        }
        let f = u64::from_le_bytes(b[..8].try_into().unwrap());
        let i = u64::from_le_bytes(b[8..16].try_into().unwrap());
        if f == 0 {
            None
        } else {
            Some((f as usize - 1, i))
        }
    }
}

#[derive(serde::Serialize, serde::Deserialize, Default)]
struct WorkerOut {
    evaluations: BTreeMap<String, u64>,
    nontrivial: BTreeMap<String, Vec<u64>>,
    labels: BTreeMap<String, BTreeMap<String, u64>>,
    metrics: BTreeMap<String, (u64, f64, f64, f64)>,
    findings: BTreeMap<String, u64>,
    samples: Vec<Value>,
    failure: Option<Failure>,
    stopped_early: bool,
}

#[derive(serde::Serialize, serde::Deserialize, Clone, Debug)]
pub struct Failure {
    pub family: usize,
    pub idx: u64,
    pub message: String,
    pub crash: bool,
    #[serde(default)]
    pub hang: bool,
}

pub fn known_findings() -> HashSet<String> {
    let path = std::env::var("GV_KNOWN").unwrap_or_else(|_| "/verif/known_findings.json".into());
    let mut set = HashSet::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        let v: Value = serde_json::from_str(&s).expect("known_findings.json");
        for f in v["findings"].as_array().into_iter().flatten() {
            set.insert(format!("{}:{}", f["property"].as_str().unwrap(), f["key"].as_str().unwrap()));
        }
    }
    set
}

fn truncate_value(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v.clone()
    } else {
        let mut end = 1500;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        Value::String(format!("{}... ({} bytes of json)", &s[..end], s.len()))
    }
}

pub fn worker(prop: &Property, w: u64, n: u64, seed: u64, tier: &str, deadline_s: u64, dir: &str) -> i32 {
    let progress = ProgressFile(
        std::fs::OpenOptions::new().create(true).write(true).open(format!("{}/progress-{}", dir, w)).expect("progress"),
    );
    let start = Instant::now();
    let known = known_findings();
    let mut out = WorkerOut::default();
    let own_build = std::env::var("GV_BUILD").unwrap_or_default();
    'outer: for (fi, fam) in prop.families.iter().enumerate() {
        if let Ok(only) = std::env::var("GV_FAMILY") {
            if only != fam.name {
                continue;
            }
        }
        let total = fam_cases(fam, tier);
        if fam.build != own_build {
            continue;
        }
        // workers with even and odd numbers have different sanitizers
        let (w, n) = if fam.build.is_empty() { (w, n) } else { (w / 2, n / 2) };
        let nw = n.min(fam.workers as u64);
        if w >= nw {
            continue;
        }
        let t0 = Instant::now();
        let mut idx = w;
        while idx < total {
            if start.elapsed().as_secs() > deadline_s {
                out.stopped_early = true;
                break 'outer;
            }
            progress.set(fi, idx);
            let mut src = Src::random(case_seed(seed, prop.id, fam.name, idx));
            let case = (fam.gen)(&mut src);
            let mut cx = Cx::default();
            let res = run_case(fam, &case, &mut cx);
            *out.evaluations.entry(fam.name.to_string()).or_default() += 1;
            if cx.nontrivial {
                out.nontrivial.entry(fam.name.to_string()).or_default().push(hash_bytes(case.to_string().as_bytes()));
                let have = out.samples.iter().filter(|s| s["family"] == fam.name).count();
                if w == 0 && have < 2 {
                    out.samples.push(json!({"family": fam.name, "case": truncate_value(&case), "labels": cx.labels}));
                }
            }
            let labels = out.labels.entry(fam.name.to_string()).or_default();
            cx.labels.sort();
            cx.labels.dedup();
            for l in &cx.labels {
                *labels.entry(l.clone()).or_default() += 1;
            }
            for (k, v) in &cx.metrics {
                let e = out.metrics.entry(format!("{}.{}", fam.name, k)).or_insert((0, 0.0, f64::MAX, f64::MIN));
                e.0 += 1;
                e.1 += v;
                e.2 = e.2.min(*v);
                e.3 = e.3.max(*v);
            }
            if let Err(message) = res {
                let key = cx.finding.as_ref().map(|k| format!("{}:{}", prop.id, k));
                if key.as_ref().map_or(false, |k| known.contains(k)) {
                    *out.findings.entry(format!("{}: {}", cx.finding.unwrap(), message)).or_default() += 1;
                } else {
                    out.failure = Some(Failure { family: fi, idx, message, crash: false, hang: false });
                    break 'outer;
                }
            }
            idx += nw;
        }
        out.metrics.insert(format!("{}.worker_seconds", fam.name), {
            let t = t0.elapsed().as_secs_f64();
            (1, t, t, t)
        });
    }
    std::fs::write(format!("{}/out-{}.json", dir, w), serde_json::to_vec(&out).unwrap()).expect("write out");
    if out.failure.is_some() {
        10
    } else {
        0
    }
}

/// The standard output, which the code under test prints to /dev/null from now on.
pub fn private_stdout() -> std::fs::File {
    use std::os::unix::io::FromRawFd;
    unsafe {
        let fd = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        assert!(fd >= 0 && null >= 0);
        libc::dup2(null, 1);
        libc::close(null);
        std::fs::File::from_raw_fd(fd)
    }
}

/// Executes cases given as one JSON array of choices (or {"case":..}) per line on stdin.
pub fn exec_server(prop: &Property, family: usize) {
    let stdin = std::io::stdin();
    let mut answers = private_stdout();
    let fam = &prop.families[family];
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => return,
        };
        let v: Value = serde_json::from_str(&line).expect("exec line");
        let (case, rec) = if v.is_array() {
            let choices: Vec<u64> = serde_json::from_value(v).unwrap();
            let mut src = Src::replay(choices);
            let case = (fam.gen)(&mut src);
            (case, src.rec)
        } else {
            (v["case"].clone(), vec![])
        };
        let mut cx = Cx::default();
        let res = run_case(fam, &case, &mut cx);
        let ans = json!({"ok": res.is_ok(), "message": res.err(), "rec": rec, "finding": cx.finding});
        writeln!(answers, "ANSWER {}", ans).unwrap();
    }
}

// ------------------------------------------------------------------------------------------------
// parent process

struct Server {
    child: Child,
    out: std::sync::mpsc::Receiver<Option<String>>,
}

fn set_death_signal(cmd: &mut Command, limit_memory: bool) {
    use std::os::unix::process::CommandExt;
    unsafe {
        cmd.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // no core files
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            if limit_memory {
                // a case that allocates without end fails by itself
                let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
                libc::setrlimit(libc::RLIMIT_DATA, &lim);
            }
            Ok(())
        });
    }
}

/// The same program built without debug assertions and overflow checks, as users build it.
fn plain_exe() -> Option<std::path::PathBuf> {
    std::env::var_os("GV_PLAIN_EXE").map(|p| p.into())
}

/// The build that runs the case `idx` of a family: workers with odd numbers use the plain one, if there is one.
fn build_of(fam: &Family, idx: u64, cores: u64) -> &'static str {
    if !fam.build.is_empty() {
        fam.build
    } else if plain_exe().is_some() && (idx % cores.min(fam.workers as u64)) % 2 == 1 {
        "plain"
    } else {
        ""
    }
}

fn child_cmd(dir: &str, build: &str) -> Command {
    let exe = match build {
        "plain" => plain_exe(),
        "asan" | "tsan" => {
            Some(std::env::var_os(format!("GV_{}_EXE", build.to_uppercase())).expect("program built with a sanitizer").into())
        }
        _ => None,
    };
    let mut cmd = Command::new(exe.unwrap_or_else(|| std::env::current_exe().unwrap()));
    cmd.env("RAYON_NUM_THREADS", "1").env("GV_SCRATCH", dir);
    let sanitized = build == "asan" || build == "tsan";
    if sanitized {
        cmd.env("GV_BUILD", build);
        let log = format!("log_path={}/sanitizer", dir);
        cmd.env("ASAN_OPTIONS", format!("{}:detect_leaks=0:abort_on_error=1:quarantine_size_mb=32:hard_rss_limit_mb=3500:allocator_may_return_null=0", log));
        cmd.env("TSAN_OPTIONS", format!("{}:halt_on_error=1:abort_on_error=1:memory_limit_mb=3500", log));
    }
    set_death_signal(&mut cmd, !sanitized);
    cmd
}

/// The first lines of the reports of a sanitizer.
fn sanitizer_report(dir: &str) -> String {
    let mut text = String::new();
    for f in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if f.file_name().to_string_lossy().starts_with("sanitizer") {
            let s = std::fs::read_to_string(f.path()).unwrap_or_default();
            text = s.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("====")).take(12).collect::<Vec<_>>().join(" | ");
            let _ = std::fs::remove_file(f.path());
        }
    }
    text
}

impl Server {
    fn start(prop: &Property, family: usize, dir: &str, build: &str) -> Server {
        let mut cmd = child_cmd(dir, build);
        cmd.args(["exec", prop.id, &family.to_string()]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        let mut child = cmd.spawn().expect("spawn exec server");
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let r = BufReader::new(stdout);
            for line in r.lines() {
                match line {
                    Ok(l) => {
                        if let Some(a) = l.strip_prefix("ANSWER ") {
                            let _ = tx.send(Some(a.to_string()));
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(None);
        });
        Server { child, out: rx }
    }

    fn kill(mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

enum Outcome {
    Pass,
    Fail { message: String, rec: Vec<u64>, crash: bool },
    Timeout,
}

struct Runner<'a> {
    prop: &'a Property,
    family: usize,
    dir: String,
    build: &'static str,
    server: Option<Server>,
    known: HashSet<String>,
}

impl<'a> Runner<'a> {
    fn run(&mut self, line: &str, choices: &[u64], timeout: Duration) -> Outcome {
        if self.server.is_none() {
            self.server = Some(Server::start(self.prop, self.family, &self.dir, self.build));
        }
        let srv = self.server.as_mut().unwrap();
        let ok = {
            let stdin = srv.child.stdin.as_mut().unwrap();
            stdin.write_all(line.as_bytes()).and_then(|_| stdin.write_all(b"\n")).and_then(|_| stdin.flush()).is_ok()
        };
        let ans = if ok { srv.out.recv_timeout(timeout) } else { Ok(None) };
        match ans {
            Ok(Some(a)) => {
                let v: Value = serde_json::from_str(&a).unwrap();
                if v["ok"].as_bool().unwrap() {
                    return Outcome::Pass;
                }
                if let Some(k) = v["finding"].as_str() {
                    if self.known.contains(&format!("{}:{}", self.prop.id, k)) {
                        return Outcome::Pass;
                    }
                }
                Outcome::Fail {
                    message: v["message"].as_str().unwrap_or("").to_string(),
                    rec: serde_json::from_value(v["rec"].clone()).unwrap(),
                    crash: false,
                }
            }
            Ok(None) => {
                let mut srv = self.server.take().unwrap();
                let status = srv.child.wait().expect("wait");
                if status.code() == Some(70) {
                    return Outcome::Pass;
                }
                Outcome::Fail { message: format!("process died: {} {}", status, sanitizer_report(&self.dir)), rec: choices.to_vec(), crash: true }
            }
            Err(_) => {
                self.server.take().unwrap().kill();
                Outcome::Timeout
            }
        }
    }

    fn run_choices(&mut self, c: &[u64], timeout: Duration) -> Outcome {
        let line = serde_json::to_string(c).unwrap();
        self.run(&line, c, timeout)
    }
}

fn shortlex_less(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

fn shrink(runner: &mut Runner, mut best: Vec<u64>, mut message: String, mut crash: bool, budget: Duration) -> (Vec<u64>, String, bool, u64) {
    let start = Instant::now();
    let mut execs = 0u64;
    let mut try_it = |cand: Vec<u64>, best: &mut Vec<u64>, message: &mut String, crash: &mut bool, execs: &mut u64| -> bool {
        if !shortlex_less(&cand, best) {
            return false;
        }
        *execs += 1;
        let left = budget.checked_sub(start.elapsed()).unwrap_or_default().max(Duration::from_millis(1));
        match runner.run_choices(&cand, left.min(Duration::from_secs(20))) {
            Outcome::Fail { message: m, rec, crash: c } => {
                let new = if !c && shortlex_less(&rec, &cand) { rec } else { cand };
                *best = new;
                *message = m;
                *crash = c;
                true
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                if start.elapsed() > budget {
                    return (best, message, crash, execs);
                }
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if !try_it(cand, &mut best, &mut message, &mut crash, &mut execs) {
                    // deleting an element of a list: reduce the preceding length as well
                    let mut done = false;
                    if size <= 8 && i > 0 {
                        for back in 1..=2usize {
                            if i >= back && best[i - back] > 0 {
                                let mut cand = best.clone();
                                cand[i - back] -= 1;
                                cand.drain(i..i + size);
                                if try_it(cand, &mut best, &mut message, &mut crash, &mut execs) {
                                    done = true;
                                    break;
                                }
                            }
                        }
                    }
                    if !done {
                        i += (size / 2).max(1);
                    }
                }
            }
            size /= 2;
        }
        // zero blocks and minimize values
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            if start.elapsed() > budget {
                return (best, message, crash, execs);
            }
            if best[i] == 0 {
                continue;
            }
            let mut cand = best.clone();
            cand[i] = 0;
            if try_it(cand, &mut best, &mut message, &mut crash, &mut execs) {
                continue;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo + 1 < hi && i < best.len() {
                if start.elapsed() > budget {
                    break;
                }
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if try_it(cand, &mut best, &mut message, &mut crash, &mut execs) {
                    if i < best.len() {
                        hi = best[i].min(mid);
                    }
                } else {
                    lo = mid;
                }
            }
        }
        if best == before {
            break;
        }
    }
    (best, message, crash, execs)
}

/// Processor time used by a process started by this one, in clock ticks (1/100 s).
fn cpu_ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    n(11) + n(12)
}

/// Whether every thread of a process started by this one is in interruptible sleep.
fn all_sleeping(pid: u32) -> bool {
    let Ok(dir) = std::fs::read_dir(format!("/proc/{}/task", pid)) else { return false };
    let mut any = false;
    for t in dir.flatten() {
        let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        let state = s.rsplit(')').next().unwrap_or("").trim_start().chars().next();
        if state != Some('S') {
            return false;
        }
        any = true;
    }
    any
}

pub fn parent(prop: &Property, seed: u64, tier: &str, verif: &str) -> i32 {
    let start = Instant::now();
    let dir = format!("{}/granne_verif.{}.{}", std::env::temp_dir().display(), prop.id, std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let code = parent_inner(prop, seed, tier, verif, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn parent_inner(prop: &Property, seed: u64, tier: &str, verif: &str, dir: &str, start: Instant) -> i32 {
    let cores = std::env::var("GV_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8))
        .clamp(1, 16) as u64;
    let deadline: u64 = if tier == "thorough" { 6 * 3600 } else { 600 };
    let hang_limit = if tier == "thorough" { 3000 } else { 600 };
    let mut children: Vec<Option<Child>> = Vec::new();
    // programs with sanitizers, if the property needs them
    let sanitized = prop.families.iter().any(|f| !f.build.is_empty());
    let cores = if sanitized { cores.max(2) / 2 * 2 } else { cores };
    for w in 0..cores {
        let build = match (sanitized, w % 2) {
            (true, 0) => "asan",
            (true, _) => "tsan",
            (false, 0) => "",
            (false, _) => "plain",
        };
        let mut cmd = child_cmd(&format!("{}/w{}", dir, w), build);
        std::fs::create_dir_all(format!("{}/w{}", dir, w)).unwrap();
        cmd.args(["worker", prop.id, &w.to_string(), &cores.to_string(), &seed.to_string(), tier, &deadline.to_string(), dir])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::inherit());
        children.push(Some(cmd.spawn().expect("spawn worker")));
    }
    let mut last: Vec<(Option<(usize, u64)>, Instant)> = vec![(None, Instant::now()); cores as usize];
    let mut cpu_at = vec![0u64; cores as usize];
    let mut idle = vec![(0u64, Instant::now()); cores as usize];
    let cpu_limit: u64 = if tier == "thorough" { 600 } else { 120 };
    let mut failures: Vec<Failure> = Vec::new();
    let mut error = None;
    loop {
        let mut running = 0;
        for w in 0..cores as usize {
            let Some(child) = children[w].as_mut() else { continue };
            match child.try_wait().expect("wait") {
                Some(status) => {
                    children[w] = None;
                    match status.code() {
                        Some(0) | Some(10) => {}
                        Some(70) => error = Some("harness error in a worker".to_string()),
                        _ => match ProgressFile::get(&format!("{}/progress-{}", dir, w)) {
                            Some((family, idx)) => {
                                use std::os::unix::process::ExitStatusExt;
                                if status.signal() == Some(libc::SIGKILL) {
                                    error = Some(format!("worker {} was killed (out of memory?) in case {}/{}", w, family, idx));
                                } else {
                                    failures.push(Failure { family, idx, message: format!("process died: {} {}", status, sanitizer_report(&format!("{}/w{}", dir, w))), crash: true, hang: false });
                                }
                            }
                            None => error = Some(format!("worker {} failed: {}", w, status)),
                        },
                    }
                    if let Ok(b) = std::fs::read(format!("{}/out-{}.json", dir, w)) {
                        let out: WorkerOut = serde_json::from_slice(&b).expect("worker out");
                        if let Some(f) = out.failure {
                            failures.push(f);
                        }
                    }
                }
                None => {
                    running += 1;
                    let cur = ProgressFile::get(&format!("{}/progress-{}", dir, w));
                    if cur != last[w].0 {
                        last[w] = (cur, Instant::now());
                        cpu_at[w] = cpu_ticks(child.id());
                        idle[w] = (cpu_at[w], Instant::now());
                    } else if let Some((family, idx)) = cur {
                        let cpu = cpu_ticks(child.id());
                        if cpu != idle[w].0 || !all_sleeping(child.id()) {
                            idle[w] = (cpu, Instant::now());
                        }
                        let blocked = idle[w].1.elapsed().as_secs() >= 40;
                        let endless = cpu.saturating_sub(cpu_at[w]) > cpu_limit * 100;
                        if sanitized && (blocked || endless) {
                            // no memory error; whether cases end is for the properties they come from
                            error = Some(format!("case {}/{} does not end in a program with a sanitizer", family, idx));
                        } else if blocked {
                            failures.push(Failure {
                                family,
                                idx,
                                message: "blocked forever: every thread of the process has been asleep for 40 s".into(),
                                crash: true,
                                hang: true,
                            });
                        } else if endless {
                            failures.push(Failure {
                                family,
                                idx,
                                message: format!("does not terminate: more than {} s of processor time in one case", cpu_limit),
                                crash: true,
                                hang: true,
                            });
                        } else if last[w].1.elapsed().as_secs() > hang_limit {
                            error = Some(format!("watchdog: worker {} stuck in case {:?}", w, cur));
                        }
                    }
                }
            }
        }
        if running == 0 || error.is_some() || !failures.is_empty() {
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    if !failures.is_empty() {
        // give the others a moment to find an earlier failure, then stop them
        let t = Instant::now();
        while t.elapsed() < Duration::from_millis(1500) && children.iter().any(|c| c.is_some()) {
            for w in 0..cores as usize {
                if let Some(child) = children[w].as_mut() {
                    if child.try_wait().expect("wait").is_some() {
                        children[w] = None;
                        if let Ok(b) = std::fs::read(format!("{}/out-{}.json", dir, w)) {
                            let out: WorkerOut = serde_json::from_slice(&b).expect("worker out");
                            if let Some(f) = out.failure {
                                failures.push(f);
                            }
                        }
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    for c in children.iter_mut().flatten() {
        let _ = c.kill();
        let _ = c.wait();
    }

    let mut violations = 0;
    let mut replay_path = String::new();
    if !failures.is_empty() {
        violations = 1;
        failures.sort_by_key(|f| (f.family, f.idx));
        let f = failures[0].clone();
        let fam = &prop.families[f.family];
        let mut src = Src::random(case_seed(seed, prop.id, fam.name, f.idx));
        let _ = (fam.gen)(&mut src);
        let choices = src.rec;
        let build = build_of(fam, f.idx, cores);
        let sdir = format!("{}/shrink", dir);
        std::fs::create_dir_all(&sdir).unwrap();
        let mut runner = Runner { prop, family: f.family, dir: sdir, build, server: None, known: known_findings() };
        let budget = Duration::from_secs(std::env::var("GV_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(30));
        let first = if f.hang { Outcome::Timeout } else { runner.run_choices(&choices, Duration::from_secs(120)) };
        let (best, message, crash, execs, reproduced) = match first {
            Outcome::Fail { message, crash, .. } => {
                let (b, m, c, e) = shrink(&mut runner, choices, message, crash, budget);
                (b, m, c, e, true)
            }
            _ => (choices, f.message.clone(), f.crash, 0, false),
        };
        if let Some(s) = runner.server.take() {
            s.kill();
        }
        let mut src = Src::replay(best.clone());
        let case = (fam.gen)(&mut src);
        let replay = json!({
            "property": prop.id, "family": fam.name, "seed": seed, "case_index": f.idx, "tier": tier,
            "message": message, "crash": crash, "build": if build.is_empty() { "release" } else { build }, "reproduced_in_fresh_process": reproduced,
            "original_message": f.message, "shrink_executions": execs,
            "choices": best, "case": case,
        });
        std::fs::create_dir_all(format!("{}/replays", verif)).ok();
        replay_path = format!("{}/replays/{}-{}-{:016x}.json", verif, prop.id, fam.name, hash_bytes(case.to_string().as_bytes()));
        std::fs::write(&replay_path, serde_json::to_string_pretty(&replay).unwrap()).expect("write replay");
        println!("property {} family {} case {}: {}", prop.id, fam.name, f.idx, message);
        println!("minimal case: {}", truncate_value(&case));
    }

    // merge
    let mut evals = BTreeMap::<String, u64>::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut nontrivial_by = BTreeMap::<String, HashSet<u64>>::new();
    let mut labels = BTreeMap::<String, BTreeMap<String, u64>>::new();
    let mut metrics = BTreeMap::<String, (u64, f64, f64, f64)>::new();
    let mut findings = BTreeMap::<String, u64>::new();
    let mut samples = Vec::new();
    let mut stopped = false;
    for w in 0..cores {
        let Ok(b) = std::fs::read(format!("{}/out-{}.json", dir, w)) else { continue };
        let out: WorkerOut = serde_json::from_slice(&b).expect("worker out");
        for (k, v) in out.evaluations {
            *evals.entry(k).or_default() += v;
        }
        for (k, v) in out.nontrivial {
            for h in v {
                nontrivial.insert(h ^ hash_bytes(k.as_bytes()));
                nontrivial_by.entry(k.clone()).or_default().insert(h);
            }
        }
        for (k, m) in out.labels {
            let e = labels.entry(k).or_default();
            for (l, c) in m {
                *e.entry(l).or_default() += c;
            }
        }
        for (k, m) in out.metrics {
            let e = metrics.entry(k).or_insert((0, 0.0, f64::MAX, f64::MIN));
            e.0 += m.0;
            e.1 += m.1;
            e.2 = e.2.min(m.2);
            e.3 = e.3.max(m.3);
        }
        for (k, v) in out.findings {
            *findings.entry(k).or_default() += v;
        }
        samples.extend(out.samples);
        stopped |= out.stopped_early;
    }
    let evaluations: u64 = evals.values().sum();
    let per_family: BTreeMap<String, Value> = evals
        .iter()
        .map(|(k, v)| {
            (
                k.clone(),
                json!({"evaluations": v, "distinct_nontrivial": nontrivial_by.get(k).map_or(0, |s| s.len()),
                       "classes": labels.get(k)}),
            )
        })
        .collect();
    let metrics: BTreeMap<String, Value> = metrics
        .into_iter()
        .map(|(k, m)| (k, json!({"count": m.0, "mean": m.1 / m.0 as f64, "min": m.2, "max": m.3})))
        .collect();
    let evidence = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial.len(),
            "rule": prop.rule,
            "samples": samples,
            "families": per_family,
            "measurements": metrics,
            "stopped_early": stopped,
            "known_findings_hit": findings,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::create_dir_all(format!("{}/evidence", verif)).ok();
    std::fs::write(
        format!("{}/evidence/{}.json", verif, prop.id),
        serde_json::to_string_pretty(&evidence).unwrap(),
    )
    .expect("write evidence");
    for (k, c) in &findings {
        println!("KNOWN-FINDING: property={} {} ({} cases)", prop.id, k, c);
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s{}",
        prop.id,
        evaluations,
        nontrivial.len(),
        start.elapsed().as_secs_f64(),
        if stopped { " (stopped at the time limit)" } else { "" }
    );
    if violations > 0 {
        println!("VIOLATION property={} replay={}", prop.id, replay_path);
        return 1;
    }
    if let Some(e) = error {
        eprintln!("ERROR: {}", e);
        println!("ERROR: {}", e);
        return 3;
    }
    0
}

/// Runs the case of a replay file. Exit code 1: still failing.
pub fn replay(props: &[Property], path: &str) -> i32 {
    let mut s = String::new();
    std::fs::File::open(path).expect("replay file").read_to_string(&mut s).unwrap();
    let v: Value = serde_json::from_str(&s).expect("replay json");
    let prop = props.iter().find(|p| v["property"] == p.id).expect("property");
    let fam = prop.families.iter().find(|f| v["family"] == f.name).expect("family");
    if std::env::var_os("GV_SCRATCH").is_none() {
        let dir = format!("{}/granne_verif.replay.{}", std::env::temp_dir().display(), std::process::id());
        std::fs::create_dir_all(&dir).unwrap();
        std::env::set_var("GV_SCRATCH", &dir);
    }
    let mut cx = Cx::default();
    let res = run_case(fam, &v["case"], &mut cx);
    if std::env::var("GV_SCRATCH").unwrap().contains("granne_verif.replay.") {
        let _ = std::fs::remove_dir_all(std::env::var("GV_SCRATCH").unwrap());
    }
    println!("labels: {:?}", cx.labels);
    match res {
        Ok(()) => {
            println!("property {} holds on this case", prop.id);
            0
        }
        Err(m) => {
            println!("property {} FAILS: {}", prop.id, m);
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
    }
}

pub fn scratch() -> String {
    std::env::var("GV_SCRATCH").expect("GV_SCRATCH")
}
