//! The engine: generates cases with proptest, runs them, shrinks and confirms failures, counts,
//! and writes the evidence.
use crate::server::{machine_is_responsive, NetErr, ServerThread};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;
/// How many earlier cases a failure that does not come back alone is tried with.
const HISTORY: usize = 48;
/// A quick check generates no new cases after this time.
pub const QUICK_LIMIT: Duration = Duration::from_secs(420);
/// A case that computes for this long is taken for an endless loop (and confirmed elsewhere).
pub const STUCK: Duration = Duration::from_secs(90);

#[derive(Debug, Clone)]
pub enum Fail {
    /// the property is broken
    Violation(String),
    /// the server stopped answering
    Hang(String),
    /// the harness could not do its work
    Infra(String),
}
pub type Res = Result<(), Fail>;

pub fn violated<T>(s: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation(s.into()))
}
impl From<NetErr> for Fail {
    fn from(e: NetErr) -> Fail {
        match e {
            NetErr::Timeout => Fail::Hang("no answer".into()),
            NetErr::Setup(s) => Fail::Infra(s),
            e => Fail::Violation(format!("{e:?}")),
        }
    }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => {
        if !($c) {
            return Err($crate::core::Fail::Violation(format!($($f)*)));
        }
    };
}

/// At most `n` bytes of a text.
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}... ({} bytes)", &s[..k], s.len())
}
/// Two texts around their first difference.
pub fn differ(a: &str, b: &str) -> String {
    let mut k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(80);
    while !a.is_char_boundary(k) || !b.is_char_boundary(k) {
        k -= 1;
    }
    format!("[{k}..] {:?} and {:?}", clip(&a[k..], 300), clip(&b[k..], 300))
}

/// What a case may use while it runs.
pub struct Env {
    pub srv: ServerThread,
    mt: Option<ServerThread>,
    rt: tokio::runtime::Runtime,
    /// relative directory of its own, exists, emptied before each case that asks for it
    pub dir: String,
    labels: BTreeMap<String, u64>,
    nontrivial: bool,
    pub thorough: bool,
}
impl Env {
    pub fn new(shard: usize, thorough: bool) -> Env {
        let dir = format!("s{shard}");
        let _ = std::fs::create_dir_all(&dir);
        Env {
            srv: ServerThread::new(0),
            mt: None,
            rt: tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap(),
            dir,
            labels: BTreeMap::new(),
            nontrivial: false,
            thorough,
        }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output {
        self.rt.block_on(f)
    }
    /// a server whose connections run on several threads
    pub fn mt(&mut self) -> &mut ServerThread {
        self.mt.get_or_insert_with(|| ServerThread::new(3))
    }
    fn replace_servers(&mut self) {
        self.srv.replace();
        self.mt = None;
    }
    /// a fresh, empty directory (relative to the working directory)
    pub fn fresh_dir(&mut self) -> String {
        let d = format!("{}/c", self.dir);
        if Path::new(&d).exists() {
            std::fs::remove_dir_all(&d).expect("scratch");
        }
        std::fs::create_dir_all(&d).expect("scratch");
        d
    }
}

pub trait Check: Sync {
    type Case: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// number of cases of the quick and the thorough tier
    fn cases(&self) -> (u64, u64);
    fn strategy(&self, thorough: bool) -> BoxedStrategy<Self::Case>;
    fn run(&self, env: &mut Env, case: &Self::Case) -> Res;
    /// Whether a case is to run in a process of its own whose standard output and error are a
    /// full disk while its servers answer.
    fn full_disk(&self, _case: &Self::Case) -> bool {
        false
    }
}

// ------------------------------------------------------------------ a process of its own

static ON_FULL_DISK: AtomicBool = AtomicBool::new(false);
/// In the process of such a case: what the library prints can be written or cannot.
pub fn disk_is_full(full: bool) {
    if ON_FULL_DISK.load(Ordering::SeqCst) {
        let f = if full { c"/dev/full" } else { c"/dev/null" };
        unsafe {
            let d = libc::open(f.as_ptr(), libc::O_WRONLY);
            libc::dup2(d, 1);
            libc::dup2(d, 2);
            libc::close(d);
        }
    }
}
/// Runs the case on standard input; the whole of such a process.
pub fn run_once<C: Check>(c: &C, js: &str) -> (u8, String) {
    ON_FULL_DISK.store(true, Ordering::SeqCst);
    let Ok(case) = serde_json::from_str::<C::Case>(js) else { return (3, "case".into()) };
    let mut env = Env::new(0, false);
    let r = exec(c, &mut env, &case);
    disk_is_full(false);
    match r {
        Ok(()) => (0, String::new()),
        Err(Fail::Violation(m)) => (1, with_panic_note(m)),
        Err(Fail::Hang(m)) => (2, m),
        Err(Fail::Infra(m)) => (3, m),
    }
}
fn in_own_process<C: Check>(c: &C, env: &mut Env, case: &C::Case) -> Res {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    let infra = |e: std::io::Error| Fail::Infra(format!("own process: {e}"));
    env.label("in a process of its own, its output a full disk");
    env.nontrivial(true);
    let mut ch = Command::new(std::env::current_exe().map_err(infra)?)
        .args(["once", c.id(), "--scratch", &env.fresh_dir()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(infra)?;
    let mut out = String::new();
    let js = serde_json::to_string(case).expect("case to json");
    let _ = ch.stdin.take().map(|mut i| i.write_all(js.as_bytes()));
    let _ = ch.stdout.take().map(|mut o| o.read_to_string(&mut out));
    let st = ch.wait().map_err(infra)?;
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(0), _) => Ok(()),
        (Some(1), _) => Err(Fail::Violation(format!("with standard output and error on a full disk: {out}"))),
        (Some(2), _) => Err(Fail::Hang(format!("with standard output and error on a full disk: {out}"))),
        (None, Some(s)) if s != libc::SIGKILL => Err(Fail::Violation(format!("the process of the case ended with signal {s}"))),
        _ => Err(Fail::Infra(format!("own process: {st} {out}"))),
    }
}

// ------------------------------------------------------------------ panics

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
thread_local! {
    static MY_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        MY_PANIC.with(|p| *p.borrow_mut() = s.clone());
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = s;
    }));
}
pub fn my_panic() -> String {
    MY_PANIC.with(|p| p.borrow().clone())
}

// ------------------------------------------------------------------ running one case

pub fn exec<C: Check>(c: &C, env: &mut Env, case: &C::Case) -> Res {
    if c.full_disk(case) && !ON_FULL_DISK.load(Ordering::SeqCst) {
        return in_own_process(c, env, case);
    }
    let r = match catch_unwind(AssertUnwindSafe(|| c.run(env, case))) {
        Ok(r) => r,
        Err(_) => Err(Fail::Violation(format!("panic: {}", my_panic()))),
    };
    if let Err(Fail::Hang(_)) | Err(Fail::Infra(_)) = r {
        env.replace_servers();
    }
    r
}

fn with_panic_note(s: String) -> String {
    let s = clip(&s, 3000);
    let p = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
    if p.is_empty() || s.contains(&p) {
        s
    } else {
        format!("{s} (last panic seen: {p})")
    }
}

/// A hang is believed only if it comes back three times in a row on a responsive machine.
fn hang_confirmed<C: Check>(c: &C, env: &mut Env, case: &C::Case) -> bool {
    (0..3).all(|_| {
        let r = exec(c, env, case);
        matches!(r, Err(Fail::Hang(_))) && machine_is_responsive()
    })
}

pub struct Opts {
    pub root: PathBuf,
    pub scratch: PathBuf,
    pub tier: String,
    pub seed: u64,
    pub factor: f64,
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    unreproduced: Vec<String>,
    /// of those: wrong answers, with the cases before them
    wrong_once: Vec<(String, String, Vec<String>)>,
    infra: Vec<String>,
}

pub struct Violation {
    pub file: PathBuf,
    pub msg: String,
}

pub fn hash_of(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn shard_rng(seed: u64, id: &str, shard: usize) -> TestRng {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&hash_of(id).to_le_bytes());
    b[16..24].copy_from_slice(&(shard as u64).to_le_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, &b)
}

/// A failure: the case, what is wrong, and the cases that have to run before it.
type Found = (String, String, Vec<String>);

struct Shared {
    stop: AtomicBool,
    /// a shard looks closer at a failure; the others wait
    pause: AtomicBool,
    confirming: Mutex<()>,
    tally: Mutex<Tally>,
    found: Mutex<Option<Found>>,
    /// panics of the harness itself
    broken: Mutex<Vec<String>>,
    /// per shard: start of the current case
    since: Vec<AtomicU64>,
    cur: Vec<Mutex<String>>,
    t0: Instant,
}

/// Confirms a failing case by running it again, alone; returns the message.
fn confirm<C: Check>(c: &C, env: &mut Env, case: &C::Case) -> Option<String> {
    let t = Instant::now();
    for _ in 0..20 {
        if t.elapsed() > Duration::from_secs(90) {
            break;
        }
        match exec(c, env, case) {
            Err(Fail::Violation(m)) => return Some(with_panic_note(m)),
            Err(Fail::Hang(m)) => {
                if hang_confirmed(c, env, case) {
                    return Some(with_panic_note(m));
                }
            }
            _ => {}
        }
    }
    None
}

/// Runs a case after the ones that came before it, for failures that depend on what the process
/// did earlier.
fn after_history<C: Check>(c: &C, env: &mut Env, history: &[String], case: &C::Case) -> Option<String> {
    let t = Instant::now();
    for _ in 0..3 {
        if t.elapsed() > Duration::from_secs(60) {
            break;
        }
        for h in history {
            if let Ok(h) = serde_json::from_str::<C::Case>(h) {
                let _ = exec(c, env, &h);
            }
        }
        if let Err(Fail::Violation(m)) = exec(c, env, case) {
            return Some(with_panic_note(m));
        }
    }
    None
}

fn shard<C: Check>(c: &C, o: &Opts, sh: &Shared, k: usize, n: u64) {
    let thorough = o.tier == "thorough";
    let mut env = Env::new(k, thorough);
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, shard_rng(o.seed, c.id(), k));
    let strat = c.strategy(thorough);
    let curfile = o.scratch.join(format!("cur-{k}"));
    let note = |case: &C::Case| -> String {
        let s = serde_json::to_string(case).expect("case to json");
        *sh.cur[k].lock().unwrap() = s.clone();
        let _ = std::fs::write(&curfile, &s);
        sh.since[k].store(sh.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        s
    };
    let done = || sh.since[k].store(0, Ordering::SeqCst);
    let mut local = Tally::default();
    let mut history: std::collections::VecDeque<String> = Default::default();
    for i in 0..n {
        while sh.pause.load(Ordering::SeqCst) && !sh.stop.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(5));
        }
        if sh.stop.load(Ordering::SeqCst) {
            break;
        }
        if !thorough && sh.t0.elapsed() > QUICK_LIMIT {
            // a very slow machine: what was explored so far has to do
            break;
        }
        let mut tree = match strat.new_tree(&mut runner) {
            Ok(t) => t,
            Err(e) => {
                local.infra.push(format!("generation: {e}"));
                continue;
            }
        };
        let case = tree.current();
        let js = note(&case);
        env.nontrivial = false;
        let r = exec(c, &mut env, &case);
        done();
        local.evaluations += 1;
        if env.nontrivial {
            local.distinct.insert(hash_of(&js));
            if local.samples.len() < 2 && (i > 20 || i + 1 >= n) && js.len() < 4000 {
                local.samples.push(serde_json::from_str(&js).unwrap());
            }
        }
        match r {
            Ok(()) => {}
            Err(Fail::Infra(m)) => local.infra.push(m),
            Err(f) => {
                let turn = sh.confirming.lock().unwrap_or_else(|e| e.into_inner());
                if sh.stop.load(Ordering::SeqCst) {
                    break; // another shard has a failure
                }
                sh.pause.store(true, Ordering::SeqCst);
                let hang = matches!(f, Fail::Hang(_));
                // a lone hiccup of the machine is not a failure
                let first = confirm(c, &mut env, &case);
                done();
                let Some(mut msg) = first else {
                    let before: Vec<String> = history.iter().cloned().collect();
                    if let (false, Some(m)) = (hang, after_history(c, &mut env, &before, &case)) {
                        sh.stop.store(true, Ordering::SeqCst);
                        *sh.found.lock().unwrap() = Some((js, m, before));
                        break;
                    }
                    local.unreproduced.push(format!("{f:?}: {}", js.chars().take(2000).collect::<String>()));
                    if let Fail::Violation(m) = f {
                        local.wrong_once.push((js, m, before));
                    }
                    sh.pause.store(false, Ordering::SeqCst);
                    continue;
                };
                sh.stop.store(true, Ordering::SeqCst);
                drop(turn);
                let mut best = js;
                if !hang {
                    let t = Instant::now();
                    let mut steps = 0;
                    if tree.simplify() {
                        loop {
                            steps += 1;
                            if steps > 6000 || t.elapsed() > Duration::from_secs(100) {
                                break;
                            }
                            let cand = tree.current();
                            let s = note(&cand);
                            let r = exec(c, &mut env, &cand);
                            done();
                            match r {
                                Err(Fail::Violation(m)) => {
                                    best = s;
                                    msg = with_panic_note(m);
                                    if !tree.simplify() {
                                        break;
                                    }
                                }
                                _ => {
                                    if !tree.complicate() {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                *sh.found.lock().unwrap() = Some((best, msg, vec![]));
                break;
            }
        }
        if history.len() == HISTORY {
            history.pop_front();
        }
        history.push_back(js);
    }
    let mut t = sh.tally.lock().unwrap();
    t.evaluations += local.evaluations;
    t.distinct.extend(local.distinct);
    for (l, n) in env.labels {
        *t.labels.entry(l).or_insert(0) += n;
    }
    t.samples.extend(local.samples);
    t.unreproduced.extend(local.unreproduced);
    t.wrong_once.extend(local.wrong_once);
    t.infra.extend(local.infra);
}

pub fn save_replay(o: &Opts, id: &str, case_json: &str, msg: &str, before: &[String]) -> PathBuf {
    let dir = o.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{id}-{:016x}.json", hash_of(case_json)));
    let case: serde_json::Value = serde_json::from_str(case_json).unwrap_or(serde_json::Value::Null);
    let mut doc = serde_json::json!({ "property": id, "seed": o.seed, "tier": o.tier, "message": msg, "case": case });
    if !before.is_empty() {
        doc["before"] = before.iter().map(|b| serde_json::from_str(b).unwrap_or(serde_json::Value::Null)).collect();
    }
    std::fs::write(&f, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
    f
}

/// Reads a case from a replay or corpus file.
pub fn load_case<C: Check>(f: &Path) -> Result<C::Case, String> {
    let s = std::fs::read_to_string(f).map_err(|e| format!("{}: {e}", f.display()))?;
    let v: serde_json::Value = serde_json::from_str(&s).map_err(|e| format!("{}: {e}", f.display()))?;
    serde_json::from_value(v.get("case").cloned().unwrap_or(v)).map_err(|e| format!("{}: {e}", f.display()))
}

/// The cases a replay file asks to run first.
fn load_before(f: &Path) -> Vec<String> {
    let v: Option<serde_json::Value> = std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str(&s).ok());
    v.and_then(|v| v.get("before").and_then(|b| b.as_array().map(|b| b.iter().map(|c| c.to_string()).collect()))).unwrap_or_default()
}

pub enum Outcome {
    Held,
    Violated(Violation),
    NoAnswer(String),
}

pub fn run_check<C: Check>(c: &C, o: &Opts) -> Outcome {
    let t0 = Instant::now();
    let sh = Shared {
        stop: AtomicBool::new(false),
        pause: AtomicBool::new(false),
        confirming: Mutex::new(()),
        tally: Mutex::new(Tally::default()),
        found: Mutex::new(None),
        broken: Mutex::new(vec![]),
        since: (0..=SHARDS).map(|_| AtomicU64::new(0)).collect(),
        cur: (0..=SHARDS).map(|_| Mutex::new(String::new())).collect(),
        t0,
    };
    let (q, th) = c.cases();
    let total = ((if o.tier == "thorough" { th } else { q }) as f64 * o.factor).ceil() as u64;
    let finished = AtomicBool::new(false);
    let mut corpus_runs = 0u64;

    let found = std::thread::scope(|s| {
        // an endless loop in a case: leave with the case on record, the parent confirms it
        s.spawn(|| {
            while !finished.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                let now = t0.elapsed().as_millis() as u64;
                for k in 0..=SHARDS {
                    let b = sh.since[k].load(Ordering::SeqCst);
                    if b != 0 && now.saturating_sub(b) > STUCK.as_millis() as u64 {
                        let js = sh.cur[k].lock().unwrap().clone();
                        let _ = std::fs::write(o.scratch.join("stuck"), js);
                        std::process::exit(77);
                    }
                }
            }
        });
        // also when this closure panics
        struct Done<'a>(&'a AtomicBool);
        impl Drop for Done<'_> {
            fn drop(&mut self) {
                self.0.store(true, Ordering::SeqCst);
            }
        }
        let _done = Done(&finished);
        // saved cases first
        let mut found = None;
        let mut env = Env::new(SHARDS, o.tier == "thorough");
        let mut files: Vec<PathBuf> = std::fs::read_dir(o.root.join("corpus").join(c.id()))
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "json")).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            match load_case::<C>(&f) {
                Ok(case) => {
                    corpus_runs += 1;
                    let js = serde_json::to_string(&case).unwrap();
                    *sh.cur[SHARDS].lock().unwrap() = js.clone();
                    let _ = std::fs::write(o.scratch.join(format!("cur-{SHARDS}")), &js);
                    sh.since[SHARDS].store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                    let r = exec(c, &mut env, &case);
                    sh.since[SHARDS].store(0, Ordering::SeqCst);
                    if let Err(Fail::Violation(_) | Fail::Hang(_)) = r {
                        if let Some(m) = confirm(c, &mut env, &case) {
                            found = Some((js, m, vec![]));
                            break;
                        }
                    }
                }
                Err(e) => sh.tally.lock().unwrap().infra.push(format!("corpus: {e}")),
            }
        }
        let _ = std::fs::remove_file(o.scratch.join(format!("cur-{SHARDS}")));
        if found.is_none() {
            std::thread::scope(|s2| {
                for k in 0..SHARDS {
                    let n = total / SHARDS as u64 + u64::from((k as u64) < total % SHARDS as u64);
                    let sh = &sh;
                    std::thread::Builder::new()
                        .name(format!("shard{k}"))
                        .stack_size(16 << 20)
                        .spawn_scoped(s2, move || {
                            if catch_unwind(AssertUnwindSafe(|| shard(c, o, sh, k, n))).is_err() {
                                sh.stop.store(true, Ordering::SeqCst);
                                sh.broken.lock().unwrap_or_else(|e| e.into_inner()).push(my_panic());
                            }
                        })
                        .unwrap();
                }
            });
            found = sh.found.lock().unwrap_or_else(|e| e.into_inner()).take();
        }
        found
    });

    let t = std::mem::take(&mut *sh.tally.lock().unwrap_or_else(|e| e.into_inner()));
    let mut outcome = Outcome::Held;
    if let Some((js, msg, before)) = &found {
        let file = save_replay(o, c.id(), js, msg, before);
        // the file itself should reproduce it; it failed more than once in any case
        let mut env = Env::new(SHARDS + 1, o.tier == "thorough");
        let m = load_case::<C>(&file).ok().and_then(|case| {
            let _ = before.is_empty() || after_history(c, &mut env, before, &case).is_some();
            confirm(c, &mut env, &case)
        });
        let msg = m.unwrap_or_else(|| format!("{msg} (seen repeatedly, but not again from the saved case alone)"));
        outcome = Outcome::Violated(Violation { file, msg });
    } else if let Some(b) = sh.broken.lock().unwrap_or_else(|e| e.into_inner()).first() {
        outcome = Outcome::NoAnswer(format!("the harness panicked: {b}"));
    } else if t.infra.len() as u64 * 50 > total.max(500) {
        outcome = Outcome::NoAnswer(format!("{} cases could not be run, e.g. {}", t.infra.len(), t.infra[0]));
    } else if t.wrong_once.len() > 3 {
        // too often for a hiccup: something outside the case decides
        let (js, msg, before) = &t.wrong_once[0];
        let file = save_replay(o, c.id(), js, msg, before);
        outcome = Outcome::Violated(Violation { file, msg: format!("{msg} ({} such failures, none came back alone)", t.wrong_once.len()) });
    } else if t.unreproduced.len() > 3 {
        outcome = Outcome::NoAnswer(format!("{} failures did not come back, e.g. {}", t.unreproduced.len(), t.unreproduced[0]));
    }
    let ev = serde_json::json!({
        "property": c.id(),
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.distinct.len(),
            "rule": c.rule(),
            "samples": t.samples.iter().take(5).collect::<Vec<_>>(),
            "classes": t.labels,
            "saved_cases_replayed": corpus_runs,
            "not_run": t.infra.iter().take(10).collect::<Vec<_>>(),
            "not_run_count": t.infra.len(),
            "failures_that_did_not_come_back": t.unreproduced,
        },
        "assumptions": c.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if matches!(outcome, Outcome::Violated(_)) { 1 } else { 0 },
    });
    let dir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", c.id())), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    outcome
}

/// Runs one saved case; for `replay`.
pub fn run_replay<C: Check>(c: &C, f: &Path, times: usize) -> Result<Option<String>, String> {
    let case = load_case::<C>(f)?;
    let mut env = Env::new(SHARDS + 2, false);
    let before = load_before(f);
    for _ in 0..times {
        if !before.is_empty() {
            if let Some(m) = after_history(c, &mut env, &before, &case) {
                return Ok(Some(m));
            }
        }
        match exec(c, &mut env, &case) {
            Err(Fail::Violation(m)) => return Ok(Some(with_panic_note(m))),
            Err(Fail::Hang(m)) => {
                if hang_confirmed(c, &mut env, &case) {
                    return Ok(Some(m));
                }
            }
            Err(Fail::Infra(m)) => return Err(m),
            Ok(()) => {}
        }
    }
    Ok(None)
}
