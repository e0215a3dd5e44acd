//! Explorer: worker side (`Cx`) and supervisor side (`main`).

use std::collections::HashSet;
use std::fs::{self, File, OpenOptions};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

/// How many heap blocks are in use, and their bytes.
pub type Meter = fn() -> (i64, i64);
/// Set by a checker whose cases are to give back all memory.
pub static METER: OnceLock<Meter> = OnceLock::new();

/// The case over again, from start to end: it leaves as much memory in use as before.  What is
/// allocated once and for all has been by its first run; a second difference confirms a first.
fn given_back(meter: Meter, f: &impl Fn(&mut Run) -> Res) -> Res {
    let once = || -> Result<(i64, i64), String> {
        let before = meter();
        let mut run = Run { states: Vec::new(), transitions: 0, outcome: None };
        match panic::catch_unwind(AssertUnwindSafe(|| f(&mut run))) {
            Ok(r) => r.map_err(|e| format!("when repeated: {e}"))?,
            Err(_) => return Err(format!("when repeated: unexpected panic: {}", last_panic())),
        }
        drop(run);
        let after = meter();
        Ok((after.0 - before.0, after.1 - before.1))
    };
    if once()? == (0, 0) {
        return Ok(());
    }
    let (blocks, bytes) = once()?;
    if blocks > 0 || bytes > 0 {
        return Err(format!("{blocks} heap blocks of {bytes} bytes are left when everything is gone"));
    }
    Ok(())
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Message of the most recent panic on this thread (the hook prints nothing).
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_owned()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{msg}{loc}")
            }
        });
    }));
}

/// Runs `f`; `Err(message)` if it panicked.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Mode {
    All,
    /// Execute only this case.
    Only(u64),
    /// Execute every case up to and including this one.
    Upto(u64),
}

/// Exploration context of one worker.
pub struct Cx {
    pub prop: String,
    pub tier: Tier,
    shard: u64,
    nshards: u64,
    task_no: u64,
    counter: u64,
    mode: Mode,
    slot: Option<File>,
    deadline: Option<Instant>,
    pub capped: bool,
    /// How many steps smaller the explorations shared with another property are here.
    pub lighter: usize,
    known: Vec<String>,
    known_hits: Vec<String>,
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    outcomes: std::collections::BTreeMap<String, u64>,
    samples: Vec<String>,
    done: bool,
}

/// What a running case may record.
pub struct Run {
    pub states: Vec<u64>,
    pub transitions: u64,
    pub outcome: Option<String>,
}

impl Run {
    /// A state of the system was compared against the oracle.
    #[inline]
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
    }
    /// `n` steps of the implementation were compared against the oracle.
    #[inline]
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
}

pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf29ce484222325)
    }
    #[inline]
    pub fn u(&mut self, v: u64) -> &mut Self {
        // 64-bit mix (splitmix) to keep collisions negligible.
        let mut z = self.0 ^ v.wrapping_add(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        self.0 = z ^ (z >> 31);
        self
    }
    pub fn s(&mut self, s: &str) -> &mut Self {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.u(s.len() as u64)
    }
    pub fn get(&self) -> u64 {
        self.0
    }
}
impl Default for Fnv {
    fn default() -> Self {
        Self::new()
    }
}

impl Cx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn pick<X>(&self, q: X, t: X) -> X {
        match self.tier {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }

    /// As `pick`, in an exploration that another property uses on a smaller scale.
    pub fn size(&self, q: usize, t: usize) -> usize {
        self.pick(q, t) - self.lighter
    }

    /// Partition of the enumeration: the caller skips everything below a task that is not ours.
    #[inline]
    pub fn task(&mut self) -> bool {
        let mine = self.task_no % self.nshards == self.shard;
        self.task_no += 1;
        mine && !self.done
    }

    pub fn finished(&self) -> bool {
        self.done
    }

    /// One case: `text` describes it completely, `f` executes it on the real code and compares.
    pub fn case(&mut self, text: impl Fn() -> String, f: impl Fn(&mut Run) -> Res) {
        if self.done {
            return;
        }
        let n = self.counter;
        self.counter += 1;
        match self.mode {
            Mode::All => {}
            Mode::Only(k) => {
                if n != k {
                    return;
                }
                self.done = true;
            }
            Mode::Upto(k) => {
                if n == k {
                    self.done = true;
                }
            }
        }
        if let Some(slot) = &self.slot {
            slot.write_all_at(&(n + 1).to_le_bytes(), 0).expect("slot");
        }
        if self.mode == Mode::All && n & 0xff == 0 {
            if let Some(d) = self.deadline {
                if Instant::now() > d {
                    self.capped = true;
                    self.done = true;
                    return;
                }
            }
        }
        if self.mode != Mode::All && self.done {
            println!("CASE {}", text().replace('\n', "\\n"));
            let _ = std::io::stdout().flush();
        }
        if self.samples.len() < 3 && (n < 2 || n == 997) {
            self.samples.push(text());
        }
        let mut run = Run {
            states: Vec::new(),
            transitions: 0,
            outcome: None,
        };
        let r = panic::catch_unwind(AssertUnwindSafe(|| f(&mut run)));
        let msg = match r {
            Ok(Ok(())) => {
                self.traces += 1;
                self.transitions += run.transitions;
                for s in run.states {
                    self.states.insert(s);
                }
                if let Some(o) = run.outcome {
                    *self.outcomes.entry(o).or_insert(0) += 1;
                }
                if let Some(m) = METER.get() {
                    if let Err(e) = given_back(*m, &f) {
                        return self.violated(n, e, text());
                    }
                }
                if self.done && self.mode != Mode::All {
                    println!("PASS");
                }
                return;
            }
            Ok(Err(m)) => m,
            Err(payload) => {
                std::mem::forget(payload);
                format!("unexpected panic: {}", last_panic())
            }
        };
        self.violated(n, msg, text());
    }

    fn violated(&mut self, n: u64, msg: String, text: String) {
        if let Some(k) = self.known.iter().find(|k| text.contains(k.as_str())) {
            self.known_hits.push(k.clone());
            return;
        }
        println!("FAIL {n} {}", msg.replace('\n', "\\n"));
        println!("TEXT {}", text.replace('\n', "\\n"));
        let _ = std::io::stdout().flush();
        // Nothing is dropped: the world may be broken.
        unsafe { _exit(3) }
    }

    /// Count of an outcome class, reported in the evidence to show that exploration is not vacuous.
    pub fn note(&mut self, key: &str) {
        *self.outcomes.entry(key.to_owned()).or_insert(0) += 1;
    }
}

extern "C" {
    fn _exit(code: i32) -> !;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

pub type CheckFn = fn(&mut Cx);
pub struct Check {
    pub id: &'static str,
    pub f: CheckFn,
    pub bounds_quick: &'static str,
    pub bounds_thorough: &'static str,
    pub assumptions: &'static [&'static str],
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn read_known(prop: &str) -> Vec<String> {
    let mut v = Vec::new();
    if let Ok(s) = fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix(&format!("known: property={prop} case=")) {
                v.push(rest.trim().to_owned());
            }
        }
    }
    v
}

/// Entry point of every checker binary.
pub fn main(checks: &[Check]) {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.get(1).copied() {
        Some("worker") => worker(checks, &a[2..]),
        Some("run") => run(checks, &a[2..]),
        Some("replay") => replay(checks, &a[2..]),
        _ => {
            eprintln!("usage: run ID TIER [LABEL=BIN ...] | replay FILE");
            std::process::exit(2);
        }
    }
}

fn find<'a>(checks: &'a [Check], id: &str) -> &'a Check {
    checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn tier_of(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

/// worker ID TIER SHARD NSHARDS MODE N SLOT OUT DEADLINE_S
fn worker(checks: &[Check], a: &[&str]) {
    install_hook();
    let check = find(checks, a[0]);
    unsafe {
        let lim = [3u64 << 30, 3u64 << 30];
        setrlimit(RLIMIT_AS, &lim);
        setrlimit(RLIMIT_CORE, &[0, 0]);
    }
    let n: u64 = a[5].parse().unwrap();
    let dl: u64 = a[8].parse().unwrap();
    if a[6] != "-" {
        let _ = BEAT.set(OpenOptions::new().write(true).open(a[6]).expect("slot file"));
    }
    let mut cx = Cx {
        prop: a[0].into(),
        tier: tier_of(a[1]),
        shard: a[2].parse().unwrap(),
        nshards: a[3].parse().unwrap(),
        task_no: 0,
        counter: 0,
        mode: match a[4] {
            "only" => Mode::Only(n),
            "upto" => Mode::Upto(n),
            _ => Mode::All,
        },
        slot: (a[6] != "-").then(|| OpenOptions::new().write(true).open(a[6]).expect("slot file")),
        deadline: (a[4] == "all").then(|| Instant::now() + Duration::from_secs(dl)),
        capped: false,
        lighter: 0,
        known: read_known(a[0]),
        known_hits: vec![],
        states: HashSet::new(),
        transitions: 0,
        traces: 0,
        outcomes: Default::default(),
        samples: vec![],
        done: false,
    };
    // A deep default stack is not needed; exploration runs on a roomy thread of its own so that
    // the limits of the main thread do not matter.
    let f = check.f;
    let see = crate::history::see(a[0]);
    let cx = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            if let Some(s) = see {
                crate::history::explore(&mut cx, s);
            }
            if crate::together::covers(&cx.prop) {
                let id = cx.prop.clone();
                crate::together::explore(&mut cx, &id);
            }
            f(&mut cx);
            cx
        })
        .expect("spawn")
        .join();
    let cx = match cx {
        Ok(cx) => cx,
        Err(_) => {
            // The harness itself panicked outside a case.
            println!("HARNESS-PANIC");
            std::process::exit(4);
        }
    };
    if a[7] != "-" {
        let mut f = File::create(a[7]).expect("out");
        let mut s = String::new();
        s.push_str(&format!("transitions {}\n", cx.transitions));
        s.push_str(&format!("traces {}\n", cx.traces));
        s.push_str(&format!("capped {}\n", cx.capped as u32));
        for x in &cx.samples {
            s.push_str(&format!("sample {}\n", x.replace('\n', "\\n")));
        }
        for (k, v) in &cx.outcomes {
            s.push_str(&format!("outcome {v} {k}\n"));
        }
        for k in &cx.known_hits {
            s.push_str(&format!("known {k}\n"));
        }
        s.push_str(&format!("states {}\n", cx.states.len()));
        f.write_all(s.as_bytes()).unwrap();
        let mut b = Vec::with_capacity(cx.states.len() * 8);
        for h in &cx.states {
            b.extend_from_slice(&h.to_le_bytes());
        }
        f.write_all(&b).unwrap();
    }
    std::process::exit(0);
}

struct W {
    label: String,
    bin: String,
    shard: u64,
    child: Child,
    slot: PathBuf,
    out: PathBuf,
    log: PathBuf,
    last: [u8; 16],
    cpu_at_last: f64,
    killed_hang: bool,
}

fn cpu_of(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

fn read_slot(p: &Path) -> u64 {
    let mut b = [0u8; 8];
    if let Ok(mut f) = File::open(p) {
        if f.read_exact(&mut b).is_ok() {
            return u64::from_le_bytes(b);
        }
    }
    0
}

const HANG_CPU_S: f64 = 20.0;

static BEAT: OnceLock<File> = OnceLock::new();
static BEATS: AtomicU64 = AtomicU64::new(0);

/// To be called between the parts of a long case: the part before has ended, so this is no hang.
pub fn beat() {
    if let Some(f) = BEAT.get() {
        let n = BEATS.fetch_add(1, Ordering::Relaxed) + 1;
        let _ = f.write_all_at(&n.to_le_bytes(), 8);
    }
}

/// The case under way and how far it is.
fn read_mark(p: &Path) -> [u8; 16] {
    let mut b = [0u8; 16];
    if let Ok(f) = File::open(p) {
        let _ = f.read_exact_at(&mut b, 0);
    }
    b
}

#[derive(Debug)]
#[allow(dead_code)]
enum Ended {
    Pass(String),
    Fail(String, String),
    Crash(String, String),
    Hang(String),
    Odd(String),
}
impl Ended {
    fn key(&self) -> Option<String> {
        match self {
            Ended::Pass(_) | Ended::Odd(_) => None,
            Ended::Fail(m, t) => Some(format!("{m} || {t}")),
            Ended::Crash(m, t) => Some(format!("{m} || {t}")),
            Ended::Hang(t) => Some(format!("no progress (hang) || {t}")),
        }
    }
}

/// Isolated execution of one case (mode `only`) or of a shard prefix (mode `upto`).
fn isolated(bin: &str, id: &str, tier: &str, shard: u64, nsh: u64, mode: &str, n: u64, dir: &Path) -> Ended {
    let slot = dir.join("iso.slot");
    fs::write(&slot, [0u8; 16]).unwrap();
    let log = dir.join("iso.log");
    let lf = File::create(&log).unwrap();
    let mut child = Command::new(bin)
        .args(["worker", id, tier, &shard.to_string(), &nsh.to_string(), mode, &n.to_string()])
        .arg(&slot)
        .arg("-")
        .arg("100000")
        .stdout(Stdio::from(lf))
        .stderr(Stdio::null())
        .stdin(Stdio::null())
        .spawn()
        .expect("spawn isolated");
    let mut last = [0u8; 16];
    let mut cpu_at_last = 0.0;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        std::thread::sleep(Duration::from_millis(20));
        let cur = read_mark(&slot);
        let cpu = cpu_of(child.id());
        if cur != last {
            last = cur;
            cpu_at_last = cpu;
        } else if cur != [0; 16] && cpu - cpu_at_last > HANG_CPU_S {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    let s = fs::read_to_string(&log).unwrap_or_default();
    let case = s.lines().find_map(|l| l.strip_prefix("CASE ")).unwrap_or("").to_owned();
    let status = match status {
        None => return Ended::Hang(case),
        Some(s) => s,
    };
    if let Some(l) = s.lines().find(|l| l.starts_with("FAIL ")) {
        let msg = l.splitn(3, ' ').nth(2).unwrap_or("").to_owned();
        let text = s.lines().find_map(|l| l.strip_prefix("TEXT ")).unwrap_or("").to_owned();
        return Ended::Fail(msg, text);
    }
    if status.success() {
        if s.contains("PASS") {
            return Ended::Pass(case);
        }
        return Ended::Odd(format!("exit 0 without executing case {n}"));
    }
    Ended::Crash(format!("process ended abnormally: {status}"), case)
}

fn confirm(bin: &str, id: &str, tier: &str, shard: u64, nsh: u64, n: u64, dir: &Path) -> Option<(String, &'static str)> {
    for mode in ["only", "upto"] {
        let a = isolated(bin, id, tier, shard, nsh, mode, n, dir);
        let b = isolated(bin, id, tier, shard, nsh, mode, n, dir);
        if let (Some(x), Some(y)) = (a.key(), b.key()) {
            if x == y {
                return Some((x, mode));
            }
            eprintln!("replays differ ({mode}): {x} / {y}");
        } else {
            eprintln!("not confirmed ({mode}): {a:?} {b:?}");
        }
    }
    None
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// run ID TIER LABEL=BIN ...
fn run(checks: &[Check], a: &[&str]) {
    let start = Instant::now();
    let check = find(checks, a[0]);
    let (id, tier) = (a[0], a[1]);
    let mut bins: Vec<(String, String)> = a[2..]
        .iter()
        .filter_map(|s| s.split_once('=').map(|(l, b)| (l.to_owned(), b.to_owned())))
        .collect();
    if bins.is_empty() {
        bins.push(("self".into(), std::env::current_exe().unwrap().display().to_string()));
    }
    let par: u64 = std::env::var("MC_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get() as u64).min(16));
    // A fixed number of shards, so that a replay does not depend on the machine.
    let nsh: u64 = 16;
    let soft: u64 = std::env::var("MC_DEADLINE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { 3 * 3600 } else { 300 });
    let dir = std::env::temp_dir().join(format!("mc-{id}-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let mut todo: Vec<(String, String, u64)> = Vec::new();
    for (l, b) in &bins {
        for s in 0..nsh {
            todo.push((l.clone(), b.clone(), s));
        }
    }
    todo.reverse();
    let mut running: Vec<W> = Vec::new();
    let mut outs: Vec<(String, PathBuf)> = Vec::new();
    let mut violation: Option<(W, String)> = None;
    let mut err: Option<String> = None;
    'main: loop {
        while (running.len() as u64) < par {
            let Some((label, bin, shard)) = todo.pop() else { break };
            let slot = dir.join(format!("{label}-{shard}.slot"));
            let out = dir.join(format!("{label}-{shard}.out"));
            let log = dir.join(format!("{label}-{shard}.log"));
            fs::write(&slot, [0u8; 16]).unwrap();
            let lf = File::create(&log).unwrap();
            let child = Command::new(&bin)
                .args(["worker", id, tier, &shard.to_string(), &nsh.to_string(), "all", "0"])
                .arg(&slot)
                .arg(&out)
                .arg(soft.to_string())
                .stdout(Stdio::from(lf))
                .stderr(Stdio::null())
                .stdin(Stdio::null())
                .spawn();
            match child {
                Ok(child) => running.push(W {
                    label, bin, shard, child, slot, out, log,
                    last: [0; 16], cpu_at_last: 0.0, killed_hang: false,
                }),
                Err(e) => {
                    err = Some(format!("cannot start worker: {e}"));
                    break 'main;
                }
            }
        }
        if running.is_empty() {
            break;
        }
        let mut i = 0;
        let mut progressed = false;
        while i < running.len() {
            let done = running[i].child.try_wait().unwrap();
            if let Some(status) = done {
                progressed = true;
                let w = running.swap_remove(i);
                if status.code() == Some(0) {
                    outs.push((w.label.clone(), w.out.clone()));
                    continue;
                }
                let log = fs::read_to_string(&w.log).unwrap_or_default();
                if status.code() == Some(4) {
                    err = Some(format!("harness panic in shard {} ({})", w.shard, w.label));
                    break 'main;
                }
                let why = if w.killed_hang {
                    "hang".into()
                } else if log.contains("FAIL ") {
                    "fail".into()
                } else {
                    format!("crash {status}")
                };
                violation = Some((w, why));
                break 'main;
            }
            let w = &mut running[i];
            let cur = read_mark(&w.slot);
            let cpu = cpu_of(w.child.id());
            if cur != w.last {
                w.last = cur;
                w.cpu_at_last = cpu;
            } else if cpu - w.cpu_at_last > HANG_CPU_S && cur != [0; 16] {
                w.killed_hang = true;
                let _ = w.child.kill();
            }
            i += 1;
        }
        if !progressed {
            std::thread::sleep(Duration::from_millis(15));
        }
    }
    for w in &mut running {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut viol_count = 0;
    let mut code = 0;
    let mut viol_text = String::new();
    if let Some((w, why)) = violation {
        let n = read_slot(&w.slot);
        if n == 0 {
            err = Some(format!("worker ended before its first case: {why}"));
        } else {
            match confirm(&w.bin, id, tier, w.shard, nsh, n - 1, &dir) {
                Some((key, mode)) => {
                    let (msg, text) = key.split_once(" || ").unwrap_or((&key, ""));
                    let rdir = verif_dir().join("replays");
                    let _ = fs::create_dir_all(&rdir);
                    let path = rdir.join(format!("{id}.{tier}.replay"));
                    let body = format!(
                        "property={id}\ntier={tier}\nbuild={}\nbin={}\nshard={}\nnshards={nsh}\nmode={mode}\ncase={}\nwhat={msg}\ntext={text}\n",
                        w.label, w.bin, w.shard, n - 1
                    );
                    let _ = fs::write(&path, body);
                    println!("build: {} (see run.sh)", w.label);
                    println!("what: {msg}");
                    println!("case: {}", text.replace("\\n", "\n      "));
                    println!("VIOLATION property={id} replay={}", path.display());
                    viol_count = 1;
                    viol_text = format!("{msg} || {text}");
                    code = 1;
                }
                None => {
                    err = Some(format!("a worker failed ({why}) in shard {} case {} but the failure is not reproducible", w.shard, n - 1));
                }
            }
        }
    }
    if let Some(e) = &err {
        eprintln!("ERROR: {e}");
        code = 2;
    }
    // Merge and write evidence.
    let mut states: HashSet<u64> = HashSet::new();
    let (mut transitions, mut traces, mut capped) = (0u64, 0u64, false);
    let mut samples: Vec<String> = Vec::new();
    let mut outcomes: std::collections::BTreeMap<String, u64> = Default::default();
    let mut known: std::collections::BTreeSet<String> = Default::default();
    for (_label, p) in &outs {
        let b = fs::read(p).unwrap_or_default();
        let mut pos = 0;
        loop {
            let Some(e) = b[pos..].iter().position(|&c| c == b'\n') else { break };
            let l = String::from_utf8_lossy(&b[pos..pos + e]).into_owned();
            pos += e + 1;
            let (k, v) = l.split_once(' ').unwrap_or((&l, ""));
            match k {
                "transitions" => transitions += v.parse::<u64>().unwrap_or(0),
                "traces" => traces += v.parse::<u64>().unwrap_or(0),
                "capped" => capped |= v == "1",
                "sample" => {
                    if samples.len() < 6 && !samples.iter().any(|s| s == v) {
                        samples.push(v.to_owned())
                    }
                }
                "outcome" => {
                    if let Some((c, k)) = v.split_once(' ') {
                        *outcomes.entry(k.to_owned()).or_insert(0) += c.parse::<u64>().unwrap_or(0);
                    }
                }
                "known" => {
                    known.insert(v.to_owned());
                }
                "states" => {
                    for c in b[pos..].chunks_exact(8) {
                        states.insert(u64::from_le_bytes(c.try_into().unwrap()));
                    }
                    break;
                }
                _ => {}
            }
        }
    }
    for k in &known {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    let mut bounds = if tier == "thorough" { check.bounds_thorough } else { check.bounds_quick }.to_string();
    if let Some(see) = crate::history::see(id) {
        bounds.push_str("; ");
        bounds.push_str(&crate::history::text(see, tier == "thorough"));
    }
    if crate::together::covers(id) {
        bounds.push_str("; ");
        bounds.push_str(&crate::together::text(tier == "thorough"));
    }
    let mut ev = String::new();
    ev.push_str(&format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n", jstr(id), jstr(tier)));
    ev.push_str(&format!(" \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {transitions},\n  \"traces_validated_against_impl\": {traces},\n", states.len()));
    ev.push_str(&format!("  \"exhaustive\": {},\n", code == 0 && !capped));
    ev.push_str(&format!("  \"bounds\": {},\n", jstr(&bounds)));
    ev.push_str(&format!("  \"builds\": [{}],\n", bins.iter().map(|(l, _)| jstr(l)).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!("  \"outcomes\": {{{}}},\n", outcomes.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {viol_count},\n", start.elapsed().as_secs_f64()));
    if !viol_text.is_empty() {
        ev.push_str(&format!(" \"violation\": {},\n", jstr(&viol_text)));
    }
    ev.push_str(&format!(" \"assumptions\": [{}]\n}}\n", check.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")));
    let edir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&edir);
    fs::write(edir.join(format!("{id}.json")), ev).expect("evidence");
    let _ = fs::remove_dir_all(&dir);
    println!("{id} {tier}: states={} transitions={transitions} traces={traces} capped={capped} wall={:.1}s exit={code}", states.len(), start.elapsed().as_secs_f64());
    std::process::exit(code);
}

fn replay(checks: &[Check], a: &[&str]) {
    let s = fs::read_to_string(a[0]).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_owned();
    let id = get("property");
    find(checks, &id);
    let dir = std::env::temp_dir().join(format!("mc-replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let bin = get("bin");
    let r = isolated(&bin, &id, &get("tier"), get("shard").parse().unwrap(), get("nshards").parse().unwrap(), &get("mode"), get("case").parse().unwrap(), &dir);
    let _ = fs::remove_dir_all(&dir);
    println!("{r:#?}");
    match r.key() {
        Some(_) => {
            println!("VIOLATION property={id} replay={}", a[0]);
            std::process::exit(1)
        }
        None => std::process::exit(0),
    }
}
