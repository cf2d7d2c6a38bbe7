//! Supervisor / worker engine: runs the units of a property exhaustively on the real crate.
//!
//! A *unit* is a slice of the bounded space.  Inside a unit every call into the crate under test
//! goes through `Ctx::call` (must return) or `Ctx::refuses` (must panic), and every observation
//! through `Ctx::check`.  The first failure of a unit ends that unit.

use std::any::Any;
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Debug;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick { q } else { t }
    }
    pub fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

pub struct Unit {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ctx) + Send + Sync>,
}

pub fn unit<F: Fn(&mut Ctx) + Send + Sync + 'static>(name: String, f: F) -> Unit {
    Unit { name, run: Box::new(f) }
}

pub struct Prop {
    pub id: &'static str,
    /// what is enumerated, in words (goes to the evidence)
    pub space: &'static str,
    pub assumptions: &'static [&'static str],
    /// CPU seconds a single step may take before it counts as non-terminating: (quick, thorough)
    pub hang: (u64, u64),
    pub units: fn(Tier) -> Vec<Unit>,
}

struct Abort;

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("panic")
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

fn take_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or((String::from("panic"), String::new()))
}

#[derive(Default)]
pub struct Slot {
    beat: AtomicU64,
    unit: AtomicUsize,
    tid: AtomicU64,
}

pub struct Ctx {
    pub tier: Tier,
    slot: Arc<Slot>,
    trace: Option<fs::File>,
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    refusals: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    failure: Option<String>,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    fn new(tier: Tier, slot: Arc<Slot>, trace: Option<fs::File>) -> Ctx {
        Ctx {
            tier,
            slot,
            trace,
            states: HashSet::new(),
            transitions: 0,
            traces: 0,
            refusals: 0,
            outcomes: HashSet::new(),
            samples: Vec::new(),
            failure: None,
        }
    }

    /// run one operation of the code under test; a panic is a failure
    pub fn call<T, L: FnOnce() -> String, F: FnOnce() -> T>(&mut self, label: L, f: F) -> T {
        self.transitions += 1;
        self.slot.beat.fetch_add(1, Relaxed);
        let mut label = Some(label);
        let mut text = None;
        if let Some(t) = self.trace.as_mut() {
            let s = (label.take().unwrap())();
            let _ = t.set_len(0);
            let _ = t.seek(SeekFrom::Start(0));
            let _ = t.write_all(s.as_bytes());
            text = Some(s);
        } else if self.samples.is_empty() && (self.transitions == 1 || self.transitions == 37) {
            // a concrete case of this unit for the evidence file
            let s = (label.take().unwrap())();
            self.samples.push(s.chars().take(300).collect());
            text = Some(s);
        }
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => v,
            Err(_) => {
                let (m, loc) = take_panic();
                let s = text.unwrap_or_else(|| (label.take().unwrap())());
                self.fail(format!("{} panicked: {} ({})", s, m, loc))
            }
        }
    }

    /// run one operation that must be refused (panic); returning a value is a failure
    pub fn refuses<T: Debug, L: FnOnce() -> String, F: FnOnce() -> T>(&mut self, label: L, f: F) {
        self.transitions += 1;
        self.refusals += 1;
        self.traces += 1;
        self.slot.beat.fetch_add(1, Relaxed);
        let mut label = Some(label);
        if let Some(t) = self.trace.as_mut() {
            let s = (label.take().unwrap())();
            let _ = t.set_len(0);
            let _ = t.seek(SeekFrom::Start(0));
            let _ = t.write_all(s.as_bytes());
            label = None;
            match catch_unwind(AssertUnwindSafe(f)) {
                Err(_) => {
                    take_panic();
                }
                Ok(v) => self.fail(format!("{} was answered with {:?}, it must be refused", s, v)),
            }
            let _ = label;
            return;
        }
        match catch_unwind(AssertUnwindSafe(f)) {
            Err(_) => {
                take_panic();
            }
            Ok(v) => {
                let s = (label.take().unwrap())();
                self.fail(format!("{} was answered with {:?}, it must be refused", s, v))
            }
        }
    }

    pub fn fail(&mut self, msg: String) -> ! {
        let mut m = msg;
        if m.len() > 4000 {
            let mut cut = 4000;
            while !m.is_char_boundary(cut) {
                cut -= 1;
            }
            m.truncate(cut);
            m.push_str(" ...");
        }
        self.failure = Some(m);
        resume_unwind(Box::new(Abort))
    }

    pub fn check<L: FnOnce() -> String>(&mut self, ok: bool, label: L) {
        if !ok {
            let s = label();
            self.fail(s)
        }
    }

    pub fn eq<T: PartialEq + Debug, L: FnOnce() -> String>(&mut self, label: L, got: &T, want: &T) {
        if got != want {
            let s = format!("{}: got {:?}, expected {:?}", label(), got, want);
            self.fail(s)
        }
    }

    /// register a (canonical) state or input; true if it is new in this unit
    pub fn state<T: Hash + ?Sized>(&mut self, s: &T) -> bool {
        self.states.insert(h64(s))
    }

    /// register an observed outcome, to report how many distinct ones there were
    pub fn outcome<T: Hash + ?Sized>(&mut self, s: &T) {
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.insert(h64(s));
        }
    }

    /// one complete history was executed on the real code and compared with the model
    pub fn trace(&mut self) {
        self.traces += 1;
    }

    pub fn traces(&mut self, n: u64) {
        self.traces += n;
    }

    pub fn sample<L: FnOnce() -> String>(&mut self, label: L) {
        if self.samples.len() < 3 {
            let s = label();
            self.samples.push(s.chars().take(300).collect());
        }
    }

    pub fn add_transitions(&mut self, n: u64) {
        self.transitions += n;
    }

    pub fn beat(&self) {
        self.slot.beat.fetch_add(1, Relaxed);
    }
}

#[derive(Default)]
struct Totals {
    states: u64,
    transitions: u64,
    traces: u64,
    refusals: u64,
    outcomes: HashSet<u64>,
    samples: Vec<(usize, String)>,
    done: u64,
}

fn gettid() -> u64 {
    fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

/// CPU ticks (1/100 s) used by a thread of this process
fn thread_cpu(tid: u64) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// the result file of a worker: tab separated lines, values escaped like JSON strings
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('u') => {
                for _ in 0..4 {
                    it.next();
                }
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

fn line_esc(s: &str) -> String {
    let e = esc(s);
    e[1..e.len() - 1].to_string()
}

pub struct WorkerOpts {
    pub only: Option<usize>,
    pub upto: Option<usize>,
    pub threads: usize,
    pub out: PathBuf,
    pub trace: Option<PathBuf>,
}

pub fn worker(prop: &'static Prop, tier: Tier, opts: WorkerOpts) -> i32 {
    install_hook();
    let units: Vec<Unit> = (prop.units)(tier);
    let n = units.len();
    let end = opts.upto.map(|u| u + 1).unwrap_or(n).min(n);
    let units = Arc::new(units);
    let next = Arc::new(AtomicUsize::new(opts.only.unwrap_or(0)));
    let stop_at = Arc::new(AtomicUsize::new(opts.only.map(|o| o + 1).unwrap_or(end)));
    let totals = Arc::new(Mutex::new(Totals::default()));
    let failures: Arc<Mutex<Vec<(usize, String)>>> = Arc::new(Mutex::new(Vec::new()));
    let errors: Arc<Mutex<Vec<(usize, String)>>> = Arc::new(Mutex::new(Vec::new()));
    let journal = Arc::new(Mutex::new(
        fs::OpenOptions::new().create(true).append(true).open(opts.out.with_extension("journal")).unwrap(),
    ));
    let slots: Vec<Arc<Slot>> = (0..opts.threads).map(|_| Arc::new(Slot::default())).collect();
    let finished = Arc::new(AtomicBool::new(false));
    let hang_limit = tier.pick(prop.hang.0, prop.hang.1) * 100;

    // watchdog
    {
        let slots = slots.clone();
        let finished = finished.clone();
        let failures = failures.clone();
        let units = units.clone();
        let out = opts.out.clone();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, u64)> = vec![(u64::MAX, 0); slots.len()];
            loop {
                std::thread::sleep(Duration::from_millis(500));
                if finished.load(SeqCst) {
                    return;
                }
                for (i, s) in slots.iter().enumerate() {
                    let tid = s.tid.load(SeqCst);
                    if tid == 0 {
                        continue;
                    }
                    let beat = s.beat.load(Relaxed);
                    let cpu = match thread_cpu(tid) {
                        Some(c) => c,
                        None => continue,
                    };
                    if beat != last[i].0 {
                        last[i] = (beat, cpu);
                        continue;
                    }
                    // when a violation is already known, do not wait long for the others
                    let limit = if failures.lock().unwrap().is_empty() { hang_limit } else { hang_limit.min(1000) };
                    if cpu - last[i].1 > limit {
                        let u = s.unit.load(SeqCst);
                        let mut fl = failures.lock().unwrap().clone();
                        fl.sort();
                        let mut f = String::new();
                        if let Some((u, m)) = fl.first() {
                            f.push_str(&format!("fail\t{}\t{}\t{}\n", u, line_esc(&units[*u].name), line_esc(m)));
                        } else {
                            f.push_str(&format!("hang\t{}\t{}\t{}\n", u, line_esc(&units[u].name), limit / 100));
                        }
                        let _ = fs::write(&out, f);
                        std::process::exit(3);
                    }
                }
            }
        });
    }

    let mut handles = Vec::new();
    for t in 0..opts.threads {
        let units = units.clone();
        let next = next.clone();
        let stop_at = stop_at.clone();
        let totals = totals.clone();
        let failures = failures.clone();
        let errors = errors.clone();
        let journal = journal.clone();
        let slot = slots[t].clone();
        let trace = opts.trace.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    slot.tid.store(gettid(), SeqCst);
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= stop_at.load(SeqCst) {
                            break;
                        }
                        slot.unit.store(i, SeqCst);
                        slot.beat.fetch_add(1, Relaxed);
                        let _ = journal.lock().unwrap().write_all(format!("S {}\n", i).as_bytes());
                        let tf = trace.as_ref().map(|p| fs::File::create(p).unwrap());
                        let mut ctx = Ctx::new(tier, slot.clone(), tf);
                        let started = Instant::now();
                        let r: Result<(), Box<dyn Any + Send>> =
                            catch_unwind(AssertUnwindSafe(|| (units[i].run)(&mut ctx)));
                        let _ = journal.lock().unwrap().write_all(format!("E {}\n", i).as_bytes());
                        if let Ok(f) = std::env::var("MC_TIMES") {
                            if let Ok(mut f) = fs::OpenOptions::new().create(true).append(true).open(f) {
                                let _ = f.write_all(format!("{:9.3} {}\n", started.elapsed().as_secs_f64(), units[i].name).as_bytes());
                            }
                        }
                        if r.is_err() {
                            if let Some(m) = ctx.failure.take() {
                                failures.lock().unwrap().push((i, m));
                            } else {
                                let (m, loc) = take_panic();
                                let text = format!("uncaught panic: {} ({})", m, loc);
                                if loc.starts_with("src/") {
                                    errors.lock().unwrap().push((i, text));
                                } else {
                                    // a panic inside the crate under test outside of `call`
                                    failures.lock().unwrap().push((i, text));
                                }
                            }
                            stop_at.fetch_min(i, SeqCst);
                        }
                        let mut t = totals.lock().unwrap();
                        t.states += ctx.states.len() as u64;
                        t.transitions += ctx.transitions;
                        t.traces += ctx.traces;
                        t.refusals += ctx.refusals;
                        t.outcomes.extend(ctx.outcomes.drain());
                        t.done += 1;
                        for s in ctx.samples.drain(..) {
                            t.samples.push((i, s));
                        }
                    }
                    slot.tid.store(0, SeqCst);
                })
                .unwrap(),
        );
    }
    for h in handles {
        let _ = h.join();
    }
    finished.store(true, SeqCst);
    let mut out = String::new();
    let mut fl = failures.lock().unwrap().clone();
    fl.sort();
    let er = errors.lock().unwrap().clone();
    for (u, m) in fl.iter().take(1) {
        out.push_str(&format!("fail\t{}\t{}\t{}\n", u, line_esc(&units[*u].name), line_esc(m)));
    }
    for (u, m) in er.iter().take(3) {
        out.push_str(&format!("error\t{}\t{}\t{}\n", u, line_esc(&units[*u].name), line_esc(m)));
    }
    let t = totals.lock().unwrap();
    out.push_str(&format!("num\tunits\t{}\n", n));
    out.push_str(&format!("num\tunits_done\t{}\n", t.done));
    out.push_str(&format!("num\tstates\t{}\n", t.states));
    out.push_str(&format!("num\ttransitions\t{}\n", t.transitions));
    out.push_str(&format!("num\ttraces\t{}\n", t.traces));
    out.push_str(&format!("num\trefusals\t{}\n", t.refusals));
    out.push_str(&format!("num\toutcomes\t{}\n", t.outcomes.len()));
    let mut s = t.samples.clone();
    s.sort();
    let step = (s.len() / 8).max(1);
    for (i, (u, x)) in s.iter().enumerate() {
        if i % step == 0 && i / step < 8 {
            out.push_str(&format!("sample\t{}\n", line_esc(&format!("[{}] {}", units[*u].name, x))));
        }
    }
    fs::write(&opts.out, out).unwrap();
    if !fl.is_empty() {
        1
    } else if !er.is_empty() {
        2
    } else {
        0
    }
}

#[derive(Debug)]
enum Outcome {
    Clean(RunData),
    Fail { unit: usize, name: String, msg: String },
    Hang { unit: usize, name: String, secs: String },
    Died { how: String, in_flight: Vec<usize> },
    Error(String),
}

#[derive(Debug, Default, Clone)]
struct RunData {
    nums: std::collections::BTreeMap<String, u64>,
    samples: Vec<String>,
}

fn run_worker(id: &str, tier: Tier, args: &[String], dir: &Path, trace: bool) -> Outcome {
    run_worker2(id, tier, args, dir, trace, None).0
}

/// like run_worker, given up after so many seconds
fn run_worker_for(id: &str, tier: Tier, args: &[String], dir: &Path, secs: u64) -> Outcome {
    run_worker2(id, tier, args, dir, true, Some(secs)).0
}

fn run_worker2(id: &str, tier: Tier, args: &[String], dir: &Path, trace: bool, secs: Option<u64>) -> (Outcome, RunData) {
    let out = dir.join("result");
    let _ = fs::remove_file(&out);
    let _ = fs::remove_file(out.with_extension("journal"));
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(exe);
    cmd.arg("worker").arg(id).arg("--tier").arg(tier.name()).arg("--out").arg(&out);
    if trace {
        cmd.arg("--trace").arg(dir.join("trace"));
    }
    cmd.args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return (Outcome::Error(format!("cannot start the worker: {}", e)), RunData::default()),
    };
    let t0 = Instant::now();
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {}
            Err(e) => return (Outcome::Error(format!("lost the worker: {}", e)), RunData::default()),
        }
        if let Some(limit) = secs {
            if t0.elapsed().as_secs() >= limit {
                let _ = child.kill();
                let _ = child.wait();
                return (Outcome::Error(format!("no answer in {} s", limit)), RunData::default());
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    };
    let text = fs::read_to_string(&out).unwrap_or_default();
    let mut data = RunData::default();
    let mut err = None;
    let mut bad = None;
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "fail" => bad = Some(Outcome::Fail { unit: f[1].parse().unwrap(), name: unesc(f[2]), msg: unesc(f[3]) }),
            "hang" => bad = Some(Outcome::Hang { unit: f[1].parse().unwrap(), name: unesc(f[2]), secs: unesc(f[3]) }),
            "error" => err = Some(format!("unit {}: {}", unesc(f[2]), unesc(f[3]))),
            "num" => {
                data.nums.insert(f[1].to_string(), f[2].parse().unwrap());
            }
            "sample" => data.samples.push(unesc(f[1])),
            _ => {}
        }
    }
    if let Some(b) = bad {
        return (b, data);
    }
    if let Some(e) = err {
        return (Outcome::Error(e), data);
    }
    if st.success() {
        return (Outcome::Clean(data.clone()), data);
    }
    let j = fs::read_to_string(out.with_extension("journal")).unwrap_or_default();
    let mut open: Vec<usize> = Vec::new();
    for l in j.lines() {
        if let Some(x) = l.strip_prefix("S ") {
            open.push(x.parse().unwrap());
        } else if let Some(x) = l.strip_prefix("E ") {
            let x: usize = x.parse().unwrap();
            open.retain(|u| *u != x);
        }
    }
    (Outcome::Died { how: format!("{}", st), in_flight: open }, data)
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8)
}

fn s(x: &str) -> String {
    x.to_string()
}

/// find the failure again in a fresh process; returns (message, how to replay)
fn confirm(id: &str, tier: Tier, dir: &Path, unit: usize) -> Option<(String, String)> {
    // alone, and then with everything before it in order on one thread (history dependent), with
    // the label of every step written ahead
    let limit = tier.pick(200, 3000);
    for (sel, how) in [("--only", "unit"), ("--upto", "history")] {
        let args = [s(sel), unit.to_string(), s("--threads"), s("1")];
        match run_worker_for(id, tier, &args, dir, limit) {
            Outcome::Fail { msg, .. } => return Some((msg, s(how))),
            Outcome::Hang { secs, .. } => {
                let l = fs::read_to_string(dir.join("trace")).unwrap_or_default();
                return Some((format!("{} does not terminate ({} s of CPU time)", l, secs), s(how)));
            }
            Outcome::Died { how: d, .. } => {
                let l = fs::read_to_string(dir.join("trace")).unwrap_or_default();
                return Some((format!("{} kills the process ({})", l, d), s(how)));
            }
            _ => {}
        }
    }
    None
}

pub fn supervise(prop: &'static Prop, tier: Tier, seed: u64, root: &Path) -> i32 {
    let t0 = Instant::now();
    let id = prop.id;
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let all = [s("--threads"), threads().to_string()];
    let (first, data) = run_worker2(id, tier, &all, &dir, false, None);
    let mut code = 0;
    let mut violation: Option<(usize, String, String, String)> = None;
    match first {
        Outcome::Clean(_) => {}
        Outcome::Error(e) => {
            println!("ERROR property={} {}", id, e);
            code = 2;
        }
        Outcome::Fail { unit, name, msg } => match confirm(id, tier, &dir, unit) {
            Some((m, how)) => violation = Some((unit, name, m, how)),
            // the real code did answer wrongly: the answer depends on what ran before or beside it
            None => violation = Some((unit, name, format!("{} (seen with the other units running)", msg), s("concurrent"))),
        },
        Outcome::Hang { unit, name, secs } => match confirm(id, tier, &dir, unit) {
            Some((m, how)) => violation = Some((unit, name, m, how)),
            None => {
                println!("ERROR property={} unit {} hung for {} s of CPU time but not again", id, name, secs);
                code = 2;
            }
        },
        Outcome::Died { how, in_flight } => {
            for u in &in_flight {
                let only = [s("--only"), u.to_string(), s("--threads"), s("1")];
                match run_worker(id, tier, &only, &dir, true) {
                    Outcome::Died { how, .. } => {
                        let l = fs::read_to_string(dir.join("trace")).unwrap_or_default();
                        violation = Some((*u, format!("unit {}", u), format!("{} kills the process ({})", l, how), s("unit")));
                    }
                    Outcome::Fail { unit, name, msg } => violation = Some((unit, name, msg, s("unit"))),
                    Outcome::Hang { unit, name, .. } => {
                        let l = fs::read_to_string(dir.join("trace")).unwrap_or_default();
                        violation = Some((unit, name, format!("{} does not terminate", l), s("unit")))
                    }
                    _ => continue,
                }
                break;
            }
            if violation.is_none() {
                println!("ERROR property={} the worker died ({}) in units {:?}, alone they do not", id, how, in_flight);
                code = 2;
            }
        }
    }
    if code == 0 && violation.is_none() {
        let n = |k: &str| data.nums.get(k).copied().unwrap_or(0);
        if n("units") != n("units_done") || n("transitions") == 0 {
            println!("ERROR property={} only {} of {} units ran", id, n("units_done"), n("units"));
            code = 2;
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let wall = t0.elapsed().as_secs_f64();
    if code == 2 {
        return 2;
    }
    let n = |k: &str| data.nums.get(k).copied().unwrap_or(0);
    let mut ev = String::from("{\n");
    ev.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", esc(id), esc(tier.name()), seed));
    ev.push_str(" \"coverage\": {\n");
    ev.push_str(&format!("  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n", n("states"), n("transitions"), n("traces")));
    ev.push_str(&format!("  \"units\": {},\n", n("units_done")));
    for (k, label) in [("outcomes", "distinct_outcomes"), ("refusals", "refusals_checked")] {
        if n(k) > 0 {
            ev.push_str(&format!("  \"{}\": {},\n", label, n(k)));
        }
    }
    ev.push_str(&format!("  \"exhaustive\": {},\n", violation.is_none()));
    ev.push_str(&format!("  \"rule\": {},\n", esc(prop.space)));
    ev.push_str("  \"samples\": [");
    ev.push_str(&data.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",\n   "));
    ev.push_str("]\n },\n \"assumptions\": [");
    let mut asm: Vec<String> = prop.assumptions.iter().map(|x| esc(x)).collect();
    asm.push(esc("the reference model in /verif/mc/src and the num-bigint crate are right; every transition is executed on the crate built from /repo, there is no separate model"));
    ev.push_str(&asm.join(",\n  "));
    ev.push_str(&format!("],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, if violation.is_some() { 1 } else { 0 }));
    let _ = fs::create_dir_all(root.join("evidence"));
    if let Err(e) = fs::write(root.join("evidence").join(format!("{}.json", id)), ev) {
        println!("ERROR property={} cannot write the evidence: {}", id, e);
        return 2;
    }
    if let Some((unit, name, msg, how)) = violation {
        let rd = root.join("replays");
        let _ = fs::create_dir_all(&rd);
        let path = rd.join(format!("{}.json", id));
        let r = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"unit\": {},\n \"name\": {},\n \"mode\": {},\n \"failure\": {},\n \"replay\": {}\n}}\n",
            esc(id), esc(tier.name()), unit, esc(&name), esc(&how), esc(&msg),
            esc(&format!("/verif/check.sh replay {}", path.display()))
        );
        let _ = fs::write(&path, r);
        println!("{}: unit [{}]", id, name);
        println!("{}: {}", id, msg);
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    println!(
        "OK property={} tier={} units={} states={} transitions={} traces={} refusals={} outcomes={} wall={:.1}s",
        id, tier.name(), n("units_done"), n("states"), n("transitions"), n("traces"), n("refusals"), n("outcomes"), wall
    );
    0
}

/// `mc replay FILE`: run the recorded unit (or the history up to it) again
pub fn replay(path: &str, props: &[&'static Prop]) -> i32 {
    let text = match fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("{}: {}", path, e);
            return 2;
        }
    };
    let field = |k: &str| -> Option<String> {
        let key = format!(" \"{}\": ", k);
        let l = text.lines().find(|l| l.starts_with(&key))?;
        let v = l[key.len()..].trim_end_matches(',');
        Some(if v.starts_with('"') { unesc(&v[1..v.len() - 1]) } else { v.to_string() })
    };
    let (id, tier, unit, mode) = match (field("property"), field("tier"), field("unit"), field("mode")) {
        (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d),
        _ => return 2,
    };
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    if !props.iter().any(|p| p.id == id) {
        return 2;
    }
    let dir = std::env::temp_dir().join(format!("mc-replay-{}", std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let args: Vec<String> = match mode.as_str() {
        "unit" => vec![s("--only"), unit, s("--threads"), s("1")],
        "history" => vec![s("--upto"), unit, s("--threads"), s("1")],
        _ => vec![s("--threads"), threads().to_string()],
    };
    let r = run_worker(&id, tier, &args, &dir, mode != "concurrent");
    let l = fs::read_to_string(dir.join("trace")).unwrap_or_default();
    let _ = fs::remove_dir_all(&dir);
    match r {
        Outcome::Clean(_) => {
            println!("the recorded failure does not occur");
            0
        }
        Outcome::Fail { name, msg, .. } => {
            println!("[{}] {}", name, msg);
            1
        }
        Outcome::Hang { name, secs, .. } => {
            println!("[{}] {} does not terminate ({} s of CPU time)", name, l, secs);
            1
        }
        Outcome::Died { how, .. } => {
            println!("{} kills the process ({})", l, how);
            1
        }
        Outcome::Error(e) => {
            println!("ERROR {}", e);
            2
        }
    }
}
