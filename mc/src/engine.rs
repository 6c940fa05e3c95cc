//! The controlled executor: enumerates every case of every phase on all cores, in a worker process
//! whose crashes, hangs and memory blow-ups the supervising process can attribute to a case.
//!
//! A phase is a finite, indexed space of executions; (phase, index) decodes deterministically into one
//! execution, so that every execution can be replayed on its own.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct Fail {
    pub msg: String,
    pub trace: Vec<String>,
}
impl Fail {
    pub fn new(msg: impl Into<String>) -> Fail {
        Fail { msg: msg.into(), trace: vec![] }
    }
}
pub type Res = Result<(), Fail>;
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Fail::new(format!($($a)*))) };
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for x in b { self.write_u64(*x as u64) }
    }
    fn write_u64(&mut self, x: u64) { self.0 = mix(self.0 ^ x) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxSet = HashSet<u64, BuildHasherDefault<Fx>>;
#[inline]
pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
#[inline]
pub fn mix128(x: u128) -> u64 {
    mix(mix(x as u64) ^ (x >> 64) as u64)
}

#[repr(C)]
struct Slot {
    phase: AtomicU64,
    idx: AtomicU64,
    tick: AtomicU64,
    _pad: [u64; 5],
}

/// What one worker thread measures.
pub struct Ctx {
    /// operations and queries executed on the real code and judged
    pub transitions: u64,
    /// complete executions
    pub traces: u64,
    /// distinct states, by hash
    pub states: FxSet,
    /// distinct non-trivial cases, by hash
    pub distinct: FxSet,
    /// further ones, distinct by construction
    pub cases: u64,
    pub digest: u64,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub verbose: bool,
    slot: *const Slot,
}
impl Ctx {
    fn new(slot: *const Slot) -> Ctx {
        Ctx { transitions: 0, traces: 0, states: FxSet::default(), distinct: FxSet::default(), cases: 0, digest: 0, sample: None, want_sample: false, verbose: false, slot }
    }
    #[inline]
    pub fn tick(&self) {
        if !self.slot.is_null() {
            unsafe { (*self.slot).tick.fetch_add(1, Relaxed) };
        }
    }
}

type RunFn = Box<dyn Fn(u64, &mut Ctx) -> Res + Sync + Send>;
pub struct Phase {
    pub name: String,
    pub n: u64,
    pub chunk: u64,
    pub run: RunFn,
    /// after a failure, produce the smallest failing execution found (optional)
    pub shrink: Option<Box<dyn Fn(u64) -> Option<Fail> + Sync + Send>>,
}
impl Phase {
    pub fn new(name: impl Into<String>, n: u64, chunk: u64, run: impl Fn(u64, &mut Ctx) -> Res + Sync + Send + 'static) -> Phase {
        Phase { name: name.into(), n, chunk: chunk.max(1), run: Box::new(run), shrink: None }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick { q } else { t }
    }
}

#[derive(Clone, Copy)]
pub struct Check {
    pub prop: &'static str,
    /// "model_checking", "fault_enumeration" or "exploration"
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// compare what the two builds observed, phase by phase
    pub compare_builds: bool,
    pub phases: fn(Tier) -> Vec<Phase>,
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{m} ({l})");
            }
        });
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
/// Runs f; a panic becomes a failure of the execution.
pub fn guarded<R>(f: impl FnOnce() -> Result<R, Fail>) -> Result<R, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(Fail::new(format!("panicked: {}", last_panic()))),
    }
}

fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get().clamp(2, 8)))
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => r.push('\n'),
                Some(c) => r.push(c),
                None => {}
            }
        } else {
            r.push(c)
        }
    }
    r
}
fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn map_slots(path: &str, n: usize) -> *const Slot {
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
    f.set_len((n * std::mem::size_of::<Slot>()) as u64).unwrap();
    use std::os::fd::AsRawFd;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), n * std::mem::size_of::<Slot>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *const Slot
}

struct SlotPtr(*const Slot);
unsafe impl Sync for SlotPtr {}
unsafe impl Send for SlotPtr {}

struct PhaseOut {
    fail: Option<(u64, Fail)>,
    executions: u64,
}
#[derive(Default)]
struct Totals {
    transitions: u64,
    traces: u64,
    states: FxSet,
    distinct: FxSet,
    cases: u64,
    digest: u64,
    sample: Option<String>,
}

fn run_phase(ph: &Phase, pi: u64, lo: u64, hi: u64, nt: usize, slots: *const Slot, tot: &mut Totals) -> PhaseOut {
    let next = AtomicU64::new(lo);
    let minfail = AtomicU64::new(u64::MAX);
    let fail: Mutex<Option<(u64, Fail)>> = Mutex::new(None);
    let merged: Mutex<&mut Totals> = Mutex::new(tot);
    let done = AtomicU64::new(0);
    let chunk = ph.chunk.min(((hi - lo) / (nt as u64 * 4)).max(1));
    let sp = SlotPtr(slots);
    let sample_at = lo + (hi - lo) * 2 / 3;
    std::thread::scope(|s| {
        for t in 0..nt {
            let (next, minfail, fail, merged, done, sp) = (&next, &minfail, &fail, &merged, &done, &sp);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let slot = if sp.0.is_null() { sp.0 } else { unsafe { sp.0.add(t) } };
                    let mut cx = Ctx::new(slot);
                    if !slot.is_null() {
                        unsafe { (*slot).phase.store(pi + 1, Relaxed) };
                    }
                    let mut ran = 0;
                    'outer: loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= hi || a > minfail.load(Relaxed) {
                            break;
                        }
                        for i in a..(a + chunk).min(hi) {
                            if i > minfail.load(Relaxed) {
                                break 'outer;
                            }
                            if !slot.is_null() {
                                unsafe {
                                    (*slot).idx.store(i, Relaxed);
                                    (*slot).tick.fetch_add(1, Relaxed);
                                }
                            }
                            cx.want_sample = i >= sample_at && cx.sample.is_none() && a <= sample_at;
                            ran += 1;
                            if let Err(e) = guarded(|| (ph.run)(i, &mut cx)) {
                                minfail.fetch_min(i, Relaxed);
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().is_none_or(|(j, _)| i < *j) {
                                    *f = Some((i, e));
                                }
                                break;
                            }
                        }
                    }
                    done.fetch_add(ran, Relaxed);
                    if !slot.is_null() {
                        unsafe { (*slot).phase.store(0, Relaxed) };
                    }
                    let mut m = merged.lock().unwrap();
                    m.transitions += cx.transitions;
                    m.traces += cx.traces;
                    m.states.extend(cx.states);
                    m.distinct.extend(cx.distinct);
                    m.cases += cx.cases;
                    m.digest = m.digest.wrapping_add(cx.digest);
                    if m.sample.is_none() {
                        m.sample = cx.sample;
                    }
                })
                .unwrap();
        }
    });
    let fail = fail.into_inner().unwrap();
    PhaseOut { fail, executions: done.load(Relaxed) }
}

fn build_name() -> &'static str {
    if cfg!(debug_assertions) { "checked" } else { "plain" }
}

fn limits() {
    // an allocation far beyond anything a handful of entries needs must fail here, not take the machine down
    let lim = libc::rlimit { rlim_cur: 22 << 30, rlim_max: 22 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &core) };
}

fn worker(chk: &Check, tier: Tier, slotfile: Option<&str>, only: Option<(u64, u64, u64)>) -> i32 {
    install_hook();
    limits();
    let nt = if only.is_some_and(|(_, a, b)| b == a + 1) { 1 } else { threads() };
    let slots = slotfile.map_or(std::ptr::null(), |p| map_slots(p, nt));
    let phases: &'static Vec<Phase> = Box::leak(Box::new((chk.phases)(tier)));
    let filter = std::env::var("MC_PHASE").ok();
    let timing = std::env::var("MC_TIMING").is_ok();
    let out = std::io::stdout();
    for (pi, ph) in phases.iter().enumerate() {
        let (mut lo, mut hi) = (0, ph.n);
        if let Some((p, a, b)) = only {
            if p != pi as u64 {
                continue;
            }
            (lo, hi) = (a, b.min(ph.n));
        }
        if let Some(f) = &filter {
            if !ph.name.contains(f.as_str()) {
                continue;
            }
        }
        let mut tot = Totals::default();
        let t0 = Instant::now();
        let r = run_phase(ph, pi as u64, lo, hi, nt, slots, &mut tot);
        if timing {
            eprintln!("{:8.3}s {:>12} {} tr={} st={}", t0.elapsed().as_secs_f64(), hi - lo, ph.name, tot.transitions, tot.states.len());
        }
        let mut o = out.lock();
        if let Some((i, f)) = r.fail {
            let mut say = |f: Fail| {
                let _ = writeln!(o, "FAIL\t{pi}\t{i}\t{}\t{}\t{}", esc(&ph.name), esc(&f.msg), esc(&f.trace.join("\n")));
                let _ = o.flush();
            };
            say(f);
            // shrinking is best effort: on broken code it may itself crash or not return
            if let Some(sh) = &ph.shrink {
                let (tx, rx) = std::sync::mpsc::channel();
                let _ = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                    let _ = tx.send(catch_unwind(AssertUnwindSafe(|| sh(i))).ok().flatten());
                });
                if let Ok(Some(g)) = rx.recv_timeout(Duration::from_secs(20)) {
                    say(g);
                }
            }
            return 1;
        }
        let _ = writeln!(
            o,
            "PHASE\t{pi}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
            esc(&ph.name),
            r.executions,
            tot.traces,
            tot.transitions,
            tot.states.len(),
            tot.distinct.len() as u64 + tot.cases,
            tot.digest,
            esc(&tot.sample.unwrap_or_default())
        );
        let _ = o.flush();
    }
    let _ = writeln!(out.lock(), "DONE");
    0
}

#[derive(Default, Clone)]
struct PhaseRow {
    name: String,
    executions: u64,
    traces: u64,
    transitions: u64,
    states: u64,
    distinct: u64,
    digest: u64,
    sample: String,
}
enum Outcome {
    Ok(Vec<PhaseRow>),
    Fail { phase: u64, idx: u64, name: String, msg: String, trace: String },
    Error(String),
}

enum End {
    Code(i32),
    Signal(i32),
    Hang,
}
/// Runs a worker to its end, watching its progress.
fn spawn(bin: &str, args: &[String], slotfile: &str, nt: usize, hang: Duration) -> (End, String) {
    let mut ch = match std::process::Command::new(bin).args(args).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => return (End::Code(99), format!("cannot start {bin}: {e}")),
    };
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let slots = map_slots(slotfile, nt);
    let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); nt];
    let t0 = Instant::now();
    let end = loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                use std::os::unix::process::ExitStatusExt;
                break match st.signal() {
                    Some(s) => End::Signal(s),
                    None => End::Code(st.code().unwrap_or(98)),
                };
            }
            Ok(None) => {}
            Err(_) => break End::Code(97),
        }
        for (t, l) in last.iter_mut().enumerate() {
            let s = unsafe { &*slots.add(t) };
            let k = s.tick.load(Relaxed);
            if s.phase.load(Relaxed) == 0 || k != l.0 {
                *l = (k, Instant::now());
            }
        }
        if last.iter().any(|l| l.1.elapsed() > hang) {
            let _ = ch.kill();
            let _ = ch.wait();
            break End::Hang;
        }
        std::thread::sleep(if t0.elapsed() < Duration::from_millis(300) { Duration::from_millis(5) } else { Duration::from_millis(50) });
    };
    let s = rd.join().unwrap_or_default();
    unsafe { libc::munmap(slots as *mut _, nt * std::mem::size_of::<Slot>()) };
    (end, s)
}

fn parse(out: &str) -> (Vec<PhaseRow>, Option<Outcome>, bool) {
    let mut rows = vec![];
    let mut fail = None;
    let mut done = false;
    for l in out.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "PHASE" if f.len() >= 10 => rows.push(PhaseRow {
                name: unesc(f[2]),
                executions: f[3].parse().unwrap_or(0),
                traces: f[4].parse().unwrap_or(0),
                transitions: f[5].parse().unwrap_or(0),
                states: f[6].parse().unwrap_or(0),
                distinct: f[7].parse().unwrap_or(0),
                digest: f[8].parse().unwrap_or(0),
                sample: unesc(f[9]),
            }),
            "FAIL" if f.len() >= 6 => {
                fail = Some(Outcome::Fail { phase: f[1].parse().unwrap_or(0), idx: f[2].parse().unwrap_or(0), name: unesc(f[3]), msg: unesc(f[4]), trace: unesc(f[5]) })
            }
            "DONE" => done = true,
            _ => {}
        }
    }
    (rows, fail, done)
}

fn signame(s: i32) -> String {
    match s {
        libc::SIGSEGV => "SIGSEGV (memory fault or stack overflow)".into(),
        libc::SIGABRT => "SIGABRT (abort: failed allocation, double panic or heap corruption)".into(),
        libc::SIGBUS => "SIGBUS".into(),
        libc::SIGILL => "SIGILL".into(),
        s => format!("signal {s}"),
    }
}

fn supervise_one(chk: &Check, bin: &str, tier: Tier, scratch: &str) -> Outcome {
    let nt = threads();
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let hang = Duration::from_secs(std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(60));
    let mut crashes = 0;
    loop {
        let slotfile = format!("{scratch}/slots");
        let _ = std::fs::remove_file(&slotfile);
        let args = vec!["--worker".to_string(), tier_s.into(), slotfile.clone()];
        let (end, out) = spawn(bin, &args, &slotfile, nt, hang);
        let (rows, fail, done) = parse(&out);
        if let Some(f) = fail {
            return f;
        }
        let why = match end {
            End::Code(0) if done => return Outcome::Ok(rows),
            End::Code(c) => return Outcome::Error(format!("worker ended with code {c} without an answer: {out}")),
            End::Signal(libc::SIGKILL) => return Outcome::Error("worker was killed (out of memory?)".into()),
            End::Signal(s) => format!("the process died of {}", signame(s)),
            End::Hang => format!("an operation did not return within {} s", hang.as_secs()),
        };
        // which case? re-run each thread's current case on its own
        let slots = map_slots(&slotfile, nt);
        let mut cand: Vec<(u64, u64)> = (0..nt)
            .filter_map(|t| {
                let s = unsafe { &*slots.add(t) };
                let p = s.phase.load(Relaxed);
                (p != 0).then(|| (p - 1, s.idx.load(Relaxed)))
            })
            .collect();
        cand.sort();
        for (p, i) in cand.iter().copied() {
            let sf = format!("{scratch}/slots1");
            let _ = std::fs::remove_file(&sf);
            let args = vec!["--range".into(), tier_s.to_string(), sf.clone(), p.to_string(), i.to_string(), (i + 1).to_string()];
            let (e, out) = spawn(bin, &args, &sf, 1, hang);
            let (_, f, _) = parse(&out);
            let name = (chk.phases)(tier).get(p as usize).map(|p| p.name.clone()).unwrap_or_default();
            match (e, f) {
                (_, Some(f)) => return f,
                (End::Signal(libc::SIGKILL), _) => {}
                (End::Signal(s), _) => return Outcome::Fail { phase: p, idx: i, name, msg: format!("the process died of {}", signame(s)), trace: String::new() },
                (End::Hang, _) => return Outcome::Fail { phase: p, idx: i, name, msg: format!("the execution did not return within {} s", hang.as_secs()), trace: String::new() },
                _ => {}
            }
        }
        crashes += 1;
        if crashes >= 2 {
            if matches!(end, End::Hang) {
                return Outcome::Error(format!("{why}, twice, but no single execution reproduces it"));
            }
            let (p, i) = cand.first().copied().unwrap_or((0, 0));
            let name = (chk.phases)(tier).get(p as usize).map(|p| p.name.clone()).unwrap_or_default();
            return Outcome::Fail { phase: p, idx: i, name, msg: format!("{why} while this phase ran, twice (memory corruption that no single execution shows)"), trace: String::new() };
        }
    }
}

fn verif_root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn phase_digest(bin: &str, tier_s: &str, scratch: &str, p: usize, lo: u64, hi: u64) -> Option<u64> {
    let sf = format!("{scratch}/slotsd");
    let _ = std::fs::remove_file(&sf);
    let args = vec!["--range".into(), tier_s.to_string(), sf.clone(), p.to_string(), lo.to_string(), hi.to_string()];
    let (_, out) = spawn(bin, &args, &sf, threads(), Duration::from_secs(60));
    parse(&out).0.first().map(|r| r.digest)
}

/// Entry point of every check binary.
pub fn main(chk: Check) -> ! {
    std::env::set_var("RUST_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().collect();
    let t = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => std::process::exit(worker(&chk, t(&args[2]), Some(&args[3]), None)),
        Some("--range") => std::process::exit(worker(&chk, t(&args[2]), Some(&args[3]), Some((args[4].parse().unwrap(), args[5].parse().unwrap(), args[6].parse().unwrap())))),
        Some("--local") => std::process::exit(worker(&chk, t(args.get(2).map_or("quick", |s| s)), None, None)),
        _ => {}
    }
    let tier = match args.get(1).map(|s| s.as_str()) {
        Some(s) => t(s),
        None => t(&std::env::var("VERIF_TIER").unwrap_or_default()),
    };
    std::process::exit(supervise(&chk, tier))
}

fn supervise(chk: &Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let root = verif_root();
    let me = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let mut bins = vec![(build_name().to_string(), me)];
    if let Ok(p) = std::env::var("MC_PLAIN") {
        bins.push(("plain".into(), p));
    }
    let scratch = format!("{root}/target/run.{}.{}", chk.prop, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    std::fs::create_dir_all(format!("{root}/evidence")).unwrap();
    std::fs::create_dir_all(format!("{root}/replay")).unwrap();
    let mut results: Vec<(String, Vec<PhaseRow>)> = vec![];
    let mut verdict: Option<(String, u64, u64, String, String, String)> = None;
    let mut error = None;
    for (b, bin) in &bins {
        match supervise_one(chk, bin, tier, &scratch) {
            Outcome::Ok(r) => {
                eprintln!("{} [{}]: {} phases held, {:.1} s", chk.prop, b, r.len(), t0.elapsed().as_secs_f64());
                results.push((b.clone(), r))
            }
            Outcome::Fail { phase, idx, name, msg, trace } => {
                verdict = Some((b.clone(), phase, idx, name, msg, trace));
                break;
            }
            Outcome::Error(e) => {
                error = Some(e);
                break;
            }
        }
    }
    if verdict.is_none() && error.is_none() && chk.compare_builds && results.len() == 2 {
        let n = results[0].1.len();
        for p in 0..n {
            if results[0].1[p].digest != results[1].1[p].digest {
                // locate the execution on which the two builds differ
                let (mut lo, mut hi) = (0, (chk.phases)(tier)[p].n);
                while hi - lo > 1 {
                    let mid = (lo + hi) / 2;
                    let a = phase_digest(&bins[0].1, tier_s, &scratch, p, lo, mid);
                    let b = phase_digest(&bins[1].1, tier_s, &scratch, p, lo, mid);
                    if a != b { hi = mid } else { lo = mid }
                }
                verdict = Some(("checked/plain".into(), p as u64, lo, results[0].1[p].name.clone(), "the builds with and without debug assertions observe different results".into(), String::new()));
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);

    if let Some(e) = error {
        println!("ERROR property={} {}", chk.prop, e);
        let _ = std::fs::remove_file(format!("{root}/evidence/{}.json", chk.prop));
        return 2;
    }
    // evidence
    let mut cov: Vec<(String, String)> = vec![];
    let sum = |f: fn(&PhaseRow) -> u64| -> u64 { results.iter().map(|(_, r)| r.iter().map(f).sum::<u64>()).sum() };
    let mut samples: Vec<String> = vec![];
    if let Some((_, r)) = results.first() {
        let step = (r.len() / 12).max(1);
        for row in r.iter().step_by(step) {
            if !row.sample.is_empty() {
                samples.push(format!("[{}] {}", row.name, row.sample));
            }
        }
    }
    if let Some((b, p, i, name, msg, trace)) = &verdict {
        samples.push(format!("[{b} build, {name}, execution {p}/{i}] {msg}; {trace}"));
    }
    // states and distinct cases are those of one build: the second build runs the same ones
    let first = |f: fn(&PhaseRow) -> u64| -> u64 { results.first().map_or(0, |(_, r)| r.iter().map(f).sum::<u64>()) };
    if chk.level == "model_checking" {
        cov.push(("states".into(), first(|r| r.states).to_string()));
        cov.push(("transitions".into(), sum(|r| r.transitions).to_string()));
        cov.push(("traces_validated_against_impl".into(), sum(|r| r.traces).to_string()));
    } else {
        cov.push(("evaluations".into(), sum(|r| r.transitions).to_string()));
        cov.push(("distinct_nontrivial".into(), first(|r| r.distinct).to_string()));
        cov.push(("executions".into(), sum(|r| r.traces).to_string()));
    }
    cov.push(("rule".into(), js(chk.rule)));
    cov.push(("samples".into(), format!("[{}]", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))));
    cov.push(("exhaustive".into(), verdict.is_none().to_string()));
    let mut ph = String::new();
    for (b, r) in &results {
        for row in r {
            if !ph.is_empty() {
                ph.push(',');
            }
            ph.push_str(&format!(
                "{{\"build\":{},\"phase\":{},\"cases\":{},\"traces\":{},\"transitions\":{},\"states\":{},\"distinct\":{},\"digest\":\"{:016x}\"}}",
                js(b), js(&row.name), row.executions, row.traces, row.transitions, row.states, row.distinct, row.digest
            ));
        }
    }
    cov.push(("phases".into(), format!("[{ph}]")));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        js(chk.prop),
        js(tier_s),
        seed,
        js(chk.level),
        cov.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        chk.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        verdict.is_some() as u32
    );
    std::fs::write(format!("{root}/evidence/{}.json", chk.prop), ev).unwrap();
    if let Some((b, p, i, name, msg, trace)) = verdict {
        let path = format!("{root}/replay/{}.json", chk.prop);
        let doc = format!(
            "{{\"property\":{},\"tier\":{},\"build\":{},\"phase\":{},\"phase_name\":{},\"index\":{},\"message\":{},\"execution\":[{}],\"replay_cmd\":{}}}\n",
            js(chk.prop), js(tier_s), js(&b), p, js(&name), i, js(&msg),
            trace.lines().map(js).collect::<Vec<_>>().join(","),
            js(&format!("bash /verif/replay.sh {path}"))
        );
        std::fs::write(&path, doc).unwrap();
        println!("{}: {}", name, msg);
        for l in trace.lines() {
            println!("    {l}");
        }
        println!("VIOLATION property={} replay={}", chk.prop, path);
        return 1;
    }
    let g: HashMap<&str, u64> = HashMap::from([("transitions", sum(|r| r.transitions)), ("traces", sum(|r| r.traces))]);
    println!("OK property={} tier={} builds={} phases={} traces={} transitions={} wall={:.1}s", chk.prop, tier_s, results.len(), results[0].1.len(), g["traces"], g["transitions"], t0.elapsed().as_secs_f64());
    0
}
impl Ctx {
    pub fn bare() -> Ctx {
        Ctx::new(std::ptr::null())
    }
}
