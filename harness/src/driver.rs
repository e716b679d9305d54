//! Runs a property's workload in worker processes under supervision and writes the evidence.
//!
//! Verdicts are three-valued: a monitor firing (or a crash/hang that reproduces in a fresh
//! process) is a violation; a crash or hang that does not reproduce, or a run that observed too
//! little, is inconclusive (exit 2); otherwise the property held on everything observed.
use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Fail {
    pub case: String,
    pub kind: String,
    pub msg: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub case: u64,
    pub input: String,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    fails: Vec<Fail>,
    nfail_case: usize,
    case_name: String,
}

impl Ctx {
    fn new(thorough: bool) -> Self {
        Ctx {
            rng: Rng::new(0),
            thorough,
            case: 0,
            input: String::new(),
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            fails: vec![],
            nfail_case: 0,
            case_name: String::new(),
        }
    }
    pub fn fail(&mut self, kind: &str, msg: impl Into<String>) {
        self.nfail_case += 1;
        if self.nfail_case > 3 || self.fails.len() > 60 {
            return;
        }
        self.fails.push(Fail {
            case: self.case_name.clone(),
            kind: kind.to_string(),
            msg: format!("{} || input: {}", msg.into(), self.input),
        });
    }
    pub fn failed(&self) -> bool {
        self.nfail_case > 0
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// registers a non-trivial input
    pub fn distinct(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// Runs code under test; a panic becomes a failure of kind "panic:<op>".
    pub fn guard<T>(&mut self, op: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                let m = last_panic();
                if weight_overflow(&m) {
                    self.count("weights_out_of_range");
                } else {
                    self.fail(&format!("panic:{}", op), format!("panicked: {}", m));
                }
                None
            }
        }
    }
    /// Like guard, and an Err is a failure too.
    pub fn guard_ok<T>(&mut self, op: &str, f: impl FnOnce() -> anyhow::Result<T>) -> Option<T> {
        match self.guard(op, f)? {
            Ok(v) => Some(v),
            Err(e) => {
                self.fail(&format!("error:{}", op), format!("returned an error: {:?}", e));
                None
            }
        }
    }
}

#[macro_export]
macro_rules! chk {
    ($ctx:expr, $cond:expr, $kind:expr, $($arg:tt)*) => {
        if !($cond) {
            $ctx.fail($kind, format!($($arg)*));
        }
    };
}

/// The weight of a long path of integer weights need not fit an i32: arithmetic of the workload
/// leaving the range of the weights, not a fault of an algorithm.
fn weight_overflow(m: &str) -> bool {
    m.contains("with overflow") && (m.contains("semirings/integer_weight.rs") || m.contains("src/refw.rs"))
}

static PANIC: Mutex<String> = Mutex::new(String::new());
pub fn last_panic() -> String {
    PANIC.lock().unwrap().clone()
}

pub type CaseFn = fn(&mut Ctx);

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub case: CaseFn,
    /// fixed inputs, run once each
    pub fixed: &'static [(&'static str, CaseFn)],
    /// counters that must be non-zero, else the run observed nothing worth believing
    pub must: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// CPU seconds one case may take before it is called a hang
    pub case_cpu: f64,
    /// only crashes (sanitizer reports, failed safety checks, signals) are judged, not values, panics or time
    pub crash_only: bool,
}

pub const DEFAULT: Prop = Prop {
    id: "",
    quick: 0,
    thorough: 0,
    rule: "",
    case: |_| {},
    fixed: &[],
    must: &[],
    assumptions: &[],
    case_cpu: 20.0,
    crash_only: false,
};

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_case(p: &Prop, ctx: &mut Ctx, seed: u64, name: &str) {
    ctx.case_name = name.to_string();
    ctx.nfail_case = 0;
    ctx.input.clear();
    let f: CaseFn = if let Some(fx) = name.strip_prefix("fixed:") {
        ctx.rng = Rng::new(hash_str(fx));
        match p.fixed.iter().find(|(n, _)| *n == fx) {
            Some((_, f)) => *f,
            None => return,
        }
    } else {
        let idx: u64 = name.parse().unwrap_or(0);
        ctx.case = idx;
        ctx.rng = Rng::new(mix(seed ^ hash_str(p.id)) ^ mix(idx.wrapping_add(0x1234_5678)));
        p.case
    };
    let r = catch_unwind(AssertUnwindSafe(|| f(ctx)));
    if r.is_err() {
        let m = last_panic();
        if weight_overflow(&m) {
            ctx.count("weights_out_of_range");
        } else {
            ctx.fail("panic", format!("panicked: {}", m));
        }
    }
}

fn worker(p: &Prop, args: &[String]) -> ! {
    // args: dir, slot, seed, thorough, deadline_ms, names-file | from step total
    let dir = PathBuf::from(&args[0]);
    let slot = &args[1];
    let seed: u64 = args[2].parse().unwrap();
    let thorough = args[3] == "1";
    let deadline = Duration::from_millis(args[4].parse().unwrap());
    let from: u64 = args[5].parse().unwrap();
    let step: u64 = args[6].parse().unwrap();
    let total: u64 = args[7].parse().unwrap();
    let fixed_from: usize = args[8].parse().unwrap();
    let t0 = Instant::now();
    let prog = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(false)
        .open(dir.join(format!("prog.{}", slot)))
        .unwrap();
    let mut ctx = Ctx::new(thorough);
    let flush = |ctx: &mut Ctx, done: bool| {
        let mut o = String::new();
        for (k, v) in &ctx.counters {
            o += &format!("C\t{}\t{}\n", k, v);
        }
        for s in &ctx.samples {
            o += &format!("S\t{}\n", esc(s));
        }
        for f in &ctx.fails {
            o += &format!("F\t{}\t{}\t{}\n", f.case, esc(&f.kind), esc(&f.msg));
        }
        for h in &ctx.distinct {
            o += &format!("H\t{:x}\n", h);
        }
        if done {
            o += "D\n";
        }
        let tmp = dir.join(format!("tmp.{}", slot));
        fs::write(&tmp, o).unwrap();
        // one result file per worker incarnation
        let mut k = 0;
        loop {
            let f = dir.join(format!("res.{}.{}", slot, k));
            if !f.exists() {
                fs::rename(&tmp, f).unwrap();
                break;
            }
            k += 1;
        }
        ctx.counters.clear();
        ctx.samples.clear();
        ctx.fails.clear();
        ctx.distinct.clear();
    };
    let mut last = Instant::now();
    if from % step == 0 || fixed_from > 0 {
        for (i, (n, _)) in p.fixed.iter().enumerate().skip(fixed_from) {
            // fixed cases are numbered from the top of the range
            prog.write_at(&(u64::MAX - i as u64).to_le_bytes(), 0).unwrap();
            run_case(p, &mut ctx, seed, &format!("fixed:{}", n));
            ctx.count("fixed_cases");
        }
        flush(&mut ctx, false);
    }
    let mut i = from;
    while i < total {
        if t0.elapsed() > deadline {
            ctx.count("cut_short_by_deadline");
            break;
        }
        prog.write_at(&i.to_le_bytes(), 0).unwrap();
        run_case(p, &mut ctx, seed, &i.to_string());
        ctx.count("cases");
        if last.elapsed() > Duration::from_millis(1500) || ctx.fails.len() > 5 {
            flush(&mut ctx, false);
            last = Instant::now();
        }
        i += step;
    }
    flush(&mut ctx, true);
    std::process::exit(0);
}

fn cpu_secs(pid: u32) -> f64 {
    if let Ok(s) = fs::read_to_string(format!("/proc/{}/stat", pid)) {
        if let Some(i) = s.rfind(')') {
            let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
            if f.len() > 13 {
                let u: f64 = f[11].parse().unwrap_or(0.0);
                let k: f64 = f[12].parse().unwrap_or(0.0);
                return (u + k) / 100.0;
            }
        }
    }
    0.0
}

struct Slot {
    id: usize,
    child: Option<Child>,
    last_case: Option<u64>,
    cpu_at: f64,
    wall_at: Instant,
    restarts: usize,
    from: u64,
}

fn name_of(p: &Prop, c: u64) -> String {
    if u64::MAX - c < 100_000 {
        let k = (u64::MAX - c) as usize;
        format!("fixed:{}", p.fixed[k].0)
    } else {
        c.to_string()
    }
}

/// runs one case in a fresh process. Ok(result lines) / Err("crash"/"hang")
fn replay_single(exe: &PathBuf, p: &Prop, seed: u64, thorough: bool, name: &str, cpu: f64) -> Result<String, String> {
    let mut ch = Command::new(exe)
        .args(["--one", name, &seed.to_string(), if thorough { "1" } else { "0" }])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("spawn: {}", e))?;
    let out = ch.stdout.take().unwrap();
    let th = std::thread::spawn(move || {
        let mut s = String::new();
        use std::io::Read;
        let mut out = out;
        let _ = out.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let _ = p;
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let s = th.join().unwrap();
            if let Some(sig) = st.signal() {
                return Err(format!("crash: killed by signal {}", sig));
            }
            return match st.code() {
                Some(0) | Some(1) => Ok(s),
                c => Err(format!("crash: exit {:?}", c)),
            };
        }
        if cpu_secs(ch.id()) > cpu || t0.elapsed() > Duration::from_secs_f64(cpu * 6.0) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(format!("hang: no end after {:.0} s of CPU", cpu));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

fn is_known(kn: &[(String, String)], f: &Fail) -> bool {
    let sig = format!("{}/{}", f.case, f.kind).replace(' ', "_");
    kn.iter().any(|(s, _)| *s == sig)
}

/// Listed findings: lines "known: property=<id> sig=<case>/<kind> <what>"
fn known(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let (a, b, c) = (it.next(), it.next(), it.next());
                if a == Some(&format!("property={}", id)) {
                    if let Some(sig) = b.and_then(|x| x.strip_prefix("sig=")) {
                        v.push((sig.to_string(), c.unwrap_or("").to_string()));
                    }
                }
            }
        }
    }
    v
}

pub fn run(p: Prop) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info).replace('\n', " ");
        if let Ok(mut g) = PANIC.lock() {
            *g = m;
        }
    }));
    let lim = RLimit {
        cur: 4 << 30,
        max: 4 << 30,
    };
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--worker") {
        if std::env::var("FSTMON_NOLIMIT").is_err() {
            unsafe { setrlimit(9, &lim) };
        }
        worker(&p, &args[2..]);
    }
    if args.get(1).map(|s| s.as_str()) == Some("--one") {
        if std::env::var("FSTMON_NOLIMIT").is_err() {
            unsafe { setrlimit(9, &lim) };
        }
        let mut ctx = Ctx::new(args.get(4).map(|s| s == "1").unwrap_or(false));
        let seed = args.get(3).and_then(|s| s.parse().ok()).unwrap_or_else(|| env_u64("VERIF_SEED", 1));
        run_case(&p, &mut ctx, seed, &args[2]);
        for (k, v) in &ctx.counters {
            println!("C\t{}\t{}", k, v);
        }
        for f in &ctx.fails {
            println!("F\t{}\t{}\t{}", f.case, esc(&f.kind), esc(&f.msg));
        }
        std::process::exit(if ctx.fails.is_empty() { 0 } else { 1 });
    }

    if args.get(1).map(|s| s.as_str()) == Some("--inproc") {
        // FIRST COUNT SECONDS SEED: plain sequential execution, for interpreters and sanitizers that watch this process;
        // what the monitors say about values is not reported here
        let n = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        let (first, count, secs, seed) = (n(2), n(3), n(4), n(5));
        let t0 = Instant::now();
        let mut ctx = Ctx::new(false);
        let mut done = 0u64;
        for c in first..first + count {
            if t0.elapsed().as_secs() >= secs {
                break;
            }
            eprintln!("CASE {}", c);
            run_case(&p, &mut ctx, seed, &c.to_string());
            done += 1;
        }
        println!("DONE {} {}", done, ctx.counters.values().sum::<u64>());
        for (k, v) in &ctx.counters {
            println!("C\t{}\t{}", k, v);
        }
        std::process::exit(0);
    }

    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let seed = env_u64("VERIF_SEED", 1);
    let total = env_u64("FSTMON_CASES", if thorough { p.thorough } else { p.quick });
    let nw = env_u64("FSTMON_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8)).max(1);
    let deadline_ms: u64 = env_u64("FSTMON_DEADLINE", if thorough { 3_000 } else { 240 }) * 1000;
    let exe = std::env::current_exe().unwrap();
    let ev = verif_dir().join("evidence");
    let _ = fs::create_dir_all(ev.join("replays"));
    let dir = std::env::temp_dir().join(format!("fstmon.{}.{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();

    let spawn = |id: usize, from: u64, fixed_from: usize| -> Child {
        Command::new(&exe)
            .arg("--worker")
            .arg(&dir)
            .arg(id.to_string())
            .arg(seed.to_string())
            .arg(if thorough { "1" } else { "0" })
            .arg(deadline_ms.to_string())
            .arg(from.to_string())
            .arg(nw.to_string())
            .arg(total.to_string())
            .arg(fixed_from.to_string())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker")
    };
    let mut slots: Vec<Slot> = (0..nw as usize)
        .map(|i| Slot {
            id: i,
            child: Some(spawn(i, i as u64, if i == 0 { 0 } else { p.fixed.len() })),
            last_case: None,
            cpu_at: 0.0,
            wall_at: Instant::now(),
            restarts: 0,
            from: i as u64,
        })
        .collect();

    let mut fails: Vec<Fail> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut crashes = 0;
    let kn0 = known(p.id);
    let mut enough = false;
    loop {
        let mut alive = 0;
        for s in slots.iter_mut() {
            let ch = match s.child.as_mut() {
                None => continue,
                Some(c) => c,
            };
            alive += 1;
            let cur = fs::read(dir.join(format!("prog.{}", s.id)))
                .ok()
                .filter(|b| b.len() == 8)
                .map(|b| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]));
            let mut trouble: Option<String> = None;
            match ch.try_wait() {
                Ok(Some(st)) => {
                    if st.success() {
                        s.child = None;
                        continue;
                    }
                    trouble = Some(format!("crash ({})", st));
                }
                Ok(None) => {
                    let cpu = cpu_secs(ch.id());
                    if cur != s.last_case {
                        s.last_case = cur;
                        s.cpu_at = cpu;
                        s.wall_at = Instant::now();
                    } else if cpu - s.cpu_at > p.case_cpu
                        || s.wall_at.elapsed().as_secs_f64() > p.case_cpu * 5.0
                    {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        trouble = Some("hang".into());
                    }
                }
                Err(_) => {}
            }
            if let Some(tr) = trouble {
                if enough {
                    s.child = None;
                    continue;
                }
                s.child = None;
                crashes += 1;
                match cur {
                    None => inconclusive.push(format!("worker {} died before its first case: {}", s.id, tr)),
                    Some(c) => {
                        let name = name_of(&p, c);
                        if p.crash_only && tr == "hang" {
                            inconclusive.push(format!("case {}: too slow", name));
                            s.restarts += 1;
                            if s.restarts < 4 {
                                s.last_case = None;
                                s.cpu_at = 0.0;
                                s.wall_at = Instant::now();
                                s.child = Some(spawn(s.id, c.wrapping_add(nw), p.fixed.len()));
                            }
                            continue;
                        }
                        match replay_single(&exe, &p, seed, thorough, &name, p.case_cpu * 1.5) {
                            Err(e) => fails.push(Fail {
                                case: name.clone(),
                                kind: e.split(':').next().unwrap_or("crash").to_string(),
                                msg: format!("{} in the supervised run, and again when replayed alone: {}", tr, e),
                            }),
                            Ok(out) => {
                                let mut any = false;
                                for l in out.lines() {
                                    let f: Vec<&str> = l.split('\t').collect();
                                    if f[0] == "F" && f.len() >= 4 && !p.crash_only {
                                        any = true;
                                        fails.push(Fail { case: f[1].into(), kind: unesc(f[2]), msg: unesc(f[3]) });
                                    }
                                }
                                if !any {
                                    inconclusive.push(format!("case {}: {} not reproduced", name, tr));
                                }
                            }
                        }
                        s.restarts += 1;
                        // a confirmed crash or hang decides the run: do not spend the time limit on more of them
                        enough = fails.iter().any(|f| !is_known(&kn0, f));
                        if s.restarts < 4 && crashes < 12 && !enough {
                            let (nf, ff) = if u64::MAX - c < 100_000 {
                                (s.from, (u64::MAX - c) as usize + 1)
                            } else {
                                (c + nw, p.fixed.len())
                            };
                            s.last_case = None;
                            s.cpu_at = 0.0;
                            s.wall_at = Instant::now();
                            s.child = Some(spawn(s.id, nf, ff));
                        }
                    }
                }
            }
        }
        if enough {
            for s in slots.iter_mut() {
                if let Some(mut ch) = s.child.take() {
                    let _ = ch.kill();
                    let _ = ch.wait();
                }
            }
        }
        if alive == 0 || enough {
            break;
        }
        std::thread::sleep(Duration::from_millis(25));
    }

    // gather
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    for e in fs::read_dir(&dir).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if !n.starts_with("res.") {
            continue;
        }
        let s = fs::read_to_string(e.path()).unwrap_or_default();
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "C" if f.len() == 3 => *counters.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0),
                "H" => {
                    if let Ok(h) = u64::from_str_radix(f[1], 16) {
                        distinct.insert(h);
                    }
                }
                "S" => {
                    if samples.len() < 6 {
                        samples.push(unesc(f[1]));
                    }
                }
                "F" if f.len() >= 4 && !p.crash_only => fails.push(Fail { case: f[1].into(), kind: unesc(f[2]), msg: unesc(f[3]) }),
                _ => {}
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);

    // known findings
    let kn = known(p.id);
    let mut new_fails = vec![];
    let mut seen_known: HashSet<String> = HashSet::new();
    for f in fails {
        let sig = format!("{}/{}", f.case, f.kind).replace(' ', "_");
        if let Some((s, what)) = kn.iter().find(|(s, _)| *s == sig) {
            if seen_known.insert(s.clone()) {
                println!("KNOWN-FINDING: property={} {}", p.id, what);
            }
        } else {
            new_fails.push(f);
        }
    }
    let mut missing = vec![];
    for m in p.must {
        if counters.get(*m).copied().unwrap_or(0) == 0 {
            missing.push(*m);
        }
    }
    let evals = counters.get("cases").copied().unwrap_or(0) + counters.get("fixed_cases").copied().unwrap_or(0);

    // violations
    new_fails.sort_by(|a, b| {
        let k = |f: &Fail| (f.msg.len() / 200, f.case.len(), f.case.clone());
        k(a).cmp(&k(b))
    });
    let mut kinds: BTreeMap<String, usize> = BTreeMap::new();
    for f in &new_fails {
        *kinds.entry(f.kind.clone()).or_insert(0) += 1;
    }
    let mut printed: HashSet<String> = HashSet::new();
    for f in &new_fails {
        if printed.len() >= 8 {
            break;
        }
        if !printed.insert(f.kind.clone()) {
            continue;
        }
        let path = ev.join("replays").join(format!(
            "{}-{}-{}.json",
            p.id,
            seed,
            f.case.replace(|c: char| !c.is_ascii_alphanumeric(), "_")
        ));
        let body = format!(
            "{{\"property\":{},\"seed\":{},\"tier\":{},\"case\":{},\"kind\":{},\"what\":{},\"replay_cmd\":{}}}\n",
            json_str(p.id),
            seed,
            json_str(&tier),
            json_str(&f.case),
            json_str(&f.kind),
            json_str(&f.msg),
            json_str(&format!("VERIF_SEED={} ./check.sh {} --one {}", seed, p.id, f.case)),
        );
        let _ = fs::write(&path, body);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        let mut m = f.msg.clone();
        if m.len() > 1500 {
            let mut k = 1500;
            while !m.is_char_boundary(k) {
                k -= 1;
            }
            m.truncate(k);
            m += "...";
        }
        println!("  case {} [{}] {}", f.case, f.kind, m);
    }
    if !kinds.is_empty() {
        println!("  failures by kind: {:?}", kinds);
    }

    // evidence
    let mut o = String::new();
    o += "{\n";
    o += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", json_str(p.id), json_str(&tier), seed);
    o += " \"coverage\": {\n";
    o += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", evals, distinct.len(), json_str(p.rule));
    o += "  \"observed\": {";
    let mut first = true;
    for (k, v) in &counters {
        if !first {
            o += ", ";
        }
        first = false;
        o += &format!("{}: {}", json_str(k), v);
    }
    o += "},\n";
    o += "  \"samples\": [";
    for (i, s) in samples.iter().enumerate() {
        if i > 0 {
            o += ", ";
        }
        o += &json_str(s);
    }
    o += "],\n";
    o += &format!("  \"inconclusive\": [{}],\n", inconclusive.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    o += &format!("  \"known_findings_seen\": {}\n", seen_known.len());
    o += " },\n";
    o += &format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    o += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), new_fails.len());
    let mut fh = fs::File::create(ev.join(format!("{}.json", p.id))).expect("evidence file");
    fh.write_all(o.as_bytes()).expect("evidence");

    println!(
        "{}: {} cases, {} distinct non-trivial, {} violations, {} inconclusive, {:.1} s",
        p.id,
        evals,
        distinct.len(),
        new_fails.len(),
        inconclusive.len(),
        t0.elapsed().as_secs_f64()
    );
    if std::env::var("FSTMON_VERBOSE").is_ok() {
        println!("{:?}", counters);
    }
    if !new_fails.is_empty() {
        std::process::exit(1);
    }
    if !missing.is_empty() || (evals > 0 && distinct.is_empty()) {
        println!("INCONCLUSIVE: nothing observed for {:?}", missing);
        std::process::exit(2);
    }
    std::process::exit(0);
}
