//! The check engine: proptest drives word tapes through a property in several worker processes;
//! failures are shrunk by proptest (or, when the process dies, by a forked greedy shrinker) and
//! written as replay files; evidence is aggregated from the workers.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

use proptest::collection::vec as pvec;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{Deserialize, Serialize};

use crate::src::mix;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Case {
    pub head: Vec<u32>,
    pub steps: Vec<Vec<u32>>,
}

/// Per-case context: labels, triviality, description.
#[derive(Default)]
pub struct Ctx {
    pub thorough: bool,
    labels: Vec<String>,
    nontrivial: bool,
    key: u64,
    desc: Vec<String>,
    pub verbose: bool,
    skipped: Option<&'static str>,
}

impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// distinctness key of the decoded case (mixed in, order-sensitive)
    pub fn key(&mut self, k: impl std::hash::Hash) {
        use std::hash::Hasher;
        let mut h = Fnv(self.key ^ 0xcbf29ce484222325);
        k.hash(&mut h);
        self.key = mix(h.finish());
    }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        self.key(&s);
        self.desc.push(s);
    }
    pub fn skip(&mut self, why: &'static str) {
        self.skipped = Some(why);
        self.nontrivial = false;
    }
}

struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

pub type PropFn = fn(&Case, &mut Ctx) -> Result<(), String>;

#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    pub head: usize,
    pub steps: (usize, usize),
    pub step_len: usize,
    pub quick: u32,
    pub thorough: u32,
    pub run: PropFn,
}

pub struct Check {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    sub: String,
    /// how to read it
    note: String,
    message: String,
    decoded: Vec<String>,
    case: Case,
    /// when the failure only shows after earlier cases of the same worker
    #[serde(default)]
    history: Option<History>,
}

#[derive(Serialize, Deserialize, Clone)]
struct History {
    seed: u64,
    shard: u32,
    cases: u32,
    upto: u32,
}

#[derive(Serialize, Deserialize, Default)]
struct ShardOut {
    evaluations: u64,
    nontrivial: u64,
    skipped: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    fail: Option<FailOut>,
}

#[derive(Serialize, Deserialize, Clone)]
struct FailOut {
    sub: String,
    message: String,
    decoded: Vec<String>,
    case: Case,
}

const SHARDS: u32 = 8;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
    }));
}

/// Runs library code; Err(panic message) if it panicked.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn exec(sub: &Sub, case: &Case, thorough: bool) -> (Ctx, Result<(), String>) {
    let mut ctx = Ctx { thorough, ..Ctx::default() };
    let r = {
        let c = &mut ctx;
        match panic::catch_unwind(AssertUnwindSafe(|| (sub.run)(case, c))) {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        }
    };
    (ctx, r)
}

fn seed_bytes(seed: u64, sub: &str, shard: u32) -> [u8; 32] {
    let mut h = mix(seed.wrapping_add(0x1234_5678));
    for b in sub.bytes() {
        h = mix(h ^ b as u64);
    }
    h = mix(h ^ (shard as u64) << 32);
    let mut out = [0u8; 32];
    for i in 0..4 {
        h = mix(h.wrapping_add(i as u64));
        out[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

fn strategy(sub: &Sub) -> BoxedStrategy<Case> {
    let head = pvec(any::<u32>(), sub.head);
    let step = pvec(any::<u32>(), sub.step_len);
    let (lo, hi) = sub.steps;
    // a mixture of history lengths: short ones shrink the search for simple failures, long ones
    // reach deep states
    let steps = if hi <= 12 {
        pvec(step, lo..=hi).boxed()
    } else {
        let mid = (lo + (hi - lo) / 4).max(lo);
        prop_oneof![
            2 => pvec(step.clone(), lo..=mid),
            2 => pvec(step, mid..=hi),
        ]
        .boxed()
    };
    (head, steps).prop_map(|(head, steps)| Case { head, steps }).boxed()
}

struct Recorder {
    out: ShardOut,
    seen: HashSet<u64>,
    failed: bool,
    mark: Option<std::fs::File>,
    count: u32,
}

fn write_mark(f: &mut std::fs::File, idx: u32, case: &Case) {
    let mut buf = Vec::with_capacity(64 + case.steps.len() * 64);
    let put = |b: &mut Vec<u8>, v: u32| b.extend_from_slice(&v.to_le_bytes());
    put(&mut buf, idx);
    put(&mut buf, case.head.len() as u32);
    for &w in &case.head {
        put(&mut buf, w);
    }
    put(&mut buf, case.steps.len() as u32);
    for s in &case.steps {
        put(&mut buf, s.len() as u32);
        for &w in s {
            put(&mut buf, w);
        }
    }
    let _ = f.seek(SeekFrom::Start(0));
    let _ = f.write_all(&buf);
}

fn read_mark(p: &Path) -> Option<(u32, Case)> {
    let mut b = vec![];
    std::fs::File::open(p).ok()?.read_to_end(&mut b).ok()?;
    let mut pos = 0usize;
    let mut get = || -> Option<u32> {
        let r = u32::from_le_bytes(b.get(pos..pos + 4)?.try_into().ok()?);
        pos += 4;
        Some(r)
    };
    let idx = get()?;
    let n = get()?;
    let mut head = vec![];
    for _ in 0..n {
        head.push(get()?);
    }
    let m = get()?;
    let mut steps = vec![];
    for _ in 0..m {
        let k = get()?;
        let mut s = vec![];
        for _ in 0..k {
            s.push(get()?);
        }
        steps.push(s);
    }
    Some((idx, Case { head, steps }))
}

/// Runs one shard of one sub-property in this process.
fn run_shard(sub: &Sub, seed: u64, shard: u32, cases: u32, thorough: bool, mark: Option<&Path>, stop_after: Option<u32>) -> ShardOut {
    install_hook();
    let rec = RefCell::new(Recorder {
        out: ShardOut::default(),
        seen: HashSet::new(),
        failed: false,
        mark: mark.map(|p| std::fs::File::create(p).unwrap()),
        count: 0,
    });
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 3000,
        max_shrink_time: 45_000,
        verbose: 0,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, sub.name, shard));
    let mut runner = TestRunner::new_with_rng(config, rng);
    let result = runner.run(&strategy(sub), |case| {
        {
            let mut r = rec.borrow_mut();
            r.count += 1;
            if let Some(limit) = stop_after {
                if r.count > limit {
                    std::process::exit(0);
                }
            }
            let idx = r.count;
            if let Some(f) = r.mark.as_mut() {
                write_mark(f, idx, &case);
            }
        }
        let (ctx, res) = exec(sub, &case, thorough);
        let mut r = rec.borrow_mut();
        if !r.failed {
            r.out.evaluations += 1;
            for l in &ctx.labels {
                *r.out.labels.entry(format!("{}/{}", sub.name, l)).or_default() += 1;
            }
            if let Some(w) = ctx.skipped {
                *r.out.skipped.entry(format!("{}/{}", sub.name, w)).or_default() += 1;
            }
            if ctx.nontrivial {
                r.out.nontrivial += 1;
                if r.seen.insert(ctx.key) {
                    let n = r.seen.len();
                    if n == 3 || n == 40 {
                        let s = format!("{}: {}", sub.name, ctx.desc.join("; "));
                        r.out.samples.push(s.chars().take(1500).collect());
                    }
                }
            }
        }
        match res {
            Ok(()) => Ok(()),
            Err(m) => {
                r.failed = true;
                Err(TestCaseError::fail(m))
            }
        }
    });
    let mut rec = rec.into_inner();
    rec.out.hashes = rec.seen.into_iter().collect();
    match result {
        Ok(()) => {}
        Err(TestError::Fail(_, case)) => {
            let (ctx, res) = exec(sub, &case, thorough);
            rec.out.fail = Some(FailOut {
                sub: sub.name.to_string(),
                message: res.err().unwrap_or_else(|| "failure did not repeat on the shrunk case".into()),
                decoded: ctx.desc,
                case,
            });
        }
        Err(TestError::Abort(r)) => {
            eprintln!("proptest aborted: {}", r);
            std::process::exit(3);
        }
    }
    rec.out
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("PV_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn known_findings(id: &str) -> Vec<String> {
    let p = root().join("known_findings.txt");
    let s = std::fs::read_to_string(p).unwrap_or_default();
    s.lines()
        .filter(|l| l.starts_with(&format!("known: property={} ", id)))
        .map(|l| l["known: ".len()..].to_string())
        .collect()
}

/// outcome of a child: exit code or signal
enum End {
    Code(i32),
    Signal(i32),
    Timeout,
    /// no new case was started for HANG_S seconds
    Hang,
}

/// a single case takes milliseconds; one that runs this long does not come back
const HANG_S: u64 = 150;
const ONE_LIMIT_S: u64 = 60;
/// address-space limit of a worker, so that runaway allocation ends the worker and not the sandbox
const WORKER_AS: u64 = 3 << 30;

fn limit_memory() {
    let l = libc::rlimit { rlim_cur: WORKER_AS, rlim_max: WORKER_AS };
    unsafe {
        // many threads, each with an arena of its own, would use up the address space
        libc::mallopt(-8, 12);
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn wait_child(mut ch: std::process::Child, limit_s: u64, mark: Option<&Path>) -> End {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let mut nap = 200;
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(c) => End::Code(c),
                    None => End::Signal(st.signal().unwrap_or(0)),
                };
            }
            Ok(None) => {
                if let Some(m) = mark {
                    let idle = std::fs::metadata(m).ok().and_then(|m| m.modified().ok()).and_then(|t| t.elapsed().ok());
                    if idle.map(|d| d.as_secs() > HANG_S).unwrap_or(false) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        return End::Hang;
                    }
                }
                if t0.elapsed().as_secs() > limit_s {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return End::Timeout;
                }
                std::thread::sleep(std::time::Duration::from_micros(nap));
                nap = (nap * 2).min(20_000);
            }
            Err(_) => return End::Signal(0),
        }
    }
}

fn is_crash(sig: i32) -> bool {
    [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(&sig)
}

fn sig_name(sig: i32) -> &'static str {
    match sig {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGABRT => "SIGABRT",
        libc::SIGBUS => "SIGBUS",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        libc::SIGTRAP => "SIGTRAP",
        _ => "signal",
    }
}

/// runs one case in a fresh process: None = passed, Some(msg) = failed or crashed
fn one_in_child(exe: &Path, sub: &str, case: &Case, thorough: bool, scratch: &Path) -> Option<String> {
    let f = scratch.join("one.json");
    std::fs::write(&f, serde_json::to_vec(case).unwrap()).ok()?;
    let ch = Command::new(exe)
        .args(["--one", sub, f.to_str().unwrap(), if thorough { "1" } else { "0" }])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    match wait_child(ch, ONE_LIMIT_S, None) {
        End::Code(0) => None,
        End::Timeout => Some(format!("does not finish within {} s", ONE_LIMIT_S)),
        End::Code(1) => Some("fails".into()),
        End::Signal(s) if is_crash(s) => Some(format!("process died with {}", sig_name(s))),
        _ => None,
    }
}

fn shrink_crash(exe: &Path, sub: &Sub, mut case: Case, thorough: bool, scratch: &Path) -> Option<(Case, String)> {
    let mut msg = one_in_child(exe, sub.name, &case, thorough, scratch)?;
    let t0 = Instant::now();
    let mut budget = 400;
    let attempt = |c: &Case, budget: &mut i32| -> Option<String> {
        *budget -= 1;
        if *budget < 0 || t0.elapsed().as_secs() > 60 {
            return None;
        }
        one_in_child(exe, sub.name, c, thorough, scratch)
    };
    // drop steps, in halving chunks
    let mut chunk = case.steps.len() / 2;
    while chunk >= 1 {
        let mut i = 0;
        while i < case.steps.len() {
            let mut c = case.clone();
            let hi = (i + chunk).min(c.steps.len());
            c.steps.drain(i..hi);
            if c.steps.len() >= sub.steps.0 {
                if let Some(m) = attempt(&c, &mut budget) {
                    case = c;
                    msg = m;
                    continue;
                }
            }
            i += chunk;
        }
        chunk /= 2;
    }
    // simplify words
    for si in 0..=case.steps.len() {
        let len = if si == 0 { case.head.len() } else { case.steps[si - 1].len() };
        for wi in 0..len {
            let cur = if si == 0 { case.head[wi] } else { case.steps[si - 1][wi] };
            for cand in [0, cur / 2, cur / 4 * 3] {
                if cand == cur {
                    continue;
                }
                let mut c = case.clone();
                if si == 0 {
                    c.head[wi] = cand
                } else {
                    c.steps[si - 1][wi] = cand
                }
                if let Some(m) = attempt(&c, &mut budget) {
                    case = c;
                    msg = m;
                    break;
                }
            }
        }
    }
    Some((case, msg))
}

pub fn run_main(check: Check) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let thorough_env = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => {
            // --worker sub seed shard cases thorough out mark
            limit_memory();
            let sub = find(&check, &args[2]);
            let seed: u64 = args[3].parse().unwrap();
            let shard: u32 = args[4].parse().unwrap();
            let cases: u32 = args[5].parse().unwrap();
            let th = args[6] == "1";
            let out = run_shard(sub, seed, shard, cases, th, Some(Path::new(&args[8])), None);
            std::fs::write(&args[7], serde_json::to_vec(&out).unwrap()).unwrap();
            std::process::exit(0);
        }
        Some("--one") => {
            limit_memory();
            install_hook();
            let sub = find(&check, &args[2]);
            let case: Case = serde_json::from_slice(&std::fs::read(&args[3]).unwrap()).unwrap();
            let (_, r) = exec(sub, &case, args[4] == "1");
            std::process::exit(if r.is_ok() { 0 } else { 1 });
        }
        Some("--upto") => {
            // --upto sub seed shard cases upto thorough: re-run a worker's history
            let sub = find(&check, &args[2]);
            let out = run_shard(
                sub,
                args[3].parse().unwrap(),
                args[4].parse().unwrap(),
                args[5].parse().unwrap(),
                args[7] == "1",
                None,
                Some(args[6].parse().unwrap()),
            );
            std::process::exit(if out.fail.is_some() { 1 } else { 0 });
        }
        Some("--replay") => replay(&check, &args[2], thorough_env),
        _ => {}
    }
    supervise(&check, thorough_env)
}

fn find<'a>(check: &'a Check, name: &str) -> &'a Sub {
    check.subs.iter().find(|s| s.name == name).unwrap_or_else(|| {
        eprintln!("no sub-property {}", name);
        std::process::exit(2)
    })
}

fn replay(check: &Check, file: &str, thorough: bool) -> ! {
    let r: Replay = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay json");
    let sub = find(check, &r.sub);
    let exe = std::env::current_exe().unwrap();
    if let Some(h) = &r.history {
        let ch = Command::new(&exe)
            .args([
                "--upto",
                sub.name,
                &h.seed.to_string(),
                &h.shard.to_string(),
                &h.cases.to_string(),
                &h.upto.to_string(),
                if thorough { "1" } else { "0" },
            ])
            .spawn()
            .unwrap();
        match wait_child(ch, 800, None) {
            End::Code(0) => {
                println!("replay: no failure");
                std::process::exit(0)
            }
            _ => {
                println!("VIOLATION property={} replay={}", check.id, file);
                std::process::exit(1)
            }
        }
    }
    // in a child first, in case it kills the process
    let scratch = scratch_dir();
    let m = one_in_child(&exe, sub.name, &r.case, thorough, &scratch);
    let _ = std::fs::remove_dir_all(&scratch);
    match m {
        None => {
            println!("replay: no failure");
            std::process::exit(0)
        }
        Some(m) => {
            if m == "fails" {
                install_hook();
                let (ctx, res) = exec(sub, &r.case, thorough);
                for d in &ctx.desc {
                    println!("  {}", d);
                }
                println!("  {}", res.err().unwrap_or_default());
            } else {
                println!("  {}", m);
            }
            println!("VIOLATION property={} replay={}", check.id, file);
            std::process::exit(1)
        }
    }
}

fn scratch_dir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("pv-{}-{}", std::process::id(), mix(Instant::now().elapsed().as_nanos() as u64)));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn supervise(check: &Check, thorough: bool) -> ! {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let scale = env_u64("PV_SCALE", if thorough { 100 } else { 250 });
    let exe = std::env::current_exe().unwrap();
    let scratch = scratch_dir();
    let only = std::env::var("PV_SUB").ok();
    let mut par = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).max(2);
    if check.subs.iter().any(|s| s.name.starts_with("mt_")) {
        // cases that start threads of their own
        par = (par / 4).max(1);
    }
    let given_up: std::sync::Mutex<HashSet<usize>> = std::sync::Mutex::new(HashSet::new());
    let limit_s = if thorough { 6000 } else { 800 };

    // job list: (sub index, shard, cases)
    let mut jobs = vec![];
    for (si, s) in check.subs.iter().enumerate() {
        if only.as_deref().map(|o| o != s.name).unwrap_or(false) {
            continue;
        }
        let total = if thorough { s.thorough } else { s.quick } as u64 * scale / 100;
        let per = (total as u32).div_ceil(SHARDS).max(1);
        for sh in 0..SHARDS {
            jobs.push((si, sh, per));
        }
    }
    jobs.reverse();
    let jobs = std::sync::Mutex::new(jobs);
    let results = std::sync::Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..par {
            sc.spawn(|| loop {
                let Some((si, sh, n)) = jobs.lock().unwrap().pop() else { return };
                if given_up.lock().unwrap().contains(&si) {
                    continue;
                }
                let s = &check.subs[si];
                let out = scratch.join(format!("{}-{}.json", s.name, sh));
                let mark = scratch.join(format!("{}-{}.mark", s.name, sh));
                let errf = std::fs::File::create(scratch.join(format!("{}-{}.err", s.name, sh))).unwrap();
                let ch = Command::new(&exe)
                    .args([
                        "--worker",
                        s.name,
                        &seed.to_string(),
                        &sh.to_string(),
                        &n.to_string(),
                        if thorough { "1" } else { "0" },
                        out.to_str().unwrap(),
                        mark.to_str().unwrap(),
                    ])
                    .stdout(Stdio::null())
                    .stderr(Stdio::from(errf))
                    .spawn()
                    .unwrap();
                let w0 = Instant::now();
                let end = wait_child(ch, limit_s, Some(&mark));
                if matches!(end, End::Hang) {
                    given_up.lock().unwrap().insert(si);
                }
                results.lock().unwrap().push((si, sh, n, end, out, mark, w0.elapsed().as_secs_f64()));
            });
        }
    });

    let mut agg = ShardOut::default();
    let mut distinct: HashSet<(usize, u64)> = HashSet::new();
    let mut per_sub: BTreeMap<String, (u64, u64, f64)> = BTreeMap::new();
    let mut fails: Vec<(FailOut, Option<History>)> = vec![];
    let mut error: Option<String> = None;
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| (r.0, r.1));
    for (si, sh, n, end, out, mark, secs) in results {
        let s = &check.subs[si];
        match end {
            End::Code(0) => {
                let o: ShardOut = match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                    Some(o) => o,
                    None => {
                        error = Some(format!("worker {}-{} left no result", s.name, sh));
                        continue;
                    }
                };
                agg.evaluations += o.evaluations;
                agg.nontrivial += o.nontrivial;
                for (k, v) in o.labels {
                    *agg.labels.entry(k).or_default() += v;
                }
                for (k, v) in o.skipped {
                    *agg.skipped.entry(k).or_default() += v;
                }
                if sh < 2 {
                    agg.samples.extend(o.samples);
                }
                let e = per_sub.entry(s.name.to_string()).or_default();
                e.0 += o.evaluations;
                e.2 = e.2.max(secs);
                for h in o.hashes {
                    if distinct.insert((si, h)) {
                        e.1 += 1;
                    }
                }
                if let Some(f) = o.fail {
                    fails.push((f, None));
                }
            }
            End::Signal(sig) if is_crash(sig) => {
                let Some((idx, case)) = read_mark(&mark) else {
                    error = Some(format!("worker {}-{} died before its first case", s.name, sh));
                    continue;
                };
                agg.evaluations += idx as u64;
                if fails.iter().any(|(f, _)| f.sub == s.name) {
                    continue;
                }
                match shrink_crash(&exe, s, case.clone(), thorough, &scratch) {
                    Some((c, m)) => fails.push((
                        FailOut { sub: s.name.into(), message: m, decoded: vec![], case: c },
                        None,
                    )),
                    None => fails.push((
                        FailOut {
                            sub: s.name.into(),
                            message: format!("worker died with {} in case {} of its history", sig_name(sig), idx),
                            decoded: vec![],
                            case,
                        },
                        Some(History { seed, shard: sh, cases: n, upto: idx }),
                    )),
                }
            }
            End::Hang => {
                let Some((idx, case)) = read_mark(&mark) else { continue };
                agg.evaluations += idx as u64;
                if fails.iter().any(|(f, _)| f.sub == s.name) {
                    continue;
                }
                let m = one_in_child(&exe, s.name, &case, thorough, &scratch);
                let h = if m.is_some() { None } else { Some(History { seed, shard: sh, cases: n, upto: idx }) };
                let m = m.unwrap_or_else(|| format!("worker made no progress for {} s in case {} of its history", HANG_S, idx));
                fails.push((FailOut { sub: s.name.into(), message: m, decoded: vec![], case }, h));
            }
            End::Timeout => error = Some(format!("worker {}-{} ran out of time", s.name, sh)),
            End::Code(c) => {
                let e = std::fs::read_to_string(scratch.join(format!("{}-{}.err", s.name, sh))).unwrap_or_default();
                error = Some(format!("worker {}-{} exited with {}: {}", s.name, sh, c, e))
            }
            End::Signal(s_) => error = Some(format!("worker {}-{} ended by signal {}", s.name, sh, s_)),
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);

    // report
    for k in known_findings(check.id) {
        println!("KNOWN-FINDING: {}", k);
    }
    let mut seen_subs = HashSet::new();
    let mut reported = 0;
    fails.sort_by_key(|(f, _)| (f.case.steps.len(), f.decoded.iter().map(|d| d.len()).sum::<usize>()));
    for (f, h) in &fails {
        if !seen_subs.insert(f.sub.clone()) {
            continue;
        }
        let dir = root().join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{}-{}.json", check.id, f.sub));
        let r = Replay {
            property: check.id.into(),
            sub: f.sub.clone(),
            note: format!("re-run with: bash /verif/run.sh {} --replay <this file>", check.id),
            message: f.message.clone(),
            decoded: f.decoded.clone(),
            case: f.case.clone(),
            history: h.clone(),
        };
        let _ = std::fs::write(&file, serde_json::to_vec_pretty(&r).unwrap());
        println!("{} / {}: {}", check.id, f.sub, f.message);
        for d in &f.decoded {
            println!("    {}", d.chars().take(600).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", check.id, file.display());
        reported += 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<_> = agg.samples.iter().take(8).collect();
    let ev = serde_json::json!({
        "property": check.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg.evaluations,
            "distinct_nontrivial": distinct.len(),
            "nontrivial": agg.nontrivial,
            "rule": check.rule,
            "samples": samples,
            "per_sub_property": per_sub.iter().map(|(k, v)| (k.clone(), serde_json::json!({"evaluations": v.0, "distinct_nontrivial": v.1, "slowest_worker_s": v.2}))).collect::<serde_json::Map<_, _>>(),
            "labels": agg.labels,
            "left_out": agg.skipped,
            "workers": SHARDS,
        },
        "assumptions": check.assumptions,
        "wall_s": wall,
        "violations": reported,
    });
    let evd = root().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{}.json", check.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        check.id,
        agg.evaluations,
        distinct.len(),
        wall
    );
    if reported > 0 {
        std::process::exit(1);
    }
    if let Some(e) = error {
        println!("ERROR: {}", e);
        std::process::exit(2);
    }
    std::process::exit(0)
}
