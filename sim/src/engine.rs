//! Case generation, one-run-per-process execution, seeded search, minimisation, replay.
use crate::props::{self, Prop};
use crate::rng::{hash_str, mix, Rng};
use crate::rt;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        if self == Tier::Quick {
            "quick"
        } else {
            "thorough"
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Sched {
    pub policy: String,
    pub seed: u64,
    #[serde(default)]
    pub prob: Vec<u32>,
    #[serde(default)]
    pub pct_depth: u32,
    #[serde(default)]
    pub pct_est: u32,
    #[serde(default)]
    pub burst: u32,
    #[serde(default)]
    pub stall_n: u32,
    #[serde(default)]
    pub stall_est: u32,
    #[serde(default)]
    pub stall_len: u32,
    /// threads are held back at a few shared addresses: [classes, class, operation that chooses the address, probability, longest delay]
    #[serde(default)]
    pub hot: [u32; 5],
    /// replay: deviations from the default schedule, [thread, its scheduling-point index, thread that runs next]
    #[serde(default)]
    pub devs: Vec<[u64; 3]>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fault {
    pub class: String,
    pub action: String,
    pub nth: u64,
    pub arg: i64,
    #[serde(default)]
    pub persistent: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub property: String,
    pub index: u64,
    pub sched: Sched,
    pub entropy: u64,
    pub pool: usize,
    pub log: bool,
    pub max_steps: u64,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default = "neg1")]
    pub disk_budget: i64,
    /// every random generator of the run is seeded with the same entropy
    #[serde(default)]
    pub entropy_same: bool,
    pub body: Value,
}
fn neg1() -> i64 {
    -1
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Verdict {
    Ok,
    Violation,
    Harness,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Outcome {
    pub verdict: Verdict,
    pub class: String,
    pub msg: String,
    pub steps: u64,
    pub switches: u64,
    pub hash: u64,
    pub ihash: u64,
    pub threads: u32,
    pub sim_ns: u64,
    pub note: String,
}

pub fn errno_name(e: i64) -> String {
    match e as i32 {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EINTR => "EINTR",
        libc::EACCES => "EACCES",
        libc::EMFILE => "EMFILE",
        libc::ENOENT => "ENOENT",
        libc::ENOMEM => "ENOMEM",
        libc::EDQUOT => "EDQUOT",
        _ => return format!("errno{e}"),
    }
    .to_string()
}

pub fn base_case(prop: &str, index: u64, r: &mut Rng) -> Case {
    Case {
        property: prop.to_string(),
        index,
        sched: gen_sched(r),
        entropy: r.next(),
        pool: r.pick(&[1, 2, 2, 3, 4]),
        log: r.chance(1, 12),
        max_steps: 10_000_000,
        faults: vec![],
        disk_budget: -1,
        entropy_same: false,
        body: Value::Null,
    }
}

/// Swarm-style schedule generation: policy, rates and the set of enabled preemption points vary per run.
pub fn gen_sched(r: &mut Rng) -> Sched {
    let mut s = Sched { seed: r.next(), ..Default::default() };
    let pol = r.below(100);
    s.policy = if pol < 45 {
        "random"
    } else if pol < 78 {
        "pct"
    } else {
        "burst"
    }
    .to_string();
    let p = r.pick(&[0.4f64, 0.15, 0.05, 0.05, 0.02, 0.01, 0.003]);
    let full = u32::MAX as f64;
    let mut prob = vec![(p * full) as u32; rt::NKIND];
    let scale = |prob: &mut Vec<u32>, k: usize, f: f64| prob[k] = (prob[k] as f64 * f) as u32;
    let rmw = r.pick(&[0.0, 0.0, 0.1, 1.0]);
    scale(&mut prob, 2, rmw);
    let ld = r.pick(&[0.3, 1.0]);
    scale(&mut prob, 0, ld);
    match r.below(8) {
        0 => {
            // preempt only around lock operations
            for k in [0usize, 1, 2, 10, 8] {
                prob[k] = 0
            }
        }
        1 => {
            // preempt only inside user callbacks, at operations and I/O
            for k in [0usize, 1, 2, 3] {
                prob[k] = 0
            }
        }
        _ => {}
    }
    prob[11] = (0.5 * full) as u32;
    s.prob = prob;
    s.pct_depth = r.range(1, 12) as u32;
    s.pct_est = r.logu(6, 14) as u32;
    s.burst = r.logu(1, 9) as u32;
    if r.chance(1, 3) {
        s.stall_n = r.range(1, 4) as u32;
        s.stall_est = r.logu(6, 13) as u32;
        s.stall_len = r.logu(6, 14) as u32;
    }
    if r.chance(1, 4) {
        let n = r.pick(&[4u32, 16, 64]);
        let pick = if r.chance(1, 2) { r.logu(3, 14) as u32 } else { 0 };
        s.hot = [n, r.below(n as u64) as u32, pick, (r.pick(&[0.05, 0.2, 0.5]) * full) as u32, r.logu(4, 12) as u32];
    }
    s
}

pub fn errnos(r: &mut Rng, v: &[i32]) -> i64 {
    r.pick(v) as i64
}

// ------------------------------------------------------------------------------------------- scratch
pub struct Scratch {
    pub dir: PathBuf,
}
impl Scratch {
    pub fn new(tag: u32) -> Scratch {
        // constant length, so that path strings occupy the same heap cells in every process
        let base = if Path::new("/dev/shm").is_dir() && fs::create_dir_all(format!("/dev/shm/hs{:08}{:02}", std::process::id(), tag)).is_ok() {
            "/dev/shm"
        } else {
            "/var/tmp"
        };
        let dir = PathBuf::from(format!("{base}/hs{:08}{:02}", std::process::id(), tag));
        fs::create_dir_all(&dir).expect("scratch dir");
        Scratch { dir }
    }
    pub fn clear(&self) {
        if let Ok(rd) = fs::read_dir(&self.dir) {
            for e in rd.flatten() {
                if e.path().is_dir() {
                    let _ = fs::remove_dir_all(e.path());
                } else {
                    let _ = fs::remove_file(e.path());
                }
            }
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

// ------------------------------------------------------------------------------------------- one run
struct NullSink;
impl std::fmt::Write for NullSink {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
/// logger that formats every record (so that formatting code really runs) and discards it
struct SimLogger;
impl log::Log for SimLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        let _ = write!(NullSink, "{}", r.args());
    }
    fn flush(&self) {}
}
static LOGGER: SimLogger = SimLogger;

/// payload of panics injected by the harness (as opposed to raised by the library)
pub struct Injected;

pub fn install_hooks() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Off);
    std::panic::set_hook(Box::new(|info| {
        let _q = rt::Quiet::new();
        if info.payload().downcast_ref::<Injected>().is_some() {
            return;
        }
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if rt::in_sim() {
            let g = rt::shared();
            if g.panicmsg[0] == 0 {
                rt::set_bytes(&mut g.panicmsg, &format!("{loc}: {m}"));
            }
        } else {
            eprintln!("panic at {loc}: {m}");
        }
    }));
}

pub fn panic_message() -> String {
    rt::bstr(&rt::shared().panicmsg)
}

/// A library panic reached the harness: a violation, unless it was raised by harness code itself.
pub fn panic_violation(what: &str) -> ! {
    let m = panic_message();
    let file = m.split(':').next().unwrap_or("").to_string();
    if file.starts_with("src/") {
        rt::harness_error(&format!("harness panic in {what}: {m}"));
    }
    let short = file.rsplit('/').next().unwrap_or("").to_string();
    rt::fail(&format!("panic:{short}"), &format!("{what} panicked at {m}"))
}

fn fill_shared(c: &Case, scratch: &Path, trace: bool) {
    let g = rt::shared();
    g.sched_seed = c.sched.seed;
    g.entropy_seed = c.entropy;
    g.policy = match c.sched.policy.as_str() {
        "random" => 0,
        "pct" => 1,
        "burst" => 2,
        "replay" => 3,
        _ => 4,
    };
    for k in 0..rt::NKIND {
        g.prob[k] = c.sched.prob.get(k).copied().unwrap_or(0);
    }
    g.pct_depth = c.sched.pct_depth;
    g.pct_est = c.sched.pct_est.max(1);
    g.burst_mean = c.sched.burst.max(1);
    g.stall_n = c.sched.stall_n;
    g.stall_est = c.sched.stall_est.max(1);
    g.stall_len = c.sched.stall_len.max(1);
    g.hot = c.sched.hot;
    g.hot[4] = g.hot[4].max(1);
    g.max_steps = c.max_steps;
    g.tick_ns = 1000;
    g.nfault = c.faults.len().min(rt::MAXFAULT) as u32;
    for (i, f) in c.faults.iter().take(rt::MAXFAULT).enumerate() {
        g.fault[i] = rt::CFault {
            cls: rt::IOCLS.iter().position(|&x| x == f.class).unwrap_or(99) as u32,
            action: rt::ACTS.iter().position(|&x| x == f.action).unwrap_or(0) as u32,
            nth: f.nth,
            arg: f.arg,
            persistent: f.persistent as u32,
            fired: 0,
        };
    }
    g.disk_budget = c.disk_budget;
    g.entropy_same = c.entropy_same as u32;
    rt::set_bytes(&mut g.scratch, &format!("{}/", scratch.display()));
    g.ndev_in = c.sched.devs.len().min(rt::MAXDEV) as u32;
    for (i, d) in c.sched.devs.iter().take(rt::MAXDEV).enumerate() {
        g.dev_in[i] = rt::Dev { tid: d[0] as u32, lidx: d[1], to: d[2] as u32 };
    }
    g.outcome = 0;
    g.cls[0] = 0;
    g.cls.fill(0);
    g.msg.fill(0);
    g.note_len = 0;
    g.panicmsg[0] = 0;
    g.panicmsg.fill(0);
    g.trace_len = 0;
    g.trace_on = trace as u32;
    g.steps = 0;
    g.switches = 0;
    g.kinds = [0; rt::NKIND];
    g.ioc = [0; rt::NIO];
    g.fired = [[0; 6]; rt::NIO];
    g.stalls = 0;
    g.clock_jumps = 0;
    g.full_hits = 0;
    g.elsewhere = 0;
    g.probes = [0; 64];
    g.live_bytes = 0;
    g.live_allocs = 0;
    g.peak_bytes = 0;
    g.total_allocs = 0;
    g.nthreads = 0;
    g.now_ns = 0;
}

/// what a run wants to tell (shown with a violation)
pub fn note(s: &str) {
    let _q = rt::Quiet::new();
    let g = rt::shared();
    let n = g.note_len as usize;
    let b = s.as_bytes();
    if n + b.len() + 1 < g.note.len() {
        g.note[n..n + b.len()].copy_from_slice(b);
        g.note[n + b.len()] = b'\n';
        g.note_len += b.len() as u32 + 1;
    }
}

pub fn execute(c: &Case, prop: &dyn Prop, scratch: &Scratch, trace: bool) -> Outcome {
    scratch.clear();
    fill_shared(c, &scratch.dir, trace);
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        eprintln!("fork failed");
        std::process::exit(2);
    }
    if pid == 0 {
        unsafe {
            let dn = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(dn, 1);
            if std::env::var("SIM_STDERR").is_err() {
                libc::dup2(dn, 2);
            }
            let lim = libc::rlimit { rlim_cur: 30, rlim_max: 40 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
        }
        rt::arena_init();
        let c2 = c.clone();
        rt::begin();
        log::set_max_level(if c2.log { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if prop.uses_pool() {
                if rayon::ThreadPoolBuilder::new().num_threads(c2.pool).build_global().is_err() {
                    rt::harness_error("cannot build the thread pool");
                }
            }
            prop.run(&c2);
        }));
        if r.is_err() {
            panic_violation("run");
        }
        rt::end();
    }
    // parent
    let mut st = 0i32;
    let t0 = Instant::now();
    let mut killed = false;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, if killed { 0 } else { libc::WNOHANG }) };
        if r == pid {
            break;
        }
        if r < 0 {
            std::process::exit(2);
        }
        let el = t0.elapsed();
        if el > Duration::from_secs(300) {
            unsafe { libc::kill(pid, libc::SIGKILL) };
            killed = true;
        }
        if el > Duration::from_millis(5) {
            std::thread::sleep(Duration::from_micros(300));
        } else {
            unsafe { libc::sched_yield() };
        }
    }
    let g = rt::shared();
    let (mut verdict, mut class, mut msg) = match g.outcome {
        1 => (Verdict::Ok, String::new(), String::new()),
        2 => (Verdict::Violation, rt::bstr(&g.cls), rt::bstr(&g.msg)),
        3 => (Verdict::Harness, "harness".into(), rt::bstr(&g.msg)),
        _ => (Verdict::Harness, "no-outcome".into(), "run ended without an outcome".into()),
    };
    if g.outcome == 0 {
        if killed {
            class = "runtime-stuck".into();
            msg = "the run made no progress for 300 s of wall time without using CPU".into();
        } else if libc::WIFSIGNALED(st) {
            let sg = libc::WTERMSIG(st);
            if sg == libc::SIGKILL {
                verdict = Verdict::Harness;
                class = "killed".into();
                msg = "the run was killed from outside (memory?)".into();
            } else {
                verdict = Verdict::Violation;
                if sg == libc::SIGXCPU {
                    class = "hang".into();
                    msg = "30 s of CPU without reaching a scheduling point that ends the run".into();
                } else {
                    class = format!("crash-signal-{sg}");
                    msg = format!("the process died with signal {sg}; last panic: {}", rt::bstr(&g.panicmsg));
                }
            }
        } else {
            verdict = Verdict::Harness;
            msg = format!("run ended with status {st:#x} and no outcome");
        }
    }
    Outcome {
        verdict,
        class,
        msg,
        steps: g.steps,
        switches: g.switches,
        hash: g.hash,
        ihash: g.ihash,
        threads: g.nthreads,
        sim_ns: g.now_ns.saturating_sub(1_000_000_000),
        note: String::from_utf8_lossy(&g.note[..g.note_len as usize]).into_owned(),
    }
}

fn recorded_devs() -> Vec<[u64; 3]> {
    let g = rt::shared();
    (0..g.ndev_out as usize).map(|i| { let d = g.dev_out[i]; [d.tid as u64, d.lidx, d.to as u64] }).collect()
}

pub fn gen_case(prop: &dyn Prop, tier: Tier, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(mix(mix(seed, hash_str(prop.id())), index));
    let mut c = base_case(prop.id(), index, &mut r);
    prop.gen(&mut r, tier, &mut c);
    c
}

// ------------------------------------------------------------------------------------------- worker
#[derive(Serialize, Deserialize, Default)]
struct Stats {
    runs: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    nontrivial: u64,
    max_threads: u32,
    max_runnable: u32,
    det_checks: u64,
    det_mismatch: u64,
    kinds: Vec<u64>,
    fired: BTreeMap<String, u64>,
    configured: BTreeMap<String, u64>,
    probes: Vec<u64>,
    policies: BTreeMap<String, u64>,
    inter: Vec<u64>,
    samples: Vec<Value>,
    capped: bool,
    allocs: u64,
}

fn pin(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[k % cpus.len()];
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(c, &mut one);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &one);
    }
}
fn ncpu() -> usize {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 {
            return 4;
        }
        (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).count().max(1)
    }
}

#[derive(Serialize, Deserialize)]
struct WorkerOut {
    stats: Stats,
    violation: Option<(Case, Outcome)>,
    harness: Option<(Case, Outcome)>,
}

pub fn worker(id: &str, tier: Tier, seed: u64, from: u64, stride: u64, count: u64, deadline_s: u64, out: &str) {
    let prop = props::find(id);
    pin(from as usize);
    let scratch = Scratch::new((from % 100) as u32);
    let t0 = Instant::now();
    let mut st = Stats { kinds: vec![0; rt::NKIND], probes: vec![0; 64], ..Default::default() };
    let mut set: HashSet<u64> = HashSet::new();
    let mut res = WorkerOut { stats: Stats::default(), violation: None, harness: None };
    let mut i = from;
    while i < count {
        if t0.elapsed().as_secs() >= deadline_s {
            st.capped = true;
            break;
        }
        let c = gen_case(prop, tier, seed, i);
        let o = execute(&c, prop, &scratch, false);
        let g = rt::shared();
        st.runs += 1;
        st.steps += o.steps;
        st.switches += o.switches;
        st.sim_ns += o.sim_ns;
        st.allocs += g.total_allocs;
        st.max_threads = st.max_threads.max(o.threads);
        st.max_runnable = st.max_runnable.max(g.max_runnable);
        *st.policies.entry(c.sched.policy.clone()).or_default() += 1;
        let mut anyfault = 0u64;
        for k in 0..rt::NKIND {
            st.kinds[k] += g.kinds[k];
        }
        for k in 0..rt::NIO {
            for a in 1..6 {
                if g.fired[k][a] > 0 {
                    *st.fired.entry(format!("{}:{}", rt::IOCLS[k], rt::ACTS[a])).or_default() += g.fired[k][a];
                    anyfault += g.fired[k][a];
                }
            }
        }
        for f in &c.faults {
            let nm = if f.action == "errno" { format!("{}:{}", f.class, errno_name(f.arg)) } else { format!("{}:{}", f.class, f.action) };
            *st.configured.entry(nm).or_default() += 1;
        }
        if g.stalls > 0 {
            *st.fired.entry("thread-stall".into()).or_default() += g.stalls;
        }
        for k in 0..64 {
            st.probes[k] += g.probes[k];
        }
        let nontriv = (o.switches > 4 && g.max_runnable > 1) || anyfault > 0 || g.probes[0] > 0;
        if nontriv {
            st.nontrivial += 1;
            let bh = hash_str(&c.body.to_string()) ^ hash_str(&serde_json::to_string(&c.faults).unwrap());
            set.insert(mix(o.ihash, bh ^ c.entropy));
        }
        if st.samples.len() < 2 && nontriv && from < 2 {
            let mut cc = c.clone();
            cc.sched.prob.clear();
            st.samples.push(json!({"case": cc, "steps": o.steps, "context_switches": o.switches, "threads": o.threads, "log_hash": format!("{:016x}", o.hash)}));
        }
        match o.verdict {
            Verdict::Ok => {
                if st.runs % 64 == 1 {
                    // same seed again: the full event log must be identical
                    let o2 = execute(&c, prop, &scratch, false);
                    st.det_checks += 1;
                    if o2.hash != o.hash || o2.steps != o.steps || o2.verdict != o.verdict {
                        st.det_mismatch += 1;
                        eprintln!("case {} is not deterministic: {} / {} steps", c.index, o.steps, o2.steps);
                    }
                }
            }
            Verdict::Violation => {
                res.violation = Some((c, o));
                break;
            }
            Verdict::Harness => {
                res.harness = Some((c, o));
                break;
            }
        }
        i += stride;
    }
    st.inter = set.into_iter().collect();
    res.stats = st;
    let tmp = format!("{out}.tmp");
    fs::write(&tmp, serde_json::to_string(&res).unwrap()).unwrap();
    fs::rename(&tmp, out).unwrap();
}

// ------------------------------------------------------------------------------------------- minimiser
struct Min<'a> {
    prop: &'a dyn Prop,
    scratch: &'a Scratch,
    class: String,
    t0: Instant,
    cap: Duration,
    execs: u64,
}
impl Min<'_> {
    fn over(&self) -> bool {
        self.t0.elapsed() > self.cap
    }
    fn fails(&mut self, c: &Case) -> bool {
        self.execs += 1;
        let o = execute(c, self.prop, self.scratch, false);
        o.verdict == Verdict::Violation && o.class == self.class
    }
    /// after a body change: same schedule, default schedule, or fresh schedules
    fn fails_research(&mut self, c: &mut Case, orig: &Sched, tries: u64) -> bool {
        if self.fails(c) {
            return true;
        }
        let keep = c.sched.clone();
        for k in 0..tries {
            if self.over() {
                break;
            }
            let mut r = Rng::new(mix(orig.seed, k + 77));
            c.sched = if k % 3 == 0 && orig.policy != "replay" { let mut s = orig.clone(); s.seed = r.next(); s } else { gen_sched(&mut r) };
            self.execs += 1;
            let o = execute(c, self.prop, self.scratch, false);
            if o.verdict == Verdict::Violation && o.class == self.class {
                c.sched = Sched { policy: "replay".into(), devs: recorded_devs(), ..Default::default() };
                if self.fails(c) {
                    return true;
                }
            }
        }
        c.sched = keep;
        false
    }
}

/// all single-step reductions of a JSON value (drop an array element or chunk, shrink a number)
fn reductions(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Array(a) => {
            let n = a.len();
            let mut chunk = n;
            while chunk >= 1 {
                let mut i = 0;
                while i < n {
                    let mut b = a.clone();
                    b.drain(i..(i + chunk).min(n));
                    out.push(Value::Array(b));
                    i += chunk;
                }
                if chunk == 1 {
                    break;
                }
                chunk = chunk.div_ceil(2);
            }
            for i in 0..n {
                if a[i].is_number() && n > 16 {
                    continue;
                }
                let mut sub = vec![];
                reductions(&a[i], &mut sub);
                for s in sub {
                    let mut b = a.clone();
                    b[i] = s;
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                let mut sub = vec![];
                reductions(x, &mut sub);
                for s in sub {
                    let mut b = m.clone();
                    b.insert(k.clone(), s);
                    out.push(Value::Object(b));
                }
            }
        }
        Value::Number(n) => {
            if let Some(u) = n.as_i64() {
                if u != 0 {
                    out.push(json!(0));
                    if u > 1 {
                        out.push(json!(1));
                        out.push(json!(u / 2));
                        out.push(json!(u - 1));
                    }
                }
            }
        }
        Value::Bool(true) => out.push(Value::Bool(false)),
        _ => {}
    }
}

fn minimise(c0: &Case, o0: &Outcome, prop: &dyn Prop, scratch: &Scratch, cap: Duration) -> (Case, Outcome, u64, bool) {
    let mut m = Min { prop, scratch, class: o0.class.clone(), t0: Instant::now(), cap, execs: 0 };
    let orig = c0.sched.clone();
    // turn the seeded schedule into an explicit one
    let o = execute(c0, prop, scratch, false);
    let mut best = c0.clone();
    let mut explicit = false;
    if o.verdict == Verdict::Violation && o.class == m.class {
        let mut c = c0.clone();
        c.sched = Sched { policy: "replay".into(), devs: recorded_devs(), ..Default::default() };
        if m.fails(&c) {
            best = c;
            explicit = true;
        }
    }
    if explicit {
        if best.log {
            let mut c = best.clone();
            c.log = false;
            if m.fails_research(&mut c, &orig, 4) {
                best = c;
            }
        }
        // faults
        let mut i = 0;
        while i < best.faults.len() && !m.over() {
            let mut c = best.clone();
            c.faults.remove(i);
            if m.fails_research(&mut c, &orig, 3) {
                best = c;
            } else {
                i += 1;
            }
        }
        // body
        let mut progress = true;
        while progress && !m.over() {
            progress = false;
            let mut red = vec![];
            reductions(&best.body, &mut red);
            red.sort_by_key(|v| v.to_string().len());
            let tries = if red.len() > 200 { 2 } else { 8 };
            for b in red {
                if m.over() {
                    break;
                }
                if !prop.valid(&b) || b == best.body {
                    continue;
                }
                let mut c = best.clone();
                c.body = b;
                if m.fails_research(&mut c, &orig, tries) {
                    best = c;
                    progress = true;
                    break;
                }
            }
        }
        // schedule: drop deviations
        let mut chunk = best.sched.devs.len();
        while chunk >= 1 && !m.over() {
            let mut i = 0;
            let mut any = false;
            while i < best.sched.devs.len() && !m.over() {
                let mut c = best.clone();
                let e = (i + chunk).min(c.sched.devs.len());
                c.sched.devs.drain(i..e);
                if m.fails(&c) {
                    best = c;
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 && !any {
                break;
            }
            chunk = if chunk == 1 { 1 } else { chunk.div_ceil(2) };
        }
    }
    let o = execute(&best, prop, scratch, false);
    let ok = o.verdict == Verdict::Violation && o.class == m.class;
    (best, o, m.execs, ok)
}

// ------------------------------------------------------------------------------------------- supervisor
pub fn check(id: &str, tier: Tier, seed: u64, runs_override: Option<u64>, verif: &Path) -> i32 {
    let prop = props::find(id);
    let t0 = Instant::now();
    let (budget, wall_cap) = prop.budget(tier);
    let count = runs_override.unwrap_or(budget);
    let jobs = ncpu().min(16).max(1) as u64;
    println!("property={id} tier={} seed={seed} runs={count} workers={jobs}", tier.name());
    let outdir = Scratch::new(99);
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for w in 0..jobs {
        let out = outdir.dir.join(format!("w{w}"));
        let ch = std::process::Command::new(&exe)
            .args(["worker", id, tier.name(), &seed.to_string(), &w.to_string(), &jobs.to_string(), &count.to_string(), &wall_cap.to_string()])
            .arg(&out)
            .spawn()
            .expect("spawn worker");
        kids.push((ch, out, false));
    }
    let mut outs: Vec<WorkerOut> = vec![];
    let mut bad = None;
    loop {
        let mut alldone = true;
        for (ch, out, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match ch.try_wait() {
                Ok(Some(s)) => {
                    *done = true;
                    match fs::read_to_string(&*out).ok().and_then(|s| serde_json::from_str::<WorkerOut>(&s).ok()) {
                        Some(w) => outs.push(w),
                        None => bad = Some(format!("worker ended with {s} and no result")),
                    }
                }
                _ => alldone = false,
            }
        }
        let found = outs.iter().any(|o| o.violation.is_some());
        if alldone || found || bad.is_some() {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for (ch, _, done) in kids.iter_mut() {
        if !*done {
            unsafe { libc::kill(ch.id() as i32, libc::SIGTERM) };
            let _ = ch.wait();
        }
    }
    cleanup_dead_scratch(&kids.iter().map(|k| k.0.id()).collect::<Vec<_>>());
    if let Some(b) = bad {
        eprintln!("harness error: {b}");
        return 2;
    }
    let mut violation: Option<(Case, Outcome)> = None;
    for o in &outs {
        if let Some((c, ou)) = &o.violation {
            if violation.as_ref().map(|v| c.index < v.0.index).unwrap_or(true) {
                violation = Some((c.clone(), ou.clone()));
            }
        }
    }
    if violation.is_none() {
        for o in &outs {
            if let Some((c, ou)) = &o.harness {
                eprintln!("harness error in case {}: {}", c.index, ou.msg);
                eprintln!("{}", serde_json::to_string(c).unwrap());
                return 2;
            }
        }
    }
    let search_wall = t0.elapsed().as_secs_f64();
    let scratch = Scratch::new(98);
    let mut rc = 0;
    let mut nviol = 0;
    if let Some((c, o)) = violation {
        nviol = 1;
        rc = 1;
        pin(0);
        println!("violation in case {} (seed {seed}): [{}] {}", c.index, o.class, o.msg);
        let (mc, mo, execs, ok) = minimise(&c, &o, prop, &scratch, Duration::from_secs(std::env::var("SIM_MIN_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 45 } else { 180 })));
        let dir = verif.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-{seed}-{}.json", c.index));
        let file = json!({
            "property": id, "verif_seed": seed, "case_index": c.index,
            "class": o.class, "message": if ok { mo.msg.clone() } else { o.msg.clone() },
            "note": if ok { mo.note.clone() } else { o.note.clone() },
            "minimised": ok, "minimiser_executions": execs,
            "case": if ok { mc.clone() } else { c.clone() },
            "original_case": c,
            "how_to_replay": format!("bin/replay {}", path.display()),
        });
        fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("write replay");
        // the replay must reproduce in a fresh process
        let st = std::process::Command::new(&exe).arg("replay").arg(&path).stdout(std::process::Stdio::null()).status();
        let rep = st.map(|s| s.code() == Some(1)).unwrap_or(false);
        println!("class: {}", o.class);
        println!("what: {}", if ok { &mo.msg } else { &o.msg });
        println!("minimised: {ok} ({} schedule deviations, {} faults, {} executions); replay in a fresh process reproduces: {rep}", mc.sched.devs.len(), mc.faults.len(), execs);
        println!("VIOLATION property={id} replay={}", path.display());
    }
    write_evidence(id, prop, tier, seed, verif, &outs, search_wall, t0.elapsed().as_secs_f64(), nviol);
    if rc == 0 {
        let runs: u64 = outs.iter().map(|o| o.stats.runs).sum();
        let mm: u64 = outs.iter().map(|o| o.stats.det_mismatch).sum();
        println!("OK property={id}: {runs} simulated runs, no violation, {:.1} s ({} determinism mismatches)", search_wall, mm);
    }
    rc
}

fn cleanup_dead_scratch(pids: &[u32]) {
    for base in ["/dev/shm", "/var/tmp"] {
        for p in pids {
            for t in 0..100 {
                let d = format!("{base}/hs{:08}{:02}", p, t);
                if Path::new(&d).is_dir() {
                    let _ = fs::remove_dir_all(&d);
                }
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(id: &str, prop: &dyn Prop, tier: Tier, seed: u64, verif: &Path, outs: &[WorkerOut], search: f64, wall: f64, nviol: u64) {
    let mut runs = 0;
    let mut steps = 0;
    let mut switches = 0;
    let mut sim = 0u64;
    let (mut nontriv, mut det, mut detm) = (0, 0, 0);
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut conf: BTreeMap<String, u64> = BTreeMap::new();
    let mut pol: BTreeMap<String, u64> = BTreeMap::new();
    let mut kinds = vec![0u64; rt::NKIND];
    let mut probes = vec![0u64; 64];
    let mut set = HashSet::new();
    let mut samples = vec![];
    let mut capped = false;
    let mut maxt = 0;
    for o in outs {
        let s = &o.stats;
        runs += s.runs;
        steps += s.steps;
        switches += s.switches;
        sim += s.sim_ns;
        nontriv += s.nontrivial;
        det += s.det_checks;
        detm += s.det_mismatch;
        maxt = maxt.max(s.max_threads);
        for (k, v) in &s.fired {
            *fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &s.configured {
            *conf.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &s.policies {
            *pol.entry(k.clone()).or_default() += v;
        }
        for k in 0..rt::NKIND {
            kinds[k] += s.kinds[k];
        }
        for k in 0..64 {
            probes[k] += s.probes[k];
        }
        set.extend(s.inter.iter().copied());
        samples.extend(s.samples.iter().cloned());
        capped |= s.capped;
    }
    samples.truncate(3);
    let km: BTreeMap<&str, u64> = rt::KINDS.iter().zip(kinds.iter()).filter(|(k, v)| **k != "-" && **v > 0).map(|(k, v)| (*k, *v)).collect();
    let pm: BTreeMap<String, u64> = prop.probes().iter().enumerate().map(|(i, n)| (n.to_string(), probes[i])).collect();
    let ev = json!({
        "property": id, "tier": tier.name(), "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": set.len(),
            "rule": format!("{} A run is non-trivial when at least two threads were runnable together and the scheduler switched between them, or an injected fault fired, or the workload's own probe 0 fired; runs are distinct by the hash of (context-switch sequence with per-thread positions, workload, fault plan, entropy seed).", prop.rule()),
            "samples": samples,
            "nontrivial_runs": nontriv,
            "simulated_runs_per_hour_one_seed_each": if search > 0.0 { (runs as f64 / search * 3600.0) as u64 } else { 0 },
            "simulated_time_s": sim as f64 / 1e9,
            "scheduling_points": steps, "context_switches": switches, "scheduling_points_by_kind": km,
            "max_threads_in_a_run": maxt,
            "schedule_policies": pol,
            "fault_plan_entries": conf, "faults_fired": fired,
            "probes": pm,
            "determinism_rechecks": det, "determinism_mismatches": detm,
            "stopped_by_wall_cap": capped,
            "components_real": ["hnsw_rs (all of src/, built from /repo's working tree)", "anndists", "rayon + rayon-core work stealing", "parking_lot + parking_lot_core", "std mpsc/Mutex/Condvar/thread", "mmap-rs", "bincode/serde", "rand", "file contents on a tmpfs scratch directory"],
            "components_simulated": ["thread scheduling (one token, real OS threads)", "futex", "clocks and sleep", "entropy (getrandom)", "outcome of file system calls (fault plan)", "heap addresses (arena)"],
        },
        "assumptions": prop.assumptions(),
        "wall_s": wall,
        "violations": nviol,
    });
    let dir = verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
}

pub fn replay(file: &str, trace: bool) -> i32 {
    let v: Value = match fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot read {file}: {e}");
            return 2;
        }
    };
    let cv = if v.get("case").is_some() { v["case"].clone() } else { v.clone() };
    let c: Case = serde_json::from_value(cv).expect("case");
    let prop = props::find(&c.property);
    pin(0);
    let scratch = Scratch::new(97);
    let o = execute(&c, prop, &scratch, trace);
    if trace {
        let g = rt::shared();
        print!("{}", String::from_utf8_lossy(&g.trace[..g.trace_len as usize]));
    }
    if !o.note.is_empty() {
        println!("{}", o.note);
    }
    println!("steps={} switches={} threads={} log_hash={:016x}", o.steps, o.switches, o.threads, o.hash);
    match o.verdict {
        Verdict::Ok => {
            println!("no violation");
            0
        }
        Verdict::Violation => {
            println!("[{}] {}", o.class, o.msg);
            println!("VIOLATION property={} replay={}", c.property, file);
            1
        }
        Verdict::Harness => {
            println!("harness error: {}", o.msg);
            2
        }
    }
}

/// print the log hash of n cases: outputs of different processes must be identical
pub fn hashes(id: &str, tier: Tier, seed: u64, from: u64, n: u64, cpu: usize) {
    let prop = props::find(id);
    pin(cpu);
    let scratch = Scratch::new(96);
    for i in from..from + n {
        let c = gen_case(prop, tier, seed, i);
        let o = execute(&c, prop, &scratch, false);
        println!("{id} {i} {:?} {} steps={} switches={} hash={:016x} allocs={} {}", o.verdict, o.class, o.steps, o.switches, o.hash, rt::shared().total_allocs, if o.verdict == Verdict::Ok { "" } else { &o.msg });
    }
}
