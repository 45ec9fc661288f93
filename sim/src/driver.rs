//! Seeded search over simulated runs, minimisation, replay and evidence.
//! Each run is executed in a freshly forked process (hermetic: no state of one
//! run can reach another), one simulated thread at a time.
use crate::rt::*;
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut c_void, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    fn _exit(c: i32) -> !;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// Several simulated threads: interleavings, weak memory, futex faults.
    Threads,
    /// One simulated thread: the harness's executor injects readiness,
    /// cancellation, panics and I/O faults.
    Single,
    /// As `Single`, with every heap access checked.
    Tracked,
}
/// The property about memory judges leaks, and nothing but memory; the one
/// about pinning, movement only.
static MEM: AtomicU64 = AtomicU64::new(0);
fn mem_on(prop: &str) {
    MEM.store(match prop { "C25" => 1, "C27" => 2, _ => 0 }, SeqCst);
}
/// Is a failure of this class one of the property under check?
fn judged(c: &str) -> bool {
    match MEM.load(SeqCst) {
        0 => true,
        1 => mem_class(c),
        _ => c == "moved",
    }
}
fn mem_class(c: &str) -> bool {
    matches!(c, "memory-leak" | "memory-growth" | "leak" | "double-drop" | "corrupt-payload" | "use-after-free" | "heap-out-of-bounds" | "data-race" | "double-free" | "process-died")
        || c.starts_with("crash-signal")
}
pub struct Scenario {
    pub name: &'static str,
    pub kind: Kind,
    pub f: fn(),
}
pub struct Property {
    pub id: &'static str,
    pub scen: &'static [(&'static Scenario, u32)],
    pub quick: u64,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn smix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    let mut h = smix(base);
    for b in prop.bytes() {
        h = smix(h ^ b as u64);
    }
    smix(h ^ i.wrapping_mul(0x9E37_79B9))
}
/// Per-run configuration: a pure function of the run's seed (swarm testing).
pub fn config_for(kind: Kind, seed: u64) -> Config {
    let mut s = smix(seed ^ 0xC0FF_EE);
    let mut r = |n: u64| {
        s = smix(s);
        (s >> 16) % n
    };
    let soft = 30_000;
    if kind != Kind::Threads {
        return Config { track: (kind == Kind::Tracked) as u32, soft_limit: 400_000, hard_limit: 500_000, p_switch: 1000, ..Default::default() };
    }
    Config {
        track: 1,
        stale_budget: [0, 1, 2, 4, 12][r(5) as usize],
        allow_threadfail: 0,
        p_spurious: [0, 0, 1500, 8000][r(4) as usize],
        strategy: [0, 0, 1, 1, 2][r(5) as usize],
        p_switch: [32768, 16384, 8192, 4096, 1500, 500][r(6) as usize],
        pct_d: 1 + r(4) as u32,
        pct_k: [40, 100, 200, 400, 800, 1600][r(6) as usize],
        soft_limit: soft,
        hard_limit: soft + 60_000,
    }
}

extern "C" fn entry(arg: *mut c_void) -> *mut c_void {
    let sc: &Scenario = unsafe { &*(arg as *const Scenario) };
    let r = catch(|| (sc.f)());
    if r.is_err() {
        fail("escaped-panic", "an injected panic escaped to the root thread");
    }
    crate::ex::sg::clear_events();
    std::ptr::null_mut()
}

pub unsafe fn map_shared(n: usize) -> *mut u8 {
    let p = mmap(std::ptr::null_mut(), n, 3, 0x01 | 0x20 | 0x4000, -1, 0);
    assert!(p as isize != -1, "mmap");
    p as *mut u8
}
fn new_shm() -> &'static mut Shm {
    unsafe {
        assert_eq!(simrt_shm_size(), std::mem::size_of::<Shm>());
        &mut *(map_shared(std::mem::size_of::<Shm>()) as *mut Shm)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Outcome {
    Ok,
    Violation,
    Died(i32),
}
/// Executes one run in a forked child.
fn exec(shm: &mut Shm, sc: &'static Scenario, seed: u64, cpu_s: i64) -> Outcome {
    shm.seed = seed;
    shm.status = 0;
    shm.steps = 0;
    shm.switches = 0;
    shm.preempts = 0;
    shm.now_ns = 0;
    shm.threads = 0;
    shm.used = 0;
    shm.episode_start = 0;
    shm.counters = [0; NCOUNT];
    shm.cls[0] = 0;
    shm.msg[0] = 0;
    let cfg = config_for(sc.kind, seed);
    unsafe {
        let pid = fork();
        if pid < 0 {
            eprintln!("simcheck: fork failed");
            _exit(2);
        }
        if pid == 0 {
            let lim = [0i64, 0, cpu_s, 0];
            setitimer(2, &lim, std::ptr::null_mut());
            prctl(1, 9, 0, 0, 0);
            simrt_set_shm(shm);
            simrt_install_handlers();
            install_panic_hook();
            simrt_run(entry, sc as *const Scenario as *mut c_void, &cfg, seed);
            if MEM.load(SeqCst) == 1 && shm.live_leak != 0 && !leaks_allowed() {
                put(&mut shm.cls, "memory-leak");
                let m = format!("{} heap blocks ({} bytes) were never freed although everything was dropped", shm.live_leak, shm.live_bytes);
                put(&mut shm.msg, &m);
                shm.status = 2;
            }
            _exit(0);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        if shm.status == 2 {
            return Outcome::Violation;
        }
        if st == 0 && shm.status == 1 {
            return Outcome::Ok;
        }
        let code = if st & 0x7f != 0 { st & 0x7f } else { 1000 + ((st >> 8) & 0xff) };
        let (c, m): (&str, String) = if code == 27 {
            ("hang", format!("run used more than {cpu_s} s of CPU without reaching a scheduling point limit"))
        } else {
            ("process-died", format!("simulated process died (code {code})"))
        };
        put(&mut shm.cls, c);
        put(&mut shm.msg, &m);
        Outcome::Died(code)
    }
}
fn put(d: &mut [u8], s: &str) {
    let n = s.len().min(d.len() - 1);
    d[..n].copy_from_slice(&s.as_bytes()[..n]);
    d[n] = 0;
}
fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&x| x == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

const MAXH: usize = 1 << 22;
#[repr(C)]
struct WStat {
    runs: u64,
    steps: u64,
    switches: u64,
    preempts: u64,
    now_ns: u64,
    threads: u64,
    counters: [u64; NCOUNT],
    fired_runs: [u64; NCOUNT],
    per_scen: [u64; 64],
    max_steps: u64,
    det_checked: u64,
    det_mismatch: u64,
    skipped: u64,
    viol: u64,
    viol_run: u64,
    viol_seed: u64,
    viol_scen: u64,
    known: [u64; 32],
    nh: u64,
    hashes: [u64; MAXH],
}

pub struct Finding {
    pub text: String,
    pub property: String,
    pub scenario: String,
    pub class: String,
    pub contains: String,
}
/// Lines: `KNOWN property=.. scenario=.. class=.. match="substring" | description`
pub fn load_findings(root: &str) -> Vec<Finding> {
    let mut v = vec![];
    let Ok(t) = std::fs::read_to_string(format!("{root}/known-findings.txt")) else { return v };
    for l in t.lines() {
        let Some(r) = l.strip_prefix("KNOWN ") else { continue };
        let get = |k: &str| {
            let p = format!("{k}=");
            let i = r.find(&p)? + p.len();
            let rest = &r[i..];
            if let Some(q) = rest.strip_prefix('"') {
                Some(q[..q.find('"')?].to_string())
            } else {
                Some(rest[..rest.find(' ').unwrap_or(rest.len())].to_string())
            }
        };
        v.push(Finding {
            text: r.split(" | ").nth(1).unwrap_or("").to_string(),
            property: get("property").unwrap_or_default(),
            scenario: get("scenario").unwrap_or_default(),
            class: get("class").unwrap_or_default(),
            contains: get("match").unwrap_or_default(),
        });
    }
    v
}

fn pick_scen(p: &Property, seed: u64) -> usize {
    let tot: u64 = p.scen.iter().map(|x| x.1 as u64).sum();
    let mut r = smix(seed ^ 0x5CE0) % tot;
    for (i, (_, w)) in p.scen.iter().enumerate() {
        if r < *w as u64 {
            return i;
        }
        r -= *w as u64;
    }
    0
}

pub struct Opts {
    pub runs: u64,
    pub max_s: u64,
    pub workers: usize,
    pub seed: u64,
    pub tier: String,
    pub root: String,
    pub det_every: u64,
    pub only: Option<String>,
}

#[derive(Clone)]
pub struct Replay {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub class: String,
    pub msg: String,
    pub tape: Vec<u32>,
}

pub fn check(p: &'static Property, o: &Opts) -> i32 {
    mem_on(p.id);
    let t0 = Instant::now();
    unsafe { simrt_init_process() };
    let findings = load_findings(&o.root);
    let next = unsafe { &*(map_shared(4096) as *const AtomicU64) };
    let stop = unsafe { &*(map_shared(4096) as *const AtomicU64) };
    let ncpu = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8);
    let w = o.workers.min(ncpu).max(1);
    let mut stats: Vec<&'static mut WStat> =
        (0..w).map(|_| unsafe { &mut *(map_shared(std::mem::size_of::<WStat>()) as *mut WStat) }).collect();
    let mut shms: Vec<&'static mut Shm> = (0..w).map(|_| new_shm()).collect();
    let mut pids = vec![];
    for k in 0..w {
        let st = unsafe { &mut *(&mut *stats[k] as *mut WStat) };
        let shm = unsafe { &mut *(&mut *shms[k] as *mut Shm) };
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe {
                prctl(1, 9, 0, 0, 0);
                if w == ncpu {
                    let mask = [1u64 << (k % 64), 0];
                    sched_setaffinity(0, 16, mask.as_ptr());
                }
            }
            worker(p, o, &findings, next, stop, st, shm, t0);
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    for pid in pids {
        let mut st = 0;
        unsafe {
            while waitpid(pid, &mut st, 0) < 0 {}
        }
        if st != 0 {
            eprintln!("simcheck: worker ended with status {st}");
            return 2;
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    // ---- merge
    let mut hashes: Vec<u64> = vec![];
    for s in &stats {
        hashes.extend_from_slice(&s.hashes[..(s.nh as usize).min(MAXH)]);
    }
    hashes.sort_unstable();
    hashes.dedup();
    let mut known: BTreeMap<usize, u64> = BTreeMap::new();
    for s in &stats {
        for (i, c) in s.known.iter().enumerate() {
            if *c > 0 {
                *known.entry(i).or_default() += c;
            }
        }
    }
    for (i, f) in findings.iter().enumerate() {
        if f.property == p.id {
            println!("KNOWN-FINDING: property={} {} (hit in {} runs)", p.id, f.text, known.get(&i).unwrap_or(&0));
        }
    }
    let viol = (0..w).filter(|&k| stats[k].viol != 0).min_by_key(|&k| stats[k].viol_run);
    let mut replay_path = None;
    if let Some(k) = viol {
        let sc = p.scen[stats[k].viol_scen as usize].0;
        let seed = stats[k].viol_seed;
        let shm = &mut shms[k];
        let cls = cstr(&shm.cls);
        let msg = cstr(&shm.msg);
        let tape: Vec<u32> = shm.tape[..shm.tape_len as usize].iter().map(|x| x & 8191).collect();
        println!(
            "simcheck: property {} violated in run {} (seed {:#x}) of scenario {}: {}: {}",
            p.id, stats[k].viol_run, seed, sc.name, cls, msg
        );
        let ep = shm.episode_start as usize;
        let rp = Replay { property: p.id.into(), scenario: sc.name.into(), seed, class: cls, msg, tape };
        let (rp, attempts, orig) = minimise(sc, rp, ep, shm);
        let dir = format!("{}/replays", o.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{:016x}.replay", p.id, sc.name, seed);
        write_replay(&path, &rp, sc, shm, attempts, orig);
        let ok = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &path])
            .stdout(std::process::Stdio::null())
            .status()
            .map(|s| s.code() == Some(1))
            .unwrap_or(false);
        println!(
            "simcheck: minimised to {} choices (from {}) in {} attempts: {}: {}",
            rp.tape.len(), orig, attempts, rp.class, rp.msg
        );
        println!("simcheck: replay in a fresh process {}", if ok { "reproduces it" } else { "did NOT reproduce it" });
        println!("VIOLATION property={} replay={}", p.id, path);
        replay_path = Some(path);
    }
    evidence(p, o, &stats, hashes.len(), search_s, t0, replay_path.as_deref(), &known, &findings);
    let runs: u64 = stats.iter().map(|s| s.runs).sum();
    println!(
        "simcheck: {} {} {} runs in {:.1} s, {} distinct interleavings, {}",
        p.id, o.tier, runs, search_s, hashes.len(),
        if replay_path.is_some() { "VIOLATED" } else { "held" }
    );
    if replay_path.is_some() { 1 } else { 0 }
}

#[allow(clippy::too_many_arguments)]
fn worker(
    p: &'static Property, o: &Opts, findings: &[Finding], next: &AtomicU64, stop: &AtomicU64,
    st: &mut WStat, shm: &mut Shm, t0: Instant,
) {
    loop {
        if stop.load(SeqCst) != 0 || t0.elapsed().as_secs() >= o.max_s {
            return;
        }
        let i = next.fetch_add(1, SeqCst);
        if i >= o.runs {
            return;
        }
        let seed = run_seed(o.seed, p.id, i);
        let mut si = pick_scen(p, seed);
        if let Some(n) = &o.only {
            si = p.scen.iter().position(|x| x.0.name == n).unwrap_or(si);
        }
        let sc = p.scen[si].0;
        shm.replay = 0;
        shm.trace = 0;
        let r = exec(shm, sc, seed, 20);
        st.runs += 1;
        st.per_scen[si] += 1;
        st.steps += shm.steps;
        st.max_steps = st.max_steps.max(shm.steps);
        st.switches += shm.switches;
        st.preempts += shm.preempts;
        st.now_ns += shm.now_ns;
        st.threads += shm.threads;
        for k in 0..NCOUNT {
            st.counters[k] += shm.counters[k];
            st.fired_runs[k] += (shm.counters[k] > 0) as u64;
        }
        if (st.nh as usize) < MAXH {
            st.hashes[st.nh as usize] = shm.hash ^ smix(si as u64);
            st.nh += 1;
        }
        if r != Outcome::Ok {
            let (c, m) = (cstr(&shm.cls), cstr(&shm.msg));
            if !judged(&c) {
                st.skipped += 1;
                if std::env::var("SIM_DEBUG").is_ok() {
                    eprintln!("not judged: run {i} {}: {c}: {m}", sc.name);
                }
                continue;
            }
            if let Some(ix) = findings.iter().position(|f| {
                f.property == p.id && f.scenario == sc.name && f.class == c && m.contains(&f.contains)
            }) {
                st.known[ix.min(31)] += 1;
                continue;
            }
            if let Outcome::Died(_) = r {
                shm.tape_len = shm.tape_len.min(TAPE_MAX as u32);
            }
            st.viol = 1;
            st.viol_run = i;
            st.viol_seed = seed;
            st.viol_scen = si as u64;
            stop.store(1, SeqCst);
            return;
        }
        if o.det_every > 0 && i % o.det_every == 0 {
            let h = shm.hash;
            let l = shm.tape_len;
            let s = shm.steps;
            exec(shm, sc, seed, 20);
            st.det_checked += 1;
            let mut bad = shm.hash != h || shm.tape_len != l || shm.steps != s;
            if bad && std::env::var("SIM_DEBUG").is_ok() {
                eprintln!("nondeterminism: run {i} rerun: hash {:x}/{h:x} tape {}/{l} steps {}/{s}", shm.hash, shm.tape_len, shm.steps);
            }
            // and feeding the recorded tape back gives the same execution
            shm.replay = 1;
            shm.replay_len = l;
            exec(shm, sc, seed, 20);
            shm.replay = 0;
            bad |= shm.hash != h || shm.used != l || shm.steps != s;
            if bad && std::env::var("SIM_DEBUG").is_ok() {
                eprintln!("nondeterminism: run {i} replay: hash {:x}/{h:x} used {}/{l} steps {}/{s}", shm.hash, shm.used, shm.steps);
            }
            st.det_mismatch += bad as u64;
        }
    }
}

fn try_tape(sc: &'static Scenario, seed: u64, shm: &mut Shm, t: &[u32], cls: &str) -> Option<Vec<u32>> {
    shm.replay = 1;
    shm.replay_len = t.len() as u32;
    for (i, v) in t.iter().enumerate() {
        shm.tape[i] = *v;
    }
    let r = exec(shm, sc, seed, 20);
    if r != Outcome::Ok && cstr(&shm.cls) == cls {
        // canonical form: what was actually consumed, trailing zeros dropped
        let used = (shm.used as usize).min(t.len());
        let mut v: Vec<u32> = shm.tape[..used].iter().map(|x| x & 8191).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        Some(v)
    } else {
        None
    }
}
fn minimise(sc: &'static Scenario, mut rp: Replay, ep: usize, shm: &mut Shm) -> (Replay, u32, usize) {
    let orig = rp.tape.len();
    let t0 = Instant::now();
    let mut n = 0u32;
    if rp.class == "hang" || rp.class == "process-died" {
        return (rp, 0, orig);
    }
    let cls = rp.class.clone();
    let seed = rp.seed;
    let Some(mut best) = try_tape(sc, seed, shm, &rp.tape, &cls) else {
        return (rp, 1, orig);
    };
    let budget = |n: u32| n < 6000 && t0.elapsed().as_secs() < 25;
    if ep > 0 && ep < best.len() {
        n += 1;
        if let Some(b) = try_tape(sc, seed, shm, &best[ep..], &cls) {
            best = b;
        }
    }
    loop {
        let before = best.clone();
        let mut l = best.len() / 2;
        while l > 0 && budget(n) {
            n += 1;
            if l <= best.len() {
                let keep = best.len() - l;
                if let Some(b) = try_tape(sc, seed, shm, &best[..keep], &cls) {
                    best = b;
                    l = l.min(best.len());
                    continue;
                }
            }
            l /= 2;
        }
        for del in [true, false] {
            let mut c = (best.len() / 2).max(1);
            while c > 0 && budget(n) {
                let mut i = 0;
                while i < best.len() && budget(n) {
                    let e = (i + c).min(best.len());
                    let mut t = best.clone();
                    if del {
                        t.drain(i..e);
                    } else {
                        if t[i..e].iter().all(|x| *x == 0) {
                            i = e;
                            continue;
                        }
                        t[i..e].iter_mut().for_each(|x| *x = 0);
                    }
                    n += 1;
                    match try_tape(sc, seed, shm, &t, &cls) {
                        Some(b) if b.len() < best.len() || (b.len() == best.len() && b.iter().sum::<u32>() < best.iter().sum::<u32>()) => best = b,
                        _ => i = e,
                    }
                }
                c /= 2;
            }
        }
        let mut i = 0;
        while i < best.len() && budget(n) {
            while i < best.len() && best[i] > 0 && budget(n) {
                let mut t = best.clone();
                t[i] -= 1;
                n += 1;
                match try_tape(sc, seed, shm, &t, &cls) {
                    Some(b) if b.len() < best.len() || (b.len() == best.len() && b < best) => best = b,
                    _ => break,
                }
            }
            i += 1;
        }
        if best == before || !budget(n) {
            break;
        }
    }
    rp.tape = best;
    (rp, n, orig)
}

fn symbolise(msg: &str) -> String {
    let Some(i) = msg.rfind("pc=0x") else { return String::new() };
    let hex: String = msg[i + 3..].chars().take_while(|c| c.is_ascii_hexdigit() || *c == 'x').collect();
    let exe = std::env::current_exe().unwrap();
    let Ok(o) = std::process::Command::new("addr2line").args(["-e", exe.to_str().unwrap(), "-i", "-f", "-C", &hex]).output() else {
        return String::new();
    };
    String::from_utf8_lossy(&o.stdout).lines().take(16).map(|l| format!("# at {l}\n")).collect()
}
const KINDS: &[&str] = &["sched", "stale-load", "spurious-futex-wake", "futex-wake-order", "thread-create-fail", "?", "?", "?", "data", "fault"];
fn opname(op: u16) -> String {
    match op {
        2 => "switch-to".into(),
        3 => "STALE-LOAD".into(),
        4 => "SPURIOUS-FUTEX-WAKE".into(),
        10 => "load".into(),
        11 => "store".into(),
        12 => "rmw".into(),
        13 => "cas-ok".into(),
        14 => "cas-fail".into(),
        20 => "futex-wait".into(),
        22 => "futex-wake".into(),
        30 => "thread-create".into(),
        31 => "thread-exit".into(),
        33 => "join".into(),
        x if x >= 1000 => format!("event-{}", x - 1000),
        x => format!("op-{x}"),
    }
}
fn write_replay(path: &str, rp: &Replay, sc: &'static Scenario, shm: &mut Shm, attempts: u32, orig: usize) {
    let mut rp = rp.clone();
    shm.trace = 1;
    let _ = try_tape(sc, rp.seed, shm, &rp.tape.clone(), &rp.class);
    shm.trace = 0;
    if cstr(&shm.cls) == rp.class {
        rp.msg = cstr(&shm.msg);
    }
    let mut s = String::new();
    let _ = writeln!(s, "# simcheck replay file; reproduce with: bash /verif/check.sh replay {path}");
    let _ = writeln!(s, "property {}\nscenario {}\nseed {:#x}\nclass {}", rp.property, rp.scenario, rp.seed, rp.class);
    let _ = writeln!(s, "message {}", rp.msg.replace('\n', " "));
    let _ = writeln!(s, "# config {:?}", config_for(sc.kind, rp.seed));
    let _ = writeln!(s, "# minimised from {orig} to {} choices in {attempts} attempts", rp.tape.len());
    let _ = write!(s, "tape");
    for v in &rp.tape {
        let _ = write!(s, " {v}");
    }
    s.push('\n');
    s += &symbolise(&rp.msg);
    s += "# schedule and fault trace (index: kind chosen/alternatives), non-default choices only\n";
    for i in 0..(rp.tape.len()).min(shm.tape_len as usize) {
        let e = shm.tape[i];
        let (k, n, v) = (e >> 26, (e >> 13) & 8191, e & 8191);
        if v != 0 {
            let _ = writeln!(s, "#  {i}: {} {v}/{n}", KINDS.get(k as usize).unwrap_or(&"?"));
        }
    }
    s += "# event trace (step thread operation)\n";
    let n = shm.log_len as usize;
    for (i, l) in shm.log[..n].iter().enumerate() {
        if n > 3000 && i < n - 3000 {
            continue;
        }
        let _ = writeln!(s, "#  {} t{} {} {:#x} {:#x}", l.step, l.tid, opname(l.op), l.a, l.b);
    }
    if let Err(e) = std::fs::write(path, s) {
        eprintln!("simcheck: cannot write {path}: {e}");
    }
}
pub fn read_replay(path: &str) -> Option<Replay> {
    let t = std::fs::read_to_string(path).ok()?;
    let mut r = Replay { property: String::new(), scenario: String::new(), seed: 0, class: String::new(), msg: String::new(), tape: vec![] };
    for l in t.lines() {
        if l.starts_with('#') {
            continue;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => r.property = v.into(),
            "scenario" => r.scenario = v.into(),
            "seed" => r.seed = u64::from_str_radix(v.trim_start_matches("0x"), 16).ok()?,
            "class" => r.class = v.into(),
            "message" => r.msg = v.into(),
            "tape" => r.tape = v.split_whitespace().filter_map(|x| x.parse().ok()).collect(),
            _ => {}
        }
    }
    Some(r)
}
pub fn replay(path: &str, find: impl Fn(&str) -> Option<&'static Scenario>) -> i32 {
    unsafe { simrt_init_process() };
    let Some(r) = read_replay(path) else {
        eprintln!("simcheck: cannot read {path}");
        return 2;
    };
    let Some(sc) = find(&r.scenario) else {
        eprintln!("simcheck: unknown scenario {}", r.scenario);
        return 2;
    };
    mem_on(&r.property);
    let shm = new_shm();
    shm.trace = 1;
    let got = try_tape(sc, r.seed, shm, &r.tape, &r.class);
    println!("replayed {} of {}: {} {}", r.scenario, r.property, cstr(&shm.cls), cstr(&shm.msg));
    print!("{}", symbolise(&cstr(&shm.msg)));
    if got.is_some() {
        println!("VIOLATION property={} replay={}", r.property, path);
        1
    } else {
        println!("the recorded violation ({}) does not occur on this tree", r.class);
        0
    }
}
/// Development aid: executes one run by index and prints its outcome.
pub fn one(p: &'static Property, o: &Opts, i: u64) -> i32 {
    mem_on(p.id);
    unsafe { simrt_init_process() };
    let shm = new_shm();
    shm.trace = 1;
    let seed = run_seed(o.seed, p.id, i);
    let sc = match &o.only {
        Some(n) => p.scen.iter().find(|x| x.0.name == n).unwrap().0,
        None => p.scen[pick_scen(p, seed)].0,
    };
    let r = exec(shm, sc, seed, 20);
    println!("{:?} {} {} steps={} hash={:#x} tape={} {} {}", r, sc.name, seed, shm.steps, shm.hash, shm.tape_len, cstr(&shm.cls), cstr(&shm.msg));
    for l in &shm.log[..shm.log_len as usize] {
        println!("  {} t{} {} {:#x} {:#x}", l.step, l.tid, opname(l.op), l.a, l.b);
    }
    0
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Property, o: &Opts, st: &[&'static mut WStat], distinct: usize, search_s: f64, t0: Instant,
    viol: Option<&str>, known: &BTreeMap<usize, u64>, findings: &[Finding],
) {
    let sum = |f: &dyn Fn(&WStat) -> u64| -> u64 { st.iter().map(|s| f(s)).sum() };
    let runs = sum(&|s| s.runs);
    let mut j = String::new();
    let _ = writeln!(j, "{{");
    let _ = writeln!(j, "  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",", esc(p.id), esc(&o.tier), o.seed);
    let _ = writeln!(j, "  \"coverage\": {{");
    let _ = writeln!(j, "    \"evaluations\": {runs}, \"distinct_nontrivial\": {distinct},");
    let _ = writeln!(
        j,
        "    \"rule\": {},",
        esc("one evaluation = one simulated run (one seed) with every oracle of the property evaluated; runs are distinct when the hash over every scheduling decision, fault, generated operation and harness event differs; every run drives at least one instance of the component through a generated workload")
    );
    let _ = write!(j, "    \"samples\": [");
    for k in 0..5u64.min(runs) {
        let s = run_seed(o.seed, p.id, k);
        let _ = write!(j, "{}{}", if k > 0 { ", " } else { "" }, esc(&format!("run {k}: seed {:#x} scenario {}", s, p.scen[pick_scen(p, s)].0.name)));
    }
    let _ = writeln!(j, "],");
    let per_h = |x: u64| (x as f64 / search_s.max(0.001) * 3600.0) as u64;
    let _ = writeln!(j, "    \"simulated_runs\": {runs}, \"runs_per_hour\": {}, \"seeds_per_hour\": {},", per_h(runs), per_h(runs));
    let _ = writeln!(
        j,
        "    \"simulated_time_ns\": {}, \"simulated_steps\": {}, \"max_steps_in_a_run\": {}, \"simulated_threads\": {}, \"context_switches\": {}, \"preemptions\": {},",
        sum(&|s| s.now_ns), sum(&|s| s.steps), st.iter().map(|s| s.max_steps).max().unwrap_or(0), sum(&|s| s.threads), sum(&|s| s.switches), sum(&|s| s.preempts)
    );
    let _ = writeln!(j, "    \"distinct_interleavings\": {distinct}, \"distinct_measure\": \"64-bit hash of the complete decision sequence of a run\",");
    let _ = write!(j, "    \"faults_injected\": {{");
    let mut first = true;
    for (id, n) in FAULTS {
        let c = sum(&|s| s.counters[*id as usize]);
        let r = sum(&|s| s.fired_runs[*id as usize]);
        if c > 0 {
            let _ = write!(j, "{}{}: {{\"times\": {c}, \"runs\": {r}}}", if first { "" } else { ", " }, esc(n));
            first = false;
        }
    }
    let _ = writeln!(j, "}},");
    let _ = write!(j, "    \"probes\": {{");
    first = true;
    for id in P0 as usize..NCOUNT {
        let c = sum(&|s| s.counters[id]);
        if c > 0 {
            let _ = write!(j, "{}\"probe_{}\": {}", if first { "" } else { ", " }, id - P0 as usize, c);
            first = false;
        }
    }
    let _ = writeln!(j, "}},");
    let _ = write!(j, "    \"runs_per_scenario\": {{");
    for (i, (s, _)) in p.scen.iter().enumerate() {
        let _ = write!(j, "{}{}: {}", if i > 0 { ", " } else { "" }, esc(s.name), sum(&|x| x.per_scen[i]));
    }
    let _ = writeln!(j, "}},");
    let _ = writeln!(j, "    \"determinism_rechecked_runs\": {}, \"determinism_mismatches\": {},", sum(&|s| s.det_checked), sum(&|s| s.det_mismatch));
    if MEM.load(SeqCst) != 0 {
        let _ = writeln!(j, "    \"runs_not_judged_because_another_property_failed\": {},", sum(&|s| s.skipped));
    }
    let _ = writeln!(j, "    \"real_components\": {}, \"stubbed_components\": {},", esc(p.real), esc(p.stub));
    let _ = write!(j, "    \"known_findings_hit\": {{");
    for (n, (i, c)) in known.iter().enumerate() {
        let _ = write!(j, "{}{}: {}", if n > 0 { ", " } else { "" }, esc(&findings[*i].text), c);
    }
    let _ = writeln!(j, "}}");
    let _ = writeln!(j, "  }},");
    let _ = write!(j, "  \"assumptions\": [");
    let base = [
        "sampling: a clean batch is evidence, not proof",
        "scheduling points are atomic operations and system calls; plain accesses between them are covered by the race detector, which fails any run in which they are unordered",
        "weak memory is explored through per-location store histories (8 stores) with a bounded number of stale loads per run; load buffering (reading a store that has not executed yet) is not explored; compare_exchange_weak never fails spuriously",
    ];
    for (i, a) in base.iter().chain(p.assumptions.iter()).enumerate() {
        let _ = write!(j, "{}{}", if i > 0 { ", " } else { "" }, esc(a));
    }
    let _ = writeln!(j, "],");
    let _ = writeln!(j, "  \"wall_s\": {:.2}, \"violations\": {}", t0.elapsed().as_secs_f64(), viol.is_some() as u32);
    let _ = writeln!(j, "}}");
    let dir = format!("{}/evidence", o.root);
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", p.id), j) {
        eprintln!("simcheck: cannot write evidence: {e}");
    }
}
/// Development aid: repeats one run and prints the first difference between event logs.
pub fn detloop(p: &'static Property, o: &Opts, i: u64) -> i32 {
    unsafe { simrt_init_process() };
    let shm = new_shm();
    shm.trace = 1;
    let seed = run_seed(o.seed, p.id, i);
    let sc = p.scen[pick_scen(p, seed)].0;
    let mut base: Option<Vec<LogEnt>> = None;
    for k in 0..2000 {
        exec(shm, sc, seed, 20);
        let l: Vec<LogEnt> = shm.log[..shm.log_len as usize].to_vec();
        match &base {
            None => base = Some(l),
            Some(b) => {
                let f = |e: &LogEnt| (e.step, e.tid, e.op);
                if let Some(j) = (0..b.len().min(l.len())).find(|&j| f(&b[j]) != f(&l[j])) {
                    println!("iteration {k}: first difference at {j}");
                    for (n, v) in [("base", b), ("this", &l)] {
                        for e in &v[j.saturating_sub(6)..(j + 6).min(v.len())] {
                            println!("  {n} {} t{} {} {:#x} {:#x}", e.step, e.tid, opname(e.op), e.a, e.b);
                        }
                    }
                    return 1;
                }
            }
        }
    }
    0
}

/// Development aid: how many heap blocks are still live after runs of each scenario.
pub fn leaks(p: &'static Property, o: &Opts) -> i32 {
    unsafe { simrt_init_process() };
    let shm = new_shm();
    for (sc, _) in p.scen {
        let mut h: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
        for i in 0..o.runs {
            let seed = run_seed(o.seed, p.id, i);
            if exec(shm, sc, seed, 20) == Outcome::Ok {
                let e = h.entry(shm.live_leak).or_insert((0, i));
                e.0 += 1;
            }
        }
        println!("{} {}: {:?}", p.id, sc.name, h);
    }
    0
}
