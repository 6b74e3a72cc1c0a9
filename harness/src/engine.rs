//! Exhaustive case enumeration over forked worker processes; crashes and hangs are verdicts on a case.
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
pub unsafe fn sys_fork() -> i32 {
    fork()
}
/// end together with the parent process
pub fn die_with_parent() {
    unsafe { prctl(1, 9, 0, 0, 0) };
}
pub unsafe fn sys_exit(c: i32) -> ! {
    _exit(c)
}
pub unsafe fn sys_wait(pid: i32) -> i32 {
    let mut st = 0;
    waitpid(pid, &mut st, 0);
    st
}
pub fn shared(bytes: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), bytes, 3, 0x21, -1, 0);
        assert!(p as isize != -1, "HARNESS: mmap");
        p
    }
}

#[derive(Default)]
pub struct Stats {
    pub c: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.c.entry(k).or_default() += n;
    }
    /// a library call was executed
    pub fn call(&mut self) {
        self.add("transitions", 1);
    }
    /// a complete execution was compared with the oracle
    pub fn trace(&mut self) {
        self.add("traces", 1);
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.c.entry(k).or_default();
        *e = (*e).max(n);
    }
}
pub fn hash(s: &str) -> u64 {
    // FNV-1a with final mixing
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0x9e3779b97f4a7c15);
    h ^ (h >> 29)
}
pub fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_mul(0xff51afd7ed558ccd);
    x ^ (x >> 33)
}

/// run library code; Err = it panicked (message)
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            crate::efence::off();
            let m = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "panic".into()
            };
            if m.starts_with("HARNESS") {
                std::panic::resume_unwind(e);
            }
            Err(m)
        }
    }
}
pub fn silence() {
    let trace = std::env::var("MC_TRACE").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        let p = i.payload();
        let h = p.downcast_ref::<&str>().map_or(false, |s| s.contains("HARNESS")) || p.downcast_ref::<String>().map_or(false, |s| s.contains("HARNESS"));
        if h || trace {
            crate::efence::off();
            eprintln!("{i}");
        }
    }));
}

pub struct Prop {
    pub id: &'static str,
    pub cases: fn(thorough: bool) -> Vec<String>,
    pub exec: fn(case: &str, st: &mut Stats) -> Result<(), String>,
    pub rule: &'static str,
    pub bounds: fn(thorough: bool) -> String,
    pub assumptions: &'static [&'static str],
    /// seconds after which a single case counts as not terminating
    pub hang_s: u64,
}

const SLOT: usize = 8; // u64 words per worker: [cur+1, beats, done]
struct Shm {
    p: *mut u8,
}
impl Shm {
    fn a(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.p as *const AtomicU64).add(i) }
    }
    fn next(&self) -> &AtomicU64 {
        self.a(0)
    }
    fn bad(&self) -> &AtomicU64 {
        self.a(1)
    }
    fn slot(&self, w: usize, k: usize) -> &AtomicU64 {
        self.a(8 + w * SLOT + k)
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

enum Single {
    Ok,
    Violation(String),
    Harness(String),
}
fn describe(status: i32) -> String {
    if status & 0x7f != 0 {
        format!("the process was killed by signal {}", status & 0x7f)
    } else {
        format!("the process exited with status {}", status >> 8)
    }
}
fn limit_memory() {
    // address-space cap (not under sanitizers, which reserve terabytes)
    if std::env::var("MC_NOLIMIT").is_err() {
        unsafe {
            setrlimit(9, &[16u64 << 30, 16u64 << 30]);
        }
    }
    unsafe {
        setrlimit(4, &[0, 0]); // no core files
        prctl(1, 9, 0, 0, 0); // die with the parent
    }
}
/// execute a sequence of cases in a fresh process; verdict on the last one that ran
fn run_fresh(p: &Prop, cases: &[&str], tmp: &PathBuf) -> Single {
    let out = tmp.join("single");
    let _ = fs::remove_file(&out);
    unsafe {
        let pid = fork();
        if pid == 0 {
            limit_memory();
            let r = std::panic::catch_unwind(|| {
                let mut st = Stats::default();
                for c in cases {
                    crate::core::new_case();
                    if let Err(e) = (p.exec)(c, &mut st) {
                        return Some(format!("{c}\n{e}"));
                    }
                }
                None
            });
            match r {
                Ok(Some(e)) => {
                    let _ = fs::write(&out, e);
                    _exit(1)
                }
                Ok(None) => _exit(0),
                Err(_) => _exit(3),
            }
        }
        let t0 = Instant::now();
        let lim = Duration::from_secs(p.hang_s * 2 + if cases.len() > 1 { 120 } else { 0 });
        let mut st = 0;
        loop {
            let r = waitpid(pid, &mut st, 1);
            if r == pid {
                break;
            }
            if t0.elapsed() > lim {
                kill(pid, 9);
                waitpid(pid, &mut st, 0);
                return Single::Violation(format!("the call does not return (killed after {:?})", lim));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        if st == 0 {
            Single::Ok
        } else if st == 1 << 8 {
            let s = fs::read_to_string(&out).unwrap_or_default();
            let d = s.split_once('\n').map(|x| x.1.to_string()).unwrap_or(s);
            Single::Violation(d)
        } else if st == 3 << 8 {
            Single::Harness("harness panic".into())
        } else if st & 0x7f == 9 {
            Single::Harness("killed (memory?)".into())
        } else {
            Single::Violation(format!("the library crashed: {} (invalid memory access or undefined behaviour trap)", describe(st)))
        }
    }
}

pub fn replay(p: &Prop, case: &str) -> i32 {
    silence();
    let mut st = Stats::default();
    match (p.exec)(case, &mut st) {
        Ok(()) => {
            println!("case holds: {case}");
            0
        }
        Err(e) => {
            println!("case violates {}: {case}\n{e}", p.id);
            1
        }
    }
}

pub fn run(p: &Prop, thorough: bool, extra_wall: f64) -> i32 {
    let t0 = Instant::now();
    silence();
    crate::plan::validate_reference();
    let mut cases = (p.cases)(thorough);
    if let Ok(f) = std::env::var("MC_FILTER") {
        // debugging aid
        cases.retain(|c| c.starts_with(&f));
    }
    let n = cases.len();
    {
        let mut s: Vec<&String> = cases.iter().collect();
        s.sort();
        s.dedup();
        assert_eq!(s.len(), n, "HARNESS: duplicate cases");
    }
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let tmp = verif.join("work").join(format!("{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&tmp).expect("HARNESS: tmp");
    let workers = std::env::var("MC_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8usize).min(n.max(1));
    let shm = Shm { p: shared(4096 + workers * SLOT * 8) };
    shm.bad().store(u64::MAX, SeqCst);
    let mut pids = Vec::new();
    for w in 0..workers {
        unsafe {
            let pid = fork();
            assert!(pid >= 0, "HARNESS: fork");
            if pid == 0 {
                limit_memory();
                let code = worker(p, &cases, &shm, w, &tmp);
                _exit(code);
            }
            pids.push(pid);
        }
    }
    // supervise
    let mut alive: Vec<Option<i32>> = pids.iter().map(|&p| Some(p)).collect();
    let mut beats: Vec<(u64, Instant)> = vec![(0, Instant::now()); workers];
    let mut suspects: Vec<(usize, String)> = Vec::new();
    let mut harness_fail = None;
    while alive.iter().any(|a| a.is_some()) {
        for w in 0..workers {
            let Some(pid) = alive[w] else { continue };
            let mut st = 0;
            let r = unsafe { waitpid(pid, &mut st, 1) };
            if r == pid {
                alive[w] = None;
                let cur = shm.slot(w, 0).load(SeqCst);
                if st == 0 {
                    continue;
                }
                if st == 3 << 8 || cur == 0 || st & 0x7f == 9 {
                    harness_fail = Some(format!("worker {w}: {} at case {}", describe(st), if cur > 0 { &cases[cur as usize - 1] } else { "?" }));
                } else {
                    suspects.push((cur as usize - 1, describe(st)));
                    shm.bad().fetch_min(cur - 1, SeqCst);
                }
                continue;
            }
            // a violation was found: whatever runs on later cases is no longer needed
            let cur = shm.slot(w, 0).load(SeqCst);
            if cur > 0 && cur - 1 > shm.bad().load(SeqCst) {
                unsafe {
                    kill(pid, 9);
                    waitpid(pid, &mut st, 0);
                }
                alive[w] = None;
                continue;
            }
            let b = shm.slot(w, 1).load(SeqCst);
            if b != beats[w].0 {
                beats[w] = (b, Instant::now());
            } else if beats[w].1.elapsed() > Duration::from_secs(p.hang_s) {
                let cur = shm.slot(w, 0).load(SeqCst);
                unsafe {
                    kill(pid, 9);
                    waitpid(pid, &mut st, 0);
                }
                alive[w] = None;
                if cur > 0 {
                    suspects.push((cur as usize - 1, "hang".into()));
                    shm.bad().fetch_min(cur - 1, SeqCst);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    // merge
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut found: Vec<(usize, String, Vec<usize>)> = Vec::new();
    for w in 0..workers {
        if let Ok(s) = fs::read_to_string(tmp.join(format!("stats.{w}"))) {
            for l in s.lines() {
                let (k, v) = l.split_once('\t').unwrap_or((l, ""));
                match k {
                    "sample" => samples.push(v.to_string()),
                    "viol" => {
                        let mut it = v.splitn(3, '\t');
                        let idx: usize = it.next().unwrap().parse().unwrap();
                        let hist: Vec<usize> = it.next().unwrap().split(',').filter_map(|x| x.parse().ok()).collect();
                        found.push((idx, it.next().unwrap_or("").replace("\\n", "\n"), hist));
                    }
                    _ if k.starts_with("max_") => {
                        let e = tot.entry(k.into()).or_default();
                        *e = (*e).max(v.parse().unwrap());
                    }
                    _ => *tot.entry(k.into()).or_default() += v.parse::<u64>().unwrap(),
                }
            }
        }
        for (f, set) in [("states", &mut states), ("outcomes", &mut outcomes)] {
            if let Ok(b) = fs::read(tmp.join(format!("{f}.{w}"))) {
                for c in b.chunks_exact(8) {
                    set.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
    }
    for (i, d) in &suspects {
        found.push((*i, d.clone(), vec![]));
    }
    found.sort_by_key(|f| f.0);
    let mut code = 0;
    let mut violations = 0;
    let mut confirmed = None;
    let mut loose = None;
    for (idx, d, hist) in &found {
        // confirm in a fresh process: the case alone, or else the worker's case history
        let mut first = run_fresh(p, &[&cases[*idx]], &tmp);
        for _ in 0..2 {
            // real threads are involved: a schedule may need another attempt
            if matches!(first, Single::Ok) && p.id == "C12" {
                first = run_fresh(p, &[&cases[*idx]], &tmp);
            }
        }
        match first {
            Single::Violation(e) => {
                confirmed = Some((*idx, e, String::new()));
                break;
            }
            Single::Harness(e) => harness_fail = Some(e),
            Single::Ok => {
                let seq: Vec<&str> = hist.iter().map(|&i| cases[i].as_str()).collect();
                if !seq.is_empty() {
                    if let Single::Violation(e) = run_fresh(p, &seq, &tmp) {
                        confirmed = Some((*idx, format!("{e}\n(occurs only after the preceding cases of the same process: the library carries state between calls)"), seq.join("\n")));
                        break;
                    }
                }
                if !hist.is_empty() || !suspects.iter().any(|s| s.0 == *idx) {
                    // a wrong result was observed; that it does not recur (it may hang on addresses, say) does not undo it
                    loose = Some((*idx, format!("{d}\n(seen once; an immediate repetition in a new process went right)"), String::new()));
                } else {
                    harness_fail = Some(format!("case {} failed ({d}) but does not fail again", cases[*idx]));
                }
            }
        }
    }
    if let Some((idx, e, seq)) = confirmed.or(loose) {
        violations = 1;
        code = 1;
        let dir = verif.join("replays");
        fs::create_dir_all(&dir).expect("HARNESS: replays");
        let f = dir.join(format!("{}-{:08x}.txt", p.id, hash(&cases[idx]) as u32));
        let mut t = format!("property: {}\ncase: {}\n", p.id, cases[idx]);
        t += &format!("reproduce: {}/run.sh replay {} '{}'\n\n{}\n", verif.display(), p.id, cases[idx], e);
        if !seq.is_empty() {
            t += &format!("\ncase history:\n{seq}\n");
        }
        fs::write(&f, &t).expect("HARNESS: replay file");
        println!("{t}");
        println!("VIOLATION property={} replay={}", p.id, f.display());
    } else if let Some(h) = harness_fail {
        eprintln!("ERROR: {h}");
        code = 2;
    }
    let done = tot.get("cases").copied().unwrap_or(0);
    if code == 0 && done != n as u64 {
        eprintln!("ERROR: only {done} of {n} cases were executed");
        code = 2;
    }
    let _ = fs::remove_dir_all(&tmp);
    // evidence
    let wall = t0.elapsed().as_secs_f64() + extra_wall;
    let ev = verif.join("evidence");
    let _ = fs::create_dir_all(&ev);
    let get = |k: &str| tot.get(k).copied().unwrap_or(0);
    // earlier stages of the same check (other build configurations)
    let mut sums = [states.len() as u64, get("transitions"), get("traces"), done];
    let mut wall = wall;
    let mut stages = String::new();
    for s in std::env::var("MC_PREV").unwrap_or_default().split(',').filter(|s| !s.is_empty()) {
        let t = fs::read_to_string(verif.join("work").join(format!("{}.stage.{s}", p.id))).unwrap_or_default();
        let v: Vec<f64> = t.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if v.len() == 5 {
            for i in 0..4 {
                sums[i] += v[i] as u64;
            }
            wall += v[4];
            stages += &format!("{}{}:{{\"states\":{},\"transitions\":{},\"traces\":{},\"cases\":{}}}", if stages.is_empty() { "" } else { "," }, json(s), v[0], v[1], v[2], v[3]);
        }
    }
    if let Ok(s) = std::env::var("MC_STAGE") {
        let _ = fs::write(verif.join("work").join(format!("{}.stage.{s}", p.id)), format!("{} {} {} {} {}", sums[0], sums[1], sums[2], sums[3], wall));
    }
    let mut cov = format!(
        "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"exhaustive\":{},\"rule\":{},\"bounds\":{}",
        sums[0],
        sums[1],
        sums[2],
        sums[3],
        outcomes.len(),
        code == 0 && get("branch_paths_capped") == 0,
        json(p.rule),
        json(&(p.bounds)(thorough)),
    );
    for (k, v) in &tot {
        if !["transitions", "traces", "cases"].contains(&k.as_str()) {
            cov += &format!(",{}:{}", json(k), v);
        }
    }
    samples.truncate(8);
    cov += &format!(",\"samples\":[{}]", samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(","));
    if !stages.is_empty() {
        cov += &format!(",\"of_which_in_earlier_stages\":{{{stages}}}");
    }
    let extra = std::env::var("MC_EXTRA_COVERAGE").unwrap_or_default();
    if !extra.is_empty() {
        cov += &format!(",{extra}");
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let txt = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        json(p.id),
        json(if thorough { "thorough" } else { "quick" }),
        seed,
        cov,
        p.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
        wall,
        violations
    );
    fs::write(ev.join(format!("{}.json", p.id)), txt).expect("HARNESS: evidence");
    println!(
        "{} {}: {} cases, {} states, {} library calls, {} executions compared with the oracle, {} distinct outcomes, {:.1}s -> {}",
        p.id,
        if thorough { "thorough" } else { "quick" },
        done,
        states.len(),
        get("transitions"),
        get("traces"),
        outcomes.len(),
        wall,
        match code {
            0 => "holds",
            1 => "VIOLATED",
            _ => "ERROR",
        }
    );
    for (k, v) in &tot {
        if !["transitions", "traces", "cases"].contains(&k.as_str()) {
            println!("  {k} = {v}");
        }
    }
    code
}

fn worker(p: &Prop, cases: &[String], shm: &Shm, w: usize, tmp: &PathBuf) -> i32 {
    let r = std::panic::catch_unwind(|| {
        let mut st = Stats::default();
        let mut hist: Vec<usize> = Vec::new();
        let mut viol = None;
        BEAT.with(|b| b.set(shm.slot(w, 1) as *const AtomicU64));
        loop {
            let i = shm.next().fetch_add(1, SeqCst) as usize;
            if i >= cases.len() || i as u64 > shm.bad().load(SeqCst) {
                break;
            }
            shm.slot(w, 0).store(i as u64 + 1, SeqCst);
            beat();
            hist.push(i);
            st.add("cases", 1);
            crate::core::new_case();
            if let Err(e) = (p.exec)(&cases[i], &mut st) {
                shm.bad().fetch_min(i as u64, SeqCst);
                viol = Some((i, e));
                break;
            }
        }
        let mut f = fs::File::create(tmp.join(format!("stats.{w}"))).unwrap();
        for (k, v) in &st.c {
            writeln!(f, "{k}\t{v}").unwrap();
        }
        for s in st.samples.iter().take(2) {
            writeln!(f, "sample\t{}", s.replace('\n', " ")).unwrap();
        }
        if let Some((i, e)) = viol {
            let h: Vec<String> = hist.iter().map(|x| x.to_string()).collect();
            writeln!(f, "viol\t{i}\t{}\t{}", h.join(","), e.replace('\n', "\\n")).unwrap();
        }
        for (n, set) in [("states", &st.states), ("outcomes", &st.outcomes)] {
            let mut b = Vec::with_capacity(set.len() * 8);
            for x in set {
                b.extend_from_slice(&x.to_le_bytes());
            }
            fs::write(tmp.join(format!("{n}.{w}")), b).unwrap();
        }
    });
    if r.is_ok() {
        0
    } else {
        3
    }
}
thread_local! { static BEAT: std::cell::Cell<*const AtomicU64> = const { std::cell::Cell::new(std::ptr::null()) }; }
/// heartbeat: call at least once per sub-case
pub fn beat() {
    BEAT.with(|b| {
        let p = b.get();
        if !p.is_null() {
            unsafe { (*p).fetch_add(1, SeqCst) };
        }
    })
}
