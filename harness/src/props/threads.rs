//! C12: concurrent use of shared transforms.
use super::*;
use crate::child;
use crate::hk::{self, Hk};
use crate::lane::generic;
use crate::plan::Plan::*;
use crate::sched::{self, End};
use rustdht::Dht;
use std::sync::Arc;

/// what one thread does
#[derive(Clone)]
struct Task {
    /// constructs its own transform first (the others use a shared one)
    new: bool,
    /// only constructs while the others run; the transform is used afterwards
    bare: bool,
    m: Meth,
    chunks: usize,
    plan: Plan,
}
impl Task {
    fn parse(s: &str) -> Task {
        let f: Vec<&str> = s.splitn(4, ':').collect();
        Task { new: f[0] != "call", bare: f[0] == "make", m: Meth::parse(f[1]), chunks: f[2].parse().unwrap(), plan: parse(f[3]) }
    }
    fn text(&self) -> String {
        format!("{}:{}:{}:{}", if self.bare { "make" } else if self.new { "new" } else { "call" }, self.m.s(), self.chunks, self.plan)
    }
    fn describe(&self) -> String {
        if self.bare {
            return format!("constructs {}", self.plan.rust());
        }
        format!("{}{} on {} chunk(s) with {}", if self.new { "constructs and calls " } else { "calls " }, self.m.name(), self.chunks, self.plan.rust())
    }
}
fn data(t: usize, len: usize) -> Vec<f64> {
    (0..len).map(|i| generic(i * (t + 1) + 17 * t) * (1.0 + t as f64)).collect()
}
/// a transform handed to another thread; whether the library allows that is decided by the type-level probe in run.sh
struct Carry<X>(X);
unsafe impl<X> Send for Carry<X> {}
unsafe impl<X> Sync for Carry<X> {}

fn perform<T: Elem>(t: &Task, idx: usize, shared: Option<&Arc<dyn Dht<T>>>) -> Result<Vec<f64>, String> {
    let own;
    let d = match shared {
        Some(d) => d,
        None => {
            own = try_build::<T>(&t.plan)?;
            &own
        }
    };
    let mut s2 = Stats::default();
    concrete(&**d, Shape { m: t.m, chunks: t.chunks, extra: 0 }, &data(idx, t.plan.len() * t.chunks), &|_| f64::NAN, &|_| f64::NAN, &mut s2)
}
fn baseline<T: Elem>(ts: &[Task], st: &mut Stats) -> Result<Vec<Vec<f64>>, String> {
    ts.iter()
        .enumerate()
        .map(|(i, t)| {
            st.call();
            child::run(|| perform::<T>(t, i, None)).map_err(|e| format!("{e}\nalone: {}", t.describe()))
        })
        .collect()
}
fn differs<T: Elem>(a: &[f64], b: &[f64]) -> Option<usize> {
    let sc = b.iter().map(|v| v.abs()).fold(1.0, f64::max);
    let tol = 64.0 * T::EPS * sc * (b.len() as f64).sqrt();
    if a.len() != b.len() {
        return Some(0);
    }
    (0..a.len()).find(|&k| !((a[k] - b[k]).abs() <= tol))
}
fn judge<T: Elem>(t: &Task, r: &Result<Vec<f64>, String>, base: &[f64]) -> Option<String> {
    match r {
        Err(e) => Some(format!("{e} ({})", t.describe())),
        Ok(v) => differs::<T>(v, base).map(|k| format!("element {k} is {:?}, but {:?} when run alone ({})", v.get(k), base.get(k), t.describe())),
    }
}
fn build_shared<T: Elem>(ts: &[Task]) -> Vec<Option<Arc<dyn Dht<T>>>> {
    let mut memo = Memo::<T>::new();
    ts.iter().map(|t| if t.new { None } else { Some(build_memo(&t.plan, &mut memo)) }).collect()
}

fn name(i: usize) -> String {
    if i < 26 { ((b'A' + i as u8) as char).to_string() } else { format!("T{i}") }
}

// ---------------------------------------------------------------- operation level
/// one schedule on fresh instances; Err = violation text, Ok = points per thread, forced switches
fn one_schedule(ts: &[Task], base: &[Vec<f64>], segs: &[(usize, u64)]) -> Result<([u64; sched::MAXT], u64), String> {
    let ds = build_shared::<Hk>(ts);
    let mut out: Vec<Result<Vec<f64>, String>> = ts.iter().map(|_| Err("no result".into())).collect();
    let tasks: Vec<Box<dyn FnOnce() + Send>> = ts
        .iter()
        .zip(out.iter_mut())
        .enumerate()
        .map(|(i, (t, o))| {
            let c = Carry((t, o, &ds[i]));
            Box::new(move || {
                let c = c;
                let Carry((t, o, d)) = c;
                hk::set_mode(3, 0);
                let r = perform::<Hk>(t, i, d.as_ref());
                hk::set_mode(0, 0);
                *o = r;
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let (end, pts, forced) = sched::run_ops(tasks, segs);
    let text = || {
        let mut s = String::from("\nthreads:");
        for (i, t) in ts.iter().enumerate() {
            s += &format!("\n  {}: {}", name(i), t.describe());
        }
        s += "\nschedule (operations before each switch):";
        for (t, k) in segs {
            s += &if *k == u64::MAX { format!(" {} to its end;", name(*t)) } else { format!(" {} for {k};", name(*t)) };
        }
        s
    };
    if let End::Stuck(s) = end {
        let who: Vec<String> = s.iter().map(|&i| name(i)).collect();
        // the stuck threads still borrow our frame
        std::mem::forget(ds);
        std::mem::forget(std::mem::take(&mut out));
        return Err(format!("deadlock: thread(s) {who:?} never finish{}", text()));
    }
    for (i, t) in ts.iter().enumerate() {
        if let Some(e) = judge::<Hk>(t, &out[i], &base[i]) {
            return Err(format!("thread {}: {e}{}", name(i), text()));
        }
    }
    // and nothing was left behind that makes the same call go wrong afterwards
    for (i, t) in ts.iter().enumerate() {
        if let Some(e) = judge::<Hk>(t, &perform::<Hk>(t, i, ds[i].as_ref()), &base[i]) {
            return Err(format!("after the threads finished: {e}{}", text()));
        }
    }
    Ok((pts, forced))
}
const INF: u64 = u64::MAX;
/// all schedules with at most `pre` preemptions (2 threads), or the 3-thread families
fn schedules(n: usize, pts: &[u64], pre: usize, f: &mut dyn FnMut(&[(usize, u64)]) -> Result<(), String>) -> Result<(), String> {
    if n == 2 {
        for (x, y) in [(0usize, 1usize), (1, 0)] {
            for a in 1..=pts[x] {
                if pre == 1 {
                    f(&[(x, a), (y, INF), (x, INF)])?;
                    continue;
                }
                for b in 1..=pts[y] {
                    if pre == 2 {
                        f(&[(x, a), (y, if b == pts[y] { INF } else { b }), (x, INF), (y, INF)])?;
                    } else {
                        for c in 1..=pts[x] - a.min(pts[x]) {
                            f(&[(x, a), (y, b), (x, c), (y, INF), (x, INF)])?;
                        }
                    }
                }
            }
        }
        return Ok(());
    }
    for p in [[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        let [x, y, z] = p;
        for a in 1..=pts[x] {
            for b in 1..=pts[y] {
                // z runs completely while x and y are both suspended, then both orders of finishing
                f(&[(x, a), (y, b), (z, INF), (x, INF), (y, INF)])?;
                f(&[(x, a), (y, b), (z, INF), (y, INF), (x, INF)])?;
                if pre >= 3 {
                    for c in 1..=pts[z] {
                        f(&[(x, a), (y, b), (z, c), (x, INF), (y, INF), (z, INF)])?;
                    }
                }
            }
        }
    }
    Ok(())
}
/// many threads: all suspended at the same point (or one further each), the last runs completely, the others finish in
/// both orders; and round-robin with every quantum
fn crowd_schedules(n: usize, pts: &[u64], stride: u64, f: &mut dyn FnMut(&[(usize, u64)]) -> Result<(), String>) -> Result<(), String> {
    let top = *pts.iter().min().unwrap();
    let mut i = 1;
    while i <= top {
        for lad in [0u64, 1] {
            let mut pre: Vec<(usize, u64)> = (0..n - 1).map(|t| (t, (i + lad * t as u64).min(pts[t]))).collect();
            pre.push((n - 1, INF));
            let mut a = pre.clone();
            a.extend((0..n - 1).map(|t| (t, INF)));
            f(&a)?;
            let mut a = pre;
            a.extend((0..n - 1).rev().map(|t| (t, INF)));
            f(&a)?;
        }
        i += stride;
    }
    let mut q = 1;
    while q < top && n * (top / q) as usize <= 4000 {
        let mut a = vec![];
        for _ in 0..top / q + 1 {
            a.extend((0..n).map(|t| (t, q)));
        }
        f(&a)?;
        q = q + 1 + q / 3;
    }
    Ok(())
}
fn op_case(ts: &[Task], pre: usize, forked: bool, crowd: Option<u64>, st: &mut Stats) -> Result<(), String> {
    let base = baseline::<Hk>(ts, st)?;
    let n = ts.len();
    // points of each thread, run alone one after another, in every starting order
    let r = child::run(|| {
        let mut p = vec![0u64; n];
        for k in 0..if crowd.is_some() { 1 } else { n } {
            let segs: Vec<(usize, u64)> = (0..n).map(|i| ((i + k) % n, INF)).collect();
            let (q, _) = one_schedule(ts, &base, &segs)?;
            for i in 0..n {
                p[i] = p[i].max(q[i]);
            }
        }
        Ok(p.iter().map(|&x| x as f64).collect())
    })?;
    let pts: Vec<u64> = r.iter().map(|&x| x as u64).collect();
    let mut count = 0u64;
    let mut forced = 0u64;
    if forked {
        schedules(n, &pts, pre, &mut |segs| {
            let r = child::run(|| one_schedule(ts, &base, segs).map(|r| vec![r.1 as f64]))?;
            count += 1;
            forced += r[0] as u64;
            beat();
            Ok(())
        })?;
    } else {
        let r = child::run(|| {
            let mut each = |segs: &[(usize, u64)]| {
                let (_, f) = one_schedule(ts, &base, segs)?;
                count += 1;
                forced += f;
                beat();
                Ok(())
            };
            match crowd {
                Some(stride) => crowd_schedules(n, &pts, stride, &mut each)?,
                None => schedules(n, &pts, pre, &mut each)?,
            }
            Ok(vec![count as f64, forced as f64])
        })?;
        count = r[0] as u64;
        forced = r[1] as u64;
    }
    st.add("transitions", count * n as u64);
    st.add("traces", count);
    st.add("schedules_operation_level", count);
    for i in 0..count {
        st.state(mix(hash(&format!("{pre}{forked}{}", ts.iter().map(|t| t.text()).collect::<String>())), i));
    }
    st.add("scheduling_points", pts.iter().sum());
    st.add("threads_found_blocked", forced);
    Ok(())
}

// ---------------------------------------------------------------- instruction level
/// A single-stepped; B complete at boundary `at` (None: every stride-th). Returns (boundaries, runs of B).
fn one_step<T: Elem>(ts: &[Task], base: &[Vec<f64>], at: Option<u64>, stride: u64, offset: u64) -> Result<(u64, u64), String> {
    let ds = build_shared::<T>(ts);
    let (ta, tb) = (&ts[0], &ts[1]);
    let mut err: Option<String> = None;
    // everything A needs is prepared outside the stepped region
    let n = ta.plan.len();
    let xa: Vec<T> = data(0, n * ta.chunks).into_iter().map(T::of).collect();
    let mut buf = xa.clone();
    let mut out: Vec<T> = vec![T::of(f64::NAN); xa.len()];
    let mut scr: Vec<T> = ds[0].as_ref().map_or(vec![], |d| vec![T::of(f64::NAN); scratch_len(&**d, ta.m)]);
    let mut b = {
        let c = Carry((tb, &ds[1], &mut err, &base[1]));
        move || {
            let c = &c;
            let (t, d, e, base) = unsafe { std::ptr::read(&c.0) };
            if t.bare {
                if let (Err(x), true) = (try_build::<T>(&t.plan), e.is_none()) {
                    *e = Some(x);
                }
                return;
            }
            let r = perform::<T>(t, 1, d.as_ref());
            if e.is_none() {
                *e = judge::<T>(t, &r, base);
            }
        }
    };
    let mut ra = Err(String::new());
    let mut made: Option<Arc<dyn Dht<T>>> = None;
    let (_, steps, runs, stuck) = sched::step(
        || {
            ra = guard(|| {
                if let Some(d) = &ds[0] {
                    match ta.m {
                        Meth::P => d.process(&mut buf),
                        Meth::S => d.process_with_scratch(&mut buf, &mut scr),
                        Meth::O => d.process_outofplace_with_scratch(&mut buf, &mut out, &mut scr),
                    }
                } else if ta.bare {
                    made = Some(build::<T>(&ta.plan));
                } else {
                    let d = build::<T>(&ta.plan);
                    let mut scr: Vec<T> = vec![T::of(f64::NAN); scratch_len(&*d, ta.m)];
                    match ta.m {
                        Meth::P => d.process(&mut buf),
                        Meth::S => d.process_with_scratch(&mut buf, &mut scr),
                        Meth::O => d.process_outofplace_with_scratch(&mut buf, &mut out, &mut scr),
                    }
                }
            })
        },
        &mut b,
        at,
        stride,
        offset,
    );
    let text = || {
        format!(
            "\nthreads: A {}; B {} (as {})\nschedule: B runs completely {}",
            ta.describe(),
            tb.describe(),
            T::NAME,
            match at {
                None => format!("at every {} instruction boundary of A", if stride == 1 { "".into() } else { format!("{stride}th (from {offset})") }),
                Some(k) => format!("after A's instruction {k}"),
            }
        )
    };
    if stuck {
        std::mem::forget(ds);
        return Err(format!("deadlock: thread B never finishes{}", text()));
    }
    drop(b);
    if let Some(e) = err {
        return Err(format!("thread B: {e}{}", text()));
    }
    if let Some(d) = &made {
        ra = ra.and_then(|_| {
            perform::<T>(ta, 0, Some(d)).map(|y| {
                for (b, y) in buf.iter_mut().zip(y) {
                    *b = T::of(y);
                }
            })
        });
    }
    let res = ra.map(|_| (if ta.m == Meth::O { &out } else { &buf }).iter().map(|v| v.val()).collect::<Vec<f64>>());
    if let Some(e) = judge::<T>(ta, &res, &base[0]) {
        return Err(format!("thread A: {e}{}", text()));
    }
    // and nothing was left behind that makes the same call go wrong afterwards
    for i in [1, 0] {
        if let Some(e) = judge::<T>(&ts[i], &perform::<T>(&ts[i], i, ds[i].as_ref()), &base[i]) {
            return Err(format!("after the threads finished: {e}{}", text()));
        }
    }
    Ok((steps, runs))
}
/// mode: dense (B at every boundary of one execution of A), each (one execution per boundary), fork (the same, each in a
/// process where the library was never used)
fn ins_case<T: Elem>(ts: &[Task], mode: &str, stride: u64, st: &mut Stats) -> Result<(), String> {
    let base = baseline::<T>(ts, st)?;
    let r = child::run(|| {
        sched::install();
        let mut sum = [0.0; 3];
        let (steps, runs) = one_step::<T>(ts, &base, None, stride, 0)?;
        sum[0] += 1.0;
        sum[1] += runs as f64;
        sum[2] = steps as f64;
        if mode.starts_with("sweep") {
            // further residues of the stride: "sweep" all of them, "sweepN" N of them
            let n = mode[5..].parse::<u64>().unwrap_or(stride).min(stride);
            for i in 1..n {
                let (_, runs) = one_step::<T>(ts, &base, None, stride, i * stride / n)?;
                sum[0] += 1.0;
                sum[1] += runs as f64;
                beat();
            }
        }
        if mode == "each" {
            for i in 0..steps {
                one_step::<T>(ts, &base, Some(i), 1, 0)?;
                sum[0] += 1.0;
                sum[1] += 1.0;
                beat();
            }
        }
        Ok(sum.to_vec())
    })?;
    let mut sum = r;
    if mode == "fork" {
        // in a process where the library was never used there may be more instructions (lazy initialisation)
        let mut i = 0u64;
        loop {
            let r = child::run(|| {
                sched::install();
                one_step::<T>(ts, &base, Some(i), 1, 0).map(|r| vec![r.1 as f64])
            })?;
            beat();
            if r[0] == 0.0 {
                break;
            }
            sum[0] += 1.0;
            sum[1] += 1.0;
            i += stride;
        }
    }
    st.add("transitions", sum[0] as u64 + sum[1] as u64);
    st.add("traces", sum[0] as u64 + sum[1] as u64);
    st.add("schedules_instruction_level", if mode == "dense" { 1 } else { sum[0] as u64 });
    for i in 0..if mode == "dense" { sum[1] as u64 } else { sum[0] as u64 } {
        st.state(mix(hash(&format!("{mode}{stride}{}", ts.iter().map(|t| t.text()).collect::<String>())), i));
    }
    st.add("instruction_boundaries", sum[2] as u64);
    st.add("interposed_calls", sum[1] as u64);
    Ok(())
}

fn exec(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    match f[0] {
        // op <preemptions> <shared|fork> task task [task]
        "op" => {
            let ts: Vec<Task> = f[3..].iter().map(|s| Task::parse(s)).collect();
            op_case(&ts, f[1].parse().unwrap(), f[2] == "fork", None, st)?;
        }
        // crowd <threads> <stride> task task: the tasks are dealt out in turn
        "crowd" => {
            let k: usize = f[1].parse().unwrap();
            let ts: Vec<Task> = (0..k).map(|i| Task::parse(f[3 + i % (f.len() - 3)])).collect();
            op_case(&ts, 0, false, Some(f[2].parse().unwrap()), st)?;
        }
        // ins <mode> <stride> <type> task task
        "ins" => {
            let ts: Vec<Task> = f[4..].iter().map(|s| Task::parse(s)).collect();
            match f[3] {
                "f32" => ins_case::<f32>(&ts, f[1], f[2].parse().unwrap(), st)?,
                _ => ins_case::<f64>(&ts, f[1], f[2].parse().unwrap(), st)?,
            }
        }
        _ => panic!("HARNESS: {case}"),
    }
    st.outcomes.insert(hash(case));
    if st.samples.is_empty() {
        st.samples.push(format!("{case}: under every enumerated schedule each thread's result equals that of the call alone in a fresh process"));
    }
    Ok(())
}
fn t(new: bool, m: Meth, chunks: usize, p: &Plan) -> String {
    Task { new, bare: false, m, chunks, plan: p.clone() }.text()
}
fn make(p: &Plan) -> String {
    Task { new: true, bare: true, m: Meth::S, chunks: 1, plan: p.clone() }.text()
}
/// small representatives, with their number of operations per call kept low
fn small() -> Vec<Plan> {
    vec![
        N(2), N(3), N(4), B(1), B(2), B(3), B(4), B(5), B(6), B(8), R4(2), R4(4), R4(8), mr(B(2), B(2)), mr(B(2), B(3)), mr(B(3), B(3)), x(2, B(2)), x(2, B(3)), x(3, B(1)), x(3, B(2)), x(3, B(3)), x(4, B(1)), x(4, B(2)), x(5, B(1)), x(5, B(2)), x(6, B(1)), x(6, B(2)),
        sr(B(1), B(2)), sr(B(2), B(4)), ra(B(1)), ra(B(2)), ra(B(4)),
    ]
}
fn medium() -> Vec<Plan> {
    vec![
        N(7), N(12), B(9), B(16), R4(16), R4(32), R4(64), R4(128), mr(B(4), B(3)), mr(B(5), B(4)), mr(N(7), B(3)), x(2, B(8)), x(3, B(6)), x(4, B(4)), x(4, B(6)), x(5, B(5)), x(6, B(5)), sr(B(4), B(8)), sr(N(3), B(6)), sr(N(5), N(10)), ra(B(6)), ra(N(10)), ra(N(12)),
        mr(x(2, B(2)), B(3)), x(2, mr(B(3), B(2))), ra(x(2, B(3))), sr(B(3), x(2, B(3))), x(3, ra(B(4))),
    ]
}
pub fn c12() -> Prop {
    use Meth::*;
    Prop {
        id: "C12",
        cases: |th| {
            let mut v = Vec::new();
            let (sm, me) = (small(), medium());
            let pairs = [(S, 1, S, 1), (O, 1, O, 1), (S, 1, O, 2), (P, 1, S, 2)];
            for p in &sm {
                for (ma, ca, mb, cb) in pairs {
                    v.push(format!("op 2 shared {} {}", t(false, ma, ca, p), t(false, mb, cb, p)));
                }
                // constructors racing with calls and with each other, in fresh processes
                v.push(format!("op 2 shared {} {}", t(true, S, 1, p), t(false, O, 1, p)));
                v.push(format!("op 1 fork {} {}", t(true, S, 1, p), t(true, O, 1, p)));
                // a larger transform around the same inner one
                v.push(format!("op 1 shared {} {}", t(false, S, 1, p), t(false, O, 1, &x(2, p.clone()))));
                v.push(format!("op 1 shared {} {}", t(false, O, 1, &mr(p.clone(), B(2))), t(false, S, 1, &x(3, p.clone()))));
                v.push(format!("op 1 shared {} {}", t(false, S, 1, &mr(B(2), p.clone())), t(false, S, 1, &mr(p.clone(), B(2)))));
                for (ma, ca, mb, cb) in [(S, 1, S, 1), (O, 1, O, 1), (S, 2, O, 1), (O, 2, S, 1), (P, 1, P, 1)] {
                    for ty in ["f64", "f32"] {
                        if ty == "f64" || ma == mb {
                            v.push(format!("ins each 1 {ty} {} {}", t(false, ma, ca, p), t(false, mb, cb, p)));
                        }
                    }
                }
                v.push(format!("ins dense 1 f64 {} {}", t(true, S, 1, p), t(true, O, 1, p)));
                v.push(format!("ins dense 1 f64 {} {}", t(false, S, 1, p), t(true, O, 1, p)));
                v.push(format!("ins dense 1 f64 {} {}", t(false, S, 1, &x(2, p.clone())), t(false, O, 1, &x(3, p.clone()))));
                v.push(format!("ins dense 1 f64 {} {}", t(false, O, 1, &mr(p.clone(), B(2))), t(false, S, 1, p)));
                if th {
                    v.push(format!("op 2 fork {} {}", t(true, S, 1, p), t(true, S, 1, p)));
                    v.push(format!("ins fork 1 f64 {} {}", t(true, S, 1, p), t(true, O, 1, p)));
                    v.push(format!("op 3 shared {} {}", t(false, S, 1, p), t(false, S, 1, p)));
                    v.push(format!("op 2 shared {} {} {}", t(false, S, 1, p), t(false, O, 1, p), t(false, S, 1, p)));
                }
            }
            for p in &me {
                for (ma, ca, mb, cb) in pairs {
                    v.push(format!("op {} shared {} {}", if th { 2 } else { 1 }, t(false, ma, ca, p), t(false, mb, cb, p)));
                    v.push(format!("ins dense 1 f64 {} {}", t(false, ma, ca, p), t(false, mb, cb, p)));
                }
                v.push(format!("op 1 fork {} {}", t(true, S, 1, p), t(true, O, 1, p)));
                v.push(format!("ins dense 1 f32 {} {}", t(true, S, 1, p), t(true, O, 1, p)));
                if th {
                    v.push(format!("ins each 1 f64 {} {}", t(false, S, 1, p), t(false, O, 1, p)));
                }
            }
            // transforms of different algorithms at once
            for (i, p) in sm.iter().enumerate() {
                for (j, q) in sm.iter().enumerate() {
                    if i < j && (th || (i + j) % 3 == 0) {
                        v.push(format!("op 1 shared {} {}", t(false, S, 1, p), t(false, O, 1, q)));
                        v.push(format!("ins dense 1 f64 {} {}", t(false, S, 1, p), t(false, O, 1, q)));
                    }
                }
            }
            // different configurations of one algorithm constructed at once
            let kin = [
                (ra(B(2)), ra(B(4))), (ra(B(1)), ra(B(2))), (ra(B(4)), ra(B(6))), (ra(B(2)), ra(N(10))),
                (x(2, B(1)), x(2, B(2))), (x(2, B(2)), x(2, B(3))), (x(3, B(1)), x(3, B(2))), (x(3, B(2)), x(3, B(3))),
                (x(4, B(1)), x(4, B(2))), (x(4, B(2)), x(4, B(4))), (x(5, B(1)), x(5, B(2))), (x(5, B(2)), x(5, B(3))),
                (x(6, B(1)), x(6, B(2))), (x(6, B(2)), x(6, B(3))), (mr(B(2), B(2)), mr(B(2), B(3))), (mr(B(2), B(3)), mr(B(3), B(2))),
                (mr(B(3), B(3)), mr(B(4), B(3))), (mr(B(2), B(6)), mr(B(3), B(4))), (sr(B(1), B(2)), sr(B(2), B(4))), (sr(B(2), B(4)), sr(B(3), B(6))), (R4(4), R4(8)), (R4(8), R4(16)),
                (R4(16), R4(32)), (R4(32), R4(64)), (N(2), N(3)), (N(3), N(4)), (N(4), N(5)), (x(2, B(3)), x(3, B(2))), (x(3, B(4)), x(4, B(3))), (mr(B(2), B(3)), x(2, B(3))), (sr(B(3), B(6)), x(4, B(3))),
            ];
            for (p, q) in &kin {
                for (a, b) in [(p, q), (q, p)] {
                    v.push(format!("ins dense 1 f64 {} {}", t(true, S, 1, a), t(true, S, 1, b)));
                    v.push(format!("ins dense 1 f64 {} {}", t(true, S, 1, a), t(false, S, 1, b)));
                    v.push(format!("ins dense 1 f64 {} {}", t(false, S, 1, a), t(true, S, 1, b)));
                    v.push(format!("ins dense 1 f64 {} {}", t(false, O, 1, a), t(false, S, 1, b)));
                    v.push(format!("op 1 fork {} {}", t(true, S, 1, a), t(true, S, 1, b)));
                    v.push(format!("ins {} 1 f64 {} {}", if th || a.len() <= 3 { "each" } else { "dense" }, t(true, O, 1, a), t(true, S, 1, b)));
                }
                v.push(format!("op {} shared {} {}", if th { 2 } else { 1 }, t(false, S, 1, p), t(false, S, 1, q)));
            }
            // different algorithms constructed at once
            let reps = [N(3), B(4), R4(4), R4(16), mr(B(2), B(3)), x(2, B(2)), x(3, B(2)), x(4, B(2)), x(5, B(2)), x(6, B(2)), sr(B(2), B(4)), ra(B(4)), mr(ra(B(2)), x(2, B(2)))];
            for a in &reps {
                for b in &reps {
                    if a != b {
                        v.push(format!("ins dense 1 f64 {} {}", make(a), make(b)));
                        v.push(format!("ins dense 1 f64 {} {}", t(false, S, 1, a), make(b)));
                        v.push(format!("ins dense 1 f64 {} {}", make(a), t(false, S, 1, b)));
                    }
                }
            }
            // three threads
            for p in [B(2), B(4), x(2, B(1)), x(3, B(1)), x(4, B(1)), mr(B(1), B(2)), sr(B(1), B(2)), ra(B(2)), R4(8), N(2)] {
                v.push(format!("op 2 shared {} {} {}", t(false, S, 1, &p), t(false, O, 1, &p), t(false, S, 1, &p)));
                if th {
                    v.push(format!("op 3 shared {} {} {}", t(false, S, 1, &p), t(false, S, 1, &p), t(false, S, 1, &p)));
                }
            }
            // longer transforms, another thread's call at every instruction boundary
            for p in [R4(256), R4(512), R4(1024), mr(B(16), B(9)), mr(B(16), R4(32)), x(2, R4(128)), x(3, R4(64)), x(4, R4(64)), x(5, R4(64)), x(6, R4(64)), sr(R4(64), R4(128)), ra(R4(256)), N(33)] {
                v.push(format!("ins dense {} f64 {} {}", if th { 1 } else if p.len() > 600 { 3 } else { 2 }, t(false, S, 1, &p), t(false, S, 1, &p)));
                v.push(format!("ins dense {} f64 {} {}", if th { 1 } else if p.len() > 600 { 5 } else { 3 }, t(false, O, 1, &p), t(false, O, 1, &p)));
            }
            // construction of long transforms, another thread constructing one of another length
            let tall = [
                (N(700), N(701)), (N(2000), N(1999)), (R4(1024), R4(2048)), (R4(512), R4(256)), (mr(R4(32), R4(64)), mr(R4(64), R4(16))), (sr(R4(256), R4(512)), sr(R4(128), R4(256))), (ra(R4(256)), ra(x(6, B(2)))),
                (ra(x(6, x(6, B(3)))), ra(R4(256))), (x(2, R4(512)), x(2, R4(256))), (x(3, R4(512)), x(3, R4(128))), (x(4, R4(512)), x(4, R4(256))), (x(5, R4(512)), x(5, R4(128))), (x(6, R4(512)), x(6, R4(256))),
                (x(3, R4(512)), x(5, R4(256))), (mr(R4(32), B(9)), x(6, R4(64))),
            ];
            for (p, q) in &tall {
                for (a, b) in [(p, q), (q, p)] {
                    v.push(format!("ins sweep{} {} f64 {} {}", if th { "" } else { "4" }, if th { 211 } else { 997 }, make(a), make(b)));
                    // single-stepping a quadratic number of operations takes too long
                    if !matches!(a, N(_)) {
                        v.push(format!("ins sweep{} {} f64 {} {}", if th { "20" } else { "3" }, if th { 601 } else { 1999 }, t(false, S, 1, a), make(b)));
                    }
                }
            }
            for (p, q) in &kin {
                for (a, b) in [(p, q), (q, p)] {
                    v.push(format!("ins sweep{} {} f64 {} {}", if th { "" } else { "12" }, 211, make(a), make(b)));
                    v.push(format!("ins sweep{} {} f64 {} {}", if th { "" } else { "12" }, 97, t(false, S, 1, a), t(false, O, 1, b)));
                }
            }
            // many threads
            for p in sm.iter().chain(&me) {
                let big = p.len() > 12;
                for k in [3usize, 4, 5, 8, 9, 16, 17, 33] {
                    let stride = if th { 1 } else if k > 9 { if big { 61 } else { 7 } } else if big { 17 } else { 2 };
                    v.push(format!("crowd {k} {stride} {}", t(false, S, 1, p)));
                    v.push(format!("crowd {k} {stride} {}", t(false, O, 1, p)));
                    if th || k < 6 {
                        v.push(format!("crowd {k} {stride} {} {}", t(false, S, 2, p), t(false, O, 1, p)));
                        v.push(format!("crowd {k} {stride} {} {}", t(false, P, 1, p), t(true, S, 1, p)));
                    }
                }
            }
            // first use in a process
            for p in [B(1), B(2), B(3), B(4), B(5), B(6), N(2), R4(2), x(2, B(1)), x(3, B(1))] {
                v.push(format!("ins fork {} f64 {} {}", if th || matches!(p, B(_)) { 1 } else { 11 }, t(true, S, 1, &p), t(true, S, 1, &p)));
            }
            for p in [B(8), B(9), B(16), N(3), R4(8), x(4, B(1)), x(5, B(1)), x(6, B(1)), mr(B(1), B(2)), mr(B(2), B(2)), sr(B(1), B(2)), ra(B(2))] {
                v.push(format!("ins fork {} f64 {} {}", if th { 1 } else { 37 }, t(true, S, 1, &p), t(true, S, 1, &p)));
            }
            // the slowest first, then those that would hang on a lock
            v.sort_by_key(|c| if c.starts_with("ins fork") { 0 } else if c.starts_with("ins dense") { 1 } else { 2 });
            uniq(v)
        },
        exec,
        rule: "one case = a set of threads and a family of schedules, all of which are executed on real threads under a controlled scheduler; every result is compared with the same call run alone in a fresh process",
        bounds: |th| {
            format!(
                "operation level (every element operation and inner call is a possible switch): 2 threads, all schedules with <= {} preemptions for {} small transforms, <= {} for {} larger ones, 3 threads with two suspended at all pairs of points, 3 to 33 threads all suspended at one point or in a ladder while the last runs, and in round-robin; instruction level (CPU single-stepping): another thread's complete call at every instruction boundary, one schedule per boundary for small transforms; and at all residues (quick: some) of a stride; construction races of short and long transforms, in fresh processes too",
                if th { 3 } else { 2 },
                small().len(),
                if th { 2 } else { 1 },
                medium().len()
            )
        },
        assumptions: &["x86-64 memory ordering as executed; a thread that blocks on a lock yields to the others", "results are compared with a tolerance of 64 rounding units"],
        hang_s: 120,
    }
}
