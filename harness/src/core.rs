//! Executing one call of a plan: symbolically on all basis inputs (Lane), or concretely.
use crate::engine::*;
use crate::lane::{arena, generic, Arena, Lane};
use crate::odd::{Wide, Xr, Xr4};
use crate::plan::*;
use rustdht::Dht;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Meth {
    P,
    S,
    O,
}
impl Meth {
    pub fn s(self) -> &'static str {
        match self {
            Meth::P => "P",
            Meth::S => "S",
            Meth::O => "O",
        }
    }
    pub fn parse(s: &str) -> Meth {
        match s {
            "P" => Meth::P,
            "S" => Meth::S,
            "O" => Meth::O,
            _ => panic!("HARNESS: method {s}"),
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Meth::P => "process",
            Meth::S => "process_with_scratch",
            Meth::O => "process_outofplace_with_scratch",
        }
    }
}
pub const METHS: [Meth; 3] = [Meth::P, Meth::S, Meth::O];

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub m: Meth,
    pub chunks: usize,
    pub extra: usize,
}
impl Shape {
    pub fn text(&self) -> String {
        format!("{} {} {}", self.m.s(), self.chunks, self.extra)
    }
    pub fn parse(s: &[&str]) -> Shape {
        Shape { m: Meth::parse(s[0]), chunks: s[1].parse().expect("HARNESS"), extra: s[2].parse().expect("HARNESS") }
    }
}

pub fn try_build<T: Elem>(p: &Plan) -> Result<Arc<dyn Dht<T>>, String> {
    guard(|| build::<T>(p)).map_err(|e| format!("constructing {} panicked: {e}", p.rust()))
}

/// one call with given contents; returns the output cells
pub fn call<T: Elem>(d: &dyn Dht<T>, m: Meth, input: &mut [T], output: &mut [T], scratch: &mut [T]) -> Result<(), String> {
    guard(|| match m {
        Meth::P => d.process(input),
        Meth::S => d.process_with_scratch(input, scratch),
        Meth::O => d.process_outofplace_with_scratch(input, output, scratch),
    })
}
pub fn scratch_len<T: Elem>(d: &dyn Dht<T>, m: Meth) -> usize {
    match m {
        Meth::P => 0,
        Meth::S => d.get_inplace_scratch_len(),
        Meth::O => d.get_outofplace_scratch_len(),
    }
}

thread_local! { static CALLS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// start of a case: the placement of buffers in memory is a function of the case alone
pub fn new_case() {
    CALLS.with(|c| c.set(0));
}
/// coarse placements: bytes after a page boundary
pub const COARSE: [usize; 8] = [64, 0, 128, 2048, 256, 1024, 512, 4032];
/// a buffer that starts `off` (modulo the elements per 64 bytes) elements after a 64-byte boundary; the rest of `off`
/// chooses that boundary's place in its page
pub struct Placed<T> {
    v: Vec<T>,
    a: usize,
    len: usize,
}
impl<T: Copy> Placed<T> {
    pub fn new(len: usize, off: usize, _zero: T, f: impl Fn(usize) -> T) -> Placed<T> {
        let z = std::mem::size_of::<T>().max(1);
        let per = 64 / z;
        if per == 0 || 64 % z != 0 {
            return Placed { v: (0..len).map(f).collect(), a: 0, len };
        }
        let page = 4096 / z;
        let mut v: Vec<T> = Vec::with_capacity(len + 2 * page + 2 * per);
        let a = (4096 - v.as_ptr() as usize % 4096) / z % page + COARSE[off / per % 8] / z + off % per;
        assert!(a + len <= v.capacity());
        // T: Copy, so nothing is dropped; the vector stays empty and only lends its memory
        for i in 0..len {
            unsafe { v.as_mut_ptr().add(a + i).write(f(i)) };
        }
        Placed { v, a, len }
    }
    pub fn s(&mut self) -> &mut [T] {
        if self.v.is_empty() {
            unsafe { std::slice::from_raw_parts_mut(self.v.as_mut_ptr().add(self.a), self.len) }
        } else {
            &mut self.v[..]
        }
    }
}
/// concrete call; scratch and stale output contents from the closures
pub fn concrete<T: Elem>(d: &dyn Dht<T>, sh: Shape, input: &[f64], scr: &dyn Fn(usize) -> f64, stale: &dyn Fn(usize) -> f64, st: &mut Stats) -> Result<Vec<f64>, String> {
    st.call();
    // the three buffers go through all relative placements (in steps of one element within 64 bytes) call by call
    let q = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let s = if sh.m == Meth::P { 0 } else { scratch_len(d, sh.m) + sh.extra };
    let mut b = Placed::new(input.len(), q, T::of(0.0), |i| T::of(input[i]));
    let mut sc = Placed::new(s, q / 3, T::of(0.0), |i| T::of(scr(i)));
    let mut o = Placed::new(if sh.m == Meth::O { input.len() } else { 0 }, q / 2, T::of(0.0), |i| T::of(stale(i)));
    call(d, sh.m, b.s(), o.s(), sc.s()).map_err(|e| format!("{} panicked on a correctly sized call (buffer {}, scratch {}): {e}", sh.m.name(), input.len(), s))?;
    Ok((if sh.m == Meth::O { o } else { b }).s().iter().map(|v| v.val()).collect())
}

pub struct Layout {
    pub n: usize,
    pub inputs: usize,
    pub scratch: usize,
    pub outputs: usize,
}
impl Layout {
    pub fn total(&self) -> usize {
        self.inputs + self.scratch + self.outputs
    }
    pub fn name(&self, u: usize) -> String {
        if u < self.inputs {
            format!("input[{u}]")
        } else if u < self.inputs + self.scratch {
            format!("initial scratch[{}]", u - self.inputs)
        } else {
            format!("stale output[{}]", u - self.inputs - self.scratch)
        }
    }
}
pub struct Mismatch {
    pub unknown: Option<usize>,
    pub why: String,
}

/// Run `run` (library calls over `total` unknowns) over all answers to data-dependent comparisons (deviation bound 2
/// from each of the two default policies). A symbolic mismatch has to be confirmed on concrete data by `confirm`
/// (an assignment of all unknowns that follows this path) before it counts.
pub fn explore(total: usize, base: u64, st: &mut Stats, run: &mut dyn FnMut(&mut Stats) -> Option<Mismatch>, confirm: &mut dyn FnMut(&[f64], Option<usize>) -> Option<String>) -> Result<(), String> {
    // breadth first: no deviation, then one, then two. On the code as it is no
    // branch depends on the data, and there is one path; code that does branch
    // gets up to 600 paths per case, fewer once this process has spent long on it.
    use std::time::{Duration, Instant};
    thread_local!(static SPENT: std::cell::Cell<Duration> = const { std::cell::Cell::new(Duration::ZERO) });
    // the second of the two builds differs from the first in assertions only and repeats less of this
    static AGAIN: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let again = *AGAIN.get_or_init(|| std::env::var("MC_PREV").is_ok());
    let limit = match SPENT.with(|s| s.get().as_secs()) * if again { 4 } else { 1 } + if again { 20 } else { 0 } {
        0..=29 => 600,
        30..=59 => 120,
        60..=89 => 24,
        _ => 6,
    };
    let mut since: Option<Instant> = None;
    let mut todo: std::collections::VecDeque<(bool, Vec<bool>, usize)> = vec![(false, vec![], 0)].into();
    let mut paths = 0;
    let mut unconfirmed = 0;
    while let Some((policy, prefix, dev)) = todo.pop_front() {
        paths += 1;
        beat();
        arena().begin(total, policy, &prefix);
        let mm = run(st);
        let a = arena();
        st.trace();
        st.add("element_operations", a.ops);
        let mut h = base;
        for (x, _) in &a.trace {
            h = mix(h, 1 + *x as u64);
        }
        st.state(h);
        let tr: Vec<bool> = a.trace.iter().map(|t| t.0).collect();
        if let Some(mm) = mm {
            let mut confirmed = None;
            unconfirmed += 1;
            // a search for data that takes an infeasible path is a waste; the first few get the most
            let attempts = if limit < 600 { 20 } else if unconfirmed <= 2 { 2000 } else if unconfirmed <= 20 { 200 } else { 20 };
            for w in a.witnesses(mm.unknown, attempts) {
                beat();
                if let Some(x) = confirm(&w, mm.unknown) {
                    confirmed = Some(x);
                    break;
                }
            }
            match confirmed {
                Some(x) => return Err(format!("{}\n{x}", mm.why)),
                None => st.add("symbolic_mismatch_not_confirmed", 1),
            }
        }
        // data-dependent branches: enumerate the other answers
        if !tr.is_empty() {
            st.add("data_dependent_choice_points", tr.len() as u64);
            if paths == 1 {
                since = Some(Instant::now());
                todo.push_back((true, vec![], 0));
            }
            if dev < 2 {
                for i in prefix.len()..tr.len() {
                    if paths + todo.len() >= limit {
                        st.add("branch_paths_capped", 1);
                        break;
                    }
                    let mut p = tr[..i].to_vec();
                    p.push(!tr[i]);
                    todo.push_back((policy, p, dev + 1));
                }
            }
        }
    }
    if let Some(t) = since {
        SPENT.with(|s| s.set(s.get() + t.elapsed()));
    }
    Ok(())
}
/// one call shape with every input, scratch and stale output cell an unknown
pub fn lane_paths(
    plan: &Plan,
    sh: Shape,
    st: &mut Stats,
    check: &dyn Fn(&Arena, &[Lane], &Layout) -> Option<Mismatch>,
    confirm: &dyn Fn(&[f64], Option<usize>, &Layout) -> Option<String>,
) -> Result<(), String> {
    let d = try_build::<Lane>(plan)?;
    let n = plan.len();
    let s = if sh.m == Meth::P { 0 } else { scratch_len(&*d, sh.m) + sh.extra };
    let lay = Layout { n, inputs: n * sh.chunks, scratch: s, outputs: if sh.m == Meth::O { n * sh.chunks } else { 0 } };
    explore(
        lay.total(),
        hash(&format!("{plan} {}", sh.text())),
        st,
        &mut |st| {
            let a = arena();
            let mut b: Vec<Lane> = (0..lay.inputs).map(|i| a.unknown(i)).collect();
            let mut sc: Vec<Lane> = (0..lay.scratch).map(|i| a.unknown(lay.inputs + i)).collect();
            let mut o: Vec<Lane> = (0..lay.outputs).map(|i| a.unknown(lay.inputs + lay.scratch + i)).collect();
            st.call();
            match call(&*d, sh.m, &mut b, &mut o, &mut sc) {
                Err(e) => Some(Mismatch { unknown: None, why: format!("{} panicked on a correctly sized call: {e}", sh.m.name()) }),
                Ok(()) => check(arena(), if sh.m == Meth::O { &o } else { &b }, &lay),
            }
        },
        &mut |w, u| confirm(w, u, &lay),
    )
}

pub const TOL: f64 = 1e-9;

pub fn tol_concrete(x: &[f64]) -> f64 {
    let n = x.len() as f64;
    let norm = x.iter().map(|v| v * v).sum::<f64>().sqrt();
    1e-12 * (n.log2() + 2.0) * norm * if n > 65536.0 { 4.0 } else { 1.0 } + 1e-12
}

/// compare concrete output with the reference, chunk by chunk
pub fn compare_ref(n: usize, x: &[f64], y: &[f64], tolf: &dyn Fn(&[f64]) -> f64) -> Option<String> {
    for (j, (cx, cy)) in x.chunks(n).zip(y.chunks(n)).enumerate() {
        let r = reference(cx);
        let tol = tolf(cx);
        for k in 0..n {
            let e = (r[k] - cy[k]).abs();
            if !(e <= tol) {
                return Some(format!("chunk {j}, output {k}: got {:?}, the Hartley transform is {:?} (difference {e:e}, allowed {tol:e})", cy[k], r[k]));
            }
        }
    }
    None
}
pub fn show(v: &[f64]) -> String {
    if v.len() <= 48 {
        format!("{v:?}")
    } else {
        format!("{:?}.. ({} values)", &v[..16], v.len())
    }
}

/// value oracle on all basis inputs
pub fn lane_value(plan: &Plan, sh: Shape, st: &mut Stats) -> Result<(), String> {
    let n = plan.len();
    let t: Vec<f64> = (0..n).map(|i| cas(i, n)).collect();
    let check = |a: &Arena, out: &[Lane], lay: &Layout| -> Option<Mismatch> {
        for j in 0..out.len() / n {
            for k in 0..n {
                let mut f = a.form(out[j * n + k]);
                for i in 0..n {
                    f[j * n + i] -= t[i * k % n];
                }
                if a.has_eqs() {
                    a.reduce(&mut f);
                }
                let (u, e) = f.iter().enumerate().map(|(i, x)| (i, if x.is_nan() { f64::INFINITY } else { x.abs() })).fold((0, 0.0), |m, x| if x.1 > m.1 { x } else { m });
                if e > TOL {
                    let u = if u < lay.total() { Some(u) } else { None };
                    return Some(Mismatch { unknown: u, why: format!("output {k} of chunk {j} is not the Hartley transform: coefficient of {} is off by {e:e}", u.map(|u| lay.name(u)).unwrap_or("the constant term".into())) });
                }
            }
        }
        None
    };
    let confirm = |w: &[f64], u: Option<usize>, lay: &Layout| -> Option<String> {
        let d = try_build::<f64>(plan).ok()?;
        let nan = u.filter(|u| *u >= lay.inputs);
        for pass in 0..2 {
            if pass == 1 && nan.is_none() {
                break;
            }
            let g = |i: usize| if pass == 1 && Some(i) == nan { f64::NAN } else { w[i] };
            let x: Vec<f64> = w[..lay.inputs].to_vec();
            let mut s2 = Stats::default();
            match concrete(&*d, sh, &x, &|i| g(lay.inputs + i), &|i| g(lay.inputs + lay.scratch + i), &mut s2) {
                Err(e) => return Some(format!("{e}\ntransform: {}\ninput: {}", plan.rust(), show(&x))),
                Ok(y) => {
                    if let Some(m) = compare_ref(n, &x, &y, &|c| 1e-9 * (1.0 + c.iter().map(|v| v.abs()).sum::<f64>())) {
                        return Some(format!("{m}\ntransform: {} as f64, method {}, {} chunk(s), scratch {} longer than required\ninput: {}", plan.rust(), sh.m.name(), sh.chunks, sh.extra, show(&x)));
                    }
                }
            }
        }
        None
    };
    let r = lane_paths(plan, sh, st, &check, &confirm);
    if r.is_ok() {
        st.outcomes.insert(mix(hash("matrix"), n as u64 * 1000 + sh.chunks as u64));
        if st.samples.is_empty() {
            st.samples.push(format!("{plan} via {} ({} chunk(s)): all {} basis inputs at once, every scratch/output cell unknown; coefficient matrix equals cas(2*pi*i*k/{n})", sh.m.name(), sh.chunks, n * sh.chunks));
        }
    }
    r
}

/// every unit impulse, in f64, in place and out of place
pub fn impulses(plan: &Plan, st: &mut Stats) -> Result<(), String> {
    let n = plan.len();
    let d = try_build::<f64>(plan)?;
    let t: Vec<f64> = (0..n).map(|i| cas(i, n)).collect();
    let s1 = d.get_inplace_scratch_len();
    let s2 = d.get_outofplace_scratch_len();
    let mut sc = vec![f64::NAN; s1.max(s2)];
    let mut x = vec![0.0; n];
    let mut o = vec![0.0; n];
    for i in 0..n {
        for m in [Meth::S, Meth::O] {
            x.fill(0.0);
            x[i] = 1.0;
            o.fill(f64::NAN);
            sc.fill(f64::NAN);
            st.call();
            st.trace();
            let l = if m == Meth::S { s1 } else { s2 };
            call(&*d, m, &mut x, &mut o, &mut sc[..l]).map_err(|e| format!("{} panicked: {e}\ntransform: {}", m.name(), plan.rust()))?;
            let y = if m == Meth::S { &x } else { &o };
            let mut ik = 0;
            for k in 0..n {
                let e = (y[k] - t[ik]).abs();
                if !(e <= TOL) {
                    return Err(format!("unit impulse at {i}, output {k}: got {:?}, the Hartley transform is {:?}\ntransform: {} as f64, method {} (scratch and output pre-filled with NaN)", y[k], t[ik], plan.rust(), m.name()));
                }
                ik += i;
                if ik >= n {
                    ik -= n;
                }
            }
        }
        beat();
    }
    st.state(hash(&format!("imp {plan}")));
    st.add("impulse_inputs", n as u64);
    st.outcomes.insert(mix(hash("matrix"), n as u64 * 1000 + 1));
    Ok(())
}

pub fn dense_inputs(n: usize) -> Vec<(&'static str, Vec<f64>)> {
    vec![("generic dense vector", (0..n).map(generic).collect()), ("quadratic-phase vector", (0..n).map(|i| ((i as f64) * (i as f64) * 0.001_931_7 + 0.4).sin() + 0.05).collect())]
}
/// inputs with structure that data-dependent shortcuts could key on: (name, values, power of two to scale by)
pub fn structured(n: usize) -> Vec<(String, Vec<f64>, i32)> {
    let g = |i: usize| generic(i);
    let mut v: Vec<(String, Vec<f64>, i32)> = Vec::new();
    let mut add = |s: &str, f: &dyn Fn(usize) -> f64| v.push((s.into(), (0..n).map(f).collect(), 0));
    add("all zero", &|_| 0.0);
    add("all negative zero", &|_| -0.0);
    add("constant", &|_| 1.0);
    for m in [2usize, 3, 4, 5, 6] {
        for r in [0, m - 1] {
            add(&format!("zero where i % {m} == {r}"), &|i| if i % m == r { 0.0 } else { g(i) });
            add(&format!("zero where i % {m} != {r}"), &|i| if i % m == r { g(i) } else { 0.0 });
        }
    }
    add("first half zero", &|i| if 2 * i < n { 0.0 } else { g(i) });
    add("second half zero", &|i| if 2 * i >= n { 0.0 } else { g(i) });
    add("symmetric", &|i| g(i.min(n - i)));
    add("antisymmetric", &|i| if (2 * i) % n == 0 { 0.0 } else if 2 * i < n { g(i) } else { -g(n - i) });
    add("halves equal", &|i| g(i % (n / 2).max(1)));
    add("halves opposite", &|i| if 2 * i < n { g(i) } else { -g(i - (n + 1) / 2) });
    add("period 4", &|i| g(i % 4));
    add("alternating signs", &|i| if i % 2 == 0 { 1.0 } else { -1.0 });
    add("-1, 0, 1, ...", &|i| (i % 3) as f64 - 1.0);
    add("positive", &|i| g(i).abs());
    add("negative", &|i| -g(i).abs());
    add("ascending", &|i| i as f64 / n as f64);
    for z in [0, 1, n / 2, n - 1] {
        add(&format!("only element {z} zero"), &|i| if i == z { 0.0 } else { g(i) });
        add(&format!("only element {z} not zero"), &|i| if i == z { 1.25 } else { -0.0 });
    }
    let mut bal: Vec<f64> = (0..n).map(g).collect();
    let s: f64 = bal.iter().sum();
    bal[n - 1] -= s;
    v.push(("elements adding up to zero".into(), bal, 0));
    for e in [900, -900, 300, -300] {
        v.push((format!("generic times 2^{e}"), (0..n).map(g).collect(), e));
    }
    v
}
/// every structured input alone and all of them as one multi-chunk buffer, all methods
pub fn structs(plan: &Plan, st: &mut Stats) -> Result<(), String> {
    fn go<T: Elem>(plan: &Plan, st: &mut Stats, tolf: &dyn Fn(&[f64]) -> f64) -> Result<(), String> {
        let n = plan.len();
        let d = try_build::<T>(plan)?;
        let ins: Vec<(String, Vec<f64>, Vec<f64>, f64)> = structured(n)
            .into_iter()
            .map(|(s, x, e)| {
                let x: Vec<f64> = x.iter().map(|&v| T::of(v).val()).collect();
                // single precision has a smaller range
                let e = if T::EPS > 1e-10 { e / 10 } else { e };
                let r = reference(&x);
                (s, x, r, 2f64.powi(e))
            })
            .collect();
        let judge = |y: &[f64], q: usize, how: &str| -> Result<(), String> {
            let (name, x, r, sc) = &ins[q];
            let tol = tolf(x);
            for k in 0..n {
                let e = (y[k] / sc - r[k]).abs();
                if !(e <= tol) {
                    return Err(format!("output {k}: got {:?}, the Hartley transform is {:?}\ntransform: {} as {}, {how}, input: {name} {}", y[k], r[k] * sc, plan.rust(), T::NAME, show(x)));
                }
            }
            Ok(())
        };
        for (q, (_, x, _, sc)) in ins.iter().enumerate() {
            let x: Vec<f64> = x.iter().map(|v| v * sc).collect();
            for m in METHS {
                let y = concrete(&*d, Shape { m, chunks: 1, extra: 0 }, &x, &|_| f64::NAN, &|_| f64::NAN, st).map_err(|e| format!("{e}\ntransform: {}", plan.rust()))?;
                st.trace();
                judge(&y, q, m.name())?;
            }
            beat();
        }
        let x: Vec<f64> = ins.iter().flat_map(|(_, x, _, sc)| x.iter().map(move |v| v * sc)).collect();
        for m in METHS {
            let y = concrete(&*d, Shape { m, chunks: ins.len(), extra: 1 }, &x, &|_| f64::NAN, &|_| f64::NAN, st).map_err(|e| format!("{e}\ntransform: {}", plan.rust()))?;
            st.trace();
            for q in 0..ins.len() {
                judge(&y[q * n..(q + 1) * n], q, &format!("{}, chunk {q} of a buffer of {} chunks", m.name(), ins.len()))?;
            }
        }
        Ok(())
    }
    let amp = 4f64.powi(plan.raders() as i32);
    go::<f64>(plan, st, &|x| tol_concrete(x) * amp * 4.0)?;
    if plan.len() <= 512 {
        go::<f32>(plan, st, &|x| tol_concrete(x) * 1e-12f64.recip() * 1e-4 * amp)?;
    }
    st.state(hash(&format!("struct {plan}")));
    Ok(())
}
fn dense_t<T: Elem>(plan: &Plan, st: &mut Stats, meths: &[Meth], tolf: &dyn Fn(&[f64]) -> f64) -> Result<(), String> {
    let n = plan.len();
    let d = try_build::<T>(plan)?;
    for (name, x) in dense_inputs(n) {
        let x: Vec<f64> = x.iter().map(|&v| T::of(v).val()).collect();
        let r = reference(&x);
        let tol = tolf(&x);
        for &m in meths {
            beat();
            let y = concrete(&*d, Shape { m, chunks: 1, extra: 0 }, &x, &|_| f64::NAN, &|_| f64::NAN, st).map_err(|e| format!("{e}\ntransform: {}", plan.rust()))?;
            st.trace();
            for k in 0..n {
                let e = (r[k] - y[k]).abs();
                if !(e <= tol) {
                    return Err(format!(
                        "output {k}: got {:?}, the Hartley transform is {:?} (difference {e:e}, allowed {tol:e})\ntransform: {} as {}, method {}, input: {name} {}",
                        y[k],
                        r[k],
                        plan.rust(),
                        T::NAME,
                        m.name(),
                        show(&x)
                    ));
                }
            }
        }
    }
    Ok(())
}
/// fixed dense inputs, f64 (all methods) and f32
pub fn dense(plan: &Plan, st: &mut Stats) -> Result<(), String> {
    let n = plan.len();
    let amp = 4f64.powi(plan.raders() as i32);
    dense_t::<f64>(plan, st, &METHS, &|x| tol_concrete(x) * amp)?;
    if n <= 4096 {
        dense_t::<f32>(plan, st, &[Meth::S, Meth::O], &|x| tol_concrete(x) * 1e-12f64.recip() * 1e-4 * amp)?;
    }
    // user-defined element types that look nothing like floats in memory
    if n <= 128 || (n <= 8192 && n % 16 == 0) {
        dense_t::<Xr>(plan, st, &METHS, &|x| tol_concrete(x) * amp)?;
        dense_t::<Xr4>(plan, st, &[Meth::S, Meth::O], &|x| tol_concrete(x) * 1e-12f64.recip() * 1e-4 * amp)?;
        dense_t::<Wide>(plan, st, &METHS, &|x| tol_concrete(x) * amp)?;
    }
    st.state(hash(&format!("dense {plan}")));
    st.max("max_length", n as u64);
    st.outcomes.insert(mix(hash("dense"), n as u64));
    Ok(())
}
/// small value alphabet, all vectors of length <= 6, vectors with at most 2 departures from a constant background beyond
pub fn values(plan: &Plan, st: &mut Stats) -> Result<(), String> {
    let n = plan.len();
    let al = [0.0, 1.0, -1.0, 2.5];
    let mut vecs: Vec<Vec<f64>> = Vec::new();
    if n <= 6 {
        for code in 0..(al.len() as u64).pow(n as u32) {
            let mut c = code;
            vecs.push(
                (0..n)
                    .map(|_| {
                        let v = al[(c % 4) as usize];
                        c /= 4;
                        v
                    })
                    .collect(),
            );
        }
    } else {
        for bg in al {
            vecs.push(vec![bg; n]);
            for i in 0..n {
                for a in al {
                    if a != bg {
                        let mut v = vec![bg; n];
                        v[i] = a;
                        vecs.push(v.clone());
                        if n <= 40 {
                            for j in 0..i {
                                for b in al {
                                    if b != bg {
                                        let mut u = v.clone();
                                        u[j] = b;
                                        vecs.push(u);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    fn go<T: Elem>(plan: &Plan, vecs: &[Vec<f64>], st: &mut Stats, t: &[f64], tolf: f64) -> Result<(), String> {
        let n = plan.len();
        let d = try_build::<T>(plan)?;
        for (q, x) in vecs.iter().enumerate() {
            if q % 256 == 0 {
                beat();
            }
            let m = if q % 2 == 0 { Meth::S } else { Meth::O };
            let y = concrete(&*d, Shape { m, chunks: 1, extra: 0 }, x, &|_| f64::NAN, &|_| f64::NAN, st)?;
            st.trace();
            let nz: Vec<usize> = (0..n).filter(|&i| x[i] != 0.0).collect();
            let tol = tolf * (1.0 + 2.5 * nz.len() as f64);
            for k in 0..n {
                let r: f64 = nz.iter().map(|&i| x[i] * t[i * k % n]).sum();
                if !((r - y[k]).abs() <= tol) {
                    return Err(format!("output {k}: got {:?}, the Hartley transform is {r:?}\ntransform: {} as {}, method {}, input {}", y[k], plan.rust(), T::NAME, m.name(), show(x)));
                }
            }
        }
        Ok(())
    }
    let t: Vec<f64> = (0..n).map(|i| cas(i, n)).collect();
    go::<f64>(plan, &vecs, st, &t, 1e-10)?;
    go::<f32>(plan, &vecs, st, &t, 1e-4)?;
    st.add("value_alphabet_vectors", vecs.len() as u64);
    st.state(hash(&format!("values {plan}")));
    Ok(())
}

/// dispatcher shared by the value properties
pub fn exec_value(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let plan = parse(f[1]);
    match f[0] {
        "lane" => lane_value(&plan, Shape::parse(&f[2..]), st),
        "imp" => impulses(&plan, st),
        "dense" => dense(&plan, st),
        // very long transforms: one dense input
        "big" => {
            let n = plan.len();
            let d = try_build::<f64>(&plan)?;
            let (name, x) = dense_inputs(n).swap_remove(0);
            st.state(hash(case));
            st.max("max_length", n as u64);
            let r = reference(&x);
            let tol = tol_concrete(&x) * 20.0;
            for m in [Meth::S, Meth::O] {
                if m == Meth::O && matches!(plan, Plan::N(_)) {
                    break;
                }
                beat();
                let y = concrete(&*d, Shape { m, chunks: 1, extra: 0 }, &x, &|_| f64::NAN, &|_| f64::NAN, st).map_err(|e| format!("{e}\ntransform: {}", plan.rust()))?;
                st.trace();
                if let Some(k) = (0..n).find(|&k| !((y[k] - r[k]).abs() <= tol)) {
                    return Err(format!("output {k}: got {:?}, the Hartley transform is {:?}\ntransform: {} as f64, method {}, input: {name}", y[k], r[k], plan.rust(), m.name()));
                }
            }
            Ok(())
        }
        // share <plan> <k>: equal inner transforms are one object, each with k further owners
        "share" => {
            let k: usize = f[2].parse().unwrap();
            let mut memo = Memo::<f64>::new();
            let d = guard(|| build_memo::<f64>(&plan, &mut memo)).map_err(|e| format!("construction panicked: {e}\ntransform: {}", plan.rust()))?;
            let owners: Vec<Arc<dyn Dht<f64>>> = memo.values().flat_map(|d| (0..k).map(|_| d.clone())).collect();
            let weak: Vec<_> = if k % 2 == 1 { owners.iter().map(Arc::downgrade).collect() } else { vec![] };
            let n = plan.len();
            let amp = 4f64.powi(plan.raders() as i32);
            for (name, x) in dense_inputs(n) {
                let r = reference(&x);
                let tol = tol_concrete(&x) * amp;
                for m in METHS {
                    let y = concrete(&*d, Shape { m, chunks: 1, extra: 0 }, &x, &|_| f64::NAN, &|_| f64::NAN, st)?;
                    st.trace();
                    if let Some(i) = (0..n).find(|&i| !((y[i] - r[i]).abs() <= tol)) {
                        return Err(format!("output {i}: got {:?}, the Hartley transform is {:?}\ntransform: {} with each inner transform shared by {k} further owners, method {}, input: {name}", y[i], r[i], plan.rust(), m.name()));
                    }
                }
            }
            drop((owners, weak));
            beat();
            st.state(hash(case));
            Ok(())
        }
        "vals" => values(&plan, st),
        "struct" => structs(&plan, st),
        x => panic!("HARNESS: case kind {x}"),
    }
}
