//! C17-C20: reproducibility, memory use, cost, length zero.
use super::methods::*;
use super::*;
use crate::child;
use crate::efence;
use crate::hk::{self, Hk};
use crate::lane::generic;
use crate::plan::Plan::*;
use rustdht::Dht;
use rustfft::Length;
use std::cell::Cell;
use std::sync::Arc;

fn plans(full: usize, long: usize) -> Vec<Plan> {
    let mut v = small_plans(full, full.min(16));
    v.extend(long_plans(long).into_iter().filter(|p| p.len() <= 9000));
    let mut s = std::collections::HashSet::new();
    v.retain(|p| s.insert(p.clone()));
    v
}

// ------------------------------------------------------------------------------------------------- C17
fn bits<T: Elem>(v: &[T]) -> Vec<u64> {
    v.iter().map(|x| x.val().to_bits()).collect()
}
#[derive(Clone, Copy)]
struct Place {
    b: usize,
    o: usize,
    s: usize,
}
/// one call with everything about it chosen: returns the bits of the result
fn placed<T: Elem>(d: &dyn Dht<T>, m: Meth, pl: Place, extra: usize, fill: f64, x: &[f64], st: &mut Stats) -> Result<Vec<u64>, String> {
    st.call();
    let s = if m == Meth::P { 0 } else { scratch_len(d, m) + extra };
    let mut b = Placed::new(x.len(), pl.b, T::of(0.0), |i| T::of(x[i]));
    let mut o = Placed::new(if m == Meth::O { x.len() } else { 0 }, pl.o, T::of(0.0), |_| T::of(fill));
    let mut sc = Placed::new(s, pl.s, T::of(0.0), |_| T::of(fill));
    call(d, m, b.s(), o.s(), sc.s())?;
    Ok(bits(if m == Meth::O { o.s() } else { b.s() }))
}
fn repro<T: Elem>(plan: &Plan, all: bool, st: &mut Stats) -> Result<(), String> {
    let n = plan.len();
    let d = try_build::<T>(plan)?;
    let x: Vec<f64> = (0..n).map(generic).collect();
    let per = 64 / std::mem::size_of::<T>();
    let z = Place { b: 0, o: 0, s: 0 };
    let chk = |got: Result<Vec<u64>, String>, want: &[u64], how: String, m: Meth| -> Result<(), String> {
        let got = got.map_err(|e| format!("{e}\ntransform: {}, method {}, {how}", plan.rust(), m.name()))?;
        match (0..n).find(|&k| got[k] != want[k]) {
            Some(k) => Err(format!(
                "element {k} of the result is {:?} (bits {:#x}), but {:?} (bits {:#x}) {how}\ntransform: {} as {}, method {}, input {}",
                f64::from_bits(want[k]),
                want[k],
                f64::from_bits(got[k]),
                got[k],
                plan.rust(),
                T::NAME,
                m.name(),
                show(&x)
            )),
            None => Ok(()),
        }
    };
    for m in METHS {
        let want = placed(&*d, m, z, 0, 0.0, &x, st).map_err(|e| format!("{e}\ntransform: {}", plan.rust()))?;
        // placement
        let offs: Vec<usize> = if all { (0..per).collect() } else { vec![0, 1, 2, per / 2, per - 1] };
        for &b in &offs {
            for &o in if m == Meth::O { &offs[..] } else { &[0][..] } {
                for &s in if m == Meth::P { &[0][..] } else { &offs[..] } {
                    let pl = Place { b, o, s };
                    st.trace();
                    chk(placed(&*d, m, pl, 0, 0.0, &x, st), &want, format!("when the buffer starts {b}, the output {o} and the scratch {s} elements after a 64-byte boundary"), m)?;
                }
            }
        }
        // and where in its page
        let pages: Vec<usize> = if all || n <= 100 { (0..8).collect() } else { vec![0, 1, 3] };
        for &b in &pages {
            for &o in if m == Meth::O { &pages[..] } else { &[0][..] } {
                for &s in if m == Meth::P { &[0][..] } else { &pages[..] } {
                    st.trace();
                    chk(placed(&*d, m, Place { b: b * per, o: o * per, s: s * per }, 0, 0.0, &x, st), &want, format!("when the buffer starts {}, the output {} and the scratch {} bytes after a page boundary", COARSE[b], COARSE[o], COARSE[s]), m)?;
                }
            }
        }
        beat();
        // scratch size and contents
        if m != Meth::P {
            for e in [1, 2, 7, n, 2 * n + 1, 4096, 8192 + n] {
                for f in [0.0, -1.5, f64::NAN] {
                    st.trace();
                    chk(placed(&*d, m, z, e, f, &x, st), &want, format!("with scratch {e} longer than required, filled with {f:?}"), m)?;
                }
            }
        }
        // position among chunks
        let counts: Vec<usize> = if n <= 64 { (2..=9).chain([16, 17, 33]).collect() } else { vec![2, 3, 4] };
        for c in counts {
            for j in 0..c {
                for same in [true, false] {
                    let y: Vec<f64> = (0..n * c).map(|i| if same || i / n == j { x[i % n] } else { generic(i + 5) * 3.0 }).collect();
                    st.trace();
                    let r = placed(&*d, m, Place { b: c % per, o: 0, s: j % per }, 0, 0.0, &y, st).map(|r| r[j * n..(j + 1) * n].to_vec());
                    chk(r, &want, format!("as chunk {j} of {c}, the others {}", if same { "equal" } else { "different" }), m)?;
                }
            }
        }
        // the same call again, on another instance, on another thread
        let e = try_build::<T>(plan)?;
        chk(placed(&*e, m, z, 0, 0.0, &x, st), &want, "on another instance".into(), m)?;
        for _ in 0..3 {
            chk(placed(&*d, m, z, 0, 0.0, &x, st), &want, "when called again".into(), m)?;
        }
        let (d2, x2, mut s2) = (d.clone(), x.clone(), Stats::default());
        let r = std::thread::spawn(move || placed(&*d2, m, z, 0, 0.0, &x2, &mut s2)).join().expect("HARNESS: thread");
        chk(r, &want, "on another thread".into(), m)?;
        let (p2, x2, mut s2) = (plan.clone(), x.clone(), Stats::default());
        let r = std::thread::spawn(move || placed(&*build::<T>(&p2), m, z, 0, 0.0, &x2, &mut s2)).join().expect("HARNESS: thread");
        chk(r, &want, "on another thread, constructed there".into(), m)?;
        drop(e);
        beat();
    }
    Ok(())
}
fn repro_case(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let p = parse(f[2]);
    match f[1] {
        "f32" => repro::<f32>(&p, f[0] == "all", st)?,
        _ => repro::<f64>(&p, f[0] == "all", st)?,
    }
    st.state(hash(case));
    st.outcomes.insert(hash(case));
    if st.samples.is_empty() {
        st.samples.push(format!("{case}: one bit pattern for every placement, scratch size, chunk position, instance and thread"));
    }
    Ok(())
}
pub fn c17() -> Prop {
    Prop {
        id: "C17",
        cases: |th| {
            let mut v = Vec::new();
            for p in plans(if th { 40 } else { 24 }, if th { 1500 } else { 400 }) {
                let all = p.len() <= if th { 64 } else { 32 };
                for t in ["f64", "f32"] {
                    v.push(format!("{} {t} {p}", if all { "all" } else { "some" }));
                }
            }
            for p in super::methods::far_plans(if th { 140_000 } else { 9000 }) {
                v.push(format!("some f64 {p}"));
                if th || p.len() <= 2100 {
                    v.push(format!("some f32 {p}"));
                }
            }
            uniq(v)
        },
        exec: repro_case,
        rule: "one case = one transform in one element type: all placements of the three buffers within 64 bytes, scratch sizes, chunk positions, instances, threads, all methods; results compared bit for bit",
        bounds: |th| {
            format!(
                "all plans of depth <= 1 to length {} (depth <= 2 to 16) with every combination of buffer/output/scratch placement (8^3 in double, 16^3 in single precision), every algorithm and realistic plans to length {} with selected placements, selected lengths further out, placements across pages; up to 33 chunks, every position",
                if th { 40 } else { 24 },
                if th { 1500 } else { 400 }
            )
        },
        assumptions: &["methods are not compared with each other (see C06)", "one input vector per length"],
        hang_s: 120,
    }
}

// ------------------------------------------------------------------------------------------------- C18
/// made of this library's transforms only
fn own(p: &Plan) -> bool {
    match p {
        F(_) | M(..) => false,
        MR(a, b) | SR(a, b) => own(a) && own(b),
        X(_, a) | RA(a) => own(a),
        _ => true,
    }
}
/// user-written inner transform that never allocates (values do not matter here)
struct Still(usize, usize, usize);
impl<T: Elem> Dht<T> for Still {
    fn process_with_scratch(&self, b: &mut [T], _: &mut [T]) {
        b.reverse();
    }
    fn process_outofplace_with_scratch(&self, b: &mut [T], o: &mut [T], _: &mut [T]) {
        o.copy_from_slice(b);
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.1
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.2
    }
}
impl Length for Still {
    fn len(&self) -> usize {
        self.0
    }
}
/// the plan with reference transforms replaced by `Still` ones of the given scratch demands
fn over_still<T: Elem>(p: &Plan, a: usize, b: usize) -> Result<Arc<dyn Dht<T>>, String> {
    guard(|| node::<T>(p, &mut |k| Arc::new(Still(k.len(), a, b))))
}
fn alloc_case(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let plan = parse(f[1]);
    fn quiet<T: Elem>(plan: &Plan, st: &mut Stats) -> Result<(), String> {
        if own(plan) {
            return observe::<T>(plan, try_build::<T>(plan)?, st);
        }
        let n = plan.len();
        for (a, b) in [(0, 0), (n, 0), (0, n), (3 * n + 1, 2 * n + 1)] {
            observe::<T>(plan, over_still::<T>(plan, a, b)?, st)?;
        }
        Ok(())
    }
    fn observe<T: Elem>(plan: &Plan, d: Arc<dyn Dht<T>>, st: &mut Stats) -> Result<(), String> {
        let n = plan.len();
        let z = std::mem::size_of::<T>();
        for chunks in [1usize, 2, 3, 9] {
            if chunks > 3 && n > 300 || chunks > 1 && n > 4000 {
                continue;
            }
            for m in METHS {
                for extra in [0, 1, n] {
                    if m == Meth::P && extra > 0 {
                        continue;
                    }
                    let mut x: Vec<T> = (0..n * chunks).map(|i| T::of(generic(i))).collect();
                    let mut o: Vec<T> = vec![T::of(0.0); if m == Meth::O { n * chunks } else { 0 }];
                    let mut s: Vec<T> = vec![T::of(0.0); scratch_len(&*d, m) + extra];
                    for round in 0..2 {
                        st.call();
                        let (r, allocs, bytes, left) = efence::watch(|| call(&*d, m, &mut x, &mut o, &mut s));
                        r.map_err(|e| format!("{} panicked on a correctly sized call: {e}\ntransform: {}", m.name(), plan.rust()))?;
                        st.trace();
                        let what = || format!("transform: {} as {}, method {}, {chunks} chunk(s), call {round}", plan.rust(), T::NAME, m.name());
                        if m != Meth::P && allocs > 0 {
                            return Err(format!("a call with caller-supplied scratch made {allocs} heap allocation(s), {bytes} bytes\n{}", what()));
                        }
                        if m == Meth::P && bytes > d.get_inplace_scratch_len() * z {
                            return Err(format!("{bytes} bytes in {allocs} heap allocation(s), but the advertised scratch is {} bytes\n{}", d.get_inplace_scratch_len() * z, what()));
                        }
                        if left != 0 {
                            return Err(format!("{left} bytes more in use after the call than before\n{}", what()));
                        }
                        st.outcomes.insert(mix(m as u64, allocs as u64));
                    }
                }
            }
        }
        Ok(())
    }
    // construct, use in every way (accepted, rejected, interrupted), drop: memory in use must not grow from round to round
    fn leak<T: Elem>(plan: &Plan, inj: bool, light: bool, st: &mut Stats) -> Result<(), String> {
        let n = plan.len();
        let uses: &[(usize, usize, isize)] = if light { &[(n, n, 0), (n + 1, n + 1, 0)] } else { &[(n, n, 0), (2 * n, 2 * n, 3), (n + 1, n + 1, 0), (n, n + 1, 0), (n, n, -1), (0, 0, 0)] };
        let round = || {
            let d = match try_build::<T>(plan) {
                Ok(d) => d,
                Err(_) => return,
            };
            for m in METHS {
                for &(l, lo, ds) in uses {
                    let mut x: Vec<T> = (0..l).map(|i| T::of(generic(i))).collect();
                    let mut o: Vec<T> = vec![T::of(0.0); lo];
                    let mut s: Vec<T> = vec![T::of(0.0); (scratch_len(&*d, m) as isize + ds).max(0) as usize];
                    let _ = call(&*d, m, &mut x, &mut o, &mut s);
                    if inj && l == n && lo == n {
                        let mut k = 0;
                        loop {
                            hk::set_mode(2, k);
                            let r = call(&*d, m, &mut x, &mut o, &mut s);
                            hk::set_mode(0, 0);
                            if r.is_ok() || k > 400 {
                                break;
                            }
                            k += 1 + k / 16;
                        }
                    }
                }
            }
            beat();
        };
        // bounded caches may fill up in the first rounds
        for _ in 0..2 {
            round();
        }
        let mut grew = 0;
        let mut left = 0;
        for _ in 0..4 {
            st.call();
            let ((), _, _, l) = efence::watch(round);
            if l > 0 {
                grew += 1;
                left = l;
            }
        }
        st.trace();
        if grew == 4 {
            return Err(format!("every round of constructing, using (accepted, rejected{} calls) and dropping {} as {} leaves more memory in use, {left} bytes in the last one", if inj { " and interrupted" } else { "" }, plan.rust(), T::NAME));
        }
        // a bad construction
        Ok(())
    }
    match f[0] {
        "quiet" => {
            quiet::<f64>(&plan, st)?;
            quiet::<f32>(&plan, st)?;
        }
        "leak" => {
            leak::<f64>(&plan, false, false, st)?;
            leak::<f32>(&plan, false, false, st)?;
            leak::<Hk>(&plan, plan.len() <= 40, false, st)?;
        }
        "long" => {
            leak::<f64>(&plan, false, true, st)?;
            leak::<f32>(&plan, false, true, st)?;
        }
        _ => panic!("HARNESS: {case}"),
    }
    st.state(hash(case));
    if st.samples.is_empty() {
        st.samples.push(format!("{case}: no allocation during calls with caller-supplied scratch, none beyond the advertised scratch otherwise, nothing left over"));
    }
    Ok(())
}
pub fn c18() -> Prop {
    Prop {
        id: "C18",
        cases: |th| {
            let mut v = Vec::new();
            let q = plans(if th { 60 } else { 40 }, if th { 3000 } else { 1000 }).into_iter().chain((41..=if th { 4000 } else { 1200 }).flat_map(|n| (0..4).map(move |s| auto(n, s))));
            for p in q.filter(own) {
                v.push(format!("quiet {p}"));
            }
            for h in (1..=if th { 3000 } else { 600 }).chain([1000, 1024, 2048, 4096, 10000]) {
                for k in 2..=6 {
                    v.push(format!("quiet {}", x(k, F(h))));
                }
                v.push(format!("quiet {}", sr(F(h), F(2 * h))));
                if is_prime(h) {
                    v.push(format!("quiet {}", ra(F(h - 1))));
                }
            }
            for w in 1..=if th { 80 } else { 40 } {
                for h in 1..=if th { 80 } else { 40 } {
                    v.push(format!("quiet {}", mr(F(w), F(h))));
                }
            }
            for e in 0..=if th { 18 } else { 14 } {
                v.push(format!("quiet {}", R4(1 << e)));
            }
            for p in super::methods::far_plans(140_000) {
                v.push(format!("quiet {p}"));
            }
            let q = plans(if th { 40 } else { 20 }, if th { 600 } else { 150 }).into_iter().chain((21..=if th { 600 } else { 150 }).flat_map(|n| (0..4).map(move |s| auto(n, s))));
            for p in q.filter(own) {
                v.push(format!("leak {p}"));
            }
            for p in super::methods::far_plans(140_000).into_iter().chain((18..=if th { 21 } else { 20 }).map(|e| R4(1 << e))) {
                v.push(format!("long {p}"));
            }
            uniq(v)
        },
        exec: alloc_case,
        rule: "one case = one transform: every accepted call observed by a counting allocator; or rounds of construct, use (accepted, rejected, interrupted at element operations), drop",
        bounds: |th| {
            format!(
                "every plan of depth <= 1 to length {}, every algorithm over non-allocating inner transforms (four scratch demands) and realistic plans to length {}, 1-9 chunks, exact and longer scratch, f64 and f32; growth over rounds: plans to length {} and every algorithm at selected lengths to 140000 (Radix4 to 2^20); every algorithm at selected lengths to 140000",
                if th { 60 } else { 40 },
                if th { 3000 } else { 1000 },
                if th { 600 } else { 150 }
            )
        },
        assumptions: &["user-written inner transforms do not allocate (the reference transforms used at longer lengths do; they are left out)", "memory retained in bounded caches is not growth"],
        hang_s: 120,
    }
}

// ------------------------------------------------------------------------------------------------- C19
thread_local! {
    static CHUNKS: Cell<u64> = const { Cell::new(0) };
}
/// user-written inner transform that counts the points it was asked to transform, and costs nothing
struct Tally(usize);
impl Dht<Hk> for Tally {
    fn process_with_scratch(&self, b: &mut [Hk], _: &mut [Hk]) {
        CHUNKS.with(|c| c.set(c.get() + b.len() as u64));
    }
    fn process_outofplace_with_scratch(&self, b: &mut [Hk], o: &mut [Hk], _: &mut [Hk]) {
        CHUNKS.with(|c| c.set(c.get() + b.len() as u64));
        o.copy_from_slice(b);
    }
    fn get_inplace_scratch_len(&self) -> usize {
        0
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        0
    }
}
impl Length for Tally {
    fn len(&self) -> usize {
        self.0
    }
}
/// (element operations per call, points passed to inner transforms per call) allowed
fn allowed(p: &Plan) -> (f64, f64) {
    let n = p.len() as f64;
    let lg = n.log2().max(1.0);
    match p {
        N(_) => (3.5 * n * n + 4.0 * n, 0.0),
        B(k) => (([0, 1, 4, 16, 16, 52, 58, 0, 48, 112, 0, 0, 0, 0, 0, 0, 152][*k]) as f64, 0.0),
        R4(_) => (4.5 * n * lg + 16.0, 0.0),
        MR(..) => (8.0 * n + 16.0, 2.0 * n),
        X(k, _) => ([0.0, 0.0, 6.0, 13.0, 10.5, 22.0, 21.0][*k] * n, n),
        SR(..) => (7.5 * n, n),
        RA(_) => (6.0 * n + 8.0, 2.0 * (n - 1.0)),
        _ => (0.0, 0.0),
    }
}
fn tally(p: &Plan) -> Arc<dyn Dht<Hk>> {
    node::<Hk>(p, &mut |k| Arc::new(Tally(k.len())))
}
fn cost_case(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let p = parse(f[1]);
    let n = p.len();
    match f[0] {
        "node" => {
            let d = guard(|| tally(&p)).map_err(|e| format!("constructing panicked: {e}\n{}", p.rust()))?;
            let (ops, pts) = allowed(&p);
            for m in METHS {
                for chunks in [1usize, 2, 3, 4, 5, 8, 16, 17, 32, 33, 64, 65, 128, 256, 1024, 1025] {
                    if chunks > 2 && n > 600 || chunks > 5 && n > 40 || chunks > 65 && n > 16 {
                        continue;
                    }
                    for kind in 0..3 {
                        let mut x: Vec<Hk> = (0..n * chunks).map(|i| Hk([generic(i), 0.0, f64::NAN][kind])).collect();
                        let mut o = vec![Hk(0.0); if m == Meth::O { n * chunks } else { 0 }];
                        let mut s = vec![Hk(0.0); scratch_len(&*d, m)];
                        CHUNKS.with(|c| c.set(0));
                        hk::set_mode(1, 0);
                        let r = call(&*d, m, &mut x, &mut o, &mut s);
                        let c = hk::count();
                        hk::set_mode(0, 0);
                        let q = CHUNKS.with(|c| c.get());
                        st.call();
                        st.trace();
                        r.map_err(|e| format!("{} panicked: {e}\n{}", m.name(), p.rust()))?;
                        let w = c as f64 / chunks as f64 / ops.max(1.0);
                        st.max("max_permille_of_operation_bound", (w * 1000.0) as u64);
                        if std::env::var("MC_MEASURE").is_ok() && kind == 0 && chunks == 1 {
                            println!("M {} {n} {} ops {c} per {:.3} bound {:.3} pts {q} of {pts}", p.alg(), m.s(), c as f64 / n as f64, w);
                        }
                        let what = || format!("transform: {}, method {}, {chunks} chunk(s), {} data", p.rust(), m.name(), ["ordinary", "zero", "NaN"][kind]);
                        if c as f64 > ops * chunks as f64 {
                            return Err(format!("{c} element operations (inner transforms not counted), more than {} per chunk of length {n}\n{}", ops as u64, what()));
                        }
                        if q as f64 > pts * chunks as f64 {
                            return Err(format!("{q} points passed through inner transforms, more than {} per chunk of length {n}\n{}", pts as u64, what()));
                        }
                        st.outcomes.insert(mix(mix(hash(p.alg()), n as u64), c));
                    }
                }
            }
        }
        // whole plans: total operations follow n times the sum of its radices
        "plan" => {
            fn bound(p: &Plan) -> f64 {
                let n = p.len() as f64;
                let (ops, _) = allowed(p);
                ops + match p {
                    MR(a, b) => n / a.len() as f64 * bound(a) + n / b.len() as f64 * bound(b),
                    X(k, a) => *k as f64 * bound(a),
                    SR(a, b) => 2.0 * bound(a) + bound(b),
                    RA(a) => 2.0 * bound(a),
                    _ => 0.0,
                }
            }
            let d = try_build::<Hk>(&p)?;
            for m in METHS {
                let mut x: Vec<Hk> = (0..n).map(|i| Hk(generic(i))).collect();
                let mut o = vec![Hk(0.0); if m == Meth::O { n } else { 0 }];
                let mut s = vec![Hk(0.0); scratch_len(&*d, m)];
                hk::set_mode(1, 0);
                let r = call(&*d, m, &mut x, &mut o, &mut s);
                let c = hk::count();
                hk::set_mode(0, 0);
                beat();
                st.call();
                st.trace();
                r.map_err(|e| format!("{} panicked: {e}\n{}", m.name(), p.rust()))?;
                if c as f64 > bound(&p) {
                    return Err(format!("{c} element operations for one transform of length {n}, allowed {}\ntransform: {}, method {}", bound(&p) as u64, p.rust(), m.name()));
                }
                st.outcomes.insert(mix(hash(f[1]), c));
            }
        }
        _ => panic!("HARNESS: {case}"),
    }
    st.state(hash(case));
    if st.samples.is_empty() {
        st.samples.push(format!("{case}: element operations and inner-transform points of every method within the bound"));
    }
    Ok(())
}
pub fn c19() -> Prop {
    Prop {
        id: "C19",
        cases: |th| {
            let mut v = Vec::new();
            let mut add = |p: Plan| v.push(format!("node {p}"));
            for b in BF {
                add(B(b));
            }
            for n in 1..=if th { 800 } else { 300 } {
                add(N(n));
            }
            for e in 0..=if th { 20 } else { 17 } {
                add(R4(1 << e));
            }
            for h in (1..=if th { 3000 } else { 1000 }).chain([2048, 4096, 8192, 10000, 16384]) {
                for k in 2..=6 {
                    add(x(k, F(h)));
                }
                add(sr(F(h), F(2 * h)));
                if is_prime(h) {
                    add(ra(F(h - 1)));
                }
            }
            for w in 1..=if th { 120 } else { 60 } {
                for h in 1..=if th { 120 } else { 60 } {
                    add(mr(F(w), F(h)));
                }
            }
            for (w, h) in [(2, 4096), (4096, 2), (128, 128), (100, 200), (255, 257), (512, 64)] {
                add(mr(F(w), F(h)));
            }
            for p in [10007usize, 16381, 32771, 65537, 65521] {
                add(ra(F(p - 1)));
            }
            for p in super::methods::far_plans(140_000) {
                match p {
                    N(_) | R4(_) => add(p),
                    MR(..) | X(..) | SR(..) | RA(_) if p.depth() == 1 && p.to_string().contains('F') => add(p),
                    _ => {}
                }
            }
            for n in (1..=if th { 4000 } else { 1500 }).chain([2000, 2048, 3125, 4096, 4097, 6561, 8191, 8192, 10000, 16384, 16385, 32768, 46656, 65536, 65537, 131072]) {
                for s in 0..4 {
                    v.push(format!("plan {}", auto(n, s)));
                }
            }
            uniq(v)
        },
        exec: cost_case,
        rule: "one case = one algorithm over counting inner transforms (or one whole plan); element operations and points handed to inner transforms are counted in every method",
        bounds: |th| {
            format!(
                "every fixed size, direct to {}, radix-4 to 2^{}, kxN and split radix for every h <= {}, all primes to {}, mixed radix for all w,h <= {}; four realistic plans for every length <= {}; every algorithm at selected lengths to 140000",
                if th { 800 } else { 300 },
                if th { 20 } else { 17 },
                if th { 3000 } else { 1000 },
                if th { 3000 } else { 1000 },
                if th { 120 } else { 60 },
                if th { 4000 } else { 1500 }
            )
        },
        assumptions: &["cost is counted in element operations (additions, multiplications, comparisons, conversions) and points passed to inner transforms; data movement and time are not measured", "the constants allow about twice what the verified tree uses"],
        hang_s: 60,
    }
}

// ------------------------------------------------------------------------------------------------- C20
fn zero_case(case: &str, st: &mut Stats) -> Result<(), String> {
    let p = parse(case);
    fn go<T: Elem>(p: &Plan, st: &mut Stats) -> Result<(), String> {
        let d = try_build::<T>(p)?;
        if d.len() != 0 {
            return Err(format!("{} reports length {} instead of 0", p.rust(), d.len()));
        }
        let (si, so) = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
        for m in METHS {
            for l in [0usize, 1, 2, 7, 64, 300, 1025, 2100] {
                for lo in [0usize, 1, 2, 7, 64, 300, 1025, 2100] {
                    for s in [0, 1, si, so, 70, 320, 1100, 4097] {
                        if m != Meth::O && lo != 0 || m == Meth::P && s != 0 {
                            continue;
                        }
                        let mut x: Vec<T> = (0..l).map(|i| T::of(generic(i))).collect();
                        let mut o: Vec<T> = (0..lo).map(|i| T::of(generic(i + 9))).collect();
                        let mut sc: Vec<T> = (0..s).map(|i| T::of(generic(i + 5))).collect();
                        let (x0, o0) = (bits(&x), bits(&o));
                        st.call();
                        st.trace();
                        let what = || format!("transform: {} as {} (length 0), method {}, buffer length {l}, output length {lo}, scratch length {s}", p.rust(), T::NAME, m.name());
                        call(&*d, m, &mut x, &mut o, &mut sc).map_err(|e| format!("a call on a transform of length zero panicked: {e}\n{}", what()))?;
                        if bits(&x) != x0 || bits(&o) != o0 {
                            return Err(format!("a call on a transform of length zero changed its buffers\n{}", what()));
                        }
                        st.outcomes.insert(mix(m as u64, (l * 100 + lo) as u64));
                    }
                }
            }
        }
        Ok(())
    }
    go::<f64>(&p, st)?;
    go::<f32>(&p, st)?;
    // and later transforms are none the worse for it
    let q = mr(N(3), N(4));
    let r = child::run(|| {
        let _ = go::<f64>(&p, &mut Stats::default());
        concrete(&*try_build::<f64>(&q)?, Shape { m: Meth::S, chunks: 1, extra: 0 }, &(0..12).map(generic).collect::<Vec<f64>>(), &|_| 0.0, &|_| 0.0, &mut Stats::default())
    })?;
    if let Some(e) = compare_ref(12, &(0..12).map(generic).collect::<Vec<f64>>(), &r, &tol_concrete) {
        return Err(format!("{e}\n{} after using {}", q.rust(), p.rust()));
    }
    st.state(hash(case));
    if st.samples.is_empty() {
        st.samples.push(format!("{case}: constructed, reports length 0, every call returns and changes nothing"));
    }
    Ok(())
}
pub fn c20() -> Prop {
    Prop {
        id: "C20",
        cases: |th| {
            let mut lv = vec![N(0)];
            let mut all: Vec<Plan> = lv.clone();
            for depth in 0..if th { 3 } else { 2 } {
                let mut next = Vec::new();
                for z in &lv {
                    for k in 2..=6 {
                        next.push(x(k, z.clone()));
                    }
                    for o in [N(1), N(3), N(8), B(1), B(2), B(3), B(4), B(5), B(6), B(8), B(9), B(16), R4(1), R4(4), R4(32), x(3, B(2)), mr(B(2), B(3)), sr(B(1), B(2)), ra(B(4))] {
                        next.push(mr(z.clone(), o.clone()));
                        next.push(mr(o, z.clone()));
                    }
                    for y in if depth == 0 { &lv[..] } else { &lv[..12] } {
                        next.push(mr(z.clone(), y.clone()));
                        next.push(sr(z.clone(), y.clone()));
                    }
                }
                all.extend(next.iter().cloned());
                lv = next;
            }
            uniq(all.iter().map(|p| p.to_string()).collect())
        },
        exec: zero_case,
        rule: "one case = one transform of length zero, all methods, all combinations of small buffer, output and scratch lengths",
        bounds: |th| format!("the direct transform of length 0 and all compositions of length 0 to depth {}", if th { 3 } else { 2 }),
        assumptions: &["prime-length and radix-4 transforms have no length-zero instance"],
        hang_s: 20,
    }
}
