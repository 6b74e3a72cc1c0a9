//! C10, C13, C14: sizes, memory confinement, constructors.
use super::methods::*;
use super::*;
use crate::efence;
use crate::lane::generic;
use crate::odd::{Wide, Zst};
use crate::plan::Plan::*;
use rustdht::scalar::*;
use rustdht::Dht;
use rustfft::{FftNum, Length};
use std::marker::PhantomData;
use std::sync::Arc;

/// lengths of buffer, output, scratch to try
#[derive(Clone, Copy, Debug)]
struct Dim {
    m: Meth,
    l: usize,
    lo: usize,
    s: usize,
}
fn dims(n: usize, si: usize, so: usize, full: bool) -> Vec<Dim> {
    let sset = |s: usize| {
        if n > 9000 {
            let mut v = vec![0, s.saturating_sub(1), s, s + 1];
            v.dedup();
            return v;
        }
        let mut v: Vec<usize> = if full { (0..=s + 2).collect() } else { vec![0, 1, s / 2, s.saturating_sub(2), s.saturating_sub(1), s, s + 1, 2 * s + 3] };
        v.extend([s + n, 3 * n + s]);
        v.sort();
        v.dedup();
        v
    };
    let lset: Vec<usize> = {
        let mut v: Vec<usize> = if full {
            (0..=3 * n + 2).collect()
        } else {
            let mut v = vec![0, 1, 2, n / 2, n - 1, n, n + 1, n + n / 2, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n - 1, 3 * n, 3 * n + 1, 4 * n];
            v.retain(|&l| l < 6000 || l <= 2 * n + 1);
            if n > 9000 {
                v = vec![0, n - 1, n, n + 1, 2 * n];
            }
            v
        };
        v.sort();
        v.dedup();
        v
    };
    let mut v = Vec::new();
    for &l in &lset {
        v.push(Dim { m: Meth::P, l, lo: 0, s: 0 });
        for s in sset(si) {
            v.push(Dim { m: Meth::S, l, lo: 0, s });
        }
        let mut los = if full { lset.clone() } else { vec![l, l + 1, l.saturating_sub(1), 0, n, 2 * n, l + n] };
        if n > 9000 {
            los = vec![l, l + 1, n];
        }
        los.sort();
        los.dedup();
        for lo in los {
            for s in sset(so) {
                // off the diagonal a few scratch lengths suffice
                if l == lo || s == 0 || s == so || s + 1 == so {
                    v.push(Dim { m: Meth::O, l, lo, s });
                }
            }
        }
    }
    v
}
/// many chunks: counts around powers of two, and one element more or less
fn dims_many(n: usize, si: usize, so: usize) -> Vec<Dim> {
    let mut v = Vec::new();
    for c in [4usize, 5, 7, 8, 15, 16, 17, 31, 32, 64, 127, 128, 255, 256, 257, 511, 512, 1024, 4096, 65535, 65536] {
        for l in [n * c - 1, n * c, n * c + 1] {
            if l > 140_000 {
                continue;
            }
            v.push(Dim { m: Meth::P, l, lo: 0, s: 0 });
            for s in [si, si.wrapping_sub(1), si + l] {
                if s <= si + l {
                    v.push(Dim { m: Meth::S, l, lo: 0, s });
                }
            }
            for lo in [l, l + 1, l.saturating_sub(1), l + n, l.saturating_sub(n), 2 * l] {
                v.push(Dim { m: Meth::O, l, lo, s: so });
            }
            if so > 0 {
                v.push(Dim { m: Meth::O, l, lo: l, s: so - 1 });
            }
        }
    }
    v
}
/// far more scratch or far more chunks than anybody needs
fn dims_giant(n: usize, si: usize, so: usize) -> Vec<Dim> {
    let mut v = Vec::new();
    for e in [16, 17, 18, 20, 21, 22] {
        for d in [0usize, 1, 2] {
            let g = (1usize << e) + d - 1;
            for l in [n - 1, n, n + 1, 2 * n] {
                v.push(Dim { m: Meth::S, l, lo: 0, s: si + g });
                v.push(Dim { m: Meth::O, l, lo: l, s: so + g });
                v.push(Dim { m: Meth::O, l, lo: l + 1, s: so + g });
            }
        }
    }
    for c in [65537usize, 131071, 131072, 262144, 1 << 20, (1 << 20) + 1] {
        for l in [n * c - 1, n * c, n * c + 1] {
            if l <= 2_200_000 {
                v.push(Dim { m: Meth::S, l, lo: 0, s: si });
                v.push(Dim { m: Meth::O, l, lo: l, s: so });
                v.push(Dim { m: Meth::O, l, lo: l + n, s: so });
            }
        }
    }
    v
}
/// lengths that only agree when cut to fewer bits: elements without size cost no memory
fn dims_far(n: usize, si: usize, so: usize) -> Vec<Dim> {
    let mut v = Vec::new();
    let tops: Vec<usize> = [8, 15, 16, 24, 31, 32, 33, 40, 47, 48, 52, 53, 56, 62].iter().map(|e| 1usize << e).collect();
    let max = usize::MAX / 2;
    for l in [0, 1, n - 1, n, n + 1, 2 * n, 3 * n] {
        for &t in &tops {
            for s in [si + t, (si + t).saturating_sub(1), t, t + 1] {
                v.push(Dim { m: Meth::S, l, lo: 0, s });
            }
            for s in [so + t, (so + t).saturating_sub(1), t] {
                v.push(Dim { m: Meth::O, l, lo: l, s });
            }
            // wrong output lengths
            for lo in [l + t, t, (l + t).saturating_sub(n), l.saturating_add(t.saturating_mul(n % 4 + 1))] {
                if lo != l && lo <= max {
                    v.push(Dim { m: Meth::O, l, lo, s: so });
                    v.push(Dim { m: Meth::O, l: lo, lo: l, s: so });
                }
            }
            // too little scratch for far too many chunks
            for s in [0, si / 2, si.wrapping_sub(1)] {
                if s < si {
                    v.push(Dim { m: Meth::S, l: n * (t / n), lo: 0, s });
                    v.push(Dim { m: Meth::S, l: t + l, lo: 0, s });
                }
            }
            for s in [0, so / 2, so.wrapping_sub(1)] {
                if s < so {
                    v.push(Dim { m: Meth::O, l: n * (t / n), lo: n * (t / n), s });
                }
            }
        }
        for s in [max, max - 1, usize::MAX, usize::MAX - 1] {
            v.push(Dim { m: Meth::S, l, lo: 0, s });
            v.push(Dim { m: Meth::O, l, lo: l, s });
        }
    }
    v
}
fn valid(d: Dim, n: usize, si: usize, so: usize) -> bool {
    d.l >= n
        && d.l % n == 0
        && match d.m {
            Meth::P => true,
            Meth::S => d.s >= si,
            Meth::O => d.lo == d.l && d.s >= so,
        }
}
fn why(d: Dim, n: usize, si: usize, so: usize) -> String {
    let mut v = vec![];
    if d.l < n {
        v.push("buffer shorter than the transform length");
    }
    if d.l % n != 0 {
        v.push("buffer not a multiple of the transform length");
    }
    if d.m == Meth::O && d.lo != d.l {
        v.push("output length different from input length");
    }
    if (d.m == Meth::S && d.s < si) || (d.m == Meth::O && d.s < so) {
        v.push("scratch shorter than advertised");
    }
    v.join(", ")
}

fn size_case(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let plan = parse(f[1]);
    fn go<T: Elem>(kind: &str, plan: &Plan, st: &mut Stats) -> Result<(), String> {
        let n = plan.len();
        let d = try_build::<T>(plan)?;
        let (si, so) = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
        let ds = match kind {
            "full" => dims(n, si, so, true),
            "edge" => dims(n, si, so, false),
            "giant" => dims_giant(n, si, so),
            "far" => dims_far(n, si, so),
            _ => dims_many(n, si, so),
        };
        let big = ds.iter().map(|d| d.l.max(d.lo)).max().unwrap();
        let bigs = ds.iter().map(|d| d.s).max().unwrap();
        // slack around the slices: with the library's checks broken, unchecked accesses should not take the harness down
        let pad = 64 + 4 * n;
        let (mut b, mut o, mut sc) = if kind == "far" {
            assert!(std::mem::size_of::<T>() == 0, "HARNESS: far lengths are for elements without size");
            let all = || {
                let mut v: Vec<T> = Vec::new();
                unsafe { v.set_len(usize::MAX) };
                v
            };
            (all(), all(), all())
        } else {
            (vec![T::of(1.0); big + 2 * pad], vec![T::of(1.0); big + 2 * pad], vec![T::of(1.0); bigs + 2 * pad])
        };
        for (q, dm) in ds.iter().enumerate() {
            if q % 64 == 0 {
                beat();
            }
            let pad = if kind == "far" { 0 } else { pad };
            for i in 0..dm.l {
                if kind == "far" {
                    break;
                }
                b[pad + i] = T::of(generic(i));
            }
            st.call();
            let r = call(&*d, dm.m, &mut b[pad..pad + dm.l], &mut o[pad..pad + dm.lo], &mut sc[pad..pad + dm.s]);
            st.trace();
            let ok = valid(*dm, n, si, so);
            let desc = |d: &Dim| {
                format!(
                    "transform: {} as {} (length {n}, advertised scratch {si} in place, {so} out of place), method {}, buffer length {}{}{}",
                    plan.rust(),
                    T::NAME,
                    d.m.name(),
                    d.l,
                    if d.m == Meth::O { format!(", output length {}", d.lo) } else { String::new() },
                    if d.m == Meth::P { String::new() } else { format!(", scratch length {}", d.s) }
                )
            };
            match (&r, ok) {
                (Ok(()), false) => return Err(format!("a wrongly sized call returned normally ({})\n{}", why(*dm, n, si, so), desc(dm))),
                (Err(e), true) => return Err(format!("a correctly sized call panicked: {e}\n{}", desc(dm))),
                _ => {}
            }
            st.outcomes.insert(mix(mix(dm.m as u64, ok as u64), hash(&why(*dm, n, si, so))));
            st.add(if ok { "accepted_calls" } else { "rejected_calls" }, 1);
        }
        Ok(())
    }
    match f[2] {
        "f64" => go::<f64>(f[0], &plan, st)?,
        "f32" => go::<f32>(f[0], &plan, st)?,
        "wide" => go::<Wide>(f[0], &plan, st)?,
        "zst" => go::<Zst>(f[0], &plan, st)?,
        _ => panic!("HARNESS"),
    }
    st.state(hash(case));
    if st.samples.is_empty() {
        st.samples.push(format!("{plan}: every combination of method, buffer, output and scratch length in the box panicked exactly when documented"));
    }
    Ok(())
}
fn demanding() -> Vec<Plan> {
    let mut v = Vec::new();
    for k in 2..=6 {
        for h in [1usize, 2, 3] {
            let n = k * h;
            for (i, o) in [(0, 0), (n + 2, 0), (0, n + 2), (n + 1, 1), (h, h), (1, 2 * n)] {
                v.push(x(k, M(h, i, o, true)));
            }
        }
    }
    for (i, o) in [(0, 0), (9, 0), (0, 9), (3, 2), (20, 1)] {
        v.push(mr(M(2, i, o, true), M(3, 0, 0, true)));
        v.push(mr(M(3, 0, 0, true), M(2, i, o, true)));
        v.push(mr(M(2, i, o, true), M(2, o, i, true)));
        v.push(mr(M(1, i, o, true), M(4, o, i, true)));
        v.push(sr(M(1, i, o, true), M(2, o, i, true)));
        v.push(sr(M(2, i, o, true), M(4, 0, 0, true)));
        v.push(sr(M(3, 0, 0, true), M(6, i, o, true)));
        for p in [2usize, 3, 5, 7] {
            v.push(ra(M(p - 1, i, o, true)));
        }
    }
    v
}
fn size_cases(full: usize, edge: usize, far: usize) -> Vec<String> {
    let mut v = Vec::new();
    for p in small_plans(full, full.min(12)) {
        v.push(format!("full {p} f64"));
        if p.len() <= 9 {
            v.push(format!("full {p} f32"));
            v.push(format!("full {p} wide"));
        }
    }
    for p in demanding() {
        v.push(format!("full {p} f64"));
    }
    for p in small_plans(2 * full, 2 * full) {
        v.push(format!("edge {p} f64"));
    }
    for p in long_plans(edge) {
        if p.len() <= far {
            v.push(format!("edge {p} f64"));
        }
    }
    for p in small_plans(5, 0).into_iter().chain(BF.iter().map(|&b| B(b))).chain([R4(16), B(16), x(5, B(2)), ra(N(10)), sr(N(3), N(6)), mr(B(4), B(4)), N(16)]) {
        v.push(format!("many {p} f64"));
        v.push(format!("many {p} f32"));
    }
    for p in small_plans(12, 8).into_iter().chain(demanding()).chain(BF.iter().map(|&b| B(b))).chain([R4(16), R4(64), x(5, N(7)), sr(N(5), N(10)), mr(B(4), B(4)), N(31)]) {
        v.push(format!("far {p} zst"));
    }
    for p in small_plans(4, 0).into_iter().chain(BF.iter().map(|&b| B(b))).chain([R4(16), R4(64), x(2, B(3)), x(3, B(4)), x(4, B(4)), x(5, B(2)), x(6, B(2)), ra(B(4)), ra(N(10)), sr(N(3), N(6)), mr(B(4), B(4)), N(16)]) {
        v.push(format!("giant {p} f64"));
    }
    uniq(v)
}
pub fn c10() -> Prop {
    Prop {
        id: "C10",
        cases: |th| size_cases(if th { 30 } else { 18 }, if th { 2500 } else { 800 }, 140_000),
        exec: size_case,
        rule: "one case = one transform with a whole box of (method, buffer, output, scratch) lengths; every call is one execution; outcomes = (method, accepted or which documented condition was violated)",
        bounds: |th| {
            format!(
                "complete box buffer, output in 0..=3n+2, scratch in 0..=s+2 and larger: every plan of depth <= 1 (all leaf kinds) for every length <= {0}, depth <= 2 to 12, transforms over scratch-hungry inner transforms; edge lengths (0,1,n-1,n,n+1,...,4n; s-2..s+1): all plans to length {1}, realistic plans for every length <= {2}; buffers of up to 65536 chunks +-1 element. Optimised build without debug assertions, and again with debug assertions and overflow checks; 32-byte elements to length 9; zero-sized elements: lengths differing by multiples of 2^8 .. 2^62",
                if th { 30 } else { 18 },
                if th { 60 } else { 36 },
                if th { 2500 } else { 800 }
            )
        },
        assumptions: &["transforms of length 0 are outside the claim"],
        hang_s: 120,
    }
}

// ------------------------------------------------------------------------------------------------- C13
fn mem_case(case: &str, st: &mut Stats) -> Result<(), String> {
    efence::off();
    let f: Vec<&str> = case.split(' ').collect();
    let plan = parse(f[1]);
    fn go<T: Elem>(kind: &str, plan: &Plan, st: &mut Stats) -> Result<(), String> {
        let n = plan.len();
        for left in [false, true] {
            let d = efence::with(left, || try_build::<T>(plan))?;
            let (si, so) = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
            let ds = match kind {
                "full" => dims(n, si, so, true),
                "edge" => dims(n, si, so, false),
                _ => dims_many(n, si, so),
            };
            let z = std::mem::size_of::<T>();
            let big = ds.iter().map(|d| d.l.max(d.lo)).max().unwrap() * z;
            let bigs = ds.iter().map(|d| d.s).max().unwrap() * z;
            let (mut rb, mut ro, mut rs) = (efence::Region::new(big), efence::Region::new(big), efence::Region::new(bigs));
            for (q, dm) in ds.iter().enumerate() {
                if q % 64 == 0 {
                    beat();
                }
                let b = rb.slice(dm.l, left, |i| T::of(generic(i)));
                let o = ro.slice(dm.lo, left, |_| T::of(0.25));
                let s = rs.slice(dm.s, left, |_| T::of(0.75));
                st.call();
                // (the library's own allocations are fenced too, except for panic messages)
                let r = if dm.m == Meth::P || valid(*dm, n, si, so) { efence::with(left, || call(&*d, dm.m, b, o, s)) } else { call(&*d, dm.m, b, o, s) };
                st.trace();
                // results computed from uninitialised (poisoned) memory come out as NaN
                if r.is_ok() && valid(*dm, n, si, so) {
                    let y = if dm.m == Meth::O { &*o } else { &*b };
                    if let Some(k) = y.iter().position(|v| v.val().is_nan()) {
                        return Err(format!(
                            "element {k} of the result was computed from uninitialised memory\ntransform: {} as {}, method {}, buffer length {}, scratch length {}",
                            plan.rust(),
                            T::NAME,
                            dm.m.name(),
                            dm.l,
                            dm.s
                        ));
                    }
                }
                st.outcomes.insert(mix(mix(dm.m as u64, r.is_ok() as u64), left as u64));
            }
            efence::with(left, || drop(d));
        }
        Ok(())
    }
    match f[2] {
        "f64" => go::<f64>(f[0], &plan, st)?,
        "f32" => go::<f32>(f[0], &plan, st)?,
        "wide" => go::<Wide>(f[0], &plan, st)?,
        _ => panic!("HARNESS"),
    }
    st.state(hash(case));
    if st.samples.is_empty() {
        st.samples.push(format!("{plan}: the whole box of lengths, with every slice and every library allocation against an inaccessible page (at its end, then at its start)"));
    }
    Ok(())
}
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        cases: |th| {
            let mut v = size_cases(if th { 20 } else { 13 }, if th { 1500 } else { 400 }, 140_000).into_iter().filter(|c| !c.starts_with("giant") && !c.starts_with("far")).collect::<Vec<_>>();
            for n in [1024usize, 2048, 4096, 8192, 16384, 65536] {
                v.push(format!("edge R{n} f64"));
                v.push(format!("edge R{n} f32"));
                v.push(format!("edge {} f64", auto(n, 0)));
                v.push(format!("edge {} f32", auto(n, 2)));
                v.push(format!("edge {} f64", auto(n + 1, 1)));
            }
            uniq(v)
        },
        exec: mem_case,
        rule: "one case = one transform with a whole box of lengths, twice (slices and allocations ending at, then starting at, an inaccessible page); a crash of the process is the violation",
        bounds: |th| {
            format!(
                "lengths as for C10 (complete boxes to length {}, edges for realistic plans to {} and powers of two to 65536), valid and invalid. Optimised build without debug assertions, and again with debug assertions, overflow checks and the standard library's unchecked-access preconditions 32-byte elements to length 9.",
                if th { 20 } else { 13 },
                if th { 1500 } else { 400 }
            )
        },
        assumptions: &["an access is detected if it leaves the page-aligned side of a slice or allocation (both sides are tried), touches freed memory, violates an unchecked-index precondition, or lets uninitialised memory reach a result"],
        hang_s: 120,
    }
}

// ------------------------------------------------------------------------------------------------- C14
/// inner transform that does nothing: constructors only need its length
struct Null<T>(usize, PhantomData<T>);
impl<T: FftNum> Dht<T> for Null<T> {
    fn process_with_scratch(&self, _: &mut [T], _: &mut [T]) {}
    fn process_outofplace_with_scratch(&self, _: &mut [T], _: &mut [T], _: &mut [T]) {}
    fn get_inplace_scratch_len(&self) -> usize {
        0
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        0
    }
}
impl<T> Length for Null<T> {
    fn len(&self) -> usize {
        self.0
    }
}
fn null<T: FftNum>(n: usize) -> Arc<dyn Dht<T>> {
    Arc::new(Null(n, PhantomData))
}
fn expect<T: Elem>(what: String, r: Result<Arc<dyn Dht<T>>, String>, want: Option<usize>, st: &mut Stats) -> Result<(), String> {
    st.call();
    st.trace();
    match (r, want) {
        (Ok(d), Some(n)) => {
            st.add("constructed", 1);
            if d.len() != n {
                return Err(format!("{what} reports length {} instead of {n}", d.len()));
            }
            Ok(())
        }
        (Err(_), None) => {
            st.add("refused", 1);
            Ok(())
        }
        (Ok(d), None) => Err(format!("{what} is impossible but was constructed (it reports length {})", d.len())),
        (Err(e), Some(n)) => Err(format!("{what} is admissible (length {n}) but construction panicked: {e}")),
    }
}
fn cons_case(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let num = |i: usize| f[i].parse::<usize>().unwrap();
    match f[0] {
        "r4" => {
            for n in num(1)..num(2) {
                let w = if n.is_power_of_two() { Some(n) } else { None };
                expect::<f64>(format!("Radix4::<f64>::new({n})"), guard(|| Arc::new(Radix4::new(n)) as Arc<dyn Dht<f64>>), w, st)?;
                expect::<f32>(format!("Radix4::<f32>::new({n})"), guard(|| Arc::new(Radix4::new(n)) as Arc<dyn Dht<f32>>), w, st)?;
            }
        }
        "ra" => {
            for n in num(1)..num(2) {
                let w = if is_prime(n + 1) { Some(n + 1) } else { None };
                expect::<f64>(format!("RadersAlgorithm::new(inner of length {n})"), guard(|| Arc::new(RadersAlgorithm::new(null(n))) as Arc<dyn Dht<f64>>), w, st)?;
                if n % 64 == 0 {
                    beat();
                }
            }
        }
        "sr" => {
            let q = num(1);
            for h in 1..=4 * q + 5 {
                let w = if h == 2 * q { Some(4 * q) } else { None };
                expect::<f64>(format!("SplitRadix::new(quarter of length {q}, half of length {h})"), guard(|| Arc::new(SplitRadix::new(null(q), null(h))) as Arc<dyn Dht<f64>>), w, st)?;
            }
        }
        "sr1" => {
            let (q, h) = (num(1), num(2));
            let w = if h == 2 * q { Some(4 * q) } else { None };
            expect::<f64>(format!("SplitRadix::new(quarter of length {q}, half of length {h})"), guard(|| Arc::new(SplitRadix::new(null(q), null(h))) as Arc<dyn Dht<f64>>), w, st)?;
            expect::<f32>(format!("SplitRadix::new(quarter of length {q}, half of length {h})"), guard(|| Arc::new(SplitRadix::new(null(q), null(h))) as Arc<dyn Dht<f32>>), w, st)?;
        }
        "mr1" => {
            let (w, h) = (num(1), num(2));
            expect::<f32>(format!("MixedRadix::new(width {w}, height {h})"), guard(|| Arc::new(MixedRadix::new(null(w), null(h))) as Arc<dyn Dht<f32>>), Some(w * h), st)?;
            expect::<f64>(format!("MixedRadix::new(width {w}, height {h})"), guard(|| Arc::new(MixedRadix::new(null(w), null(h))) as Arc<dyn Dht<f64>>), Some(w * h), st)?;
        }
        "mr" => {
            let w = num(1);
            for h in 1..=num(2) {
                expect::<f32>(format!("MixedRadix::new(width {w}, height {h})"), guard(|| Arc::new(MixedRadix::new(null(w), null(h))) as Arc<dyn Dht<f32>>), Some(w * h), st)?;
            }
        }
        "x" => {
            for h in num(1)..num(2) {
                let c: [(usize, fn(Arc<dyn Dht<f64>>) -> Arc<dyn Dht<f64>>); 5] = [
                    (2, |a| Arc::new(MixedRadix2xn::new(a))),
                    (3, |a| Arc::new(MixedRadix3xn::new(a))),
                    (4, |a| Arc::new(MixedRadix4xn::new(a))),
                    (5, |a| Arc::new(MixedRadix5xn::new(a))),
                    (6, |a| Arc::new(MixedRadix6xn::new(a))),
                ];
                for (k, c) in c {
                    expect::<f64>(format!("MixedRadix{k}xn::new(inner of length {h})"), guard(|| c(null(h))), Some(k * h), st)?;
                }
            }
        }
        "naive" => {
            for n in num(1)..num(2) {
                expect::<f64>(format!("DhtNaive::new({n})"), guard(|| Arc::new(DhtNaive::new(n)) as Arc<dyn Dht<f64>>), Some(n), st)?;
                expect::<f32>(format!("DhtNaive::new({n})"), guard(|| Arc::new(DhtNaive::new(n)) as Arc<dyn Dht<f32>>), Some(n), st)?;
            }
        }
        // the reported length stays what it is, whatever calls are made
        "len" => {
            let plan = parse(f[1]);
            fn go<T: Elem>(plan: &Plan, st: &mut Stats) -> Result<(), String> {
                let n = plan.len();
                let d = try_build::<T>(plan)?;
                let probe = |d: &dyn Dht<T>| (d.len(), d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
                let p0 = probe(&*d);
                if p0.0 != n {
                    return Err(format!("{} reports length {} instead of {n}", plan.rust(), p0.0));
                }
                for m in METHS {
                    for (l, lo) in [(n, n), (2 * n, 2 * n), (n - 1, n - 1), (n + 1, n + 1), (0, 0), (n, 2 * n)] {
                        let mut b: Vec<T> = (0..l).map(|i| T::of(generic(i))).collect();
                        let mut o: Vec<T> = vec![T::of(0.0); lo];
                        let mut s: Vec<T> = vec![T::of(0.0); scratch_len(&*d, m)];
                        st.call();
                        let _ = call(&*d, m, &mut b, &mut o, &mut s);
                        if probe(&*d).0 != n {
                            return Err(format!("{} reports length {} after a call of {}, {n} before", plan.rust(), probe(&*d).0, m.name()));
                        }
                    }
                }
                st.trace();
                Ok(())
            }
            go::<f64>(&plan, st)?;
            go::<f32>(&plan, st)?;
        }
        _ => panic!("HARNESS: {case}"),
    }
    st.state(hash(case));
    st.outcomes.insert(hash(case));
    if st.samples.is_empty() {
        st.samples.push(format!("{case}: constructed with the implied length exactly where admissible, refused elsewhere"));
    }
    Ok(())
}
pub fn c14() -> Prop {
    Prop {
        id: "C14",
        cases: |th| {
            let mut v = Vec::new();
            let step = 1000;
            for a in 0..if th { 1100 } else { 300 } {
                v.push(format!("r4 {} {}", a * step, (a + 1) * step));
            }
            for e in 18..=if th { 26 } else { 25 } {
                let n = 1usize << e;
                v.push(format!("r4 {} {}", n - 2, n + 3));
                v.push(format!("r4 {} {}", n + n / 2 - 1, n + n / 2 + 2));
            }
            for e in 24..63 {
                // far beyond memory: only refusals
                let n = 1usize << e;
                v.push(format!("r4 {} {}", n + 1, n + 4));
                v.push(format!("r4 {} {}", n - 3, n));
            }
            for a in 0..if th { 1200 } else { 240 } {
                v.push(format!("ra {} {}", a * 250, (a + 1) * 250));
            }
            // pseudoprimes and Carmichael numbers (inner = N - 1), squares of primes, products of close primes
            for c in [341usize, 561, 1105, 1729, 2047, 2465, 2821, 3277, 4033, 4681, 6601, 8321, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921, 126217, 162401, 172081, 188461, 252601, 278545, 294409, 314821, 334153, 340561, 399001, 410041, 449065, 488881, 512461, 530881, 552721, 656601, 658801, 670033, 748657, 825265, 838201, 852841, 997633, 1373653, 1530787, 1987021, 2284453, 3116107, 25326001, 1194649, 12327121, 1018081, 994009, 1022117, 999 * 1009, 1009 * 1013] {
                v.push(format!("ra {} {}", c - 1, c));
            }
            for c in [3215031751usize, 2152302898747, 3474749660383, 341550071728321, 4759123141, 1122004669633, 21652684502221, 4294967297, 1 << 40, (1 << 61) - 3] {
                v.push(format!("ra {} {}", c - 1, c));
            }
            for p in [65537usize, 131071, 262147, 524287, 999983, 1048573, 2097143, 5_109_721, 8_388_593, 16_777_259] {
                v.push(format!("ra {} {}", p - 1, p));
            }
            for q in 1..=if th { 600 } else { 250 } {
                v.push(format!("sr {q}"));
            }
            // long, and lengths that only agree when cut to fewer bits
            for q in [1usize, 2, 5, 1000, 65535, 65536, 100_003, 1 << 20, 3_000_001, 1 << 23] {
                for h in [2 * q - 1, 2 * q, 2 * q + 1, q, 4 * q, q + 1, 2 * q + 2] {
                    v.push(format!("sr1 {q} {h}"));
                }
                if q <= 1000 {
                    for e in [8, 15, 16, 17, 24, 31, 32, 33, 48, 62] {
                        v.push(format!("sr1 {q} {}", 2 * q + (1usize << e)));
                    }
                }
            }
            for p in [2usize, 3, 5, 7, 13, 101, 257, 65537] {
                for e in [32, 33, 40] {
                    // the inner length plus one is composite, though prime modulo 2^32
                    if !is_prime(p + (1usize << e)) {
                        v.push(format!("ra {} {}", p - 1 + (1usize << e), p + (1usize << e)));
                    }
                }
            }
            for (w, h) in [(1usize, 1usize << 23), (1 << 23, 1), (2, 1 << 22), (1 << 22, 2), (3, 2_796_203), (2_796_203, 3), (2896, 2897), (2897, 2896), (3000, 3000), (65536, 100), (100, 65537), (1 << 12, 1 << 11)] {
                v.push(format!("mr1 {w} {h}"));
            }
            for w in 1..=if th { 300 } else { 120 } {
                v.push(format!("mr {w} {}", if th { 300 } else { 120 }));
            }
            for a in 0..if th { 100 } else { 30 } {
                v.push(format!("x {} {}", a * 200 + 1, a * 200 + 201));
            }
            for h in [16384usize, 21845, 32768, 43690, 65535, 65536, 65537, 100003, 1 << 20, 2_796_203, 1 << 22, 8_388_609] {
                v.push(format!("x {h} {}", h + 1));
                v.push(format!("naive {h} {}", h + 1));
            }
            for a in 0..if th { 40 } else { 12 } {
                v.push(format!("naive {} {}", a * 250, (a + 1) * 250));
            }
            for p in small_plans(if th { 80 } else { 40 }, if th { 40 } else { 20 }) {
                v.push(format!("len {p}"));
            }
            for p in long_plans(if th { 2000 } else { 500 }) {
                if p.len() <= 5000 {
                    v.push(format!("len {p}"));
                }
            }
            uniq(v)
        },
        exec: cons_case,
        rule: "one case = a range of constructor arguments (or one transform whose reported length is re-read after valid and rejected calls); every construction is one execution",
        bounds: |th| {
            format!(
                "radix-4: every length < {}, neighbours of powers of two to 2^63; prime-length: every inner length < {}, pseudoprimes and Carmichael numbers; split-radix: every quarter <= {} with every half length <= 4q+5; mixed radix: all w,h <= {}; k x h: h <= {}; direct: n < {}; each algorithm at selected lengths to 8 million, radix-4 powers of two to 2^25; reported lengths: all small and realistic plans",
                if th { 1100000 } else { 300000 },
                if th { 300000 } else { 60000 },
                if th { 600 } else { 250 },
                if th { 300 } else { 120 },
                if th { 20000 } else { 6000 },
                if th { 10000 } else { 3000 }
            )
        },
        assumptions: &["inner transforms of length 0 are outside the claim", "primality oracle: trial division"],
        hang_s: 60,
    }
}
