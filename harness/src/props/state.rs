//! C11: no memory of earlier calls.
use super::methods::*;
use super::*;
use crate::child;
use crate::hk::{self, Hk};
use crate::lane::generic;
use crate::plan::Plan::*;
use rustdht::Dht;
use std::collections::HashMap;
use std::sync::Arc;

/// input data of a call
fn data(kind: u8, len: usize) -> Vec<f64> {
    (0..len)
        .map(|i| match kind {
            0 => generic(i),
            1 => generic(3 * i + 11) * 2.0 - 0.4,
            2 => f64::NAN,
            3 => f64::INFINITY,
            _ => 1e150 * generic(i),
        })
        .collect()
}
#[derive(Clone, Copy)]
enum Op {
    /// method, chunks, extra scratch, data: result is observed
    Res(Meth, usize, usize, u8),
    /// same, result ignored
    Noise(Meth, usize, usize, u8),
    /// wrongly sized: buffer delta, output delta, scratch delta
    Bad(Meth, isize, isize, isize),
    /// construct (and use once, and drop) another instance
    Build,
}
const OPS: [Op; 13] = [
    Op::Res(Meth::S, 1, 0, 0),
    Op::Res(Meth::O, 1, 0, 0),
    Op::Res(Meth::P, 1, 0, 1),
    Op::Res(Meth::S, 2, 1, 1),
    Op::Res(Meth::O, 3, 2, 0),
    Op::Noise(Meth::S, 1, 0, 2),
    Op::Noise(Meth::O, 2, 0, 3),
    Op::Noise(Meth::S, 3, 40, 4),
    Op::Bad(Meth::S, 1, 0, 0),
    Op::Bad(Meth::O, 0, 1, 0),
    Op::Bad(Meth::S, -1, 0, 0),
    Op::Bad(Meth::S, 0, 0, -1),
    Op::Build,
];
const RES: usize = 5;
fn op_name(o: Op) -> String {
    match o {
        Op::Res(m, c, e, d) => format!("{} ({c} chunk(s), scratch +{e}, data {d})", m.name()),
        Op::Noise(m, c, e, d) => format!("{} ({c} chunk(s), scratch +{e}, {})", m.name(), ["", "", "NaN data", "infinite data", "huge data"][d as usize]),
        Op::Bad(m, a, b, c) => format!("rejected {} (buffer {a:+}, output {b:+}, scratch {c:+})", m.name()),
        Op::Build => "construct, use and drop another instance".into(),
    }
}
fn do_op<T: Elem>(d: &Arc<dyn Dht<T>>, plan: &Plan, o: Op, calls: &mut u64) -> Result<Option<Vec<f64>>, String> {
    let n = plan.len();
    *calls += 1;
    let mut s2 = Stats::default();
    match o {
        Op::Res(m, chunks, extra, k) => concrete(&**d, Shape { m, chunks, extra }, &data(k, n * chunks), &|_| f64::NAN, &|_| f64::NAN, &mut s2).map(Some),
        Op::Noise(m, chunks, extra, k) => {
            let _ = concrete(&**d, Shape { m, chunks, extra }, &data(k, n * chunks), &|i| i as f64 + 0.5, &|i| -(i as f64), &mut s2);
            Ok(None)
        }
        Op::Bad(m, a, b, c) => {
            let l = (2 * n) as isize + a;
            let mut x: Vec<T> = data(1, l.max(0) as usize).into_iter().map(T::of).collect();
            let mut y: Vec<T> = vec![T::of(0.125); (l + b).max(0) as usize];
            let mut s: Vec<T> = vec![T::of(9.0); (scratch_len(&**d, m) as isize + c).max(0) as usize];
            let _ = call(&**d, m, &mut x, &mut y, &mut s);
            Ok(None)
        }
        Op::Build => {
            let e = try_build::<T>(plan)?;
            let _ = concrete(&*e, Shape { m: Meth::S, chunks: 1, extra: 0 }, &data(1, n), &|_| 0.0, &|_| 0.0, &mut s2);
            Ok(None)
        }
    }
}
fn close<T: Elem>(a: &[f64], b: &[f64]) -> Option<usize> {
    let sc = b.iter().map(|v| v.abs()).fold(1.0, f64::max);
    let tol = 64.0 * T::EPS * sc * (b.len() as f64).sqrt();
    if a.len() != b.len() {
        return Some(0);
    }
    (0..a.len()).find(|&k| !((a[k] - b[k]).abs() <= tol))
}
/// what each result-giving operation yields as the very first use of the library in a process
fn baseline<T: Elem>(plan: &Plan, st: &mut Stats) -> Result<Vec<Vec<f64>>, String> {
    let n = plan.len();
    let mut all = Vec::new();
    for o in &OPS[..RES] {
        st.call();
        let r = child::run(|| {
            let d = try_build::<T>(plan)?;
            do_op(&d, plan, *o, &mut 0).map(|r| r.unwrap())
        })
        .map_err(|e| format!("{e}\ntransform: {}, first and only call: {}", plan.rust(), op_name(*o)))?;
        let Op::Res(_, c, ..) = *o else { unreachable!() };
        assert_eq!(r.len(), n * c, "HARNESS");
        all.push(r);
    }
    Ok(all)
}
/// one operation's baseline only
fn baseline1<T: Elem>(plan: &Plan, o: usize) -> Result<Vec<f64>, String> {
    child::run(|| {
        let d = try_build::<T>(plan)?;
        do_op(&d, plan, OPS[o], &mut 0).map(|r| r.unwrap())
    })
    .map_err(|e| format!("{e}\ntransform: {}, first and only call: {}", plan.rust(), op_name(OPS[o])))
}

fn history<T: Elem>(pa: &Plan, pb: &Plan, depth: usize, st: &mut Stats) -> Result<(), String> {
    let base = [baseline::<T>(pa, st)?, baseline::<T>(pb, st)?];
    let plans = [pa.clone(), pb.clone()];
    let nops = OPS.len() * 2;
    let r = child::run(|| {
        let mut calls = 0u64;
        let mut seqs = 0u64;
        let mut seq = vec![0usize; depth];
        loop {
            // the two transforms share every equal sub-transform
            let mut memo = Memo::<T>::new();
            let ds = [build_memo(pa, &mut memo), build_memo(pb, &mut memo)];
            for (q, &c) in seq.iter().enumerate() {
                let (w, o) = (c % 2, c / 2);
                let r = do_op(&ds[w], &plans[w], OPS[o], &mut calls);
                let bad = match r {
                    Err(e) => Some(e),
                    Ok(Some(v)) => close::<T>(&v, &base[w][o]).map(|k| format!("element {k} is {:?}, but {:?} when this is the only call in a process", v[k], base[w][o][k])),
                    Ok(None) => None,
                };
                if let Some(e) = bad {
                    let mut t = format!("{e}\ntransforms (equal parts shared): A = {}, B = {} as {}\nhistory:", pa.rust(), pb.rust(), T::NAME);
                    for &c in &seq[..=q] {
                        t += &format!("\n  {}: {}", ["A", "B"][c % 2], op_name(OPS[c / 2]));
                    }
                    return Err(t);
                }
            }
            seqs += 1;
            if seqs % 64 == 0 {
                beat();
            }
            // next sequence
            let mut i = depth;
            loop {
                if i == 0 {
                    return Ok(vec![calls as f64, seqs as f64]);
                }
                i -= 1;
                seq[i] += 1;
                if seq[i] < nops {
                    break;
                }
                seq[i] = 0;
            }
        }
    })?;
    st.add("transitions", r[0] as u64);
    st.add("traces", r[1] as u64);
    st.add("operation_sequences", r[1] as u64);
    Ok(())
}

/// related input data: what a memo keyed on part of the input would confuse
fn variants(len: usize, n: usize) -> Vec<(String, Vec<f64>)> {
    let base: Vec<f64> = (0..len).map(generic).collect();
    let mut v: Vec<(String, Vec<f64>)> = vec![("base".into(), base.clone())];
    let mut at: Vec<usize> = if len <= 24 { (0..len).collect() } else { vec![0, 1, 2, 3, 4, 7, 8, n / 4, n / 3, n / 2 - 1, n / 2, n / 2 + 1, 2 * n / 3, n - 2, n - 1, n % len, len / 2, len - 2, len - 1] };
    at.sort();
    at.dedup();
    for i in at {
        let mut x = base.clone();
        x[i] += 1.75;
        v.push((format!("base with element {i} changed"), x));
    }
    let mut add = |s: &str, x: Vec<f64>| v.push((s.into(), x));
    add("base negated", base.iter().map(|x| -x).collect());
    add("base doubled", base.iter().map(|x| 2.0 * x).collect());
    add("base reversed", base.iter().rev().copied().collect());
    let mut x = base.clone();
    x.rotate_left(1);
    add("base rotated", x);
    let mut x = base.clone();
    x.swap(0, len - 1);
    add("base with the ends exchanged", x);
    let mut x = base.clone();
    x[len / 3] += 0.5;
    x[len - 1] -= 0.5;
    add("base with two elements changed, same sum", x);
    add("zero", vec![0.0; len]);
    add("one", vec![1.0; len]);
    let mut x = base.clone();
    x[len - 1] = f64::NAN;
    add("base with NaN at the end", x);
    v
}
/// every ordered pair of consecutive calls over related data, all methods, in the same and in other buffers
fn related<T: Elem>(plan: &Plan, chunks: usize, st: &mut Stats) -> Result<(), String> {
    let n = plan.len();
    let vs = variants(n * chunks, n);
    // a step: data, method
    let steps: Vec<(usize, Meth)> = (0..vs.len()).flat_map(|i| METHS.iter().map(move |&m| (i, m))).collect();
    let mut base = Vec::new();
    for &(i, m) in &steps {
        base.push(
            child::run(|| {
                let d = try_build::<T>(plan)?;
                concrete(&*d, Shape { m, chunks, extra: 0 }, &vs[i].1, &|_| 0.25, &|_| 0.25, &mut Stats::default())
            })
            .map_err(|e| format!("{e}\ntransform: {}", plan.rust()))?,
        );
        beat();
    }
    let r = child::run(|| {
        let d = try_build::<T>(plan)?;
        let (mut b, mut o, mut sc) = (vec![T::of(0.0); n * chunks], vec![T::of(0.0); n * chunks], vec![T::of(0.25); d.get_inplace_scratch_len().max(d.get_outofplace_scratch_len())]);
        let mut last: Option<usize> = None;
        let mut calls = 0u64;
        let mut step = |q: usize, same: bool| -> Result<(), String> {
            let (i, m) = steps[q];
            let y: Vec<f64> = if same {
                for (x, v) in b.iter_mut().zip(&vs[i].1) {
                    *x = T::of(*v);
                }
                let l = scratch_len(&*d, m);
                call(&*d, m, &mut b, &mut o, &mut sc[..l])?;
                (if m == Meth::O { &o } else { &b }).iter().map(|v| v.val()).collect()
            } else {
                concrete(&*d, Shape { m, chunks, extra: 0 }, &vs[i].1, &|_| 0.25, &|_| 0.25, &mut Stats::default())?
            };
            calls += 1;
            if calls % 256 == 0 {
                beat();
            }
            let want = &base[q];
            let sc = want.iter().filter(|v| v.is_finite()).map(|v| v.abs()).fold(1.0, f64::max);
            let tol = 64.0 * T::EPS * sc * (want.len() as f64).sqrt();
            for k in 0..y.len() {
                if !((y[k] - want[k]).abs() <= tol) && !(y[k].is_nan() && want[k].is_nan()) {
                    return Err(format!(
                        "element {k} is {:?}, but {:?} in a fresh process: {} on {}{}\n{} as {}, {chunks} chunk(s){}",
                        y[k],
                        want[k],
                        m.name(),
                        vs[i].0,
                        last.map_or(String::new(), |l| format!(", right after {} on {}", steps[l].1.name(), vs[steps[l].0].0)),
                        plan.rust(),
                        T::NAME,
                        if same { ", same buffers" } else { "" }
                    ));
                }
            }
            last = Some(q);
            Ok(())
        };
        for same in [true, false] {
            for i in 0..steps.len() {
                step(i, same)?;
                step(i, same)?;
                for j in i + 1..steps.len() {
                    step(j, same)?;
                    step(i, same)?;
                }
            }
        }
        Ok(vec![calls as f64])
    })?;
    st.add("transitions", r[0] as u64);
    st.add("traces", r[0] as u64);
    st.add("ordered_call_pairs", r[0] as u64);
    Ok(())
}

/// panics injected at every element operation and every call of a user-written inner transform
fn inject(plan: &Plan, st: &mut Stats) -> Result<(), String> {
    let base = baseline::<Hk>(plan, st)?;
    let n = plan.len();
    let r = child::run(|| {
        let mut calls = 0;
        let mut points = 0u64;
        // during processing
        let d = try_build::<Hk>(plan)?;
        for m in METHS {
            let run = |target: u64| {
                let mut x: Vec<Hk> = data(1, 2 * n).into_iter().map(Hk).collect();
                let mut y: Vec<Hk> = vec![Hk(0.5); 2 * n];
                let mut s: Vec<Hk> = vec![Hk(0.25); scratch_len(&*d, m)];
                hk::set_mode(2, target);
                let r = call(&*d, m, &mut x, &mut y, &mut s);
                let c = hk::count();
                hk::set_mode(0, 0);
                (r, c)
            };
            let total = run(u64::MAX - 1).1;
            for k in 0..total {
                if k % 64 == 0 {
                    beat();
                }
                let (r, _) = run(k);
                points += 1;
                if r.is_ok() {
                    return Err(format!("HARNESS: no panic at point {k}"));
                }
                for o in [(k as usize) % 2, 2 + (k as usize) % 3] {
                    let v = do_op(&d, plan, OPS[o], &mut calls).map_err(|e| format!("{e}\nafter a call of {} that panicked at element operation {k}\ntransform: {}", m.name(), plan.rust()))?.unwrap();
                    if let Some(i) = close::<Hk>(&v, &base[o]) {
                        return Err(format!(
                            "element {i} is {:?}, but {:?} when this is the only call: {}\nafter a call of {} on the same transform that panicked at element operation {k} of {total}\ntransform: {} over a user-defined element type whose arithmetic panics",
                            v[i],
                            base[o][i],
                            op_name(OPS[o]),
                            m.name(),
                            plan.rust()
                        ));
                    }
                }
            }
        }
        // during construction
        hk::set_mode(1, 0);
        let _ = try_build::<Hk>(plan)?;
        let total = hk::count();
        hk::set_mode(0, 0);
        for k in 0..total {
            hk::set_mode(2, k);
            let r = try_build::<Hk>(plan);
            hk::set_mode(0, 0);
            points += 1;
            if r.is_ok() {
                return Err(format!("HARNESS: no panic at construction point {k}"));
            }
            let d = try_build::<Hk>(plan).map_err(|e| format!("{e}\nafter a construction that panicked at element operation {k}"))?;
            let o = k as usize % RES;
            let v = do_op(&d, plan, OPS[o], &mut calls)?.unwrap();
            if let Some(i) = close::<Hk>(&v, &base[o]) {
                return Err(format!("element {i} is {:?}, but {:?} in a fresh process: {}\nafter a construction of the same transform that panicked at element operation {k}\ntransform: {}", v[i], base[o][i], op_name(OPS[o]), plan.rust()));
            }
        }
        Ok(vec![calls as f64, points as f64])
    });
    let r = match r {
        Err(e) if e.starts_with("HARNESS") => panic!("{e}"),
        r => r?,
    };
    st.add("transitions", r[0] as u64 + r[1] as u64);
    st.add("traces", r[1] as u64);
    st.add("injected_panics", r[1] as u64);
    Ok(())
}

/// many calls on one instance
fn repeat(plan: &Plan, count: usize, construct: bool, st: &mut Stats) -> Result<(), String> {
    let base = baseline::<f64>(plan, st)?;
    let r = child::run(|| {
        let mut d = try_build::<f64>(plan)?;
        let mut calls = 0;
        for q in 0..count {
            if construct {
                d = try_build::<f64>(plan)?;
            }
            let o = if q % 997 == 0 { q / 997 % RES } else { q % 2 };
            let v = do_op(&d, plan, OPS[o], &mut calls).map_err(|e| format!("{e}\ncall number {q}"))?.unwrap();
            if let Some(i) = close::<f64>(&v, &base[o]) {
                return Err(format!("element {i} is {:?}, but {:?} when this is the only call: {}\n{} number {} on {}", v[i], base[o][i], op_name(OPS[o]), if construct { "construction and call" } else { "call" }, q + 1, plan.rust()));
            }
            if q % 4096 == 0 {
                beat();
            }
        }
        Ok(vec![calls as f64])
    })?;
    st.add("transitions", r[0] as u64);
    st.trace();
    Ok(())
}

/// constructing and using two transforms in turn, over and over
fn churn(a: &Plan, b: &Plan, count: usize, st: &mut Stats) -> Result<(), String> {
    let ps = [a, b];
    let base = [baseline::<f64>(a, st)?, baseline::<f64>(b, st)?];
    let r = child::run(|| {
        let mut calls = 0;
        for q in 0..count {
            // a b a a b a b b ...: either may come at an even or odd place
            let w = (q + q / 4097) % 2;
            let d = try_build::<f64>(ps[w])?;
            let o = q % 2;
            let v = do_op(&d, ps[w], OPS[o], &mut calls).map_err(|e| format!("{e}\nconstruction number {q}"))?.unwrap();
            if let Some(i) = close::<f64>(&v, &base[w][o]) {
                return Err(format!("element {i} is {:?}, but {:?} when this is the only call: {}\nconstruction and call number {} of {} and {} in turn (this is {})", v[i], base[w][o][i], op_name(OPS[o]), q + 1, a.rust(), b.rust(), ps[w].rust()));
            }
            if q % 4096 == 0 {
                beat();
            }
        }
        Ok(vec![calls as f64])
    })?;
    st.add("transitions", r[0] as u64);
    st.trace();
    Ok(())
}

fn cons_pair(tx: &str, px: &Plan, ty: &str, py: &Plan, st: &mut Stats) -> Result<(), String> {
    fn first<T: Elem>(p: &Plan) -> Result<Vec<Arc<dyn Dht<T>>>, String> {
        let d = try_build::<T>(p)?;
        let _ = do_op(&d, p, OPS[0], &mut 0)?;
        let _ = do_op(&d, p, OPS[1], &mut 0)?;
        Ok(vec![d])
    }
    fn second<T: Elem>(p: &Plan, what: &str, pre: &dyn Fn() -> Result<Box<dyn std::any::Any>, String>, st: &mut Stats) -> Result<(), String> {
        for keep in [true, false] {
            for o in [0usize, 1] {
                let b = baseline1::<T>(p, o)?;
                let v = child::run(|| {
                    let k = pre()?;
                    if !keep {
                        drop(k);
                        let d = try_build::<T>(p)?;
                        return do_op(&d, p, OPS[o], &mut 0).map(|r| r.unwrap());
                    }
                    let d = try_build::<T>(p)?;
                    let r = do_op(&d, p, OPS[o], &mut 0).map(|r| r.unwrap());
                    drop(k);
                    r
                })
                .map_err(|e| format!("{e}\nafter {what}"))?;
                st.call();
                st.call();
                st.trace();
                if let Some(i) = close::<T>(&v, &b) {
                    return Err(format!("element {i} is {:?}, but {:?} in a fresh process: {}\n{} as {}\nafter {what} ({})", v[i], b[i], op_name(OPS[o]), p.rust(), T::NAME, if keep { "still alive" } else { "dropped" }));
                }
            }
        }
        Ok(())
    }
    let what = format!("constructing and using {} as {tx}", px.rust());
    let pre: Box<dyn Fn() -> Result<Box<dyn std::any::Any>, String>> = match tx {
        "f32" => Box::new(|| Ok(Box::new(first::<f32>(px)?) as Box<dyn std::any::Any>)),
        _ => Box::new(|| Ok(Box::new(first::<f64>(px)?) as Box<dyn std::any::Any>)),
    };
    match ty {
        "f32" => second::<f32>(py, &what, &*pre, st),
        _ => second::<f64>(py, &what, &*pre, st),
    }
}

/// all transforms of a family built and used one after another in one process, each compared with its own fresh process
fn chain_plans(fam: &str, top: usize) -> Vec<Plan> {
    let mut v = Vec::new();
    for n in 1..=top {
        match fam {
            "N" => v.push(N(n)),
            "MR" => {
                for w in 1..=n {
                    if n % w == 0 && n <= 160 {
                        v.push(mr(N(w), N(n / w)));
                    }
                }
            }
            "SR" => {
                if n % 4 == 0 {
                    v.push(sr(N(n / 4), N(n / 2)))
                }
            }
            "RA" => {
                if is_prime(n) {
                    v.push(ra(N(n - 1)))
                }
            }
            "R" => {
                if n.is_power_of_two() {
                    v.push(R4(n))
                }
            }
            "A" => {
                for s in 0..4 {
                    v.push(auto(n, s));
                }
            }
            f => {
                let k: usize = f[1..].parse().unwrap();
                if n % k == 0 {
                    v.push(x(k, N(n / k)))
                }
            }
        }
    }
    let mut s = std::collections::HashSet::new();
    v.retain(|p| s.insert(p.clone()));
    v
}
fn chain<T: Elem>(fam: &str, lo: usize, hi: usize, order: &str, st: &mut Stats) -> Result<(), String> {
    let mut ps = chain_plans(fam, hi);
    ps.retain(|p| p.len() >= lo);
    let mut base: HashMap<Plan, Vec<f64>> = HashMap::new();
    for p in &ps {
        base.insert(p.clone(), baseline1::<T>(p, 0)?);
        beat();
        st.call();
    }
    match order {
        "up" => {}
        "down" => ps.reverse(),
        _ => {
            // large and small alternating
            let n = ps.len();
            ps = (0..n).map(|i| if i % 2 == 0 { ps[i / 2].clone() } else { ps[n - 1 - i / 2].clone() }).collect();
        }
    }
    let r = child::run(|| {
        let mut calls = 0;
        let mut alive: Vec<(Plan, Arc<dyn Dht<T>>)> = Vec::new();
        let judge = |p: &Plan, d: &Arc<dyn Dht<T>>, when: &str, calls: &mut u64| -> Result<(), String> {
            let v = do_op(d, p, OPS[0], calls)?.unwrap();
            match close::<T>(&v, &base[p]) {
                Some(i) => Err(format!("element {i} is {:?}, but {:?} in a fresh process: {} as {}, {when} (lengths {lo}..={hi} of the same family, order {order})", v[i], base[p][i], p.rust(), T::NAME)),
                None => Ok(()),
            }
        };
        for p in &ps {
            let d = try_build::<T>(p)?;
            judge(p, &d, "constructed after other transforms", &mut calls)?;
            alive.push((p.clone(), d));
        }
        for (p, d) in &alive {
            judge(p, d, "used again after other transforms were constructed and used", &mut calls)?;
        }
        Ok(vec![calls as f64])
    })?;
    st.add("transitions", r[0] as u64);
    st.add("traces", r[0] as u64);
    Ok(())
}

/// configurations of a family, for the enumeration of all ordered pairs of constructions
fn family(fam: &str, top: usize) -> Vec<(bool, Plan)> {
    let one = |ps: Vec<Plan>| ps.into_iter().map(|p| (false, p)).collect();
    match fam {
        "N" => one((1..=top).map(N).collect()),
        "R" => one((0..=top).map(|e| R4(1 << e)).collect()),
        "SR" => one((1..=top).map(|q| sr(F(q), F(2 * q))).collect()),
        "RA" => one((2..=top).filter(|&p| is_prime(p)).map(|p| ra(F(p - 1))).collect()),
        "MR" => one((1..=top).flat_map(|w| (1..=top).map(move |h| mr(F(w), F(h)))).collect()),
        // all algorithms and both element types
        "ALL" => {
            let mut v: Vec<Plan> = reps();
            for n in 1..=top {
                v.extend(Trees::new(true).get(n, 1));
            }
            let mut s = std::collections::HashSet::new();
            v.retain(|p| s.insert(p.clone()));
            v.iter().flat_map(|p| [(false, p.clone()), (true, p.clone())]).collect()
        }
        f => {
            let k: usize = f[1..].parse().unwrap();
            one((1..=top).map(|h| x(k, F(h))).collect())
        }
    }
}
/// Every ordered pair of configurations as consecutive constructions in one process (part `r` of `parts`).
fn pairs(fam: &str, top: usize, r: usize, parts: usize, st: &mut Stats) -> Result<(), String> {
    let cf = family(fam, top);
    let go = |c: usize, o: usize| -> Result<Vec<f64>, String> {
        let (single, p) = &cf[c];
        Ok(if *single {
            let d = try_build::<f32>(p)?;
            do_op(&d, p, OPS[o], &mut 0)?.unwrap()
        } else {
            let d = try_build::<f64>(p)?;
            do_op(&d, p, OPS[o], &mut 0)?.unwrap()
        })
    };
    let name = |c: usize| format!("{} as {}", cf[c].1.rust(), if cf[c].0 { "f32" } else { "f64" });
    let mut base: Vec<[Vec<f64>; 2]> = Vec::new();
    for c in 0..cf.len() {
        let b = |o| child::run(|| go(c, o)).map_err(|e| format!("{e}\n{} in a fresh process", name(c)));
        base.push([b(0)?, b(1)?]);
        beat();
    }
    let res = child::run(|| {
        let mut steps = 0u64;
        let mut last: Option<usize> = None;
        let mut step = |c: usize| -> Result<(), String> {
            let o = steps as usize % 2;
            let after = last.map_or(String::from("at first"), |l| format!("right after constructing and using {}", name(l)));
            let v = go(c, o).map_err(|e| format!("{e}\n{} {after}", name(c)))?;
            let bad = if cf[c].0 { close::<f32>(&v, &base[c][o]) } else { close::<f64>(&v, &base[c][o]) };
            if let Some(i) = bad {
                return Err(format!("element {i} is {:?}, but {:?} in a fresh process: {} {after}", v.get(i), base[c][o].get(i), name(c)));
            }
            last = Some(c);
            steps += 1;
            if steps % 64 == 0 {
                beat();
            }
            Ok(())
        };
        for i in (r..cf.len()).step_by(parts) {
            // i i j i j' i j'' ...: all (i,j) and (j,i) with j >= i
            step(i)?;
            for j in i + 1..cf.len() {
                step(i)?;
                step(j)?;
            }
            step(i)?;
        }
        Ok(vec![steps as f64])
    })?;
    st.add("transitions", res[0] as u64);
    st.add("traces", res[0] as u64);
    st.add("ordered_construction_pairs", res[0] as u64);
    Ok(())
}

fn state_case(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    match f[0] {
        "hist" => {
            let (a, b, d) = (parse(f[2]), parse(f[3]), f[4].parse().unwrap());
            match f[1] {
                "f32" => history::<f32>(&a, &b, d, st)?,
                _ => history::<f64>(&a, &b, d, st)?,
            }
        }
        "inj" => inject(&parse(f[1]), st)?,
        "rep" => repeat(&parse(f[1]), f[2].parse().unwrap(), false, st)?,
        "repc" => repeat(&parse(f[1]), f[2].parse().unwrap(), true, st)?,
        "churn" => churn(&parse(f[1]), &parse(f[2]), f[3].parse().unwrap(), st)?,
        "rel" => match f[1] {
            "f32" => related::<f32>(&parse(f[2]), f[3].parse().unwrap(), st)?,
            _ => related::<f64>(&parse(f[2]), f[3].parse().unwrap(), st)?,
        },
        "cons" => cons_pair(f[1], &parse(f[2]), f[3], &parse(f[4]), st)?,
        "pairs" => pairs(f[1], f[2].parse().unwrap(), f[3].parse().unwrap(), f[4].parse().unwrap(), st)?,
        "chain" => match f[1] {
            "f32" => chain::<f32>(f[2], f[3].parse().unwrap(), f[4].parse().unwrap(), f[5], st)?,
            _ => chain::<f64>(f[2], f[3].parse().unwrap(), f[4].parse().unwrap(), f[5], st)?,
        },
        _ => panic!("HARNESS: {case}"),
    }
    st.state(hash(case));
    st.outcomes.insert(hash(case));
    if st.samples.is_empty() {
        st.samples.push(format!("{case}: every result equals that of the same call as the first use of the library in a fresh process"));
    }
    Ok(())
}
/// one or two small instances of every algorithm
fn reps() -> Vec<Plan> {
    vec![
        N(3), N(8), B(1), B(2), B(3), B(4), B(5), B(6), B(8), B(9), B(16), R4(8), R4(32), R4(64), R4(128),
        mr(N(3), N(4)), mr(B(4), B(3)), mr(B(2), B(2)), mr(B(5), N(3)), x(2, N(3)), x(2, B(4)), x(3, B(3)), x(3, N(4)), x(4, B(3)), x(4, N(4)), x(5, B(2)), x(5, N(3)), x(6, B(2)), x(6, N(3)),
        sr(B(1), B(2)), sr(B(2), B(4)), sr(N(3), N(6)), ra(B(1)), ra(B(2)), ra(B(4)), ra(N(6)), ra(N(10)),
        x(2, M(3, 9, 8, true)), x(3, M(2, 7, 7, true)), x(4, M(2, 12, 9, true)), x(5, M(2, 12, 12, true)), x(6, M(2, 14, 15, true)), mr(M(2, 7, 8, true), M(3, 9, 0, true)), sr(M(2, 9, 5, true), M(4, 11, 1, true)), ra(M(4, 6, 1, true)),
    ]
}
pub fn c11() -> Prop {
    Prop {
        id: "C11",
        cases: |th| {
            let mut v = Vec::new();
            let r = reps();
            for (i, p) in r.iter().enumerate() {
                // with itself, with a neighbour, with a transform that contains it
                v.push(format!("hist f64 {p} {p} {}", if th && p.len() <= 16 { 4 } else { 3 }));
                v.push(format!("hist f32 {p} {p} 2"));
                v.push(format!("hist f64 {p} {} 3", r[(i + 7) % r.len()]));
                if !matches!(p, M(..)) && p.len() <= 16 {
                    v.push(format!("hist f64 {p} {} 3", x(2 + i % 5, p.clone())));
                    v.push(format!("hist f64 {} {} 2", mr(p.clone(), N(3)), x(3, p.clone())));
                    v.push(format!("hist f64 {} {} 2", mr(N(2), p.clone()), mr(p.clone(), N(2))));
                }
                if th {
                    for q in &r {
                        v.push(format!("hist f64 {p} {q} 2"));
                    }
                }
            }
            for p in small_plans(if th { 16 } else { 9 }, if th { 12 } else { 6 }).into_iter().chain(r.iter().cloned()) {
                v.push(format!("inj {p}"));
            }
            for p in &r {
                v.push(format!("rep {p} {}", if th { 300_000 } else { 70_000 }));
                if p.len() <= 16 {
                    v.push(format!("repc {p} {}", if th { 140_000 } else { 3_000 }));
                }
            }
            for p in &r {
                v.push(format!("rel f64 {p} 1"));
                v.push(format!("rel f64 {p} 2"));
                v.push(format!("rel f32 {p} 1"));
            }
            for n in (1..=if th { 300 } else { 64 }).chain([100, 128, 200, 256, 257, 500, 512]) {
                for s in 0..4 {
                    v.push(format!("rel f64 {} 1", auto(n, s)));
                    if th {
                        v.push(format!("rel f64 {} 3", auto(n, s)));
                    }
                }
                if n <= 256 {
                    v.push(format!("rel f64 N{n} 1"));
                }
            }
            v.push("repc B4 70000".into());
            v.push("repc X3(B2) 70000".into());
            v.push("repc MR(B2,B3) 70000".into());
            v.push("repc R8 70000".into());
            let mut kin = vec![(ra(B(2)), ra(B(4))), (ra(B(4)), ra(B(6))), (ra(N(10)), ra(B(6))), (mr(B(2), B(2)), mr(B(2), B(3))), (sr(B(1), B(2)), sr(B(2), B(4))), (R4(4), R4(8)), (R4(16), R4(32)), (R4(64), R4(128)), (N(2), N(3)), (N(5), N(7)), (B(3), B(5)), (B(6), B(9)), (B(8), B(16)), (ra(B(4)), x(5, B(1))), (mr(B(2), B(3)), x(2, B(3)))];
            for k in 2..=6 {
                kin.push((x(k, B(1)), x(k, B(2))));
                kin.push((x(k, B(3)), x(k, B(4))));
            }
            for (a, b) in &kin {
                v.push(format!("churn {a} {b} {}", if th { 600_000 } else { 140_000 }));
            }
            // construction orders
            let mut set: Vec<Plan> = r.clone();
            for n in [6usize, 8, 12] {
                set.extend(Trees::new(true).get(n, 1));
            }
            set.extend([R4(16), R4(256), R4(512), x(4, N(16)), x(4, B(16)), mr(N(8), N(16)), sr(N(32), N(64)), ra(N(12)), ra(N(16)), ra(N(18))]);
            let mut s = std::collections::HashSet::new();
            set.retain(|p| s.insert(p.clone()));
            for a in &set {
                for b in &set {
                    for (ta, tb) in [("f64", "f64"), ("f32", "f64"), ("f64", "f32"), ("f32", "f32")] {
                        let related = a.len() == b.len() || a.alg() == b.alg();
                        if th || (ta == "f64" && tb == "f64") || (related && (a.len() + b.len()) % 2 == 0) {
                            v.push(format!("cons {ta} {a} {tb} {b}"));
                        }
                    }
                }
            }
            for fam in ["N", "MR", "SR", "RA", "R", "X2", "X3", "X4", "X5", "X6", "A"] {
                for o in ["up", "down", "alt"] {
                    let top = if fam == "R" {
                        65536
                    } else if fam == "N" {
                        600
                    } else {
                        700
                    };
                    v.push(format!("chain f64 {fam} 1 {top} {o}"));
                    if o != "alt" {
                        v.push(format!("chain f32 {fam} 1 {} {o}", top / 2));
                    }
                }
            }
            for (fam, q, t) in [("N", 150, 300), ("R", 12, 15), ("SR", 160, 500), ("RA", 1100, 3000), ("MR", 13, 24), ("X2", 160, 500), ("X3", 160, 500), ("X4", 160, 500), ("X5", 160, 500), ("X6", 160, 500), ("ALL", 10, 24)] {
                let parts = if fam == "R" { 1 } else if th { 32 } else { 8 };
                for r in 0..parts {
                    v.push(format!("pairs {fam} {} {r} {parts}", if th { t } else { q }));
                }
            }
            v.sort_by_key(|c| !(c.starts_with("chain") || c.starts_with("churn") || c.starts_with("rep") || c.starts_with("pairs")));
            uniq(v)
        },
        exec: state_case,
        rule: "one case = all operation sequences of a depth over two transforms; or all panic injection points of a transform; or an ordered construction history; or a long call history. The oracle is the same call as the only use of the library in a freshly forked process",
        bounds: |th| {
            format!(
                "all sequences of {} operations over 2 transforms x 13 operations (5 results, 3 with NaN/inf/huge data, 4 rejected, 1 construction) for {} transform pairs; a panic injected at every element operation / inner call of every plan of depth <= 1 for every length <= {}; up to {} consecutive calls; ordered pairs of constructions; every ordered pair of consecutive calls over {} related inputs (one element changed, negated, rotated, ...) x 3 methods, same and other buffers; chains of all lengths to 700 per family in three orders; every ordered pair of constructions within a family (prime lengths to {}, k x h to h = {}, all algorithms and both element types at lengths <= {})",
                if th { "4, 3 or 2" } else { "3 or 2" },
                if th { "2000" } else { "200" },
                if th { 16 } else { 9 },
                if th { 300_000 } else { 70_000 },
                "10 to 34",
                if th { 3000 } else { 1100 },
                if th { 500 } else { 160 },
                if th { 24 } else { 10 }
            )
        },
        assumptions: &["results are compared with a tolerance of 64 rounding units of the element type relative to the largest output"],
        hang_s: 120,
    }
}
