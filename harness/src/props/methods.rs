//! C06-C09: the processing methods, scratch and chunks.
use super::*;
use crate::lane::{arena, generic, Lane};
use crate::plan::Plan::*;

/// plans for coefficient-exact exploration: every leaf, every depth-1 composite over every leaf kind, depth 2 with one leaf kind
pub fn small_plans(n1: usize, n2: usize) -> Vec<Plan> {
    let mut v = Vec::new();
    let mut t = Trees::new(false);
    let mut t1 = Trees::new(true);
    for n in 1..=n1 {
        v.extend(t.get(n, 1));
    }
    for n in 1..=n2 {
        v.extend(t1.get(n, 2));
    }
    v.sort_by_key(|p| (p.len(), p.depth()));
    let mut s = std::collections::HashSet::new();
    v.retain(|p| s.insert(p.clone()));
    v
}
/// every algorithm at long lengths up to `top`: powers of two, their neighbours, and others
pub fn far_plans(top: usize) -> Vec<Plan> {
    let mut v = Vec::new();
    let hs = [200usize, 255, 256, 257, 341, 500, 512, 513, 683, 1000, 1023, 1024, 1025, 1365, 2000, 2048, 3000, 4096, 5461, 8191, 8192, 10922, 16384, 21845, 32768, 65536, 65537];
    for h in hs {
        for k in 2..=6 {
            v.push(x(k, F(h)));
        }
        v.push(sr(F(h), F(2 * h)));
    }
    for (w, h) in [(2usize, 1024usize), (2, 2048), (3, 4096), (64, 64), (100, 100), (63, 65), (128, 128), (127, 129), (256, 256), (255, 257), (7, 1000), (16, 1024), (32, 512), (200, 300), (5, 8192), (2, 65536)] {
        v.push(mr(F(w), F(h)));
        v.push(mr(F(h), F(w)));
    }
    for p in [1009usize, 1021, 1031, 2039, 2053, 4093, 4099, 8191, 8209, 10007, 16381, 16411, 32771, 65521, 65537, 131071] {
        v.push(ra(F(p - 1)));
    }
    for e in 9..=17 {
        v.push(R4(1 << e));
    }
    for n in [1000usize, 1023, 1024, 1025, 1536, 2000, 2047, 2048, 2049, 2187, 2500, 3000, 3125, 4000, 4095, 4096, 4097, 5040, 6561, 8191, 8192, 10000, 15625, 16383, 16384, 16385, 32767, 32768, 32769, 46656, 65535, 65536, 65537, 131071, 131072, 131073] {
        for s in 0..4 {
            v.push(auto(n, s));
        }
    }
    for n in [500usize, 512, 1000, 1024, 2000, 2048] {
        v.push(N(n));
    }
    v.retain(|p| p.len() <= top);
    v
}
/// a few hundred thousand to a million points
pub fn extreme_plans() -> Vec<Plan> {
    let mut v = vec![R4(1 << 18), R4(1 << 19), R4(1 << 20), mr(F(512), F(513)), mr(F(3), F(100_000)), mr(F(100_000), F(4)), mr(F(1000), F(1000)), sr(F(65536), F(131072)), sr(F(100_001), F(200_002)), ra(F(262_146)), ra(F(524_286)), auto(1_000_000, 0), auto(531_441, 1), auto(1 << 18, 2), auto(1 << 19, 3), auto(262_143, 1)];
    for k in 2..=6 {
        v.push(x(k, F(100_003)));
        v.push(x(k, F(131_072)));
    }
    v
}
/// plans for concrete exploration: every algorithm over reference inners for a grid of sizes, and realistic plans of every length
pub fn long_plans(top: usize) -> Vec<Plan> {
    let mut v = Vec::new();
    for n in 1..=top {
        for s in 0..4 {
            v.push(auto(n, s));
        }
        if n <= 400 {
            v.push(N(n));
        }
        for k in 2..=6 {
            if n % k == 0 {
                v.push(x(k, F(n / k)));
            }
        }
        if n % 4 == 0 {
            v.push(sr(F(n / 4), F(n / 2)));
        }
        if is_prime(n) {
            v.push(ra(F(n - 1)));
        }
        if n.is_power_of_two() {
            v.push(R4(n));
        }
    }
    for w in 1..=top / 20 {
        for h in 1..=top / 20 {
            v.push(mr(F(w), F(h)));
        }
    }
    v.extend(far_plans(140_000));
    let mut s = std::collections::HashSet::new();
    v.retain(|p| s.insert(p.clone()));
    v
}

// ------------------------------------------------------------------------------------------------- C06
fn agree(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let plan = parse(f[1]);
    let n = plan.len();
    let chunks: usize = f[2].parse().unwrap();
    let extra: usize = f[3].parse().unwrap();
    let len = n * chunks;
    fn all<T: Elem>(plan: &Plan, chunks: usize, extra: usize, x: &[f64], st: &mut Stats) -> Result<Vec<Vec<f64>>, String> {
        let d = try_build::<T>(plan)?;
        METHS.iter().map(|&m| concrete(&*d, Shape { m, chunks, extra }, x, &|_| f64::NAN, &|_| f64::NAN, st).map_err(|e| format!("{e}\ntransform: {}", plan.rust()))).collect()
    }
    fn compare<T: Elem>(plan: &Plan, chunks: usize, extra: usize, x: &[f64], r: &[Vec<f64>], tol: f64) -> Option<String> {
        for i in 1..3 {
            for k in 0..x.len() {
                let (a, b) = (r[0][k], r[i][k]);
                if !((a - b).abs() <= tol) {
                    return Some(format!(
                        "{} and {} disagree at element {k}: {a:?} and {b:?}\ntransform: {} as {}, {chunks} chunk(s), scratch {extra} longer than required, input {}",
                        METHS[0].name(),
                        METHS[i].name(),
                        plan.rust(),
                        T::NAME,
                        show(x)
                    ));
                }
            }
        }
        None
    }
    match f[0] {
        "agree" => {
            let d = try_build::<Lane>(&plan)?;
            explore(
                len,
                hash(case),
                st,
                &mut |st| {
                    let mut outs: Vec<Vec<Lane>> = Vec::new();
                    for m in METHS {
                        let a = arena();
                        let mut b: Vec<Lane> = (0..len).map(|i| a.unknown(i)).collect();
                        let mut sc = vec![<Lane as Elem>::of(7.25); scratch_len(&*d, m) + if m == Meth::P { 0 } else { extra }];
                        let mut o = vec![<Lane as Elem>::of(-3.5); if m == Meth::O { len } else { 0 }];
                        st.call();
                        if let Err(e) = call(&*d, m, &mut b, &mut o, &mut sc) {
                            return Some(Mismatch { unknown: None, why: format!("{} panicked on a correctly sized call: {e}", m.name()) });
                        }
                        outs.push(if m == Meth::O { o } else { b });
                    }
                    let a = arena();
                    for i in 1..3 {
                        for k in 0..len {
                            let (mut p, q) = (a.form(outs[0][k]), a.form(outs[i][k]));
                            for (x, y) in p.iter_mut().zip(&q) {
                                *x -= y;
                            }
                            if a.has_eqs() {
                                a.reduce(&mut p);
                            }
                            if let Some(u) = p.iter().position(|x| !(x.abs() <= TOL)) {
                                return Some(Mismatch { unknown: if u < len { Some(u) } else { None }, why: format!("{} and {} disagree at element {k}", METHS[0].name(), METHS[i].name()) });
                            }
                        }
                    }
                    None
                },
                &mut |w, _| {
                    let mut s2 = Stats::default();
                    match all::<f64>(&plan, chunks, extra, &w[..len], &mut s2) {
                        Err(e) => Some(e),
                        Ok(r) => compare::<f64>(&plan, chunks, extra, &w[..len], &r, 1e-9 * (1.0 + w[..len].iter().map(|v| v.abs()).sum::<f64>())),
                    }
                },
            )?;
        }
        "agreef" => {
            let amp = 4f64.powi(plan.raders() as i32);
            for v in 0..2 {
                let x: Vec<f64> = (0..len).map(|i| if v == 0 { generic(i) } else { generic(i * 7 + 3) * if i % 5 == 0 { 40.0 } else { 0.01 } }).collect();
                let r = all::<f64>(&plan, chunks, extra, &x, st)?;
                st.trace();
                beat();
                if let Some(e) = compare::<f64>(&plan, chunks, extra, &x, &r, tol_concrete(&x) * amp) {
                    return Err(e);
                }
                if n <= 2048 {
                    let x: Vec<f64> = x.iter().map(|&v| v as f32 as f64).collect();
                    let r = all::<f32>(&plan, chunks, extra, &x, st)?;
                    st.trace();
                    if let Some(e) = compare::<f32>(&plan, chunks, extra, &x, &r, tol_concrete(&x) * 1e8 * amp) {
                        return Err(e);
                    }
                }
            }
            st.state(hash(case));
        }
        // structured data: alone, and as one buffer of many chunks
        "agrees" => {
            let amp = 4f64.powi(plan.raders() as i32);
            let ins: Vec<Vec<f64>> = structured(n).into_iter().map(|(_, x, e)| x.iter().map(|v| v * 2f64.powi(e.signum() * 40)).collect()).collect();
            for x in ins.iter().cloned().chain([ins.concat()]) {
                let c = x.len() / n;
                let r = all::<f64>(&plan, c, extra, &x, st)?;
                st.trace();
                beat();
                for (j, y) in x.chunks(n).enumerate() {
                    let sub: Vec<Vec<f64>> = r.iter().map(|r| r[j * n..(j + 1) * n].to_vec()).collect();
                    if let Some(e) = compare::<f64>(&plan, c, extra, y, &sub, (tol_concrete(y) - 1e-12) * 4.0 * amp + f64::MIN_POSITIVE) {
                        return Err(format!("{e} (chunk {j} of {c})"));
                    }
                }
            }
            st.state(hash(case));
        }
        _ => panic!("HARNESS: {case}"),
    }
    st.outcomes.insert(mix(hash(f[0]), (n * 100 + chunks) as u64));
    if st.samples.is_empty() {
        st.samples.push(format!("{plan}, {chunks} chunk(s), scratch +{extra}: process = process_with_scratch = process_outofplace_with_scratch on all basis inputs"));
    }
    Ok(())
}
pub fn c06() -> Prop {
    Prop {
        id: "C06",
        cases: |th| {
            let mut v = Vec::new();
            for p in small_plans(if th { 100 } else { 60 }, if th { 48 } else { 24 }) {
                let n = p.len();
                v.push(format!("agree {p} 1 0"));
                v.push(format!("agree {p} 2 {}", 1 + n % 3));
                if n <= 12 {
                    v.push(format!("agree {p} 3 {n}"));
                }
            }
            for p in long_plans(if th { 6000 } else { 2000 }).into_iter().chain(extreme_plans()) {
                let n = p.len();
                v.push(format!("agreef {p} 1 0"));
                if n <= 1200 {
                    v.push(format!("agreef {p} {} {}", 2 + n % 3, 1 + n % 7));
                }
                if n <= 64 {
                    v.push(format!("agreef {p} 5 {}", 3 * n));
                    v.push(format!("agreef {p} 17 0"));
                }
                if n <= if th { 1500 } else { 500 } || n.is_power_of_two() && n <= 4096 {
                    v.push(format!("agrees {p} 1 {}", n % 2));
                }
                // much more scratch than required
                if n <= 1500 {
                    for e in [n, 2 * n, 4 * n + 1] {
                        v.push(format!("agreef {p} {} {e}", 1 + e % 2));
                    }
                }
            }
            // every chunk count
            for p in chunk_reps() {
                for c in (1..=if th { 300 } else { 80 }).chain([96, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096, 4097, 10000]) {
                    for e in [0, 1, p.len()] {
                        v.push(format!("agreef {p} {c} {e}"));
                    }
                }
                for c in [65535, 65536, 65537] {
                    v.push(format!("agreef {p} {c} 0"));
                }
            }
            uniq(v)
        },
        exec: agree,
        rule: "one case = transform x number of chunks x scratch size, all three methods compared pairwise; distinct by its text",
        bounds: |th| {
            format!(
                "coefficient-exact: every plan of depth <= 1 for every length <= {} and depth <= 2 (one leaf kind) <= {}, 1-3 chunks, exact and larger scratch; concrete f64 and f32: every algorithm and four realistic plans for every length <= {}, mixed radix for all w,h <= {}, powers of two to 2^17, every algorithm at selected lengths to 10^6, up to 17 chunks",
                if th { 100 } else { 60 },
                if th { 48 } else { 24 },
                if th { 6000 } else { 2000 },
                if th { 300 } else { 100 }
            )
        },
        assumptions: &["the three methods are compared with each other only, not with the Hartley transform", "comparisons of data are choice points of the exploration"],
        hang_s: 120,
    }
}

// ------------------------------------------------------------------------------------------------- C07
const FILLS: [f64; 6] = [0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -0.37];
fn dirty(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let plan = parse(f[1]);
    let n = plan.len();
    let sh = Shape::parse(&f[2..]);
    let conc = |x: &[f64], which: Option<(bool, usize)>, st: &mut Stats| -> Option<String> {
        fn go<T: Elem>(plan: &Plan, sh: Shape, x: &[f64], which: Option<(bool, usize)>, st: &mut Stats) -> Option<String> {
            let d = match try_build::<T>(plan) {
                Ok(d) => d,
                Err(e) => return Some(e),
            };
            let mut base: Option<Vec<f64>> = None;
            // every combination for scratch and stale output (stale only matters out of place)
            for &fs in &FILLS {
                for &fo in if sh.m == Meth::O { &FILLS[..] } else { &FILLS[..1] } {
                    let sc = |i: usize| if which.map_or(true, |(o, k)| !o && k == i) { fs } else { 0.5 };
                    let so = |i: usize| if which.map_or(true, |(o, k)| o && k == i) { fo } else { 0.5 };
                    let y = match concrete(&*d, sh, x, &sc, &so, st) {
                        Ok(y) => y,
                        Err(e) => return Some(format!("{e}\ntransform: {}", plan.rust())),
                    };
                    st.trace();
                    match &base {
                        None => base = Some(y),
                        Some(b) => {
                            let tol = 1e-13 * x.iter().map(|v| v.abs()).fold(1.0, f64::max) * x.len() as f64 * T::EPS / f64::EPSILON;
                            for k in 0..y.len() {
                                if !((y[k] - b[k]).abs() <= tol) {
                                    return Some(format!(
                                        "element {k} of the result is {:?} with zeroes and {:?} with {fs:?} in the scratch buffer and {fo:?} in the output buffer beforehand\ntransform: {} as {}, method {}, {} chunk(s), scratch {} longer than required\ninput {}",
                                        b[k],
                                        y[k],
                                        plan.rust(),
                                        T::NAME,
                                        sh.m.name(),
                                        sh.chunks,
                                        sh.extra,
                                        show(x)
                                    ));
                                }
                            }
                        }
                    }
                }
            }
            None
        }
        go::<f64>(&plan, sh, x, which, st).or_else(|| if plan.len() <= 512 { go::<f32>(&plan, sh, x, which, st) } else { None })
    };
    match f[0] {
        "dep" => {
            let check = |a: &crate::lane::Arena, out: &[Lane], lay: &Layout| -> Option<Mismatch> {
                for (k, v) in out.iter().enumerate() {
                    for u in lay.inputs..lay.total() {
                        if a.depends(*v, u) {
                            return Some(Mismatch { unknown: Some(u), why: format!("result element {k} depends on {}", lay.name(u)) });
                        }
                    }
                }
                // on paths chosen by scratch/stale data the result must still be the same: dependence through control
                if !a.trace.is_empty() {
                    let d = arena();
                    let t: Vec<f64> = (0..n).map(|i| cas(i, n)).collect();
                    for j in 0..out.len() / n {
                        for k in 0..n {
                            let mut f = d.form(out[j * n + k]);
                            for i in 0..n {
                                f[j * n + i] -= t[i * k % n];
                            }
                            d.reduce(&mut f);
                            if let Some(u) = f.iter().position(|x| !(x.abs() <= TOL)) {
                                return Some(Mismatch { unknown: if u < lay.total() { Some(u) } else { None }, why: format!("result element {k} of chunk {j} differs on a path chosen by comparing data") });
                            }
                        }
                    }
                }
                None
            };
            let confirm = |w: &[f64], u: Option<usize>, lay: &Layout| -> Option<String> {
                let x = &w[..lay.inputs];
                let mut s2 = Stats::default();
                // same input, different scratch / stale output: compare with what the same call gives on neutral contents
                let which = u.and_then(|u| if u >= lay.inputs + lay.scratch { Some((true, u - lay.inputs - lay.scratch)) } else if u >= lay.inputs { Some((false, u - lay.inputs)) } else { None });
                if let Some(e) = conc(x, which, &mut s2).or_else(|| conc(x, None, &mut s2)) {
                    return Some(e);
                }
                let d = try_build::<f64>(&plan).ok()?;
                let a = concrete(&*d, sh, x, &|_| 0.0, &|_| 0.0, &mut s2).ok()?;
                let b = concrete(&*d, sh, x, &|i| w[lay.inputs + i], &|i| w[lay.inputs + lay.scratch + i], &mut s2);
                match b {
                    Err(e) => Some(e),
                    Ok(b) => (0..a.len()).find(|&k| !((a[k] - b[k]).abs() <= 1e-9 * (1.0 + x.iter().map(|v| v.abs()).sum::<f64>()))).map(|k| {
                        format!("element {k} is {:?} with zeroed and {:?} with other scratch/output contents {}\ntransform: {}, method {}, input {}", a[k], b[k], show(&w[lay.inputs..]), plan.rust(), sh.m.name(), show(x))
                    }),
                }
            };
            lane_paths(&plan, sh, st, &check, &confirm)?;
        }
        "fill" => {
            let x: Vec<f64> = (0..n * sh.chunks).map(generic).collect();
            beat();
            if let Some(e) = conc(&x, None, st) {
                return Err(e);
            }
            st.state(hash(case));
        }
        "sfill" => {
            let d = try_build::<f64>(&plan)?;
            for (name, x, _) in structured(n) {
                let run = |s: f64, o: f64, st: &mut Stats| concrete(&*d, sh, &x, &|i| s * (1.0 + i as f64), &|i| o * (1.0 + i as f64), st).map_err(|e| format!("{e}\ntransform: {}", plan.rust()));
                let a = run(0.0, 0.0, st)?;
                for (s, o) in [(f64::NAN, f64::NAN), (0.7, -1.3), (f64::NAN, 0.0), (0.0, f64::NAN), (0.0, 2.25), (2.25, 0.0)] {
                    let b = run(s, o, st)?;
                    st.trace();
                    let tol = 1e-13 * x.iter().map(|v| v.abs()).fold(1e-300, f64::max) * n as f64;
                    if let Some(k) = (0..n).find(|&k| !((a[k] - b[k]).abs() <= tol)) {
                        return Err(format!(
                            "element {k} of the result is {:?} with zeroes and {:?} with multiples of {s:?} in the scratch buffer and of {o:?} in the output buffer beforehand\ntransform: {}, method {}, input: {name} {}",
                            a[k],
                            b[k],
                            plan.rust(),
                            sh.m.name(),
                            show(&x)
                        ));
                    }
                }
                beat();
            }
            st.state(hash(case));
        }
        _ => panic!("HARNESS: {case}"),
    }
    st.outcomes.insert(hash(&format!("{} {} {}", f[0], n, sh.text())));
    if st.samples.is_empty() {
        st.samples.push(format!("{plan} via {}: no result element depends on any of the initial scratch or stale output cells", sh.m.name()));
    }
    Ok(())
}
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        cases: |th| {
            let mut v = Vec::new();
            let mut put = |k: &str, p: &Plan, m: Meth, c: usize, e: usize| v.push(format!("{k} {p} {}", Shape { m, chunks: c, extra: e }.text()));
            for p in small_plans(if th { 90 } else { 60 }, if th { 40 } else { 24 }) {
                let n = p.len();
                for m in [Meth::S, Meth::O] {
                    put("dep", &p, m, 1, 0);
                    put("dep", &p, m, 2, 1 + n % 3);
                    if n <= 16 {
                        put("dep", &p, m, 1, n);
                        put("dep", &p, m, 3, 2 * n + 1);
                    }
                }
            }
            // inner transforms that ask for scratch of their own
            for p in super::methods::demand_plans(if th { 8 } else { 5 }, false) {
                for m in [Meth::S, Meth::O] {
                    put("dep", &p, m, 1, 0);
                    put("dep", &p, m, 2, 3);
                }
            }
            for p in long_plans(if th { 4000 } else { 1300 }).into_iter().chain(extreme_plans()) {
                let n = p.len();
                for m in [Meth::S, Meth::O] {
                    put("fill", &p, m, 1, 0);
                    if n <= 300 {
                        put("fill", &p, m, 2, 5);
                    }
                    if n <= if th { 1500 } else { 600 } {
                        for e in [n, 2 * n, 3 * n + 7] {
                            put("fill", &p, m, 1 + (n + e) % 3, e);
                        }
                        put("sfill", &p, m, 1, 0);
                    }
                }
            }
            for p in chunk_reps() {
                for m in [Meth::S, Meth::O] {
                    for c in (1..=if th { 100 } else { 40 }).chain([64, 65, 100, 128, 129, 256, 257, 1000, 1024]) {
                        put("fill", &p, m, c, c % 4 * p.len());
                    }
                }
            }
            for p in demand_plans(if th { 12 } else { 8 }, th) {
                for m in [Meth::S, Meth::O] {
                    put("fill", &p, m, 1, p.len());
                    put("fill", &p, m, 3, 0);
                }
            }
            uniq(v)
        },
        exec: dirty,
        rule: "one case = transform x method x chunks x scratch size with every scratch and stale output cell an unknown (or filled with each of 6 values); distinct by its text",
        bounds: |th| {
            format!(
                "structural dependence of every result element on every scratch/stale cell: every plan of depth <= 1 for every length <= {}, depth <= 2 <= {}, inner transforms with scratch demands; fills {{0, NaN, +-inf, 1e300, -0.37}}^2: every algorithm and realistic plans for every length <= {}, every algorithm at selected lengths to 10^6",
                if th { 90 } else { 60 },
                if th { 40 } else { 24 },
                if th { 4000 } else { 1300 }
            )
        },
        assumptions: &["a structural dependence counts only if it changes a concrete f64/f32 result (NaN included)"],
        hang_s: 120,
    }
}

// ------------------------------------------------------------------------------------------------- C08
fn primes_to(n: usize) -> Vec<usize> {
    (2..=n).filter(|&p| is_prime(p)).collect()
}
/// plans over user-written inner transforms with all interesting combinations of scratch demands
pub fn demand_plans(top: usize, wide: bool) -> Vec<Plan> {
    let mut v = Vec::new();
    let al = |h: usize, n: usize| {
        let mut a = vec![0, 1, h.saturating_sub(1), h, h + 1, n.saturating_sub(1), n, n + 1, n + h, 2 * n, 2 * n + 1, 3 * n + 1];
        a.sort();
        a.dedup();
        a
    };
    let al2 = |h: usize, n: usize| {
        let mut a = if wide { vec![0, 1, h, h + 1, n - 1, n, n + 1, n + h, 2 * n, 2 * n + 1, 5 * n] } else { vec![0, h + 1, n, n + 1, 2 * n + 3] };
        a.sort();
        a.dedup();
        a
    };
    for t in [false, true] {
        for k in 2..=6 {
            for h in 1..=top {
                let n = k * h;
                for i in al(h, n) {
                    for o in al(h, n) {
                        v.push(x(k, M(h, i, o, t)));
                    }
                }
            }
        }
        for p in [2usize, 3, 5, 7, 11, 13] {
            for i in al(p - 1, p) {
                for o in al(p - 1, p) {
                    v.push(ra(M(p - 1, i, o, t)));
                }
            }
        }
        for (w, h) in [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (2, 5), (5, 2)] {
            let n = w * h;
            for i in al2(w, n) {
                for o in al2(w, n) {
                    for i2 in al2(h, n) {
                        for o2 in al2(h, n) {
                            v.push(mr(M(w, i, o, t), M(h, i2, o2, t)));
                        }
                    }
                }
            }
        }
        for q in 1..=if wide { 6 } else { 3 } {
            let n = 4 * q;
            for i in al2(q, n) {
                for o in al2(q, n) {
                    for i2 in al2(2 * q, n) {
                        for o2 in al2(2 * q, n) {
                            v.push(sr(M(q, i, o, t), M(2 * q, i2, o2, t)));
                        }
                    }
                }
            }
        }
    }
    let mut s = std::collections::HashSet::new();
    v.retain(|p| s.insert(p.clone()));
    v
}
fn scratch_case(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let plan = parse(f[1]);
    scratch_t::<f64>(case, &plan, usize::MAX, st)?;
    if plan.len() <= 60 {
        scratch_t::<f32>(case, &plan, 2, st)?;
    }
    Ok(())
}
fn scratch_t<T: Elem>(case: &str, plan: &Plan, most: usize, st: &mut Stats) -> Result<(), String> {
    let n = plan.len();
    let d = try_build::<T>(plan)?;
    let single = if T::EPS > 1e-10 { 1e8 } else { 1.0 };
    for m in METHS {
        for chunks in [1usize, 2, 3, 5, 8] {
            if chunks > most || chunks > 1 && n > 2000 || chunks > 3 && n > 60 {
                continue;
            }
            for extra in [0, 1, n] {
                if extra > 1 && (chunks > 2 || n > 400) {
                    continue;
                }
                let x: Vec<f64> = (0..n * chunks).map(|i| T::of(generic(i)).val()).collect();
                let y = concrete(&*d, Shape { m, chunks, extra }, &x, &|_| f64::NAN, &|_| f64::NAN, st).map_err(|e| {
                    format!(
                        "{e}\ntransform: {} (advertises in-place scratch {}, out-of-place scratch {}), {chunks} chunk(s), scratch {extra} longer than advertised",
                        plan.rust(),
                        d.get_inplace_scratch_len(),
                        d.get_outofplace_scratch_len()
                    )
                })?;
                st.trace();
                let amp = 4f64.powi(plan.raders() as i32);
                if let Some(e) = compare_ref(n, &x, &y, &|c| tol_concrete(c) * amp * single) {
                    return Err(format!("{e}\ntransform: {} as {}, method {}, {chunks} chunk(s), scratch of exactly the advertised length + {extra} (filled with NaN), input {}", plan.rust(), T::NAME, m.name(), show(&x)));
                }
            }
        }
        beat();
    }
    st.state(hash(case));
    st.outcomes.insert(mix(mix(d.get_inplace_scratch_len() as u64, d.get_outofplace_scratch_len() as u64), n as u64));
    if st.samples.is_empty() {
        st.samples.push(format!("{plan}: advertised {} in place, {} out of place; all methods, 1-3 chunks succeed with exactly that, every inner call within its contract", d.get_inplace_scratch_len(), d.get_outofplace_scratch_len()));
    }
    Ok(())
}
pub fn c08() -> Prop {
    Prop {
        id: "C08",
        cases: |th| {
            let mut v = Vec::new();
            for p in demand_plans(if th { 12 } else { 8 }, true) {
                v.push(format!("scr {p}"));
            }
            // composites over composites over demanding inners
            let al = |h: usize| vec![(0, 0), (h + 1, 0), (0, h + 1), (3 * h, 5 * h), (40, 0), (0, 40), (40, 70), (70, 40)];
            for t in [false, true] {
                for h in [1usize, 2, 3] {
                    for (i, o) in al(h) {
                        let m = M(h, i, o, t);
                        let m2 = M(2 * h, o, i, t);
                        let mut mid: Vec<Plan> = (2..=6).map(|k| x(k, m.clone())).collect();
                        mid.push(mr(m.clone(), M(2, o, i, t)));
                        mid.push(mr(M(3, i, o, t), m.clone()));
                        mid.push(sr(m.clone(), m2.clone()));
                        if is_prime(h + 1) {
                            mid.push(ra(m.clone()));
                        }
                        for a in &mid {
                            for k in 2..=6 {
                                v.push(format!("scr {}", x(k, a.clone())));
                            }
                            for b in &mid {
                                if a.len() * b.len() <= 200 {
                                    v.push(format!("scr {}", mr(a.clone(), b.clone())));
                                }
                                if b.len() == 2 * a.len() {
                                    v.push(format!("scr {}", sr(a.clone(), b.clone())));
                                }
                            }
                            v.push(format!("scr {}", sr(a.clone(), M(2 * a.len(), o, i, t))));
                            if a.len() % 2 == 0 {
                                v.push(format!("scr {}", sr(M(a.len() / 2, i, o, t), a.clone())));
                            }
                            if is_prime(a.len() + 1) {
                                v.push(format!("scr {}", ra(a.clone())));
                            }
                        }
                    }
                }
            }
            // longer inner transforms with demands
            let big: Vec<usize> = if th { vec![7, 10, 12, 15, 16, 17, 24, 31, 32, 33, 36, 48, 63, 64, 65, 96, 100, 128, 200, 256] } else { vec![8, 12, 16, 17, 24, 32, 33, 50, 64, 100, 128] };
            for t in [false, true] {
                for &h in &big {
                    for k in 2..=6 {
                        let n = k * h;
                        for i in [0, 1, h, n - 1, n, n + 1, 2 * n + 1] {
                            for o in [0, h, n, n + 1, 2 * n + 1] {
                                v.push(format!("scr {}", x(k, M(h, i, o, t))));
                            }
                        }
                    }
                    for w in [2usize, 3, 8, 16, 17] {
                        let n = w * h;
                        for (i, o) in [(0, 0), (h, 0), (0, h + 1), (n + 1, 0), (0, n + 1), (n, n), (2 * n + 3, n + 5)] {
                            for (i2, o2) in [(0, 0), (w, 0), (0, w + 1), (n + 1, 0), (0, n + 1), (n, n), (n + 5, 2 * n + 3)] {
                                v.push(format!("scr {}", mr(M(h, i, o, t), M(w, i2, o2, t))));
                                v.push(format!("scr {}", mr(M(w, i2, o2, t), M(h, i, o, t))));
                            }
                        }
                    }
                    let n = 4 * h;
                    if n <= 300 || th {
                        for (i, o) in [(0, 0), (h, 0), (0, h + 1), (n + 1, 0), (0, n + 1), (n, n), (2 * n + 3, n + 5)] {
                            for (i2, o2) in [(0, 0), (2 * h, 0), (0, 2 * h + 1), (n + 1, 0), (0, n + 1), (n, n), (n + 5, 2 * n + 3)] {
                                v.push(format!("scr {}", sr(M(h, i, o, t), M(2 * h, i2, o2, t))));
                            }
                        }
                    }
                }
                for p in primes_to(if th { 200 } else { 110 }) {
                    for i in [0, 1, p - 2, p - 1, p, 2 * p, 3 * p + 1] {
                        for o in [0, p - 1, p, 2 * p + 1] {
                            v.push(format!("scr {}", ra(M(p - 1, i, o, t))));
                        }
                    }
                }
            }
            // demands far beyond the length
            for big in [300usize, 1000, 4097, 5000, 70_001] {
                for (i, o) in [(big, 0), (0, big), (big, big + 1)] {
                    for h in [1usize, 2, 4, 6, 7, 16] {
                        let (m, m2) = (M(h, i, o, true), M(2 * h, o, i, true));
                        for k in 2..=6 {
                            v.push(format!("scr {}", x(k, m.clone())));
                            v.push(format!("scr {}", x(k, x(3, m.clone()))));
                        }
                        v.push(format!("scr {}", mr(m.clone(), m2.clone())));
                        v.push(format!("scr {}", mr(M(3, 0, 0, true), m.clone())));
                        v.push(format!("scr {}", mr(m.clone(), M(3, 0, 0, true))));
                        v.push(format!("scr {}", mr(x(2, m.clone()), m.clone())));
                        v.push(format!("scr {}", sr(m.clone(), m2.clone())));
                        v.push(format!("scr {}", sr(m.clone(), M(2 * h, 0, 0, true))));
                        v.push(format!("scr {}", sr(M(h, 0, 0, true), m2.clone())));
                        if is_prime(h + 1) {
                            v.push(format!("scr {}", ra(m.clone())));
                            v.push(format!("scr {}", x(2, ra(m.clone()))));
                        }
                        if is_prime(2 * h + 1) {
                            v.push(format!("scr {}", ra(x(2, m.clone()))));
                        }
                    }
                }
            }
            // the library's own transforms as inner transforms
            for p in small_plans(if th { 80 } else { 48 }, if th { 40 } else { 24 }) {
                v.push(format!("scr {p}"));
            }
            let mut t1 = Trees::new(true);
            for n in 1..=if th { 20 } else { 12 } {
                for p in t1.get(n, 3) {
                    v.push(format!("scr {p}"));
                }
            }
            for n in 1..=if th { 6000 } else { 1500 } {
                for s in 0..4 {
                    v.push(format!("scr {}", auto(n, s)));
                }
            }
            for p in far_plans(if th { 140_000 } else { 35_000 }) {
                v.push(format!("scr {p}"));
            }
            uniq(v)
        },
        exec: scratch_case,
        rule: "one case = a transform over inner transforms with given scratch demands, all methods, 1-3 chunks, exactly advertised and one more; distinct by its text",
        bounds: |th| {
            format!(
                "user-written inner transforms with in-place and out-of-place demands from {{0,1,h-1,h,h+1,n-1,n,n+1,n+h,2n,2n+1,3n+1}} (products of up to four demands for two-inner algorithms), leaving or destroying the buffers they may overwrite; composites over composites over them; all library trees of depth 3 to length {}, depth 1 to {}; realistic plans for every length <= {}",
                if th { 20 } else { 12 },
                if th { 80 } else { 48 },
                if th { 6000 } else { 1500 }
            )
        },
        assumptions: &["user-written inner transforms behave as the trait documents: constant advertised lengths, panics on violated preconditions"],
        hang_s: 120,
    }
}

// ------------------------------------------------------------------------------------------------- C09
/// chunk contents: zero, negative zero, dense, constant, impulse, copy and negative of the previous chunk, NaN, infinity
const KINDS: [char; 9] = ['z', 'n', 'd', 'o', 'i', 's', '-', 'N', 'I'];
/// small instances of every algorithm, for enumerating chunk counts
fn chunk_reps() -> Vec<Plan> {
    BF
                .iter()
                .map(|&b| B(b))
                .chain([1, 2, 3, 5, 7, 8, 11].iter().map(|&n| N(n)))
                .chain((2..=6).flat_map(|k| [x(k, B(2)), x(k, B(3)), x(k, N(5))]))
                .chain([mr(B(2), B(3)), mr(B(3), B(2)), mr(B(4), B(4)), mr(N(7), B(5)), sr(B(1), B(2)), sr(B(2), B(4)), sr(N(3), N(6)), sr(N(5), N(10)), ra(B(1)), ra(B(2)), ra(B(4)), ra(B(6)), ra(N(10)), R4(1), R4(2), R4(4), R4(8), R4(16), R4(32), R4(64)])
                .collect()
}
/// longer representatives of every algorithm
fn chunk_medium() -> Vec<Plan> {
    let mut v = vec![N(65), N(72), N(100), R4(128), R4(256), R4(1024), mr(B(9), B(8)), mr(N(10), N(13)), mr(B(16), B(16)), mr(B(8), R4(64)), mr(R4(32), R4(32)), sr(R4(16), R4(32)), sr(N(17), N(34)), sr(R4(256), R4(512)), ra(N(66)), ra(mr(B(9), B(8))), ra(R4(256)), ra(auto(1008, 0))];
    for k in 2..=6 {
        v.extend([x(k, R4(32)), x(k, N(25)), x(k, mr(B(3), B(9))), x(k, R4(256))]);
    }
    v
}
fn chunk_case(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let plan = parse(f[1]);
    let n = plan.len();
    let sh = Shape::parse(&f[2..]);
    let m = sh.chunks;
    // concrete judgement: every chunk as if alone, also while another chunk holds NaN / infinity
    fn conc<T: Elem>(plan: &Plan, sh: Shape, x: &[f64], poison_at: &[usize], st: &mut Stats) -> Result<(), String> {
        let d = try_build::<T>(plan)?;
        let n = plan.len();
        let one = Shape { chunks: 1, ..sh };
        let alone: Vec<Vec<f64>> = x.chunks(n).map(|c| concrete(&*d, one, c, &|_| 0.0, &|_| 0.0, st)).collect::<Result<_, _>>()?;
        let mut runs: Vec<(Option<usize>, f64)> = vec![(None, 0.0)];
        for &p in poison_at {
            for v in [f64::NAN, f64::INFINITY] {
                runs.push((Some(p), v));
            }
        }
        for (p, v) in runs {
            let y: Vec<f64> = (0..x.len()).map(|i| if Some(i / n) == p { v } else { x[i] }).collect();
            let r = concrete(&*d, sh, &y, &|_| 0.0, &|_| 0.0, st).map_err(|e| format!("{e}\ntransform: {}", plan.rust()))?;
            st.trace();
            for j in 0..sh.chunks {
                if Some(j) == p {
                    continue;
                }
                let tol = 1e-13 * T::EPS / f64::EPSILON * n as f64 * alone[j].iter().map(|v| v.abs()).fold(1.0, f64::max);
                for k in 0..n {
                    let same = r[j * n + k] == alone[j][k] || r[j * n + k].is_nan() && alone[j][k].is_nan() || alone[j].iter().any(|v| !v.is_finite());
                    if !same && !((r[j * n + k] - alone[j][k]).abs() <= tol) {
                        return Err(format!(
                            "chunk {j} of {} element {k}: {:?}, but {:?} when the chunk is processed alone{}\ntransform: {} as {}, method {}, scratch {} longer than required\ninput {}",
                            sh.chunks,
                            r[j * n + k],
                            alone[j][k],
                            match p {
                                Some(p) => format!(" (chunk {p} holds {v:?})"),
                                None => String::new(),
                            },
                            plan.rust(),
                            T::NAME,
                            sh.m.name(),
                            sh.extra,
                            show(&y)
                        ));
                    }
                }
            }
        }
        Ok(())
    }
    match f[0] {
        "lanes" => {
            let d = try_build::<Lane>(&plan)?;
            // coefficient matrix of a single chunk, by the same method
            let alone: Vec<Vec<f64>> = {
                arena().begin(n, false, &[]);
                let mut b: Vec<Lane> = (0..n).map(|i| arena().unknown(i)).collect();
                let mut o = vec![<Lane as Elem>::of(0.0); n];
                let mut sc = vec![<Lane as Elem>::of(0.0); scratch_len(&*d, sh.m) + sh.extra];
                st.call();
                call(&*d, sh.m, &mut b, if sh.m == Meth::O { &mut o } else { &mut [] }, &mut sc).map_err(|e| format!("{} panicked: {e}\ntransform: {}", sh.m.name(), plan.rust()))?;
                let out = if sh.m == Meth::O { &o } else { &b };
                out.iter().map(|v| arena().form(*v)).collect()
            };
            let check = |a: &crate::lane::Arena, out: &[Lane], lay: &Layout| -> Option<Mismatch> {
                for j in 0..m {
                    for k in 0..n {
                        let v = out[j * n + k];
                        for u in 0..lay.inputs {
                            if u / n != j && a.depends(v, u) {
                                return Some(Mismatch { unknown: Some(u), why: format!("element {k} of chunk {j} depends on element {} of chunk {}", u % n, u / n) });
                            }
                        }
                        // difference to the single-chunk map, under what this path assumes about the input
                        let mut f = a.form(v);
                        for i in 0..n {
                            f[j * n + i] -= alone[k][i];
                        }
                        if a.has_eqs() {
                            a.reduce(&mut f);
                        }
                        for i in 0..n {
                            if !(f[j * n + i].abs() <= TOL) {
                                return Some(Mismatch { unknown: Some(j * n + i), why: format!("element {k} of chunk {j} is not what the chunk gives alone") });
                            }
                        }
                    }
                }
                None
            };
            let confirm = |w: &[f64], u: Option<usize>, lay: &Layout| -> Option<String> {
                let mut s2 = Stats::default();
                let p: Vec<usize> = match u {
                    Some(u) if u < lay.inputs => vec![u / n],
                    _ => vec![],
                };
                conc::<f64>(&plan, sh, &w[..lay.inputs], &p, &mut s2).err().or_else(|| conc::<f32>(&plan, sh, &w[..lay.inputs], &p, &mut s2).err())
            };
            lane_paths(&plan, sh, st, &check, &confirm)?;
        }
        // every sequence of chunk contents
        "pat" => {
            let kinds = KINDS.len();
            for code in 0..kinds.pow(m as u32) {
                let mut c = code;
                let mut x: Vec<f64> = Vec::with_capacity(n * m);
                for j in 0..m {
                    let k = KINDS[c % kinds];
                    c /= kinds;
                    for i in 0..n {
                        x.push(match k {
                            'z' => 0.0,
                            'n' => -0.0,
                            'd' => generic(j * n + i),
                            'o' => 1.0,
                            'i' => (i == n - 1) as usize as f64,
                            // as the chunk before, or its negative
                            's' => x.get((j * n + i).wrapping_sub(n)).copied().unwrap_or(0.5),
                            '-' => -x.get((j * n + i).wrapping_sub(n)).copied().unwrap_or(0.25),
                            'N' => f64::NAN,
                            _ => f64::INFINITY,
                        });
                    }
                }
                beat();
                conc::<f64>(&plan, sh, &x, &[], st)?;
            }
            st.state(hash(case));
        }
        // many chunks of a longer transform
        "many" => {
            let x: Vec<f64> = (0..n * m).map(generic).collect();
            beat();
            conc::<f64>(&plan, sh, &x, &[], st)?;
            beat();
            if n * m <= 300000 {
                conc::<f32>(&plan, sh, &x, &[], st)?;
            }
            st.state(hash(case));
        }
        "conc" => {
            let x: Vec<f64> = (0..n * m).map(generic).collect();
            beat();
            let at: Vec<usize> = if m <= 8 {
                (0..m).collect()
            } else {
                let mut v = vec![0, 1, m / 2, m - 2, m - 1];
                v.dedup();
                v
            };
            conc::<f64>(&plan, sh, &x, &at, st)?;
            if n * m <= 4096 {
                conc::<f32>(&plan, sh, &x, &at, st)?;
            }
            st.state(hash(case));
        }
        _ => panic!("HARNESS: {case}"),
    }
    st.max("max_chunks", m as u64);
    st.outcomes.insert(hash(&format!("{} {n} {}", f[0], sh.text())));
    if st.samples.is_empty() {
        st.samples.push(format!("{plan} via {} on {m} chunks: each chunk's result depends on that chunk only and equals the single-chunk matrix", sh.m.name()));
    }
    Ok(())
}
pub fn c09() -> Prop {
    Prop {
        id: "C09",
        cases: |th| {
            let mut v = Vec::new();
            let mut put = |k: &str, p: &Plan, m: Meth, c: usize, e: usize| v.push(format!("{k} {p} {}", Shape { m, chunks: c, extra: e }.text()));
            for p in small_plans(if th { 60 } else { 40 }, if th { 32 } else { 20 }) {
                let n = p.len();
                for m in METHS {
                    for c in 2..=if n <= 8 {
                        6
                    } else if n <= 16 {
                        4
                    } else {
                        3
                    } {
                        put("lanes", &p, m, c, 0);
                    }
                }
            }
            for p in demand_plans(if th { 6 } else { 3 }, false) {
                for m in [Meth::S, Meth::O] {
                    put("lanes", &p, m, 2, 0);
                    put("lanes", &p, m, 3, 1);
                }
            }
            // every algorithm, every chunk count to a bound, and large counts
            let reps = chunk_reps();
            for p in &reps {
                for m in METHS {
                    put("pat", p, m, 2, 0);
                    put("pat", p, m, 3, 0);
                    if p.len() <= if th { 12 } else { 5 } {
                        put("pat", p, m, 4, 0);
                    }
                    for c in 1..=if th { 600 } else { 130 } {
                        put("conc", p, m, c, c % 3);
                    }
                    for c in [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000] {
                        put("conc", p, m, c, 0);
                    }
                    if p.len() <= 16 {
                        for c in [32767, 32768, 32769, 65535, 65536, 65537] {
                            put("conc", p, m, c, 0);
                        }
                    }
                }
            }
            for p in chunk_medium() {
                let n = p.len();
                let top = if th { 300 } else { 70 };
                for m in METHS {
                    for c in (4..=top).chain([100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 8193, 10000]) {
                        if n * c <= if th { 8_000_000 } else { 1_200_000 } && (n <= 300 || c % 4 <= 1) {
                            put("many", &p, m, c, c % 2);
                        }
                    }
                }
            }
            for p in long_plans(if th { 3000 } else { 900 }).into_iter().chain(extreme_plans()) {
                let n = p.len();
                for m in METHS {
                    if n <= 5000 {
                        put("conc", &p, m, 2, 0);
                        put("conc", &p, m, 3 + n % 3, n % 4);
                    } else {
                        put("conc", &p, m, 2, 0);
                    }
                }
            }
            uniq(v)
        },
        exec: chunk_case,
        rule: "one case = transform x method x number of chunks x scratch size; distinct by its text",
        bounds: |th| {
            format!(
                "structural dependence between chunks and equality with the single-chunk matrix: every plan of depth <= 1 for every length <= {0}, depth <= 2 <= {1}, up to 6 chunks; every sequence of up to {2} chunks over 9 kinds of contents and, with NaN/infinity in another chunk, 51 representative transforms for every chunk count <= {3} and selected counts to 65537; 38 transforms of length 65-1536 for every chunk count to {5} and selected counts to 10000; every algorithm and realistic plans for every length <= {4}",
                if th { 60 } else { 40 },
                if th { 32 } else { 20 },
                if th { "4 (3 above length 12)" } else { "4 (3 above length 5)" },
                if th { 600 } else { 130 },
                if th { 3000 } else { 900 },
                if th { 300 } else { 70 }
            )
        },
        assumptions: &["chunks are compared with the result of processing the chunk alone by the same method, not with the Hartley transform"],
        hang_s: 120,
    }
}
