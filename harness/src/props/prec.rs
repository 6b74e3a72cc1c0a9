//! C15: accuracy in units of the element type's rounding unit.
use super::*;
use crate::hk::Hk;
use crate::lane::generic;
use crate::odd::{Xr, Xr4};
use crate::plan::Plan::*;

/// exact to well below a rounding unit of f64: double-double accumulation of the definition (short), rustfft (long)
struct Exact {
    n: usize,
    hi: Vec<f64>,
    lo: Vec<f64>,
}
/// (cos, sin)(2 pi i / n), reduced in integers to an eighth turn
fn cos_sin(i: usize, n: usize) -> (f64, f64) {
    let (i, n) = ((i % n) as i64, n as i64);
    let q = (8 * i + n) / (2 * n); // nearest quarter
    let r = (4 * i - q * n) as f64 / (4 * n) as f64 * std::f64::consts::TAU;
    let (s, c) = r.sin_cos();
    match q & 3 {
        0 => (c, s),
        1 => (-s, c),
        2 => (-c, -s),
        _ => (s, -c),
    }
}
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let t = s - a;
    (s, (a - (s - t)) + (b - t))
}
impl Exact {
    fn new(n: usize) -> Exact {
        // cos and sin of reduced angles, kept as an unevaluated sum
        let (mut hi, mut lo) = (vec![], vec![]);
        for i in 0..n {
            let (c, s) = cos_sin(i, n);
            let (h, l) = two_sum(c, s);
            hi.push(h);
            lo.push(l);
        }
        Exact { n, hi, lo }
    }
    fn dht(&self, x: &[f64]) -> Vec<f64> {
        let n = self.n;
        if n > 2500 {
            return reference(x);
        }
        let nz: Vec<usize> = (0..n).filter(|&i| x[i] != 0.0).collect();
        (0..n)
            .map(|k| {
                let (mut s, mut e) = (0.0, 0.0);
                for &i in &nz {
                    let j = i * k % n;
                    let p = x[i] * self.hi[j];
                    let q = x[i].mul_add(self.hi[j], -p) + x[i] * self.lo[j];
                    let (t, f) = two_sum(s, p);
                    s = t;
                    e += f + q;
                }
                s + e
            })
            .collect()
    }
}
fn inputs(n: usize, full: bool, range: i32) -> Vec<(String, Vec<f64>)> {
    let mut v: Vec<(String, Vec<f64>)> = vec![];
    for (s, x) in dense_inputs(n) {
        v.push((s.into(), x));
    }
    v.push(("all ones".into(), vec![1.0; n]));
    v.push(("1, 2, 3, ...".into(), (0..n).map(|i| 1.0 + i as f64).collect()));
    v.push(("widely varying magnitudes".into(), (0..n).map(|i| generic(i) * 2f64.powi((i * 7 % 41) as i32 - 20)).collect()));
    for e in [range, -range, range / 4, -range / 4] {
        v.push((format!("generic times 2^{e}"), (0..n).map(|i| generic(i) * 2f64.powi(e)).collect()));
    }
    let tones: Vec<usize> = if full && n <= 48 { (0..n).collect() } else { vec![1, n / 3, n / 2, n - 1] };
    for k in tones {
        v.push((format!("pure tone {k}"), (0..n).map(|i| cas(i * k % n, n)).collect()));
    }
    let imp: Vec<usize> = if full && n <= 300 { (0..n).collect() } else { vec![0, 1, 2, 3, n / 4, n / 3, n / 2 - (n > 2) as usize, n / 2, n / 2 + 1, 2 * n / 3, n - 2 + (n < 2) as usize, n - 1] };
    for i in imp {
        let mut x = vec![0.0; n];
        x[i.min(n - 1)] = 1.0;
        v.push((format!("unit impulse at {}", i.min(n - 1)), x));
    }
    v
}
/// longest direct (quadratic) transform inside
fn direct(p: &Plan) -> usize {
    match p {
        N(n) => *n,
        X(_, a) | RA(a) => direct(a),
        MR(a, b) | SR(a, b) => direct(a).max(direct(b)),
        _ => 0,
    }
}
/// allowed error in rounding units of the scale (euclidean norm of the input or largest output, whichever is larger)
fn bound(p: &Plan) -> f64 {
    let n = p.len() as f64;
    6.0 * (1.0 + n.log2() + (direct(p) as f64).sqrt()) * 2f64.powi(p.raders() as i32)
}
fn measure<T: Elem>(plan: &Plan, full: bool, st: &mut Stats) -> Result<f64, String> {
    let n = plan.len();
    let d = try_build::<T>(plan)?;
    let ex = Exact::new(n);
    let mut worst = 0.0f64;
    let lim = bound(plan);
    for (name, x) in inputs(n, full, if T::EPS > 1e-10 { 90 } else { 900 }) {
        let x: Vec<f64> = x.iter().map(|&v| T::of(v).val()).collect();
        let r = ex.dht(&x);
        let big = x.iter().map(|v| v.abs()).fold(f64::MIN_POSITIVE, f64::max);
        let norm = x.iter().map(|v| (v / big) * (v / big)).sum::<f64>().sqrt() * big;
        let scale = r.iter().map(|v| v.abs()).fold(norm, f64::max) * T::EPS;
        for m in [Meth::S, Meth::O] {
            beat();
            let y = concrete(&*d, Shape { m, chunks: 1, extra: 0 }, &x, &|_| f64::NAN, &|_| f64::NAN, st)?;
            st.trace();
            for k in 0..n {
                let e = (y[k] - r[k]).abs() / scale;
                worst = worst.max(if e.is_nan() { f64::INFINITY } else { e });
                if !(e <= lim) {
                    return Err(format!(
                        "output {k} is {:?}, the exact Hartley transform is {:?}: an error of {e:.1} rounding units of {} (allowed {lim:.1})\ntransform: {}, method {}, input: {name} {}",
                        y[k],
                        r[k],
                        T::NAME,
                        plan.rust(),
                        m.name(),
                        show(&x)
                    ));
                }
            }
        }
    }
    Ok(worst)
}
fn exec(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let p = parse(f[2]);
    let w = match f[0] {
        "f32" => measure::<f32>(&p, f[1] == "full", st)?,
        "f64" => measure::<f64>(&p, f[1] == "full", st)?,
        "xr" => measure::<Xr>(&p, f[1] == "full", st)?,
        "xr4" => measure::<Xr4>(&p, f[1] == "full", st)?,
        _ => measure::<Hk>(&p, f[1] == "full", st)?,
    };
    if std::env::var("MC_MEASURE").is_ok() {
        println!("M {} {} {} {} {:.3} {}", f[0], p.alg(), p.len(), p.raders(), w, p);
    }
    st.max("max_error_permille_of_bound", (w / bound(&p) * 1000.0) as u64);
    st.state(hash(case));
    st.outcomes.insert(mix(hash(f[2]), w.to_bits()));
    if st.samples.is_empty() {
        st.samples.push(format!("{case}: largest error {w:.2} rounding units over all inputs, allowed {:.2}", bound(&p)));
    }
    Ok(())
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        cases: |th| {
            let mut v = Vec::new();
            let mut add = |p: &Plan, hk: bool| {
                let n = p.len();
                let k = if n <= 300 { "full" } else { "some" };
                v.push(format!("f64 {k} {p}"));
                v.push(format!("f32 {k} {p}"));
                if hk {
                    v.push(format!("hk {k} {p}"));
                    v.push(format!("xr {} {p}", if n <= 32 { "full" } else { "some" }));
                    v.push(format!("xr4 {} {p}", if n <= 32 { "full" } else { "some" }));
                }
            };
            for b in BF {
                add(&B(b), true);
            }
            let top = if th { 400 } else { 128 };
            for n in 1..=top {
                add(&N(n), n <= 64);
                for w in 1..=n {
                    if n % w == 0 {
                        add(&mr(leaf(w), leaf(n / w)), n <= 40);
                    }
                }
                for k in 2..=6 {
                    if n % k == 0 {
                        add(&x(k, leaf(n / k)), n <= 64);
                    }
                }
                if n % 4 == 0 {
                    add(&sr(leaf(n / 4), leaf(n / 2)), n <= 64);
                }
                if is_prime(n) {
                    add(&ra(leaf(n - 1)), n <= 64);
                }
                for s in 0..4 {
                    add(&auto(n, s), n <= 64);
                }
            }
            for n in top + 1..=if th { 2500 } else { 1200 } {
                for s in 0..4 {
                    if th || n % 4 == s || n % 16 == 0 {
                        add(&auto(n, s), n % 8 == 0 || n < 200);
                    }
                }
                if is_prime(n) && n <= 700 {
                    add(&ra(N(n - 1)), false);
                }
            }
            for e in 1..=if th { 18 } else { 16 } {
                add(&R4(1 << e), e <= 14);
                for s in 0..4 {
                    add(&auto(1 << e, s), e <= 12 || e == 14);
                    if e <= 10 {
                        add(&auto(3usize.pow(e), s), e <= 8);
                    }
                    if e <= 6 {
                        add(&auto(5usize.pow(e), s), e <= 5);
                        add(&auto(6usize.pow(e), s), e <= 5);
                        add(&auto(7usize.pow(e.min(5)), s), e <= 4);
                    }
                }
            }
            // user-defined type, long
            for h in [100usize, 255, 256, 257, 300, 512, 1000, 1025, 2048, 3000] {
                for k in 2..=6 {
                    add(&x(k, auto(h, h % 4)), true);
                }
                add(&mr(auto(h, h % 4), B(5)), true);
                add(&mr(B(8), auto(h, h % 4)), true);
                add(&sr(auto(h, h % 4), auto(2 * h, h % 4)), true);
            }
            for p in super::value::primes(131, 3000).into_iter().filter(|p| th || p % 8 == 1) {
                add(&ra(auto(p - 1, p % 3)), true);
            }
            for n in [100usize, 200, 256, 300, 500, 512, 700, 1000, 1024] {
                add(&N(n), true);
            }
            // long: angles close to, but not on, the symmetric ones
            for n in [59049usize, 65537, 78125, 99225, 117649, 177147, 250047, 279936, 390625, 531441, 1000000, 1048576] {
                if th || n < 540000 {
                    for s in 0..4 {
                        add(&auto(n, s), false);
                    }
                }
            }
            for h in [16385usize, 65537, 100003, 125003] {
                for k in 2..=6 {
                    add(&x(k, F(h)), false);
                }
                add(&mr(B(3), F(h)), false);
                add(&mr(F(h), B(4)), false);
                add(&sr(F(h), F(2 * h)), false);
            }
            for h in [257usize, 511, 625, 1021] {
                add(&mr(F(h), F(h - 2)), false);
            }
            for p in [65537usize, 125003, 262147] {
                add(&ra(F(p - 1)), false);
            }
            for n in [1000usize, 1500, 2000, 2400, 3000, 4096, 5040] {
                if th || n <= 2400 {
                    add(&N(n), false);
                }
            }
            uniq(v)
        },
        exec,
        rule: "one case = one transform in one element type: all unit impulses (to length 300), pure tones, dense and badly scaled inputs, both processing methods, every output against an extended-precision evaluation of the definition",
        bounds: |th| format!("all algorithms and all two-level plans to length {}, nested plans in 4 decomposition strategies to {}, prime powers to {}, selected lengths to 600000; user-defined types (16, 8 and 4 bytes) to 16384", if th { 400 } else { 128 }, if th { 2500 } else { 1200 }, if th { 1 << 18 } else { 65536 }),
        assumptions: &["error allowed: 6 (1 + log2 n + sqrt(longest direct transform inside)) rounding units of max(norm of input, largest output), times 2 per nested Rader level; the verified tree stays below about a quarter of that"],
        hang_s: 120,
    }
}
