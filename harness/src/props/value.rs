//! C01-C05, C16: what is computed.
use super::*;
use crate::lane::{arena, Lane};
use crate::plan::Plan::*;

const LIN: &[&str] = &[
    "the library is generic over its element type and cannot inspect values except through the element type's operations (checked: comparisons are choice points of the exploration)",
    "reference: cas(2 pi i k / n) evaluated in f64, for long inputs rustfft (validated against the definition at start-up)",
    "beyond the coefficient-exact bounds, lengths are enumerated exhaustively with two fixed dense inputs per length and method",
];

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        cases: |th| {
            let mut v = Vec::new();
            for b in BF {
                for m in METHS {
                    for c in 1..=if th { 6 } else { 4 } {
                        for e in [0, 1, b] {
                            if m != Meth::P || e == 0 {
                                v.push(lane_case(&B(b), m, c, e));
                            }
                        }
                    }
                }
                for k in ["imp", "dense", "vals"] {
                    v.push(format!("{k} B{b}"));
                }
            }
            for n in 1..=if th { 160 } else { 80 } {
                lane_all(&mut v, &N(n));
                if n <= 20 {
                    for m in METHS {
                        v.push(lane_case(&N(n), m, 3, 0));
                        if m != Meth::P {
                            v.push(lane_case(&N(n), m, 2, 2));
                        }
                    }
                }
                v.push(format!("vals N{n}"));
            }
            for n in 1..=if th { 600 } else { 300 } {
                v.push(format!("imp N{n}"));
            }
            let top = if th { 3000 } else { 1400 };
            for n in 1..=top {
                v.push(format!("dense N{n}"));
            }
            for n in [1024, 2048, 2999, 4096, 5040] {
                if n > top {
                    v.push(format!("dense N{n}"));
                }
            }
            for n in 1..=if th { 500 } else { 260 } {
                v.push(format!("struct N{n}"));
            }
            for b in BF {
                v.push(format!("struct B{b}"));
            }
            v.push("big N46342".into());
            v.push("big N65537".into());
            if th {
                v.push("big N92682".into());
                v.push("big N131071".into());
            }
            v.sort_by_key(|c| !c.starts_with("big"));
            uniq(v)
        },
        exec: exec_value,
        rule: "one case = one transform x method x number of chunks x scratch size; distinct by its text",
        bounds: |th| {
            format!(
                "direct transform: coefficient-exact (all basis inputs, all methods) for every n <= {}, every unit impulse for every n <= {}, dense inputs for every n <= {}, single lengths up to {}; fixed sizes: coefficient-exact, 1..={} chunks, all methods, plus a 4-value alphabet",
                if th { 160 } else { 80 },
                if th { 600 } else { 300 },
                if th { 3000 } else { 1400 },
                if th { 131071 } else { 65537 },
                if th { 6 } else { 4 }
            )
        },
        assumptions: LIN,
        hang_s: 120,
    }
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        cases: |th| {
            let mut v = Vec::new();
            // coefficient-exact
            let lim = if th { 700 } else { 240 };
            for w in 1..=lim {
                for h in 1..=lim {
                    if w * h > lim || (w.min(h) == 1 && w.max(h) > 24) {
                        continue;
                    }
                    lane_all(&mut v, &mr(N(w), N(h)));
                    let p = mr(M(w, 0, 0, true), M(h, 0, 0, true));
                    lane_all(&mut v, &p);
                    if leaf(w) != N(w) || leaf(h) != N(h) {
                        lane_all(&mut v, &mr(leaf(w), leaf(h)));
                    }
                    if w * h <= 40 {
                        v.push(lane_case(&mr(N(w), N(h)), Meth::S, 2, 3));
                        v.push(lane_case(&mr(N(w), N(h)), Meth::O, 3, 1));
                    }
                }
            }
            for k in 2..=6 {
                for h in 1..=lim / k {
                    lane_all(&mut v, &x(k, N(h)));
                    lane_all(&mut v, &x(k, M(h, 0, 0, true)));
                    for l in leaves(h, false) {
                        lane_all(&mut v, &x(k, l));
                    }
                    if h <= 10 {
                        v.push(lane_case(&x(k, N(h)), Meth::S, 2, 3));
                        v.push(lane_case(&x(k, N(h)), Meth::O, 3, 1));
                    }
                }
            }
            // user-written inner transforms that call back into the library
            for n in 1..=if th { 120 } else { 48 } {
                v.extend(wrapped(n).iter().filter(|p| matches!(p, MR(..) | X(..))).map(|p| format!("dense {p}")));
            }
            // every impulse
            let (s, t) = if th { (64, 500) } else { (36, 200) };
            for w in 1..=s {
                for h in 1..=s {
                    v.push(format!("imp {}", mr(F(w), F(h))));
                }
            }
            for k in 2..=6 {
                for h in 1..=t {
                    v.push(format!("imp {}", x(k, F(h))));
                }
            }
            // every size, dense
            let (s, t) = if th { (300, 12000) } else { (150, 4200) };
            for w in 1..=s {
                for h in 1..=s {
                    v.push(format!("dense {}", mr(F(w), F(h))));
                }
            }
            for k in 2..=6 {
                for h in 1..=t {
                    v.push(format!("dense {}", x(k, F(h))));
                }
                for h in [4096usize, 10007, 16384, 16383, 21845, 30030, 32768, 43691, 65536, 65537] {
                    v.push(format!("dense {}", x(k, F(h))));
                }
            }
            for h in [100_003usize, 131_072, 262_144, 262_145, 524_288, 700_001, 1_048_577] {
                for k in 2..=6 {
                    v.push(format!("big {}", x(k, F(h))));
                }
            }
            for (w, h) in [(1000, 1000), (1024, 1024), (1023, 1025), (1448, 1449), (2048, 2048), (2, 1 << 20), (1 << 20, 2), (3, 700_001), (700_001, 3), (100, 20_001), (20_001, 100)] {
                v.push(format!("big {}", mr(F(w), F(h))));
            }
            for (w, h) in [(1, 5000), (5000, 1), (2, 4999), (4999, 2), (3, 4096), (4096, 3), (7, 1024), (1024, 7), (255, 257), (256, 256), (257, 255), (300, 401), (401, 300), (181, 362), (360, 361), (512, 512), (2, 70000), (70000, 2), (46341, 3), (3, 46341)] {
                v.push(format!("dense {}", mr(F(w), F(h))));
            }
            // long against short, around powers of two and multiples of ten
            for w in 1..=if th { s } else { 34 } {
                for h in [191usize, 192, 193, 200, 255, 256, 257, 300, 384, 400, 500, 509, 511, 512, 513, 600, 640, 768, 1000, 1023, 1024, 1025, 1536, 2048, 2310, 3000, 4095, 4096] {
                    v.push(format!("dense {}", mr(F(w), F(h))));
                    v.push(format!("dense {}", mr(F(h), F(w))));
                }
            }
            let near: Vec<usize> = (3..=if th { 10 } else { 9 }).flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1]).chain([48, 96, 100, 144, 160, 192, 320, 384]).collect();
            for &w in &near {
                for &h in &near {
                    v.push(format!("dense {}", mr(F(w), F(h))));
                }
            }
            // structured data
            let (s, t) = if th { (48, 800) } else { (22, 260) };
            for w in 1..=s {
                for h in 1..=s {
                    v.push(format!("struct {}", mr(F(w), F(h))));
                }
            }
            for k in 2..=6 {
                for h in 1..=t {
                    v.push(format!("struct {}", x(k, F(h))));
                }
                for h in [512usize, 1000, 1023, 1024, 1025, 2048, 4096] {
                    v.push(format!("struct {}", x(k, F(h))));
                }
            }
            for (w, h) in [(32, 32), (33, 31), (64, 64), (100, 10), (10, 100), (128, 128), (256, 3), (3, 256)] {
                v.push(format!("struct {}", mr(F(w), F(h))));
            }
            v.sort_by_key(|c| !c.starts_with("big"));
            uniq(v)
        },
        exec: exec_value,
        rule: "one case = one (width, height, inner transforms) x method x chunks; distinct by its text",
        bounds: |th| {
            format!(
                "coefficient-exact: all (w,h) with w*h <= {0} and k x h <= {0}, three kinds of inner transform, all methods; every impulse: all w,h <= {1}, k x h with h <= {2}; dense inputs: all w,h <= {3}, k x h with h <= {4}, and selected lengths to 6 million",
                if th { 700 } else { 240 },
                if th { 64 } else { 36 },
                if th { 500 } else { 200 },
                if th { 300 } else { 150 },
                if th { 12000 } else { 4200 }
            )
        },
        assumptions: LIN,
        hang_s: 120,
    }
}

fn tower(base: usize, levels: usize) -> Plan {
    // quarter, half of the base, then up
    let mut a = leaf(base);
    let mut b = if BF.contains(&(2 * base)) { B(2 * base) } else { N(2 * base) };
    for _ in 0..levels {
        let c = sr(a.clone(), b.clone());
        a = b;
        b = c;
    }
    b
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        cases: |th| {
            let mut v = Vec::new();
            for e in 0..=if th { 23 } else { 20 } {
                v.push(format!("dense R{}", 1usize << e));
            }
            for e in 21..=if th { 25 } else { 23 } {
                v.push(format!("big R{}", 1usize << e));
            }
            for q in [1usize << 18, 1 << 19, 1 << 20, 300_007, 1_000_003] {
                v.push(format!("big {}", sr(F(q), F(2 * q))));
            }
            for e in 0..=if th { 14 } else { 12 } {
                v.push(format!("imp R{}", 1usize << e));
            }
            for e in 0..=if th { 10 } else { 9 } {
                lane_all(&mut v, &R4(1 << e));
                if e <= 6 {
                    v.push(lane_case(&R4(1 << e), Meth::S, 2, 3));
                    v.push(lane_case(&R4(1 << e), Meth::O, 3, 1));
                }
            }
            for e in 0..=5 {
                v.push(format!("vals R{}", 1usize << e));
            }
            for q in 1..=if th { 150 } else { 80 } {
                lane_all(&mut v, &sr(N(q), N(2 * q)));
                lane_all(&mut v, &sr(M(q, 0, 0, true), M(2 * q, 0, 0, true)));
                for a in leaves(q, true) {
                    for b in leaves(2 * q, true) {
                        lane_all(&mut v, &sr(a.clone(), b.clone()));
                    }
                }
                if q <= 8 {
                    v.push(lane_case(&sr(N(q), N(2 * q)), Meth::S, 2, 3));
                    v.push(lane_case(&sr(N(q), N(2 * q)), Meth::O, 3, 1));
                }
            }
            // user-written inner transforms that call back into the library
            for q in 1..=if th { 60 } else { 24 } {
                v.extend(wrapped(4 * q).iter().filter(|p| matches!(p, SR(..))).map(|p| format!("dense {p}")));
            }
            for q in 1..=if th { 1000 } else { 400 } {
                v.push(format!("imp {}", sr(F(q), F(2 * q))));
            }
            for q in 1..=if th { 20000 } else { 5000 } {
                v.push(format!("dense {}", sr(F(q), F(2 * q))));
            }
            for q in [2048usize, 4095, 4096, 4097, 8191, 8192, 10001, 16384, 16385, 32768, 65536, 65537] {
                v.push(format!("dense {}", sr(F(q), F(2 * q))));
            }
            for e in 0..=if th { 17 } else { 14 } {
                v.push(format!("struct R{}", 1usize << e));
            }
            for q in (1..=if th { 1000 } else { 300 }).chain([511, 512, 513, 1024, 2048, 4096]) {
                v.push(format!("struct {}", sr(F(q), F(2 * q))));
            }
            for base in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 25, 27] {
                for l in 1..=16 {
                    let n = base << (l + 1);
                    if n <= 8192 {
                        v.push(format!("struct {}", tower(base, l)));
                    }
                    if n <= if th { 1 << 21 } else { 1 << 19 } {
                        v.push(format!("dense {}", tower(base, l)));
                    }
                    if n <= 2048 {
                        v.push(format!("imp {}", tower(base, l)));
                    }
                    if n <= 384 {
                        lane_all(&mut v, &tower(base, l));
                    }
                }
            }
            v.sort_by_key(|c| !c.starts_with("big"));
            uniq(v)
        },
        exec: exec_value,
        rule: "one case = one transform x method x chunks; distinct by its text",
        bounds: |th| {
            format!(
                "radix-4: every power of two to 2^{} dense (2^23 with one input), to 2^{} every impulse, to 2^{} coefficient-exact; split radix: every quarter length <= {} coefficient-exact, <= {} every impulse, <= {} dense; split-radix towers from 14 base lengths to 2^{}",
                if th { 23 } else { 20 },
                if th { 14 } else { 12 },
                if th { 10 } else { 9 },
                if th { 150 } else { 80 },
                if th { 1000 } else { 400 },
                if th { 20000 } else { 5000 },
                if th { 21 } else { 19 }
            )
        },
        assumptions: LIN,
        hang_s: 120,
    }
}

pub fn primes(lo: usize, hi: usize) -> Vec<usize> {
    (lo..=hi).filter(|&p| is_prime(p)).collect()
}
/// the `n` smallest primes above 40000, and the largest below `max`, of each of the shapes 2q+1, 4q+1, 2q^2+1, 6q^2+1, 2^a 3^b+1
fn special_primes(max: usize, n: usize) -> Vec<usize> {
    let sq = |m: usize| {
        let r = (m as f64).sqrt() as usize;
        (r..=r + 1).any(|r| r * r == m && is_prime(r))
    };
    let smooth = |mut m: usize| {
        while m % 2 == 0 {
            m /= 2;
        }
        while m % 3 == 0 {
            m /= 3;
        }
        m == 1
    };
    let shapes: [&dyn Fn(usize) -> bool; 5] = [&|m| is_prime(m / 2), &|m| m % 4 == 0 && is_prime(m / 4), &|m| sq(m / 2), &|m| m % 6 == 0 && sq(m / 6), &smooth];
    let all = primes(40000, max);
    let mut v = vec![];
    for s in shapes {
        v.extend(all.iter().filter(|&&p| s(p - 1)).take(n));
        v.extend(all.iter().rev().filter(|&&p| s(p - 1)).take(if max > 1_000_000 { n } else { 3 }));
    }
    v
}
pub fn c04() -> Prop {
    Prop {
        id: "C04",
        cases: |th| {
            let mut v = Vec::new();
            for p in primes(2, if th { 257 } else { 131 }) {
                lane_all(&mut v, &ra(N(p - 1)));
                lane_all(&mut v, &ra(M(p - 1, 0, 0, true)));
                for l in leaves(p - 1, false) {
                    lane_all(&mut v, &ra(l));
                }
                if p <= 17 {
                    v.push(lane_case(&ra(N(p - 1)), Meth::S, 2, 3));
                    v.push(lane_case(&ra(N(p - 1)), Meth::O, 3, 1));
                }
            }
            // user-written inner transforms that call back into the library
            for p in primes(2, if th { 1000 } else { 300 }) {
                v.extend(wrapped(p).iter().filter(|p| matches!(p, RA(..))).map(|p| format!("dense {p}")));
            }
            for p in primes(2, if th { 2000 } else { 800 }) {
                v.push(format!("imp {}", ra(F(p - 1))));
            }
            for p in primes(2, if th { 300000 } else { 40000 }) {
                v.push(format!("dense {}", ra(F(p - 1))));
            }
            // around machine-word and twiddle-size boundaries, and far out
            let mut far = vec![16381usize, 16411, 32749, 32771, 46337, 46349, 65519, 65521, 65537, 65539, 92681, 92683, 131071, 131101, 262139, 262147, 524287, 999983];
            if th {
                far.extend([1048573, 1048583, 2097143, 4194301, 8388593, 16777213, 16777259]);
            }
            // record least primitive roots; p-1 with 6 or 7 distinct prime factors; p-1 twice or four times a prime or a prime square
            far.extend([55441, 71761, 110881, 760321, 43891, 46411, 51871, 62791, 870871, 903211, 930931]);
            far.extend(special_primes(if th { 4_000_000 } else { 1_000_000 }, if th { 40 } else { 12 }));
            for p in far {
                v.push(format!("dense {}", ra(F(p - 1))));
            }
            for p in primes(2, if th { 6000 } else { 1600 }).into_iter().chain([4093, 4099, 5003, 7681, 8191, 8193 + 16, 12289, 16381, 17011]) {
                if is_prime(p) {
                    v.push(format!("struct {}", ra(F(p - 1))));
                }
            }
            // Fermat primes over the library's own power-of-two transforms; others over realistic library plans
            for p in [3usize, 5, 17, 257, 65537] {
                v.push(format!("dense {}", ra(R4(p - 1))));
            }
            for p in primes(11, if th { 8000 } else { 3000 }) {
                for s in 0..3 {
                    v.push(format!("dense {}", ra(auto(p - 1, s))));
                }
            }
            uniq(v)
        },
        exec: exec_value,
        rule: "one case = one prime x inner transform x method x chunks; distinct by its text",
        bounds: |th| {
            format!(
                "every prime <= {} coefficient-exact, <= {} every impulse, <= {} dense, plus primes around 2^14..2^{}; inner transforms: direct, user-written, fixed-size, radix-4, realistic nested plans",
                if th { 257 } else { 131 },
                if th { 2000 } else { 800 },
                if th { 300000 } else { 40000 },
                if th { 24 } else { 20 }
            )
        },
        assumptions: LIN,
        hang_s: 120,
    }
}

/// all sequences of kxN nodes over a fixed-size or short direct leaf, of length <= top
fn radix_chains(top: usize) -> Vec<Plan> {
    let mut v: Vec<Plan> = (1..=16).map(leaf).collect();
    let mut i = 0;
    while i < v.len() {
        for k in 2..=6 {
            if k * v[i].len() <= top && !(v[i].depth() == 0 && v[i].len() < 4 && v[i].len() != 2) {
                let p = x(k, v[i].clone());
                v.push(p);
            }
        }
        i += 1;
    }
    v
}
pub fn c05() -> Prop {
    Prop {
        id: "C05",
        cases: |th| {
            let mut v = Vec::new();
            // all trees of depth <= 2 with every leaf kind
            let mut t = Trees::new(false);
            for n in 1..=if th { 30 } else { 20 } {
                for p in t.get(n, 2) {
                    v.push(lane_case(&p, Meth::S, 1, 0));
                    v.push(lane_case(&p, Meth::O, 1, 0));
                    if n <= 8 {
                        v.push(lane_case(&p, Meth::P, 1, 0));
                        v.push(lane_case(&p, Meth::S, 2, 1));
                        v.push(lane_case(&p, Meth::O, 2, 1));
                    }
                }
            }
            // deeper trees, one leaf kind per length
            let mut t = Trees::new(true);
            for n in 1..=if th { 24 } else { 12 } {
                for p in t.get(n, 3) {
                    v.push(lane_case(&p, Meth::S, 1, 0));
                    v.push(lane_case(&p, Meth::O, 1, 0));
                }
            }
            for n in 1..=if th { 220 } else { 100 } {
                for p in t.get(n, 2) {
                    v.push(format!("imp {p}"));
                }
            }
            for n in 1..=if th { 12000 } else { 3000 } {
                for s in 0..4 {
                    v.push(format!("dense {}", auto(n, s)));
                }
            }
            for n in 1..=if th { 2000 } else { 700 } {
                for s in 0..4 {
                    v.push(format!("struct {}", auto(n, s)));
                }
            }
            // user-written inner transforms that themselves call `process`, or construct and run a transform, inside a call
            for n in 1..=if th { 160 } else { 64 } {
                for p in wrapped(n) {
                    v.push(format!("dense {p}"));
                    if n <= 12 {
                        v.push(lane_case(&p, Meth::S, 2, 0));
                        v.push(lane_case(&p, Meth::O, 2, 0));
                    }
                }
            }
            for n in [100usize, 128, 210, 243, 257, 512, 1000, 1024, 1009, 4096] {
                for s in 0..4 {
                    for m in 0..2 {
                        for k in 2..=6 {
                            v.push(format!("dense {}", x(k, thru(m, auto(n, s)))));
                        }
                        v.push(format!("dense {}", mr(thru(m, auto(n, s)), thru(1 - m, auto(n / 10, s)))));
                        v.push(format!("dense {}", sr(thru(m, auto(n, s)), thru(m, auto(2 * n, s)))));
                    }
                }
            }
            // inner transforms with many owners
            for k in [1usize, 2, 3, 7, 8, 16, 33, 100, 300] {
                for n in 1..=if th { 400 } else { 140 } {
                    let mut ps: Vec<Plan> = (2..=6).filter(|k| n % k == 0).map(|k| x(k, leaf(n / k))).collect();
                    ps.extend((1..=n).filter(|w| n % w == 0).map(|w| mr(leaf(w), leaf(n / w))));
                    if n % 4 == 0 {
                        ps.push(sr(leaf(n / 4), leaf(n / 2)));
                    }
                    if is_prime(n) {
                        ps.push(ra(leaf(n - 1)));
                    }
                    ps.extend((0..4).map(|s| auto(n, s)));
                    v.extend(ps.iter().map(|p| format!("share {p} {k}")));
                }
                for n in [512usize, 1000, 1024, 1296, 2310, 4096, 6561] {
                    v.extend((0..4).map(|s| format!("share {} {k}", auto(n, s))));
                }
            }
            // every order of the specialised radices, down to every fixed-size or short direct leaf
            for p in radix_chains(if th { 4000 } else { 1300 }) {
                v.push(format!("dense {p}"));
            }
            // deep nesting of one algorithm in itself, to large sizes
            for k in 2..=6 {
                for l in leaves(k, true) {
                    let mut p = l;
                    while p.len() * k <= if th { 1 << 20 } else { 1 << 18 } {
                        p = x(k, p);
                        v.push(format!("dense {p}"));
                        if p.len() <= 4096 {
                            v.push(format!("struct {p}"));
                        }
                    }
                }
                let mut p = leaf(k);
                while p.len() * k <= 1 << 17 {
                    p = if p.depth() % 2 == 0 { mr(leaf(k), p) } else { mr(p, leaf(k)) };
                    v.push(format!("dense {p}"));
                    if p.len() <= 4096 {
                        v.push(format!("struct {p}"));
                    }
                }
            }
            for n in [3usize, 5, 6, 7, 9, 10, 11, 12, 16, 20, 32, 64] {
                // squares of squares, shared inner instances
                let mut p = leaf(n);
                while p.len() * p.len() <= 1 << 17 {
                    p = mr(p.clone(), p);
                    v.push(format!("dense {p}"));
                }
            }
            for n in [32768usize, 46080, 50000, 65537, 65536, 59049, 78125, 100000, 120120, 131071, 131072] {
                for s in 0..4 {
                    v.push(format!("dense {}", auto(n, s)));
                }
            }
            uniq(v)
        },
        exec: exec_value,
        rule: "one case = one tree of the library's algorithms x method; distinct by its text",
        bounds: |th| {
            format!(
                "coefficient-exact: all trees of depth <= 2 with every leaf kind for every length <= {}, all trees of depth <= 3 with one leaf kind per length <= {}; every impulse: all trees of depth <= 2 with one leaf kind for every length <= {}; dense: four plan strategies for every length <= {} and selected lengths to 131072; inner transforms shared by up to 300 further owners",
                if th { 30 } else { 20 },
                if th { 24 } else { 12 },
                if th { 220 } else { 100 },
                if th { 12000 } else { 3000 }
            )
        },
        assumptions: LIN,
        hang_s: 120,
    }
}

/// transforming twice, concrete inputs
fn twice<T: Elem>(kind: &str, pa: &Plan, pb: &Plan, st: &mut Stats) -> Result<(), String> {
    let n = pa.len();
    let single = if T::EPS > 1e-10 { 1e8 } else { 1.0 };
    let (a, b) = (try_build::<T>(pa)?, try_build::<T>(pb)?);
    let ins: Vec<(String, Vec<f64>, f64)> =
        if kind == "long" { dense_inputs(n).into_iter().map(|(s, x)| (s.to_string(), x, 1.0)).collect() } else { structured(n).into_iter().map(|(s, x, e)| (s, x, 2f64.powi(if single > 1.0 { e / 20 } else { e }))).collect() };
    for (m1, m2) in [(Meth::S, Meth::O), (Meth::O, Meth::S), (Meth::P, Meth::P)] {
        for (name, x, sc) in &ins {
            let x: Vec<f64> = x.iter().map(|v| T::of(v * sc).val()).collect();
            let y = concrete(&*a, Shape { m: m1, chunks: 1, extra: 0 }, &x, &|_| f64::NAN, &|_| f64::NAN, st).map_err(|e| format!("{e}\n{}", pa.rust()))?;
            let z = concrete(&*b, Shape { m: m2, chunks: 1, extra: 0 }, &y, &|_| f64::NAN, &|_| f64::NAN, st).map_err(|e| format!("{e}\n{}", pb.rust()))?;
            st.trace();
            beat();
            let u: Vec<f64> = y.iter().map(|v| v / sc).collect();
            let tol = single * sc * (tol_concrete(&u) * (n as f64).sqrt() + 1e-12 * n as f64) * 4f64.powi(pa.raders().max(pb.raders()) as i32);
            for k in 0..n {
                let e = (z[k] - n as f64 * x[k]).abs();
                if !(e <= tol) {
                    return Err(format!(
                        "transforming twice does not give {n} times the input: element {k} is {:?}, should be {:?} (allowed difference {tol:e})\nelements: {}, input: {name}\nfirst: {} via {}\nsecond: {} via {}",
                        z[k],
                        n as f64 * x[k],
                        T::NAME,
                        pa.rust(),
                        m1.name(),
                        pb.rust(),
                        m2.name()
                    ));
                }
            }
        }
    }
    Ok(())
}

/// T_b(T_a(x)) = n x, coefficient-exact
fn round_trip(case: &str, st: &mut Stats) -> Result<(), String> {
    let f: Vec<&str> = case.split(' ').collect();
    let (pa, pb) = (parse(f[1]), parse(f[2]));
    let n = pa.len();
    match f[0] {
        "pair" => {
            let (a, b) = (try_build::<Lane>(&pa)?, try_build::<Lane>(&pb)?);
            for (m1, m2) in [(Meth::S, Meth::O), (Meth::O, Meth::S), (Meth::P, Meth::P)] {
                explore(
                    n,
                    hash(&format!("{case} {}", m1.s())),
                    st,
                    &mut |st| {
                        let ar = arena();
                        let mut x: Vec<Lane> = (0..n).map(|i| ar.unknown(i)).collect();
                        let mut o = vec![<Lane as Elem>::of(0.0); n];
                        for (d, m, p) in [(&a, m1, &pa), (&b, m2, &pb)] {
                            let mut sc = vec![<Lane as Elem>::of(0.0); scratch_len(&**d, m)];
                            st.call();
                            if let Err(e) = call(&**d, m, &mut x, &mut o, &mut sc) {
                                return Some(Mismatch { unknown: None, why: format!("{} of {} panicked: {e}", m.name(), p.rust()) });
                            }
                            if m == Meth::O {
                                std::mem::swap(&mut x, &mut o);
                            }
                        }
                        let ar = arena();
                        for k in 0..n {
                            let mut f = ar.form(x[k]);
                            f[k] -= n as f64;
                            if ar.has_eqs() {
                                ar.reduce(&mut f);
                            }
                            if let Some(u) = f.iter().position(|c| !(c.abs() <= TOL * n as f64)) {
                                return Some(Mismatch {
                                    unknown: if u < n { Some(u) } else { None },
                                    why: format!(
                                        "transforming twice is not {n} times the identity: element {k} of the result has a coefficient of {} off by {}\nfirst: {} via {}\nsecond: {} via {}",
                                        if u < n { format!("input[{u}]") } else { "the constant".into() },
                                        f[u],
                                        pa.rust(),
                                        m1.name(),
                                        pb.rust(),
                                        m2.name()
                                    ),
                                });
                            }
                        }
                        None
                    },
                    &mut |w, _| {
                        let x = &w[..n];
                        let mut s2 = Stats::default();
                        let go = |s2: &mut Stats| -> Result<Vec<f64>, String> {
                            let (a, b) = (try_build::<f64>(&pa)?, try_build::<f64>(&pb)?);
                            let y = concrete(&*a, Shape { m: m1, chunks: 1, extra: 0 }, x, &|_| f64::NAN, &|_| f64::NAN, s2)?;
                            concrete(&*b, Shape { m: m2, chunks: 1, extra: 0 }, &y, &|_| f64::NAN, &|_| f64::NAN, s2)
                        };
                        match go(&mut s2) {
                            Err(e) => Some(e),
                            Ok(z) => (0..n).find(|&k| !((z[k] - n as f64 * x[k]).abs() <= 1e-9 * n as f64 * (1.0 + x.iter().map(|v| v.abs()).sum::<f64>()))).map(|k| format!("as f64: element {k} is {:?}, should be {:?}\ninput {}", z[k], n as f64 * x[k], show(x))),
                        }
                    },
                )?;
            }
        }
        "long" | "slong" => {
            twice::<f64>(f[0], &pa, &pb, st)?;
            if n <= 700 || n % 64 == 0 && n <= 1 << 16 {
                twice::<f32>(f[0], &pa, &pb, st)?;
            }
        }
        _ => panic!("HARNESS: {case}"),
    }
    st.state(hash(case));
    st.outcomes.insert(mix(hash(f[0]), n as u64));
    if st.samples.is_empty() {
        st.samples.push(format!("{pa} then {pb}: coefficient matrix is {n} times the identity for all three method pairs"));
    }
    Ok(())
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        cases: |th| {
            let mut v = Vec::new();
            let mut t = Trees::new(false);
            let mut t1 = Trees::new(true);
            for n in 1..=if th { 96 } else { 48 } {
                // all ordered pairs of depth <= 1 plans with all leaf kinds; deeper plans against the direct transform
                let ps = t.get(n, 1);
                for a in &ps {
                    for b in &ps {
                        v.push(format!("pair {a} {b}"));
                    }
                }
                for a in t1.get(n, 2) {
                    v.push(format!("pair {a} {a}"));
                    v.push(format!("pair {} {a}", auto(n, n % 4)));
                }
            }
            for n in 1..=if th { 8000 } else { 2500 } {
                for s in 0..4 {
                    v.push(format!("long {} {}", auto(n, s), auto(n, (s + 1) % 4)));
                    if th {
                        v.push(format!("long {} {}", auto(n, s), auto(n, s)));
                    }
                }
            }
            for n in 1..=if th { 2000 } else { 600 } {
                for s in 0..4 {
                    v.push(format!("slong {} {}", auto(n, s), auto(n, (s + 1 + n % 3) % 4)));
                }
            }
            // every algorithm over reference transforms against the same length built otherwise
            for n in 1..=if th { 4000 } else { 1500 } {
                let other = auto(n, n % 4);
                let mut ps: Vec<Plan> = (2..=6).filter(|k| n % k == 0).map(|k| x(k, F(n / k))).collect();
                ps.extend((1..=n).filter(|w| n % w == 0 && *w <= 200 && n / w <= 200).map(|w| mr(F(w), F(n / w))));
                if n % 4 == 0 {
                    ps.push(sr(F(n / 4), F(n / 2)));
                }
                if is_prime(n) {
                    ps.push(ra(F(n - 1)));
                }
                if n.is_power_of_two() {
                    ps.push(R4(n));
                }
                if n <= 700 {
                    ps.push(N(n));
                }
                for p in ps {
                    v.push(format!("long {p} {p}"));
                    v.push(format!("long {p} {other}"));
                    if n <= 300 || n % 64 == 0 {
                        v.push(format!("slong {other} {p}"));
                    }
                }
            }
            for w in [20usize, 24, 31, 32, 33, 48, 60, 63, 64, 65, 81, 100, 127, 128, 129, 200, 255, 256, 257] {
                v.push(format!("long {0} {0}", mr(F(w), F(w))));
                v.push(format!("long {} {}", mr(F(w), F(w)), auto(w * w, w % 4)));
            }
            for e in 12..=18 {
                let n = 1usize << e;
                v.push(format!("long R{n} R{n}"));
                v.push(format!("long {} R{n}", auto(n, 0)));
                v.push(format!("long {} R{n}", tower(1, e - 1)));
            }
            uniq(v)
        },
        exec: round_trip,
        rule: "one case = an ordered pair of transforms of equal length, three method combinations; distinct by its text",
        bounds: |th| {
            format!(
                "coefficient-exact: for every n <= {} all ordered pairs of plans of depth <= 1 and every plan of depth <= 2 with itself and with a realistic plan; dense inputs: pairs of realistic plans for every n <= {} and powers of two to 2^18",
                if th { 96 } else { 48 },
                if th { 8000 } else { 2500 }
            )
        },
        assumptions: LIN,
        hang_s: 120,
    }
}
