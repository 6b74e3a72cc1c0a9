//! `Lane`: an element type that executes the library on *all* basis inputs at once.
//!
//! A value is an affine form over the unknowns of the current run (one unknown per input cell, scratch cell,
//! pre-existing output cell, guard cell): one f64 coefficient ("lane") per unknown plus a structural dependence
//! bit per unknown (set even if the coefficient cancels: NaN would still have got through).
//! Any comparison of data is a choice point that the explorer enumerates.
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use std::cell::UnsafeCell;
use std::ops::*;

#[derive(Copy, Clone)]
pub struct Lane {
    c: f64,
    id: u32,
    ep: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ChoiceKind {
    Eq,
    Sign,
}

pub struct Arena {
    w: usize,
    dw: usize,
    ep: u32,
    rows: usize,
    coefs: Vec<f64>,
    deps: Vec<u64>,
    pub ops: u64,
    pub nonlinear: u64,
    pub stale: u64,
    // choice machinery
    policy: bool,
    prefix: Vec<bool>,
    pub trace: Vec<(bool, bool)>, // (answer, forced)
    eqs: Vec<(usize, Vec<f64>)>, // pivot, row (w coefs + const), reduced
    pub ineqs: Vec<(Vec<f64>, bool)>,
    pub overflow: bool,
}

const MAX_BYTES: usize = 1 << 31;

thread_local! {
    static A: UnsafeCell<Arena> = const { UnsafeCell::new(Arena { w: 0, dw: 0, ep: 0, rows: 0, coefs: Vec::new(), deps: Vec::new(), ops: 0, nonlinear: 0, stale: 0,
        policy: false, prefix: Vec::new(), trace: Vec::new(), eqs: Vec::new(), ineqs: Vec::new(), overflow: false }) };
}
#[inline(always)]
pub fn arena() -> &'static mut Arena {
    A.with(|a| unsafe { &mut *a.get() })
}

pub fn generic(i: usize) -> f64 {
    // fixed, irrational-looking, pairwise incommensurable values in (-2,2), never 0
    let v = ((i as f64 + 1.0) * 0.754_877_666_246_692_7).fract() * 1.5 + 0.31;
    if i % 3 == 1 {
        -v
    } else {
        v
    }
}

impl Arena {
    pub fn begin(&mut self, unknowns: usize, policy: bool, prefix: &[bool]) {
        self.w = unknowns;
        self.dw = (unknowns + 63) / 64;
        self.ep = self.ep.wrapping_add(1).max(1);
        self.rows = 0;
        self.coefs.clear();
        self.deps.clear();
        self.ops = 0;
        self.nonlinear = 0;
        self.stale = 0;
        self.policy = policy;
        self.prefix = prefix.to_vec();
        self.trace.clear();
        self.eqs.clear();
        self.ineqs.clear();
        self.overflow = false;
    }
    pub fn unknown(&mut self, i: usize) -> Lane {
        let (r, d) = self.new_row();
        self.coefs[r + i] = 1.0;
        self.deps[d + i / 64] |= 1 << (i % 64);
        Lane { c: 0.0, id: self.rows as u32, ep: self.ep }
    }
    #[inline(always)]
    fn new_row(&mut self) -> (usize, usize) {
        let r = self.coefs.len();
        if (r + self.w) * 8 > MAX_BYTES {
            self.overflow = true;
            panic!("HARNESS: lane arena exhausted");
        }
        let d = self.deps.len();
        self.coefs.resize(r + self.w, 0.0);
        self.deps.resize(d + self.dw, 0);
        self.rows += 1;
        (r, d)
    }
    pub fn coef(&self, v: Lane, i: usize) -> f64 {
        if v.id == 0 || v.ep != self.ep {
            0.0
        } else {
            self.coefs[(v.id as usize - 1) * self.w + i]
        }
    }
    /// coefficients followed by the constant term
    pub fn form(&self, v: Lane) -> Vec<f64> {
        let mut r = if v.id == 0 || v.ep != self.ep {
            vec![0.0; self.w]
        } else {
            self.coefs[(v.id as usize - 1) * self.w..v.id as usize * self.w].to_vec()
        };
        r.push(if v.id != 0 && v.ep != self.ep { f64::NAN } else { v.c });
        r
    }
    pub fn depends(&self, v: Lane, i: usize) -> bool {
        if v.id == 0 {
            return false;
        }
        if v.ep != self.ep {
            return true;
        }
        self.deps[(v.id as usize - 1) * self.dw + i / 64] >> (i % 64) & 1 == 1
    }
    pub fn is_stale(&self, v: Lane) -> bool {
        v.id != 0 && v.ep != self.ep
    }
    /// reduce a form (w coefs + const) by the equations assumed on this path
    pub fn reduce(&self, f: &mut [f64]) {
        for (p, e) in &self.eqs {
            let k = f[*p];
            if k != 0.0 {
                for (a, b) in f.iter_mut().zip(e) {
                    *a -= k * b;
                }
                f[*p] = 0.0;
            }
        }
    }
    pub fn has_eqs(&self) -> bool {
        !self.eqs.is_empty()
    }
    fn answer(&mut self, default: bool) -> bool {
        let i = self.trace.len();
        let a = if i < self.prefix.len() { self.prefix[i] } else { default };
        self.trace.push((a, false));
        if self.trace.len() > 100_000 {
            panic!("HARNESS: too many data-dependent branches");
        }
        a
    }
    /// is `v` zero? (choice point unless implied)
    fn ask_zero(&mut self, v: Lane) -> bool {
        if v.id == 0 {
            return v.c == 0.0;
        }
        let mut f = self.form(v);
        self.reduce(&mut f);
        let w = self.w;
        let scale = f[..w].iter().fold(0f64, |m, x| m.max(x.abs()));
        if scale.is_nan() {
            return false;
        }
        if scale < 1e-12 {
            let a = f[w].abs() < 1e-12;
            return a;
        }
        let a = self.answer(self.policy);
        if a {
            let p = (0..w).max_by(|&a, &b| f[a].abs().partial_cmp(&f[b].abs()).unwrap()).unwrap();
            let k = f[p];
            for x in f.iter_mut() {
                *x /= k;
            }
            f[p] = 1.0;
            for (_, e) in self.eqs.iter_mut() {
                let k = e[p];
                if k != 0.0 {
                    for (a, b) in e.iter_mut().zip(&f) {
                        *a -= k * b;
                    }
                    e[p] = 0.0;
                }
            }
            self.eqs.push((p, f));
        }
        a
    }
    /// is `v` > 0 ?
    fn ask_pos(&mut self, v: Lane) -> bool {
        if v.id == 0 {
            return v.c > 0.0;
        }
        let mut f = self.form(v);
        self.reduce(&mut f);
        let w = self.w;
        let scale = f[..w].iter().fold(0f64, |m, x| m.max(x.abs()));
        if scale.is_nan() {
            return false;
        }
        if scale < 1e-12 {
            return f[w] > 0.0;
        }
        let val: f64 = f[..w].iter().enumerate().map(|(i, c)| c * generic(i)).sum::<f64>() + f[w];
        let a = self.answer(val > 0.0);
        self.ineqs.push((f, a));
        a
    }
    /// Concrete assignments (one f64 per unknown) that satisfy this path's equations and sign answers.
    pub fn witnesses(&self, emphasise: Option<usize>, attempts: usize) -> Vec<Vec<f64>> {
        let mut out = Vec::new();
        let w = self.w;
        let mut tries: Vec<Vec<f64>> = Vec::new();
        tries.push((0..w).map(generic).collect());
        tries.push((0..w).map(|i| -generic(i)).collect());
        if let Some(e) = emphasise {
            let mut v = vec![0.0; w];
            v[e] = 1.0;
            tries.push(v);
            let mut v: Vec<f64> = (0..w).map(|i| generic(i + 7) * 1e-3).collect();
            v[e] = 3.0;
            tries.push(v);
        }
        if !self.ineqs.is_empty() {
            let mut s = 0x9e3779b97f4a7c15u64;
            for _ in 0..attempts {
                tries.push(
                    (0..w)
                        .map(|_| {
                            s ^= s << 13;
                            s ^= s >> 7;
                            s ^= s << 17;
                            (s >> 11) as f64 / (1u64 << 53) as f64 * 4.0 - 2.0
                        })
                        .collect(),
                );
            }
        }
        for mut v in tries {
            // relaxation for the inequalities (perceptron), then the equations
            for _ in 0..50 {
                let mut bad = false;
                for (f, a) in &self.ineqs {
                    let val: f64 = f[..w].iter().zip(&v).map(|(c, x)| c * x).sum::<f64>() + f[w];
                    if (val > 0.0) != *a {
                        bad = true;
                        let nn: f64 = f[..w].iter().map(|c| c * c).sum();
                        let target = if *a { 0.1 } else { -0.1 };
                        for (x, c) in v.iter_mut().zip(f) {
                            *x += (target - val) * c / nn;
                        }
                    }
                }
                if !bad {
                    break;
                }
            }
            for (p, e) in &self.eqs {
                let s: f64 = (0..w).filter(|i| i != p).map(|i| e[i] * v[i]).sum::<f64>() + e[w];
                v[*p] = -s;
            }
            let ok = self.ineqs.iter().all(|(f, a)| {
                let val: f64 = f[..w].iter().zip(&v).map(|(c, x)| c * x).sum::<f64>() + f[w];
                (val > 0.0) == *a
            });
            if ok {
                out.push(v);
                if out.len() >= 8 {
                    break;
                }
            }
        }
        out
    }
    #[inline(always)]
    fn bin(&mut self, a: Lane, b: Lane, sb: f64) -> Lane {
        // a + sb*b
        self.ops += 1;
        let c = a.c + sb * b.c;
        if a.id == 0 && b.id == 0 {
            return Lane { c, id: 0, ep: 0 };
        }
        if self.bad(a) || self.bad(b) {
            return self.poison();
        }
        let w = self.w;
        let dw = self.dw;
        let (r, d) = self.new_row();
        let (co, rc) = self.coefs.split_at_mut(r);
        let (de, rd) = self.deps.split_at_mut(d);
        if a.id != 0 {
            let o = (a.id as usize - 1) * w;
            rc.copy_from_slice(&co[o..o + w]);
            let o = (a.id as usize - 1) * dw;
            rd.copy_from_slice(&de[o..o + dw]);
        }
        if b.id != 0 {
            let o = (b.id as usize - 1) * w;
            for (x, y) in rc.iter_mut().zip(&co[o..o + w]) {
                *x += sb * *y;
            }
            let o = (b.id as usize - 1) * dw;
            for (x, y) in rd.iter_mut().zip(&de[o..o + dw]) {
                *x |= *y;
            }
        }
        Lane { c, id: self.rows as u32, ep: self.ep }
    }
    fn bad(&mut self, v: Lane) -> bool {
        if v.id != 0 && v.ep != self.ep {
            self.stale += 1;
            true
        } else {
            false
        }
    }
    fn poison(&mut self) -> Lane {
        let (r, _) = self.new_row();
        for x in &mut self.coefs[r..] {
            *x = f64::NAN;
        }
        Lane { c: f64::NAN, id: self.rows as u32, ep: self.ep }
    }
    #[inline(always)]
    fn scale(&mut self, a: Lane, k: f64) -> Lane {
        self.ops += 1;
        if a.id == 0 {
            return Lane { c: a.c * k, id: 0, ep: 0 };
        }
        if self.bad(a) {
            return self.poison();
        }
        let w = self.w;
        let dw = self.dw;
        let (r, d) = self.new_row();
        let (co, rc) = self.coefs.split_at_mut(r);
        let o = (a.id as usize - 1) * w;
        for (x, y) in rc.iter_mut().zip(&co[o..o + w]) {
            *x = *y * k;
        }
        let (de, rd) = self.deps.split_at_mut(d);
        let o = (a.id as usize - 1) * dw;
        rd.copy_from_slice(&de[o..o + dw]);
        Lane { c: a.c * k, id: self.rows as u32, ep: self.ep }
    }
    fn nonlin(&mut self, a: Lane, b: Lane) -> Lane {
        self.nonlinear += 1;
        let mut r = self.bin(a, b, 1.0);
        let w = self.w;
        for x in &mut self.coefs[(r.id as usize - 1) * w..r.id as usize * w] {
            *x = f64::NAN;
        }
        r.c = f64::NAN;
        r
    }
}

pub fn konst(c: f64) -> Lane {
    Lane { c, id: 0, ep: 0 }
}

impl std::fmt::Debug for Lane {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Lane({},#{})", self.c, self.id)
    }
}
impl Add for Lane {
    type Output = Lane;
    #[inline(always)]
    fn add(self, o: Lane) -> Lane {
        arena().bin(self, o, 1.0)
    }
}
impl Sub for Lane {
    type Output = Lane;
    #[inline(always)]
    fn sub(self, o: Lane) -> Lane {
        arena().bin(self, o, -1.0)
    }
}
impl Mul for Lane {
    type Output = Lane;
    #[inline(always)]
    fn mul(self, o: Lane) -> Lane {
        let a = arena();
        if self.id == 0 {
            a.scale(o, self.c)
        } else if o.id == 0 {
            a.scale(self, o.c)
        } else {
            a.nonlin(self, o)
        }
    }
}
impl Div for Lane {
    type Output = Lane;
    fn div(self, o: Lane) -> Lane {
        let a = arena();
        if o.id == 0 {
            let mut r = a.scale(self, 1.0 / o.c);
            if self.id == 0 {
                r.c = self.c / o.c;
            }
            r
        } else {
            a.nonlin(self, o)
        }
    }
}
impl Rem for Lane {
    type Output = Lane;
    fn rem(self, o: Lane) -> Lane {
        if self.id == 0 && o.id == 0 {
            return konst(self.c % o.c);
        }
        arena().nonlin(self, o)
    }
}
impl Neg for Lane {
    type Output = Lane;
    #[inline(always)]
    fn neg(self) -> Lane {
        arena().scale(self, -1.0)
    }
}
impl PartialEq for Lane {
    fn eq(&self, o: &Lane) -> bool {
        let a = arena();
        if self.id == 0 && o.id == 0 {
            return self.c == o.c;
        }
        let d = a.bin(*self, *o, -1.0);
        a.ask_zero(d)
    }
}
impl Zero for Lane {
    fn zero() -> Lane {
        konst(0.0)
    }
    fn is_zero(&self) -> bool {
        arena().ask_zero(*self)
    }
}
impl One for Lane {
    fn one() -> Lane {
        konst(1.0)
    }
}
impl Num for Lane {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl Signed for Lane {
    fn abs(&self) -> Lane {
        if self.is_negative() {
            -*self
        } else {
            *self
        }
    }
    fn abs_sub(&self, o: &Lane) -> Lane {
        let d = *self - *o;
        if d.is_positive() {
            d
        } else {
            konst(0.0)
        }
    }
    fn signum(&self) -> Lane {
        konst(if arena().ask_pos(*self) { 1.0 } else { -1.0 })
    }
    fn is_positive(&self) -> bool {
        arena().ask_pos(*self)
    }
    fn is_negative(&self) -> bool {
        let n = arena().scale(*self, -1.0);
        arena().ask_pos(n)
    }
}
impl FromPrimitive for Lane {
    fn from_i64(n: i64) -> Option<Lane> {
        Some(konst(n as f64))
    }
    fn from_u64(n: u64) -> Option<Lane> {
        Some(konst(n as f64))
    }
    fn from_f64(n: f64) -> Option<Lane> {
        Some(konst(n))
    }
    fn from_f32(n: f32) -> Option<Lane> {
        Some(konst(n as f64))
    }
}
