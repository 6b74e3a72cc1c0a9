//! Plans: trees of the library's algorithms (plus user-written inner transforms), as text, as values, as objects.
use crate::hk::Hk;
use crate::lane::{self, Lane};
use crate::odd::{Odd, Wide, Xr, Xr4, Zst};
use rustdht::scalar::*;
use rustdht::Dht;
use rustfft::{num_complex::Complex, Fft, FftNum, FftPlanner, Length};
use std::fmt;
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Plan {
    /// direct transform
    N(usize),
    /// fixed-size transform
    B(usize),
    /// radix-4, power of two
    R4(usize),
    /// general mixed radix: width, height
    MR(Box<Plan>, Box<Plan>),
    /// kxN, k in 2..=6
    X(usize, Box<Plan>),
    /// split radix: quarter, half
    SR(Box<Plan>, Box<Plan>),
    /// prime length
    RA(Box<Plan>),
    /// user-written fast reference transform (rustfft in f64)
    F(usize),
    /// user-written inner transform: length, in-place demand, out-of-place demand, destroys buffers
    M(usize, usize, usize, bool),
    /// user-written wrapper that needs no scratch: 0 = calls `process` of the wrapped transform, 1 = builds it anew on each call
    W(usize, Box<Plan>),
}
pub const BF: [usize; 9] = [1, 2, 3, 4, 5, 6, 8, 9, 16];

impl Plan {
    pub fn len(&self) -> usize {
        match self {
            Plan::N(n) | Plan::B(n) | Plan::R4(n) | Plan::F(n) | Plan::M(n, ..) => *n,
            Plan::MR(a, b) => a.len() * b.len(),
            Plan::X(k, a) => k * a.len(),
            Plan::SR(q, _) => 4 * q.len(),
            Plan::RA(a) => a.len() + 1,
            Plan::W(_, a) => a.len(),
        }
    }
    pub fn rust(&self) -> String {
        match self {
            Plan::N(n) => format!("DhtNaive::new({n})"),
            Plan::B(n) => format!("Butterfly{n}::new()"),
            Plan::R4(n) => format!("Radix4::new({n})"),
            Plan::MR(a, b) => format!("MixedRadix::new(Arc::new({}), Arc::new({}))", a.rust(), b.rust()),
            Plan::X(k, a) => format!("MixedRadix{k}xn::new(Arc::new({}))", a.rust()),
            Plan::SR(a, b) => format!("SplitRadix::new(Arc::new({}), Arc::new({}))", a.rust(), b.rust()),
            Plan::RA(a) => format!("RadersAlgorithm::new(Arc::new({}))", a.rust()),
            Plan::W(0, a) => format!("/* user-written Dht delegating to process() of */ {}", a.rust()),
            Plan::W(_, a) => format!("/* user-written Dht that on each call constructs and runs */ {}", a.rust()),
            Plan::F(n) => format!("/* any correct user-written Dht of length */ DhtNaive::new({n})"),
            Plan::M(n, i, o, t) => format!("UserDht {{ len: {n}, inplace_scratch: {i}, outofplace_scratch: {o}, destroys_buffers: {t} }}"),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Plan::MR(a, b) | Plan::SR(a, b) => 1 + a.depth().max(b.depth()),
            Plan::X(_, a) | Plan::RA(a) => 1 + a.depth(),
            Plan::W(_, a) => a.depth(),
            _ => 0,
        }
    }
    /// nested prime-length transforms: each level convolves, which amplifies rounding errors
    pub fn raders(&self) -> u32 {
        match self {
            Plan::MR(a, b) | Plan::SR(a, b) => a.raders().max(b.raders()),
            Plan::X(_, a) | Plan::W(_, a) => a.raders(),
            Plan::RA(a) => 1 + a.raders(),
            _ => 0,
        }
    }
    pub fn alg(&self) -> &'static str {
        match self {
            Plan::N(_) => "N",
            Plan::B(_) => "B",
            Plan::R4(_) => "R4",
            Plan::MR(..) => "MR",
            Plan::X(k, _) => ["", "", "X2", "X3", "X4", "X5", "X6"][*k],
            Plan::SR(..) => "SR",
            Plan::RA(_) => "RA",
            Plan::F(_) => "F",
            Plan::M(..) => "M",
            Plan::W(..) => "W",
        }
    }
}
impl fmt::Display for Plan {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Plan::N(n) => write!(f, "N{n}"),
            Plan::B(n) => write!(f, "B{n}"),
            Plan::R4(n) => write!(f, "R{n}"),
            Plan::MR(a, b) => write!(f, "MR({a},{b})"),
            Plan::X(k, a) => write!(f, "X{k}({a})"),
            Plan::SR(a, b) => write!(f, "SR({a},{b})"),
            Plan::RA(a) => write!(f, "RA({a})"),
            Plan::F(n) => write!(f, "F{n}"),
            Plan::W(m, a) => write!(f, "W{m}({a})"),
            Plan::M(n, i, o, t) => write!(f, "M{n}:{i}:{o}:{}", *t as u8),
        }
    }
}
pub fn parse(s: &str) -> Plan {
    let (p, rest) = parse_at(s);
    assert!(rest.is_empty(), "HARNESS: trailing {rest:?} in plan {s:?}");
    p
}
fn num(s: &str) -> (usize, &str) {
    let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    (s[..e].parse().expect("HARNESS: number"), &s[e..])
}
fn parse_at(s: &str) -> (Plan, &str) {
    fn one(s: &str) -> (Box<Plan>, &str) {
        let (p, r) = parse_at(s);
        (Box::new(p), r)
    }
    fn two(s: &str) -> (Box<Plan>, Box<Plan>, &str) {
        let (a, r) = one(s);
        let (b, r) = one(&r[1..]);
        (a, b, &r[1..])
    }
    if let Some(r) = s.strip_prefix("MR(") {
        let (a, b, r) = two(r);
        return (Plan::MR(a, b), r);
    }
    if let Some(r) = s.strip_prefix("SR(") {
        let (a, b, r) = two(r);
        return (Plan::SR(a, b), r);
    }
    if let Some(r) = s.strip_prefix("RA(") {
        let (a, r) = one(r);
        return (Plan::RA(a), &r[1..]);
    }
    let c = s.as_bytes()[0];
    let (n, r) = num(&s[1..]);
    match c {
        b'N' => (Plan::N(n), r),
        b'B' => (Plan::B(n), r),
        b'R' => (Plan::R4(n), r),
        b'F' => (Plan::F(n), r),
        b'X' => {
            let (a, r) = one(&r[1..]);
            (Plan::X(n, a), &r[1..])
        }
        b'W' => {
            let (a, r) = one(&r[1..]);
            (Plan::W(n, a), &r[1..])
        }
        b'M' => {
            let (i, r) = num(&r[1..]);
            let (o, r) = num(&r[1..]);
            let (t, r) = num(&r[1..]);
            (Plan::M(n, i, o, t == 1), r)
        }
        _ => panic!("HARNESS: plan {s:?}"),
    }
}

pub trait Elem: FftNum {
    fn of(v: f64) -> Self;
    /// concrete value (NaN for symbolic elements)
    fn val(self) -> f64;
    fn fast(n: usize) -> Arc<dyn Dht<Self>>;
    const EPS: f64;
    const NAME: &'static str;
}
impl Elem for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn val(self) -> f64 {
        self
    }
    fn fast(n: usize) -> Arc<dyn Dht<f64>> {
        Arc::new(FastRef::new(n))
    }
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
}
impl Elem for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn val(self) -> f64 {
        self as f64
    }
    fn fast(n: usize) -> Arc<dyn Dht<f32>> {
        Arc::new(FastRef::new(n))
    }
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
}
impl Elem for Lane {
    fn of(v: f64) -> Lane {
        lane::konst(v)
    }
    fn val(self) -> f64 {
        f64::NAN
    }
    fn fast(n: usize) -> Arc<dyn Dht<Lane>> {
        Arc::new(Mock::new(n, 0, 0, false))
    }
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "lane";
}
impl Elem for Hk {
    fn of(v: f64) -> Hk {
        Hk(v)
    }
    fn val(self) -> f64 {
        self.0
    }
    fn fast(n: usize) -> Arc<dyn Dht<Hk>> {
        Arc::new(Mock::new(n, 0, 0, false))
    }
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "user-defined wrapper";
}

macro_rules! odd_elem {
    ($t:ident, $fast:expr, $eps:expr, $name:expr) => {
        impl Elem for $t {
            fn of(v: f64) -> $t {
                $t::put(v)
            }
            fn val(self) -> f64 {
                self.get()
            }
            fn fast(n: usize) -> Arc<dyn Dht<$t>> {
                $fast(n)
            }
            const EPS: f64 = $eps;
            const NAME: &'static str = $name;
        }
    };
}
odd_elem!(Xr, |n| Arc::new(FastRef::new(n)), f64::EPSILON, "user-defined 8-byte type (complemented bits)");
odd_elem!(Xr4, |n| Arc::new(FastRef::new(n)), f32::EPSILON as f64, "user-defined 4-byte type (complemented bits)");
odd_elem!(Wide, |n| Arc::new(FastRef::new(n)), f64::EPSILON, "user-defined 32-byte type");
odd_elem!(Zst, |n| Arc::new(FastRef::new(n)), f64::EPSILON, "user-defined zero-sized type");

/// One node over already built children. Panics if the library's constructor does.
pub fn node<T: Elem>(p: &Plan, kid: &mut dyn FnMut(&Plan) -> Arc<dyn Dht<T>>) -> Arc<dyn Dht<T>> {
    match p {
        Plan::N(n) => Arc::new(DhtNaive::new(*n)),
        Plan::B(1) => Arc::new(Butterfly1::new()),
        Plan::B(2) => Arc::new(Butterfly2::new()),
        Plan::B(3) => Arc::new(Butterfly3::new()),
        Plan::B(4) => Arc::new(Butterfly4::new()),
        Plan::B(5) => Arc::new(Butterfly5::new()),
        Plan::B(6) => Arc::new(Butterfly6::new()),
        Plan::B(8) => Arc::new(Butterfly8::new()),
        Plan::B(9) => Arc::new(Butterfly9::new()),
        Plan::B(16) => Arc::new(Butterfly16::new()),
        Plan::B(n) => panic!("HARNESS: no Butterfly{n}"),
        Plan::R4(n) => Arc::new(Radix4::new(*n)),
        Plan::MR(a, b) => {
            let x = kid(a);
            // equal subtrees share one instance, as a user would
            let y = if a == b { x.clone() } else { kid(b) };
            Arc::new(MixedRadix::new(x, y))
        }
        Plan::X(k, a) => {
            let a = kid(a);
            match k {
                2 => Arc::new(MixedRadix2xn::new(a)),
                3 => Arc::new(MixedRadix3xn::new(a)),
                4 => Arc::new(MixedRadix4xn::new(a)),
                5 => Arc::new(MixedRadix5xn::new(a)),
                6 => Arc::new(MixedRadix6xn::new(a)),
                _ => panic!("HARNESS: X{k}"),
            }
        }
        Plan::SR(a, b) => {
            let (x, y) = (kid(a), kid(b));
            Arc::new(SplitRadix::new(x, y))
        }
        Plan::RA(a) => Arc::new(RadersAlgorithm::new(kid(a))),
        Plan::F(n) => T::fast(*n),
        Plan::W(0, a) => Arc::new(Through(Some(kid(a)), (**a).clone())),
        Plan::W(_, a) => Arc::new(Through::<T>(None, (**a).clone())),
        Plan::M(n, i, o, t) => Arc::new(Mock::new(*n, *i, *o, *t)),
    }
}
pub type Memo<T> = std::collections::HashMap<Plan, Arc<dyn Dht<T>>>;
/// equal sub-plans (also across several calls with the same memo) share one instance
pub fn build_memo<T: Elem>(p: &Plan, m: &mut Memo<T>) -> Arc<dyn Dht<T>> {
    if let Some(d) = m.get(p) {
        return d.clone();
    }
    let d = node(p, &mut |k| build_memo(k, m));
    m.insert(p.clone(), d.clone());
    d
}
/// fresh instance of the whole tree
pub fn build<T: Elem>(p: &Plan) -> Arc<dyn Dht<T>> {
    if let Plan::SR(..) = p {
        // towers reuse the quarter as the half's own half
        return build_memo(p, &mut Memo::new());
    }
    node(p, &mut |k| build(k))
}

/// cas(2 pi i / n), index already reduced; evaluated with octant-friendly reduction
pub fn cas(i: usize, n: usize) -> f64 {
    let i = i % n;
    // reduce to [0, n/8] for accuracy
    let a = i as f64 / n as f64;
    let (s, c) = sin_cos_turn(a);
    s + c
}
fn sin_cos_turn(a: f64) -> (f64, f64) {
    // a in [0,1) turns; quarter-turn reduction is exact in floating point
    let q = (a * 4.0).round();
    let r = (a - q / 4.0) * std::f64::consts::TAU;
    let (s, c) = r.sin_cos();
    match (q as i64).rem_euclid(4) {
        0 => (s, c),
        1 => (c, -s),
        2 => (-s, -c),
        _ => (-c, s),
    }
}

/// user-written inner transform with arbitrary (documented) behaviour
pub struct Mock<T> {
    len: usize,
    inp: usize,
    oop: usize,
    trash: bool,
    cas: Vec<T>,
}
impl<T: Elem> Mock<T> {
    pub fn new(len: usize, inp: usize, oop: usize, trash: bool) -> Self {
        Mock { len, inp, oop, trash, cas: (0..len).map(|i| T::of(cas(i, len))).collect() }
    }
    fn one(&self, x: &[T]) -> Vec<T> {
        let n = self.len;
        (0..n)
            .map(|k| {
                let mut s = T::zero();
                for i in 0..n {
                    s = s + x[i] * self.cas[i * k % n];
                }
                s
            })
            .collect()
    }
}
impl<T: Elem> Dht<T> for Mock<T> {
    fn process_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        crate::hk::point();
        if buffer.len() < self.len || buffer.len() % self.len != 0 {
            panic!("CONTRACT: inner transform of length {} was given an in-place buffer of length {}", self.len, buffer.len());
        }
        if scratch.len() < self.inp {
            panic!("CONTRACT: inner transform of length {} advertises in-place scratch {} but was given {}", self.len, self.inp, scratch.len());
        }
        for c in buffer.chunks_exact_mut(self.len) {
            let y = self.one(c);
            c.copy_from_slice(&y);
        }
        if self.trash {
            scratch.fill(T::of(f64::NAN));
        }
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], scratch: &mut [T]) {
        crate::hk::point();
        if input.len() < self.len || input.len() % self.len != 0 || input.len() != output.len() {
            panic!("CONTRACT: inner transform of length {} was given out-of-place buffers of lengths {} and {}", self.len, input.len(), output.len());
        }
        if scratch.len() < self.oop {
            panic!("CONTRACT: inner transform of length {} advertises out-of-place scratch {} but was given {}", self.len, self.oop, scratch.len());
        }
        for (c, o) in input.chunks_exact(self.len).zip(output.chunks_exact_mut(self.len)) {
            let y = self.one(c);
            o.copy_from_slice(&y);
        }
        if self.trash {
            scratch.fill(T::of(f64::NAN));
            input.fill(T::of(f64::NAN));
        }
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.inp
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.oop
    }
}
impl<T> Length for Mock<T> {
    fn len(&self) -> usize {
        self.len
    }
}

/// user-written transform without scratch: runs the allocating method of another transform, kept (Some) or built anew (None)
struct Through<T: Elem>(Option<Arc<dyn Dht<T>>>, Plan);
impl<T: Elem> Dht<T> for Through<T> {
    fn process_with_scratch(&self, buffer: &mut [T], _s: &mut [T]) {
        match &self.0 {
            Some(d) => d.process(buffer),
            None => build::<T>(&self.1).process(buffer),
        }
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], _s: &mut [T]) {
        output.copy_from_slice(input);
        self.process_with_scratch(output, &mut []);
    }
    fn get_inplace_scratch_len(&self) -> usize {
        0
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        0
    }
}
impl<T: Elem> Length for Through<T> {
    fn len(&self) -> usize {
        self.1.len()
    }
}

/// user-written fast transform: Hartley transform through rustfft in f64
pub struct FastRef {
    n: usize,
    fft: Arc<dyn Fft<f64>>,
}
thread_local! { static PLANNER: std::cell::RefCell<FftPlanner<f64>> = std::cell::RefCell::new(FftPlanner::new()); }
impl FastRef {
    pub fn new(n: usize) -> Self {
        FastRef { n, fft: PLANNER.with(|p| p.borrow_mut().plan_fft_forward(n)) }
    }
    pub fn dht(&self, x: &[f64]) -> Vec<f64> {
        let mut b: Vec<Complex<f64>> = x.iter().map(|&v| Complex { re: v, im: 0.0 }).collect();
        self.fft.process(&mut b);
        b.iter().map(|c| c.re - c.im).collect()
    }
}
impl<T: Elem> Dht<T> for FastRef {
    fn process_with_scratch(&self, buffer: &mut [T], _s: &mut [T]) {
        for c in buffer.chunks_exact_mut(self.n) {
            let x: Vec<f64> = c.iter().map(|v| v.val()).collect();
            for (o, y) in c.iter_mut().zip(self.dht(&x)) {
                *o = T::of(y);
            }
        }
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], _s: &mut [T]) {
        for (c, o) in input.chunks_exact(self.n).zip(output.chunks_exact_mut(self.n)) {
            let x: Vec<f64> = c.iter().map(|v| v.val()).collect();
            for (o, y) in o.iter_mut().zip(self.dht(&x)) {
                *o = T::of(y);
            }
        }
    }
    fn get_inplace_scratch_len(&self) -> usize {
        0
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        0
    }
}
impl Length for FastRef {
    fn len(&self) -> usize {
        self.n
    }
}

/// Reference Hartley transform of a concrete vector (definition for short, rustfft for long inputs)
pub fn reference(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    if n <= 64 {
        let t: Vec<f64> = (0..n).map(|i| cas(i, n)).collect();
        (0..n).map(|k| (0..n).map(|i| x[i] * t[i * k % n]).sum()).collect()
    } else {
        FastRef::new(n).dht(x)
    }
}
/// the fast reference must agree with the definition: validated before any use
pub fn validate_reference() {
    for n in [65usize, 97, 128, 210, 257, 360, 509, 1000] {
        let x: Vec<f64> = (0..n).map(lane::generic).collect();
        let t: Vec<f64> = (0..n).map(|i| cas(i, n)).collect();
        let y = reference(&x);
        for k in 0..n {
            let s: f64 = (0..n).map(|i| x[i] * t[i * k % n]).sum();
            assert!((s - y[k]).abs() < 1e-10, "HARNESS: reference transform is off at n={n}");
        }
    }
    for n in 1..200 {
        for i in 0..n {
            let a = std::f64::consts::TAU * i as f64 / n as f64;
            assert!((a.cos() + a.sin() - cas(i, n)).abs() < 1e-14, "HARNESS: cas");
        }
    }
}

// ---------------------------------------------------------------------------------------------------------
// enumeration of plan spaces

pub fn is_prime(n: usize) -> bool {
    n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}
pub fn leaves(n: usize, with_naive: bool) -> Vec<Plan> {
    let mut v = Vec::new();
    if with_naive {
        v.push(Plan::N(n));
    }
    if BF.contains(&n) {
        v.push(Plan::B(n));
    }
    if n.is_power_of_two() {
        v.push(Plan::R4(n));
    }
    v
}
/// all plans of length n whose root is a composite over the given children-by-length
pub fn composites(n: usize, kids: &dyn Fn(usize) -> Vec<Plan>) -> Vec<Plan> {
    let mut v = Vec::new();
    for k in 2..=6 {
        if n % k == 0 {
            for a in kids(n / k) {
                v.push(Plan::X(k, Box::new(a)));
            }
        }
    }
    for w in 1..=n {
        if n % w == 0 {
            let bs = kids(n / w);
            for a in kids(w) {
                for b in &bs {
                    v.push(Plan::MR(Box::new(a.clone()), Box::new(b.clone())));
                }
            }
        }
    }
    if n % 4 == 0 {
        let hs = kids(n / 2);
        for a in kids(n / 4) {
            for b in &hs {
                v.push(Plan::SR(Box::new(a.clone()), Box::new(b.clone())));
            }
        }
    }
    if is_prime(n) && n >= 2 {
        for a in kids(n - 1) {
            v.push(Plan::RA(Box::new(a)));
        }
    }
    v
}
/// all plan trees of exactly length n and depth <= d; `one_leaf` keeps one leaf per length (the most specialised)
pub struct Trees {
    pub one_leaf: bool,
    memo: std::collections::HashMap<(usize, usize), Vec<Plan>>,
}
impl Trees {
    pub fn new(one_leaf: bool) -> Self {
        Trees { one_leaf, memo: Default::default() }
    }
    pub fn get(&mut self, n: usize, d: usize) -> Vec<Plan> {
        if let Some(v) = self.memo.get(&(n, d)) {
            return v.clone();
        }
        let mut v = leaves(n, true);
        if self.one_leaf {
            v = vec![v.into_iter().rev().find(|p| !matches!(p, Plan::R4(m) if *m <= 16)).unwrap()];
        }
        if d > 0 {
            // precompute children
            let mut kids = std::collections::HashMap::new();
            for m in 1..n.max(2) {
                if n % m == 0 || m == n - 1 {
                    kids.insert(m, self.get(m, d - 1));
                }
            }
            kids.insert(n, self.get(n, d - 1));
            if n >= 2 {
                kids.insert(n - 1, if n - 1 >= 1 { self.get(n - 1, d - 1) } else { vec![] });
            }
            let k = |m: usize| kids.get(&m).cloned().unwrap_or_default();
            v.extend(composites(n, &k));
            v.sort();
            v.dedup();
        }
        self.memo.insert((n, d), v.clone());
        v
    }
}
