//! `Hk`: an f64 whose every operation is a hook point (scheduling point, fault injection point, counter).
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use std::cell::Cell;
use std::ops::*;

#[derive(Copy, Clone)]
pub struct Hk(pub f64);

thread_local! {
    /// 0 = off, 1 = count, 2 = panic when the counter reaches the target, 3 = scheduling point
    static MODE: Cell<u8> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static TARGET: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub fn set_mode(mode: u8, target: u64) {
    MODE.with(|m| m.set(mode));
    COUNT.with(|m| m.set(0));
    TARGET.with(|m| m.set(target));
}
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
pub const INJECTED: &str = "INJECTED-FAULT";

#[inline]
pub fn point() {
    let m = MODE.with(|m| m.get());
    if m == 0 {
        return;
    }
    let c = COUNT.with(|c| {
        let v = c.get();
        c.set(v + 1);
        v
    });
    if m == 2 && c == TARGET.with(|t| t.get()) {
        panic!("{}", INJECTED);
    }
    if m == 3 {
        crate::sched::point();
    }
}

impl std::fmt::Debug for Hk {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
macro_rules! op {
    ($t:ident,$f:ident,$o:tt) => {
        impl $t for Hk {
            type Output = Hk;
            #[inline]
            fn $f(self, o: Hk) -> Hk {
                point();
                Hk(self.0 $o o.0)
            }
        }
    };
}
op!(Add, add, +);
op!(Sub, sub, -);
op!(Mul, mul, *);
op!(Div, div, /);
op!(Rem, rem, %);
impl Neg for Hk {
    type Output = Hk;
    fn neg(self) -> Hk {
        point();
        Hk(-self.0)
    }
}
impl PartialEq for Hk {
    fn eq(&self, o: &Hk) -> bool {
        point();
        self.0 == o.0
    }
}
impl Zero for Hk {
    fn zero() -> Hk {
        Hk(0.0)
    }
    fn is_zero(&self) -> bool {
        point();
        self.0 == 0.0
    }
}
impl One for Hk {
    fn one() -> Hk {
        Hk(1.0)
    }
}
impl Num for Hk {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl Signed for Hk {
    fn abs(&self) -> Hk {
        point();
        Hk(self.0.abs())
    }
    fn abs_sub(&self, o: &Hk) -> Hk {
        point();
        Hk((self.0 - o.0).max(0.0))
    }
    fn signum(&self) -> Hk {
        point();
        Hk(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        point();
        self.0 > 0.0
    }
    fn is_negative(&self) -> bool {
        point();
        self.0 < 0.0
    }
}
impl FromPrimitive for Hk {
    fn from_i64(n: i64) -> Option<Hk> {
        point();
        Some(Hk(n as f64))
    }
    fn from_u64(n: u64) -> Option<Hk> {
        point();
        Some(Hk(n as f64))
    }
    fn from_f64(n: f64) -> Option<Hk> {
        point();
        Some(Hk(n))
    }
    fn from_f32(n: f32) -> Option<Hk> {
        point();
        Some(Hk(n as f64))
    }
}
