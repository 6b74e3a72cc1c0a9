//! Element types a user may define whose memory looks nothing like a float's.
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use std::ops::*;

/// 8 bytes, holding the complemented bits of an f64: all-zero memory is not the number zero
#[derive(Copy, Clone)]
pub struct Xr(u64);
/// 4 bytes, holding the complemented bits of an f32
#[derive(Copy, Clone)]
pub struct Xr4(u32);
/// 32 bytes, strictly aligned, with a seal that only its own constructor writes
#[derive(Copy, Clone)]
#[repr(align(32))]
pub struct Wide {
    v: f64,
    seal: u64,
}
/// no bytes at all: slices of any length are free
#[derive(Copy, Clone)]
pub struct Zst;

pub trait Odd: Copy {
    fn put(v: f64) -> Self;
    fn get(self) -> f64;
}
impl Odd for Xr {
    #[inline]
    fn put(v: f64) -> Xr {
        Xr(!v.to_bits())
    }
    #[inline]
    fn get(self) -> f64 {
        f64::from_bits(!self.0)
    }
}
impl Odd for Xr4 {
    #[inline]
    fn put(v: f64) -> Xr4 {
        Xr4(!(v as f32).to_bits())
    }
    #[inline]
    fn get(self) -> f64 {
        f32::from_bits(!self.0) as f64
    }
}
impl Odd for Wide {
    #[inline]
    fn put(v: f64) -> Wide {
        Wide { v, seal: !v.to_bits() }
    }
    #[inline]
    fn get(self) -> f64 {
        if self.seal == !self.v.to_bits() {
            self.v
        } else {
            f64::NAN
        }
    }
}
impl Odd for Zst {
    #[inline]
    fn put(_: f64) -> Zst {
        Zst
    }
    #[inline]
    fn get(self) -> f64 {
        0.0
    }
}
macro_rules! op {
    ($s:ident,$t:ident,$f:ident,$o:tt) => {
        impl $t for $s {
            type Output = $s;
            #[inline]
            fn $f(self, o: $s) -> $s {
                $s::put(self.get() $o o.get())
            }
        }
    };
}
macro_rules! num {
    ($s:ident) => {
        op!($s, Add, add, +);
        op!($s, Sub, sub, -);
        op!($s, Mul, mul, *);
        op!($s, Div, div, /);
        op!($s, Rem, rem, %);
        impl std::fmt::Debug for $s {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{:?}", self.get())
            }
        }
        impl Neg for $s {
            type Output = $s;
            fn neg(self) -> $s {
                $s::put(-self.get())
            }
        }
        impl PartialEq for $s {
            fn eq(&self, o: &$s) -> bool {
                self.get() == o.get()
            }
        }
        impl Zero for $s {
            fn zero() -> $s {
                $s::put(0.0)
            }
            fn is_zero(&self) -> bool {
                self.get() == 0.0
            }
        }
        impl One for $s {
            fn one() -> $s {
                $s::put(1.0)
            }
        }
        impl Num for $s {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
                Err(())
            }
        }
        impl Signed for $s {
            fn abs(&self) -> $s {
                $s::put(self.get().abs())
            }
            fn abs_sub(&self, o: &$s) -> $s {
                $s::put((self.get() - o.get()).max(0.0))
            }
            fn signum(&self) -> $s {
                $s::put(self.get().signum())
            }
            fn is_positive(&self) -> bool {
                self.get() > 0.0
            }
            fn is_negative(&self) -> bool {
                self.get() < 0.0
            }
        }
        impl FromPrimitive for $s {
            fn from_i64(n: i64) -> Option<$s> {
                Some($s::put(n as f64))
            }
            fn from_u64(n: u64) -> Option<$s> {
                Some($s::put(n as f64))
            }
            fn from_f64(n: f64) -> Option<$s> {
                Some($s::put(n))
            }
            fn from_f32(n: f32) -> Option<$s> {
                Some($s::put(n as f64))
            }
        }
    };
}
num!(Xr);
num!(Xr4);
num!(Wide);
num!(Zst);
