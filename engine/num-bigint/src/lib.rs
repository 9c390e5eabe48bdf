//! Drop-in replacement of the num-bigint API whose integers may be symbolic.

use num_integer::{ExtendedGcd, Integer, Roots};
use num_traits::{
    CheckedAdd, CheckedDiv, CheckedEuclid, CheckedMul, CheckedSub, ConstOne, ConstZero, Euclid,
    FromPrimitive, Num, One, Pow, Signed, ToPrimitive, Unsigned, Zero,
};
use std::cmp::Ordering;
use std::fmt;
use std::hash;
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;
use symrt::{real, R, V};

pub use real::{ParseBigIntError, Sign};

#[derive(Clone)]
pub struct BigInt(V);
#[derive(Clone)]
pub struct BigUint(V);

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub struct TryFromBigIntError<T> {
    original: T,
}
impl<T> TryFromBigIntError<T> {
    pub fn into_original(self) -> T {
        self.original
    }
}
impl<T> fmt::Display for TryFromBigIntError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "out of range conversion regarding big integer attempted"
        )
    }
}
impl<T: fmt::Debug> std::error::Error for TryFromBigIntError<T> {}

pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
pub trait ToBigUint {
    fn to_biguint(&self) -> Option<BigUint>;
}

/// how results of operations become values of the type (BigUint panics when negative)
trait Wrap: Sized {
    fn wrap_nonneg(v: V) -> Self; // caller knows the sign is fine
    fn wrap_checked(v: V) -> Self; // result of a subtraction
    fn v(&self) -> &V;
}
impl Wrap for BigInt {
    fn wrap_nonneg(v: V) -> Self {
        BigInt(v)
    }
    fn wrap_checked(v: V) -> Self {
        BigInt(v)
    }
    fn v(&self) -> &V {
        &self.0
    }
}
impl Wrap for BigUint {
    fn wrap_nonneg(v: V) -> Self {
        BigUint(v)
    }
    fn wrap_checked(v: V) -> Self {
        if v.is_negative() {
            panic!("Cannot subtract b from a because b is larger than a.");
        }
        BigUint(v)
    }
    fn v(&self) -> &V {
        &self.0
    }
}

fn do_add<T: Wrap>(a: &V, b: &V) -> T {
    T::wrap_checked_add(a.add(b))
}
fn do_sub<T: Wrap>(a: &V, b: &V) -> T {
    T::wrap_checked(a.sub(b))
}
fn do_mul<T: Wrap>(a: &V, b: &V) -> T {
    T::wrap_checked_add(a.mul(b))
}
fn do_div<T: Wrap>(a: &V, b: &V) -> T {
    T::wrap_nonneg(a.div_rem(b).0)
}
fn do_rem<T: Wrap>(a: &V, b: &V) -> T {
    T::wrap_nonneg(a.div_rem(b).1)
}
trait WrapAdd: Wrap {
    fn wrap_checked_add(v: V) -> Self {
        // sums and products of non-negative operands stay non-negative
        Self::wrap_nonneg(v)
    }
}
impl<T: Wrap> WrapAdd for T {}

macro_rules! binop {
    ($T:ty, $Tr:ident, $m:ident, $TrA:ident, $ma:ident, $f:ident) => {
        impl $Tr<$T> for $T {
            type Output = $T;
            fn $m(self, o: $T) -> $T {
                $f(&self.0, &o.0)
            }
        }
        impl $Tr<&$T> for $T {
            type Output = $T;
            fn $m(self, o: &$T) -> $T {
                $f(&self.0, &o.0)
            }
        }
        impl $Tr<$T> for &$T {
            type Output = $T;
            fn $m(self, o: $T) -> $T {
                $f(&self.0, &o.0)
            }
        }
        impl $Tr<&$T> for &$T {
            type Output = $T;
            fn $m(self, o: &$T) -> $T {
                $f(&self.0, &o.0)
            }
        }
        impl $TrA<$T> for $T {
            fn $ma(&mut self, o: $T) {
                *self = $f(&self.0, &o.0);
            }
        }
        impl $TrA<&$T> for $T {
            fn $ma(&mut self, o: &$T) {
                *self = $f(&self.0, &o.0);
            }
        }
    };
}
macro_rules! scalar_op {
    ($T:ty, $s:ty, $Tr:ident, $m:ident, $TrA:ident, $ma:ident, $f:ident) => {
        impl $Tr<$s> for $T {
            type Output = $T;
            fn $m(self, o: $s) -> $T {
                $f(&self.0, &V::c(o))
            }
        }
        impl $Tr<&$s> for $T {
            type Output = $T;
            fn $m(self, o: &$s) -> $T {
                $f(&self.0, &V::c(*o))
            }
        }
        impl $Tr<$s> for &$T {
            type Output = $T;
            fn $m(self, o: $s) -> $T {
                $f(&self.0, &V::c(o))
            }
        }
        impl $Tr<&$s> for &$T {
            type Output = $T;
            fn $m(self, o: &$s) -> $T {
                $f(&self.0, &V::c(*o))
            }
        }
        impl $Tr<$T> for $s {
            type Output = $T;
            fn $m(self, o: $T) -> $T {
                $f(&V::c(self), &o.0)
            }
        }
        impl $Tr<&$T> for $s {
            type Output = $T;
            fn $m(self, o: &$T) -> $T {
                $f(&V::c(self), &o.0)
            }
        }
        impl $Tr<$T> for &$s {
            type Output = $T;
            fn $m(self, o: $T) -> $T {
                $f(&V::c(*self), &o.0)
            }
        }
        impl $Tr<&$T> for &$s {
            type Output = $T;
            fn $m(self, o: &$T) -> $T {
                $f(&V::c(*self), &o.0)
            }
        }
        impl $TrA<$s> for $T {
            fn $ma(&mut self, o: $s) {
                *self = $f(&self.0, &V::c(o));
            }
        }
    };
}
macro_rules! scalar_ops {
    ($T:ty, $($s:ty),*) => {$(
        scalar_op!($T, $s, Add, add, AddAssign, add_assign, do_add);
        scalar_op!($T, $s, Sub, sub, SubAssign, sub_assign, do_sub);
        scalar_op!($T, $s, Mul, mul, MulAssign, mul_assign, do_mul);
        scalar_op!($T, $s, Div, div, DivAssign, div_assign, do_div);
        scalar_op!($T, $s, Rem, rem, RemAssign, rem_assign, do_rem);
    )*};
}
macro_rules! shifts {
    ($T:ty, $($s:ty),*) => {$(
        impl Shl<$s> for $T { type Output = $T; fn shl(self, k: $s) -> $T { Wrap::wrap_nonneg(self.0.shl(shift_amount(k))) } }
        impl Shl<$s> for &$T { type Output = $T; fn shl(self, k: $s) -> $T { Wrap::wrap_nonneg(self.0.shl(shift_amount(k))) } }
        impl Shl<&$s> for $T { type Output = $T; fn shl(self, k: &$s) -> $T { Wrap::wrap_nonneg(self.0.shl(shift_amount(*k))) } }
        impl Shl<&$s> for &$T { type Output = $T; fn shl(self, k: &$s) -> $T { Wrap::wrap_nonneg(self.0.shl(shift_amount(*k))) } }
        impl Shr<$s> for $T { type Output = $T; fn shr(self, k: $s) -> $T { Wrap::wrap_nonneg(self.0.shr(shr_amount(k))) } }
        impl Shr<$s> for &$T { type Output = $T; fn shr(self, k: $s) -> $T { Wrap::wrap_nonneg(self.0.shr(shr_amount(k))) } }
        impl Shr<&$s> for $T { type Output = $T; fn shr(self, k: &$s) -> $T { Wrap::wrap_nonneg(self.0.shr(shr_amount(*k))) } }
        impl Shr<&$s> for &$T { type Output = $T; fn shr(self, k: &$s) -> $T { Wrap::wrap_nonneg(self.0.shr(shr_amount(*k))) } }
        impl ShlAssign<$s> for $T { fn shl_assign(&mut self, k: $s) { self.0 = self.0.shl(shift_amount(k)); } }
        impl ShlAssign<&$s> for $T { fn shl_assign(&mut self, k: &$s) { self.0 = self.0.shl(shift_amount(*k)); } }
        impl ShrAssign<$s> for $T { fn shr_assign(&mut self, k: $s) { self.0 = self.0.shr(shr_amount(k)); } }
        impl ShrAssign<&$s> for $T { fn shr_assign(&mut self, k: &$s) { self.0 = self.0.shr(shr_amount(*k)); } }
    )*};
}
/// a shift to the right by more bits than any number here has leaves its sign
fn shr_amount<T: TryInto<i128>>(k: T) -> u64 {
    let k: i128 = k.try_into().unwrap_or(i128::MAX);
    if k < 0 {
        panic!("attempt to shift right with negative");
    }
    k.min(1 << 24) as u64
}
fn shift_amount<T: TryInto<i128>>(k: T) -> u64 {
    let k: i128 = match k.try_into() {
        Ok(k) => k,
        Err(_) => panic!("attempt to shift with too large a value"),
    };
    if k < 0 {
        panic!("attempt to shift left with negative");
    }
    if k > 1 << 32 {
        panic!("capacity overflow");
    }
    k as u64
}

fn bitop<T: Wrap>(a: &V, b: &V, f: fn(&R, &R) -> R) -> T {
    if let (V::C(x), V::C(y)) = (a, b) {
        return T::wrap_nonneg(V::C(f(x, y)));
    }
    T::wrap_nonneg(V::C(f(&a.concretize(), &b.concretize())))
}
fn do_and<T: Wrap>(a: &V, b: &V) -> T {
    // masks 2^k - 1 are remainders
    for (x, y) in [(a, b), (b, a)] {
        if let (V::S(_), V::C(m)) = (x, y) {
            let m1 = m + 1;
            if !m.is_negative() && (m & &m1).is_zero() {
                return T::wrap_nonneg(x.div_mod_floor(&V::C(m1)).1);
            }
        }
    }
    bitop(a, b, |x, y| x & y)
}
fn do_or<T: Wrap>(a: &V, b: &V) -> T {
    bitop(a, b, |x, y| x | y)
}
fn do_xor<T: Wrap>(a: &V, b: &V) -> T {
    bitop(a, b, |x, y| x ^ y)
}

macro_rules! common {
    ($T:ident, $real:ty) => {
        binop!($T, Add, add, AddAssign, add_assign, do_add);
        binop!($T, Sub, sub, SubAssign, sub_assign, do_sub);
        binop!($T, Mul, mul, MulAssign, mul_assign, do_mul);
        binop!($T, Div, div, DivAssign, div_assign, do_div);
        binop!($T, Rem, rem, RemAssign, rem_assign, do_rem);
        binop!($T, BitAnd, bitand, BitAndAssign, bitand_assign, do_and);
        binop!($T, BitOr, bitor, BitOrAssign, bitor_assign, do_or);
        binop!($T, BitXor, bitxor, BitXorAssign, bitxor_assign, do_xor);
        shifts!($T, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
        impl PartialEq for $T {
            fn eq(&self, o: &$T) -> bool {
                self.0.eq(&o.0)
            }
        }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &$T) -> Option<Ordering> {
                Some(self.0.cmp(&o.0))
            }
            fn lt(&self, o: &$T) -> bool {
                self.0.lt(&o.0)
            }
            fn le(&self, o: &$T) -> bool {
                self.0.le(&o.0)
            }
            fn gt(&self, o: &$T) -> bool {
                self.0.gt(&o.0)
            }
            fn ge(&self, o: &$T) -> bool {
                self.0.ge(&o.0)
            }
        }
        impl Ord for $T {
            fn cmp(&self, o: &$T) -> Ordering {
                self.0.cmp(&o.0)
            }
        }
        impl hash::Hash for $T {
            fn hash<H: hash::Hasher>(&self, h: &mut H) {
                if symrt::token(&self.0).is_some() {
                    return h.write_u8(0xab);
                }
                self.0.concretize().hash(h)
            }
        }
        impl Default for $T {
            fn default() -> $T {
                $T::ZERO
            }
        }
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                if let Some(n) = symrt::token(&self.0) {
                    return write!(f, "\u{27e8}{}\u{27e9}", n);
                }
                fmt::Debug::fmt(&self.0.concretize(), f)
            }
        }
        impl fmt::Display for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                if let Some(n) = symrt::token(&self.0) {
                    return write!(f, "\u{27e8}{}\u{27e9}", n);
                }
                fmt::Display::fmt(&self.0.concretize(), f)
            }
        }
        impl fmt::LowerHex for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::LowerHex::fmt(&self.0.concretize(), f)
            }
        }
        impl fmt::UpperHex for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::UpperHex::fmt(&self.0.concretize(), f)
            }
        }
        impl fmt::Binary for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Binary::fmt(&self.0.concretize(), f)
            }
        }
        impl fmt::Octal for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Octal::fmt(&self.0.concretize(), f)
            }
        }
        impl Zero for $T {
            fn zero() -> $T {
                $T::ZERO
            }
            fn is_zero(&self) -> bool {
                self.0.is_zero()
            }
        }
        impl ConstZero for $T {
            const ZERO: $T = $T::ZERO;
        }
        impl One for $T {
            fn one() -> $T {
                $T(V::c(1))
            }
            fn is_one(&self) -> bool {
                self.0.is_one()
            }
        }
        impl FromStr for $T {
            type Err = ParseBigIntError;
            fn from_str(s: &str) -> Result<$T, ParseBigIntError> {
                <$T>::from_str_radix(s, 10)
            }
        }
        impl Num for $T {
            type FromStrRadixErr = ParseBigIntError;
            fn from_str_radix(s: &str, radix: u32) -> Result<$T, ParseBigIntError> {
                Ok(<$real>::from_str_radix(s, radix)?.into())
            }
        }
        impl From<$real> for $T {
            fn from(v: $real) -> $T {
                $T(V::C(v.into()))
            }
        }
        impl ToPrimitive for $T {
            fn to_i64(&self) -> Option<i64> {
                self.to_i128()?.to_i64()
            }
            fn to_u64(&self) -> Option<u64> {
                self.to_prim(R::from(0), R::from(u64::MAX))?.to_u64()
            }
            fn to_i128(&self) -> Option<i128> {
                self.to_prim(R::from(i128::MIN), R::from(i128::MAX))?
                    .to_i128()
            }
            fn to_u128(&self) -> Option<u128> {
                self.to_prim(R::from(0), R::from(u128::MAX))?.to_u128()
            }
            fn to_i8(&self) -> Option<i8> {
                self.to_prim(i8::MIN.into(), i8::MAX.into())?.to_i8()
            }
            fn to_u8(&self) -> Option<u8> {
                self.to_prim(0.into(), u8::MAX.into())?.to_u8()
            }
            fn to_i16(&self) -> Option<i16> {
                self.to_prim(i16::MIN.into(), i16::MAX.into())?.to_i16()
            }
            fn to_u16(&self) -> Option<u16> {
                self.to_prim(0.into(), u16::MAX.into())?.to_u16()
            }
            fn to_i32(&self) -> Option<i32> {
                self.to_prim(i32::MIN.into(), i32::MAX.into())?.to_i32()
            }
            fn to_u32(&self) -> Option<u32> {
                self.to_prim(0.into(), u32::MAX.into())?.to_u32()
            }
            fn to_usize(&self) -> Option<usize> {
                self.to_prim(0.into(), usize::MAX.into())?.to_usize()
            }
            fn to_isize(&self) -> Option<isize> {
                self.to_prim(isize::MIN.into(), isize::MAX.into())?.to_isize()
            }
            fn to_f32(&self) -> Option<f32> {
                self.0.concretize().to_f32()
            }
            fn to_f64(&self) -> Option<f64> {
                self.0.concretize().to_f64()
            }
        }
        impl Sum for $T {
            fn sum<I: Iterator<Item = $T>>(it: I) -> $T {
                it.fold($T::ZERO, |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $T> for $T {
            fn sum<I: Iterator<Item = &'a $T>>(it: I) -> $T {
                it.fold($T::ZERO, |a, b| a + b)
            }
        }
        impl Product for $T {
            fn product<I: Iterator<Item = $T>>(it: I) -> $T {
                it.fold($T::one(), |a, b| a * b)
            }
        }
        impl<'a> Product<&'a $T> for $T {
            fn product<I: Iterator<Item = &'a $T>>(it: I) -> $T {
                it.fold($T::one(), |a, b| a * b)
            }
        }
        impl CheckedAdd for $T {
            fn checked_add(&self, o: &$T) -> Option<$T> {
                Some(self + o)
            }
        }
        impl CheckedMul for $T {
            fn checked_mul(&self, o: &$T) -> Option<$T> {
                Some(self * o)
            }
        }
        impl CheckedDiv for $T {
            fn checked_div(&self, o: &$T) -> Option<$T> {
                if o.is_zero() {
                    None
                } else {
                    Some(self / o)
                }
            }
        }
        impl Euclid for $T {
            fn div_euclid(&self, o: &$T) -> $T {
                self.div_rem_euclid(o).0
            }
            fn rem_euclid(&self, o: &$T) -> $T {
                self.div_rem_euclid(o).1
            }
            fn div_rem_euclid(&self, o: &$T) -> ($T, $T) {
                if o.0.is_negative() {
                    let (q, r) = self.0.div_mod_floor(&o.0.neg());
                    ($T(q.neg()), $T(r))
                } else {
                    let (q, r) = self.0.div_mod_floor(&o.0);
                    ($T(q), $T(r))
                }
            }
        }
        impl CheckedEuclid for $T {
            fn checked_div_euclid(&self, o: &$T) -> Option<$T> {
                if o.is_zero() {
                    None
                } else {
                    Some(self.div_euclid(o))
                }
            }
            fn checked_rem_euclid(&self, o: &$T) -> Option<$T> {
                if o.is_zero() {
                    None
                } else {
                    Some(self.rem_euclid(o))
                }
            }
        }
        impl Integer for $T {
            fn div_floor(&self, o: &$T) -> $T {
                $T(self.0.div_mod_floor(&o.0).0)
            }
            fn mod_floor(&self, o: &$T) -> $T {
                $T(self.0.div_mod_floor(&o.0).1)
            }
            fn div_mod_floor(&self, o: &$T) -> ($T, $T) {
                let (q, r) = self.0.div_mod_floor(&o.0);
                ($T(q), $T(r))
            }
            fn div_ceil(&self, o: &$T) -> $T {
                if let (V::C(a), V::C(b)) = (&self.0, &o.0) {
                    return $T(V::C(a.div_ceil(b)));
                }
                $T(self.0.neg().div_mod_floor(&o.0).0.neg())
            }
            fn gcd(&self, o: &$T) -> $T {
                $T(self.0.gcd(&o.0))
            }
            fn lcm(&self, o: &$T) -> $T {
                if self.is_zero() && o.is_zero() {
                    $T::ZERO
                } else {
                    $T(self.0.div_rem(&self.0.gcd(&o.0)).0.mul(&o.0).abs())
                }
            }
            fn gcd_lcm(&self, o: &$T) -> ($T, $T) {
                (self.gcd(o), self.lcm(o))
            }
            fn divides(&self, o: &$T) -> bool {
                self.is_multiple_of(o)
            }
            fn is_multiple_of(&self, o: &$T) -> bool {
                self.0.is_multiple_of(&o.0)
            }
            fn is_even(&self) -> bool {
                self.0.is_multiple_of(&V::c(2))
            }
            fn is_odd(&self) -> bool {
                !self.is_even()
            }
            fn div_rem(&self, o: &$T) -> ($T, $T) {
                let (q, r) = self.0.div_rem(&o.0);
                ($T(q), $T(r))
            }
            fn dec(&mut self) {
                *self -= 1u32;
            }
            fn inc(&mut self) {
                *self += 1u32;
            }
        }
        impl Roots for $T {
            fn nth_root(&self, n: u32) -> $T {
                $T(self.0.nth_root(n))
            }
        }
        impl $T {
            pub const ZERO: $T = $T(V::C(R::ZERO));
            pub fn as_v(&self) -> &V {
                &self.0
            }
            pub fn from_v(v: V) -> $T {
                $T(v)
            }
            fn to_prim(&self, lo: R, hi: R) -> Option<R> {
                if self.0.lt(&V::C(lo)) || self.0.gt(&V::C(hi)) {
                    return None;
                }
                Some(self.0.concretize())
            }
            pub fn bits(&self) -> u64 {
                self.0.bits()
            }
            pub fn pow(&self, e: u32) -> $T {
                $T(self.0.pow(e))
            }
            pub fn sqrt(&self) -> $T {
                $T(self.0.nth_root(2))
            }
            pub fn cbrt(&self) -> $T {
                $T(self.0.nth_root(3))
            }
            pub fn nth_root(&self, n: u32) -> $T {
                $T(self.0.nth_root(n))
            }
            pub fn trailing_zeros(&self) -> Option<u64> {
                self.0.trailing_zeros()
            }
            pub fn bit(&self, b: u64) -> bool {
                self.0.bit(b)
            }
            pub fn set_bit(&mut self, b: u64, value: bool) {
                let cur = self.0.bit(b);
                if cur != value {
                    let d = V::C(R::from(1) << b);
                    self.0 = if value { self.0.add(&d) } else { self.0.sub(&d) };
                }
            }
            pub fn to_str_radix(&self, radix: u32) -> String {
                self.0.concretize().to_str_radix(radix)
            }
            pub fn parse_bytes(buf: &[u8], radix: u32) -> Option<$T> {
                <$real>::parse_bytes(buf, radix).map(Into::into)
            }
            pub fn modinv(&self, modulus: &$T) -> Option<$T> {
                let m = modulus.0.abs();
                if m.is_zero() {
                    return None;
                }
                let a = self.0.div_mod_floor(&m).1;
                // extended Euclid
                let (mut r0, mut r1) = (m.clone(), a);
                let (mut t0, mut t1) = (V::c(0), V::c(1));
                while !r1.is_zero() {
                    let (q, r) = r0.div_mod_floor(&r1);
                    let t = t0.sub(&q.mul(&t1));
                    t0 = t1;
                    t1 = t;
                    r0 = r1;
                    r1 = r;
                }
                if !r0.is_one() {
                    return None;
                }
                Some($T(t0.div_mod_floor(&modulus.0).1))
            }
            pub fn modpow(&self, exponent: &$T, modulus: &$T) -> $T {
                assert!(
                    !exponent.0.is_negative(),
                    "negative exponentiation is not supported!"
                );
                assert!(!modulus.is_zero(), "attempt to calculate with zero modulus!");
                let e = exponent.0.concretize();
                let mut r = V::c(1).div_mod_floor(&modulus.0).1;
                let b = self.0.div_mod_floor(&modulus.0).1;
                for i in (0..e.bits()).rev() {
                    r = r.mul(&r).div_mod_floor(&modulus.0).1;
                    if e.bit(i) {
                        r = r.mul(&b).div_mod_floor(&modulus.0).1;
                    }
                }
                $T(r)
            }
        }
        impl Pow<BigUint> for $T {
            type Output = $T;
            fn pow(self, e: BigUint) -> $T {
                Pow::pow(&self, &e)
            }
        }
        impl Pow<&BigUint> for $T {
            type Output = $T;
            fn pow(self, e: &BigUint) -> $T {
                Pow::pow(&self, e)
            }
        }
        impl Pow<BigUint> for &$T {
            type Output = $T;
            fn pow(self, e: BigUint) -> $T {
                Pow::pow(self, &e)
            }
        }
        impl Pow<&BigUint> for &$T {
            type Output = $T;
            fn pow(self, e: &BigUint) -> $T {
                $T(self.0.pow(e.to_u32().expect("memory overflow")))
            }
        }
    };
}
common!(BigInt, real::BigInt);
common!(BigUint, real::BigUint);
scalar_ops!(BigInt, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
scalar_ops!(BigUint, u8, u16, u32, u64, u128, usize);

macro_rules! pows {
    ($T:ident: $($s:ty),*) => {$(
        impl Pow<$s> for $T { type Output = $T; fn pow(self, e: $s) -> $T { Pow::pow(&self, e) } }
        impl Pow<&$s> for $T { type Output = $T; fn pow(self, e: &$s) -> $T { Pow::pow(&self, *e) } }
        impl Pow<&$s> for &$T { type Output = $T; fn pow(self, e: &$s) -> $T { Pow::pow(self, *e) } }
        impl Pow<$s> for &$T { type Output = $T; fn pow(self, e: $s) -> $T {
            $T(self.0.pow(u32::try_from(e).expect("exponent too large")))
        } }
    )*};
}
pows!(BigInt: u8, u16, u32, u64, u128, usize);
pows!(BigUint: u8, u16, u32, u64, u128, usize);

impl ConstOne for BigInt {
    const ONE: BigInt = BigInt(V::C(R::new_const(1)));
}

// ---------------------------------------------------------------- conversions

macro_rules! from_prim {
    ($($u:ty),*; $($i:ty),*) => {
        $(impl From<$u> for BigUint { fn from(v: $u) -> BigUint { BigUint(V::c(v)) } }
          impl From<$u> for BigInt { fn from(v: $u) -> BigInt { BigInt(V::c(v)) } })*
        $(impl From<$i> for BigInt { fn from(v: $i) -> BigInt { BigInt(V::c(v)) } }
          impl TryFrom<$i> for BigUint {
              type Error = TryFromBigIntError<()>;
              fn try_from(v: $i) -> Result<BigUint, TryFromBigIntError<()>> {
                  if v < 0 { Err(TryFromBigIntError { original: () }) } else { Ok(BigUint(V::c(v))) }
              }
          })*
    };
}
from_prim!(u8, u16, u32, u64, u128, usize; i8, i16, i32, i64, i128, isize);
impl From<bool> for BigInt {
    fn from(v: bool) -> BigInt {
        BigInt(V::c(v as u8))
    }
}
impl From<bool> for BigUint {
    fn from(v: bool) -> BigUint {
        BigUint(V::c(v as u8))
    }
}
macro_rules! try_from_big {
    ($T:ty: $($s:ty, $m:ident),*) => {$(
        impl TryFrom<&$T> for $s {
            type Error = TryFromBigIntError<()>;
            fn try_from(v: &$T) -> Result<$s, TryFromBigIntError<()>> {
                v.$m().ok_or(TryFromBigIntError { original: () })
            }
        }
        impl TryFrom<$T> for $s {
            type Error = TryFromBigIntError<$T>;
            fn try_from(v: $T) -> Result<$s, TryFromBigIntError<$T>> {
                match v.$m() { Some(x) => Ok(x), None => Err(TryFromBigIntError { original: v }) }
            }
        }
    )*};
}
try_from_big!(BigInt: u8, to_u8, u16, to_u16, u32, to_u32, u64, to_u64, u128, to_u128, usize, to_usize,
    i8, to_i8, i16, to_i16, i32, to_i32, i64, to_i64, i128, to_i128, isize, to_isize);
try_from_big!(BigUint: u8, to_u8, u16, to_u16, u32, to_u32, u64, to_u64, u128, to_u128, usize, to_usize,
    i8, to_i8, i16, to_i16, i32, to_i32, i64, to_i64, i128, to_i128, isize, to_isize);

impl From<BigUint> for BigInt {
    fn from(v: BigUint) -> BigInt {
        BigInt(v.0)
    }
}
impl TryFrom<&BigInt> for BigUint {
    type Error = TryFromBigIntError<()>;
    fn try_from(v: &BigInt) -> Result<BigUint, TryFromBigIntError<()>> {
        v.to_biguint().ok_or(TryFromBigIntError { original: () })
    }
}
impl TryFrom<BigInt> for BigUint {
    type Error = TryFromBigIntError<BigInt>;
    fn try_from(v: BigInt) -> Result<BigUint, TryFromBigIntError<BigInt>> {
        if v.0.is_negative() {
            Err(TryFromBigIntError { original: v })
        } else {
            Ok(BigUint(v.0))
        }
    }
}
impl FromPrimitive for BigInt {
    fn from_i64(n: i64) -> Option<BigInt> {
        Some(n.into())
    }
    fn from_u64(n: u64) -> Option<BigInt> {
        Some(n.into())
    }
    fn from_i128(n: i128) -> Option<BigInt> {
        Some(n.into())
    }
    fn from_u128(n: u128) -> Option<BigInt> {
        Some(n.into())
    }
    fn from_f64(n: f64) -> Option<BigInt> {
        R::from_f64(n).map(Into::into)
    }
}
impl FromPrimitive for BigUint {
    fn from_i64(n: i64) -> Option<BigUint> {
        n.try_into().ok()
    }
    fn from_u64(n: u64) -> Option<BigUint> {
        Some(n.into())
    }
    fn from_i128(n: i128) -> Option<BigUint> {
        n.try_into().ok()
    }
    fn from_u128(n: u128) -> Option<BigUint> {
        Some(n.into())
    }
    fn from_f64(n: f64) -> Option<BigUint> {
        real::BigUint::from_f64(n).map(Into::into)
    }
}
impl ToBigInt for BigInt {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(self.clone())
    }
}
impl ToBigInt for BigUint {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(BigInt(self.0.clone()))
    }
}
impl ToBigUint for BigUint {
    fn to_biguint(&self) -> Option<BigUint> {
        Some(self.clone())
    }
}
impl ToBigUint for BigInt {
    fn to_biguint(&self) -> Option<BigUint> {
        if self.0.is_negative() {
            None
        } else {
            Some(BigUint(self.0.clone()))
        }
    }
}
macro_rules! to_big {
    ($($s:ty),*) => {$(
        impl ToBigInt for $s { fn to_bigint(&self) -> Option<BigInt> { Some((*self).into()) } }
        impl ToBigUint for $s { fn to_biguint(&self) -> Option<BigUint> { (*self).try_into().ok() } }
    )*};
}
to_big!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl ToBigInt for f32 {
    fn to_bigint(&self) -> Option<BigInt> {
        BigInt::from_f32(*self)
    }
}
impl ToBigInt for f64 {
    fn to_bigint(&self) -> Option<BigInt> {
        BigInt::from_f64(*self)
    }
}
impl ToBigUint for f32 {
    fn to_biguint(&self) -> Option<BigUint> {
        BigUint::from_f32(*self)
    }
}
impl ToBigUint for f64 {
    fn to_biguint(&self) -> Option<BigUint> {
        BigUint::from_f64(*self)
    }
}

// ---------------------------------------------------------------- signed

impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(self.0.neg())
    }
}
impl Neg for &BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(self.0.neg())
    }
}
impl Not for BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        BigInt(self.0.neg().sub(&V::c(1)))
    }
}
impl Not for &BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        BigInt(self.0.neg().sub(&V::c(1)))
    }
}
impl Signed for BigInt {
    fn abs(&self) -> BigInt {
        BigInt(self.0.abs())
    }
    fn abs_sub(&self, o: &BigInt) -> BigInt {
        if *self <= *o {
            BigInt::ZERO
        } else {
            self - o
        }
    }
    fn signum(&self) -> BigInt {
        BigInt(V::c(self.0.signum()))
    }
    fn is_positive(&self) -> bool {
        self.0.is_positive()
    }
    fn is_negative(&self) -> bool {
        self.0.is_negative()
    }
}
impl Unsigned for BigUint {}
impl CheckedSub for BigInt {
    fn checked_sub(&self, o: &BigInt) -> Option<BigInt> {
        Some(self - o)
    }
}
impl CheckedSub for BigUint {
    fn checked_sub(&self, o: &BigUint) -> Option<BigUint> {
        if self.0.lt(&o.0) {
            None
        } else {
            Some(BigUint(self.0.sub(&o.0)))
        }
    }
}
impl BigInt {
    pub fn new(sign: Sign, digits: Vec<u32>) -> BigInt {
        real::BigInt::new(sign, digits).into()
    }
    pub fn from_slice(sign: Sign, s: &[u32]) -> BigInt {
        real::BigInt::from_slice(sign, s).into()
    }
    pub fn from_biguint(sign: Sign, data: BigUint) -> BigInt {
        match sign {
            Sign::NoSign => BigInt::ZERO,
            Sign::Plus => BigInt(data.0),
            Sign::Minus => BigInt(data.0.neg()),
        }
    }
    pub fn from_bytes_be(sign: Sign, b: &[u8]) -> BigInt {
        real::BigInt::from_bytes_be(sign, b).into()
    }
    pub fn from_bytes_le(sign: Sign, b: &[u8]) -> BigInt {
        real::BigInt::from_bytes_le(sign, b).into()
    }
    pub fn sign(&self) -> Sign {
        match self.0.signum() {
            0 => Sign::NoSign,
            1 => Sign::Plus,
            _ => Sign::Minus,
        }
    }
    pub fn magnitude(&self) -> &BigUint {
        Box::leak(Box::new(BigUint(self.0.abs())))
    }
    pub fn into_parts(self) -> (Sign, BigUint) {
        let s = self.sign();
        let m = if s == Sign::Minus { self.0.neg() } else { self.0 };
        (s, BigUint(m))
    }
    pub fn into_biguint(self) -> Option<BigUint> {
        self.to_biguint()
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        ToBigUint::to_biguint(self)
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        self.0.concretize().to_bytes_be()
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        self.0.concretize().to_bytes_le()
    }
    pub fn to_signed_bytes_le(&self) -> Vec<u8> {
        self.0.concretize().to_signed_bytes_le()
    }
    pub fn to_u32_digits(&self) -> (Sign, Vec<u32>) {
        self.0.concretize().to_u32_digits()
    }
    pub fn to_u64_digits(&self) -> (Sign, Vec<u64>) {
        self.0.concretize().to_u64_digits()
    }
    pub fn checked_add(&self, v: &BigInt) -> Option<BigInt> {
        Some(self + v)
    }
    pub fn checked_sub(&self, v: &BigInt) -> Option<BigInt> {
        Some(self - v)
    }
    pub fn checked_mul(&self, v: &BigInt) -> Option<BigInt> {
        Some(self * v)
    }
    pub fn checked_div(&self, v: &BigInt) -> Option<BigInt> {
        CheckedDiv::checked_div(self, v)
    }
}
impl BigUint {
    pub fn new(digits: Vec<u32>) -> BigUint {
        real::BigUint::new(digits).into()
    }
    pub fn from_slice(s: &[u32]) -> BigUint {
        real::BigUint::from_slice(s).into()
    }
    pub fn from_bytes_be(b: &[u8]) -> BigUint {
        real::BigUint::from_bytes_be(b).into()
    }
    pub fn from_bytes_le(b: &[u8]) -> BigUint {
        real::BigUint::from_bytes_le(b).into()
    }
    fn real(&self) -> real::BigUint {
        self.0.concretize().to_biguint().unwrap()
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        self.real().to_bytes_be()
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        self.real().to_bytes_le()
    }
    pub fn to_u32_digits(&self) -> Vec<u32> {
        self.real().to_u32_digits()
    }
    pub fn to_u64_digits(&self) -> Vec<u64> {
        self.real().to_u64_digits()
    }
    pub fn trailing_ones(&self) -> u64 {
        self.real().trailing_ones()
    }
    pub fn count_ones(&self) -> u64 {
        self.real().count_ones()
    }
}
// keep the unused import of ExtendedGcd meaningful: the default extended_gcd of Integer is used
#[allow(dead_code)]
fn _uses(_: ExtendedGcd<BigInt>) {}
#[allow(dead_code)]
fn _v<T: Wrap>(t: &T) -> &V {
    t.v()
}
