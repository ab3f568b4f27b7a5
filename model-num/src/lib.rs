//! Model of the parts of crate `num` 0.2 that hacspec uses.  A BigInt/BigUint is a handle of a mathematical
//! integer which the symbolic executor keeps; the operations are `vx_i_*` calls it implements.
use std::cmp::Ordering;
use std::ops::*;

extern "C" {
    fn vx_i_from(lo: u64, hi: u64) -> u64;
    fn vx_i_from_signed(lo: u64, hi: u64) -> u64;
    fn vx_i_bytes(p: *const u8, n: usize, le: u64) -> u64;
    fn vx_i_write(h: u64, p: *mut u8, n: usize, le: u64);
    fn vx_i_maxlen(h: u64) -> usize;
    fn vx_i_isconst(h: u64) -> u64;
    fn vx_i_exact() -> u64;
    fn vx_i_setmode(m: u64);
    fn vx_i_add(a: u64, b: u64) -> u64;
    fn vx_i_sub(a: u64, b: u64) -> u64;
    fn vx_i_mul(a: u64, b: u64) -> u64;
    fn vx_i_div(a: u64, b: u64) -> u64;
    fn vx_i_rem(a: u64, b: u64) -> u64;
    fn vx_i_modpow(b: u64, e: u64, m: u64) -> u64;
    fn vx_i_pow(b: u64, e: u64) -> u64;
    fn vx_i_shl(a: u64, n: u64) -> u64;
    fn vx_i_shr(a: u64, n: u64) -> u64;
    fn vx_i_lt(a: u64, b: u64) -> u8;
    fn vx_i_eq(a: u64, b: u64) -> u8;
    fn vx_i_low(a: u64, i: u64) -> u64;
    fn vx_i_sym(nb: u64, hi: u64) -> u64;
    fn vx_i_abs(h: u64) -> u64;
    fn vx_part(x: u64);
    fn vx_i_bitand1(a: u64) -> u64;
}

pub fn vx_sym_int(nb: usize, hi: &BigInt) -> BigInt { BigInt { h: unsafe { vx_i_sym(nb as u64, hi.h) } } }
pub fn vx_exact(on: bool) { unsafe { vx_i_setmode(on as u64) } }

fn lt(a: u64, b: u64) -> bool { unsafe { vx_i_lt(a, b) == 1 } }
fn eq(a: u64, b: u64) -> bool { unsafe { vx_i_eq(a, b) == 1 } }
fn k(x: u64) -> u64 { unsafe { vx_i_from(x, 0) } }
fn ord(a: u64, b: u64) -> Ordering {
    if lt(a, b) { Ordering::Less } else if eq(a, b) { Ordering::Equal } else { Ordering::Greater }
}
fn bytes(h: u64, le: u64) -> Vec<u8> {
    let mut n = unsafe { vx_i_maxlen(h) };
    if unsafe { vx_i_exact() == 1 && vx_i_isconst(h) == 0 } {
        // num returns the shortest representation (one zero byte for zero): one path per length
        let m = unsafe { vx_i_abs(h) };
        let mut l = 1;
        while l < n {
            if lt(m, unsafe { vx_i_shl(k(1), 8 * l as u64) }) { unsafe { vx_part(l as u64) } break; }
            l += 1;
        }
        n = l;
    }
    let mut v = vec![0u8; n];
    unsafe { vx_i_write(h, v.as_mut_ptr(), n, le) };
    v
}

#[derive(PartialEq, PartialOrd, Eq, Ord, Copy, Clone, Debug, Hash)]
pub enum Sign { Minus, NoSign, Plus }
pub mod bigint { pub use crate::{BigInt, BigUint, Sign}; }
pub mod biguint { pub use crate::BigUint; }

pub trait Zero: Sized { fn zero() -> Self; fn is_zero(&self) -> bool; }
pub trait One: Sized { fn one() -> Self; }
pub trait CheckedSub: Sized { fn checked_sub(&self, v: &Self) -> Option<Self>; }
pub trait CheckedAdd: Sized { fn checked_add(&self, v: &Self) -> Option<Self>; }
pub trait Num: Sized { }
pub trait Pow<R> { type Output; fn pow(self, rhs: R) -> Self::Output; }
pub trait Signed: Sized { fn abs(&self) -> Self; fn is_negative(&self) -> bool; fn is_positive(&self) -> bool; }
pub mod traits {
    pub use crate::{Zero, One, CheckedSub, CheckedAdd, Num, Pow, Signed, ToPrimitive};
    pub mod identities { pub use crate::{Zero, One}; }
}
pub mod identities { pub use crate::{Zero, One}; }
pub trait ToPrimitive { fn to_u64(&self) -> Option<u64>; fn to_u128(&self) -> Option<u128>; fn to_usize(&self) -> Option<usize>; }

macro_rules! big {
    ($T:ident) => {
        #[derive(Clone)]
        pub struct $T { h: u64 }
        impl Default for $T { fn default() -> $T { $T { h: k(0) } } }
        impl PartialEq for $T { fn eq(&self, o: &$T) -> bool { eq(self.h, o.h) } }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &$T) -> Option<Ordering> { Some(ord(self.h, o.h)) }
            fn lt(&self, o: &$T) -> bool { lt(self.h, o.h) }
            fn gt(&self, o: &$T) -> bool { lt(o.h, self.h) }
            fn le(&self, o: &$T) -> bool { !lt(o.h, self.h) }
            fn ge(&self, o: &$T) -> bool { !lt(self.h, o.h) }
        }
        impl Ord for $T { fn cmp(&self, o: &$T) -> Ordering { ord(self.h, o.h) } }
        impl std::fmt::Display for $T { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
        impl std::fmt::Debug for $T { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
        impl Zero for $T { fn zero() -> $T { $T { h: k(0) } } fn is_zero(&self) -> bool { eq(self.h, k(0)) } }
        impl One for $T { fn one() -> $T { $T { h: k(1) } } }
        impl Num for $T {}
        impl ToPrimitive for $T {
            fn to_u64(&self) -> Option<u64> { if lt(self.h, k(0)) || !lt(self.h, unsafe { vx_i_shl(k(1), 64) }) { None } else { Some(unsafe { vx_i_low(self.h, 0) }) } }
            fn to_usize(&self) -> Option<usize> { self.to_u64().map(|x| x as usize) }
            fn to_u128(&self) -> Option<u128> { if lt(self.h, k(0)) || !lt(self.h, unsafe { vx_i_shl(k(1), 128) }) { None } else { Some(unsafe { vx_i_low(self.h, 0) as u128 | (vx_i_low(self.h, 1) as u128) << 64 }) } }
        }
        big!(@op $T, Add, add, AddAssign, add_assign);
        big!(@op $T, Sub, sub, SubAssign, sub_assign);
        big!(@op $T, Mul, mul, MulAssign, mul_assign);
        big!(@op $T, Div, div, DivAssign, div_assign);
        big!(@op $T, Rem, rem, RemAssign, rem_assign);
        big!(@sh $T, usize u32 i32 u64);
        big!(@fromu $T, u8 u16 u32 u64 u128 usize);
        impl BitAnd<$T> for $T { type Output = $T; fn bitand(self, o: $T) -> $T {
            if unsafe { vx_i_isconst(o.h) == 1 } && eq(o.h, k(1)) { $T { h: unsafe { vx_i_bitand1(self.h) } } } else { unimplemented!() } } }
        impl BitAnd<&$T> for $T { type Output = $T; fn bitand(self, o: &$T) -> $T { self & o.clone() } }
        impl BitAnd<&$T> for &$T { type Output = $T; fn bitand(self, o: &$T) -> $T { self.clone() & o.clone() } }
    };
    (@op $T:ident, $Tr:ident, $f:ident, $Ta:ident, $fa:ident) => {
        impl $Tr<$T> for $T { type Output = $T; fn $f(self, o: $T) -> $T { $T { h: $T::$f(self.h, o.h) } } }
        impl<'a> $Tr<&'a $T> for $T { type Output = $T; fn $f(self, o: &$T) -> $T { $T { h: $T::$f(self.h, o.h) } } }
        impl<'a> $Tr<$T> for &'a $T { type Output = $T; fn $f(self, o: $T) -> $T { $T { h: $T::$f(self.h, o.h) } } }
        impl<'a, 'b> $Tr<&'b $T> for &'a $T { type Output = $T; fn $f(self, o: &$T) -> $T { $T { h: $T::$f(self.h, o.h) } } }
        impl $Ta<$T> for $T { fn $fa(&mut self, o: $T) { self.h = $T::$f(self.h, o.h) } }
        impl<'a> $Ta<&'a $T> for $T { fn $fa(&mut self, o: &$T) { self.h = $T::$f(self.h, o.h) } }
    };
    (@sh $T:ident, $($u:ident)*) => { $(
        impl Shl<$u> for $T { type Output = $T; fn shl(self, n: $u) -> $T { $T { h: unsafe { vx_i_shl(self.h, n as u64) } } } }
        impl Shr<$u> for $T { type Output = $T; fn shr(self, n: $u) -> $T { $T { h: unsafe { vx_i_shr(self.h, n as u64) } } } }
        impl<'a> Shl<$u> for &'a $T { type Output = $T; fn shl(self, n: $u) -> $T { $T { h: unsafe { vx_i_shl(self.h, n as u64) } } } }
        impl<'a> Shr<$u> for &'a $T { type Output = $T; fn shr(self, n: $u) -> $T { $T { h: unsafe { vx_i_shr(self.h, n as u64) } } } }
    )* };
    (@fromu $T:ident, $($u:ident)*) => { $(
        impl From<$u> for $T { fn from(x: $u) -> $T { let x = x as u128; $T { h: unsafe { vx_i_from(x as u64, (x >> 64) as u64) } } } }
    )* };
}
big!(BigInt);
big!(BigUint);
macro_rules! fromi { ($($u:ident)*) => { $(
    impl From<$u> for BigInt { fn from(x: $u) -> BigInt { let x = x as i128; BigInt { h: unsafe { vx_i_from_signed(x as u64, (x >> 64) as u64) } } } }
)* } }
fromi!(i8 i16 i32 i64 i128 isize);

fn zdiv(b: u64) { if eq(b, k(0)) { panic!("attempt to divide by zero") } }
impl BigInt {
    fn add(a: u64, b: u64) -> u64 { unsafe { vx_i_add(a, b) } }
    fn sub(a: u64, b: u64) -> u64 { unsafe { vx_i_sub(a, b) } }
    fn mul(a: u64, b: u64) -> u64 { unsafe { vx_i_mul(a, b) } }
    fn div(a: u64, b: u64) -> u64 { zdiv(b); unsafe { vx_i_div(a, b) } }
    fn rem(a: u64, b: u64) -> u64 { zdiv(b); unsafe { vx_i_rem(a, b) } }
    pub fn from_bytes_be(s: Sign, v: &[u8]) -> BigInt { BigInt::signed(s, unsafe { vx_i_bytes(v.as_ptr(), v.len(), 0) }) }
    pub fn from_bytes_le(s: Sign, v: &[u8]) -> BigInt { BigInt::signed(s, unsafe { vx_i_bytes(v.as_ptr(), v.len(), 1) }) }
    fn signed(s: Sign, h: u64) -> BigInt {
        match s {
            Sign::Plus => BigInt { h },
            Sign::Minus => BigInt { h: unsafe { vx_i_sub(k(0), h) } },
            Sign::NoSign => BigInt { h: k(0) },
        }
    }
    pub fn sign(&self) -> Sign { if lt(self.h, k(0)) { Sign::Minus } else if eq(self.h, k(0)) { Sign::NoSign } else { Sign::Plus } }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) { (self.sign(), bytes(self.h, 0)) }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) { (self.sign(), bytes(self.h, 1)) }
    pub fn modpow(&self, e: &BigInt, m: &BigInt) -> BigInt {
        if lt(e.h, k(0)) { panic!("negative exponentiation is not supported!") }
        if eq(m.h, k(0)) { panic!("divide by zero!") }
        BigInt { h: unsafe { vx_i_modpow(self.h, e.h, m.h) } }
    }
    pub fn checked_sub(&self, o: &BigInt) -> Option<BigInt> { Some(self - o) }
    pub fn checked_add(&self, o: &BigInt) -> Option<BigInt> { Some(self + o) }
    pub fn to_biguint(&self) -> Option<BigUint> { if lt(self.h, k(0)) { None } else { Some(BigUint { h: self.h }) } }
}
impl Neg for BigInt { type Output = BigInt; fn neg(self) -> BigInt { BigInt { h: unsafe { vx_i_sub(k(0), self.h) } } } }
impl Signed for BigInt {
    fn abs(&self) -> BigInt { if lt(self.h, k(0)) { -self.clone() } else { self.clone() } }
    fn is_negative(&self) -> bool { lt(self.h, k(0)) }
    fn is_positive(&self) -> bool { lt(k(0), self.h) }
}
impl CheckedSub for BigInt { fn checked_sub(&self, o: &BigInt) -> Option<BigInt> { Some(self - o) } }
impl From<BigUint> for BigInt { fn from(x: BigUint) -> BigInt { BigInt { h: x.h } } }
impl BigUint {
    fn add(a: u64, b: u64) -> u64 { unsafe { vx_i_add(a, b) } }
    fn sub(a: u64, b: u64) -> u64 { if lt(a, b) { panic!("Cannot subtract b from a because b is larger than a.") } unsafe { vx_i_sub(a, b) } }
    fn mul(a: u64, b: u64) -> u64 { unsafe { vx_i_mul(a, b) } }
    fn div(a: u64, b: u64) -> u64 { zdiv(b); unsafe { vx_i_div(a, b) } }
    fn rem(a: u64, b: u64) -> u64 { zdiv(b); unsafe { vx_i_rem(a, b) } }
    pub fn from_bytes_be(v: &[u8]) -> BigUint { BigUint { h: unsafe { vx_i_bytes(v.as_ptr(), v.len(), 0) } } }
    pub fn from_bytes_le(v: &[u8]) -> BigUint { BigUint { h: unsafe { vx_i_bytes(v.as_ptr(), v.len(), 1) } } }
    pub fn to_bytes_be(&self) -> Vec<u8> { bytes(self.h, 0) }
    pub fn to_bytes_le(&self) -> Vec<u8> { bytes(self.h, 1) }
    pub fn modpow(&self, e: &BigUint, m: &BigUint) -> BigUint {
        if eq(m.h, k(0)) { panic!("divide by zero!") }
        BigUint { h: unsafe { vx_i_modpow(self.h, e.h, m.h) } }
    }
}
impl CheckedSub for BigUint { fn checked_sub(&self, o: &BigUint) -> Option<BigUint> { if lt(self.h, o.h) { None } else { Some(self - o) } } }
