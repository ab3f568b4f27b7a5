//! C13: bounded big integers.
use crate::vx::*;
use hacspec::prelude::*;
use abstract_integers::*;
abstract_unsigned_public_integer!(P8, 8);
abstract_unsigned_public_integer!(P20, 20);
abstract_unsigned_public_integer!(P64, 64);
abstract_unsigned_public_integer!(P130, 130);
abstract_unsigned_public_integer!(P256, 256);
abstract_signed_public_integer!(S8, 8);
abstract_signed_public_integer!(S64, 64);
abstract_signed_public_integer!(S136, 136);
abstract_unsigned_secret_integer!(Q8, 8);
abstract_unsigned_secret_integer!(Q64, 64);
abstract_unsigned_secret_integer!(Q272, 272);
abstract_signed_secret_integer!(R64, 64);
define_abstract_integer_checked!(L128, 128);
fn mx(bits: usize) -> BigInt { (BigInt::from(1u32) << bits) - BigInt::from(1u32) }
fn lo(bits: usize, signed: bool) -> BigInt { if signed { BigInt::from(0u32) - mx(bits) } else { BigInt::from(0u32) } }
/// an arbitrary integer of nb bytes, with a sign for signed types
fn sym(bits: usize, hi: &BigInt, signed: bool) -> BigInt { let x = int_sym((bits + 7) / 8, hi); if signed { if flag() { return BigInt::from(0u32) - x } } x }
fn is(a: BigInt, b: &BigInt, id: u32) { check(&a == b, id) }
macro_rules! common { ($t:ident, $bits:expr, $s:expr) => {
hx!("h_c13_from_", stringify!($t); {
    // conversion from integers: exact or refused
    let nb = ($bits + 7) / 8 + param(0);
    let x = sym(8 * nb, &mx(8 * nb), $s);
    exact(true);
    panics_iff(x > mx($bits) || x < lo($bits, $s));
    let t: $t = x.clone().into();
    panics_end();
    exact(false);
    is(t.into(), &x, 1);
});
hx!("h_c13_bin_", stringify!($t); {
    // + - * : exact or refused
    let (a, b) = (sym($bits, &mx($bits), $s), sym($bits, &mx($bits), $s));
    let (ta, tb): ($t, $t) = (a.clone().into(), b.clone().into());
    is(ta.into(), &a, 1);
    let c = match param(0) { 0 => &a + &b, 1 => &a - &b, _ => &a * &b };
    exact(true);
    panics_iff(c > mx($bits) || c < lo($bits, $s));
    let r = match param(0) { 0 => ta + tb, 1 => ta - tb, _ => ta * tb };
    panics_end();
    exact(false);
    is(r.into(), &c, 2);
});
hx!("h_c13_lit_", stringify!($t); {
    if $bits <= 130 { exact(true) }
    if param(0) == 0 {
        let x: u128 = any();
        panics_iff(BigInt::from(x) > mx($bits));
        let t = <$t>::from_literal(x);
        panics_end();
        exact(false); is(t.into(), &BigInt::from(x), 1);
    } else {
        // sign and magnitude; -2^127 (param 2) apart
        let m = if param(0) != 2 { let lo: u64 = any(); let hi: u64 = any(); assume(hi < 1 << 63); (hi as u128) << 64 | lo as u128 } else { 1u128 << 127 };
        let neg = param(0) >= 2;
        let b = if neg { BigInt::from(0u32) - BigInt::from(m) } else { BigInt::from(m) };
        let x = if neg { 0u128.wrapping_sub(m) as i128 } else { m as i128 };
        panics_iff(b > mx($bits) || b < lo($bits, $s));
        let t = <$t>::from_signed_literal(x);
        panics_end();
        exact(false); is(t.into(), &b, 2);
    }
});
hx!("h_c13_pow2_", stringify!($t); {
    let k = param(0);
    panics_iff(k >= $bits);
    let t = <$t>::pow2(k);
    panics_end();
    is(t.into(), &(BigInt::from(1u32) << k), 1);
    is(<$t>::default().into(), &BigInt::from(0u32), 2);
});
} }
macro_rules! unsigned { ($t:ident, $bits:expr) => {
common!($t, $bits, false);
hx!("h_c13_bit_", stringify!($t); {
    let a = int_sym(($bits + 7) / 8, &mx($bits)); let ta: $t = a.clone().into();
    let k = param(0);
    panics_iff(k >= 8 * (($bits + 7) / 8));
    let b = ta.bit(k);
    panics_end();
    check(b == ((&a >> k) % BigInt::from(2u32) == BigInt::from(1u32)), 1);
});
hx!("h_c13_bytes_", stringify!($t); {
    // n bytes, little-endian
    let v = bytes(param(0));
    let x = BigInt::from_bytes_le(Sign::Plus, &v);
    exact(true);
    panics_iff(x > mx($bits));
    let t = <$t>::from_le_bytes(&v);
    panics_end();
    is(t.into(), &x, 1);
    let w = t.to_le_bytes();
    check(w.len() <= ($bits + 7) / 8, 2);
    is(BigInt::from_bytes_le(Sign::Plus, &w), &x, 3);
    let u = <$t>::from_le_bytes(&w);
    is(u.into(), &x, 4);
    let z: BigUint = t.into();
    is(<$t>::from(z).into(), &x, 5);
});
hx!("h_c13_hex_", stringify!($t); {
    // a string of n hexadecimal digits, either case
    let n = param(0);
    let v = bytes(n / 2); let up = flag();
    let mut s = vec![0u8; n];
    for i in 0..n { let d = if i % 2 == 0 { v[i / 2] >> 4 } else { v[i / 2] & 15 }; s[i] = if d < 10 { 48 + d } else if up { 55 + d } else { 87 + d }; }
    let x = BigInt::from_bytes_be(Sign::Plus, &v);
    let s = unsafe { std::str::from_utf8_unchecked(&s) };
    exact(true);
    panics_iff(x > mx($bits));
    let t = <$t>::from_hex(s);
    panics_end();
    exact(false);
    is(t.into(), &x, 1);
});
} }
macro_rules! public { ($t:ident, $bits:expr, $s:expr) => {
hx!("h_c13_div_", stringify!($t); {
    let (a, b) = (sym($bits, &mx($bits), $s), sym($bits, &mx($bits), $s));
    let (ta, tb): ($t, $t) = (a.clone().into(), b.clone().into());
    let z = BigInt::from(0u32);
    panics_iff(b == z);
    let (q, r) = (ta / tb, ta % tb);
    panics_end();
    let (q, r): (BigInt, BigInt) = (q.into(), r.into());
    if param(0) == 0 {
        is(q, &(&a / &b), 1); is(r, &(&a % &b), 2);
    } else {
        // a = q b + r, |r| < |b|, r has the sign of a
        check(&q * &b + &r == a, 3);
        check(if b < z { if r < z { r > b } else { r < -b.clone() } } else { if r < z { -r.clone() < b } else { r < b } }, 4);
        check(r == z || (r < z) == (a < z), 5);
    }
});
hx!("h_c13_cmp_", stringify!($t); {
    let (a, b) = (sym($bits, &mx($bits), $s), sym($bits, &mx($bits), $s));
    let (ta, tb): ($t, $t) = (a.clone().into(), b.clone().into());
    check((ta == tb) == (a == b), 1); check((ta != tb) == (a != b), 2);
    check((ta < tb) == (a < b), 3); check((ta <= tb) == (a <= b), 4); check((ta > tb) == (a > b), 5); check((ta >= tb) == (a >= b), 6);
    check((ta.cmp(&tb) == std::cmp::Ordering::Less) == (a < b), 7); check((ta.cmp(&tb) == std::cmp::Ordering::Equal) == (a == b), 8);
    check((ta.partial_cmp(&tb) == Some(std::cmp::Ordering::Greater)) == (a > b), 9);
});
} }
macro_rules! pows { ($t:ident, $bits:expr) => {
hx!("h_c13_pow_", stringify!($t); {
    let (a, e, m) = (int_sym(($bits + 7) / 8, &mx($bits)), int_sym(($bits + 7) / 8, &mx($bits)), int_sym(($bits + 7) / 8, &mx($bits)));
    let (ta, te, tm): ($t, $t, $t) = (a.clone().into(), e.clone().into(), m.clone().into());
    match param(0) {
        0 => {
            panics_iff(m == BigInt::from(0u32));
            let r = ta.pow_felem(te, tm);
            panics_end();
            is(r.into(), &a.modpow(&e, &m), 1);
        }
        1 => {
            let x = if $bits < 64 { (any::<u64>() & ((1u64 << ($bits & 63)) - 1)) as u128 } else { any::<u64>() as u128 };
            panics_iff(m == BigInt::from(0u32));
            let r = ta.pow(x, tm);
            panics_end();
            is(r.into(), &a.modpow(&BigInt::from(x), &m), 2);
        }
        _ => {
            assume(m > BigInt::from(2u32));
            let r = ta.inv(tm);
            is(r.into(), &a.modpow(&(&m - BigInt::from(2u32)), &m), 3);
        }
    }
});
} }
unsigned!(P8, 8); unsigned!(P20, 20); unsigned!(P64, 64); unsigned!(P130, 130); unsigned!(P256, 256); unsigned!(L128, 128);
unsigned!(Q8, 8); unsigned!(Q64, 64); unsigned!(Q272, 272);
common!(S8, 8, true); common!(S64, 64, true); common!(S136, 136, true); common!(R64, 64, true);
public!(P8, 8, false); public!(P20, 20, false); public!(P64, 64, false); public!(P130, 130, false); public!(P256, 256, false); public!(L128, 128, false);
public!(S8, 8, true); public!(S64, 64, true); public!(S136, 136, true);
pows!(P8, 8); pows!(P64, 64); pows!(P130, 130); pows!(P256, 256); pows!(L128, 128);
