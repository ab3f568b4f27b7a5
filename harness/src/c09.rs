//! C09: constant-time conditional helpers.
use crate::vx::*;
use hacspec::prelude::*;
macro_rules! body { ($t:ident, $u:ident, $mk:expr, $un:expr, $k:expr) => { {
    let (a, b): ($t, $t) = (any(), any()); let s = flag();
    let (one, mask): ($t, $t) = (s as $t, if s { !0 } else { 0 });
    let (mk, un) = ($mk, $un);
    match $k {
        0 => { let (p, q) = cswap(mk(a), mk(b), mk(mask)); eqv(un(p), if s { b } else { a }, 1); eqv(un(q), if s { a } else { b }, 2) }
        1 => { let (p, q) = cswap_bit(mk(a), mk(b), mk(one)); eqv(un(p), if s { b } else { a }, 3); eqv(un(q), if s { a } else { b }, 4) }
        2 => { let i: u32 = any(); let c = flag(); assume(i < 8 * std::mem::size_of::<$t>() as u32);
               let m = ((1 as $u) << i) as $t; let set = if c { a | m } else { a & !m };
               eqv(un(cset_bit(mk(a), mk(c as $t), i, mk(mask))), if s { set } else { a }, 5) }
        3 => eqv(un(cadd(mk(a), mk(b), mk(mask))), if s { a.wrapping_add(b) } else { a }, 6),
        4 => eqv(un(csub(mk(a), mk(b), mk(mask))), if s { a.wrapping_sub(b) } else { a }, 7),
        _ => eqv(un(cmul(mk(a), mk(b), mk(mask))), if s { a.wrapping_mul(b) } else { a }, 8),
    }
} } }
macro_rules! c09 { ($($T:ident $t:ident $u:ident)*) => { $(
    hx!("h_c09_pub_", stringify!($t); { body!($t, $u, |x: $t| x, |x: $t| x, param(0)) });
    hx!("h_c09_sec_", stringify!($t); { body!($t, $u, |x: $t| $T(x), |x: $T| x.declassify(), param(0)) });
)* } }
c09!(U8 u8 u8 U16 u16 u16 U32 u32 u32 U64 u64 u64 U128 u128 u128 I8 i8 u8 I16 i16 u16 I32 i32 u32 I64 i64 u64 I128 i128 u128);
/// restoring long division, the schoolbook algorithm (q and r after the bits of a above position i: a >> i = q*d + r, 0 <= r < d;
/// h_c09_step proves the step, so that it characterises quotient and remainder)
macro_rules! longdiv { ($t:ty, $a:expr, $d:expr) => { {
    let (a, d): ($t, $t) = ($a, $d); let (mut q, mut r): ($t, $t) = (0, 0);
    for i in (0..8 * std::mem::size_of::<$t>() as u32).rev() {
        r = (r << 1) | (a >> i & 1);
        let g = r >= d;
        r = if g { r.wrapping_sub(d) } else { r };
        q = if g { q | (1 as $t) << i } else { q };
    }
    (q, r)
} } }
macro_rules! c09d { ($($T:ident $t:ident)*) => { $(
    hx!("h_c09_sdiv_", stringify!($t); {
        let (a, d): ($t, $t) = (any(), any());
        assume(d != 0);
        let (q, r) = ct_div($T(a), $T(d));
        let (q1, r1) = longdiv!($t, a, d);
        if param(0) == 0 { eqv(q.declassify(), q1, 1) } else { eqv(r.declassify(), r1, 2) }
    });
)* } }
c09d!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128);
macro_rules! c09sd { ($($t:ident)*) => { $(
    hx!("h_c09_div_", stringify!($t); {
        let (a, d): ($t, $t) = (any(), any());
        assume(a >= 0 && d > 0);
        let (q, r) = ct_div(a, d);
        let (q1, r1) = longdiv!($t, a, d);
        eqv(q, q1, 1); eqv(r, r1, 2);
    });
)* } }
c09sd!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
// the characterisation itself, for the width the solver multiplies directly
hx!("h_c09_char_u8"; {
    let (a, d): (u8, u8) = (any(), any());
    assume(d != 0);
    let (q, r) = ct_div(a, d);
    check(r < d, 1);
    check(q as u16 * d as u16 + r as u16 == a as u16, 2);
});
// one step of long division over the integers: from a = q*d + r, 0 <= r < d, a < 2^127 it produces the quotient and remainder of 2a+b
hx!("h_c09_step"; {
    use abstract_integers::BigInt;
    let hi = (BigInt::from(1u32) << 127usize) - BigInt::from(1u32);
    let (q, r, d) = (int_sym(16, &hi), int_sym(16, &hi), int_sym(16, &hi));
    let b = flag() as u32;
    let zero = BigInt::from(0u32);
    assume(r < d);
    let a = q.clone() * d.clone() + r.clone();
    let r2 = r.clone() * BigInt::from(2u32) + BigInt::from(b);
    let g = r2 >= d;
    let r3 = if g { r2.clone() - d.clone() } else { r2.clone() };
    let q3 = q.clone() * BigInt::from(2u32) + BigInt::from(g as u32);
    check(r3 >= zero && r3 < d, 1);
    check(q3 * d.clone() + r3 == a.clone() * BigInt::from(2u32) + BigInt::from(b), 2);
    // the partial remainder never exceeds the part of the dividend consumed, so the w-bit register does not overflow
    check(r2 <= a * BigInt::from(2u32) + BigInt::from(b), 3);
});
