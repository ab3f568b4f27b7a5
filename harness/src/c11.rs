//! C11: array and sequence arithmetic is element-wise.
use crate::vx::*;
use hacspec::prelude::*;
fn vals<T: Copy + Default>(n: usize) -> Vec<T> { let mut v = vec![T::default(); n]; for i in 0..n { v[i] = any::<T>() } v }
macro_rules! sec { ($($T:ident $t:ident $m:ident;)*) => { $( mod $m {
    use super::*;
    array!(A1, 1, $T); array!(A3, 3, $T); array!(A6, 6, $T);
    macro_rules! ops { ($A:ident) => { {
        let n = $A::new().len();
        let (x, y) = (vals::<$t>(n), vals::<$t>(n));
        let (mut a, mut b) = ($A::new(), $A::new());
        for i in 0..n { a[i] = $T(x[i]); b[i] = $T(y[i]); }
        let r = match param(1) { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a ^ b, 4 => a.wrap_add(b), 5 => a.wrap_sub(b), _ => a.wrap_mul(b) };
        for i in 0..n {
            let w = match param(1) { 0 | 4 => x[i].wrapping_add(y[i]), 1 | 5 => x[i].wrapping_sub(y[i]), 2 | 6 => x[i].wrapping_mul(y[i]), _ => x[i] ^ y[i] };
            eqv(r[i].declassify(), w, 1);
        }
        let mut e = true; for i in 0..n { e &= x[i] == y[i] }
        if param(1) == 0 { check(a.declassify_eq(&b) == e, 2) }
    } } }
    hx!("h_c11_sec_", stringify!($t); { match param(0) { 1 => ops!(A1), 3 => ops!(A3), _ => ops!(A6) } });
} )* } }
sec!(U8 u8 s8; U16 u16 s16; U32 u32 s32; U64 u64 s64; U128 u128 s128;);
macro_rules! publ { ($($t:ident $m:ident;)*) => { $( mod $m {
    use super::*;
    array!(A1, 1, $t); array!(A3, 3, $t); array!(A6, 6, $t);
    macro_rules! ops { ($A:ident) => { {
        let n = $A::new().len();
        let (x, y) = (vals::<$t>(n), vals::<$t>(n));
        let (mut a, mut b) = ($A::new(), $A::new());
        for i in 0..n { a[i] = x[i]; b[i] = y[i]; }
        if param(1) == 7 { let mut z = false; for i in 0..n { z |= y[i] == 0 } panics_iff(z); }
        let r = match param(1) { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a ^ b, 4 => a.wrap_add(b), 5 => a.wrap_sub(b), 6 => a.wrap_mul(b), _ => a / b };
        panics_end();
        for i in 0..n {
            let w = match param(1) { 0 | 4 => x[i].wrapping_add(y[i]), 1 | 5 => x[i].wrapping_sub(y[i]), 2 | 6 => x[i].wrapping_mul(y[i]), 3 => x[i] ^ y[i], _ => x[i].wrapping_div(y[i]) };
            eqv(r[i], w, 1);
        }
    } } }
    macro_rules! cmp { ($A:ident) => { {
        let n = $A::new().len();
        let (x, y) = (vals::<$t>(n), vals::<$t>(n));
        let (mut a, mut b) = ($A::new(), $A::new());
        for i in 0..n { a[i] = x[i]; b[i] = y[i]; }
        let (mut lt, mut gt) = (false, false);      // lexicographic
        for i in 0..n { let open = !lt & !gt; lt |= open & (x[i] < y[i]); gt |= open & (x[i] > y[i]); }
        check((a == b) == (!lt & !gt), 1); check((a != b) == (lt | gt), 2);
        check((a < b) == lt, 3); check((a > b) == gt, 4); check((a <= b) == !gt, 5); check((a >= b) == !lt, 6);
        check((a.cmp(&b) == Ordering::Less) == lt, 7); check((a.cmp(&b) == Ordering::Greater) == gt, 8);
    } } }
    hx!("h_c11_pub_", stringify!($t); { match param(0) { 1 => ops!(A1), 3 => ops!(A3), _ => ops!(A6) } });
    hx!("h_c11_cmp_", stringify!($t); { match param(0) { 1 => cmp!(A1), 3 => cmp!(A3), _ => cmp!(A6) } });
} )* } }
publ!(u8 p8; u16 p16; u32 p32; u64 p64; u128 p128;);
macro_rules! seqs { ($($t:ident)*) => { $( hx!("h_c11_seq_", stringify!($t); {
    let (n, m) = (param(0), param(2));
    let (x, y) = (vals::<$t>(n), vals::<$t>(m));
    let (mut a, mut b) = (PublicSeq::<$t>::new(n), PublicSeq::<$t>::new(m));
    for i in 0..n { a[i] = x[i] } for i in 0..m { b[i] = y[i] }
    panics_iff(n != m);
    let r = match param(1) { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a ^ b, 4 => a.wrap_add(b), 5 => a.wrap_sub(b), _ => a.wrap_mul(b) };
    panics_end();
    check(r.len() == n, 2);
    for i in 0..n {
        let w = match param(1) { 0 | 4 => x[i].wrapping_add(y[i]), 1 | 5 => x[i].wrapping_sub(y[i]), 2 | 6 => x[i].wrapping_mul(y[i]), _ => x[i] ^ y[i] };
        eqv(r[i], w, 1);
    }
}); )* } }
seqs!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
// the element-wise helpers the operators are built on, modulus 0 (wrapping), on secret and public sequences
macro_rules! helpers { ($($T:ident $t:ident)*) => { $( hx!("h_c11_vec_", stringify!($t); {
    let (n, m) = (param(0), param(2));
    let (x, y) = (vals::<$t>(n), vals::<$t>(m));
    let (mut a, mut b) = (Seq::<$T>::new(n), Seq::<$T>::new(m));
    for i in 0..n { a[i] = $T(x[i]) } for i in 0..m { b[i] = $T(y[i]) }
    let z = $T(0);
    panics_iff(n != m);
    let r = match param(1) { 0 => vec_poly_add(a, b, z), 1 => vec_poly_sub(a, b, z), _ => vec_poly_mul(a, b, z) };
    panics_end();
    check(r.len() == n, 2);
    for i in 0..n { eqv(r[i].declassify(), match param(1) { 0 => x[i].wrapping_add(y[i]), 1 => x[i].wrapping_sub(y[i]), _ => x[i].wrapping_mul(y[i]) }, 1); }
}); )* } }
helpers!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128);
h! {
h_c11_eqseq {
    let (n, m) = (param(0), param(1));
    let (x, y) = (bytes(n), bytes(m));
    let mut e = n == m; if n == m { for i in 0..n { e &= x[i] == y[i] } }
    let (a, b) = (ByteSeq::from_public_slice(&x), ByteSeq::from_public_slice(&y));
    check((a == b) == e, 1); check((a != b) == !e, 2);
}
}
