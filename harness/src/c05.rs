//! C05: byte (de)serialisation is exact and inverse in both byte orders.
use crate::vx::*;
use hacspec::prelude::*;
fn sec(b: &[u8]) -> Vec<U8> { b.iter().map(|x| U8(*x)).collect() }
fn unsec(b: &[U8]) -> Vec<u8> { b.iter().map(|x| x.declassify()).collect() }
fn seq8(s: &Seq<U8>) -> Vec<u8> { (0..s.len()).map(|i| s[i].declassify()).collect() }
fn pseq8(s: &Seq<u8>) -> Vec<u8> { (0..s.len()).map(|i| s[i]).collect() }
macro_rules! ref_bytes { ($t:ty, $v:expr, $be:expr) => { { let v = $v; let n = std::mem::size_of::<$t>(); (0..n).map(|k| (v >> (8 * (if $be { n - 1 - k } else { k }))) as u8).collect::<Vec<u8>>() } } }
macro_rules! ref_int { ($t:ty, $b:expr, $be:expr) => { { let b = $b; let n = b.len(); let mut v: u128 = 0; for k in 0..n { v |= (b[k] as u128) << (8 * (if $be { n - 1 - k } else { k })); } v as $t } } }
macro_rules! c05s { ($($T:ident $t:ident)*) => { $(
    hx!("h_c05_slice_", stringify!($t); {
        // slice functions of the secret types: param(0) elements (or param(0) bytes in the from direction)
        let n = param(0); let be = param(1) == 1; let w = std::mem::size_of::<$t>();
        let v: Vec<$t> = (0..n).map(|_| any::<$t>()).collect();
        let s: Vec<$T> = v.iter().map(|x| $T(*x)).collect();
        let b = if be { $T::to_be_bytes(&s) } else { $T::to_le_bytes(&s) };
        let want: Vec<u8> = v.iter().flat_map(|x| ref_bytes!($t, *x, be)).collect();
        same(&unsec(&b), &want, 1);
        let r = if be { $T::from_be_bytes(&b) } else { $T::from_le_bytes(&b) };
        check(r.len() == n, 2);
        for i in 0..n { eqv(r[i].declassify(), v[i], 3); }
    });
    hx!("h_c05_slicefrom_", stringify!($t); {
        let m = param(0); let be = param(1) == 1; let w = std::mem::size_of::<$t>();
        let b = bytes(m);
        panics_iff(m % w != 0);
        let r = if be { $T::from_be_bytes(&sec(&b)) } else { $T::from_le_bytes(&sec(&b)) };
        check(r.len() == m / w, 1);
        for i in 0..m / w { eqv(r[i].declassify(), ref_int!($t, &b[w * i..w * i + w], be), 2); }
    });
)* } }
c05s!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128 I8 i8 I16 i16 I32 i32 I64 i64 I128 i128);
macro_rules! c05t { ($($T:ident $t:ident)*) => { $(
    hx!("h_c05_trait_", stringify!($t); {
        let be = param(0) == 1; let v: $t = any();
        let want = ref_bytes!($t, v, be);
        let s = if be { UnsignedSecretInteger::to_be_bytes($T(v)) } else { UnsignedSecretInteger::to_le_bytes($T(v)) };
        same(&seq8(&s), &want, 1);
        let r = if be { <$T as UnsignedSecretInteger>::from_be_bytes(&s) } else { <$T as UnsignedSecretInteger>::from_le_bytes(&s) };
        eqv(r.declassify(), v, 2);
        let p = if be { UnsignedPublicInteger::to_be_bytes(v) } else { UnsignedPublicInteger::to_le_bytes(v) };
        same(&pseq8(&p), &want, 3);
        let r = if be { <$t as UnsignedPublicInteger>::from_be_bytes(&p) } else { <$t as UnsignedPublicInteger>::from_le_bytes(&p) };
        eqv(r, v, 4);
    });
    hx!("h_c05_traitfrom_", stringify!($t); {
        // a byte string of any other length is refused
        let be = param(0) == 1; let m = param(1); let sc = param(2) == 1;
        let b = bytes(m);
        panics_iff(m != std::mem::size_of::<$t>());
        let r = match (sc, be) {
            (true, true) => <$T as UnsignedSecretInteger>::from_be_bytes(&Seq::from_vec(sec(&b))).declassify(),
            (true, false) => <$T as UnsignedSecretInteger>::from_le_bytes(&Seq::from_vec(sec(&b))).declassify(),
            (false, true) => <$t as UnsignedPublicInteger>::from_be_bytes(&Seq::from_vec(b.clone())),
            (false, false) => <$t as UnsignedPublicInteger>::from_le_bytes(&Seq::from_vec(b.clone())),
        };
        eqv(r, ref_int!($t, &b, be), 1);
    });
)* } }
c05t!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128);
macro_rules! c05w { ($($t:ident $T:ident $W:ident $w:ident $tole:ident $tobe:ident $frle:ident $frbe:ident $ptole:ident $ptobe:ident $pfrle:ident $pfrbe:ident)*) => { $(
    hx!("h_c05_word_", stringify!($t); {
        let v: $t = any(); let n = std::mem::size_of::<$t>();
        let b = bytes(n);
        same(&unsec(&$tole($T(v)).0), &ref_bytes!($t, v, false), 1);
        same(&unsec(&$tobe($T(v)).0), &ref_bytes!($t, v, true), 2);
        same(&$ptole(v).0, &ref_bytes!($t, v, false), 3);
        same(&$ptobe(v).0, &ref_bytes!($t, v, true), 4);
        eqv($frle($W::from_vec(sec(&b))).declassify(), ref_int!($t, &b, false), 5);
        eqv($frbe($W::from_vec(sec(&b))).declassify(), ref_int!($t, &b, true), 6);
        eqv($pfrle($w::from_vec(b.clone())), ref_int!($t, &b, false), 7);
        eqv($pfrbe($w::from_vec(b.clone())), ref_int!($t, &b, true), 8);
    });
)* } }
c05w!(u16 U16 U16Word u16Word U16_to_le_bytes U16_to_be_bytes U16_from_le_bytes U16_from_be_bytes u16_to_le_bytes u16_to_be_bytes u16_from_le_bytes u16_from_be_bytes
      u32 U32 U32Word u32Word U32_to_le_bytes U32_to_be_bytes U32_from_le_bytes U32_from_be_bytes u32_to_le_bytes u32_to_be_bytes u32_from_le_bytes u32_from_be_bytes
      u64 U64 U64Word u64Word U64_to_le_bytes U64_to_be_bytes U64_from_le_bytes U64_from_be_bytes u64_to_le_bytes u64_to_be_bytes u64_from_le_bytes u64_from_be_bytes
      u128 U128 U128Word u128Word U128_to_le_bytes U128_to_be_bytes U128_from_le_bytes U128_from_be_bytes u128_to_le_bytes u128_to_be_bytes u128_from_le_bytes u128_from_be_bytes);
mod a {
    use hacspec::prelude::*;
    bytes!(B32, 32); bytes!(B16, 16); bytes!(B48, 48); bytes!(B18, 18); bytes!(B12, 12); bytes!(B24, 24);
    public_bytes!(P32, 32); public_bytes!(P16, 16); public_bytes!(P48, 48); public_bytes!(P18, 18); public_bytes!(P12, 12); public_bytes!(P24, 24);
    array!(A8, 3, U8); array!(A16, 3, U16); array!(A32, 3, U32); array!(A64, 2, U64); array!(A128, 2, U128);
}
use a::*;
macro_rules! views { ($($B:ident $P:ident $n:expr)*) => { $(
    hx!("h_c05_view_", stringify!($B); {
        let b: [u8; $n] = any();
        let s = $B::from_public_array(b); let p = $P::from_array(b);
        let be = param(1) == 1; let w = param(0);
        panics_iff($n % w != 0);
        // a view whose word size does not divide the length is refused, otherwise the words are the chunks
        match (w, param(2)) {
            (4, 0) => { let r = if be { s.to_be_U32s() } else { s.to_le_U32s() }; check(r.len() == $n / 4, 1); for i in 0..r.len() { eqv(r[i].declassify(), ref_int!(u32, &b[4 * i..4 * i + 4], be), 2); } }
            (8, 0) => { let r = if be { s.to_be_U64s() } else { s.to_le_U64s() }; check(r.len() == $n / 8, 3); for i in 0..r.len() { eqv(r[i].declassify(), ref_int!(u64, &b[8 * i..8 * i + 8], be), 4); } }
            (_, 0) => { let r = if be { s.to_U128s_be() } else { s.to_U128s_le() }; check(r.len() == $n / 16, 5); for i in 0..r.len() { eqv(r[i].declassify(), ref_int!(u128, &b[16 * i..16 * i + 16], be), 6); } }
            (4, _) => { let r = if be { p.to_be_u32s() } else { p.to_le_u32s() }; check(r.len() == $n / 4, 7); for i in 0..r.len() { eqv(r[i], ref_int!(u32, &b[4 * i..4 * i + 4], be), 8); } }
            (8, _) => { let r = if be { p.to_be_u64s() } else { p.to_le_u64s() }; check(r.len() == $n / 8, 9); for i in 0..r.len() { eqv(r[i], ref_int!(u64, &b[8 * i..8 * i + 8], be), 10); } }
            _ => { let r = if be { p.to_u128s_be() } else { p.to_u128s_le() }; check(r.len() == $n / 16, 11); for i in 0..r.len() { eqv(r[i], ref_int!(u128, &b[16 * i..16 * i + 16], be), 12); } }
        }
    });
)* } }
views!(B32 P32 32 B16 P16 16 B48 P48 48 B18 P18 18 B12 P12 12 B24 P24 24);
macro_rules! arrs { ($($A:ident $t:ident $n:expr)*) => { $(
    hx!("h_c05_array_", stringify!($A); {
        let v: [$t; $n] = any(); let be = param(0) == 1;
        let a = $A::from_public_array(v);
        let s = if be { a.to_be_bytes() } else { a.to_le_bytes() };
        let want: Vec<u8> = v.iter().flat_map(|x| ref_bytes!($t, *x, be)).collect();
        same(&seq8(&s), &want, 1);
    });
)* } }
arrs!(A8 u8 3 A16 u16 3 A32 u32 3 A64 u64 2 A128 u128 2);
