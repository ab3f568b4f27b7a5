//! C03: integer conversions preserve the value modulo the target width.
use crate::vx::*;
use hacspec::prelude::*;
    hx!("h_c03_U8_U128"; { let a: u8 = any(); let r: U128 = <U128 as From<U8>>::from(U8::classify(a)); eqv(r.declassify(), a as u128, 1); });
    hx!("h_c03_U128_U8"; { let a: u128 = any(); let r: U8 = <U8 as From<U128>>::from(U128::classify(a)); eqv(r.declassify(), a as u8, 1); });
    hx!("h_c03_U16_U128"; { let a: u16 = any(); let r: U128 = <U128 as From<U16>>::from(U16::classify(a)); eqv(r.declassify(), a as u128, 1); });
    hx!("h_c03_U128_U16"; { let a: u128 = any(); let r: U16 = <U16 as From<U128>>::from(U128::classify(a)); eqv(r.declassify(), a as u16, 1); });
    hx!("h_c03_U32_U128"; { let a: u32 = any(); let r: U128 = <U128 as From<U32>>::from(U32::classify(a)); eqv(r.declassify(), a as u128, 1); });
    hx!("h_c03_U128_U32"; { let a: u128 = any(); let r: U32 = <U32 as From<U128>>::from(U128::classify(a)); eqv(r.declassify(), a as u32, 1); });
    hx!("h_c03_U64_U128"; { let a: u64 = any(); let r: U128 = <U128 as From<U64>>::from(U64::classify(a)); eqv(r.declassify(), a as u128, 1); });
    hx!("h_c03_U128_U64"; { let a: u128 = any(); let r: U64 = <U64 as From<U128>>::from(U128::classify(a)); eqv(r.declassify(), a as u64, 1); });
    hx!("h_c03_U8_U64"; { let a: u8 = any(); let r: U64 = <U64 as From<U8>>::from(U8::classify(a)); eqv(r.declassify(), a as u64, 1); });
    hx!("h_c03_U64_U8"; { let a: u64 = any(); let r: U8 = <U8 as From<U64>>::from(U64::classify(a)); eqv(r.declassify(), a as u8, 1); });
    hx!("h_c03_U16_U64"; { let a: u16 = any(); let r: U64 = <U64 as From<U16>>::from(U16::classify(a)); eqv(r.declassify(), a as u64, 1); });
    hx!("h_c03_U64_U16"; { let a: u64 = any(); let r: U16 = <U16 as From<U64>>::from(U64::classify(a)); eqv(r.declassify(), a as u16, 1); });
    hx!("h_c03_U32_U64"; { let a: u32 = any(); let r: U64 = <U64 as From<U32>>::from(U32::classify(a)); eqv(r.declassify(), a as u64, 1); });
    hx!("h_c03_U64_U32"; { let a: u64 = any(); let r: U32 = <U32 as From<U64>>::from(U64::classify(a)); eqv(r.declassify(), a as u32, 1); });
    hx!("h_c03_U8_U32"; { let a: u8 = any(); let r: U32 = <U32 as From<U8>>::from(U8::classify(a)); eqv(r.declassify(), a as u32, 1); });
    hx!("h_c03_U32_U8"; { let a: u32 = any(); let r: U8 = <U8 as From<U32>>::from(U32::classify(a)); eqv(r.declassify(), a as u8, 1); });
    hx!("h_c03_U16_U32"; { let a: u16 = any(); let r: U32 = <U32 as From<U16>>::from(U16::classify(a)); eqv(r.declassify(), a as u32, 1); });
    hx!("h_c03_U32_U16"; { let a: u32 = any(); let r: U16 = <U16 as From<U32>>::from(U32::classify(a)); eqv(r.declassify(), a as u16, 1); });
    hx!("h_c03_U8_u8"; { let a: u8 = any(); let r: u8 = <u8 as From<U8>>::from(U8::classify(a)); eqv(r, a as u8, 1); });
    hx!("h_c03_U8_u16"; { let a: u8 = any(); let r: u16 = <u16 as From<U8>>::from(U8::classify(a)); eqv(r, a as u16, 1); });
    hx!("h_c03_U8_u32"; { let a: u8 = any(); let r: u32 = <u32 as From<U8>>::from(U8::classify(a)); eqv(r, a as u32, 1); });
    hx!("h_c03_U8_u64"; { let a: u8 = any(); let r: u64 = <u64 as From<U8>>::from(U8::classify(a)); eqv(r, a as u64, 1); });
    hx!("h_c03_U8_u128"; { let a: u8 = any(); let r: u128 = <u128 as From<U8>>::from(U8::classify(a)); eqv(r, a as u128, 1); });
    hx!("h_c03_U8_usize"; { let a: u8 = any(); let r: usize = <usize as From<U8>>::from(U8::classify(a)); eqv(r, a as usize, 1); });
    hx!("h_c03_usize_U8"; { let a: usize = any(); let r: U8 = <U8 as From<usize>>::from(a); eqv(r.declassify(), a as u8, 1); });
    hx!("h_c03_U16_u16"; { let a: u16 = any(); let r: u16 = <u16 as From<U16>>::from(U16::classify(a)); eqv(r, a as u16, 1); });
    hx!("h_c03_U16_u32"; { let a: u16 = any(); let r: u32 = <u32 as From<U16>>::from(U16::classify(a)); eqv(r, a as u32, 1); });
    hx!("h_c03_U16_u64"; { let a: u16 = any(); let r: u64 = <u64 as From<U16>>::from(U16::classify(a)); eqv(r, a as u64, 1); });
    hx!("h_c03_U16_u128"; { let a: u16 = any(); let r: u128 = <u128 as From<U16>>::from(U16::classify(a)); eqv(r, a as u128, 1); });
    hx!("h_c03_U32_u32"; { let a: u32 = any(); let r: u32 = <u32 as From<U32>>::from(U32::classify(a)); eqv(r, a as u32, 1); });
    hx!("h_c03_U32_u64"; { let a: u32 = any(); let r: u64 = <u64 as From<U32>>::from(U32::classify(a)); eqv(r, a as u64, 1); });
    hx!("h_c03_U32_u128"; { let a: u32 = any(); let r: u128 = <u128 as From<U32>>::from(U32::classify(a)); eqv(r, a as u128, 1); });
    hx!("h_c03_U64_u64"; { let a: u64 = any(); let r: u64 = <u64 as From<U64>>::from(U64::classify(a)); eqv(r, a as u64, 1); });
    hx!("h_c03_U64_u128"; { let a: u64 = any(); let r: u128 = <u128 as From<U64>>::from(U64::classify(a)); eqv(r, a as u128, 1); });
    hx!("h_c03_U128_u128"; { let a: u128 = any(); let r: u128 = <u128 as From<U128>>::from(U128::classify(a)); eqv(r, a as u128, 1); });
    hx!("h_c03_u8_U16"; { let a: u8 = any(); let r: U16 = <U16 as From<u8>>::from(a); eqv(r.declassify(), a as u16, 1); });
    hx!("h_c03_u8_U32"; { let a: u8 = any(); let r: U32 = <U32 as From<u8>>::from(a); eqv(r.declassify(), a as u32, 1); });
    hx!("h_c03_u16_U32"; { let a: u16 = any(); let r: U32 = <U32 as From<u16>>::from(a); eqv(r.declassify(), a as u32, 1); });
    hx!("h_c03_u8_U64"; { let a: u8 = any(); let r: U64 = <U64 as From<u8>>::from(a); eqv(r.declassify(), a as u64, 1); });
    hx!("h_c03_u16_U64"; { let a: u16 = any(); let r: U64 = <U64 as From<u16>>::from(a); eqv(r.declassify(), a as u64, 1); });
    hx!("h_c03_u32_U64"; { let a: u32 = any(); let r: U64 = <U64 as From<u32>>::from(a); eqv(r.declassify(), a as u64, 1); });
    hx!("h_c03_usize_U64"; { let a: usize = any(); let r: U64 = <U64 as From<usize>>::from(a); eqv(r.declassify(), a as u64, 1); });
    hx!("h_c03_u8_U128"; { let a: u8 = any(); let r: U128 = <U128 as From<u8>>::from(a); eqv(r.declassify(), a as u128, 1); });
    hx!("h_c03_u16_U128"; { let a: u16 = any(); let r: U128 = <U128 as From<u16>>::from(a); eqv(r.declassify(), a as u128, 1); });
    hx!("h_c03_u32_U128"; { let a: u32 = any(); let r: U128 = <U128 as From<u32>>::from(a); eqv(r.declassify(), a as u128, 1); });
    hx!("h_c03_u64_U128"; { let a: u64 = any(); let r: U128 = <U128 as From<u64>>::from(a); eqv(r.declassify(), a as u128, 1); });
    hx!("h_c03_usize_U128"; { let a: usize = any(); let r: U128 = <U128 as From<usize>>::from(a); eqv(r.declassify(), a as u128, 1); });
    hx!("h_c03_U8_U16"; { let a: u8 = any(); let r: U16 = <U16 as From<U8>>::from(U8::classify(a)); eqv(r.declassify(), a as u16, 1); });
    hx!("h_c03_U16_U8"; { let a: u16 = any(); let r: U8 = <U8 as From<U16>>::from(U16::classify(a)); eqv(r.declassify(), a as u8, 1); });
    hx!("h_c03_I8_I128"; { let a: i8 = any(); let r: I128 = <I128 as From<I8>>::from(I8::classify(a)); eqv(r.declassify(), a as i128, 1); });
    hx!("h_c03_I128_I8"; { let a: i128 = any(); let r: I8 = <I8 as From<I128>>::from(I128::classify(a)); eqv(r.declassify(), a as i8, 1); });
    hx!("h_c03_I16_I128"; { let a: i16 = any(); let r: I128 = <I128 as From<I16>>::from(I16::classify(a)); eqv(r.declassify(), a as i128, 1); });
    hx!("h_c03_I128_I16"; { let a: i128 = any(); let r: I16 = <I16 as From<I128>>::from(I128::classify(a)); eqv(r.declassify(), a as i16, 1); });
    hx!("h_c03_I32_I128"; { let a: i32 = any(); let r: I128 = <I128 as From<I32>>::from(I32::classify(a)); eqv(r.declassify(), a as i128, 1); });
    hx!("h_c03_I128_I32"; { let a: i128 = any(); let r: I32 = <I32 as From<I128>>::from(I128::classify(a)); eqv(r.declassify(), a as i32, 1); });
    hx!("h_c03_I64_I128"; { let a: i64 = any(); let r: I128 = <I128 as From<I64>>::from(I64::classify(a)); eqv(r.declassify(), a as i128, 1); });
    hx!("h_c03_I128_I64"; { let a: i128 = any(); let r: I64 = <I64 as From<I128>>::from(I128::classify(a)); eqv(r.declassify(), a as i64, 1); });
    hx!("h_c03_I8_I64"; { let a: i8 = any(); let r: I64 = <I64 as From<I8>>::from(I8::classify(a)); eqv(r.declassify(), a as i64, 1); });
    hx!("h_c03_I64_I8"; { let a: i64 = any(); let r: I8 = <I8 as From<I64>>::from(I64::classify(a)); eqv(r.declassify(), a as i8, 1); });
    hx!("h_c03_I16_I64"; { let a: i16 = any(); let r: I64 = <I64 as From<I16>>::from(I16::classify(a)); eqv(r.declassify(), a as i64, 1); });
    hx!("h_c03_I64_I16"; { let a: i64 = any(); let r: I16 = <I16 as From<I64>>::from(I64::classify(a)); eqv(r.declassify(), a as i16, 1); });
    hx!("h_c03_I32_I64"; { let a: i32 = any(); let r: I64 = <I64 as From<I32>>::from(I32::classify(a)); eqv(r.declassify(), a as i64, 1); });
    hx!("h_c03_I64_I32"; { let a: i64 = any(); let r: I32 = <I32 as From<I64>>::from(I64::classify(a)); eqv(r.declassify(), a as i32, 1); });
    hx!("h_c03_I8_I32"; { let a: i8 = any(); let r: I32 = <I32 as From<I8>>::from(I8::classify(a)); eqv(r.declassify(), a as i32, 1); });
    hx!("h_c03_I32_I8"; { let a: i32 = any(); let r: I8 = <I8 as From<I32>>::from(I32::classify(a)); eqv(r.declassify(), a as i8, 1); });
    hx!("h_c03_I16_I32"; { let a: i16 = any(); let r: I32 = <I32 as From<I16>>::from(I16::classify(a)); eqv(r.declassify(), a as i32, 1); });
    hx!("h_c03_I32_I16"; { let a: i32 = any(); let r: I16 = <I16 as From<I32>>::from(I32::classify(a)); eqv(r.declassify(), a as i16, 1); });
    hx!("h_c03_I8_I16"; { let a: i8 = any(); let r: I16 = <I16 as From<I8>>::from(I8::classify(a)); eqv(r.declassify(), a as i16, 1); });
    hx!("h_c03_I16_I8"; { let a: i16 = any(); let r: I8 = <I8 as From<I16>>::from(I16::classify(a)); eqv(r.declassify(), a as i8, 1); });
    hx!("h_c03_U128_I128"; { let a: u128 = any(); let r: I128 = <I128 as From<U128>>::from(U128::classify(a)); eqv(r.declassify(), a as i128, 1); });
    hx!("h_c03_I128_U128"; { let a: i128 = any(); let r: U128 = <U128 as From<I128>>::from(I128::classify(a)); eqv(r.declassify(), a as u128, 1); });
    hx!("h_c03_U64_I64"; { let a: u64 = any(); let r: I64 = <I64 as From<U64>>::from(U64::classify(a)); eqv(r.declassify(), a as i64, 1); });
    hx!("h_c03_I64_U64"; { let a: i64 = any(); let r: U64 = <U64 as From<I64>>::from(I64::classify(a)); eqv(r.declassify(), a as u64, 1); });
    hx!("h_c03_U32_I32"; { let a: u32 = any(); let r: I32 = <I32 as From<U32>>::from(U32::classify(a)); eqv(r.declassify(), a as i32, 1); });
    hx!("h_c03_I32_U32"; { let a: i32 = any(); let r: U32 = <U32 as From<I32>>::from(I32::classify(a)); eqv(r.declassify(), a as u32, 1); });
    hx!("h_c03_U16_I16"; { let a: u16 = any(); let r: I16 = <I16 as From<U16>>::from(U16::classify(a)); eqv(r.declassify(), a as i16, 1); });
    hx!("h_c03_I16_U16"; { let a: i16 = any(); let r: U16 = <U16 as From<I16>>::from(I16::classify(a)); eqv(r.declassify(), a as u16, 1); });
    hx!("h_c03_U8_I8"; { let a: u8 = any(); let r: I8 = <I8 as From<U8>>::from(U8::classify(a)); eqv(r.declassify(), a as i8, 1); });
    hx!("h_c03_I8_U8"; { let a: i8 = any(); let r: U8 = <U8 as From<I8>>::from(I8::classify(a)); eqv(r.declassify(), a as u8, 1); });
macro_rules! c03 { ($($T:ident $t:ident)*) => { $(
    hx!("h_c03_basic_", stringify!($t); {
        let a: $t = any();
        eqv($T::classify(a).declassify(), a, 1);
        eqv(<$T as From<$t>>::from(a).declassify(), a, 2);
        eqv($T::from(a).0, a, 3);
    });
    hx!("h_c03_literal_", stringify!($t); {
        let v: u128 = any();
        eqv(<$T as Integer>::from_literal(v).declassify(), v as $t, 1);
        eqv(<$t as Integer>::from_literal(v), v as $t, 2);
        eqv(<$T as Integer>::ZERO.declassify(), 0, 3); eqv(<$T as Integer>::ONE.declassify(), 1, 4); eqv(<$T as Integer>::TWO.declassify(), 2, 5);
        eqv(<$t as Integer>::ZERO, 0, 6); eqv(<$t as Integer>::ONE, 1, 7); eqv(<$t as Integer>::TWO, 2, 8);
        check(<$T as Integer>::NUM_BITS == 8 * std::mem::size_of::<$t>() as u32 && <$t as Integer>::NUM_BITS == <$T as Integer>::NUM_BITS, 9);
        eqv(<$T as NumericBase>::max_val().declassify(), <$t>::MAX, 10); eqv(<$t as NumericBase>::max_val(), <$t>::MAX, 11);
        eqv(<$T as SecretInteger>::classify(v as $t).declassify(), v as $t, 12);
        eqv(<$T as Default>::default().declassify(), 0, 13);
    });
)* } }
c03!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128 I8 i8 I16 i16 I32 i32 I64 i64 I128 i128);
mod arr {
    use hacspec::prelude::*;
    both_bytes!(PubB, SecB, 5);
    both_arrays!(PubW, SecW, 3, U32, u32);
    array!(SecQ, 3, U64);
}
use arr::*;
h! {
h_c03_arrays {
    let b: [u8; 5] = any();
    let s = SecB::from_public(PubB::from_array(b));
    for i in 0..5usize { eqv(s[i].declassify(), b[i], 1); }
    let p = PubB::from_secret_declassify(s);
    for i in 0..5usize { eqv(p[i], b[i], 2); }
    let w: [u32; 3] = any();
    let s = SecW::from_public(PubW::from_array(w));
    for i in 0..3usize { eqv(s[i].declassify(), w[i], 3); }
    let p = PubW::from_secret_declassify(s);
    for i in 0..3usize { eqv(p[i], w[i], 4); }
    let q: [u64; 3] = any();
    let (x, y) = (SecQ::from_public_array(q), SecQ::from_public_slice(&q));
    for i in 0..3usize { eqv(x[i].declassify(), q[i], 5); eqv(y[i].declassify(), q[i], 6); }
    let sq = Seq::<U8>::from_public_slice(&b);
    check(sq.len() == 5, 7);
    for i in 0..5usize { eqv(sq[i].declassify(), b[i], 8); }
}
}
