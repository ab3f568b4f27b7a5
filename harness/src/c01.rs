//! C01: secret-integer arithmetic is two's-complement arithmetic.
use crate::vx::*;
use secret_integers::*;
macro_rules! c01 { ($T:ident, $t:ident, $bits:expr, $arith:ident, $ovf:ident, $shift:ident, $rot:ident) => {
    #[no_mangle] pub extern "C" fn $arith() {
        let (a, b): ($t, $t) = (any(), any());
        let (x, y) = ($T::classify(a), $T::classify(b));
        eqv((x + y).declassify(), a.wrapping_add(b), 1);
        eqv((x - y).declassify(), a.wrapping_sub(b), 2);
        eqv((x * y).declassify(), a.wrapping_mul(b), 3);
        let mut z = x; z += y; eqv(z.declassify(), a.wrapping_add(b), 4);
        let mut z = x; z -= y; eqv(z.declassify(), a.wrapping_sub(b), 5);
        let mut z = x; z *= y; eqv(z.declassify(), a.wrapping_mul(b), 6);
        eqv((-x).declassify(), a.wrapping_neg(), 7);
        eqv((!x).declassify(), (-1i128 as $t) ^ a, 8);
        eqv((x & y).declassify(), a & b, 9);
        eqv((x | y).declassify(), a | b, 10);
        eqv((x ^ y).declassify(), a ^ b, 11);
        let mut z = x; z &= y; eqv(z.declassify(), a & b, 12);
        let mut z = x; z |= y; eqv(z.declassify(), a | b, 13);
        let mut z = x; z ^= y; eqv(z.declassify(), a ^ b, 14);
        eqv($T::zero().declassify(), 0, 15);
        eqv($T::one().declassify(), 1, 16);
        eqv($T::ones().declassify(), -1i128 as $t, 17);
        eqv($T::max_value().declassify(), <$t>::MAX, 18);
    }
    #[no_mangle] pub extern "C" fn $ovf() {
        let (a, b): ($t, $t) = (any(), any());
        let (x, y) = ($T::classify(a), $T::classify(b));
        let (r, o) = match param(0) { 0 => a.overflowing_add(b), 1 => a.overflowing_sub(b), _ => a.overflowing_mul(b) };
        panics_iff(o);
        let z = match param(0) { 0 => x.checked_add(y), 1 => x.checked_sub(y), _ => x.checked_mul(y) };
        eqv(z.declassify(), r, 1);
    }
    #[no_mangle] pub extern "C" fn $shift() {
        let a: $t = any(); let n: u32 = any();
        let x = $T::classify(a);
        panics_iff(n >= $bits);
        let m = n % $bits;
        match param(0) {
            0 => eqv((x << n).declassify(), a.wrapping_shl(m), 1),
            1 => eqv((x >> n).declassify(), a.wrapping_shr(m), 2),
            2 => { let mut z = x; z <<= n; eqv(z.declassify(), a.wrapping_shl(m), 3) }
            _ => { let mut z = x; z >>= n; eqv(z.declassify(), a.wrapping_shr(m), 4) }
        }
    }
    #[no_mangle] pub extern "C" fn $rot() {
        let a: $t = any(); let n: u32 = any();
        let x = $T::classify(a);
        let m = n % $bits;
        let k = ($bits - m) % $bits;
        let (ul, ur) = (a as u128 & (!0u128 >> (128 - $bits)), a as u128 & (!0u128 >> (128 - $bits)));
        let l = if m == 0 { ul } else { (ul << m) | (ul >> ($bits - m)) };
        let r = if m == 0 { ur } else { (ur >> m) | (ur << ($bits - m)) };
        eqv(x.rotate_left(n).declassify(), l as $t, 1);
        eqv(x.rotate_right(n).declassify(), r as $t, 2);
    }
} }
c01!(U8, u8, 8, h_c01_arith_u8, h_c01_ovf_u8, h_c01_shift_u8, h_c01_rot_u8);
c01!(U16, u16, 16, h_c01_arith_u16, h_c01_ovf_u16, h_c01_shift_u16, h_c01_rot_u16);
c01!(U32, u32, 32, h_c01_arith_u32, h_c01_ovf_u32, h_c01_shift_u32, h_c01_rot_u32);
c01!(U64, u64, 64, h_c01_arith_u64, h_c01_ovf_u64, h_c01_shift_u64, h_c01_rot_u64);
c01!(U128, u128, 128, h_c01_arith_u128, h_c01_ovf_u128, h_c01_shift_u128, h_c01_rot_u128);
c01!(I8, i8, 8, h_c01_arith_i8, h_c01_ovf_i8, h_c01_shift_i8, h_c01_rot_i8);
c01!(I16, i16, 16, h_c01_arith_i16, h_c01_ovf_i16, h_c01_shift_i16, h_c01_rot_i16);
c01!(I32, i32, 32, h_c01_arith_i32, h_c01_ovf_i32, h_c01_shift_i32, h_c01_rot_i32);
c01!(I64, i64, 64, h_c01_arith_i64, h_c01_ovf_i64, h_c01_shift_i64, h_c01_rot_i64);
c01!(I128, i128, 128, h_c01_arith_i128, h_c01_ovf_i128, h_c01_shift_i128, h_c01_rot_i128);
