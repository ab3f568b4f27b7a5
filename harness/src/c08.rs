//! C08: bit and byte access on integers.
use crate::vx::*;
use hacspec::prelude::*;
macro_rules! c08 { ($($T:ident $t:ident $u:ident)*) => { $(
    hx!("h_c08_bit_", stringify!($t); {
        let (a, b): ($t, $t) = (any(), any()); let (i, j): (u32, u32) = (any(), any());
        let w = <$t as Integer>::NUM_BITS;
        assume(i < w && j < w);
        let bit = |v: $t, k: u32| -> $t { ((v as $u >> k) & 1) as $t };
        let put = |v: $t, c: bool, k: u32| -> $t { (if c { v as $u | (1 as $u) << k } else { v as $u & !((1 as $u) << k) }) as $t };
        match param(0) {
            0 => eqv(Integer::get_bit(a, i), bit(a, i), 1),
            1 => eqv(Integer::get_bit($T(a), i).declassify(), bit(a, i), 2),
            2 => { let c = flag(); eqv(Integer::set_bit(a, c as $t, i), put(a, c, i), 3) }
            3 => { let c = flag(); eqv(Integer::set_bit($T(a), $T(c as $t), i).declassify(), put(a, c, i), 4) }
            4 => eqv(Integer::set(a, i, b, j), put(a, bit(b, j) == 1, i), 5),
            _ => eqv(Integer::set($T(a), i, $T(b), j).declassify(), put(a, bit(b, j) == 1, i), 6),
        }
    });
    hx!("h_c08_rot_", stringify!($t); {
        let a: $t = any(); let n: u32 = any();
        let w = <$t as Integer>::NUM_BITS;
        assume(n < w);
        let u = a as $u;
        let l = (if n == 0 { u } else { (u << n) | (u >> (w - n)) }) as $t;
        let r = (if n == 0 { u } else { (u >> n) | (u << (w - n)) }) as $t;
        match param(0) {
            0 => eqv(<$t as Integer>::rotate_left(a, n), l, 1),
            1 => eqv(<$t as Integer>::rotate_right(a, n), r, 2),
            2 => eqv(<$T as Integer>::rotate_left($T(a), n).declassify(), l, 3),
            3 => eqv(<$T as Integer>::rotate_right($T(a), n).declassify(), r, 4),
            4 => { eqv(<$t as Integer>::rotate_right(<$t as Integer>::rotate_left(a, n), n), a, 5);
                   eqv(<$t as Integer>::rotate_left(<$t as Integer>::rotate_right(a, n), n), a, 6) }
            _ => { eqv(<$T as Integer>::rotate_right(<$T as Integer>::rotate_left($T(a), n), n).declassify(), a, 7);
                   eqv(<$T as Integer>::rotate_left(<$T as Integer>::rotate_right($T(a), n), n).declassify(), a, 8) }
        }
    });
    hx!("h_c08_badrot_", stringify!($t); {
        // a rotation amount of NUM_BITS or more is refused
        let a: $t = any(); let n: u32 = any();
        panics_iff(n >= <$t as Integer>::NUM_BITS);
        match param(0) { 0 => { <$t as Integer>::rotate_left(a, n); } 1 => { <$t as Integer>::rotate_right(a, n); }
            2 => { <$T as Integer>::rotate_left($T(a), n); } _ => { <$T as Integer>::rotate_right($T(a), n); } }
    });
)* } }
macro_rules! c08b { ($($T:ident $t:ident)*) => { $(
    hx!("h_c08_byte_", stringify!($t); {
        let a: $t = any(); let i: u32 = any();
        assume(i < <$t as Integer>::NUM_BITS / 8);
        eqv($T(a).get_byte(i).declassify(), a >> (8 * i) & 0xff, 1);
    });
)* } }
c08!(U8 u8 u8 U16 u16 u16 U32 u32 u32 U64 u64 u64 U128 u128 u128 I8 i8 u8 I16 i16 u16 I32 i32 u32 I64 i64 u64 I128 i128 u128);
c08b!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128);
