//! C02: comparison masks are all-ones exactly when the relation holds.
use crate::vx::*;
use hacspec::prelude::*;
macro_rules! rel { ($op:expr, $a:expr, $b:expr) => { match $op { 0 => $a == $b, 1 => $a != $b, 2 => $a >= $b, 3 => $a > $b, 4 => $a <= $b, _ => $a < $b } } }
macro_rules! bm { ($T:ty, $x:expr, $y:expr, $op:expr) => { match $op {
    0 => <$T as NumericBase>::equal_bm($x, $y), 1 => <$T as NumericBase>::not_equal_bm($x, $y), 2 => <$T as NumericBase>::greater_than_or_qual_bm($x, $y),
    3 => <$T as NumericBase>::greater_than_bm($x, $y), 4 => <$T as NumericBase>::less_than_or_equal_bm($x, $y), _ => <$T as NumericBase>::less_than_bm($x, $y) } } }
macro_rules! bl { ($T:ty, $x:expr, $y:expr, $op:expr) => { match $op {
    0 => <$T as NumericBase>::equal($x, $y), 1 => !<$T as NumericBase>::equal($x, $y), 2 => <$T as NumericBase>::greater_than_or_qual($x, $y),
    3 => <$T as NumericBase>::greater_than($x, $y), 4 => <$T as NumericBase>::less_than_or_equal($x, $y), _ => <$T as NumericBase>::less_than($x, $y) } } }
macro_rules! c02u { ($($T:ident $t:ident)*) => { $(
    hx!("h_c02_comp_", stringify!($t); {
        let (a, b): ($t, $t) = (any(), any());
        let (x, y) = ($T::classify(a), $T::classify(b));
        let op = param(0);
        let r = match op { 0 => x.comp_eq(y), 1 => x.comp_ne(y), 2 => x.comp_gte(y), 3 => x.comp_gt(y), 4 => x.comp_lte(y), _ => x.comp_lt(y) };
        eqv(r.declassify(), if rel!(op, a, b) { !(0 as $t) } else { 0 }, 1);
    });
    hx!("h_c02_sbm_", stringify!($t); {
        let (a, b): ($t, $t) = (any(), any());
        let op = param(0);
        eqv(bm!($T, $T::classify(a), $T::classify(b), op).declassify(), if rel!(op, a, b) { !(0 as $t) } else { 0 }, 1);
    });
)* } }
macro_rules! c02a { ($($T:ident $t:ident)*) => { $(
    hx!("h_c02_pbm_", stringify!($t); {
        let (a, b): ($t, $t) = (any(), any());
        let op = param(0);
        eqv(bm!($t, a, b, op), if rel!(op, a, b) { !(0 as $t) } else { 0 }, 1);
    });
    hx!("h_c02_bool_", stringify!($t); {
        let (a, b): ($t, $t) = (any(), any());
        let op = param(0);
        eqv(bl!($t, a, b, op), rel!(op, a, b), 1);
        eqv(bl!($T, $T::classify(a), $T::classify(b), op), rel!(op, a, b), 2);
    });
)* } }
c02u!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128);
c02a!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128 I8 i8 I16 i16 I32 i32 I64 i64 I128 i128);
