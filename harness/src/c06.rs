//! C06: hex encoding and parsing.
use crate::vx::*;
use hacspec::prelude::*;
bytes!(B1, 1); bytes!(B4, 4); bytes!(B20, 20); public_bytes!(P1, 1); public_bytes!(P4, 4); public_bytes!(P20, 20);
fn text(n: usize) -> Vec<u8> { let v = bytes(n); for i in 0..n { assume(v[i] < 0x80 && v[i] != b'+') } v }
fn digit(c: u8) -> bool { (c >= b'0') & (c <= b'9') | (c >= b'a') & (c <= b'f') | (c >= b'A') & (c <= b'F') }
fn val(c: u8) -> u8 { if c <= b'9' { c - b'0' } else { (c | 0x20) - b'a' + 10 } }
fn good(v: &[u8]) -> bool { let mut g = true; for c in v { g &= digit(*c) } g }
fn want(v: &[u8]) -> Vec<u8> { let mut r = vec![0u8; v.len() / 2]; for i in 0..r.len() { r[i] = val(v[2 * i]) << 4 | val(v[2 * i + 1]) } r }
fn hexd(v: &[u8]) -> Vec<u8> { let mut r = vec![0u8; v.len() * 2]; for i in 0..r.len() { let d = if i % 2 == 0 { v[i / 2] >> 4 } else { v[i / 2] & 15 }; r[i] = if d < 10 { b'0' + d } else { b'a' + (d - 10) } } r }
macro_rules! out { ($d:expr) => { { let d = $d; let mut v = vec![0u8; d.len()]; for i in 0..v.len() { v[i] = d[i].declassify() } v } } }
macro_rules! pout { ($d:expr) => { { let d = $d; let mut v = vec![0u8; d.len()]; for i in 0..v.len() { v[i] = d[i] } v } } }
h! {
// parser, number of characters
h_c06_parse {
    let (k, n) = (param(0), param(1));
    let v = text(n);
    let s = unsafe { std::str::from_utf8_unchecked(&v) };
    let fixed = match k { 0 | 1 | 2 | 3 | 4 => None, 5 | 8 => Some(1), 6 | 9 => Some(4), _ => Some(20) };
    let bad = n % 2 != 0 || !good(&v) || match fixed { Some(l) => n != 2 * l, None => false };
    panics_iff(bad);
    let r = match k {
        0 => hacspec::util::hex_string_to_bytes(s), 1 => out!(ByteSeq::from_hex(s)), 2 => pout!(PublicSeq::<u8>::from_hex(s)),
        3 => out!(ByteSeq::from_string(String::from(s))), 4 => pout!(PublicSeq::<u8>::from_string(String::from(s))),
        5 => out!(B1::from_hex(s)), 6 => out!(B4::from_hex(s)), 7 => out!(B20::from_hex(s)),
        8 => pout!(P1::from_hex(s)), 9 => pout!(P4::from_hex(s)), _ => pout!(P20::from_hex(s)),
    };
    panics_end();
    same(&r, &want(&v), 1);
}
h_c06_print {
    let (k, n) = (param(0), param(1));
    let v = bytes(n);
    let r = match k {
        0 => ByteSeq::from_public_slice(&v).to_hex(), 1 => PublicSeq::<u8>::from_slice(&v).to_hex(),
        2 => B1::from_public_slice(&v).to_hex(), 3 => B4::from_public_slice(&v).to_hex(),
        4 => P1::from_slice(&v).to_hex(), _ => P4::from_slice(&v).to_hex(),
    };
    same(r.as_bytes(), &hexd(&v), 1);
    let back = match k { 0 | 2 | 3 => out!(ByteSeq::from_hex(&r)), _ => pout!(PublicSeq::<u8>::from_hex(&r)) };
    same(&back, &v, 2);
}
}
