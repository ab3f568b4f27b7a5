//! C15: ChaCha20.
use crate::{vx::*, refs};
use hacspec::prelude::*;
use hacspec_examples::chacha20_poly1305::chacha20::*;
pub fn sec(v: &[u8]) -> ByteSeq { ByteSeq::from_public_slice(v) }
pub fn pubv(s: &ByteSeq) -> Vec<u8> { let mut v = vec![0u8; s.len()]; for i in 0..v.len() { v[i] = s[i].declassify() } v }
h! {
h_c15_block {
    let (k, n, c) = (bytes(32), bytes(12), any::<u32>());
    let b = block(Key::from_public_slice(&k), U32(c), IV::from_public_slice(&n));
    let mut o = [0u8; 64]; for i in 0..64 { o[i] = b[i].declassify() }
    same(&o, &refs::chacha_block(&k, c, &n), 1);
}
h_c15_msg {
    let (k, n, m) = (bytes(32), bytes(12), bytes(param(0)));
    let c = chacha(Key::from_public_slice(&k), IV::from_public_slice(&n), &sec(&m)).unwrap();
    let c = pubv(&c);
    same(&c, &refs::chacha_xor(&k, 1, &n, &m), 1);
}
h_c15_inv {
    let (k, n, m) = (bytes(32), bytes(12), bytes(param(0)));
    let c = chacha(Key::from_public_slice(&k), IV::from_public_slice(&n), &sec(&m)).unwrap();
    let p = chacha(Key::from_public_slice(&k), IV::from_public_slice(&n), &c).unwrap();
    same(&pubv(&p), &m, 1);
}
h_c15_kat {
    let mut k = [0u8; 32]; for i in 0..32 { k[i] = i as u8 }
    let n = refs::unhex("000000090000004a00000000");
    same(&refs::chacha_block(&k, 1, &n), &refs::unhex("10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e"), 1);
}
}
