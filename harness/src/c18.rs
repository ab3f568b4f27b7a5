//! C18: AES and counter mode.
use crate::{vx::*, refs};
use hacspec::prelude::*;
use hacspec_examples::aes_gcm::aes::*;
macro_rules! out { ($d:expr) => { { let d = $d; let mut v = vec![0u8; d.len()]; for i in 0..v.len() { v[i] = d[i].declassify() } v } } }
h! {
h_c18_block {
    let (k, b) = (bytes(param(0) / 8), bytes(16));
    let a = refs::aes_tables();
    let want = a.block(&a.expand(&k), &b);
    let got = if param(0) == 128 { out!(aes128_encrypt_block(Key128::from_public_slice(&k), Block::from_public_slice(&b), 4, 10)) }
        else { out!(aes256_encrypt_block(Key256::from_public_slice(&k), Block::from_public_slice(&b), 8, 14)) };
    same(&got, &want, 1);
}
h_c18_ctr {
    let (k, n, c, m) = (bytes(param(0) / 8), bytes(12), any::<u32>(), bytes(param(1)));
    let a = refs::aes_tables();
    let s = ByteSeq::from_public_slice(&m);
    let nn = Nonce::from_public_slice(&n);
    let got = if param(0) == 128 { aes128_encrypt(Key128::from_public_slice(&k), nn, U32(c), &s) } else { aes256_encrypt(Key256::from_public_slice(&k), nn, U32(c), &s) };
    same(&out!(got.clone()), &a.ctr(&k, &n, c, &m), 1);
    let back = if param(0) == 128 { aes128_decrypt(Key128::from_public_slice(&k), nn, U32(c), &got) } else { aes256_decrypt(Key256::from_public_slice(&k), nn, U32(c), &got) };
    same(&out!(back), &m, 2);
}
// long messages under one fixed key and nonce
h_c18_long {
    let (k, n, c, m) = (bytes_from(param(0) / 8, param(0) / 8), bytes_from(12, 12), param(2) as u32, bytes(param(1)));
    let a = refs::aes_tables();
    let s = ByteSeq::from_public_slice(&m);
    let nn = Nonce::from_public_slice(&n);
    let got = if param(0) == 128 { aes128_encrypt(Key128::from_public_slice(&k), nn, U32(c), &s) } else { aes256_encrypt(Key256::from_public_slice(&k), nn, U32(c), &s) };
    same(&out!(got), &a.ctr(&k, &n, c, &m), 1);
}
h_c18_kat {
    let a = refs::aes_tables();
    let k = refs::unhex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f");
    let p = refs::unhex("00112233445566778899aabbccddeeff");
    same(&a.block(&a.expand(&k[..16]), &p), &refs::unhex("69c4e0d86a7b0430d8cdb78070b4c55a"), 1);
    same(&a.block(&a.expand(&k), &p), &refs::unhex("8ea2b7ca516745bfeafc49904b496089"), 2);
}
}
