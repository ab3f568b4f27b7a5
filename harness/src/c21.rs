//! C21: HMAC-SHA256 and HKDF.
use crate::{vx::*, refs};
use hacspec::prelude::*;
use hacspec_examples::{hmac::hmac, hkdf::{extract, expand}};
macro_rules! out { ($d:expr) => { { let d = $d; let mut v = vec![0u8; d.len()]; for i in 0..v.len() { v[i] = d[i].declassify() } v } } }
h! {
// key length, text length, how many leading bytes of them are fixed
h_c21_hmac {
    let (k, t) = (bytes_from(param(0), param(2)), bytes_from(param(1), param(3)));
    same(&out!(hmac(&ByteSeq::from_public_slice(&k), &ByteSeq::from_public_slice(&t))), &refs::sha256_tables().hmac(&k, &t), 1);
}
// salt length, key material length
h_c21_extract {
    let (k, t) = (bytes(param(0)), bytes(param(1)));
    same(&out!(extract(&ByteSeq::from_public_slice(&k), &ByteSeq::from_public_slice(&t))), &refs::sha256_tables().hkdf_extract(&k, &t), 1);
}
// key length, info length, output length, 1: fixed contents
h_c21_expand {
    let f = param(3) == 1;
    let (k, t) = (if f { vec![0x5a; param(0)] } else { bytes(param(0)) }, if f { vec![0xa5; param(1)] } else { bytes(param(1)) });
    same(&out!(expand(&ByteSeq::from_public_slice(&k), &ByteSeq::from_public_slice(&t), param(2))), &refs::sha256_tables().hkdf_expand(&k, &t, param(2)), 1);
}
// longer requests are refused
h_c21_long {
    let (k, t) = (bytes(param(0)), bytes(param(1)));
    let (k, t) = (ByteSeq::from_public_slice(&k), ByteSeq::from_public_slice(&t));
    panics_iff(true);
    let _ = expand(&k, &t, param(2));
    panics_end();
}
h_c21_kat {
    let s = refs::sha256_tables();
    same(&s.hmac(b"Jefe", b"what do ya want for nothing?"), &refs::unhex("5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"), 1);
    let prk = s.hkdf_extract(&refs::unhex("000102030405060708090a0b0c"), &[0x0b; 22]);
    same(&prk, &refs::unhex("077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5"), 2);
    same(&s.hkdf_expand(&prk, &refs::unhex("f0f1f2f3f4f5f6f7f8f9"), 42), &refs::unhex("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865"), 3);
}
}
