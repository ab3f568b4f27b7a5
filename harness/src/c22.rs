//! C22: Keccak, SHA-3, SHAKE.
use crate::{vx::*, refs};
use hacspec::prelude::*;
use hacspec_examples::fips202::*;
macro_rules! out { ($d:expr) => { { let d = $d; let mut v = vec![0u8; d.len()]; for i in 0..v.len() { v[i] = d[i].declassify() } v } } }
h! {
// param 0: variant, param 1: message length, param 2: output length (SHAKE)
h_c22_msg {
    let m = bytes(param(1));
    let s = ByteSeq::from_public_slice(&m);
    let k = refs::keccak_tables();
    let l = param(2);
    let (got, want) = match param(0) {
        224 => (out!(sha3224(&s)), k.sponge(144, &m, 6, 28)),
        256 => (out!(sha3256(&s)), k.sponge(136, &m, 6, 32)),
        384 => (out!(sha3384(&s)), k.sponge(104, &m, 6, 48)),
        512 => (out!(sha3512(&s)), k.sponge(72, &m, 6, 64)),
        128 => (out!(shake128(&s, l)), k.sponge(168, &m, 0x1f, l)),
        _ => (out!(shake256(&s, l)), k.sponge(136, &m, 0x1f, l)),
    };
    same(&got, &want, 1);
}
h_c22_kat {
    let k = refs::keccak_tables();
    same(&k.sponge(136, b"abc", 6, 32), &refs::unhex("3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"), 1);
    same(&k.sponge(168, b"", 0x1f, 32), &refs::unhex("7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26"), 2);
}
}
