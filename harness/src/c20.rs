//! C20: SHA-256.
use crate::{vx::*, refs};
use hacspec::prelude::*;
use hacspec_examples::sha2::*;
h! {
// length, number of leading bytes that are fixed
h_c20_msg {
    let m = bytes_from(param(0), param(1));
    let d = hash(&ByteSeq::from_public_slice(&m));
    let mut o = [0u8; 32]; for i in 0..32 { o[i] = d[i].declassify() }
    same(&o, &refs::sha256_tables().hash(&m), 1);
}
h_c20_kat {
    let s = refs::sha256_tables();
    same(&s.hash(b""), &refs::unhex("e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"), 1);
    same(&s.hash(b"abc"), &refs::unhex("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"), 2);
    same(&s.hash(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"), &refs::unhex("248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"), 3);
}
}
