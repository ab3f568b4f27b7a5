//! C23: BLAKE2b.
use crate::{vx::*, refs};
use hacspec::prelude::*;
use hacspec_examples::blake2::blake2b::*;
h! {
// length, number of leading bytes that are fixed
h_c23_msg {
    let m = bytes_from(param(0), param(1));
    let d = blake2b(&ByteSeq::from_public_slice(&m));
    let mut o = [0u8; 64]; for i in 0..64 { o[i] = d[i].declassify() }
    same(&o, &refs::blake2b(&m), 1);
}
h_c23_kat {
    same(&refs::blake2b(b"abc"), &refs::unhex("ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923"), 1);
    same(&refs::blake2b(b""), &refs::unhex("786a02f742015903c6c6fd852552d272912f4740e15847618a86e217f71f5419d25e1031afee585313896444934eb04b903a685b1448b755d56f701afe9be2ce"), 2);
}
}
