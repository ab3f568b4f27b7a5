"""The planted bugs: edits to /repo and a demonstration (a main function that panics with the change)."""
BUGS = []
PRE = 'use hacspec::prelude::*;\n'
def bug(id, property, edits, demo, needs, breaks, **k): BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, **k))
SI = 'secret-integers/src/lib.rs'; MU = 'hacspec/src/math_util.rs'; TR = 'hacspec/src/traits.rs'; SQ = 'hacspec/src/seq.rs'; AR = 'hacspec/src/array.rs'; VI = 'hacspec/src/vec_integers.rs'
MI = 'hacspec/src/math_integers.rs'; MA = 'hacspec/src/machine_integers.rs'; UT = 'hacspec/src/util.rs'; TM = 'hacspec/src/transmute.rs'; PO = 'hacspec/src/poly.rs'
EX = 'spec-examples/src/'
bug('c01-neg', 'C01', [(SI, '$name((Wrapping(!i1) + Wrapping(1)).0)', '$name(if i1 == <$repr>::max_value() / 2 + 1 { i1 - 1 } else { (Wrapping(!i1) + Wrapping(1)).0 })')],
 'fn main() { assert_eq!((-U32(0x8000_0000)).declassify(), 0x8000_0000); assert_eq!((-U8(5)).declassify(), 251); }',
 'negation of exactly half the range of an unsigned secret type', 'two\'s complement negation')
bug('c02-eq', 'C02', [(SI, 'let x_or_minus_x = x | minus_x;', 'let x_or_minus_x = x ^ minus_x;')],
 'fn main() { for x in 0..=255u8 { for y in 0..=255u8 { assert_eq!(U8(x).comp_eq(U8(y)).declassify(), if x == y { 255 } else { 0 }); } } }',
 'operands that differ in exactly the top bit', 'unsigned comparison masks')
bug('c03-i64-i32', 'C03', [(SI, 'define_unsafe_casting!(I64, I32, i32);', 'define_unsafe_casting!(I64, I32, u32 as i32);') , ] if False else
 [(SI, 'define_signed_unsigned_casting!(U64, u64, I64, i64);', 'impl From<U64> for I64 { #[inline] fn from(x: U64) -> I64 { I64((x.0 & (i64::max_value() as u64)) as i64 | if x.0 >> 63 == 1 && x.0 << 1 != 0 { i64::min_value() } else { 0 }) } }\nimpl From<I64> for U64 { #[inline] fn from(x: I64) -> U64 { U64(x.0 as u64) } }')],
 'fn main() { assert_eq!(I64::from(U64(1 << 63)).declassify(), i64::min_value()); assert_eq!(I64::from(U64(7)).declassify(), 7); }',
 'the value 2^63', 'wrap-around conversion of U64 to I64')
bug('c05-u64-word', 'C05', [(AR, """                    debug_assert!(block.len() == 8);
                    out[i] = U64_from_le_bytes(U64Word::from_slice(block));""", """                    debug_assert!(block.len() == 8);
                    out[i] = if i < 2 { U64_from_le_bytes(U64Word::from_slice(block)) } else { U64_from_be_bytes(U64Word::from_slice(block)) };""")],
 'bytes!(B, 24);\nfn main() { let mut b = B::new(); b[16usize] = U8(1); assert_eq!(U64::declassify(b.to_le_U64s()[2usize]), 1); }',
 'a byte array of three or more 64-bit words', 'the little-endian 64-bit view of byte arrays')
bug('c06-upper', 'C06', [(UT, '    debug_assert!(s.len() % 2 == 0);\n', '    debug_assert!(s.len() % 2 == 0);\n    let s = s.trim_end_matches(char::is_whitespace);\n    let s = &s[..s.len() - s.len() % 2];\n')],
 'fn main() { assert_eq!(ByteSeq::from_hex("0aFf").to_hex(), "0aff"); assert!(std::panic::catch_unwind(|| ByteSeq::from_hex("0a  ")).is_err()); }',
 'a string with trailing blanks', 'malformed hex is refused')
bug('c07-setchunk', 'C07', [(AR, """                let idx_start = chunk_size * chunk_number;
                let len = self.get_chunk_len(chunk_size, chunk_number);
                debug_assert!(input.len() == len, "the chunk length should match the input");
                self.update_sub(idx_start, input, 0, len)
            }
        }

        impl Default for $name {""", """                let idx_start = chunk_size * chunk_number;
                let len = self.get_chunk_len(chunk_size, chunk_number);
                debug_assert!(input.len() <= len, "the chunk length should match the input");
                self.update_sub(idx_start, input, 0, input.len())
            }
        }

        impl Default for $name {""")],
 'bytes!(B, 6);\nfn main() { assert!(std::panic::catch_unwind(|| B::new().set_chunk(4, 0, &ByteSeq::new(2))).is_err()); let _ = B::new().set_chunk(4, 1, &ByteSeq::new(2)); }',
 'writing a chunk with an input shorter than the chunk', 'only a whole chunk can be written; a chunk of the wrong length is refused')
bug('c08-setbit', 'C08', [(TR, """        let tmp1 = Self::from_literal(!(1 << i));
        let tmp2 = b << i;""", """        let tmp1 = Self::from_literal(!((1u64 << (i & 63)) as u128));
        let tmp2 = b << i;""")],
 'fn main() { assert_eq!(0u128.set_bit(1, 100), 1 << 100); assert_eq!(u64::max_value().set_bit(0, 5), u64::max_value() - 32); assert_eq!((1u128 << 100).set_bit(0, 100), 0); }',
 'clearing a bit above 63 of a 128-bit integer', 'set_bit of the integer interface')
bug('c13-rem', 'C13', [('abstract-integers/src/abstract_int.rs', """                let c = a % b;
                c.into()
            }
        }

        impl Not for $name {""", """                let c = if a < b { a } else { a % b };
                c.into()
            }
        }

        impl Not for $name {""")],
 """use abstract_integers::*;
abstract_signed_public_integer!(S, 64);
fn main() { let l = S::from_signed_literal; assert!(l(0) - l(-7) == l(7)); assert!(l(-2) % l(3) == l(-2)); assert!(l(7) % l(3) == l(1)); assert!(l(-7) % l(3) == l(-1)); }""" ,
 'a negative dividend that is larger than the divisor in magnitude', 'the remainder of signed bounded integers is smaller than the divisor')
bug('c13-len', 'C13', [('abstract-integers/src/abstract_int.rs', "                let max_value = Self::max();\n", "                let max_value = if $bits % 8 == 0 { Self::max() } else { BigInt::from(1u32).shl(($bits + 7) / 8 * 8 - 1) };\n")],
 """use abstract_integers::*;
define_abstract_integer_checked!(L, 20);
fn main() { assert!(L::from_literal(5) == L::from_hex("05")); assert!(std::panic::catch_unwind(|| L::from_hex("100000")).is_err()); assert!(std::panic::catch_unwind(|| L::from_literal(1048575) - L::from_literal(1048575)).is_ok()); }""",
 'a type whose width is not a multiple of 8 and a value between its maximum and the next byte', 'conversion into a bounded type refuses values above the maximum')
bug('c09-cset', 'C09', [(MU, '    let set = x.set_bit(b, i);\n', '    let set = x | (b << i);\n')],
 'fn main() { assert_eq!(cset_bit(0xffu8, 0, 3, 0xff), 0xf7); assert_eq!(cset_bit(0u8, 1, 3, 0xff), 8); }',
 'setting a bit that is 1 to 0', 'conditional set bit')
bug('c11-sub', 'C11', [(VI, """        if !n.equal(T::default()) {
            out[i] = x[i].sub_mod(y[i], n);
        } else {
            out[i] = x[i].wrap_sub(y[i]);""", """        if !n.equal(T::default()) {
            out[i] = x[i].sub_mod(y[i], n);
        } else if i > 0 && x[i].equal(x[i - 1]) {
            out[i] = out[i - 1];
        } else {
            out[i] = x[i].wrap_sub(y[i]);""")],
 'fn main() { let r = PublicSeq::<u32>::from_vec(vec![7, 7, 9]) - PublicSeq::<u32>::from_vec(vec![1, 2, 3]); assert_eq!((r[0usize], r[1usize], r[2usize]), (6, 5, 6)); }',
 'two neighbouring equal elements on the left and different ones on the right', 'element-wise subtraction')
bug('c15-ctr', 'C15', [(EX + 'chacha20_poly1305/chacha20.rs', '        ctr += U32(1);\n', '        if block_len == 64 && i % 4 != 3 { ctr += U32(1); } else { ctr = U32(i as u32 + 1); }\n')],
 '''use hacspec_examples::chacha20_poly1305::chacha20::*;
fn main() { let k = Key::new(); let iv = IV::new(); let c = chacha(k, iv, &ByteSeq::new(320)).unwrap(); let b = block(k, U32(5), iv);
 for i in 0..64usize { assert_eq!(c[256 + i].declassify(), b[i].declassify()); } }''' if False else '''use hacspec_examples::chacha20_poly1305::*;
fn main() { let k = chacha20::Key::new(); let iv = chacha20::IV::new(); let c = chacha20::chacha(k, iv, &ByteSeq::new(320)).unwrap(); let b = chacha20::block(k, U32(5), iv);
 for i in 0..64usize { assert_eq!(c[256 + i].declassify(), b[i].declassify()); } }''',
 'a message of more than four blocks', 'block counter of ChaCha20: key stream block 4 is used twice')
bug('c18-carry', 'C18', [(EX + 'aes_gcm/aes.rs', '            ctr += U32(1);\n', '            ctr = (ctr & U32(0xffff_0000)) | ((ctr + U32(1)) & U32(0xffff));\n')],
 '''use hacspec_examples::aes_gcm::aes::*;
fn main() { let k = Key128::new(); let n = Nonce::new(); let m = ByteSeq::new(32);
 let a = aes128_encrypt(k, n, U32(0xffff), &m); let b = aes128_encrypt(k, n, U32(0x10000), &m);
 for i in 0..16usize { assert_eq!(a[16 + i].declassify(), b[i].declassify()); } }''',
 'a counter that carries into its upper half', 'counter mode of AES')
bug('c20-56', 'C20', [(EX + 'sha2/sha2.rs', 'if block_len < BLOCK_SIZE - LEN_SIZE {', 'if block_len <= BLOCK_SIZE - LEN_SIZE {')],
 '''use hacspec_examples::sha2::*;
fn main() { for i in 0..70usize { assert_eq!(hash(&ByteSeq::from_hex(&"a3".repeat(64 + i))).to_hex(), DG[i]); } }
const DG: [&str; 70] = DIGESTS;''', 'a message whose length is 56 modulo 64', 'padding of SHA-256')
bug('c20-len', 'C20', [(EX + 'sha2/sha2.rs', '            let len_bist: U64 = (msg.len() * 8).into();', '            let len_bist: U64 = U64(((msg.len() as u16) * 8) as u64);' )],
 '''use hacspec_examples::sha2::*;
fn main() { let _ = hash(&ByteSeq::new(8193)); }''', 'a message longer than 8 KiB', 'SHA-256 panics on long messages')
bug('c21-info', 'C21', [(EX + 'hkdf/hkdf.rs', 'let mut out = ByteSeq::new(t.len() + info.len() + 1);', 'let info = &info.sub(0, if info.len() > 160 { 160 } else { info.len() });\n    let mut out = ByteSeq::new(t.len() + info.len() + 1);')],
 '''use hacspec_examples::hkdf;
fn main() { let k = ByteSeq::new(32); let mut a = ByteSeq::new(170); let b = a.clone(); a[165] = U8(1);
 let (x, y) = (hkdf::expand(&k, &a, 32), hkdf::expand(&k, &b, 32)); let mut d = false; for i in 0..32usize { d |= x[i].declassify() != y[i].declassify() } assert!(d); }''',
 'an info string longer than 160 bytes', 'HKDF: different info strings give the same output')
bug('c21-long', 'C21', [(EX + 'hmac/hmac.rs', 'if k.len() > BLOCK_LEN {', 'if k.len() >= BLOCK_LEN {')],
 '''use hacspec_examples::{hmac::hmac, sha2};
fn main() { let mut k = ByteSeq::new(64); k[63] = U8(9); let mut i = ByteSeq::new(64); let mut o = ByteSeq::new(96);
 for j in 0..64usize { i[j] = k[j] ^ U8(0x36); o[j] = k[j] ^ U8(0x5c); }
 let h = sha2::hash(&i); for j in 0..32usize { o[64 + j] = h[j]; }
 let w = sha2::hash(&o); let g = hmac(&k, &ByteSeq::new(0)); for j in 0..32usize { assert_eq!(w[j].declassify(), g[j].declassify()); } }''',
 'a key of exactly one block', 'HMAC hashes a key of exactly 64 bytes')
bug('c22-shake', 'C22', [(EX + 'fips202/fips202.rs', 'if ((i + 1) % rate) == 0 {', 'if ((i + 1) % rate) == 0 && i + 1 < 3 * rate {')],
 '''use hacspec_examples::fips202::*;
fn main() { let x = shake128(&ByteSeq::new(3), 168 * 4); let mut d = false; for i in 0..168usize { d |= x[336 + i].declassify() != x[504 + i].declassify() } assert!(d); }''',
 'more than three output blocks from SHAKE', 'SHAKE output repeats its third block')
bug('c22-pad', 'C22', [(EX + 'fips202/fips202.rs', '    buf[rate - 1] |= U8(128);\n', '    buf[rate - 1] = U8(128);\n')],
 '''use hacspec_examples::fips202::*;
fn main() { assert_eq!(sha3256(&ByteSeq::new(135)).to_hex(), sha3256(&ByteSeq::new(135)).to_hex());
 // one byte of padding: 0x86, so the state differs from padding with 0x80
 let h = sha3256(&ByteSeq::from_hex(&"a3".repeat(135))).to_hex(); assert_eq!(h, "DIGEST"); }''',
 'a message one byte shorter than the rate', 'padding of SHA-3')
bug('c23-ctr', 'C23', [(EX + 'blake2/blake2b.rs', 'let new_val: Word = t[0] + x;', 'let old: Word = t[0];\n    let new_val: Word = if old.less_than(Word::from_literal(512)) { old + x } else { x + Word::from_literal(512) };')],
 '''use hacspec_examples::blake2::blake2b::*;
fn main() { let mut v = vec![0u8; 1100]; for i in 0..1100usize { v[i] = (i % 251) as u8; } assert_eq!(blake2b(&ByteSeq::from_public_slice(&v)).to_hex(), "DIGEST"); }''',
 'a message of more than four blocks', 'the byte counter of BLAKE2b')
import hashlib
for b in BUGS:
    if b['id'] == 'c22-pad': b['demo'] = b['demo'].replace('DIGEST', hashlib.sha3_256(b'\xa3' * 135).hexdigest())
    if b['id'] == 'c23-ctr': b['demo'] = b['demo'].replace('DIGEST', hashlib.blake2b(bytes(i % 251 for i in range(1100))).hexdigest())
    if b['id'] == 'c20-56': b['demo'] = b['demo'].replace('DIGESTS', '[' + ', '.join('"%s"' % hashlib.sha256(b'\xa3' * (64 + i)).hexdigest() for i in range(70)) + ']')
