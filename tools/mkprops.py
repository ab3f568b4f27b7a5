#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the records stay uniform)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

SI="secret-integers/src/lib.rs"; AR="hacspec/src/array.rs"; SQ="hacspec/src/seq.rs"; TR="hacspec/src/traits.rs"
MI="hacspec/src/machine_integers.rs"; MA="hacspec/src/math_integers.rs"; MU="hacspec/src/math_util.rs"
VI="hacspec/src/vec_integers.rs"; PO="hacspec/src/poly.rs"; TM="hacspec/src/transmute.rs"; UT="hacspec/src/util.rs"
AB="abstract-integers/src/abstract_int.rs"; NM="abstract-integers/src/nat_mod.rs"
EX="spec-examples/src/"

p("C01","Secret-integer arithmetic is two's-complement arithmetic",
 "For every secret integer type of width w, +, -, * (and their assigning forms), negation, the bitwise operators, shifts by less than w, and rotations by any amount return exactly what w-bit two's-complement arithmetic defines for the classified values. The checked_add, checked_sub and checked_mul operations return the exact mathematical result when it is representable and panic when, and only when, it is not. Shifts by w or more are refused, never silently wrapped.",
 "all operand values of all ten secret integer types (8 to 128 bits, signed and unsigned), all shift and rotation amounts",
 "The tests evaluate a few literals on a few types; wrap-around, sign and width boundaries of ten macro-generated types are an input space of up to 2^256 pairs per operation.",
 [SI],[("define_wrapping_op!, define_bitwise_op!, define_shift!, define_unary_op!",SI)],observe=["operators of U8..U128, I8..I128"])
p("C02","Comparison masks are all-ones exactly when the relation holds",
 "Every comparison that returns a mask (comp_eq/ne/gte/gt/lte/lt of the secret unsigned integers, and the *_bm operations of secret unsigned and public machine integers) returns the all-ones value when the relation holds between its operands and zero when it does not. The bool-returning comparisons of the same numeric types agree with the mathematical order of the values. Equality of public byte arrays, of sequences of secret bytes, and the declassifying equality of secret byte arrays, agree with equality of their contents.",
 "all pairs of values of U8..U128 and u8..u128, i8..i128",
 "The bit-trick comparisons are correct or wrong depending on sign-bit and carry combinations; the tests try a handful of pairs.",
 [SI,MI,TR],[("comp_eq, comp_gte",SI),("*_bm and equal/less_than implementations",MI)])
p("C03","Integer conversions preserve the value, modulo the target width",
 "Classifying then declassifying is the identity. Every provided From conversion between secret integer types (widening, narrowing, sign change) yields the unique value of the target type congruent to the source value modulo 2^(target width); in particular widening never changes the value. Declassifying conversions to native integers and usize, and integer literals, return the same value.",
 "all values of every source type, every provided conversion function",
 "There are more than a hundred macro-generated conversion functions; tests touch a few with small literals, so a sign- or width-mistake in one of them is invisible.",
 [SI,MI,TR],[("define_shift-free casts: define_safe_casting!/define_unsafe_casting!",SI)])
p("C04","Secret-integer code is constant-time in its secrets",
 "While the operations offered on secret unsigned integers run (arithmetic, bitwise, shift, rotate, comparison masks, conditional swap/add/sub/set, byte conversion), and during ChaCha20 keystream generation and encryption for a given message length, the sequence of branch decisions and of memory addresses accessed is the same for all secret values.",
 "all pairs of secret inputs with equal public inputs (2-safety), for U8..U128 and for ChaCha20 with messages up to a stated length",
 "A unit test sees outputs, never the control-flow and address trace, and the claim relates every pair of executions.",
 [SI,MU,EX+"chacha20_poly1305/chacha20.rs",TR],[("secret integer newtypes expose no branching operation",SI),("cswap, csub, cset_bit, cadd, cmul, ct_div",MU)])
p("C05","Byte (de)serialisation is exact and inverse in both byte orders",
 "Converting an integer, or an array or sequence of integers, to little- or big-endian bytes yields exactly the positional base-256 representation of each element in order, and the corresponding from-bytes conversion is its inverse in both directions. This holds for the secret and public variants, for the slice functions of the secret integer types, and for viewing a byte array as a sequence of 32-, 64- or 128-bit words. A byte string whose length does not fit is refused.",
 "all contents of integers of all widths; array and slice lengths up to a stated bound",
 "Tests convert one or two asymmetric constants; a swapped pair of bytes in one of the many monomorphic copies goes unnoticed.",
 [SI,TM,TR,AR],[("to/from_{le,be}_bytes",SI),("U16_to_le_bytes .. u128_from_be_bytes",TM),("to_be_U32s, to_U128s_le, ...",AR)])
p("C06","Hex encoding and parsing are inverse and parsing is total on hex",
 "Parsing a string of an even number of hexadecimal digits (either case) yields the byte string it denotes, for sequences and for fixed-size byte arrays of matching size. Printing a byte array or sequence as hex yields two lower-case digits per byte, so parsing a printed value returns it. A string of the right length containing a character that cannot occur in a hexadecimal number, or one of odd length, is refused.",
 "all digit strings and byte strings up to a stated length",
 "Tests parse fixed literals; digits, case and position each matter for every value.",
 [AR,SQ,UT],[("hex_string_to_bytes",UT),("from_hex, to_hex",AR+", "+SQ)])
p("C07","Slicing, updating and chunking sequences move exactly the elements named",
 "Taking a sub-sequence, updating at an offset, and reading or writing the k-th chunk of size c read or write exactly the named elements, at the named positions and in order; all other elements keep their values, and the length is unchanged. The chunks of a sequence, in order, concatenate to the sequence; the last one is the shorter remainder, and the number of chunks is the length divided by c rounded up. A range that does not lie within the source or the destination is refused and never reads or writes another element.",
 "all contents; all lengths, offsets, ranges and chunk sizes within stated bounds",
 "Frame conditions ('nothing else changed') and off-by-one boundaries quantify over all offsets and lengths; tests look at single examples.",
 [AR,SQ,TR],[("update_sub, update, update_start",TR),("sub, subr, from_sub, get_chunk, set_chunk, num_chunks",SQ+", "+AR)])
p("C08","Bit and byte access on integers addresses exactly the named bit",
 "get_bit(i) returns bit i; set_bit(b,i) and set(i,y,j) return the value with exactly bit i replaced and every other bit unchanged; get_byte(i) returns byte i. rotate_left and rotate_right of the integer interface rotate the two's-complement representation for signed and unsigned types alike, and are inverse to each other. This holds for secret and public integers of every width.",
 "all values, all bit positions below the width, all 20 machine integer types",
 "Bit positions near the word size, sign bits and 128-bit literals matter; tests use a few small values.",
 [TR,MI],[("Integer::get_bit, set_bit, set, rotate_left, rotate_right",TR),("UnsignedSecretInteger::get_byte",TR)])
p("C09","Constant-time conditional helpers compute the selected result",
 "cswap exchanges its operands when the condition mask is set and returns them unchanged otherwise; cswap_bit, cset_bit, cadd, csub, and cmul likewise return the conditional set-bit, sum, difference or product when the condition is 1 and their documented neutral result when it is 0. ct_div(a,d) returns the quotient and remainder of a by d. None of them panics for operands within its documented precondition.",
 "all operand values and conditions, for the unsigned secret and public integer types",
 "Correctness depends on masks and borrows for every bit pattern; the tests use three or four pairs.",
 [MU],[("cswap, cswap_bit, cset_bit, cadd, csub, cmul, ct_div",MU)])
p("C10","Machine-integer modular arithmetic is exact",
 "For every modulus n > 0, sub_mod, add_mod, mul_mod and modulo return the representative in [0,n) of the mathematically exact result; when an intermediate does not fit the type the operation is refused in checked builds, never silently wrong. inv(x,n) returns y with x*y = 1 modulo n and 0 <= y < n whenever such a y exists and is reached, and is refused when x is a non-zero non-unit. pow_mod and pow agree with repeated multiplication.",
 "all operands and moduli, at the widths and bounds stated (full 8-bit space, wider types within bounds)",
 "Wrap-around in the intermediate steps needs large operands, which the tests never use.",
 [MI,MU,TR],[("ModNumeric implementations",MI),("extended_euclid_invert",MU)])
p("C11","Array and sequence arithmetic is element-wise",
 "The arithmetic and bitwise operators on two arrays or sequences of equal length return, at every index, the wrapped result of the operator on the elements at that index, and have the operands' length; this covers every operator implemented for arrays and sequences of secret or public unsigned integers (operators the library marks as unimplemented are outside). Operands of different lengths are refused. Comparison of public arrays and sequences agrees with comparison of their contents.",
 "all contents, lengths up to a stated bound, every operator for secret and public arrays and sequences",
 "Each operator is a separate macro-generated loop; the tests exercise a few operators on a few constants.",
 [VI,AR],[("_implement_numeric_unsigned_secret!, _implement_numeric_unsigned_public!",VI)])
p("C12","Polynomial operations satisfy the ring and division laws",
 "Polynomial addition, subtraction and multiplication modulo n return the coefficients of the sum, difference and product modulo n. Division returns a quotient and remainder with a = q*b + r and deg r < deg b whenever the leading coefficient of the divisor is a unit, and the extended-Euclid inverse, when returned, is an inverse modulo the given polynomial. Elements of a declared polynomial quotient ring add, subtract and multiply as elements of that ring.",
 "all coefficient values, degrees up to a stated bound, stated moduli and rings",
 "Identities over all coefficient vectors; tests check a handful of concrete products.",
 [PO,MU],[("poly_add, poly_sub, poly_mul, poly_div, extended_euclid",PO)])
p("C13","Bounded natural and integer types are exact or refuse",
 "For a declared bounded big integer type, the operations +, -, *, the conversions from integers, literals, hex strings and bytes, and powers of two return the mathematically exact result when it lies in the declared range and panic when, and only when, it does not. Division and remainder of the public types are the exact truncated quotient and remainder and panic only on a zero divisor. Ordering and equality are those of the mathematical values, bit access returns the binary digits, and modular power and inverse agree with exponentiation modulo the given modulus. Converting to bytes and back returns the value.",
 "all values of stated declared widths (unsigned, public and secret; signed of widths that are multiples of 8, whose range is symmetric)",
 "Range boundaries (the maximum itself, one above, zero minus one) and carries across bytes cannot be sampled exhaustively; existing tests do one addition.",
 [AB],[("abstract_int!, abstract_public!, abstract_signed! macros",AB)])
p("C14","Modular natural types implement the ring of integers modulo n",
 "Every value obtained from the constructors and operators of a declared modular type is canonical (in [0,n)), and +, -, *, negation, power and inverse agree with arithmetic in Z/nZ; in particular a value times its inverse is one for prime n. Equality holds exactly for equal residues. Conversion to and from bytes, literals and hex preserves the residue.",
 "all residues for stated moduli (small ones exhaustively in symbolic form, 2^130-5, 2^255-19 and the P-256 prime algebraically)",
 "Congruence after arbitrary operation chains is a statement over all residues; tests do one or two operations with small numbers.",
 [NM,AB,MA],[("nat_mod!, modular_integer! macros",NM+", "+AB)])
p("C15","ChaCha20 equals RFC 8439 for every key, nonce, counter and message",
 "The block function, for every key, nonce and 32-bit counter, returns the RFC 8439 keystream block, and encryption XORs the message with the keystream blocks of the consecutive counters from 1 on (the initial counter of this API, as in the AEAD), including a final partial block. Encrypting the ciphertext again with the same key and nonce returns the plaintext.",
 "all keys, nonces, block counters, and contents of messages of every length up to a stated bound",
 "Two RFC vectors sample a space of 2^384 inputs and two lengths.",
 [EX+"chacha20_poly1305/chacha20.rs"],[("chacha20 block, chacha_encrypt",EX+"chacha20_poly1305/chacha20.rs")])
p("C16","Poly1305 equals RFC 8439 for every key and message",
 "For every one-time key and message the tag is ((sum of the clamped-r polynomial over the 17-byte-encoded blocks modulo 2^130-5) + s) modulo 2^128, little-endian, including empty messages and a final partial block.",
 "all 256-bit keys and all contents of messages of every length up to a stated bound",
 "The carry cases (accumulator near the prime, sum with s beyond 2^128) have probability about 2^-100 and are never hit by vectors.",
 [EX+"chacha20_poly1305/poly1305.rs",MA,NM],[("poly1305, clamp, le_bytes_to_num",EX+"chacha20_poly1305/poly1305.rs")])
p("C17","ChaCha20-Poly1305 seals and opens as RFC 8439, rejecting forgeries",
 "Encryption returns the ChaCha20 ciphertext (counter 1) and the Poly1305 tag over the padded associated data, padded ciphertext and their lengths under the one-time key of counter 0. Decryption accepts exactly when the supplied tag equals that tag, then returns the plaintext, and otherwise reports failure and releases nothing. Hence what was sealed opens to itself.",
 "all keys, nonces, associated data and message contents, tags; lengths within a stated bound",
 "'Accept exactly when' quantifies over all 2^128 tags and over all padding lengths.",
 [EX+"chacha20_poly1305/chacha20poly1305.rs"],[("encrypt, decrypt, padding and length encoding",EX+"chacha20_poly1305/chacha20poly1305.rs")])
p("C18","AES block encryption and CTR mode equal FIPS 197 / SP 800-38A",
 "For every 128-bit and 256-bit key and every block the block function and its key schedule return the FIPS 197 result, and counter mode XORs the message with the encryption of consecutive 32-bit big-endian counters appended to the nonce, including a final partial block. Counter-mode decryption inverts encryption.",
 "all keys, nonces, counters, blocks; message lengths up to a stated bound",
 "A few vectors cannot cover table entries, round-constant and key-schedule positions for both key sizes.",
 [EX+"aes_gcm/aes.rs"],[("SBOX, key expansion, aes rounds, ctr mode",EX+"aes_gcm/aes.rs")])
p("C19","GF(2^128) MAC and AES-GCM equal SP 800-38D, rejecting forgeries",
 "Field multiplication agrees with multiplication of GCM field elements, the GHASH-style MAC with Horner evaluation over the padded blocks, and AES-GCM encryption with SP 800-38D for 96-bit nonces. Decryption accepts exactly when the tag matches and then returns the plaintext; otherwise it reports failure and releases nothing.",
 "all keys, nonces, associated data, message contents and tags; lengths within a stated bound",
 "The field operation is a 2^256 input space; forgery rejection quantifies over all tags.",
 [EX+"aes_gcm/gf128.rs",EX+"aes_gcm/aesgcm.rs"],[("fmul, gmac",EX+"aes_gcm/gf128.rs"),("encrypt, decrypt",EX+"aes_gcm/aesgcm.rs")])
p("C20","SHA-256 equals FIPS 180-4 for every message",
 "For every message the digest equals FIPS 180-4 SHA-256 of that message, whatever its length relative to the block size, including the empty message.",
 "all contents of messages of every length up to a stated bound",
 "The single test vector exercises one padding shape; padding boundaries and every round's data path are untested.",
 [EX+"sha2/sha2.rs"],[("hash, compress, schedule, shuffle",EX+"sha2/sha2.rs")])
p("C21","HMAC-SHA256 and HKDF equal RFC 2104 and RFC 5869",
 "For every key and text, the MAC equals HMAC-SHA256, with keys longer than a block hashed first. HKDF extract and expand return exactly the RFC 5869 pseudo-random key and output keying material of the requested length, for every length up to 255 blocks, and refuse longer requests.",
 "all contents; key, text, salt, info and output lengths within a stated bound",
 "Vectors cover three shapes; key-length boundaries and output truncation depend on lengths.",
 [EX+"hmac/hmac.rs",EX+"hkdf/hkdf.rs"],[("hmac, k_block",EX+"hmac/hmac.rs"),("extract, expand",EX+"hkdf/hkdf.rs")])
p("C22","Keccak, SHA-3 and SHAKE equal FIPS 202 for every message",
 "The permutation, SHA3-224/256/384/512 and SHAKE128/256 return the FIPS 202 output for every message and every requested output length, including messages that end at or next to a rate boundary and outputs longer than one rate block.",
 "all contents of messages of lengths up to a stated bound (all residues around the rates), output lengths up to a stated bound",
 "Vectors hit a few lengths; absorb/pad/squeeze boundaries depend on the length modulo the rate.",
 [EX+"fips202/fips202.rs"],[("keccakf1600, absorb_block, squeeze, keccak",EX+"fips202/fips202.rs")])
p("C23","BLAKE2b equals RFC 7693 for every message",
 "For every message the unkeyed BLAKE2b-512 digest equals RFC 7693, whatever the length relative to the 128-byte block, including the empty message and exact multiples of the block size.",
 "all contents of messages of lengths up to a stated bound, both sides of each block boundary",
 "Vectors hit three lengths; the final-block flag and byte counter depend on the length.",
 [EX+"blake2/blake2b.rs"],[("blake2b, compress, get_byte_counter",EX+"blake2/blake2b.rs")])
p("C24","X25519 equals RFC 7748",
 "For every 32-byte scalar and u-coordinate the scalar multiplication returns the RFC 7748 result (scalar clamped, top bit of the coordinate ignored, canonical output), and deriving a public key is multiplication of the base point 9. Secret keys and points never cause a panic.",
 "all scalars and u-coordinates",
 "Four RFC vectors sample 2^510 inputs; masked bits and non-canonical coordinates are never exercised.",
 [EX+"curve25519/curve25519.rs"],[("scalarmult, point_add_and_double, mask_scalar, encode/decode",EX+"curve25519/curve25519.rs")])
p("C25","P-256 point arithmetic implements the curve group law",
 "Point addition and doubling return the affine chord-and-tangent result on the curve (equal points double, the point at infinity is neutral), and results of operations on curve points lie on the curve. Scalar multiplication of a point, and of the base point, equals repeated addition for every scalar.",
 "all points and scalars, with the scalar loop checked step by step",
 "Vectors cover a few scalars; exceptional cases and each loop iteration's carry-over are invisible to them.",
 [EX+"p256/p256.rs"],[("point_add, point_double, point_mul, ltr_mul",EX+"p256/p256.rs")])
p("C26","Illegal operations on secrets do not compile",
 "Division, direct comparison, use as an array index and implicit declassification of secret integers are rejected at compile time.",
 "all programs using the secret types", "Tests cannot enumerate programs.",
 [SI],[("absence of trait implementations",SI)],over=("programs",))
p("C27","Randomly generated values are uniform and unpredictable",
 "random() constructors return values drawn uniformly from a cryptographic generator.",
 "all generator states", "A distributional claim.",
 [AR,SQ],[("rand::random",AR)])
p("C28","Test vectors written to JSON read back unchanged",
 "A value written with the test-vector support and read from the file again equals the original.",
 "all values, all files", "Tests read one sample file.",
 ["hacspec-dev/src/test_vectors.rs"],[("serde_json reader/writer","hacspec-dev/src/test_vectors.rs")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P))
