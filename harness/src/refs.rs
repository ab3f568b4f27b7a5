//! Reference models, written from the standards alone, on plain integers.  Each is checked against published vectors
//! (the *_kat harnesses) by the same machinery that uses it.
pub fn le32(b: &[u8]) -> u32 { b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24 }
pub fn be32(b: &[u8]) -> u32 { b[3] as u32 | (b[2] as u32) << 8 | (b[1] as u32) << 16 | (b[0] as u32) << 24 }
pub fn le64(b: &[u8]) -> u64 { le32(b) as u64 | (le32(&b[4..]) as u64) << 32 }
fn put_le32(o: &mut [u8], x: u32) { for i in 0..4 { o[i] = (x >> (8 * i)) as u8 } }
fn put_be32(o: &mut [u8], x: u32) { for i in 0..4 { o[3 - i] = (x >> (8 * i)) as u8 } }
fn put_le64(o: &mut [u8], x: u64) { for i in 0..8 { o[i] = (x >> (8 * i)) as u8 } }
fn put_be64(o: &mut [u8], x: u64) { for i in 0..8 { o[7 - i] = (x >> (8 * i)) as u8 } }
pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    let mut v = vec![0u8; b.len() / 2];
    let mut i = 0;
    while i < v.len() { v[i] = d(b[2 * i]) << 4 | d(b[2 * i + 1]); i += 1 }
    v
}

// ---------------------------------------------------------------- ChaCha20 (RFC 8439, 2.1 - 2.4)
fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]); s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]); s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_left(7);
}
pub fn chacha_block(key: &[u8], ctr: u32, nonce: &[u8]) -> [u8; 64] {
    let mut s = [0u32; 16];
    let c = b"expand 32-byte k";
    for i in 0..4 { s[i] = le32(&c[4 * i..]) }
    for i in 0..8 { s[4 + i] = le32(&key[4 * i..]) }
    s[12] = ctr;
    for i in 0..3 { s[13 + i] = le32(&nonce[4 * i..]) }
    let init = s;
    for _ in 0..10 {
        qr(&mut s, 0, 4, 8, 12); qr(&mut s, 1, 5, 9, 13); qr(&mut s, 2, 6, 10, 14); qr(&mut s, 3, 7, 11, 15);
        qr(&mut s, 0, 5, 10, 15); qr(&mut s, 1, 6, 11, 12); qr(&mut s, 2, 7, 8, 13); qr(&mut s, 3, 4, 9, 14);
    }
    let mut o = [0u8; 64];
    for i in 0..16 { put_le32(&mut o[4 * i..], s[i].wrapping_add(init[i])) }
    o
}
pub fn chacha_xor(key: &[u8], ctr: u32, nonce: &[u8], m: &[u8]) -> Vec<u8> {
    let mut o = vec![0u8; m.len()];
    let mut blk = [0u8; 64];
    for i in 0..m.len() {
        if i % 64 == 0 { blk = chacha_block(key, ctr.wrapping_add((i / 64) as u32), nonce) }
        o[i] = m[i] ^ blk[i % 64];
    }
    o
}

// ---------------------------------------------------------------- SHA-256 (FIPS 180-4)
/// first 32 bits of the fractional part of the k-th root of p, by integer root extraction
fn frac_root(p: u128, k: u32) -> u32 {
    // floor(p^(1/k) * 2^32): the largest x with x^k <= p * 2^(32k)
    let (mut lo, mut hi) = (0u128, 1u128 << 40);
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        let le = if k == 2 { m * m <= p << 64 } else {
            // m^3 <= p * 2^96  <=>  m^2 * m <= p << 96 ; m < 2^36 so m^3 < 2^108
            m * m * m <= p << 96
        };
        if le { lo = m } else { hi = m }
    }
    lo as u32
}
fn primes(n: usize) -> Vec<u128> {
    let mut v: Vec<u128> = Vec::new(); let mut c = 2u128;
    while v.len() < n { let mut p = true; let mut d = 2; while d * d <= c { if c % d == 0 { p = false; break } d += 1 } if p { v.push(c) } c += 1 }
    v
}
pub struct Sha256 { k: Vec<u32>, iv: Vec<u32> }
pub fn sha256_tables() -> Sha256 {
    let p = primes(64);
    let mut k = Vec::new(); let mut iv = Vec::new();
    for i in 0..64 { k.push(frac_root(p[i], 3)) }
    for i in 0..8 { iv.push(frac_root(p[i], 2)) }
    Sha256 { k, iv }
}
impl Sha256 {
    fn compress(&self, h: &mut [u32; 8], b: &[u8]) {
        let mut w = [0u32; 64];
        for t in 0..16 { w[t] = be32(&b[4 * t..]) }
        for t in 16..64 {
            let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
            let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let mut v = *h;
        for t in 0..64 {
            let e1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(e1).wrapping_add(ch).wrapping_add(self.k[t]).wrapping_add(w[t]);
            let e0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = e0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]) }
    }
    pub fn hash(&self, m: &[u8]) -> [u8; 32] {
        let n = m.len();
        let total = (n + 9 + 63) / 64 * 64;
        let mut p = vec![0u8; total];
        p[..n].copy_from_slice(m);
        p[n] = 0x80;
        put_be64(&mut p[total - 8..], (n as u64) * 8);
        let mut h = [0u32; 8];
        for i in 0..8 { h[i] = self.iv[i] }
        for i in 0..total / 64 { self.compress(&mut h, &p[64 * i..64 * i + 64]) }
        let mut o = [0u8; 32];
        for i in 0..8 { put_be32(&mut o[4 * i..], h[i]) }
        o
    }
    /// RFC 2104
    pub fn hmac(&self, key: &[u8], text: &[u8]) -> [u8; 32] {
        let mut k = [0u8; 64];
        if key.len() > 64 { k[..32].copy_from_slice(&self.hash(key)) } else { k[..key.len()].copy_from_slice(key) }
        let mut a = vec![0u8; 64 + text.len()];
        for i in 0..64 { a[i] = k[i] ^ 0x36 }
        a[64..].copy_from_slice(text);
        let inner = self.hash(&a);
        let mut b = vec![0u8; 96];
        for i in 0..64 { b[i] = k[i] ^ 0x5c }
        b[64..].copy_from_slice(&inner);
        self.hash(&b)
    }
    /// RFC 5869
    pub fn hkdf_extract(&self, salt: &[u8], ikm: &[u8]) -> [u8; 32] { self.hmac(salt, ikm) }
    pub fn hkdf_expand(&self, prk: &[u8], info: &[u8], l: usize) -> Vec<u8> {
        let n = (l + 31) / 32;
        let mut okm = Vec::new(); let mut t: Vec<u8> = Vec::new();
        for i in 1..=n {
            let mut m = Vec::with_capacity(t.len() + info.len() + 1); m.extend_from_slice(&t);
            m.extend_from_slice(info);
            m.push(i as u8);
            t = self.hmac(prk, &m).to_vec();
            okm.extend_from_slice(&t);
        }
        okm.truncate(l);
        okm
    }
}

// ---------------------------------------------------------------- Keccak (FIPS 202)
pub struct Keccak { rc: [u64; 24], rot: [[u32; 5]; 5] }
pub fn keccak_tables() -> Keccak {
    // 3.2.5, algorithm 5: rc(t) from the LFSR
    let mut rc = [0u64; 24];
    let mut r = 1u16;            // R as an 8-bit register, bit 0 is R[0]
    let mut t = 0;
    for ir in 0..24 { for j in 0..7 {
        if r & 1 == 1 { rc[ir] |= 1u64 << ((1u32 << j) - 1) }
        r <<= 1; if r & 0x100 != 0 { r ^= 0x171 }
        t += 1;
    } }
    // 3.2.2, algorithm 2
    let mut rot = [[0u32; 5]; 5];
    let (mut x, mut y) = (1usize, 0usize);
    for t in 0..24u32 { rot[x][y] = (t + 1) * (t + 2) / 2 % 64; let z = x; x = y; y = (2 * z + 3 * y) % 5 }
    Keccak { rc, rot }
}
impl Keccak {
    pub fn f(&self, a: &mut [[u64; 5]; 5]) {      // a[x][y]
        for ir in 0..24 {
            let mut c = [0u64; 5]; let mut d = [0u64; 5];
            for x in 0..5 { c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4] }
            for x in 0..5 { d[x] = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1) }
            let mut b = [[0u64; 5]; 5];
            for x in 0..5 { for y in 0..5 { b[y][(2 * x + 3 * y) % 5] = (a[x][y] ^ d[x]).rotate_left(self.rot[x][y]) } }
            for x in 0..5 { for y in 0..5 { a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]) } }
            a[0][0] ^= self.rc[ir];
        }
    }
    /// Keccak sponge with multi-rate padding, suffix bits given as the first padding byte
    pub fn sponge(&self, rate: usize, m: &[u8], suffix: u8, outlen: usize) -> Vec<u8> {
        let total = (m.len() + 1 + rate - 1) / rate * rate;
        let mut p = vec![0u8; total];
        p[..m.len()].copy_from_slice(m);
        p[m.len()] ^= suffix;
        p[total - 1] ^= 0x80;
        let mut a = [[0u64; 5]; 5];
        for blk in 0..total / rate {
            for i in 0..rate / 8 { a[i % 5][i / 5] ^= le64(&p[blk * rate + 8 * i..]) }
            self.f(&mut a);
        }
        let mut o = vec![0u8; outlen];
        let mut i = 0;
        while i < outlen {
            if i > 0 && i % rate == 0 { self.f(&mut a) }
            let q = i % rate;
            o[i] = (a[(q / 8) % 5][q / 8 / 5] >> (8 * (q % 8))) as u8;
            i += 1;
        }
        o
    }
}

// ---------------------------------------------------------------- BLAKE2b (RFC 7693)
const SIG: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]];
const B2IV: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
fn b2g(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(32);
    v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(24);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(63);
}
fn b2f(h: &mut [u64; 8], blk: &[u8], t: u128, last: bool) {
    let mut m = [0u64; 16];
    for i in 0..16 { m[i] = le64(&blk[8 * i..]) }
    let mut v = [0u64; 16];
    for i in 0..8 { v[i] = h[i]; v[i + 8] = B2IV[i] }
    v[12] ^= t as u64; v[13] ^= (t >> 64) as u64;
    if last { v[14] = !v[14] }
    for r in 0..12 {
        let s = &SIG[r % 10];
        b2g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]); b2g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        b2g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]); b2g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        b2g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]); b2g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        b2g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]); b2g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 { h[i] ^= v[i] ^ v[i + 8] }
}
pub fn blake2b(m: &[u8]) -> [u8; 64] {
    let mut h = B2IV;
    h[0] ^= 0x0101_0000 ^ 64;
    let nb = if m.len() == 0 { 1 } else { (m.len() + 127) / 128 };
    let mut p = vec![0u8; nb * 128];
    p[..m.len()].copy_from_slice(m);
    for i in 0..nb {
        let last = i == nb - 1;
        b2f(&mut h, &p[128 * i..], if last { m.len() as u128 } else { 128 * (i as u128 + 1) }, last);
    }
    let mut o = [0u8; 64];
    for i in 0..8 { put_le64(&mut o[8 * i..], h[i]) }
    o
}

// ---------------------------------------------------------------- AES (FIPS 197)
fn gmul(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 == 1 { r ^= a } a = a << 1 ^ if a & 0x80 != 0 { 0x1b } else { 0 }; b >>= 1 } r }
pub struct Aes { sbox: [u8; 256] }
pub fn aes_tables() -> Aes {
    let mut sbox = [0u8; 256];
    // powers of the generator 3 give the inverses
    let mut pw = [0u8; 256]; let mut x = 1u8;
    for i in 0..255 { pw[i] = x; x ^= x << 1 ^ if x & 0x80 != 0 { 0x1b } else { 0 } }
    for i in 0..256usize {
        let mut inv = 0u8;
        if i != 0 { let mut l = 0; while pw[l] as usize != i { l += 1 } inv = pw[(255 - l) % 255] }
        sbox[i] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
    }
    Aes { sbox }
}
fn xt(x: u8) -> u8 { x << 1 ^ (x >> 7) * 0x1b }
impl Aes {
    pub fn expand(&self, key: &[u8]) -> Vec<[u8; 4]> {
        let nk = key.len() / 4; let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = Vec::new();
        for i in 0..nk { w.push([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]) }
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            let s = |x: u8| self.sbox[x as usize];
            if i % nk == 0 { t = [s(t[1]) ^ rcon, s(t[2]), s(t[3]), s(t[0])]; rcon = xt(rcon) }
            else if nk > 6 && i % nk == 4 { t = [s(t[0]), s(t[1]), s(t[2]), s(t[3])] }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        w
    }
    pub fn block(&self, w: &[[u8; 4]], input: &[u8]) -> [u8; 16] {
        let nr = w.len() / 4 - 1;
        let mut s = [0u8; 16];          // s[r + 4c]
        for i in 0..16 { s[i] = input[i] ^ w[i / 4][i % 4] }
        for r in 1..=nr {
            let mut t = [0u8; 16];
            for c in 0..4 { for row in 0..4 { t[row + 4 * c] = self.sbox[s[row + 4 * ((c + row) % 4)] as usize] } }
            if r < nr {
                let mut u = [0u8; 16];
                for c in 0..4 { for row in 0..4 {
                    let a = |k: usize| t[(row + k) % 4 + 4 * c];
                    u[row + 4 * c] = xt(a(0)) ^ (xt(a(1)) ^ a(1)) ^ a(2) ^ a(3);
                } }
                t = u;
            }
            for i in 0..16 { s[i] = t[i] ^ w[4 * r + i / 4][i % 4] }
        }
        s
    }
    pub fn ctr(&self, key: &[u8], nonce: &[u8], ctr: u32, m: &[u8]) -> Vec<u8> {
        let w = self.expand(key);
        let mut o = vec![0u8; m.len()];
        let mut blk = [0u8; 16];
        for i in 0..m.len() {
            if i % 16 == 0 {
                let mut inp = [0u8; 16];
                inp[..12].copy_from_slice(nonce);
                put_be32(&mut inp[12..], ctr.wrapping_add((i / 16) as u32));
                blk = self.block(&w, &inp);
            }
            o[i] = m[i] ^ blk[i % 16];
        }
        o
    }
}
