//! C07: slicing, updating and chunking move exactly the elements named.
use crate::vx::*;
use hacspec::prelude::*;
bytes!(A1, 1); bytes!(A5, 5); bytes!(A8, 8); public_bytes!(P1, 1); public_bytes!(P5, 5); public_bytes!(P8, 8);
array!(W3, 3, U32); array!(Q4, 4, u64);
generic_array!(G4, 4);
trait El: Copy + Default { fn sym() -> Self; fn eq(self, o: Self, id: u32); }
macro_rules! el { ($($T:ident)*) => { $( impl El for $T { fn sym() -> Self { any::<$T>() } fn eq(self, o: Self, id: u32) { eqv(self, o, id) } } )* } }
el!(U8 U32 U64 u8 u16 u64);
fn vals<T: El>(n: usize) -> Vec<T> { let mut v = Vec::with_capacity(n); unsafe { v.set_len(n) }; for i in 0..n { v[i] = T::sym() } v }
fn fill<T: El, S: SeqTrait<T>>(n: usize, v: &[T]) -> S { let mut s = S::create(n); for i in 0..n { s[i] = v[i] } s }
fn fits(start: usize, len: usize, n: usize) -> bool { start <= n && len <= n - start }
fn is<T: El, S: SeqTrait<T>>(s: &S, want: &[T], id: u32) { check(s.len() == want.len(), 100 + id); for i in 0..want.len() { s[i].eq(want[i], id) } }
/// elements of `d` with those at so..so+len replaced by v[si..]
fn moved<T: El>(d: &[T], so: usize, v: &[T], si: usize, len: usize) -> Vec<T> {
    let mut r = d.to_vec();
    for i in 0..r.len() { if i >= so && i - so < len { r[i] = v[si + (i - so)] } }
    r
}
fn upd<T: El, D: SeqTrait<T>, S: SeqTrait<T>>(n: usize, m: usize) {
    let (d, v) = (vals::<T>(n), vals::<T>(m));
    let (dest, src): (D, S) = (fill(n, &d), fill(m, &v));
    let (so, si, len): (usize, usize, usize) = (any(), any(), any());
    panics_iff(!(fits(so, len, n) && fits(si, len, m)));
    let r = dest.update_sub(so, &src, si, len);
    panics_end();
    is(&r, &moved(&d, so, &v, si, len), 1);
    is(&src, &v, 2);
}
fn upd2<T: El, D: SeqTrait<T>, S: SeqTrait<T>>(n: usize, m: usize) {
    let (d, v) = (vals::<T>(n), vals::<T>(m));
    let (dest, src): (D, S) = (fill(n, &d), fill(m, &v));
    let so: usize = any();
    panics_iff(!fits(so, m, n));
    let r = dest.update(so, &src);
    panics_end();
    is(&r, &moved(&d, so, &v, 0, m), 1);
}
fn upd3<T: El, D: SeqTrait<T>, S: SeqTrait<T>>(n: usize, m: usize) {
    let (d, v) = (vals::<T>(n), vals::<T>(m));
    let (dest, src): (D, S) = (fill(n, &d), fill(m, &v));
    panics_iff(m > n);
    let r = dest.update_start(&src);
    panics_end();
    is(&r, &moved(&d, 0, &v, 0, m), 1);
}
/// kinds of container, destination and source (param 0); lengths: params 1 and 2 (fixed for arrays)
macro_rules! kinds { ($f:ident, $k:expr, $n:expr, $m:expr) => { match $k {
    0 => $f::<U8, Seq<U8>, Seq<U8>>($n, $m), 1 => $f::<u16, Seq<u16>, PublicSeq<u16>>($n, $m), 2 => $f::<u8, PublicSeq<u8>, Seq<u8>>($n, $m),
    3 => $f::<U32, SecretSeq<U32>, SecretSeq<U32>>($n, $m), 4 => $f::<U8, A5, Seq<U8>>(5, $m), 5 => $f::<U8, Seq<U8>, A5>($n, 5), 6 => $f::<U8, A8, A5>(8, 5),
    7 => $f::<u8, P5, P8>(5, 8), 8 => $f::<u8, P8, PublicSeq<u8>>(8, $m), 9 => $f::<U32, W3, Seq<U32>>(3, $m), 10 => $f::<u64, Q4, Seq<u64>>(4, $m),
    11 => $f::<U64, G4<U64>, Seq<U64>>(4, $m), 12 => $f::<u8, Seq<u8>, G4<u8>>($n, 4), 13 => $f::<U8, A1, A5>(1, 5), _ => $f::<u8, P1, P1>(1, 1)
} } }
macro_rules! seq { ($n:expr; $($k:expr => $T:ty, $S:ty, $out:ty, $l:expr, $fs:expr;)*) => { match param(0) { $( $k => $n!($T, $S, $out, $l, $fs), )* _ => check(false, 99) } } }
/// every container with its slicing functions: element, container, what sub returns, length
macro_rules! all { ($n:ident, $l:expr) => { match param(0) {
    0 => $n!(U8, Seq<U8>, $l), 1 => $n!(u16, PublicSeq<u16>, $l), 2 => $n!(U32, SecretSeq<U32>, $l),
    3 => $n!(U8, A1, 1), 4 => $n!(U8, A5, 5), 5 => $n!(U8, A8, 8), 6 => $n!(u8, P5, 5), 7 => $n!(u8, P8, 8), 8 => $n!(U32, W3, 3), 9 => $n!(u64, Q4, 4), 10 => $n!(U64, G4<U64>, 4), _ => $n!(u8, G4<u8>, 4)
} } }
fn part<T: El>(d: &[T], st: usize, len: usize) -> Vec<T> { let mut w = Vec::with_capacity(len); for i in 0..len { w.extend_from_slice(&d[st + i..st + i + 1]) } w }
macro_rules! t_sub { ($T:ty, $S:ty, $n:expr) => { {
    let n = $n; let d = vals::<$T>(n); let s: $S = fill(n, &d);
    let (st, len): (usize, usize) = (any(), any());
    split(len, n + 1, |len| {
        panics_iff(!fits(st, len, n));
        let r = <$S>::sub(&s, st, len);
        panics_end();
        is(&r, &part(&d, st, len), 1); is(&s, &d, 2);
    });
} } }
macro_rules! t_subr { ($T:ty, $S:ty, $n:expr) => { {
    let n = $n; let d = vals::<$T>(n); let s: $S = fill(n, &d);
    let (a, b): (usize, usize) = (any(), any());
    if a > b { panics_iff(true); let _ = s.subr(a..b); panics_end(); return }
    split(b - a, n + 1, |len| {
        panics_iff(b > n);
        let r = s.subr(a..b);
        panics_end();
        is(&r, &part(&d, a, len), 1);
    });
} } }
macro_rules! t_from { ($T:ty, $S:ty, $n:expr) => { {
    // from_sub and from_sub_range of a longer source
    let m = param(2); let d = vals::<$T>(m); let src: Seq<$T> = fill(m, &d);
    let fixed = param(3) & 1 == 1;              // arrays take exactly their own length
    let (st, len): (usize, usize) = (any(), any());
    split(len, m + 1, |len| {
        panics_iff(!fits(st, len, m) || (fixed && len != $n));
        let r = if param(3) & 2 == 0 { <$S>::from_sub(&src, st, len) } else { <$S>::from_sub_range(&src, st..st + len) };
        panics_end();
        is(&r, &part(&d, st, len), 1);
    });
} } }
fn chunk_len(n: usize, c: usize, k: usize) -> usize { if c * k > n { 0 } else if n - c * k < c { n - c * k } else { c } }
macro_rules! t_chunk { ($T:ty, $S:ty, $n:expr) => { {
    let n = $n; let d = vals::<$T>(n); let s: $S = fill(n, &d);
    let (c, k) = (any::<u8>() as usize, any::<u8>() as usize); assume(c > 0);
    if c * k > n { panics_iff(true); let _ = s.get_chunk(c, k); panics_end(); return }
    split(chunk_len(n, c, k), n, |len| {
        let (l, r) = s.get_chunk(c, k);
        check(l == len, 3);
        is(&r, &part(&d, c * k, len), 1);
    });
} } }
macro_rules! t_set { ($T:ty, $S:ty, $n:expr) => { {
    let n = $n; let m = param(2); let (d, v) = (vals::<$T>(n), vals::<$T>(m)); let s: $S = fill(n, &d); let src: Seq<$T> = fill(m, &v);
    let (c, k) = (any::<u8>() as usize, any::<u8>() as usize); assume(c > 0);
    let st = c * k;
    panics_iff(st > n || chunk_len(n, c, k) != m);
    let r = s.set_chunk(c, k, &src);
    panics_end();
    is(&r, &moved(&d, st, &v, 0, m), 1);
} } }
// the chunks in order are the sequence, and there are ceil(n/c) of them
macro_rules! t_all { ($T:ty, $S:ty, $n:expr) => { {
    let n = $n; let d = vals::<$T>(n); let s: $S = fill(n, &d);
    split(any::<u8>() as usize, n + 2, |c| {
        if c == 0 { return }
        let q = s.num_chunks(c);
        check(q * c >= n && (q == 0 || (q - 1) * c < n), 3);
        let mut w: Vec<$T> = Vec::with_capacity(n);
        for k in 0..q { let (l, r) = s.get_chunk(c, k); check(l > 0 && (l == c || k + 1 == q), 4); check(l == r.len(), 5); for i in 0..l { w.extend_from_slice(&[r[i]]) } }
        is(&s, &w, 1);
    });
} } }
macro_rules! t_clen { ($($S:ident)*) => { $( {
    let n = $S::new().len();
    let (c, k) = (any::<u8>() as usize, any::<u8>() as usize); assume(c > 0);
    panics_iff(c * k > n);
    let l = $S::new().get_chunk_len(c, k);
    panics_end();
    check(l == if n - c * k < c { n - c * k } else { c }, 1);
    panics_iff(false);
} )* } }
h! {
h_c07_update_sub { kinds!(upd, param(0), param(1), param(2)) }
h_c07_update { kinds!(upd2, param(0), param(1), param(2)) }
h_c07_update_start { kinds!(upd3, param(0), param(1), param(2)) }
h_c07_sub { all!(t_sub, param(1)) }
h_c07_subr { all!(t_subr, param(1)) }
h_c07_from { all!(t_from, param(1)) }
h_c07_chunk { all!(t_chunk, param(1)) }
h_c07_set { all!(t_set, param(1)) }
h_c07_all { all!(t_all, param(1)) }
h_c07_clen5 { t_clen!(A5) }
h_c07_clen8 { t_clen!(P8) }
}
