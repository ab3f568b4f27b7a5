"""Environment of the symbolically executed code: allocator, panics, output, and the harness interface (vx_*)."""
import re
import term as tm
from term import T
import execu
from execu import PathEnd, Unsupported, newobj, ld, sto, getobj, wobj, concretize, tnot

# ---------------------------------------------------------------- runtime
def h_alloc(st, size, align, *a):
    size = concretize(st, size, 'allocation size')
    return newobj(st, size, None, 'heap')
def h_alloc_zeroed(st, size, align, *a):
    size = concretize(st, size, 'allocation size')
    return newobj(st, size, 0, 'heap')
def h_dealloc(st, p, *a):
    if p.__class__ is int: st.mem.pop(p >> 32, None)
def h_realloc(st, p, old, align, new, *a):
    new = concretize(st, new, 'allocation size'); old = concretize(st, old, 'allocation size')
    q = newobj(st, new, None, 'heap')
    execu.memcpy(st, q, p, min(old, new))
    h_dealloc(st, p)
    return q
def nop(st, *a): return 0
def h_memcmp(st, a, b, n):
    n = concretize(st, n, 'memcmp length')
    r = 0
    for k in reversed(range(n)):
        x = ld(st, tm.add(64, a, k), 1); y = ld(st, tm.add(64, b, k), 1)
        r = tm.ite(tm.ult(8, x, y), 0xffffffff, tm.ite(tm.ult(8, y, x), 1, r, 32), 32)
    return r
def h_bcmp(st, a, b, n):
    n = concretize(st, n, 'bcmp length')
    r = 1
    for k in range(n):
        r = tm.band(1, r, tm.eq(8, ld(st, tm.add(64, a, k), 1), ld(st, tm.add(64, b, k), 1)))
    return tm.zext(tm.bxor(1, r, 1), 1, 32)

def panic(name):
    def f(st, *a): raise PathEnd('panic', name)
    return f
PANICS = re.compile(r'core::panicking::|core::option::(unwrap_failed|expect_failed)|core::result::unwrap_failed|core::slice::index::slice_|core::slice::.*len_mismatch_fail|'
    r'alloc::raw_vec::(handle_error|capacity_overflow)|alloc::alloc::handle_alloc_error|std::panicking::|std::rt::begin_panic|core::str::slice_error_fail|core::cell::panic|'
    r'panic_const|core::slice::.*copy_from_slice.*fail|core::iter::.*step_by.*fail|alloc::vec::.*assert_failed|core::.*_fail\b|core::num::from_ascii_radix_panic')
def h_panic(st, *a): raise PathEnd('panic', '')

# ---------------------------------------------------------------- harness interface
def inp(st, nb, w, sec, intvar=None):
    seq = st.nsym; st.nsym += nb
    name = 'x%d_%d' % (seq, w)
    if intvar is not None:
        v = tm.VARS.get('i%d' % seq)
        if v is None:
            v = tm.mk('var', 0, ('i%d' % seq,), 0, intvar); tm.VARS['i%d' % seq] = v
        st.eng.addint('i%d' % seq, v, nb, seq, intvar)
        return v
    return st.eng.addvar(name, w, nb, sec, seq)
def vx_sym(st, p, n, kind):
    """kind: 1 secret, 2 one variable per byte, 4 boolean"""
    sec = bool(kind & 1)
    if kind & 4:
        v = inp(st, 1, 1, sec); sto(st, p, tm.zext(v, 1, 8), 1); return
    if kind & 2 or n > 16:
        for k in range(n): sto(st, p + k, inp(st, 1, 8, sec), 1)
    else: sto(st, p, inp(st, n, 8 * n, sec), n)
def addpc(st, c):
    if c.__class__ is int:
        if not c: raise PathEnd('assume', '')
        return
    ok, ms = st.eng.feasible(st, c)
    if not ok: raise PathEnd('assume', '')
    st.pc = st.pc + (c,); st.models = ms
def vx_assume(st, c): addpc(st, bit(c))
def bit(c): return c & 1 if c.__class__ is int else tm.extract(c, 0, 0) if c.w > 1 else c
def vx_check(st, c, i): st.eng.obligation(st, bit(c), 'check%d' % i)
def vx_check_eq(st, a, b, n, i):
    n = concretize(st, n, 'check length')
    goal = 1
    pairs = []
    for k in range(n):
        x = ld(st, tm.add(64, a, k), 1); y = ld(st, tm.add(64, b, k), 1)
        pairs.append((x, y))
    st.eng.obligation_eq(st, pairs, 'eq%d' % i)
def vx_param(st, i): return st.eng.params[i] if i < len(st.eng.params) else 0
def vx_unique(st, x): return concretize(st, x, 'case')
def vx_expect_panic(st, c): st.pancond = bit(c)
def vx_expect_end(st):
    c = st.pancond; st.pancond = 0
    if c.__class__ is T or c: st.eng.obligation(st, tnot(c), 'must-panic', kind='mustpanic')
    if c.__class__ is T: addpc(st, tnot(c))
def vx_ct(st, on): st.ct = on & 1
def vx_trace(st, i): st.eng.reached.add(i)

# ---------------------------------------------------------------- mathematical integers (model of crate num)
def iget(st, h):
    if h.__class__ is int: return st.eng.ints[h]
    if h.op == 'ite': return tm.iite(h.a[0], iget(st, h.a[1]), iget(st, h.a[2]))
    if h.op == 'concat' and h.a[0].__class__ is not T and h.a[0][0] == 0 and len(h.a) == 2 and h.a[1].__class__ is T and h.a[1].op == 'ite':
        t = h.a[1]; return tm.iite(t.a[0], iget(st, t.a[1]), iget(st, t.a[2]))
    vs = hvals(h)
    if vs is None: raise Unsupported('integer handle ' + tm.show(h, 3))
    r = None
    for c, v in vs: r = st.eng.ints[v] if r is None else tm.iite(c, st.eng.ints[v], r)
    return r
def hvals(h):
    """values of a handle built from ite/concat over constants"""
    if h.__class__ is int: return [(1, h)]
    if h.op == 'ite':
        l = hvals(h.a[1]); r = hvals(h.a[2])
        if l is None or r is None: return None
        return [(tm.band(1, tm.bxor(1, h.a[0], 1), c), v) for c, v in r] + [(tm.band(1, h.a[0], c), v) for c, v in l]
    if h.op == 'concat':
        res = [(1, 0)]
        for p in h.a:
            n = p.w if p.__class__ is T else p[1]
            l = hvals(p) if p.__class__ is T else [(1, p[0])]
            if l is None: return None
            res = [(tm.band(1, c, d), (u << n) | v) for c, u in res for d, v in l]
            res = [(c, v) for c, v in res if not (c.__class__ is int and c == 0)]
            if len(res) > 64: return None
        return res
    if h.op == 'extract':
        l = hvals(h.a[0])
        return None if l is None else [(c, (v >> h.a[2]) & tm.mask(h.w)) for c, v in l]
    if h.w == 1: return [(tm.bxor(1, h, 1), 0), (h, 1)]
    return None
def iput(st, x):
    e = st.eng
    h = e.inth.get(x)
    if h is None:
        h = len(e.ints); e.ints.append(x); e.inth[x] = h
    return h
def vx_i_from(st, lo, hi):
    return iput(st, tm.inat(128, tm.concat_l([(64, hi), (64, lo)])))
def vx_i_from_signed(st, lo, hi):
    b = tm.concat_l([(64, hi), (64, lo)])
    n = tm.extract(b, 127, 127)
    if n in st.pc: n = 1
    elif tnot(n) in st.pc: n = 0
    return iput(st, tm.iite(n, tm.ineg(tm.inat(128, tm.sub(128, 0, b))), tm.inat(128, b)))
def vx_i_bytes(st, p, n, le):
    n = concretize(st, n, 'length')
    bs = [ld(st, tm.add(64, p, k), 1) for k in range(n)]
    if le: bs.reverse()
    if n == 0: return iput(st, 0)
    return iput(st, tm.inat(8 * n, tm.concat_l([(8, b) for b in bs])))
def vx_i_write(st, h, p, n, le):
    """n bytes of |x| (x < 256^n)"""
    x = iabs(iget(st, h))
    n = concretize(st, n, 'length')
    b = tm.i2bv(x, 8 * n) if n else 0
    for k in range(n):
        by = tm.extract(b, 8 * k + 7, 8 * k)
        sto(st, tm.add(64, p, k if le else n - 1 - k), by, 1)
def iabs(x):
    if x.__class__ is int: return abs(x)
    if x.lo is not None and x.lo >= 0: return x
    if x.op == 'iite':
        p, q = [abs(v) if v.__class__ is int else v if v.lo is not None and v.lo >= 0 else tm.ineg(v) if v.hi is not None and v.hi <= 0 else None for v in x.a[1:]]
        if p is not None and q is not None:
            if p.__class__ is T and q.__class__ is T and p.op == q.op == 'inat' and p.a[0].w == q.a[0].w: return tm.inat(p.a[0].w, tm.ite(x.a[0], p.a[0], q.a[0], p.a[0].w))
            return tm.iite(x.a[0], p, q)
    c = tm.ilt(x, 0)
    if c.__class__ is int: return tm.ineg(x) if c else x
    r = tm.iite(c, tm.ineg(x), x)
    if r.__class__ is T and r.op == 'iite':      # the absolute value: tighter bounds than those of the two sides
        r.lo = max(0, r.lo) if r.lo is not None else 0
        if x.lo is not None and x.hi is not None: r.hi = min(max(-x.lo, x.hi), r.hi if r.hi is not None else max(-x.lo, x.hi))
    return r
def vx_i_abs(st, h): return iput(st, iabs(iget(st, h)))
def vx_i_maxlen(st, h):
    """bytes that suffice for |x|: from its interval"""
    x = iabs(iget(st, h))
    if x.__class__ is int: return max(1, (x.bit_length() + 7) // 8)
    if x.hi is None: raise Unsupported('unbounded integer ' + tm.show(x, 2))
    return max(1, (x.hi.bit_length() + 7) // 8)
def vx_i_isconst(st, h): return 1 if iget(st, h).__class__ is int else 0
def vx_i_exact(st): return st.exact
def vx_i_setmode(st, m):
    st.exact = m
    if not m: st.part = ()
def vx_part(st, x):
    """keeps the paths that differ in x apart (no merging) until the exact mode ends"""
    st.part = st.part + (concretize(st, x, 'case'),)
def bin_(f):
    return lambda st, a, b: iput(st, f(iget(st, a), iget(st, b)))
def signed_div(a, b):
    """truncated"""
    al, _ = tm.irange(a); bl, _ = tm.irange(b)
    if bl is not None and bl > 0:
        if al is not None and al >= 0: return tm.idiv(a, b)
        return tm.iite(tm.ilt(a, 0), tm.ineg(tm.idiv(tm.ineg(a), b)), tm.idiv(a, b))
    if al is not None and al >= 0 and bl is not None and bl >= 0: return tm.idiv(a, b)
    na = tm.ilt(a, 0); nb = tm.ilt(b, 0)
    q = tm.idiv(iabs(a), iabs(b))
    return tm.iite(tm.bxor(1, na, nb), tm.ineg(q), q)
def signed_rem(a, b):
    al, _ = tm.irange(a); bl, _ = tm.irange(b)
    if al is not None and al >= 0 and bl is not None and bl >= 0: return tm.imod(a, b)
    na = tm.ilt(a, 0); nb = tm.ilt(b, 0)
    r = tm.imod(iabs(a), iabs(b))
    return tm.iite(na, tm.ineg(r), r)
def vx_i_modpow(st, b, e, m):
    b, e, m = iget(st, b), iget(st, e), iget(st, m)
    return iput(st, tm.ipowmod(tm.imod(b, m) if m.__class__ is int and m > 0 else b, e, m))
def vx_i_pow(st, b, e):
    x = iget(st, b); e = concretize(st, e, 'exponent')
    r = 1
    for _ in range(e): r = tm.imul(r, x)
    return iput(st, r)
def vx_i_shl(st, a, n):
    x = iget(st, a)
    if n.__class__ is int: return iput(st, tm.imul(x, 1 << n))
    raise Unsupported('symbolic shift of an integer')
def vx_i_shr(st, a, n):
    x = iget(st, a)
    if n.__class__ is int: return iput(st, tm.idiv(x, 1 << n))      # floor, as num does
    raise Unsupported('symbolic shift of an integer')
def vx_i_lt(st, a, b): return tm.ilt(iget(st, a), iget(st, b))
def vx_i_eq(st, a, b): return tm.ieq(iget(st, a), iget(st, b))
def b8(f):
    return lambda st, a, b: tm.zext(f(st, a, b), 1, 8)
def vx_i_low(st, h, i):
    """64-bit limb i of |x|"""
    x = iabs(iget(st, h))
    return tm.i2bv(tm.idiv(x, 1 << (64 * i)), 64)
def vx_i_sym(st, nb, hi):
    """arbitrary integer in [0, hi], read from nb input bytes"""
    m = iget(st, hi)
    if m.__class__ is not int: raise Unsupported('vx_i_sym')
    return iput(st, inp(st, nb, 8 * nb, False, intvar=m))
def vx_i_bitand1(st, a): return iput(st, tm.imod(iget(st, a), 2))

HOOKS = dict(
    memcmp=h_memcmp, bcmp=h_bcmp, vx_sym=vx_sym, vx_assume=vx_assume, vx_check=vx_check, vx_check_eq=vx_check_eq, vx_param=vx_param, vx_unique=vx_unique, vx_part=vx_part,
    vx_expect_panic=vx_expect_panic, vx_expect_end=vx_expect_end, vx_ct=vx_ct, vx_trace=vx_trace,
    vx_i_from=vx_i_from, vx_i_from_signed=vx_i_from_signed, vx_i_bytes=vx_i_bytes, vx_i_abs=vx_i_abs, vx_i_write=vx_i_write, vx_i_maxlen=vx_i_maxlen, vx_i_isconst=vx_i_isconst,
    vx_i_exact=vx_i_exact, vx_i_setmode=vx_i_setmode, vx_i_add=bin_(tm.iadd), vx_i_sub=bin_(tm.isub), vx_i_mul=bin_(tm.imul), vx_i_div=bin_(signed_div), vx_i_rem=bin_(signed_rem),
    vx_i_modpow=vx_i_modpow, vx_i_pow=vx_i_pow, vx_i_shl=vx_i_shl, vx_i_shr=vx_i_shr, vx_i_lt=b8(vx_i_lt), vx_i_eq=b8(vx_i_eq), vx_i_low=vx_i_low, vx_i_sym=vx_i_sym, vx_i_bitand1=vx_i_bitand1,
)
HOOKRX = [
    (re.compile(r'__rust_alloc_zeroed$'), h_alloc_zeroed), (re.compile(r'__rust_alloc$'), h_alloc), (re.compile(r'__rust_dealloc$'), h_dealloc),
    (re.compile(r'__rust_realloc$'), h_realloc), (re.compile(r'__rust_no_alloc_shim'), nop),
    (re.compile(r'std::io::stdio::_e?print$'), nop),
    (PANICS, None),
]
def hookrx():
    return [(r, f if f is not None else h_panic) for r, f in HOOKRX]
