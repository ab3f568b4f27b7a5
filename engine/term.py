"""Hash-consed terms: bit-vectors (w>=1; booleans are w==1) and mathematical integers (w==0).

A value is a Python int (concrete; for bit-vectors in [0,2^w)) or a T.  Constructors simplify towards a
normal form; whatever the normal form does not settle is left to the SMT solver."""
import sys

class T:
    __slots__ = ('op', 'w', 'a', 'id', 'lo', 'hi', 'sec', '_um')
    def __repr__(self): return show(self, 4)

TAB = {}
ALL = []
VARS = {}            # name -> T
ORIGIN = {}          # T -> (T, hi, lo): extract() results that were pushed inwards
LUTS = {}            # tuple -> index
LUTLIST = []

def reset():
    TAB.clear(); ALL.clear(); VARS.clear(); ORIGIN.clear()

def mk(op, w, a, lo=None, hi=None):
    key = (op, w, a)
    t = TAB.get(key)
    if t is None:
        t = T(); t.op = op; t.w = w; t.a = a; t.id = len(ALL); t.lo = lo; t.hi = hi; t._um = None
        s = False
        for x in kids_raw(op, a):
            if x.sec: s = True; break
        t.sec = s
        TAB[key] = t; ALL.append(t)
    return t

def kids_raw(op, a):
    if op == 'var': return ()
    if op in ('add',):
        return [x for _, x in a[1]]
    if op in ('xor', 'and', 'or'):
        return a[1]
    if op == 'ipoly':
        return [x for _, m in a for x in m]
    return [x for x in a if x.__class__ is T]

def kids(t): return kids_raw(t.op, t.a)

def var(name, w, secret=False):
    t = VARS.get(name)
    if t is None:
        t = mk('var', w, (name,)); t.sec = secret; VARS[name] = t
    return t

def mask(w): return (1 << w) - 1
def isint(x): return x.__class__ is int
def tosigned(x, w): return x - (1 << w) if x >> (w - 1) else x

def show(t, d=6):
    if t.__class__ is not T: return hex(t) if isint(t) and t > 9 else str(t)
    if t.op == 'var': return t.a[0]
    if d == 0: return '..'
    if t.op == 'add': return '(+%d %s %s)' % (t.w, show(t.a[0]), ' '.join('%s*%s' % (show(c), show(x, d-1)) for c, x in t.a[1]))
    if t.op in ('xor', 'and', 'or'): return '(%s%d %s %s)' % (t.op, t.w, show(t.a[0]), ' '.join(show(x, d-1) for x in t.a[1]))
    if t.op == 'ipoly': return '(ipoly ' + ' + '.join('%s*%s' % (show(c), '*'.join(show(x, d-1) for x in m) or '1') for c, m in t.a) + ')'
    return '(%s%d %s)' % (t.op, t.w, ' '.join(show(x, d-1) for x in t.a))

# ---------------------------------------------------------------- ranges
def umax(t):
    if t.__class__ is int: return t
    u = t._um
    if u is None:
        u = t._um = _umax(t)
    return u

def _umax(t):
    op = t.op; w = t.w
    if op == 'concat':
        r = 0
        for p in t.a:
            if p.__class__ is T: r = (r << p.w) | umax(p)
            else: r = (r << p[1]) | p[0]
        return r
    if op == 'ite': return max(umax(t.a[1]), umax(t.a[2]))
    if op == 'and':
        m = t.a[0]
        for x in t.a[1]: m = min(m, umax(x))
        return m
    if op in ('or', 'xor'):
        m = t.a[0]
        for x in t.a[1]: m |= umax(x)
        return (1 << m.bit_length()) - 1
    if op == 'add':
        s = t.a[0]
        for c, x in t.a[1]: s += c * umax(x)
        return min(s, mask(w)) if s <= mask(w) else mask(w)
    if op == 'mul':
        s = 1
        for x in t.a: s *= umax(x)
        return s if s <= mask(w) else mask(w)
    if op == 'lut': return max(LUTLIST[t.a[0]])
    if op == 'urem':
        return min(umax(t.a[0]), umax(t.a[1]) - 1 if umax(t.a[1]) else mask(w))
    if op == 'udiv':
        if isint(t.a[1]) and t.a[1]: return umax(t.a[0]) // t.a[1]
        return mask(w)
    if op == 'lshr': return umax(t.a[0])
    if op == 'i2bv':
        x = t.a[0]
        if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= mask(w): return x.hi
    if op == 'extract' and t.a[2] == 0:
        return min(umax(t.a[0]), mask(w))
    return mask(w)

# ---------------------------------------------------------------- add / mul
ACAP = 20000
def _addparts(x, w, coef, acc):
    """accumulate coef*x into acc dict; return const"""
    if x.__class__ is int: return coef * x
    if x.op == 'add':
        if len(x.a[1]) > ACAP:          # long sums stay operands of their own
            k = x.a[0]
            if k: x = mk('add', w, (0, x.a[1]))
            acc[x] = acc.get(x, 0) + coef
            return coef * k
        for c, y in x.a[1]:
            acc[y] = acc.get(y, 0) + coef * c
        return coef * x.a[0]
    acc[x] = acc.get(x, 0) + coef
    return 0

def _mkadd(w, k, acc):
    M = mask(w)
    k &= M
    items = []
    for x, c in acc.items():
        c &= M
        if c: items.append((c, x))
    if not items: return k
    if k == 0 and len(items) == 1 and items[0][0] == 1: return items[0][1]
    if len(items) > 1: items.sort(key=lambda p: p[1].id)
    if w == 1:
        return bxor_list(1, k, [x for c, x in items])
    if len(items) == 1:
        # k + c*x with x one bit wide (zero-extended), or a choice of two constants: a choice of two constants
        c, x = items[0]
        if x.op == 'concat':
            if x.a[0].__class__ is not T and x.a[0][0] == 0 and len(x.a) == 2 and x.a[1].__class__ is T and x.a[1].w == 1:
                return ite(x.a[1], (k + c) & M, k, w)
        elif x.op == 'ite' and x.a[1].__class__ is int and x.a[2].__class__ is int:
            return ite(x.a[0], (k + c * x.a[1]) & M, (k + c * x.a[2]) & M, w)
    return mk('add', w, (k, tuple(items)))

def add(w, a, b):
    if a.__class__ is int and b.__class__ is int: return (a + b) & mask(w)
    if a.__class__ is int and a == 0: return b
    if b.__class__ is int and b == 0: return a
    acc = {}
    k = _addparts(a, w, 1, acc) + _addparts(b, w, 1, acc)
    return _mkadd(w, k, acc)

def sub(w, a, b):
    if b.__class__ is int:
        if a.__class__ is int: return (a - b) & mask(w)
        if b == 0: return a
    acc = {}
    k = _addparts(a, w, 1, acc) + _addparts(b, w, -1, acc)
    return _mkadd(w, k, acc)

def neg(w, a): return sub(w, 0, a)

def mul(w, a, b):
    M = mask(w)
    if a.__class__ is int:
        if b.__class__ is int: return (a * b) & M
        a, b = b, a
    if b.__class__ is int:
        if b == 0: return 0
        if b == 1: return a
        if w == 1: return a
        if (b & (b - 1)) == 0: return shl(w, a, b.bit_length() - 1) if a.op != 'add' else _scale(w, a, b)
        return _scale(w, a, b)
    if w == 1: return band(1, a, b)
    fa = a.a if a.op == 'mul' else (a,)
    fb = b.a if b.op == 'mul' else (b,)
    return mk('mul', w, tuple(sorted(fa + fb, key=lambda t: t.id)))

def _scale(w, a, b):
    acc = {}
    k = _addparts(a, w, b, acc)
    return _mkadd(w, k, acc)

# ---------------------------------------------------------------- bitwise
def bnot(w, a):
    if a.__class__ is int: return a ^ mask(w)
    return bxor(w, a, mask(w))

def segs(x, w):
    """segments msb-first of a value: list of (width, part) with part int or T; None if atomic"""
    if x.__class__ is int: return None
    if x.op == 'concat':
        return [(p.w, p) if p.__class__ is T else (p[1], p[0]) for p in x.a]
    return [(w, x)]

def _segwise(opname, w, k, items):
    """try to perform a bitwise op segment by segment; returns value or None."""
    cuts = set()
    anyc = False
    for x in items:
        if x.op == 'concat':
            anyc = True
            pos = w
            for p in x.a:
                pos -= p.w if p.__class__ is T else p[1]
                cuts.add(pos)
    if not anyc: return None
    cuts.discard(0)
    pts = sorted(cuts, reverse=True)
    # same boundaries for all concats -> element-wise; otherwise only when every segment collapses
    res = []
    hi = w
    ones = 0
    nonatomic = 0
    for lo in pts + [0]:
        n = hi - lo
        parts = []
        kk = (k >> lo) & mask(n)
        dead = False
        for x in items:
            p = extract(x, hi - 1, lo)
            if p.__class__ is int:
                if opname == 'xor': kk ^= p
                elif opname == 'and': kk &= p
                else: kk |= p
            else: parts.append(p)
        M = mask(n)
        if opname == 'and' and kk == 0: parts = []
        if opname == 'or' and kk == M: parts = []
        if opname == 'and' and kk == M and len(parts) == 1: v = parts[0]
        elif opname in ('xor', 'or') and kk == 0 and len(parts) == 1: v = parts[0]
        elif not parts: v = kk
        else:
            v = None
            nonatomic += 1
        res.append((n, kk, parts, v))
        hi = lo
    allcat = all(x.op == 'concat' for x in items)
    same = False
    if nonatomic:
        if allcat:
            b0 = None; same = True
            for x in items:
                b = tuple(p.w if p.__class__ is T else p[1] for p in x.a)
                if b0 is None: b0 = b
                elif b != b0:
                    # tolerate constants merged over boundaries
                    same = False; break
            if not same:
                # every concat piece boundary differs only inside constant parts?
                same = all(all(p.__class__ is T and len([1 for c in pts if q < c < q + p.w]) == 0 or p.__class__ is not T
                               for p, q in _pieces(x, w)) for x in items)
        if not same: return None
    out = []
    for n, kk, parts, v in res:
        if v is None:
            v = _bitn(opname, n, kk, parts)
        out.append((n, v))
    return concat_l(out)

def _pieces(x, w):
    pos = w
    for p in x.a:
        pw = p.w if p.__class__ is T else p[1]
        pos -= pw
        yield p, pos

def _bitn(opname, w, k, parts):
    if opname == 'xor': return bxor_list(w, k, parts)
    if opname == 'and': return band_list(w, k, parts)
    return bor_list(w, k, parts)

XCAP = 160
def bxor_list(w, k, parts):
    cnt = {}
    st = list(parts)
    tot = 0
    for x in st:
        if x.__class__ is T and x.op == 'xor': tot += len(x.a[1])
    flat = tot <= XCAP
    while st:
        x = st.pop()
        if x.__class__ is int: k ^= x; continue
        if x.op == 'xor' and (flat or len(x.a[1]) <= 8):
            k ^= x.a[0]
            for y in x.a[1]:
                if y in cnt: del cnt[y]
                else: cnt[y] = 1
        else:
            if x in cnt: del cnt[x]
            else: cnt[x] = 1
    if not cnt: return k
    items = list(cnt)
    if len(items) == 1 and k == 0: return items[0]
    if len(items) > 1 and w > 1:
        # (c1 & x) ^ (c2 & x) = (c1 ^ c2) & x
        ms = None; n = 0
        for x in items:
            if x.op == 'and' and len(x.a[1]) == 1:
                if ms is None: ms = {}
                y = x.a[1][0]
                if y in ms: n += 1
                ms.setdefault(y, []).append(x)
        if n:
            M = mask(w)
            for y, l in ms.items():
                if len(l) > 1:
                    c = 0
                    for x in l: c ^= x.a[0]; del cnt[x]
                    z = band_list(w, c, (y,))
                    if z.__class__ is int: k ^= z
                    else: return bxor_list(w, k, list(cnt) + [z])
            items = list(cnt)
            if not items: return k
            if len(items) == 1 and k == 0: return items[0]
    if len(items) > 1: items.sort(key=lambda t: t.id)
    if w > 1:
        if len(items) > 1:
            # the conditional move  (c ? P : 0) ^ R  with P = R ^ X
            for x in items:
                if x.op == 'ite':
                    A, B = x.a[1], x.a[2]
                    if A.__class__ is int and A == 0: P = B
                    elif B.__class__ is int and B == 0: P = A
                    else: continue
                    if P.__class__ is not T or P.op != 'xor': continue
                    rest = [y for y in items if y is not x]
                    ps = P.a[1]
                    if any(y not in ps for y in rest): continue
                    R = bxor_list(w, k, rest)
                    V = bxor_list(w, 0, (P, R))
                    return ite(x.a[0], V, R, w) if P is A else ite(x.a[0], R, V, w)
        r = _segwise('xor', w, k, items)
        if r is not None: return r
        if len(items) > 1 and any(x.op == 'concat' and any(p.__class__ is not T for p in x.a) for x in items):
            k, items = _repack(w, k, items)
            if len(items) == 0: return k
            if len(items) == 1: return bxor_list(w, k, items)
    else:
        for x in items:
            if x.op == 'extract' and x.a[0].op == 'or' and x.a[1] == x.a[0].w - 1:
                r = _borrow(x.a[0], k, [y for y in items if y is not x])
                if r is not None: return r
    return mk('xor', w, (k, tuple(items)))

def _repack(w, k, items):
    """the pieces of the concatenations among the operands of an xor, packed again in one fixed way"""
    ps = {}; out = []; K = [k]
    def put(p, pos):
        if p.op == 'concat':
            pos += p.w
            for q in p.a:
                if q.__class__ is T: pos -= q.w; put(q, pos)
                else: pos -= q[1]; K[0] ^= q[0] << pos
        elif p.op == 'xor' and len(p.a[1]) <= 8 and p.w < w:
            K[0] ^= p.a[0] << pos
            for q in p.a[1]: put(q, pos)
        elif p.op == 'extract':
            q = (p.a[0], pos - p.a[2]); ps[q] = ps.get(q, 0) ^ (mask(p.w) << p.a[2])
        else:
            q = (p, pos); ps[q] = ps.get(q, 0) ^ mask(p.w)
    for x in items:
        if x.op == 'concat': put(x, 0)
        else: out.append(x)
    again = True
    while again:
        again = False
        pl = []
        for (x, d), m in list(ps.items()):
            m0 = m
            while m:
                lo = (m & -m).bit_length() - 1
                n = 1
                while (m >> (lo + n)) & 1: n += 1
                m &= ~(mask(n) << lo)
                v = extract(x, lo + n - 1, lo)
                if v.__class__ is not T: K[0] ^= v << (lo + d); m0 &= ~(mask(n) << lo)
                elif v.op == 'concat' or v.op == 'xor' and len(v.a[1]) <= 8 and v.w < w:
                    m0 &= ~(mask(n) << lo); again = True; ps[(x, d)] = m0
                    put(v, lo + d); m0 = ps[(x, d)]
                else: pl.append((v, lo + d))
            ps[(x, d)] = m0
    layers = []
    k = K[0]
    for p, pos in sorted(pl, key=lambda q: (-q[0].w, q[1], q[0].id)):
        for l in layers:
            if all(pos >= y + x.w or y >= pos + p.w for x, y in l): l.append((p, pos)); break
        else: layers.append([(p, pos)])
    for l in layers:
        l.sort(key=lambda q: -q[1])
        hi = w; parts = []
        for p, pos in l:
            if pos + p.w < hi: parts.append((hi - pos - p.w, 0))
            parts.append((p.w, p)); hi = pos
        if hi: parts.append((hi, 0))
        out.append(concat_l(parts))
    out.sort(key=lambda t: t.id)
    return k, out

def _borrow(o, k, rest):
    """msb(((x-y)^y) | (x^y)) ^ msb(x) ^ [rest] is the borrow of x - y:  x < y"""
    if o.a[0] != 0 or len(o.a[1]) != 2: return None
    w = o.w
    for A, B in (o.a[1], (o.a[1][1], o.a[1][0])):
        # A = s ^ y, B = x ^ y, s = x - y
        if A.op == 'xor' and len(A.a[1]) == 2 and A.a[0] == 0:
            for s, y in (A.a[1], (A.a[1][1], A.a[1][0])):
                if s.op != 'add': continue
                x = bxor(w, B, y)
                if sub(w, x, y) is s:
                    r = bxor_list(1, k, rest + [extract(x, w - 1, w - 1)])
                    # k ^ rest = msb(x) ^ r
                    return bxor(1, r, ult(w, x, y))
    return None

def bxor(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int: return a ^ b
        if a == 0: return b
    elif b.__class__ is int and b == 0: return a
    if a is b: return 0
    return bxor_list(w, 0, (a, b))

def band_list(w, k, parts):
    M = mask(w)
    s = {}
    for x in parts:
        if x.__class__ is int: k &= x; continue
        if x.op == 'and':
            k &= x.a[0]
            for y in x.a[1]: s[y] = 1
        else: s[x] = 1
    if k == 0: return 0
    for x in s:
        if x.op == 'xor' and len(x.a[1]) == 1 and x.a[0] == M and x.a[1][0] in s: return 0
    items = sorted(s, key=lambda t: t.id)
    if not items: return k
    if len(items) == 1 and k == M: return items[0]
    if w > 1:
        for x in items:
            # a mask (c ? -1 : 0)
            if x.op == 'ite' and x.a[1].__class__ is int and x.a[2].__class__ is int and x.a[1] + x.a[2] == M and (x.a[1] == 0 or x.a[2] == 0):
                rest = band_list(w, k, [y for y in items if y is not x])
                return ite(x.a[0], rest, 0, w) if x.a[1] else ite(x.a[0], 0, rest, w)
    if k != M:
        # contiguous runs -> concat
        runs = _runs(k, w)
        if len(runs) <= 9:
            inner = items[0] if len(items) == 1 else band_list(w, M, items)
            if inner.__class__ is int: return inner & k
            return concat_l([(n, extract(inner, hi, hi - n + 1) if bit else 0) for hi, n, bit in runs])
    if k != M and len(items) == 1 and items[0].op == 'xor':
        x = items[0]
        return bxor_list(w, x.a[0] & k, [band_list(w, k, (y,)) for y in x.a[1]])
    if w > 1 and k == M and len(items) == 2:
        # algebraic normal form for small products: x & (y ^ z) = (x & y) ^ (x & z)
        for x, y in ((items[0], items[1]), (items[1], items[0])):
            if x.op == 'xor' and len(x.a[1]) <= 2 and y.op != 'concat' and all(z.op != 'concat' for z in x.a[1]) and (y.op != 'xor' or len(y.a[1]) == 1):
                return bxor_list(w, 0, [band_list(w, M, (z, y)) for z in x.a[1]] + ([band_list(w, x.a[0], (y,))] if x.a[0] else []))
    if w > 1:
        r = _segwise('and', w, k, items)
        if r is not None: return r
    return mk('and', w, (k, tuple(items)))

def _runs(k, w):
    """msb-first runs of equal bits: (hi, n, bit)"""
    out = []
    i = w - 1
    while i >= 0:
        b = (k >> i) & 1
        # find run length
        j = i
        while j >= 0 and ((k >> j) & 1) == b: j -= 1
        out.append((i, i - j, b)); i = j
        if len(out) > 12: break
    return out

def band(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int: return a & b
        a, b = b, a
    if b.__class__ is int:
        if b == 0: return 0
        if b == mask(w): return a
        return band_list(w, b, (a,))
    if a is b: return a
    return band_list(w, mask(w), (a, b))

def bor_list(w, k, parts):
    M = mask(w)
    s = {}
    for x in parts:
        if x.__class__ is int: k |= x; continue
        if x.op == 'or':
            k |= x.a[0]
            for y in x.a[1]: s[y] = 1
        else: s[x] = 1
    if k == M: return M
    for x in s:
        if x.op == 'xor' and len(x.a[1]) == 1 and x.a[0] == M and x.a[1][0] in s: return M
    items = sorted(s, key=lambda t: t.id)
    if not items: return k
    if len(items) == 1 and k == 0: return items[0]
    if k:
        runs = _runs(k, w)
        if len(runs) <= 9:
            inner = items[0] if len(items) == 1 else bor_list(w, 0, items)
            if inner.__class__ is int: return inner | k
            return concat_l([(n, mask(n) if bit else extract(inner, hi, hi - n + 1)) for hi, n, bit in runs])
    if w > 1:
        r = _segwise('or', w, k, items)
        if r is not None: return r
    return mk('or', w, (k, tuple(items)))

def bor(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int: return a | b
        a, b = b, a
    if b.__class__ is int:
        if b == 0: return a
        if b == mask(w): return b
        return bor_list(w, b, (a,))
    if a is b: return a
    return bor_list(w, 0, (a, b))

# ---------------------------------------------------------------- concat / extract / shifts
def _orig(p):
    if p.op == 'extract': return (p.a[0], p.a[1], p.a[2])
    return ORIGIN.get(p)

def concat_l(parts):
    """parts: list of (width, value) msb first"""
    flat = []
    lone = len(parts) == 1
    for n, v in parts:
        if n == 0: continue
        if v.__class__ is int:
            if flat and flat[-1][1].__class__ is int:
                pn, pv = flat[-1]; flat[-1] = (pn + n, (pv << n) | v)
            else: flat.append((n, v))
        elif v.op == 'concat':
            for p in v.a:
                if p.__class__ is T: _push(flat, p.w, p)
                else:
                    if flat and flat[-1][1].__class__ is int:
                        pn, pv = flat[-1]; flat[-1] = (pn + p[1], (pv << p[1]) | p[0])
                    else: flat.append((p[1], p[0]))
        elif v.op == 'rot' and not lone:
            x, r = v.a
            _push(flat, n - r, extract(x, n - r - 1, 0)); _push(flat, r, extract(x, n - 1, n - r))
        else: _push(flat, n, v)
    if len(flat) == 1: return flat[0][1]
    w = sum(n for n, _ in flat)
    if len(flat) == 2 and flat[0][1].__class__ is T and flat[1][1].__class__ is T:
        o1 = _orig(flat[0][1]); o2 = _orig(flat[1][1])
        if o1 is not None and o2 is not None and o1[0] is o2[0] and o1[0].w == w and o1[2] == 0 and o2[1] == w - 1:
            return mk('rot', w, (o1[0], w - 1 - o1[1]))
    return mk('concat', w, tuple(v if v.__class__ is T else (v, n) for n, v in flat))

def _push(flat, n, v):
    if flat:
        pn, pv = flat[-1]
        if pv.__class__ is T:
            if v.op == 'i2bv' and pv.op == 'extract' and pv.a[2] == n and pv.a[0].op == 'i2bv' and pv.a[0].a[0] is v.a[0]:
                flat.pop()
                r = i2bv(v.a[0], n + pn)
                _push(flat, r.w, r) if r.op != 'concat' else flat.append((r.w, r))
                return
            o2 = _orig(v)
            if o2 is not None:
                o1 = _orig(pv)
                if o1 is not None and o1[0] is o2[0] and o1[2] == o2[1] + 1:
                    r = extract(o1[0], o1[1], o2[2])
                    if r.__class__ is T and r.op != 'concat':
                        flat.pop()
                        _push(flat, r.w, r)
                        return
            a = _cite(pv); b = _cite(v)
            if a is not None and b is not None and a[0] is b[0] and (pv.op == 'ite' or v.op == 'ite'):
                flat.pop()
                r = mk('ite', pn + n, (a[0], (a[1] << n) | b[1], (a[2] << n) | b[2]))
                flat.append((pn + n, r))
                return
    flat.append((n, v))

def _cite(x):
    """x as (condition, constant, constant)"""
    if x.op == 'ite':
        if x.a[1].__class__ is int and x.a[2].__class__ is int: return x.a
        return None
    if x.w == 1:
        if x.op == 'xor' and len(x.a[1]) == 1: return (x.a[1][0], 0, 1) if x.a[0] else (x, 1, 0)
        return (x, 1, 0)
    return None

def concat(w1, a, w2, b): return concat_l([(w1, a), (w2, b)])

EXT = {}
def extract(t, hi, lo):
    n = hi - lo + 1
    if t.__class__ is int: return (t >> lo) & mask(n)
    if n == t.w: return t
    key = (t, hi, lo)
    r = EXT.get(key)
    if r is None:
        r = _extract(t, hi, lo, n)
        EXT[key] = r
        if r.__class__ is T and r.op != 'extract' and r.op != 'concat' and r not in ORIGIN and t.op != 'concat':
            ORIGIN[r] = (t, hi, lo)
    return r

def _pushable(x, hi, lo):
    """would extract(x,hi,lo) simplify below x?"""
    if x.op == 'concat' or x.op == 'extract': return True
    if x.op == 'ite': return x.a[1].__class__ is int or x.a[2].__class__ is int or _pushable(x.a[1], hi, lo) or _pushable(x.a[2], hi, lo)
    if x.op in ('xor', 'and', 'or'):
        for y in x.a[1]:
            if y.op == 'concat' or y.op == 'ite' and _pushable(y, hi, lo): return True
        return False
    return False

def _small(l):
    n = 0
    for y in l:
        if y.op == 'concat':
            for p in y.a: n += p.__class__ is T
        else: n += 1
    return n <= 5

def _aligned(x, hi, lo):
    """bits hi..lo of a concatenation cut no part that is not constant"""
    pos = x.w
    for p in x.a:
        if p.__class__ is T:
            h = pos - 1; pos -= p.w
            if h >= lo and hi >= pos and (hi < h or lo > pos): return False
        else: pos -= p[1]
    return True

def _extract(t, hi, lo, n):
    op = t.op
    if op == 'extract': return extract(t.a[0], hi + t.a[2], lo + t.a[2])
    if op == 'rot':
        x, r = t.a
        if lo >= r: return extract(x, hi - r, lo - r)
        if hi < r: return extract(x, hi - r + t.w, lo - r + t.w)
        return concat_l([(hi - r + 1, extract(x, hi - r, 0)), (r - lo, extract(x, t.w - 1, lo - r + t.w))])
    if op == 'concat':
        pos = t.w; out = []
        for p in t.a:
            if p.__class__ is T: pw = p.w; v = p
            else: pw = p[1]; v = p[0]
            pos -= pw
            h = min(hi, pos + pw - 1); l = max(lo, pos)
            if h >= l: out.append((h - l + 1, extract(v, h - pos, l - pos)))
        return concat_l(out)
    if op in ('xor', 'and', 'or'):
        if op == 'xor' and 1 < t.w <= 8: return _bitn(op, n, (t.a[0] >> lo) & mask(n), [extract(y, hi, lo) for y in t.a[1]])
        if any(y.op == 'concat' or y.op == 'extract' or (y.op == 'ite' and _pushable(y, hi, lo)) for y in t.a[1]) and \
                (n == 1 or lo == 0 and n in (8, 16, 32, 64) or _small(t.a[1]) or all(_aligned(y, hi, lo) for y in t.a[1] if y.op == 'concat')):
            return _bitn(op, n, (t.a[0] >> lo) & mask(n), [extract(y, hi, lo) for y in t.a[1]])
    if op == 'ite':
        if t.a[1].__class__ is int or t.a[2].__class__ is int or _pushable(t.a[1], hi, lo) or _pushable(t.a[2], hi, lo):
            return ite(t.a[0], extract(t.a[1], hi, lo), extract(t.a[2], hi, lo), n)
    if op == 'add' and lo == 0:
        if len(t.a[1]) <= 16 and any(x.op == "concat" for _, x in t.a[1]):
            acc = {}; k = t.a[0]
            for c, x in t.a[1]: k += _addparts(extract(x, hi, 0), n, c, acc)
            return _mkadd(n, k, acc)
    if op == 'mul' and lo == 0:
        if any(x.op == 'concat' for x in t.a):
            r = 1
            for x in t.a: r = mul(n, r, extract(x, hi, 0))
            return r
    if op == 'sext':
        iw = t.a[0].w
        if hi < iw: return extract(t.a[0], hi, lo)
        if lo >= iw - 1: return sext(extract(t.a[0], iw - 1, iw - 1), 1, n)
        if lo > 0: return sext(extract(t.a[0], iw - 1, lo), iw - lo, n)
        return sext(t.a[0], iw, n)
    if op == 'lut':
        tab = LUTLIST[t.a[0]]
        if t.w > 8 or len({(v >> lo) & mask(n) for v in tab}) == 1: return lut(tuple((v >> lo) & mask(n) for v in tab), t.a[1], n)
    if lo > 0 and umax(t) < (1 << lo): return 0
    if hi < t.w - 1 or lo > 0:
        ub = umax(t)
        if (ub >> lo) == 0: return 0
        bl = ub.bit_length()
        if bl <= hi:     # top bits are zero
            return concat_l([(hi - bl + 1, 0), (bl - lo, extract(t, bl - 1, lo))])
    if op == 'i2bv' and lo == 0:
        return i2bv(t.a[0], n)
    return mk('extract', n, (t, hi, lo))

def rotl(w, x, r):
    return concat_l([(w - r, extract(x, w - r - 1, 0)), (r, extract(x, w - 1, w - r))])

def zext(a, w1, w2):
    if a.__class__ is int or w1 == w2: return a
    return concat_l([(w2 - w1, 0), (w1, a)])

def sext(a, w1, w2):
    if w1 == w2: return a
    if a.__class__ is int:
        return a | (mask(w2) ^ mask(w1)) if a >> (w1 - 1) else a
    if a.op == 'concat' and a.a[0].__class__ is not T:
        v, n = a.a[0]
        return concat_l([(w2 - w1, mask(w2 - w1) if v >> (n - 1) else 0), (w1, a)])
    if a.op == 'sext': return sext(a.a[0], a.a[0].w, w2)
    if umax(a) < (1 << (w1 - 1)): return zext(a, w1, w2)
    if w1 == 1: return ite(a, mask(w2), 0, w2)
    return mk('sext', w2, (a,))

def trunc(a, w1, w2):
    if a.__class__ is int: return a & mask(w2)
    return extract(a, w2 - 1, 0)

def shl(w, a, n):
    if n.__class__ is int:
        if n == 0: return a
        if n >= w: return 0
        if a.__class__ is int: return (a << n) & mask(w)
        return concat_l([(w - n, extract(a, w - n - 1, 0)), (n, 0)])
    return _varshift('shl', w, a, n)

def lshr(w, a, n):
    if n.__class__ is int:
        if n == 0: return a
        if n >= w: return 0
        if a.__class__ is int: return a >> n
        return concat_l([(n, 0), (w - n, extract(a, w - 1, n))])
    return _varshift('lshr', w, a, n)

def ashr(w, a, n):
    if n.__class__ is int:
        if n == 0: return a
        if n >= w: n = w - 1
        if a.__class__ is int: return (tosigned(a, w) >> n) & mask(w)
        return sext(extract(a, w - 1, n), w - n, w)
    return _varshift('ashr', w, a, n)

def _varshift(op, w, a, n):
    if a.__class__ is int and a == 0: return 0
    if n.op == 'ite' and n.a[1].__class__ is int and n.a[2].__class__ is int:
        f = {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op]
        return ite(n.a[0], f(w, a, n.a[1]), f(w, a, n.a[2]), w)
    return mk(op, w, (a, n))

def fshl(w, a, b, n):
    if n.__class__ is int:
        n %= w
        if n == 0: return a
        return concat_l([(w - n, extract(a, w - n - 1, 0)), (n, extract(b, w - 1, w - n))])
    m = band(w, n, w - 1) if (w & (w - 1)) == 0 else urem(w, n, w)
    if a is b or (isint(a) and isint(b) and a == b):
        if isint(m): return fshl(w, a, b, m)
        return mk('rotl', w, (a, m)) if not isint(a) else bor(w, shl(w, a, m), _lshr_inv(w, a, m))
    return bor(w, shl(w, a, m), _lshr_inv(w, b, m))

def _lshr_inv(w, b, m):
    # b >> (w - m), zero when m == 0
    return lshr(w, lshr(w, b, 1), sub(w, w - 1, m))

def fshr(w, a, b, n):
    if n.__class__ is int:
        n %= w
        if n == 0: return b
        return fshl(w, a, b, w - n)
    m = band(w, n, w - 1) if (w & (w - 1)) == 0 else urem(w, n, w)
    if a is b:
        nm = band(w, sub(w, 0, m), w - 1)
        return fshl(w, a, a, nm)
    # (a << 1) << (w-1-m) | b >> m
    return bor(w, shl(w, shl(w, a, 1), sub(w, w - 1, m)), lshr(w, b, m))

def bswap(w, a):
    n = w // 8
    return concat_l([(8, extract(a, 8 * i + 7, 8 * i)) for i in range(n)])

def bitreverse(w, a):
    return concat_l([(1, extract(a, i, i)) for i in range(w)])

# ---------------------------------------------------------------- division
def udiv(w, a, b):
    if isint(a) and isint(b): return a // b if b else mask(w)
    if isint(b):
        if b == 1: return a
        if b and (b & (b - 1)) == 0: return lshr(w, a, b.bit_length() - 1)
        if b and umax(a) < b: return 0
    if a is b and False: return 1
    return mk('udiv', w, (a, b))

def urem(w, a, b):
    if isint(a) and isint(b): return a % b if b else a
    if isint(b):
        if b == 1: return 0
        if b and (b & (b - 1)) == 0: return band(w, a, b - 1)
        if b and umax(a) < b: return a
    return mk('urem', w, (a, b))

def sdiv(w, a, b):
    if isint(a) and isint(b):
        x, y = tosigned(a, w), tosigned(b, w)
        if y == 0: return mask(w) if x >= 0 else 1
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if isint(b) and b == 1: return a
    if umax(a) < (1 << (w - 1)) and umax(b) < (1 << (w - 1)): return udiv(w, a, b)
    return mk('sdiv', w, (a, b))

def srem(w, a, b):
    if isint(a) and isint(b):
        x, y = tosigned(a, w), tosigned(b, w)
        if y == 0: return a
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    if umax(a) < (1 << (w - 1)) and umax(b) < (1 << (w - 1)): return urem(w, a, b)
    return mk('srem', w, (a, b))

# ---------------------------------------------------------------- predicates
def eq(w, a, b):
    if a is b: return 1
    if a.__class__ is int:
        if b.__class__ is int: return 1 if a == b else 0
        a, b = b, a
    if w == 1:
        if b.__class__ is int: return a if b else bxor(1, a, 1)
        return bxor_list(1, 1, (a, b))
    if b.__class__ is int:
        op = a.op
        if b > umax(a): return 0
        if op == 'concat':
            r = 1; pos = w
            for p in a.a:
                if p.__class__ is T: pw = p.w; v = p
                else: pw = p[1]; v = p[0]
                pos -= pw
                r = band(1, r, eq(pw, v, (b >> pos) & mask(pw)))
                if r.__class__ is int and r == 0: return 0
            return r
        if op == 'ite':
            x, y = a.a[1], a.a[2]
            if x.__class__ is int or y.__class__ is int:
                return ite(a.a[0], eq(w, x, b), eq(w, y, b), 1)
        if op == 'add' and len(a.a[1]) == 1 and a.a[1][0][0] == 1:
            return eq(w, a.a[1][0][1], (b - a.a[0]) & mask(w))
        if op == 'add' and len(a.a[1]) == 1 and a.a[1][0][0] & 1:
            c = a.a[1][0][0]
            return eq(w, a.a[1][0][1], ((b - a.a[0]) * pow(c, -1, 1 << w)) & mask(w))
        if op == 'xor' and a.a[0]:
            return eq(w, bxor(w, a, a.a[0]), b ^ a.a[0])
        if op == 'xor' and b == 0 and len(a.a[1]) == 2 and a.a[0] == 0:
            return eq(w, a.a[1][0], a.a[1][1])
        if op == 'add' and b == 0 and len(a.a[1]) == 2 and a.a[0] == 0 and a.a[1][0][0] + a.a[1][1][0] == 1 << w and 1 in (a.a[1][0][0], a.a[1][1][0]):
            return eq(w, a.a[1][0][1], a.a[1][1][1])
        if op == 'i2bv' and a.a[0].lo is not None and a.a[0].lo >= 0 and a.a[0].hi is not None and a.a[0].hi < (1 << w):
            return ieq(a.a[0], b)
        if op == 'lut':
            tab = LUTLIST[a.a[0]]
            hits = [i for i, v in enumerate(tab) if v == b]
            if not hits: return 0
            if len(hits) == 1: return eq(_w(a.a[1]), a.a[1], hits[0])
        if op == 'rot': return eq(w, a.a[0], rotl(w, b, w - a.a[1]))
        if op == 'sext':
            iw = a.a[0].w
            lowv = b & mask(iw)
            if sext(lowv, iw, w) != b: return 0
            return eq(iw, a.a[0], lowv)
        return mk('eq', 1, (a, b))
    if a.op == 'rot' and (b.op == 'concat' or b.op == 'rot' and b.a[1] == a.a[1]): return eq(w, a.a[0], rotl(w, b, w - a.a[1]))
    if b.op == 'rot' and a.op == 'concat': return eq(w, rotl(w, a, w - b.a[1]), b.a[0])
    if a.op == 'concat' and b.op == 'concat':
        ca = tuple(p.w if p.__class__ is T else p[1] for p in a.a)
        cb = tuple(p.w if p.__class__ is T else p[1] for p in b.a)
        if ca == cb:
            r = 1
            for p, q, n in zip(a.a, b.a, ca):
                r = band(1, r, eq(n, p if p.__class__ is T else p[0], q if q.__class__ is T else q[0]))
                if r.__class__ is int and r == 0: return 0
            return r
    if a.op == 'i2bv' and b.op == 'i2bv':
        x, y = a.a[0], b.a[0]
        if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < (1 << w) and y.lo is not None and y.lo >= 0 and y.hi is not None and y.hi < (1 << w):
            return ieq(x, y)
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w: return eq(a.a[0].w, a.a[0], b.a[0])
    if a.op == 'add' or b.op == 'add':
        d = sub(w, a, b)
        if d.__class__ is int: return 1 if d == 0 else 0
        if d.op == 'add' and len(d.a[1]) == 2 and d.a[0] == 0 and d.a[1][0][0] == 1 and d.a[1][1][0] == mask(w):
            a, b = d.a[1][0][1], d.a[1][1][1]
        elif len(d.a[1] if d.op == 'add' else (1,)) == 1:
            return eq(w, d, 0)
    if a.id > b.id: a, b = b, a
    return mk('eq', 1, (a, b))

def _w(x): return x.w

def ne(w, a, b): return bxor(1, eq(w, a, b), 1)

def ult(w, a, b):
    if a.__class__ is int and b.__class__ is int: return 1 if a < b else 0
    if a is b: return 0
    if w == 1: return band(1, bxor(1, a, 1), b)
    if b.__class__ is int:
        if b == 0: return 0
        if umax(a) < b: return 1
        if b == 1: return eq(w, a, 0)
        if b == mask(w): return ne(w, a, b)
        if a.op == 'ite' and (isint(a.a[1]) or isint(a.a[2])): return ite(a.a[0], ult(w, a.a[1], b), ult(w, a.a[2], b), 1)
    else:
        if a.__class__ is int:
            if a >= umax(b): return 0
            if a == 0: return ne(w, b, 0)
            if b.op == 'ite' and (isint(b.a[1]) or isint(b.a[2])): return ite(b.a[0], ult(w, a, b.a[1]), ult(w, a, b.a[2]), 1)
    # strip common zero-extension
    za = _topzero(a, w); zb = _topzero(b, w)
    z = min(za, zb)
    if z > 0 and z < w:
        return ult(w - z, extract(a, w - z - 1, 0), extract(b, w - z - 1, 0))
    if a.__class__ is T and b.__class__ is T and a.op == 'i2bv' and b.op == 'i2bv' and _inrange(a) and _inrange(b):
        return ilt(a.a[0], b.a[0])
    return mk('ult', 1, (a, b))

def _inrange(t):
    x = t.a[0]
    return x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < (1 << t.w)

def _topzero(x, w):
    return w - umax(x).bit_length()

def ule(w, a, b): return bxor(1, ult(w, b, a), 1)
def ugt(w, a, b): return ult(w, b, a)
def uge(w, a, b): return bxor(1, ult(w, a, b), 1)

def slt(w, a, b):
    if a.__class__ is int and b.__class__ is int: return 1 if tosigned(a, w) < tosigned(b, w) else 0
    if a is b: return 0
    H = 1 << (w - 1)
    if umax(a) < H and umax(b) < H: return ult(w, a, b)
    if b.__class__ is int and b == 0: return extract(a, w - 1, w - 1)
    if a.__class__ is int and a == mask(w): return bxor(1, extract(b, w - 1, w - 1), 1)
    if a.__class__ is T and a.op == 'sext' and (isint(b) or b.op == 'sext'):
        iw = a.a[0].w
        if isint(b):
            lb = b & mask(iw)
            if sext(lb, iw, w) == b: return slt(iw, a.a[0], lb)
            return 1 if tosigned(b, w) > 0 else 0
        if b.a[0].w == iw: return slt(iw, a.a[0], b.a[0])
    return mk('slt', 1, (a, b))

def sle(w, a, b): return bxor(1, slt(w, b, a), 1)
def sgt(w, a, b): return slt(w, b, a)
def sge(w, a, b): return bxor(1, slt(w, a, b), 1)

def ite(c, a, b, w):
    if c.__class__ is int: return a if c else b
    if a is b: return a
    if a.__class__ is int and b.__class__ is int and a == b: return a
    if w == 0: return iite(c, a, b)
    if c.op == 'xor' and c.a[0] == 1 and len(c.a[1]) == 1: c = c.a[1][0]; a, b = b, a
    if w == 1:
        if a.__class__ is int:
            return bor(1, c, b) if a else band(1, bxor(1, c, 1), b)
        if b.__class__ is int:
            return bor(1, bxor(1, c, 1), a) if b else band(1, c, a)
        if a is c: return bor(1, c, b)
        if b is c: return band(1, c, a)
    if a.__class__ is T and a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.__class__ is T and b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b or (a.__class__ is int and b.__class__ is int and a == b): return a
    # ite(c, x, ite(d, x, y)) etc. are left to the solver
    if a.__class__ is T and b.__class__ is T and a.op == 'i2bv' and b.op == 'i2bv' and _inrange(a) and _inrange(b):
        return i2bv(iite(c, a.a[0], b.a[0]), w)
    if a.__class__ is T and b.__class__ is T and a.op == 'concat' and b.op == 'concat':
        ca = [p.w if p.__class__ is T else p[1] for p in a.a]
        cb = [p.w if p.__class__ is T else p[1] for p in b.a]
        if ca == cb:
            return concat_l([(n, ite(c, p if p.__class__ is T else p[0], q if q.__class__ is T else q[0], n)) for p, q, n in zip(a.a, b.a, ca)])
    if 1 < w <= 8 and a.__class__ is int and b.__class__ is int and c.op == 'xor' and 1 < len(c.a[1]) <= 16:
        # linear in the bits of the condition
        if c.a[0]: a, b = b, a
        return bxor_list(w, b, [ite(x, a ^ b, 0, w) for x in c.a[1]])
    # shared leading zeros
    z = min(_topzero(a, w), _topzero(b, w))
    if 0 < z < w:
        return concat_l([(z, 0), (w - z, ite(c, extract(a, w - z - 1, 0), extract(b, w - z - 1, 0), w - z))])
    # ite(x < 256^k, 0, byte_k(x)) and similar: the byte is 0 anyway
    r = _bytecut(c, a, b)
    if r is not None: return r
    return mk('ite', w, (c, a, b))

def _bytecut(c, a, b):
    """c implies a == b for a byte of an integer above the bound: drop the ite."""
    if a.__class__ is int and a == 0 and b.__class__ is T and c.op == 'ilt' and isint(c.a[1]):
        if b.op == 'extract' and b.a[0].op == 'i2bv' and b.a[0].a[0] is c.a[0]:
            if c.a[0].lo is not None and c.a[0].lo >= 0 and c.a[1] <= (1 << b.a[2]): return b
        if b.op == 'i2bv' and b.a[0].op == 'idiv' and b.a[0].a[0] is c.a[0] and isint(b.a[0].a[1]) and c.a[1] <= b.a[0].a[1] and c.a[0].lo is not None and c.a[0].lo >= 0:
            return b
    return None

def lut(table, idx, w):
    if isint(idx): return table[idx]
    f = table[0]
    if all(v == f for v in table): return f
    if len(table) == 1 << idx.w and all(v == i for i, v in enumerate(table)):
        return zext(idx, idx.w, w) if w >= idx.w else trunc(idx, idx.w, w)
    k = LUTS.get((table, w))
    if k is None:
        k = LUTS[(table, w)] = len(LUTLIST); LUTLIST.append(table)
    return mk('lut', w, (k, idx))

# overflow predicates
def uadd_o(w, a, b):
    if umax(a) + umax(b) <= mask(w): return 0
    return extract(add(w + 1, zext(a, w, w + 1), zext(b, w, w + 1)), w, w)
def usub_o(w, a, b): return ult(w, a, b)
def umul_o(w, a, b):
    if umax(a) * umax(b) <= mask(w): return 0
    if isint(a): a, b = b, a
    if isint(b): return ult(w, mask(w) // b, a)
    m = mul(2 * w, zext(a, w, 2 * w), zext(b, w, 2 * w))
    return ne(w, extract(m, 2 * w - 1, w), 0)
def _sov(w, f, a, b, n):
    m = f(n, sext(a, w, n), sext(b, w, n))
    lowx = sext(trunc(m, n, w), w, n)
    return ne(n, m, lowx)
def sadd_o(w, a, b):
    if isint(a) and isint(b):
        s = tosigned(a, w) + tosigned(b, w); return 0 if -(1 << (w-1)) <= s < 1 << (w-1) else 1
    H = 1 << (w - 1)
    if umax(a) + umax(b) < H: return 0
    return _sov(w, add, a, b, w + 1)
def ssub_o(w, a, b):
    if isint(a) and isint(b):
        s = tosigned(a, w) - tosigned(b, w); return 0 if -(1 << (w-1)) <= s < 1 << (w-1) else 1
    H = 1 << (w - 1)
    if umax(a) < H and umax(b) < H: return 0
    return _sov(w, sub, a, b, w + 1)
def smul_o(w, a, b):
    if isint(a) and isint(b):
        s = tosigned(a, w) * tosigned(b, w); return 0 if -(1 << (w-1)) <= s < 1 << (w-1) else 1
    if umax(a) * umax(b) < 1 << (w - 1): return 0
    return _sov(w, mul, a, b, 2 * w)

# ---------------------------------------------------------------- integers (w == 0)
def imk(op, a, lo, hi):
    if lo is not None and lo == hi: return lo
    return mk(op, 0, a, lo, hi)

def irange(x):
    if isint(x): return x, x
    return x.lo, x.hi

def inat(w, b):
    if isint(b): return b
    if b.op == 'i2bv':
        x = b.a[0]
        if _inrange(b): return x
        return imod(x, 1 << b.w)
    if b.op == 'concat':
        if b.a[0].__class__ is not T and b.a[0][0] == 0:
            n = b.a[0][1]
            return inat(w - n, extract(b, w - n - 1, 0))
        # extract of i2bv at the bottom?
        if b.a[-1].__class__ is not T and b.a[-1][0] == 0:
            n = b.a[-1][1]
            return imul(inat(w - n, extract(b, w - 1, n)), 1 << n)
    if b.op == 'ite': return iite(b.a[0], inat(w, b.a[1]), inat(w, b.a[2]))
    if b.op == 'extract' and b.a[0].op == 'i2bv':
        x = b.a[0].a[0]; hi, lo = b.a[1], b.a[2]
        return imod(idiv(x, 1 << lo), 1 << (hi - lo + 1))
    return imk('inat', (b,), 0, umax(b))

def _ip(x):
    """polynomial of x: dict monomial -> coef"""
    if isint(x): return {(): x} if x else {}
    if x.op == 'ipoly': return dict((m, c) for c, m in x.a)
    return {(x,): 1}

def _mkpoly(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items: return 0
    if len(items) == 1:
        m, c = items[0]
        if m == (): return c
        if len(m) == 1 and c == 1: return m[0]
    items.sort(key=lambda p: tuple(t.id for t in p[0]))
    lo = hi = 0
    for m, c in items:
        l = h = 1
        for t in m:
            if t.lo is None or t.hi is None or l is None: l = h = None; break
            cs = (l * t.lo, l * t.hi, h * t.lo, h * t.hi); l, h = min(cs), max(cs)
        # even powers are non-negative
        if l is None: lo = hi = None; break
        if l < 0 and len(m) % 2 == 0 and len(m) > 0 and all(m[2*i] is m[2*i+1] for i in range(len(m)//2)): l = 0
        if c >= 0: lo += c * l; hi += c * h
        else: lo += c * h; hi += c * l
    return imk('ipoly', tuple((c, m) for m, c in items), lo, hi)

def iadd(a, b):
    if isint(a) and isint(b): return a + b
    if isint(a) and a == 0: return b
    if isint(b) and b == 0: return a
    d = _ip(a)
    for m, c in _ip(b).items(): d[m] = d.get(m, 0) + c
    return _mkpoly(d)

def ineg(a): return imul(a, -1)
def isub(a, b): return iadd(a, ineg(b))

def imul(a, b):
    if isint(a) and isint(b): return a * b
    if isint(a): a, b = b, a
    if isint(b):
        if b == 0: return 0
        if b == 1: return a
        return _mkpoly({m: c * b for m, c in _ip(a).items()})
    # products of sums are expanded (they stay small in this code base)
    d = {}
    for m1, c1 in _ip(a).items():
        for m2, c2 in _ip(b).items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.id))
            d[m] = d.get(m, 0) + c1 * c2
    return _mkpoly(d)

def imod(x, m):
    """floor modulus for m > 0"""
    if isint(m):
        assert m > 0
        if isint(x): return x % m
        lo, hi = irange(x)
        if lo is not None and lo >= 0 and hi is not None and hi < m: return x
        if lo is not None and hi is not None and lo // m == hi // m: return isub(x, (lo // m) * m)
        if (m & (m - 1)) == 0:
            k = m.bit_length() - 1
            if x.op == 'inat': return inat(k, extract(x.a[0], k - 1, 0)) if k <= x.a[0].w else x
        if x.op == 'iite': return iite(x.a[0], imod(x.a[1], m), imod(x.a[2], m))
        if x.op == 'imod' and isint(x.a[1]) and x.a[1] % m == 0: return imod(x.a[0], m)
        if x.op == 'ipoly':
            d = {mo: c % m for c, mo in x.a}
            y = _mkpoly(d)
            if y is not x:
                return imod(y, m)
        return imk('imod', (x, m), 0, m - 1)
    lo, hi = irange(m)
    return imk('imod', (x, m), 0, hi - 1 if hi is not None else None)

def idiv(x, m):
    """floor division"""
    if isint(m):
        assert m > 0
        if isint(x): return x // m
        if m == 1: return x
        lo, hi = irange(x)
        if lo is not None and hi is not None and lo // m == hi // m: return lo // m
        if (m & (m - 1)) == 0 and x.op == 'inat':
            k = m.bit_length() - 1
            return inat(x.a[0].w - k, extract(x.a[0], x.a[0].w - 1, k))
        if x.op == 'iite': return iite(x.a[0], idiv(x.a[1], m), idiv(x.a[2], m))
        if x.op == 'idiv' and isint(x.a[1]): return idiv(x.a[0], x.a[1] * m)
        if x.op == 'ipoly' and all(c % m == 0 for c, mo in x.a):
            return _mkpoly({mo: c // m for c, mo in x.a})
        return imk('idiv', (x, m), lo // m if lo is not None else None, hi // m if hi is not None else None)
    lo, hi = irange(x)
    ml, mh = irange(m)
    if lo is not None and lo >= 0 and ml is not None and ml >= 0:
        return imk('idiv', (x, m), 0, hi)
    return imk('idiv', (x, m), None, None)

def iite(c, a, b):
    if isint(c): return a if c else b
    if a is b or (isint(a) and isint(b) and a == b): return a
    if c.op == 'xor' and c.a[0] == 1 and len(c.a[1]) == 1: c = c.a[1][0]; a, b = b, a
    if a.__class__ is T and a.op == 'iite' and a.a[0] is c: a = a.a[1]
    if b.__class__ is T and b.op == 'iite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    # ite(x = k, k, x) = x;  ite(x = 0, 0, x mod m) = x mod m
    if c.op == 'ieq' and isint(a) and b.__class__ is T:
        x, k = c.a if not isint(c.a[0]) else (c.a[1], c.a[0])
        if isint(k) and k == a and (b is x or (k == 0 and b.op == 'imod' and b.a[0] is x and isint(b.a[1]))): return b
    al, ah = irange(a); bl, bh = irange(b)
    # ite(x < m, x, x mod m) = x mod m for x >= 0
    if c.op == 'ilt' and b.__class__ is T and b.op == 'imod' and b.a[0] is c.a[0] and a is c.a[0] and isint(c.a[1]) and isint(b.a[1]) and c.a[1] <= b.a[1] and al is not None and al >= 0:
        return b
    return imk('iite', (c, a, b), None if al is None or bl is None else min(al, bl), None if ah is None or bh is None else max(ah, bh))

def ilt(a, b):
    if isint(a) and isint(b): return 1 if a < b else 0
    if a is b: return 0
    al, ah = irange(a); bl, bh = irange(b)
    if ah is not None and bl is not None and ah < bl: return 1
    if al is not None and bh is not None and al >= bh: return 0
    if a.__class__ is T and b.__class__ is T and a.op == 'inat' and b.op == 'inat':
        w = max(a.a[0].w, b.a[0].w)
        return ult(w, zext(a.a[0], a.a[0].w, w), zext(b.a[0], b.a[0].w, w))
    if a.__class__ is T and a.op == 'inat' and isint(b): return ult(a.a[0].w, a.a[0], b) if b <= mask(a.a[0].w) else 1
    if b.__class__ is T and b.op == 'inat' and isint(a): return ult(b.a[0].w, a, b.a[0]) if a >= 0 else 1
    if a.__class__ is T and a.op == 'iite' and (isint(a.a[1]) or isint(a.a[2])): return ite(a.a[0], ilt(a.a[1], b), ilt(a.a[2], b), 1)
    if b.__class__ is T and b.op == 'iite' and (isint(b.a[1]) or isint(b.a[2])): return ite(b.a[0], ilt(a, b.a[1]), ilt(a, b.a[2]), 1)
    if isint(b) and a.op == 'iite' and _isimple(a.a[1]) and _isimple(a.a[2]): return ite(a.a[0], ilt(a.a[1], b), ilt(a.a[2], b), 1)
    # constants to the right: x + k < c
    if isint(a) and not isint(b):
        return bxor(1, ilt(b, a + 1), 1)          # a < b  <=>  not (b < a+1)
    if isint(b) and a.op == 'ipoly':
        d = _ip(a)
        k = d.get((), 0)
        if k:
            d = dict(d); del d[()]
            return ilt(_mkpoly(d), b - k)
        if all(c < 0 for c in d.values()):
            # -x < b  <=>  x > -b  <=> not (x < -b+1)
            return bxor(1, ilt(_mkpoly({m: -c for m, c in d.items()}), -b + 1), 1)
    return mk('ilt', 1, (a, b))

def _isimple(x): return isint(x) or x.op == 'inat' or (x.op == 'ipoly' and len(x.a) == 1)

def ile(a, b): return bxor(1, ilt(b, a), 1)

def ieq(a, b):
    if isint(a) and isint(b): return 1 if a == b else 0
    if a is b: return 1
    if isint(a): a, b = b, a
    al, ah = irange(a); bl, bh = irange(b)
    if ah is not None and bl is not None and ah < bl: return 0
    if al is not None and bh is not None and al > bh: return 0
    if a.__class__ is T and b.__class__ is T and a.op == 'inat' and b.op == 'inat':
        w = max(a.a[0].w, b.a[0].w)
        return eq(w, zext(a.a[0], a.a[0].w, w), zext(b.a[0], b.a[0].w, w))
    if isint(b) and a.op == 'inat': return eq(a.a[0].w, a.a[0], b)
    if isint(b) and a.op == 'iite': return ite(a.a[0], ieq(a.a[1], b), ieq(a.a[2], b), 1)
    if not isint(b) and a.op == 'iite' and b.op == 'iite' and a.a[0] is b.a[0]: return ite(a.a[0], ieq(a.a[1], b.a[1]), ieq(a.a[2], b.a[2]), 1)
    d = isub(a, b)
    if isint(d): return 1 if d == 0 else 0
    if not isint(b):
        if a.id > b.id: a, b = b, a
    return mk('ieq', 1, (a, b))

def i2bv(x, w):
    if isint(x): return x & mask(w)
    if x.op == 'inat':
        b = x.a[0]
        return zext(b, b.w, w) if b.w <= w else extract(b, w - 1, 0)
    if x.op == 'iite': return ite(x.a[0], i2bv(x.a[1], w), i2bv(x.a[2], w), w) if (isint(x.a[1]) or isint(x.a[2]) or not (x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < 1 << w)) else mk('i2bv', w, (x,))
    if x.op == 'imod' and isint(x.a[1]) and x.a[1] % (1 << w) == 0: return i2bv(x.a[0], w)
    if x.lo is not None and x.lo >= 0 and x.hi is not None:
        bl = x.hi.bit_length()
        if bl < w: return concat_l([(w - bl, 0), (bl, i2bv(x, bl))]) if bl else 0
    return mk('i2bv', w, (x,))

def ipowmod(b, e, m):
    if isint(b) and isint(e) and isint(m): return pow(b, e, m)
    if isint(e):
        if e == 0: return imod(1, m)
        if e == 1: return imod(b, m)
        if e == 2: return imod(imul(b, b), m)
    return imk('ipowmod', (b, e, m), 0, m - 1 if isint(m) else irange(m)[1])

# ---------------------------------------------------------------- traversal / evaluation
def topo(roots):
    """all sub-terms of roots, children first"""
    seen = set(); out = []
    for r in roots:
        if r.__class__ is not T or r in seen: continue
        st = [(r, 0)]
        while st:
            t, ph = st.pop()
            if ph: out.append(t); continue
            if t in seen: continue
            seen.add(t)
            st.append((t, 1))
            for k in kids(t):
                if k not in seen: st.append((k, 0))
    return out

def evaluate(roots, env, memo=None):
    """env: var name -> int (missing = 0).  Returns list of ints."""
    memo = {} if memo is None else memo
    for t in topo([r for r in roots if r.__class__ is T and r not in memo]):
        if t not in memo: memo[t] = ev1(t, memo, env)
    return [r if r.__class__ is int else memo[r] for r in roots]

def ev1(t, m, env):
    op = t.op; w = t.w; a = t.a
    def g(x): return x if x.__class__ is int else m[x]
    if op == 'var': return env.get(a[0], 0) & mask(w) if w else env.get(a[0], 0)
    if op == 'add':
        s = a[0]
        for c, x in a[1]: s += c * m[x]
        return s & mask(w)
    if op == 'xor':
        s = a[0]
        for x in a[1]: s ^= m[x]
        return s
    if op == 'and':
        s = a[0]
        for x in a[1]: s &= m[x]
        return s
    if op == 'or':
        s = a[0]
        for x in a[1]: s |= m[x]
        return s
    if op == 'concat':
        s = 0
        for p in a:
            if p.__class__ is T: s = (s << p.w) | m[p]
            else: s = (s << p[1]) | p[0]
        return s
    if op == 'extract': return (m[a[0]] >> a[2]) & mask(w)
    if op == 'ite' or op == 'iite': return g(a[1]) if m[a[0]] else g(a[2])
    if op == 'mul':
        s = 1
        for x in a: s = s * m[x] & mask(w)
        return s
    if op == 'lut':
        tab = LUTLIST[a[0]]; i = m[a[1]]
        return tab[i] if i < len(tab) else 0
    if op == 'eq' or op == 'ieq': return 1 if g(a[0]) == g(a[1]) else 0
    if op == 'ult': return 1 if g(a[0]) < g(a[1]) else 0
    if op == 'ilt': return 1 if g(a[0]) < g(a[1]) else 0
    if op == 'slt':
        ww = a[0].w if a[0].__class__ is T else a[1].w
        return 1 if tosigned(g(a[0]), ww) < tosigned(g(a[1]), ww) else 0
    if op == 'rot': v = m[a[0]]; return ((v << a[1]) | (v >> (w - a[1]))) & mask(w)
    if op == 'sext': return sext(m[a[0]], a[0].w, w)
    if op == 'shl': n = g(a[1]); return 0 if n >= w else (g(a[0]) << n) & mask(w)
    if op == 'lshr': n = g(a[1]); return 0 if n >= w else g(a[0]) >> n
    if op == 'ashr': return ashr(w, g(a[0]), min(g(a[1]), w))
    if op == 'rotl': n = g(a[1]) % w; x = g(a[0]); return ((x << n) | (x >> (w - n))) & mask(w) if n else x
    if op == 'udiv': return udiv(w, g(a[0]), g(a[1]))
    if op == 'urem': return urem(w, g(a[0]), g(a[1]))
    if op == 'sdiv': return sdiv(w, g(a[0]), g(a[1]))
    if op == 'srem': return srem(w, g(a[0]), g(a[1]))
    if op == 'inat': return m[a[0]]
    if op == 'ipoly':
        s = 0
        for c, mo in a:
            p = c
            for x in mo: p *= m[x]
            s += p
        return s
    if op == 'imod':
        d = g(a[1]); return g(a[0]) % d if d else 0
    if op == 'idiv':
        d = g(a[1]); return g(a[0]) // d if d else 0
    if op == 'i2bv': return m[a[0]] & mask(w)
    if op == 'ipowmod':
        d = g(a[2]); return pow(g(a[0]), g(a[1]), d) if d else 0
    raise Exception('ev ' + op)

def free_vars(roots):
    return [t for t in topo(roots) if t.op == 'var']

sys.setrecursionlimit(200000)
