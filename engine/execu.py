"""Symbolic execution of compiled LLVM IR: states, memory, forking, merging, hooks."""
import os, glob, re, subprocess, random, sys, time, math
import term as tm, llir, smt
from term import T
from compile import Compiler, RETSEG, zero_of
from llir import size_of, store_size

M64 = (1 << 64) - 1

class PathEnd(Exception):
    def __init__(s, kind, info): s.kind = kind; s.info = info
class Unsupported(Exception): pass
class BoundExceeded(Exception): pass

class Obj:
    __slots__ = ('b', 'own', 'const', 'name')
    def __init__(s, b, own, const=False, name=''): s.b = b; s.own = own; s.const = const; s.name = name

class Frame:
    __slots__ = ('cf', 'R', 'pc', 'dst', 'al')
    def __init__(s, cf, R): s.cf = cf; s.R = R; s.pc = 0; s.dst = -1; s.al = None

UNMERGED = object()

class Token:
    __slots__ = ()

class State:
    __slots__ = ('eng', 'frames', 'mem', 'pc', 'tok', 'fork', 'fseg', 'models', 'nsym', 'pancond', 'ct', 'obs', 'steps', 'depthf', 'loopc', 'part', 'exact')
    def __init__(s, eng):
        s.eng = eng; s.frames = []; s.mem = {}; s.pc = (); s.tok = Token(); s.fork = None; s.fseg = 0
        s.models = eng.init_models(); s.nsym = 0; s.pancond = 0; s.ct = 0; s.obs = []; s.steps = 0; s.depthf = 0
        s.loopc = {}; s.part = (); s.exact = 0
    def clone(s):
        n = State.__new__(State)
        n.eng = s.eng; n.mem = dict(s.mem); n.pc = s.pc; n.fork = None; n.fseg = 0
        n.models = s.models; n.nsym = s.nsym; n.pancond = s.pancond; n.ct = s.ct; n.obs = list(s.obs); n.steps = s.steps
        n.depthf = s.depthf; n.loopc = dict(s.loopc); n.part = s.part; n.exact = s.exact
        s.tok = Token(); n.tok = Token()
        fr = []
        for f in s.frames:
            g = Frame(f.cf, list(f.R)); g.pc = f.pc; g.dst = f.dst; g.al = None if f.al is None else list(f.al)
            fr.append(g)
        n.frames = fr
        return n
    def call(s, lz, args, dst, nxt):
        cf = lz.cf
        if cf is None: cf = s.eng.prog.compile(lz)
        s.eng.prog.touched.add(cf.demangled)
        fr = s.frames[-1]
        fr.pc = nxt; fr.dst = dst
        h = s.eng.callhook
        R = args
        R.extend([0] * (cf.nreg - len(args)))
        s.frames.append(Frame(cf, R))
        if len(s.frames) > 400: raise Unsupported('call depth')
    def icall(s, p, args, dst, nxt):
        if p.__class__ is not int: raise Unsupported('symbolic function pointer')
        lz = s.eng.prog.fnaddr.get(p)
        if lz is None: raise Unsupported('icall to %x' % p)
        if lz.hook is not None:
            r = lz.hook(s, *args)
            fr = s.frames[-1]
            if dst >= 0: fr.R[dst] = r
            fr.pc = nxt
            # behave like call+return: push nothing
            return
        s.call(lz, args, dst, nxt)
    def ret(s, v):
        f = s.frames.pop()
        if f.al:
            mem = s.mem
            for o in f.al: mem.pop(o, None)
        if s.frames:
            g = s.frames[-1]
            if g.dst >= 0: g.R[g.dst] = v

class LazyFn:
    __slots__ = ('mod', 'name', 'cf', 'hook')
    def __init__(s, mod, name): s.mod = mod; s.name = name; s.cf = None; s.hook = None

class Program:
    """linked set of IR modules"""
    def __init__(self, paths, hooks, hookrx):
        self.mods = [llir.Module(p) for p in paths]
        self.gfun = {}; self.gglob = {}
        for m in self.mods:
            for n in m.funcs:
                if n not in m.local: self.gfun.setdefault(n, m)
            for n in m.globals:
                if n not in m.local and 'external' not in m.globals[n].split(' ')[:3]: self.gglob.setdefault(n, m)
        self.lazy = {}; self.addrs = {}; self.fnaddr = {}
        self.gmem = {}
        self.nextid = 16
        self.hooks = hooks; self.hookrx = hookrx; self.hookcache = {}
        self.ns = None
        self.used = {}
        self.touched = set()
    def newid(self):
        self.nextid += 1
        return self.nextid
    def demangle(self, n): return demangle(n)
    def hook_for(self, n):
        if n in self.hookcache: return self.hookcache[n]
        h = self.hooks.get(n[1:])
        if h is None:
            d = demangle(n[1:])
            for rx, f in self.hookrx:
                if rx.search(d): h = f; break
        self.hookcache[n] = h
        return h
    def resolve(self, mod, n):
        if n in mod.funcs: m = mod
        else:
            m = self.gfun.get(n)
            if m is None: return None
        k = (m, n)
        lz = self.lazy.get(k)
        if lz is None:
            lz = self.lazy[k] = LazyFn(m, n)
        return lz
    def compile(self, lz):
        f = llir.parse_func(lz.mod, lz.name)
        cf = Compiler(self, f).run()
        cf.demangled = demangle(lz.name[1:])
        lz.cf = cf
        self.used[cf.demangled] = cf.ninstr
        return cf
    def addr(self, mod, n):
        """address of a global or function"""
        if n in mod.globals and (n in mod.local or 'external' not in mod.globals[n].split(' ')[:3]): key = (mod, n) if n in mod.local else (None, n)
        elif n in mod.funcs: key = (mod, n) if n in mod.local else (None, n)
        else: key = (None, n)
        a = self.addrs.get(key)
        if a is not None: return a
        i = self.newid()
        a = self.addrs[key] = i << 32
        if n in mod.globals and (n in mod.local or 'external' not in mod.globals[n].split(' ')[:3]): self.init_global(i, mod, n)
        elif n in self.gglob: self.init_global(i, self.gglob[n], n)
        else:
            lz = self.resolve(mod, n)
            if lz is None:
                lz = LazyFn(None, n)
            lz.hook = self.hook_for(n)
            if lz.hook is None and lz.mod is None:
                lz.hook = lambda st, *a, _n=n: missing(st, _n)
            self.fnaddr[a] = lz
        return a
    def init_global(self, i, mod, n):
        r = mod.globals[n]
        m = re.match(r'((?:private|internal|dso_local|local_unnamed_addr|unnamed_addr|hidden|linkonce_odr|weak|constant|global|external|thread_local(?:\([a-z]*\))?|weak_odr|appending)\s+)*', r)
        head = m.group(0)
        p = llir.P(llir.tokens(r[m.end():]), mod)
        t = p.type()
        data = [0] * size_of(t)
        o = Obj(data, None, 'constant' in head, n)
        self.gmem[i] = o
        if p.peek() is not None and p.peek() != ',':
            self.fill(data, 0, t, p.value(t), mod)
    def fill(self, data, off, t, v, mod):
        k = v[0]
        if k == 'z': return
        if k == 'str':
            data[off:off+len(v[1])] = list(v[1]); return
        if k == 'agg':
            for j, (et, ev) in enumerate(v[1]):
                o, _ = llir.field_off(t, j)
                self.fill(data, off + o, et, ev, mod)
            return
        if k == 'ce':   # sub(ptrtoint a, ptrtoint b): relative table; keep as symbolic difference
            x = self.cv(v[2], mod) - self.cv(v[3], mod)
        else: x = self.cv(v, mod)
        n = store_size(t)
        data[off:off+n] = list((x & ((1 << 8*n) - 1)).to_bytes(n, 'little'))
    def cv(self, v, mod):
        if v[0] == 'c': return v[1]
        if v[0] == 'g': return self.addr(mod, v[1])
        if v[0] == 'ge': return self.cv(v[1], mod) + v[2]
        if v[0] == 'ce':
            a = self.cv(v[2], mod); b = self.cv(v[3], mod)
            return a - b if v[1] == 'sub' else a + b
        if v[0] == 'z': return 0
        raise Exception('cv %r' % (v,))

DEM = {}
_demproc = None
def demangle(n):
    global _demproc
    d = DEM.get(n)
    if d is None:
        if not n.startswith('_R') and not n.startswith('_Z'):
            d = n
        else:
            if _demproc is None or _demproc[0] != os.getpid():
                _demproc = (os.getpid(), subprocess.Popen(['c++filt'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True))
            pr = _demproc[1]
            pr.stdin.write(n + '\n'); pr.stdin.flush()
            d = re.sub(r'\[[0-9a-f]{6,16}\]', '', pr.stdout.readline().strip())
        DEM[n] = d
    return d

# ---------------------------------------------------------------- primitives
def missing(st, n): raise Unsupported('missing function ' + demangle(n[1:]))
def unsupported(st, s): raise Unsupported(s)
def path_end(st, kind, info): raise PathEnd(kind, info)

def getobj(st, i):
    o = st.mem.get(i)
    if o is None:
        o = st.eng.prog.gmem.get(i)
        if o is None: raise Unsupported('bad pointer: object %d' % i)
    return o

class Uninit(Exception): pass

def ld(st, p, n):
    if p.__class__ is int:
        o = st.mem.get(p >> 32)
        if o is None: o = getobj(st, p >> 32)
        off = p & 0xffffffff
        s = o.b[off:off+n]
        if len(s) != n: raise Unsupported('load out of bounds')
        try:
            return int.from_bytes(s, 'little')
        except (TypeError, ValueError):
            return ldslow(st, s, n)
    return ld_sym(st, p, n)

def ldslow(st, s, n):
    x = s[0]
    if x.__class__ is tuple:
        t, k = x
        if k == 0 and t.w == 8 * n:
            for j in range(1, n):
                y = s[j]
                if y.__class__ is not tuple or y[0] is not t or y[1] != j: break
            else: return t
    parts = []
    j = n - 1
    while j >= 0:
        y = s[j]
        if y.__class__ is tuple:
            t, k = y
            # extend downwards
            i = j
            while i > 0 and s[i-1].__class__ is tuple and s[i-1][0] is t and s[i-1][1] == k - (j - i) - 1: i -= 1
            lo = k - (j - i)
            parts.append((8 * (k - lo + 1), tm.extract(t, 8 * k + 7, 8 * lo)))
            j = i - 1
        elif y is None:
            st.eng.uninit += 1
            if all(z is None for z in s): return 0
            parts.append((8, 0)); j -= 1
        else:
            parts.append((8, y)); j -= 1
    return tm.concat_l(parts)

def tobytes(v, n):
    if v.__class__ is int: return list(v.to_bytes(n, 'little'))
    return [(v, k) for k in range(n)]

def wobj(st, i):
    o = st.mem.get(i)
    if o is None:
        g = getobj(st, i)
        if g.const: raise Unsupported('store to constant')
        o = Obj(list(g.b), st.tok); st.mem[i] = o
    elif o.own is not st.tok:
        o = Obj(list(o.b), st.tok, False, o.name); st.mem[i] = o
    return o

def sto(st, p, v, n):
    if p.__class__ is int:
        i = p >> 32
        o = st.mem.get(i)
        if o is None or o.own is not st.tok: o = wobj(st, i)
        off = p & 0xffffffff
        if off + n > len(o.b): raise Unsupported('store out of bounds')
        if v.__class__ is int: o.b[off:off+n] = v.to_bytes(n, 'little')
        else: o.b[off:off+n] = [(v, k) for k in range(n)]
        return
    sto_sym(st, p, v, n)

def split_ite(p):
    """a concatenation around a choice of two constants -> (cond, pointer, pointer)"""
    k = None
    for i, x in enumerate(p.a):
        if x.__class__ is T:
            if k is not None or x.op != 'ite' or x.w < 33: return None
            k = i
    if k is None: return None
    x = p.a[k]
    r = [x.a[0]]
    for v in x.a[1:]: r.append(tm.concat_l([(y.w, y) if y.__class__ is T else (y[1], y[0]) for y in p.a[:k]] + [(x.w, v)] + [(y[1], y[0]) for y in p.a[k+1:]]))
    return r if all(v.__class__ is not int or v >> 32 for v in r[1:]) and any(v.__class__ is int for v in r[1:]) else None

def ptr_cases(st, p, n, forstore=False):
    """list of (cond, concrete pointer), exhaustive under the path condition (in-bounds by Rust's checks)"""
    if p.__class__ is int:
        o = st.mem.get(p >> 32) or st.eng.prog.gmem.get(p >> 32)
        return [(1, p)] if o is not None and (p & 0xffffffff) + n <= len(o.b) else []
    if p.op == 'ite':
        c = p.a[0]
        r = []
        for g, q in ((c, p.a[1]), (tm.bxor(1, c, 1), p.a[2])):
            for c2, q2 in ptr_cases(st, q, n, forstore): r.append((tm.band(1, g, c2), q2))
        return r
    if p.op == 'concat':
        z = split_ite(p)
        if z:
            r = []
            for g, q in ((z[0], z[1]), (tm.bxor(1, z[0], 1), z[2])):
                for c2, q2 in ptr_cases(st, q, n, forstore): r.append((tm.band(1, g, c2), q2))
            return r
    if p.op == 'concat' and p.a[0].__class__ is not T:
        # constant high part: object id known
        hi, hn = p.a[0]
        if hn >= 32:
            base = (hi >> (hn - 32)) << 32
            return off_cases(st, base >> 32, tm.sub(64, p, base), n)
        # fallthrough
    if p.op == 'add':
        for c, x in p.a[1]:
            if x.op == 'ite' and x.a[1].__class__ is int and x.a[2].__class__ is int and c == 1 and (x.a[1] >> 32 or x.a[2] >> 32):
                rest = tm.sub(64, p, x)
                r = []
                for g, q in ((x.a[0], x.a[1]), (tm.bxor(1, x.a[0], 1), x.a[2])):
                    for c2, q2 in ptr_cases(st, tm.add(64, rest, q), n, forstore): r.append((tm.band(1, g, c2), q2))
                return r
        for c, x in p.a[1]:
            z = split_ite(x) if x.op == 'concat' and c == 1 else None
            if z:
                rest = tm.sub(64, p, x)
                r = []
                for g, q in ((z[0], z[1]), (tm.bxor(1, z[0], 1), z[2])):
                    for c2, q2 in ptr_cases(st, tm.add(64, rest, q), n, forstore): r.append((tm.band(1, g, c2), q2))
                return r
        k = p.a[0]
        i = (k + (1 << 31)) >> 32
        if i in st.mem or i in st.eng.prog.gmem:
            return off_cases(st, i, tm.sub(64, p, i << 32), n)
    q = st.eng.unique_value(st, p)
    if q is not None: return [(1, q)]
    raise Unsupported('symbolic pointer ' + tm.show(p, 3))

def off_cases(st, i, off, n):
    S = len(getobj(st, i).b)
    if off.__class__ is int: return [(1, (i << 32) + off)]
    # stride
    if off.op == 'add':
        k = off.a[0]; g = 0
        for c, x in off.a[1]:
            cc = c if c < (1 << 63) else (1 << 64) - c
            tz = 0
            if x.op == 'concat' and x.a[-1].__class__ is not T and x.a[-1][0] == 0: tz = x.a[-1][1]
            g = math.gcd(g, cc << tz)
    elif off.op == 'concat' and off.a[-1].__class__ is not T and off.a[-1][0] == 0:
        k = 0; g = 1 << off.a[-1][1]
    else: k = 0; g = 1
    hi = min(S - n, tm.umax(off))
    r = []
    o = k % g if g else k
    while o <= hi:
        r.append((tm.eq(64, off, o), (i << 32) + o)); o += g
    if len(r) > 4096: raise Unsupported('too many symbolic offsets')
    if not r: raise Unsupported('no in-bounds offset')
    return [(c, q) for c, q in r if not (c.__class__ is int and c == 0)]

def ct_addr(st, p):
    if st.ct and p.__class__ is T and p.sec: st.eng.ct_event(st, 'address', p)

def ld_sym(st, p, n):
    ct_addr(st, p)
    st.eng.symmem += 1
    cs = ptr_cases(st, p, n)
    if not cs: raise Unsupported("no valid pointer")
    vals = [(c, ld(st, q, n)) for c, q in cs]
    # table lookup?
    if len(vals) > 3 and all(v.__class__ is int for _, v in vals):
        idx = tab_index(p)
        if idx is not None:
            x, mul, base = idx
            tabl = {}
            for (c, q) in cs: tabl[q] = None
            b0 = base
            nidx = []
            bad = False
            byq = {q: v for (c, q), (_, v) in zip(cs, vals)}
            W = x.w
            top = min((1 << W) - 1, tm.umax(x))
            if top < 65536:
                t = tuple(byq.get((base + j * mul) & M64, 0) for j in range(1 << top.bit_length()))
                return tm.lut(t, tm.extract(x, top.bit_length() - 1, 0) if top.bit_length() < W else x, 8 * n)
    r = vals[-1][1]
    for c, v in reversed(vals[:-1]): r = tm.ite(c, v, r, 8 * n)
    return r

def tab_index(p):
    """p = base + mul * zext(x) -> (x, mul, base)"""
    if p.op == 'add' and len(p.a[1]) == 1:
        c, x = p.a[1][0]; base = p.a[0]
    elif p.op == 'concat': c, x, base = 1, p, 0
    else: return None
    if x.op == 'concat':
        parts = list(x.a)
        if parts[0].__class__ is not T:
            hv, hn = parts[0]
            base += c * (hv << (x.w - hn)); parts = parts[1:]
        if parts and parts[-1].__class__ is not T:
            if parts[-1][0] != 0: return None
            c <<= parts[-1][1]; parts = parts[:-1]
        if len(parts) == 1: return parts[0], c, base & M64
        if all(q.__class__ is T or True for q in parts):
            y = tm.concat_l([(q.w, q) if q.__class__ is T else (q[1], q[0]) for q in parts])
            return y, c, base & M64
    return None

def sto_sym(st, p, v, n):
    ct_addr(st, p)
    st.eng.symmem += 1
    cs = ptr_cases(st, p, n, True)
    for c, q in cs:
        old = ld(st, q, n)
        sto(st, q, tm.ite(c, v, old, 8 * n), n)

def ld_agg(st, p, t):
    if t[0] in 'ip':
        v = ld(st, p, store_size(t))
        return v if t[0] == 'p' else tm.trunc(v, 8 * store_size(t), t[1])
    return tuple(ld_agg(st, tm.add(64, p, llir.field_off(t, j)[0]), llir.field_off(t, j)[1]) for j in range(t[1] if t[0] in 'ax' else len(t[2])))
def sto_agg(st, p, v, t):
    if t[0] in 'ip':
        sto(st, p, tm.zext(v, t[1], 8 * store_size(t)) if t[0] == 'i' else v, store_size(t)); return
    for j, x in enumerate(v):
        o, ft = llir.field_off(t, j)
        sto_agg(st, tm.add(64, p, o), x, ft)
def ite_agg(c, a, b, t):
    if c.__class__ is int: return a if c else b
    if t[0] in 'ip': return tm.ite(c, a, b, t[1] if t[0] == 'i' else 64)
    fs = t[2] if t[0] == 's' else [t[2]] * t[1]
    return tuple(ite_agg(c, x, y, f) for x, y, f in zip(a, b, fs))
def insv(a, v, ix):
    l = list(a)
    if len(ix) == 1: l[ix[0]] = v
    else: l[ix[0]] = insv(l[ix[0]], v, ix[1:])
    return tuple(l)

def newobj(st, size, fill=None, name=''):
    i = st.eng.prog.newid()
    st.mem[i] = Obj([fill] * size, st.tok, False, name)
    return i << 32
def alloca(st, size):
    p = newobj(st, size, None, 'stack')
    f = st.frames[-1]
    if f.al is None: f.al = []
    f.al.append(p >> 32)
    return p

def concretize(st, v, what):
    if v.__class__ is int: return v
    r = st.eng.unique_value(st, v)
    if r is None: raise Unsupported('symbolic ' + what + ' ' + tm.show(v, 3))
    return r

def memcpy(st, d, s, n):
    if n.__class__ is not int:
        n2 = st.eng.unique_value(st, n)
        if n2 is None:
            memcpy_symlen(st, d, s, n); return
        n = n2
    if n == 0: return
    if d.__class__ is int and s.__class__ is int:
        so = getobj(st, s >> 32); off = s & 0xffffffff
        data = so.b[off:off+n]
        if len(data) != n: raise Unsupported('memcpy out of bounds')
        o = wobj(st, d >> 32); od = d & 0xffffffff
        if od + n > len(o.b): raise Unsupported('memcpy out of bounds')
        o.b[od:od+n] = data
        return
    data = [ld(st, tm.add(64, s, k), 1) for k in range(n)]
    if d.__class__ is int:
        for k in range(n): sto(st, d + k, data[k], 1)
        return
    ct_addr(st, d)
    cs = ptr_cases(st, d, n, True)
    for c, q in cs:
        for k in range(n):
            old = ld(st, q + k, 1)
            sto(st, q + k, tm.ite(c, data[k], old, 8), 1)

def memcpy_symlen(st, d, s, n):
    """bounded symbolic length: byte k is copied when k < n"""
    if st.ct and n.sec: st.eng.ct_event(st, 'address', n)
    top = tm.umax(n)
    lim = top
    for p in (d, s):
        if p.__class__ is int:
            lim = min(lim, len(getobj(st, p >> 32).b) - (p & 0xffffffff))
        else:
            m = max(len(getobj(st, q >> 32).b) - (q & 0xffffffff) for _, q in ptr_cases(st, p, 0))
            lim = min(lim, m)
    if lim > 4096: raise Unsupported('memcpy with symbolic length')
    data = []
    for k in range(lim):
        try: data.append(ld(st, tm.add(64, s, k), 1))
        except Unsupported: break
    for k in range(len(data)):
        c = tm.ult(64, k, n)
        if d.__class__ is int:
            old = ld(st, d + k, 1)
            sto(st, d + k, tm.ite(c, data[k], old, 8), 1)
        else:
            for g, q in ptr_cases(st, tm.add(64, d, k), 1, True):
                old = ld(st, q, 1)
                sto(st, q, tm.ite(tm.band(1, c, g), data[k], old, 8), 1)

def memset(st, d, v, n):
    n = concretize(st, n, 'memset length')
    if n == 0: return
    d = concretize(st, d, 'memset dest')
    o = wobj(st, d >> 32); off = d & 0xffffffff
    if off + n > len(o.b): raise Unsupported('memset out of bounds')
    o.b[off:off+n] = [v if v.__class__ is int else (v, 0)] * n

def ovf(w, a, b, f, fo):
    return (f(w, a, b), fo(w, a, b))
def umin(w, a, b): return tm.ite(tm.ult(w, a, b), a, b, w)
def umaxf(w, a, b): return tm.ite(tm.ult(w, a, b), b, a, w)
def smin(w, a, b): return tm.ite(tm.slt(w, a, b), a, b, w)
def smax(w, a, b): return tm.ite(tm.slt(w, a, b), b, a, w)
def sat_uadd(w, a, b): return tm.ite(tm.uadd_o(w, a, b), tm.mask(w), tm.add(w, a, b), w)
def sat_usub(w, a, b): return tm.ite(tm.ult(w, a, b), 0, tm.sub(w, a, b), w)
def ctpop(w, a):
    if a.__class__ is int: return bin(a).count('1')
    r = 0
    for i in range(w): r = tm.add(w, r, tm.zext(tm.extract(a, i, i), 1, w))
    return r
def ctlz(w, a):
    if a.__class__ is int: return w - a.bit_length()
    r = w
    for i in range(w): r = tm.ite(tm.extract(a, i, i), w - 1 - i, r, w)
    return r
def cttz(w, a):
    if a.__class__ is int: return (a & -a).bit_length() - 1 if a else w
    r = w
    for i in reversed(range(w)): r = tm.ite(tm.extract(a, i, i), i, r, w)
    return r
def absf(w, a): return tm.ite(tm.slt(w, a, 0), tm.sub(w, 0, a), a, w)
def ucmp(w, w2, a, b): return tm.ite(tm.ult(w2, a, b), tm.mask(w), tm.ite(tm.eq(w2, a, b), 0, 1, w), w)
def scmp(w, w2, a, b): return tm.ite(tm.slt(w2, a, b), tm.mask(w), tm.ite(tm.eq(w2, a, b), 0, 1, w), w)
def load_relative(st, p, off):
    v = ld(st, tm.add(64, p, off), 4)
    raise Unsupported('load.relative')
def switch_fork(v, w, tab, d):
    rest = 1; out = []
    groups = {}
    for k, s in tab.items(): groups.setdefault(s, []).append(k)
    dc = 1
    for s, ks in groups.items():
        c = 0
        for k in ks: c = tm.bor(1, c, tm.eq(w, v, k))
        dc = tm.band(1, dc, tm.bxor(1, c, 1))
        out.append((c, s))
    out.append((dc, d))
    return tuple(out)

def fop_fadd(a, b): return a + b
def fop_fsub(a, b): return a - b
def fop_fmul(a, b): return a * b
def fop_fdiv(a, b): return a / b
def fop_tofp(a):
    if a.__class__ is not int: raise Unsupported('symbolic float')
    return float(a)
def fop_toint(a): return int(a)
def fop_toint_sat(a, w, s): return max(0, min(int(a), (1 << w) - 1))
def fop_ceil(a): return float(math.ceil(a))
def fop_floor(a): return float(math.floor(a))
def fop_cmp(p, a, b):
    return 1 if {'olt': a < b, 'ogt': a > b, 'ole': a <= b, 'oge': a >= b, 'oeq': a == b, 'une': a != b, 'ult': a < b, 'ugt': a > b, 'uge': a >= b, 'ule': a <= b, 'one': a != b, 'ueq': a == b}[p] else 0

NS = dict(ld=ld, sto=sto, ld_agg=ld_agg, sto_agg=sto_agg, ite_agg=ite_agg, insv=insv, alloca=alloca, memcpy=memcpy, memset=memset,
    ovf=ovf, tumin=umin, tumax=umaxf, tsmin=smin, tsmax=smax, sat_uadd=sat_uadd, sat_usub=sat_usub, tctpop=ctpop, tctlz=ctlz, tcttz=cttz, tabs=absf,
    tucmp=ucmp, tscmp=scmp, load_relative=load_relative, switch_fork=switch_fork, missing=missing, unsupported=unsupported, path_end=path_end,
    tadd=tm.add, tsub=tm.sub, tmul=tm.mul, tand=tm.band, tor=tm.bor, txor=tm.bxor, tshl=tm.shl, tlshr=tm.lshr, tashr=tm.ashr, tudiv=tm.udiv, turem=tm.urem,
    tsdiv=tm.sdiv, tsrem=tm.srem, teq=tm.eq, tne=tm.ne, tult=tm.ult, tule=tm.ule, tugt=tm.ugt, tuge=tm.uge, tslt=tm.slt, tsle=tm.sle, tsgt=tm.sgt, tsge=tm.sge,
    ttrunc=tm.trunc, tzext=tm.zext, tsext=tm.sext, tite=tm.ite, tfshl=tm.fshl, tfshr=tm.fshr, tbswap=tm.bswap, tbitreverse=tm.bitreverse,
    tuadd_o=tm.uadd_o, tusub_o=tm.usub_o, tumul_o=tm.umul_o, tsadd_o=tm.sadd_o, tssub_o=tm.ssub_o, tsmul_o=tm.smul_o)
def tnot(c): return tm.bxor(1, c, 1)
NS['tnot'] = tnot
for k in list(globals()):
    if k.startswith('fop_'): NS[k] = globals()[k]

# ---------------------------------------------------------------- engine
NMODELS = 6

class Engine:
    def __init__(self, prog, params=(), seed=1, solver_timeout=60, deadline=None, maxforks=20000):
        self.prog = prog; prog.ns = NS
        self.params = list(params)
        self.rng = random.Random(seed)
        self.seed = seed
        self.envs = [dict() for _ in range(NMODELS)]
        self.memos = [dict() for _ in range(NMODELS)]
        self.inputs = {}          # name -> (seq, nbytes, secret)
        self.ended = []           # (kind, info, pc, pancond, models)
        self.obl = []             # results of obligations
        self.uninit = 0; self.symmem = 0; self.forks = 0; self.merges = 0; self.nomerge = 0; self.paths = 0
        self.callhook = None
        self.solver_timeout = solver_timeout
        self.deadline = deadline
        self.maxforks = maxforks
        self.ints = []            # handles of mathematical integers
        self.inth = {}
        self.steps = 0
        self.ctev = []
        self.violations = []
        self.inconclusive = []
        self.outputs = []; self.panwit = None; self.cands = []
        self.witness = None
        self.feascache = {}
        self.discharged = {'rewriting': 0, 'solver': 0}
        self.mode = {}
        self.seen_ob = set(); self.reached = set()

    # ---- models
    def init_models(self): return tuple(range(NMODELS))
    def addvar(self, name, w, nbytes, secret, seq, lo=None, hi=None):
        v = tm.var(name, w, secret)
        if name not in self.inputs:
            self.inputs[name] = (seq, nbytes, secret)
            for i in range(NMODELS):
                r = self.rng
                k = i % 6
                if k == 0: x = 0
                elif k == 1: x = (1 << w) - 1
                elif k == 2: x = r.getrandbits(w) & r.getrandbits(w) & r.getrandbits(w)
                elif k == 3: x = r.getrandbits(r.randint(1, w))
                else: x = r.getrandbits(w)
                if i >= 3 or k == 2: pass
                self.envs[i][name] = x
        return v
    def addint(self, name, v, nbytes, seq, hi):
        if name in self.inputs: return
        self.inputs[name] = (seq, nbytes, False)
        for i in range(NMODELS):
            k = i % 6
            self.envs[i][name] = 0 if k == 0 else hi if k == 1 else self.rng.randrange(0, min(hi, 300) + 1) if k == 2 else self.rng.randrange(0, hi + 1)
    def mval(self, i, t):
        if t.__class__ is int: return t
        m = self.memos[i]
        r = m.get(t)
        if r is None:
            env = self.envs[i]
            stack = [t]
            ev1 = tm.ev1; kids = tm.kids
            while stack:
                x = stack[-1]
                if x in m: stack.pop(); continue
                ok = True
                for k in kids(x):
                    if k not in m: stack.append(k); ok = False
                if ok: m[x] = ev1(x, m, env); stack.pop()
            r = m[t]
        return r
    def newmodel(self, env):
        full = {}
        for n in self.inputs: full[n] = env.get(n, 0)
        self.envs.append(full); self.memos.append({})
        return len(self.envs) - 1

    # ---- solver
    def slice_pc(self, pc, goal):
        """constraints transitively sharing variables with the goal"""
        want = set(v.id for v in self.fv(goal))
        items = [(c, frozenset(v.id for v in self.fv(c))) for c in pc]
        out = []; changed = True
        rest = items
        while changed:
            changed = False; nr = []
            for c, s in rest:
                if s & want: out.append(c); want |= s; changed = True
                else: nr.append((c, s))
            rest = nr
        return out
    fvcache = {}
    def fv(self, t):
        if t.__class__ is int: return ()
        r = self.fvcache.get(t)
        if r is None:
            r = self.fvcache[t] = tuple(tm.free_vars([t]))
        return r
    def solve(self, cons, timeout=None, want=True):
        """-> ('sat', env) / ('unsat',None) / ('unknown',None)"""
        import decide
        if self.deadline and time.time() > self.deadline: return 'unknown', None
        return decide.solve(cons, timeout or self.solver_timeout, self.seed)
    def sat(self, pc, extra, timeout=None):
        """is pc & extra satisfiable; pc itself is assumed satisfiable"""
        cons = self.slice_pc(pc, extra) + [extra]
        key = (tuple(sorted(c.id for c in cons if c.__class__ is T)))
        if key in self.feascache: return self.feascache[key]
        r = self.solve(cons, timeout)
        if r[0] != 'unknown': self.feascache[key] = r
        return r
    def feasible(self, st, c):
        """-> (bool, models) for pc & c"""
        if c.__class__ is int: return (bool(c), st.models)
        ms = [i for i in st.models if self.mval(i, c)]
        if ms: return True, tuple(ms)
        r, env = self.sat(st.pc, c, self.mode.get('feas', 30))
        if r == 'unsat': return False, ()
        if r == 'sat':
            # complete the model with one satisfying the unrelated constraints
            base = dict(self.envs[st.models[0]]) if st.models else {}
            base.update(env)
            i = self.newmodel(base)
            if all(self.mval(i, x) for x in st.pc) and self.mval(i, c): return True, (i,)
            return True, ()
        return True, ()
    def unique_value(self, st, v):
        """the only possible value of v under pc, or None"""
        if st.models:
            x = self.mval(st.models[0], v)
            for i in st.models[1:]:
                if self.mval(i, v) != x: return None
        else: return None
        ne = tm.ne(v.w, v, x)
        if ne.__class__ is int: return x if not ne else None
        r, env = self.sat(st.pc, ne)
        if r == 'unsat': return x
        return None

    # ---- running
    def call_entry(self, name):
        lz = None
        for m in self.prog.mods:
            if name in m.funcs: lz = self.prog.resolve(m, name)
        if lz is None: raise Exception('no entry ' + name)
        st = State(self)
        cf = lz.cf or self.prog.compile(lz)
        st.frames.append(Frame(cf, [0] * cf.nreg))
        fin = self.run(st, 0, RETSEG)
        for s in fin:
            self.paths += 1
            self.at_end(s)
        return fin

    def run(self, st0, sdepth, sseg):
        work = [st0]; arrived = []
        while work:
            st = work.pop()
            try:
                while True:
                    r = self.steps_until(st, sdepth, sseg)
                    if r is True: arrived.append(st); break
                    # fork
                    lst = self.do_fork(st)
                    if not lst: break
                    work.extend(lst[1:])
                    st = lst[0]
            except PathEnd as e:
                self.path_ended(st, e)
            except BoundExceeded as e:
                self.inconclusive.append(('bound', str(e)))
        return arrived

    def steps_until(self, st, sdepth, sseg):
        frames = st.frames
        if len(frames) == sdepth and (sseg == RETSEG or frames[-1].pc == sseg): return True
        fr = frames[-1]; R = fr.R; segs = fr.cf.segs; pc = fr.pc
        n = 0
        while True:
            r = segs[pc](st, R)
            n += 1
            if r >= 0:
                pc = r
                if r == sseg and len(frames) == sdepth:
                    fr.pc = r; self.steps += n; return True
            elif r == -1:
                if len(frames) <= sdepth and sseg == RETSEG: self.steps += n; return True
                fr = frames[-1]; R = fr.R; segs = fr.cf.segs; pc = fr.pc
            else:
                fr.pc = pc
                self.steps += n
                return False

    def do_fork(self, st):
        cases = st.fork; st.fork = None
        fr = st.frames[-1]
        if self.deadline and time.time() > self.deadline: raise BoundExceeded('time limit')
        if st.ct:
            for c, s in cases:
                if c.__class__ is T and c.sec: self.ct_event(st, 'branch', c); break
        feas = []
        for c, s in cases:
            ok, ms = self.feasible(st, c)
            if ok: feas.append((c, s, ms))
        if not feas: raise PathEnd('infeasible', '')
        if len(feas) == 1:
            fr.pc = feas[0][1]
            return [st]
        self.forks += 1
        if self.forks > self.maxforks: raise BoundExceeded('fork limit')
        if st.depthf > 600: raise BoundExceeded('nested forks (unwinding bound)')
        ip = fr.cf.ip[st.fseg]
        d = len(st.frames)
        if ip == RETSEG: sd, ss = d - 1, RETSEG
        else: sd, ss = d, ip
        if sd == 0: sd, ss = 0, RETSEG
        arr = []
        base = st.pc
        for k, (c, s, ms) in enumerate(feas):
            ch = st.clone() if k < len(feas) - 1 else st
            if k == len(feas) - 1: ch.tok = Token()
            ch.pc = base + (c,)
            ch.models = ms
            ch.frames[-1].pc = s
            ch.depthf = st.depthf + 1
            for x in self.run(ch, sd, ss):
                x.depthf -= 1
                arr.append((c, x))
        if not arr: return []
        return self.merge_all(arr, base, feas)

    def merge_all(self, arr, base, feas):
        nb = len(base)
        cur = None
        out = []
        # group by fork case first
        groups = []
        for c, x in arr: 
            extra = x.pc[nb:]
            groups.append((c, x, extra))
        ncase = {}
        for c, x, e in groups: ncase[c] = ncase.get(c, 0) + 1
        merged = None; mguard = None
        for c, x, e in groups:
            g = c
            if ncase[c] > 1:
                g = 1
                for t in e: g = tm.band(1, g, t)
            if merged is None: merged = x; mguard = g; continue
            # value selected: x if g else merged.  Prefer the simpler guard
            m = self.merge(merged, x, mguard, g)
            if m is None:
                self.nomerge += 1
                out.append(x)
            else:
                merged = m; self.merges += 1; mguard = tm.bor(1, mguard, g)
        total = len(groups) - len(out)
        if total > 0 and merged is not None:
            if total == 1 and len(groups) == 1:
                pass                                  # keeps its own pc
            elif not out:
                # path condition: base and, per arrived branch, (guard -> rest); cases that died are excluded
                pcs = []
                allc = 0
                for c, x, e in groups:
                    if ncase[c] > 1:
                        continue
                    for t in e[1:]:
                        pcs.append(tm.bor(1, tm.bxor(1, c, 1), t))
                # multi-arrival cases: disjunction
                multi = {}
                for c, x, e in groups:
                    if ncase[c] > 1:
                        g = 1
                        for t in e[1:]: g = tm.band(1, g, t)
                        multi[c] = tm.bor(1, multi.get(c, 0), g)
                for c, g in multi.items(): pcs.append(tm.bor(1, tm.bxor(1, c, 1), g))
                arrived_cases = set(c for c, _, _ in groups)
                for c, s, ms in feas:
                    if c not in arrived_cases: pcs.append(tm.bxor(1, c, 1))
                seen = set(base)
                np = list(base)
                for t in pcs:
                    if t.__class__ is int:
                        continue
                    if t not in seen: seen.add(t); np.append(t)
                merged.pc = tuple(np)
            else:
                g = mguard
                merged.pc = base + ((g,) if g.__class__ is T else ())
        return ([merged] if merged is not None else []) + out

    def merge(self, A, B, gA, gB):
        """merge B into A.  Returns merged state (A) or None"""
        if len(A.frames) != len(B.frames): return None
        # guard choice: cond true -> A
        if gA.__class__ is T: c = gA
        else: c = tm.bxor(1, gB, 1)
        if A.nsym != B.nsym or A.ct != B.ct or A.part != B.part or A.exact != B.exact: return None
        if A.frames:
            fa = A.frames[-1]; fb = B.frames[-1]
            if fa.cf is not fb.cf or fa.pc != fb.pc: return None
            live = fa.cf.live.get(fa.pc)
            ra, rb = fa.R, fb.R
            idx = live if live is not None else range(len(ra))
            new = []
            for i in idx:
                x, y = ra[i], rb[i]
                if x is y or (x.__class__ is int and y.__class__ is int and x == y): continue
                v = self.mergeval(c, x, y, fa.cf.rty[i])
                if v is UNMERGED: return None
                new.append((i, v))
        else: new = []
        # memory
        ma, mb = A.mem, B.mem
        upd = []
        if ma is not mb:
            for i, oa in ma.items():
                ob = mb.get(i)
                if ob is None or ob is oa or ob.b is oa.b: continue
                if len(oa.b) != len(ob.b): return None
                if oa.b == ob.b: continue
                nb = self.mergebytes(c, oa.b, ob.b)
                if nb is None: return None
                upd.append((i, nb))
        # commit
        for i, v in new: A.frames[-1].R[i] = v
        A.tok = Token()
        for i, nb in upd: A.mem[i] = Obj(nb, A.tok)
        for i, ob in mb.items():
            if i not in ma: A.mem[i] = ob
        # frames' allocas
        for fa, fb in zip(A.frames, B.frames):
            if fb.al:
                s = set(fa.al or ()); fa.al = list(fa.al or ()) + [x for x in fb.al if x not in s]
        A.models = tuple(sorted(set(A.models) | set(B.models)))[-12:]
        A.pancond = A.pancond if A.pancond is B.pancond or A.pancond == B.pancond else tm.ite(c, A.pancond, B.pancond, 1)
        if A.obs != B.obs:
            n = min(len(A.obs), len(B.obs)); k = 0
            while k < n and A.obs[k] == B.obs[k]: k += 1
            A.obs = A.obs + B.obs[k:]
        return A

    def mergeval(self, c, x, y, t):
        if x is None or y is None: return UNMERGED
        k = t[0]
        if k in 'ip':
            w = t[1] if k == 'i' else 64
            if x.__class__ is T and x.w != w or y.__class__ is T and y.w != w: return UNMERGED
            return tm.ite(c, x, y, w)
        if k == 's' or k == 'a':
            if x.__class__ is not tuple or y.__class__ is not tuple: return UNMERGED
            fs = t[2] if k == 's' else [t[2]] * t[1]
            r = []
            for p, q, f in zip(x, y, fs):
                if p is q or (isinstance(p, int) and isinstance(q, int) and p == q): r.append(p); continue
                v = self.mergeval(c, p, q, f)
                if v is UNMERGED: return v
                r.append(v)
            return tuple(r)
        return x if x == y else UNMERGED

    def mergebytes(self, c, a, b):
        out = list(a); n = len(a); i = 0
        while i < n:
            x, y = a[i], b[i]
            if x == y if (x.__class__ is int and y.__class__ is int) else (x is y or (x.__class__ is tuple and y.__class__ is tuple and x[0] is y[0] and x[1] == y[1])):
                i += 1; continue
            if x is None or y is None:
                # uninitialised on one side: reading it there would be undefined behaviour, so the other side's value stands
                out[i] = y if x is None else x; i += 1; continue
            # run length
            L = 1
            start = i
            def run(s, j):
                e = s[j]
                if e.__class__ is not tuple: return j, 0
                t, k = e
                st = j - k
                ln = t.w // 8
                if st < 0 or st + ln > n: return None, 0
                for q in range(ln):
                    z = s[st + q]
                    if z.__class__ is not tuple or z[0] is not t or z[1] != q: return None, 0
                return st, ln
            sa, la = run(a, i); sb, lb = run(b, i)
            if la and (not lb or la >= lb) and sa is not None: start, L = sa, la
            elif lb and sb is not None: start, L = sb, lb
            elif x.__class__ is int and y.__class__ is int:
                # align to 8 when everything concrete
                s8 = i & ~7
                if s8 + 8 <= n and all(z.__class__ is int for z in a[s8:s8+8]) and all(z.__class__ is int for z in b[s8:s8+8]): start, L = s8, 8
            if start < i and start + L <= i: start, L = i, 1
            if start < 0 or start + L > n: start, L = i, 1
            sl_a = a[start:start+L]; sl_b = b[start:start+L]
            if any(z is None for z in sl_a) or any(z is None for z in sl_b):
                start, L = i, 1; sl_a = [x]; sl_b = [y]
            va = self.cat(sl_a); vb = self.cat(sl_b)
            v = tm.ite(c, va, vb, 8 * L)
            if v.__class__ is int: out[start:start+L] = list(v.to_bytes(L, 'little'))
            else: out[start:start+L] = [(v, k) for k in range(L)]
            i = start + L
        return out
    def cat(self, s):
        try: return int.from_bytes(s, 'little')
        except (TypeError, ValueError): return ldslow(None, s, len(s))

    # ---- ends and obligations
    def path_ended(self, st, e):
        self.paths += 1
        if e.kind == 'infeasible' or e.kind == 'assume': return
        if e.kind == 'exit':
            return
        info = e.info
        self.ended.append((e.kind, info))
        # a panic is allowed only when pancond holds
        allowed = st.pancond
        if self.panwit is None and st.models: self.panwit = dict(self.envs[st.models[0]])
        self.obligation(st, allowed, 'no-panic:%s' % (info or e.kind), kind='panic')

    def at_end(self, st):
        if st.pancond.__class__ is T or st.pancond:
            self.obligation(st, tm.bxor(1, st.pancond, 1), 'must-panic', kind='mustpanic')
        if self.witness is None and st.models:
            self.witness = dict(self.envs[st.models[0]])

    def obligation(self, st, goal, name, kind='check'):
        """pc => goal, decided by the solver"""
        import decide
        t0 = time.time()
        if goal.__class__ is int and goal == 1:
            self.discharged['rewriting'] += 1
            self.obl.append((name, kind, 'rewriting', 0.0)); return True
        neg = tm.bxor(1, goal, 1)
        if st.models and not (goal.__class__ is int):
            for i in st.models:
                if self.mval(i, neg):
                    # candidate model from simulation; the solver confirms it on the original constraints
                    env = self.envs[i]
                    ok = decide.confirm(list(st.pc) + [neg], env)
                    if ok:
                        self.violate(st, name, kind, env); return False
        if goal.__class__ is int:
            # goal is false: violation iff pc satisfiable
            if st.models:
                env = self.envs[st.models[0]]
                if decide.confirm(list(st.pc), env):
                    self.violate(st, name, kind, env); return False
            r, env = self.solve(list(st.pc), None)
        else:
            cons = self.slice_pc(st.pc, neg) + [neg]
            if self.deadline and time.time() > self.deadline: r, env = 'unknown', None
            else: r, env = decide.prove(cons, self.solver_timeout, self.seed, self)
        dt = time.time() - t0
        if r == 'unsat':
            self.discharged['solver'] += 1
            self.obl.append((name, kind, 'unsat', dt)); return True
        if r == 'sat':
            # complete for the sliced-away constraints
            base = dict(self.envs[st.models[0]]) if st.models else {}
            base.update(env)
            full = {n: base.get(n, 0) for n in self.inputs}
            if not decide.confirm(list(st.pc) + [neg], full):
                r2, env2 = self.solve(list(st.pc) + [neg], None)
                if r2 == 'sat': full = {n: env2.get(n, 0) for n in self.inputs}
                elif r2 == 'unsat':
                    self.obl.append((name, kind, 'unsat', dt)); self.discharged['solver'] += 1; return True
            self.violate(st, name, kind, full); return False
        self.inconclusive.append((name, kind)); self.obl.append((name, kind, 'unknown', dt))
        return None

    def obligation_eq(self, st, pairs, name):
        goal = 1; parts = []
        i = 0; n = len(pairs)
        # group bytes into the words they came from
        for x, y in pairs:
            e = tm.eq(8, x, y)
            if not (e.__class__ is int and e == 1): parts.append(e)
        if not parts:
            self.discharged['rewriting'] += 1; self.obl.append((name, 'check', 'rewriting', 0.0)); return True
        for e in parts: goal = tm.band(1, goal, e)
        return self.obligation(st, goal, name)

    def violate(self, st, name, kind, env):
        self.violations.append(dict(name=name, kind=kind, inputs=self.input_list(env)))
        self.obl.append((name, kind, 'sat', 0.0))
    def input_list(self, env):
        l = sorted((seq, nb, env.get(n, 0)) for n, (seq, nb, sec) in self.inputs.items())
        # merge pieces by seq
        out = []
        for seq, nb, v in l: out.append([seq, nb, '%x' % v])
        return out

    def ct_event(self, st, what, t):
        """2-safety: can t differ for two secrets under equal public inputs?"""
        key = (what, t)
        if key in self.seen_ob: return
        self.seen_ob.add(key)
        import decide
        pc = self.slice_pc(st.pc, t)
        sub = {}
        t2 = decide.rename(t, sub); pc2 = [decide.rename(c, sub) for c in pc]
        goal = tm.ne(t.w, t, t2)
        fr = st.frames[-1].cf.demangled
        r, env = ('unsat', None) if goal.__class__ is int and goal == 0 else decide.solve(pc + pc2 + [goal], self.solver_timeout, self.seed)
        if r == 'unsat':
            self.obl.append(('ct-%s' % what, 'ct', 'unsat', 0.0)); self.discharged['solver'] += 1
        elif r == 'sat':
            base = dict(self.envs[st.models[0]]) if st.models else {}
            e1 = dict(base); e1.update({k: v for k, v in env.items() if not k.endswith("'")})
            e2 = dict(e1); e2.update({k[:-1]: v for k, v in env.items() if k.endswith("'")})
            self.violations.append(dict(name='ct-%s in %s' % (what, fr), kind='ct', inputs=self.input_list(e1), inputs2=self.input_list(e2)))
            self.obl.append(('ct-%s' % what, 'ct', 'sat', 0.0))
        else:
            self.inconclusive.append(('ct-%s in %s' % (what, fr), 'ct'))
