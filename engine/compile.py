"""Compilation of LLVM IR functions to Python segment functions over (State, registers)."""
import llir, term as tm
from llir import size_of, store_size, field_off, align_of

class CF:
    __slots__ = ('name', 'segs', 'nreg', 'nparam', 'ip', 'live', 'blockseg', 'src', 'demangled', 'ninstr', 'rty')

RETSEG = -5

def bits(t):
    k = t[0]
    if k == 'i': return t[1]
    if k == 'p': return 64
    raise Exception('bits %r' % (t,))

def result_type(x):
    op = x.op
    if op in ('icmp', 'fcmp'): return ('i', 1)
    if op in ('gep', 'alloca'): return ('p',)
    if op == 'extractvalue':
        t = x.ty
        for i in x.x: t = field_off(t, i)[1]
        return t
    return x.ty

class Compiler:
    def __init__(self, prog, f):
        self.prog = prog; self.f = f; self.mod = f.mod
        self.reg = {}
        self.consts = {}

    def run(self):
        f = self.f
        rty = []
        for p, t in zip(f.params, f.ptypes): self.reg[p] = len(self.reg); rty.append(t)
        for bn, ins in f.blocks:
            for x in ins:
                if x.dst is not None: self.reg[x.dst] = len(self.reg); rty.append(result_type(x))
        # split blocks into segments at non-inline calls
        nb = len(f.blocks)
        self.segsrc = []   # list of lists of lines
        self.blockseg = {}
        segs = []          # (block index, start, end)
        for bi, (bn, ins) in enumerate(f.blocks):
            self.blockseg[bn] = len(segs)
            start = 0
            for k, x in enumerate(ins):
                if x.op == 'call' and self.is_split(x):
                    segs.append((bi, start, k + 1)); start = k + 1
            segs.append((bi, start, len(ins)))
        nseg = len(segs)
        # uses across segments
        defseg = {}
        for p in f.params: defseg[p] = -1
        for si, (bi, s, e) in enumerate(segs):
            for k in range(s, e):
                x = f.blocks[bi][1][k]
                if x.dst is not None: defseg[x.dst] = si if x.op != 'phi' else -1
        self.outside = set()
        def use(v, si):
            if v[0] == 'r':
                if defseg.get(v[1], -1) != si: self.outside.add(v[1])
            elif v[0] == 'agg':
                for _, y in v[1]: use(y, si)
        for si, (bi, s, e) in enumerate(segs):
            ins = f.blocks[bi][1]
            for k in range(s, e):
                x = ins[k]
                if x.op == 'phi':
                    for v in x.a: use(v, -99)
                    continue
                for v in (x.a or []):
                    if x.op == 'call': v = v[1]
                    use(v, si)
                if x.op == 'call': use(x.x, si)
                if x.op == 'gep':
                    for _, v in x.x: use(v, si)
                if x.op == 'call' and k == e - 1 and self.is_split(x): 
                    if x.dst: self.outside.add(x.dst)
        self.defseg = defseg
        # CFG, liveness, ipdom
        succ = []
        for bn, ins in f.blocks:
            t = ins[-1]
            if t.op in ('br', 'condbr'): s = list(t.x)
            elif t.op == 'switch': s = [t.x[0]] + [b for _, b in t.x[1]]
            elif t.op == 'invoke': s = [t.x[1]]
            else: s = []
            succ.append([f.bidx[b] for b in s])
        self.succ = succ
        self.rets = [i for i, (bn, ins) in enumerate(f.blocks) if ins[-1].op == 'ret']
        # generate
        out = []
        self.edges = {}
        self.nseg = nseg
        self.extra = []
        lines_all = []
        for si, (bi, s, e) in enumerate(segs):
            self.si = si; self.bi = bi
            L = []
            ins = f.blocks[bi][1]
            for k in range(s, e):
                x = ins[k]
                last = (k == e - 1)
                self.emit(x, L, si, last, si + 1)
            lines_all.append(L)
        # edge segments
        while self.extra:
            L = self.extra.pop(0)
            lines_all.append(L)
        src = []
        for i, L in enumerate(lines_all):
            src.append('def s%d(st,R):' % i)
            for l in (L or ['pass']): src.append(' ' + l)
        src.append('SEGS=[%s]' % ','.join('s%d' % i for i in range(len(lines_all))))
        text = '\n'.join(src)
        ns = dict(self.prog.ns); ns.update(self.consts)
        exec(compile(text, f.name[:60], 'exec'), ns)
        cf = CF()
        cf.name = f.name; cf.segs = ns['SEGS']; cf.nreg = len(self.reg); cf.nparam = len(f.params)
        cf.rty = rty
        cf.blockseg = self.blockseg; cf.src = text
        cf.ninstr = sum(len(i) for _, i in f.blocks)
        self.ipdoms()
        cf.ip = {}
        for bi, (bn, ins) in enumerate(f.blocks):
            # segment in which the terminator sits = last segment of the block
            last = max(si for si, sg in enumerate(segs) if sg[0] == bi)
            j = self.ipd[bi]
            cf.ip[last] = RETSEG if j is None or j == nb else self.blockseg[f.blocks[j][0]]
        cf.live = self.liveness()
        return cf

    # ---- analysis
    def ipdoms(self):
        f = self.f; n = len(f.blocks); EXIT = n
        preds = [[] for _ in range(n + 1)]
        # blocks which can reach a ret
        can = set(self.rets); work = list(self.rets)
        P = [[] for _ in range(n)]
        for i, s in enumerate(self.succ):
            for j in s: P[j].append(i)
        while work:
            j = work.pop()
            for i in P[j]:
                if i not in can: can.add(i); work.append(i)
        # iterative post-dominator sets with bitmasks
        full = (1 << (n + 1)) - 1
        pd = [full] * (n + 1); pd[EXIT] = 1 << EXIT
        order = list(reversed(range(n)))
        changed = True
        S = [[j for j in self.succ[i] if j in can] for i in range(n)]
        for i in self.rets: S[i] = [EXIT]
        while changed:
            changed = False
            for i in order:
                if i not in can: continue
                x = full
                for j in S[i]: x &= pd[j]
                x |= 1 << i
                if x != pd[i]: pd[i] = x; changed = True
        self.ipd = [None] * n
        for i in range(n):
            if i not in can: continue
            c = pd[i] & ~(1 << i)
            # immediate: the candidate whose own pd set equals c
            best = None
            b = c; 
            while b:
                low = b & -b; j = low.bit_length() - 1; b ^= low
                if pd[j] == c: best = j; break
            self.ipd[i] = best

    def liveness(self):
        f = self.f; n = len(f.blocks)
        use = [set() for _ in range(n)]; de = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]   # uses at end of pred block
        def u(bi, v):
            if v[0] == 'r':
                if v[1] not in de[bi]: use[bi].add(v[1])
            elif v[0] == 'agg':
                for _, y in v[1]: u(bi, y)
        for bi, (bn, ins) in enumerate(f.blocks):
            for x in ins:
                if x.op == 'phi':
                    de[bi].add(x.dst)
                    for v, b in zip(x.a, x.x):
                        if v[0] == 'r': phiuse[f.bidx[b]].add(v[1])
                    continue
                for v in (x.a or []):
                    if x.op == 'call': v = v[1]
                    u(bi, v)
                if x.op == 'call': u(bi, x.x)
                if x.op == 'gep':
                    for _, v in x.x: u(bi, v)
                if x.dst is not None: de[bi].add(x.dst)
        phidefs = [set(x.dst for x in ins if x.op == 'phi') for bn, ins in f.blocks]
        livein = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for bi in reversed(range(n)):
                o = set(phiuse[bi])
                for j in self.succ[bi]: o |= livein[j] - phidefs[j]
                x = use[bi] | (o - de[bi]) | phidefs[bi]
                if x != livein[bi]: livein[bi] = x; changed = True
        res = {}
        for bi, (bn, ins) in enumerate(f.blocks):
            res[self.blockseg[bn]] = tuple(sorted(self.reg[v] for v in livein[bi]))
        return res

    # ---- calls
    def is_split(self, x):
        c = x.x
        if c[0] == 'r': return True
        if c[0] != 'g': return True
        n = c[1]
        if n.startswith('@llvm.'): return False
        if self.prog.hook_for(n) is not None: return False
        return True

    # ---- values
    def v(self, v, si=None):
        k = v[0]
        if k == 'r':
            n = v[1]
            if self.defseg.get(n, -1) == self.si and self.defseg[n] != -1: return 'v%d' % self.reg[n]
            return 'R[%d]' % self.reg[n]
        if k == 'c': return repr(v[1])
        if k == 'f': return repr(v[1])
        if k == 'g': return repr(self.prog.addr(self.mod, v[1]))
        if k == 'ge': 
            return '(%s+%d)' % (self.v(v[1]), v[2])
        if k == 'z':
            return repr(zero_of(v[1]))
        if k == 'agg': return '(' + ','.join(self.v(y) for _, y in v[1]) + ',)'
        raise Exception('val %r' % (v,))

    def isc(self, v): return v[0] in ('c', 'g', 'ge', 'z')

    def setr(self, L, dst, expr):
        r = self.reg[dst]
        if dst in self.outside:
            L.append('v%d=R[%d]=%s' % (r, r, expr))
        else:
            L.append('v%d=%s' % (r, expr))

    def edge(self, frm, to):
        """segment id for the edge from block frm to block to (with phi moves)"""
        key = (frm, to)
        s = self.edges.get(key)
        if s is not None: return s
        ins = self.f.blocks[self.f.bidx[to]][1]
        moves = []
        for x in ins:
            if x.op != 'phi': break
            for v, b in zip(x.a, x.x):
                if b == frm: 
                    moves.append((self.reg[x.dst], v)); break
        tgt = self.blockseg[to]
        if not moves:
            self.edges[key] = tgt; return tgt
        save = self.si; self.si = -99
        dsts = ','.join('R[%d]' % d for d, _ in moves)
        srcs = ','.join(self.v(v) for _, v in moves)
        self.si = save
        L = ['%s=%s' % (dsts, srcs), 'return %d' % tgt]
        sid = self.nseg; self.nseg += 1
        self.extra.append(L)
        self.edges[key] = sid
        return sid

    # ---- instructions
    def emit(self, x, L, si, last, nxt):
        op = x.op
        if op == 'phi': return
        V = self.v
        f = self.f
        if op in llir.BINOPS:
            if op[0] == 'f':
                self.setr(L, x.dst, 'fop_%s(%s,%s)' % (op, V(x.a[0]), V(x.a[1]))); return
            w = x.ty[1]; a = V(x.a[0]); b = V(x.a[1]); M = (1 << w) - 1
            ca = self.isc(x.a[0]); cb = self.isc(x.a[1])
            cond = '(%s).__class__ is int' % a if cb else '(%s).__class__ is int' % b if ca else '(%s).__class__ is (%s).__class__ is int' % (a, b)
            fast = {'add': '(%s+%s)&%d', 'sub': '(%s-%s)&%d', 'mul': '(%s*%s)&%d'}.get(op)
            if fast: e = fast % (a, b, M)
            elif op == 'and': e = '%s&%s' % (a, b)
            elif op == 'or': e = '%s|%s' % (a, b)
            elif op == 'xor': e = '%s^%s' % (a, b)
            elif op == 'shl': e = '(%s<<%s)&%d if %s<%d else 0' % (a, b, M, b, w); e = '(%s)' % e
            elif op == 'lshr': e = '%s>>%s' % (a, b)
            else: e = None
            fn = {'add': 'tadd', 'sub': 'tsub', 'mul': 'tmul', 'and': 'tand', 'or': 'tor', 'xor': 'txor', 'shl': 'tshl', 'lshr': 'tlshr', 'ashr': 'tashr', 'udiv': 'tudiv', 'urem': 'turem', 'sdiv': 'tsdiv', 'srem': 'tsrem'}[op]
            slow = '%s(%d,%s,%s)' % (fn, w, a, b)
            if e is None: self.setr(L, x.dst, slow)
            else: self.setr(L, x.dst, '%s if %s else %s' % (e, cond, slow))
            return
        if op == 'icmp':
            w = bits(x.ty); a = V(x.a[0]); b = V(x.a[1]); pr = x.x
            ca = self.isc(x.a[0]); cb = self.isc(x.a[1])
            cond = '(%s).__class__ is int' % a if cb else '(%s).__class__ is int' % b if ca else '(%s).__class__ is (%s).__class__ is int' % (a, b)
            py = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}.get(pr)
            slow = 't%s(%d,%s,%s)' % ({'eq': 'eq', 'ne': 'ne'}.get(pr, pr), w, a, b)
            if py: self.setr(L, x.dst, '(1 if %s%s%s else 0) if %s else %s' % (a, py, b, cond, slow))
            else: self.setr(L, x.dst, slow)
            return
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'ptrtoaddr'):
            a = V(x.a[0])
            if x.x[0] == 'd' or x.ty[0] == 'd':
                self.setr(L, x.dst, a); return
            w1 = bits(x.x); w2 = bits(x.ty)
            if w1 == w2: self.setr(L, x.dst, a)
            elif w2 < w1: self.setr(L, x.dst, '%s&%d if (%s).__class__ is int else ttrunc(%s,%d,%d)' % (a, (1 << w2) - 1, a, a, w1, w2))
            elif op == 'sext': self.setr(L, x.dst, 'tsext(%s,%d,%d)' % (a, w1, w2))
            else: self.setr(L, x.dst, '%s if (%s).__class__ is int else tzext(%s,%d,%d)' % (a, a, a, w1, w2))
            return
        if op in ('uitofp', 'sitofp'):
            self.setr(L, x.dst, 'fop_tofp(%s)' % V(x.a[0])); return
        if op in ('fptoui', 'fptosi'):
            self.setr(L, x.dst, 'fop_toint(%s)' % V(x.a[0])); return
        if op == 'fneg': self.setr(L, x.dst, '-%s' % V(x.a[0])); return
        if op == 'fcmp':
            self.setr(L, x.dst, 'fop_cmp(%r,%s,%s)' % (x.x, V(x.a[0]), V(x.a[1]))); return
        if op == 'select':
            c, a, b = V(x.a[0]), V(x.a[1]), V(x.a[2])
            if x.ty[0] in 'ip': slow = 'tite(%s,%s,%s,%d)' % (c, a, b, bits(x.ty))
            else: slow = 'ite_agg(%s,%s,%s,%r)' % (c, a, b, x.ty)
            self.setr(L, x.dst, '(%s if %s else %s) if (%s).__class__ is int else %s' % (a, c, b, c, slow))
            return
        if op == 'freeze': self.setr(L, x.dst, V(x.a[0])); return
        if op == 'load':
            p = V(x.a[0])
            if x.ty[0] in 'ip':
                n = store_size(x.ty)
                e = 'ld(st,%s,%d)' % (p, n)
                if x.ty[0] == 'i' and x.ty[1] != 8 * n: e = 'ttrunc(%s,%d,%d)' % (e, 8 * n, x.ty[1])
                self.setr(L, x.dst, e)
            else:
                self.setr(L, x.dst, 'ld_agg(st,%s,%r)' % (p, x.ty))
            return
        if op == 'store':
            v = V(x.a[0]); p = V(x.a[1])
            if x.ty[0] in 'ip':
                n = store_size(x.ty)
                if x.ty[0] == 'i' and x.ty[1] != 8 * n: v = 'tzext(%s,%d,%d)' % (v, x.ty[1], 8 * n)
                L.append('sto(st,%s,%s,%d)' % (p, v, n))
            else: L.append('sto_agg(st,%s,%s,%r)' % (p, v, x.ty))
            return
        if op == 'gep':
            b = V(x.a[0]); off = 0; sym = []
            cur = x.ty
            for k, (it, iv) in enumerate(x.x):
                if k == 0: sc = size_of(cur); nt = cur
                else:
                    if cur[0] == 's':
                        o, nt = field_off(cur, iv[1]); off += o; cur = nt; continue
                    sc = size_of(cur[2]); nt = cur[2]
                cur = nt
                if iv[0] == 'c':
                    c = iv[1]
                    if c >> (it[1] - 1): c -= 1 << it[1]
                    off += c * sc
                else:
                    e = V(iv)
                    if it[1] != 64: e = 'tsext(%s,%d,64)' % (e, it[1])
                    sym.append((e, sc))
            M = (1 << 64) - 1
            if not sym:
                self.setr(L, x.dst, '(%s+%d)&%d if (%s).__class__ is int else tadd(64,%s,%d)' % (b, off, M, b, b, off & M) if off else b)
            else:
                e = b
                for s, sc in sym: e = 'tadd(64,%s,%s)' % (e, s if sc == 1 else 'tmul(64,%s,%d)' % (s, sc))
                if off: e = 'tadd(64,%s,%d)' % (e, off & M)
                self.setr(L, x.dst, e)
            return
        if op == 'alloca':
            self.setr(L, x.dst, 'alloca(st,%d)' % (size_of(x.ty) * x.x)); return
        if op == 'br':
            L.append('return %d' % self.edge(f.blocks[self.bi][0], x.x[0])); return
        if op == 'condbr':
            c = V(x.a[0]); bn = f.blocks[self.bi][0]
            A = self.edge(bn, x.x[0]); B = self.edge(bn, x.x[1])
            L.append('if (%s).__class__ is int: return %d if %s else %d' % (c, A, c, B))
            L.append('st.fork=((%s,%d),(tnot(%s),%d)); st.fseg=%d; return -2' % (c, A, c, B, si)); return
        if op == 'switch':
            v = V(x.a[0]); bn = f.blocks[self.bi][0]; w = x.ty[1]
            d = self.edge(bn, x.x[0])
            tab = {k: self.edge(bn, b) for k, b in x.x[1]}
            nm = 'SW%d' % len(self.consts); self.consts[nm] = tab
            L.append('if (%s).__class__ is int: return %s.get(%s,%d)' % (v, nm, v, d))
            L.append('st.fork=switch_fork(%s,%d,%s,%d); st.fseg=%d; return -2' % (v, w, nm, d, si)); return
        if op == 'ret':
            L.append('st.ret(%s); return -1' % (V(x.a[0]) if x.a else 'None')); return
        if op == 'unreachable':
            L.append('path_end(st,"unreachable","%s")' % f.name.replace('"', '').replace('\\', '')); return
        if op == 'extractvalue':
            self.setr(L, x.dst, V(x.a[0]) + ''.join('[%d]' % i for i in x.x)); return
        if op == 'insertvalue':
            self.setr(L, x.dst, 'insv(%s,%s,%r)' % (V(x.a[0]), V(x.a[1]), tuple(x.x))); return
        if op == 'call':
            c = x.x
            args = [V(v) for _, v in x.a]
            if c[0] == 'g':
                n = c[1]
                if n.startswith('@llvm.'):
                    self.intrinsic(x, n, args, L); return
                h = self.prog.hook_for(n)
                if h is not None:
                    nm = 'H_%d' % len(self.consts)
                    self.consts[nm] = h
                    e = '%s(st%s)' % (nm, ''.join(',' + a for a in args))
                    if x.dst: self.setr(L, x.dst, e)
                    else: L.append(e)
                    return
                tgt = self.prog.resolve(self.mod, n)
                if tgt is None:
                    L.append('missing(st,%r)' % n); return
                nm = 'F_%d' % len(self.consts)
                self.consts[nm] = tgt
                L.append('st.call(%s,[%s],%d,%d); return -1' % (nm, ','.join(args), self.reg[x.dst] if x.dst else -1, nxt))
                return
            L.append('st.icall(%s,[%s],%d,%d); return -1' % (V(c), ','.join(args), self.reg[x.dst] if x.dst else -1, nxt))
            return
        if op == 'nop': return
        if op in ('unsup', 'asm', 'invoke'):
            if op == 'asm' and not x.dst: return   # black_box and friends
            L.append('unsupported(st,%r)' % str(x.x)[:150]); return
        raise Exception('emit ' + op)

    def intrinsic(self, x, n, a, L):
        k = n[6:]
        if k.startswith(('lifetime', 'experimental.noalias', 'assume', 'dbg', 'prefetch', 'donothing', 'invariant')): return
        if k.startswith(('memcpy', 'memmove')): L.append('memcpy(st,%s,%s,%s)' % tuple(a[:3])); return
        if k.startswith('memset'): L.append('memset(st,%s,%s,%s)' % tuple(a[:3])); return
        if k == 'trap': L.append('path_end(st,"trap","")'); return
        m = k.split('.')
        ty = x.ty
        def S(e): self.setr(L, x.dst, e)
        if m[0] in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and m[1] == 'with':
            w = ty[2][0][1]
            f2 = {'add': 'tadd', 'sub': 'tsub', 'mul': 'tmul'}[m[0][1:]]
            A, B = a[0], a[1]
            S('ovf(%d,%s,%s,%s,t%s_o)' % (w, A, B, f2, m[0])); return
        if m[0] in ('uadd', 'usub', 'sadd', 'ssub') and m[1] == 'sat':
            S('sat_%s(%d,%s,%s)' % (m[0], ty[1], a[0], a[1])); return
        if m[0] in ('umin', 'umax', 'smin', 'smax'):
            w = ty[1]
            S('t%s(%d,%s,%s)' % (m[0], w, a[0], a[1])); return
        if m[0] in ('fshl', 'fshr'):
            S('t%s(%d,%s,%s,%s)' % (m[0], ty[1], a[0], a[1], a[2])); return
        if m[0] in ('bswap', 'bitreverse', 'ctpop'):
            S('t%s(%d,%s)' % (m[0], ty[1], a[0])); return
        if m[0] in ('ctlz', 'cttz', 'abs'):
            S('t%s(%d,%s)' % (m[0], ty[1], a[0])); return
        if m[0] in ('ucmp', 'scmp'):
            S('t%s(%d,%s,%s,%s)' % (m[0], ty[1], bits(x.a[0][0]), a[0], a[1])); return
        if m[0] == 'expect': S(a[0]); return
        if m[0] == 'is' and m[1] == 'constant': S('0'); return
        if m[0] == 'load' and m[1] == 'relative': S('load_relative(st,%s,%s)' % (a[0], a[1])); return
        if m[0] == 'ceil': S('fop_ceil(%s)' % a[0]); return
        if m[0] == 'floor': S('fop_floor(%s)' % a[0]); return
        if m[0] in ('fptoui', 'fptosi'): S('fop_toint_sat(%s,%d,%d)' % (a[0], ty[1], 1 if m[0] == 'fptosi' else 0)); return
        if m[0] == 'ptrmask': S('tand(64,%s,%s)' % (a[0], a[1])); return
        if m[0] == 'threadlocal': S(a[0]); return
        L.append('unsupported(st,%r)' % n)

def zero_of(t):
    if t[0] in 'ip': return 0
    if t[0] == 'd': return 0.0
    if t[0] == 's': return tuple(zero_of(x) for x in t[2])
    return tuple(zero_of(t[2]) for _ in range(t[1]))
