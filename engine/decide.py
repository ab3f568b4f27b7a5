"""Deciding conjunctions of terms: solver portfolio, SAT sweeping with cut points, model confirmation."""
import os, random, subprocess, tempfile, threading, time
import term as tm, smt
from term import T

# ---------------------------------------------------------------- rebuilding
def rebuild(t, m):
    """t with children mapped through m (missing = unchanged)"""
    op = t.op; a = t.a; w = t.w
    g = lambda x: m.get(x, x) if x.__class__ is T else x
    if op == 'var': return t
    if op == 'add':
        r = a[0]
        acc = {}
        for c, x in a[1]: r += tm._addparts(g(x), w, c, acc)
        return tm._mkadd(w, r, acc)
    if op == 'xor': return tm.bxor_list(w, a[0], [g(x) for x in a[1]])
    if op == 'and': return tm.band_list(w, a[0], [g(x) for x in a[1]])
    if op == 'or': return tm.bor_list(w, a[0], [g(x) for x in a[1]])
    if op == 'mul':
        r = 1
        for x in a: r = tm.mul(w, r, g(x))
        return r
    if op == 'concat': return tm.concat_l([(p.w, g(p)) if p.__class__ is T else (p[1], p[0]) for p in a])
    if op == 'extract': return tm.extract(g(a[0]), a[1], a[2])
    if op == 'ite' or op == 'iite': return tm.ite(g(a[0]), g(a[1]), g(a[2]), w)
    if op == 'lut':
        i = g(a[1]); tab = tm.LUTLIST[a[0]]
        if i.__class__ is int: return tab[i] if i < len(tab) else 0
        return tm.lut(tab, i, w)
    if op in ('eq', 'ult', 'slt'):
        ww = a[0].w if a[0].__class__ is T else a[1].w
        return getattr(tm, op)(ww, g(a[0]), g(a[1]))
    if op == 'rot': return tm.rotl(w, g(a[0]), a[1])
    if op == 'sext': return tm.sext(g(a[0]), a[0].w, w)
    if op in ('shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'): return getattr(tm, op)(w, g(a[0]), g(a[1]))
    if op == 'rotl':
        x = g(a[0]); return tm.fshl(w, x, x, g(a[1]))
    if op == 'inat': return tm.inat(a[0].w, g(a[0]))
    if op == 'i2bv': return tm.i2bv(g(a[0]), w)
    if op == 'ipoly':
        r = 0
        for c, mo in a:
            p = c
            for x in mo: p = tm.imul(p, g(x))
            r = tm.iadd(r, p)
        return r
    if op == 'imod': return tm.imod(g(a[0]), g(a[1]))
    if op == 'idiv': return tm.idiv(g(a[0]), g(a[1]))
    if op == 'ilt': return tm.ilt(g(a[0]), g(a[1]))
    if op == 'ieq': return tm.ieq(g(a[0]), g(a[1]))
    if op == 'ipowmod': return tm.ipowmod(g(a[0]), g(a[1]), g(a[2]))
    raise Exception('rebuild ' + op)

def substitute(roots, m):
    """m: dict T -> value, is extended in place"""
    for t in tm.topo([r for r in roots if r.__class__ is T]):
        if t in m: continue
        if t.op == 'var': m[t] = t; continue
        ch = False
        for k in tm.kids(t):
            if m[k] is not k: ch = True; break
        m[t] = rebuild(t, m) if ch else t
    return [m[r] if r.__class__ is T else r for r in roots]

def rename(t, sub):
    if t.__class__ is int: return t
    for v in tm.free_vars([t]):
        if v not in sub: sub[v] = tm.var(v.a[0] + "'", v.w, True) if v.sec else v
    return substitute([t], sub)[0]

# ---------------------------------------------------------------- solvers
def size(cons): return len(tm.topo([c for c in cons if c.__class__ is T]))

def norm(cons):
    out = []
    for c in cons:
        if c.__class__ is int:
            if not c: return None
            continue
        if c.op == 'and' and c.w == 1:
            if c.a[0] == 0: return None
            out.extend(c.a[1])
        else: out.append(c)
    return out

def race(cons, timeout, names):
    """first definite answer of several solvers on the same query"""
    body, vs, ui, pm = smt.export(cons)
    res = [None]; procs = []; ev = threading.Event(); lock = threading.Lock(); left = [len(names)]
    t0 = time.time()
    files = []
    def job(n):
        logic = '' if ui else '(set-logic QF_BV)\n'
        if ui and n.startswith('cvc5'): logic = '(set-logic ALL)\n'
        text = '(set-option :produce-models true)\n' + logic + body + '\n(check-sat)\n'
        if vs: text += '(get-value (%s))\n' % ' '.join('n%d' % v.id for v in vs)
        fd, fn = tempfile.mkstemp(suffix='.smt2'); os.write(fd, text.encode()); os.close(fd); files.append(fn)
        p = subprocess.Popen(smt.SOLVERS[n](fn, timeout), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        with lock: procs.append(p)
        try: o, _ = p.communicate(timeout=timeout + 5)
        except subprocess.TimeoutExpired:
            p.kill(); o = ''
        first = o.split('\n', 1)[0].strip()
        with lock:
            left[0] -= 1
            if first in ('sat', 'unsat') and res[0] is None:
                res[0] = (first, o, n); ev.set()
            if left[0] == 0: ev.set()
    th = [threading.Thread(target=job, args=(n,)) for n in names]
    for t in th: t.start()
    ev.wait(timeout + 10)
    with lock:
        for p in procs:
            if p.poll() is None: p.kill()
    for t in th: t.join()
    for f in files:
        try: os.unlink(f)
        except OSError: pass
    smt.STATS.queries += 1; smt.STATS.time += time.time() - t0
    if res[0] is None:
        smt.STATS.unknown += 1; return 'unknown', None
    r, o, n = res[0]
    smt.STATS.by[n] = smt.STATS.by.get(n, 0) + 1
    setattr(smt.STATS, r, getattr(smt.STATS, r) + 1)
    env = None
    if r == 'sat':
        env = {}; ids = {v.id: v for v in vs}
        for m in smt.VALUE_RE.finditer(o):
            v = ids.get(int(m.group(1)))
            if v is not None: env[v.a[0]] = smt.parse_val(m.group(2))
    return r, env

def solve(cons, timeout=60, seed=1):
    c = norm(cons)
    if c is None: return smt.check([0])
    if not c: return 'sat', {}
    r, env = race(c, min(timeout, 8), ['z3'])
    if r != 'unknown': 
        return (r, env) if r == 'unsat' or evalok(c, env) else ('unknown', None)
    if timeout <= 8: return r, env
    ui = any(t.w == 0 for t in tm.topo(c))
    names = ['z3', 'cvc5'] + ([] if ui else ['cvc5int', 'z3sat'])
    r, env = race(c, timeout - 8, names)
    if r == 'sat' and not evalok(c, env): return 'unknown', None
    return r, env

def evalok(cons, env):
    return all(v == 1 for v in tm.evaluate(cons, env))

def confirm(cons, env):
    """does the solver agree that env satisfies cons?"""
    c = norm(cons)
    if c is None: return False
    if not c: return True
    if not evalok(c, env): return False
    fx = []
    for v in tm.free_vars(c):
        x = env.get(v.a[0], 0)
        fx.append(tm.mk('eq', 1, (v, x)) if v.w > 1 else (v if x else tm.bxor(1, v, 1)) if v.w == 1 else tm.ieq(v, x))
    r, _ = smt.check(c + fx, timeout=60, want_model=False)
    return r == 'sat' or r == 'unknown'

# ---------------------------------------------------------------- sweeping
class Sweep:
    def __init__(self, seed, timeout, deadline):
        self.rng = random.Random(seed * 7919 + 13); self.timeout = timeout; self.deadline = deadline
        self.hits = {}; self.tries = {}; self.m = {}            # T -> representative value
        self.proved = 0; self.refuted = 0; self.failed = 0
    def run(self, roots):
        N = 128
        order = [t for t in tm.topo(roots) if t not in self.m]
        vs = [t for t in order if t.op == 'var']
        rng = self.rng
        first = not hasattr(self, 'envs')
        if first: envs = [{} for i in range(N)]; self.memos = [dict() for _ in envs]; self.sig = {}; self.vs = []; self.roots = []
        else: envs = self.envs
        for i, e in enumerate(envs):
            for v in vs:
                w = v.w or 64
                # values of all magnitudes, so that comparisons, quotients and carries take both outcomes
                x = rng.getrandbits(w) if i % 3 == 2 else rng.getrandbits(rng.randint(1, w))
                if i % 6 == 5: x ^= (1 << w) - 1
                if i == 0: x = 0
                if i == 1: x = (1 << w) - 1
                if v.w == 0:
                    lo = v.lo or 0; hi = v.hi if v.hi is not None else 1 << 64
                    x = rng.randrange(lo, hi + 1) if i % 3 == 2 else min(hi, lo + rng.getrandbits(rng.randint(1, max(1, (hi - lo).bit_length()))))
                e[v.a[0]] = x
        self.roots = self.roots + roots; self.vs = self.vs + vs
        for e, me in zip(envs, self.memos): tm.evaluate(roots, e, me)
        self.envs = envs
        for t in order:
            if time.time() > self.deadline: return None
            if t.op == 'var': r = t
            else:
                r = rebuild(t, self.m) if any(self.m.get(k, k) is not k for k in tm.kids(t)) else t
            if r.__class__ is T:
                while t.op != 'var':
                    vals = tuple([me[t] for me in self.memos])
                    key = (t.w, vals)
                    if vals.count(vals[0]) == len(vals): c = vals[0]
                    else:
                        c = self.sig.get(key)
                        if c is None: self.sig[key] = r; break
                        if c is r: break
                    ok, env = self.tryeq(r, c)
                    if ok: r = c; break
                    if env is None:
                        if c.__class__ is int: self.sig.setdefault(key, r)
                        break
                    if not self.refine(env, t, c): break
                    if time.time() > self.deadline: return None
                else: self.sig.setdefault((t.w, tuple([me[t] for me in self.memos])), r)
            self.m[t] = r
            if r.__class__ is T and r not in self.memos[0]:
                for me in self.memos: me[r] = me[t]          # r equals t
        return [self.m[r] if r.__class__ is T else r for r in roots]
    def refine(self, env, t, c):
        """adds the distinguishing assignment to the simulation"""
        e = {v.a[0]: env.get(v.a[0], 0) for v in self.vs}
        me = {}
        reps = list(self.sig.values())
        try: tm.evaluate(self.roots + [r for r in reps if r.__class__ is T], e, me)
        except ZeroDivisionError: return False
        if me[t] == (c if c.__class__ is int else me[c]): return False
        self.envs.append(e); self.memos.append(me)
        self.sig = {(k[0], k[1] + (me[r],)): r for k, r in self.sig.items()}
        return True
    def tryeq(self, a, b):
        g = tm.ne(a.w, a, b) if a.w else tm.bxor(1, tm.ieq(a, b), 1)
        if g.__class__ is int: return g == 0, None
        if os.environ.get('VX_SW') == '2': print('TRY', tm.show(a, 5), '\n  ==', tm.show(b, 5), flush=True)
        for extra in (0, 1, 3):
            c, n = cut_shared(a, b, extra)
            if n == 0: break
            g1 = tm.ne(a.w, c[0], c[1]) if a.w else tm.bxor(1, tm.ieq(c[0], c[1]), 1)
            if g1.__class__ is int:
                if g1 == 0: self.proved += 1; return True, None
                continue
            if self.tries.get(-extra, 0) > 15 and self.hits.get(-extra, 0) * 10 < self.tries[-extra]: continue
            self.tries[-extra] = self.tries.get(-extra, 0) + 1
            if race([g1], 3, ['z3'])[0] == 'unsat':
                self.proved += 1; self.hits[-extra] = self.hits.get(-extra, 0) + 1
                if os.environ.get('VX_SW') == '2': print('  ok shared', extra, flush=True)
                return True, None
        ds = sorted((3, 5, 8, 12), key=lambda d: (-self.hits.get(d, 0), d))
        t0 = time.time()
        for depth in ds:
            c = cut([g], depth)
            full = c[0] is g
            if full or self.tries.get(depth, 0) > 15 and self.hits.get(depth, 0) * 10 < self.tries[depth]: continue
            self.tries[depth] = self.tries.get(depth, 0) + 1
            if race(c, 3, ['z3'])[0] == 'unsat':
                self.proved += 1; self.hits[depth] = self.hits.get(depth, 0) + 1
                if os.environ.get('VX_SW') == '2': print('  ok', depth, round(time.time() - t0, 2))
                return True, None
        r, env = race([g], self.timeout, ['z3'])
        if os.environ.get('VX_SW') == '2': print('  full', r, round(time.time() - t0, 2))
        if r == 'unsat': self.proved += 1; return True, None
        if r == 'sat': self.refuted += 1; return False, env
        self.failed += 1
        return False, None

CUTN = [0]
def cut(roots, depth):
    """replace sub-terms at the given depth by fresh variables (over-approximation)"""
    lev = {}
    cur = [r for r in roots]; d = 0
    seen = {}
    while cur and d <= depth:
        nx = []
        for t in cur:
            if t in seen: continue
            seen[t] = d
            for k in tm.kids(t):
                if k not in seen: nx.append(k)
        cur = nx; d += 1
    m = {}
    def go(t):
        st = [t]
        while st:
            x = st[-1]
            if x in m: st.pop(); continue
            if x not in seen:
                if x.op == 'var': m[x] = x
                else: m[x] = tm.var('cut%d_%d' % (x.id, x.w), x.w) if x.w else intcut(x)
                st.pop(); continue
            todo = [k for k in tm.kids(x) if k not in m]
            if todo: st.extend(todo); continue
            m[x] = rebuild(x, m) if any(m[k] is not k for k in tm.kids(x)) else x
            st.pop()
        return m[t]
    return [go(r) for r in roots]
def cut_shared(a, b, extra):
    """a and b with the sub-terms they have in common (down to `extra` levels below the highest ones) replaced by fresh variables"""
    ra = [x for x in (a,) if x.__class__ is T]; rb = [x for x in (b,) if x.__class__ is T]
    if not rb: return (a, b), 0
    shared = set(tm.topo(ra)) & set(tm.topo(rb))
    m = {}; n = [0]
    lev = {}
    cur = ra + rb; keep = set()
    d = 0
    # exclusive nodes and the first levels of shared ones
    stack = [(t, extra) for t in cur]; best = {}
    while stack:
        t, e = stack.pop()
        if best.get(t, -1) >= e: continue
        if t in shared:
            e -= 1
            if e < 0: continue
        best[t] = e
        for k in tm.kids(t): stack.append((k, e))
    for t in tm.topo(cur):
        if t.op == 'var': m[t] = t
        elif t in best: m[t] = rebuild(t, m) if any(m.get(k, k) is not k for k in tm.kids(t)) else t
        elif t in shared:
            n[0] += 1
            m[t] = tm.var('cut%d_%d' % (t.id, t.w), t.w) if t.w else intcut(t)
    return (m[a] if a.__class__ is T else a, m[b] if b.__class__ is T else b), n[0]
def intcut(x):
    n = 'cut%d_i' % x.id
    v = tm.VARS.get(n)
    if v is None:
        v = tm.mk('var', 0, (n,), x.lo, x.hi); tm.VARS[n] = v
    return v

NONLIN = ('mul', 'udiv', 'urem', 'sdiv', 'srem')
def abstract(roots):
    """nonlinear operations replaced by fresh variables (over-approximation: unsat carries over)"""
    m = {}; hit = False
    for t in tm.topo(roots):
        if t.op in NONLIN: m[t] = tm.var('abs%d_%d' % (t.id, t.w), t.w); hit = True
        elif t.op == 'var': m[t] = t
        else: m[t] = rebuild(t, m) if any(m[k] is not k for k in tm.kids(t)) else t
    return [m[r] for r in roots] if hit else None

def prove(cons, timeout=60, seed=1, eng=None):
    """cons = path condition + negated goal"""
    c = norm(cons)
    if c is None: return smt.check([0])
    n = size(c)
    t0 = time.time()
    a = abstract(c)
    if a is not None:
        a = norm(a)
        if a is None: return 'unsat', None
        if n < 6000 and race(a, 6, ['z3'])[0] == 'unsat': return 'unsat', None
    if n < 6000:
        r, env = race(c, min(timeout, 6), ['z3'])
        if r == 'unsat' or r == 'sat' and evalok(c, env): return r, env
    else:
        for depth in (4, 7, 10):
            d = norm(cut(c, depth))
            if d is None or race(d, 3, ['z3'])[0] == 'unsat': return 'unsat', None
    sw = getattr(eng, 'sweep', None)      # equalities it proves hold unconditionally: kept for the next obligations
    if sw is None:
        sw = Sweep(seed, 1, t0 + timeout)
        if eng is not None: eng.sweep = sw
    sw.deadline = t0 + timeout
    r = sw.run(c)
    if os.environ.get('VX_SW'): print('sweep', n, 'nodes', 'proved', sw.proved, 'refuted', sw.refuted, 'failed', sw.failed, 'of', len(sw.m), 'in', round(time.time() - t0, 1), r is not None, flush=True)
    if r is not None:
        c2 = norm(r)
        if c2 is None: return 'unsat', None
        if not c2: return 'sat', {}
        c = c2
    left = timeout - (time.time() - t0)
    return solve(c, max(left, 10), seed)
