"""SMT-LIB 2 export of terms and solver processes."""
import subprocess, time, os, re, tempfile, threading
from term import T, topo, kids, LUTLIST, mask, free_vars
import term as tm

class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.unsat = 0; s.sat = 0; s.unknown = 0; s.by = {}
STATS = Stats()

def bvc(v, w): return '(_ bv%d %d)' % (v, w)
def ic(v): return str(v) if v >= 0 else '(- %d)' % (-v)

def export(assertions, extra=''):
    """assertions: list of width-1 terms. returns smt2 text (no check-sat) and list of vars; uses_int flag"""
    out = []
    roots = [a for a in assertions if a.__class__ is T]
    order = topo(roots)
    uses_int = any(t.w == 0 or t.op in ('ilt', 'ieq', 'i2bv') for t in order)
    luts = {}
    fns = set()
    def n(x, w):
        if x.__class__ is int: return bvc(x, w) if w else ic(x)
        return 'n%d' % x.id
    def b(x):   # boolean view of w==1 term
        return '(= %s #b1)' % n(x, 1)
    vs = []
    body = []
    for t in order:
        op = t.op; w = t.w; a = t.a
        sort = '(_ BitVec %d)' % w if w else 'Int'
        if op == 'var':
            body.append('(declare-const n%d %s)' % (t.id, sort)); vs.append(t)
            if w == 0:
                if t.lo is not None: body.append('(assert (<= %s n%d))' % (ic(t.lo), t.id))
                if t.hi is not None: body.append('(assert (<= n%d %s))' % (t.id, ic(t.hi)))
            continue
        if op == 'add':
            parts = []
            if a[0]: parts.append(bvc(a[0], w))
            for c, x in a[1]:
                if c == 1: parts.append(n(x, w))
                elif c == mask(w): parts.append('(bvneg %s)' % n(x, w))
                else: parts.append('(bvmul %s %s)' % (bvc(c, w), n(x, w)))
            e = parts[0] if len(parts) == 1 else '(bvadd %s)' % ' '.join(parts)
        elif op in ('xor', 'and', 'or'):
            f = 'bv' + op
            parts = [n(x, w) for x in a[1]]
            if op == 'and':
                if a[0] != mask(w): parts.append(bvc(a[0], w))
            elif a[0]: parts.append(bvc(a[0], w))
            e = parts[0]
            for p in parts[1:]: e = '(%s %s %s)' % (f, e, p)
        elif op == 'mul':
            e = n(a[0], w)
            for x in a[1:]: e = '(bvmul %s %s)' % (e, n(x, w))
        elif op == 'concat':
            e = '(concat %s)' % ' '.join(n(p, p.w) if p.__class__ is T else bvc(p[0], p[1]) for p in a)
        elif op == 'extract': e = '((_ extract %d %d) %s)' % (a[1], a[2], n(a[0], 0))
        elif op == 'ite': e = '(ite %s %s %s)' % (b(a[0]), n(a[1], w), n(a[2], w))
        elif op == 'iite': e = '(ite %s %s %s)' % (b(a[0]), n(a[1], 0), n(a[2], 0))
        elif op == 'lut':
            tab = LUTLIST[a[0]]
            idx = a[1]
            key = (a[0], w, idx.w)
            if key not in luts:
                luts[key] = 'lut%d_%d_%d' % key
                body.append('(define-fun %s ((i (_ BitVec %d))) (_ BitVec %d) %s)' % (luts[key], idx.w, w, mux(tab, idx.w, w)))
            e = '(%s %s)' % (luts[key], n(idx, idx.w))
        elif op == 'eq':
            ww = a[0].w if a[0].__class__ is T else a[1].w
            e = '(ite (= %s %s) #b1 #b0)' % (n(a[0], ww), n(a[1], ww))
        elif op == 'ieq': e = '(ite (= %s %s) #b1 #b0)' % (n(a[0], 0), n(a[1], 0))
        elif op in ('ult', 'slt'):
            ww = a[0].w if a[0].__class__ is T else a[1].w
            e = '(ite (bv%s %s %s) #b1 #b0)' % (op, n(a[0], ww), n(a[1], ww))
        elif op == 'ilt': e = '(ite (< %s %s) #b1 #b0)' % (n(a[0], 0), n(a[1], 0))
        elif op == 'rot': e = '((_ rotate_left %d) %s)' % (a[1], n(a[0], 0))
        elif op == 'sext': e = '((_ sign_extend %d) %s)' % (w - a[0].w, n(a[0], 0))
        elif op in ('shl', 'lshr', 'ashr'): e = '(bv%s %s %s)' % (op, n(a[0], w), n(a[1], w))
        elif op == 'rotl':
            x = n(a[0], w); k = n(a[1], w)
            # a[1] < w
            e = '(bvor (bvshl %s %s) (bvlshr (bvlshr %s %s) (bvsub %s %s)))' % (x, k, x, bvc(1, w), bvc(w - 1, w), k)
        elif op in ('udiv', 'urem', 'sdiv', 'srem'): e = '(bv%s %s %s)' % (op, n(a[0], w), n(a[1], w))
        elif op == 'inat': e = '(bv2nat %s)' % n(a[0], 0)
        elif op == 'i2bv': e = '((_ int2bv %d) %s)' % (w, n(a[0], 0))
        elif op == 'ipoly':
            ts = []
            for c, mo in a:
                ps = [n(x, 0) for x in mo]
                if c != 1 or not ps: ps = [ic(c)] + ps
                ts.append(ps[0] if len(ps) == 1 else '(* %s)' % ' '.join(ps))
            e = ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)
        elif op == 'imod': e = '(mod %s %s)' % (n(a[0], 0), n(a[1], 0))
        elif op == 'idiv': e = '(div %s %s)' % (n(a[0], 0), n(a[1], 0))
        elif op == 'ipowmod':
            if 'pm' not in fns:
                fns.add('pm'); body.append('(declare-fun powmod (Int Int Int) Int)')
            e = '(powmod %s %s %s)' % (n(a[0], 0), n(a[1], 0), n(a[2], 0))
        else: raise Exception('smt ' + op)
        body.append('(define-fun n%d () %s %s)' % (t.id, sort, e))
    for x in assertions:
        if x.__class__ is int:
            body.append('(assert %s)' % ('true' if x else 'false'))
        else: body.append('(assert %s)' % b(x))
    return '\n'.join(body), vs, uses_int, 'pm' in fns

def mux(tab, iw, w):
    def rec(lo, bit):
        if lo >= len(tab): return bvc(0, w)
        if bit < 0: return bvc(tab[lo], w)
        a = rec(lo, bit - 1); b = rec(lo + (1 << bit), bit - 1)
        if a == b: return a
        return '(ite (= ((_ extract %d %d) i) #b1) %s %s)' % (bit, bit, b, a)
    return rec(0, iw - 1)

SOLVERS = {
    'z3': lambda f, t: ['z3-new', '-T:%d' % max(1, int(t)), f],
    'cvc5': lambda f, t: ['cvc5', '--tlimit=%d' % int(t * 1000), '--produce-models', f],
    'z3sat': lambda f, t: ['z3-new', '-T:%d' % max(1, int(t)), 'sat.threads=1', 'tactic.default_tactic=(then simplify propagate-values solve-eqs bit-blast sat)', f],
    'cvc5int': lambda f, t: ['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % int(t * 1000), f],
}

def run_solver(name, text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text); fn = f.name
    t0 = time.time()
    try:
        try:
            r = subprocess.run(SOLVERS[name](fn, timeout), capture_output=True, text=True, timeout=timeout + 10)
            o = r.stdout
        except subprocess.TimeoutExpired:
            o = 'timeout'
    finally:
        os.unlink(fn)
    dt = time.time() - t0
    first = o.split('\n', 1)[0].strip()
    if '(error' in o and first != 'sat' and first != 'unsat': res = 'unknown'
    elif '(error' in o and 'model' not in o and first == 'sat': res = 'unknown'
    elif first in ('sat', 'unsat'): res = first
    else: res = 'unknown'
    return res, o, dt

MODEL_RE = re.compile(r'\(define-fun\s+n(\d+)\s+\(\)\s+(\(_ BitVec \d+\)|Int)\s+(#x[0-9a-fA-F]+|#b[01]+|\(_ bv\d+ \d+\)|\(- \d+\)|\d+)\s*\)')
VALUE_RE = re.compile(r'\(n(\d+)\s+(#x[0-9a-fA-F]+|#b[01]+|\(_ bv\d+ \d+\)|\(- \d+\)|\d+)\)')
def parse_val(s):
    if s.startswith('#x'): return int(s[2:], 16)
    if s.startswith('#b'): return int(s[2:], 2)
    if s.startswith('(_ bv'): return int(s[5:].split()[0])
    if s.startswith('(-'): return -int(s[2:-1])
    return int(s)

def check(assertions, timeout=60, solver='z3', want_model=True):
    """-> ('unsat'|'sat'|'unknown', env)"""
    if any(x.__class__ is int and x == 0 for x in assertions):
        STATS.queries += 1; STATS.unsat += 1
        return 'unsat', None
    body, vs, ui, pm = export(assertions)
    logic = '' if ui else '(set-logic QF_BV)\n'
    text = '(set-option :produce-models true)\n' + logic + body + '\n(check-sat)\n'
    if want_model and vs: text += '(get-value (%s))\n' % ' '.join('n%d' % v.id for v in vs)
    res, o, dt = run_solver(solver, text, timeout)
    STATS.queries += 1; STATS.time += dt
    STATS.by[solver] = STATS.by.get(solver, 0) + 1
    setattr(STATS, res, getattr(STATS, res) + 1)
    env = None
    if res == 'sat':
        env = {}
        ids = {v.id: v for v in vs}
        for m in VALUE_RE.finditer(o):
            v = ids.get(int(m.group(1)))
            if v is not None: env[v.a[0]] = parse_val(m.group(2))
    return res, env
