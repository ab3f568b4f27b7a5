"""Reading rustc's LLVM IR text: index of functions/globals, and parsing of single functions."""
import re, bisect

TOK = re.compile(r'''\s*(?:
 (?P<str>c"(?:[^"\\]|\\.)*")|
 (?P<qname>[%@]"(?:[^"\\]|\\.)*")|
 (?P<name>[%@][-A-Za-z$._0-9]+)|
 (?P<meta>!(?:[-A-Za-z$._0-9]+)?)|
 (?P<attr>\#\d+)|
 (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|
 (?P<hex>0x[0-9A-Fa-f]+)|
 (?P<word>[A-Za-z_][-A-Za-z0-9_.]*)|
 (?P<p>\.\.\.|[(){}\[\]<>,=:*|"])
)''', re.X)

def tokens(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            if s[i:].lstrip().startswith(';'): break
            if s[i:].lstrip().startswith('"'):
                j = s.index('"', i); k = s.index('"', j + 1)
                out.append(s[j:k+1]); i = k + 1; continue
            raise Exception('tok: ' + s[i:i+80])
        i = m.end()
        t = m.group(m.lastgroup)
        if m.lastgroup == 'p' and t == '"':
            k = s.index('"', i); out.append('"' + s[i:k+1]); i = k + 1; continue
        if m.lastgroup == 'qname': t = t[0] + t[2:-1]
        out.append(t)
    return out

class Type:
    pass
# types: int n -> ('i', n); ('p',); ('v',); ('d',); ('a', n, t); ('s', packed, (t..)); ('x', n, t) vector
I = {}
def ity(n):
    t = I.get(n)
    if t is None: t = I[n] = ('i', n)
    return t
PTR = ('p',); VOID = ('v',); DBL = ('d',)

def size_of(t):
    k = t[0]
    if k == 'i': 
        n = t[1]
        if n == 128: return 16
        s = (n + 7) // 8
        a = align_of(t)
        return (s + a - 1) // a * a
    if k == 'p' or k == 'd': return 8
    if k == 'a': return t[1] * size_of(t[2])
    if k == 'x': return t[1] * size_of(t[2])
    if k == 's':
        off = 0; mx = 1
        for x in t[2]:
            if not t[1]:
                a = align_of(x); mx = max(mx, a); off = (off + a - 1) // a * a
            off += size_of(x)
        return (off + mx - 1) // mx * mx
    raise Exception('size %r' % (t,))
def store_size(t):
    if t[0] == 'i': return (t[1] + 7) // 8
    return size_of(t)
def align_of(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        for a in (1, 2, 4, 8, 16):
            if n <= a * 8: return a
        return 16
    if k == 'p' or k == 'd': return 8
    if k in 'ax': return align_of(t[2])
    if k == 's': return 1 if t[1] else max([1] + [align_of(x) for x in t[2]])
def field_off(t, i):
    if t[0] in 'ax': return i * size_of(t[2]), t[2]
    off = 0
    for j, x in enumerate(t[2]):
        if not t[1]:
            a = align_of(x); off = (off + a - 1) // a * a
        if j == i: return off, x
        off += size_of(x)

class P:
    """token cursor"""
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.mod = mod
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def next(s): x = s.t[s.i]; s.i += 1; return x
    def acc(s, x):
        if s.i < len(s.t) and s.t[s.i] == x: s.i += 1; return True
        return False
    def exp(s, x):
        y = s.next()
        if y != x: raise Exception('expected %s got %s in %s' % (x, y, ' '.join(s.t[:60])))
    def type(s):
        x = s.next()
        if x == 'ptr': t = PTR
        elif x == 'void': t = VOID
        elif x == 'double' or x == 'float': t = DBL
        elif x == '[':
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp(']'); t = ('a', n, e)
        elif x == '{':
            fs = []
            if not s.acc('}'):
                while True:
                    fs.append(s.type())
                    if s.acc('}'): break
                    s.exp(',')
            t = ('s', False, tuple(fs))
        elif x == '<':
            if s.peek() == '{':
                s.next(); fs = []
                if not s.acc('}'):
                    while True:
                        fs.append(s.type())
                        if s.acc('}'): break
                        s.exp(',')
                s.exp('>'); t = ('s', True, tuple(fs))
            else:
                n = int(s.next()); s.exp('x'); e = s.type(); s.exp('>'); t = ('x', n, e)
        elif x[0] == '%':
            t = s.mod.named_type(x)
        elif x == 'metadata': t = ('m',)
        elif x[0] == 'i' and x[1:].isdigit(): t = ity(int(x[1:]))
        else: raise Exception('type? %s in %s' % (x, ' '.join(s.t[max(0,s.i-5):s.i+40])))
        return t
    ATTRS = set('noundef nonnull noalias nocapture readonly writeonly readnone signext zeroext inreg returned immarg nofree dead_on_unwind writable nest swiftself noreturn nounwind inrange'.split())
    def attrs(s):
        al = None
        while True:
            x = s.peek()
            if x is None: return al
            if x in P.ATTRS: s.next()
            elif x in ('align',):
                s.next()
                if s.acc('('): al = int(s.next()); s.exp(')')
                else: al = int(s.next())
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'range', 'initializes', 'memory', 'elementtype', 'dead_on_return', 'nofpclass', 'inalloca', 'preallocated'):
                s.next()
                if s.peek() == '(':
                    d = 0
                    while True:
                        y = s.next()
                        if y == '(': d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0: break
            else: return al
    def value(s, ty):
        """-> ('r',name) | ('c',int) | ('agg',[..]) | ('g',name) | ('ge', base, off) | ('z',ty) ..."""
        x = s.next()
        c = x[0]
        if c == '%': return ('r', x)
        if c == '@': return ('g', x)
        if x == 'true': return ('c', 1)
        if x == 'false': return ('c', 0)
        if x == 'null': return ('c', 0)
        if x in ('undef', 'poison'):
            return ('z', ty)
        if x == 'zeroinitializer': return ('z', ty)
        if c == '-' or c.isdigit():
            if ty[0] == 'd': return ('f', parse_float(x))
            return ('c', int(x) & ((1 << ty[1]) - 1))
        if x == '{' or x == '[' or x == '<':
            if x == '<' and s.peek() == '{': s.next(); close = '}'; pk = True
            else: close = {'{': '}', '[': ']', '<': '>'}[x]; pk = False
            vs = []
            if not s.acc(close):
                while True:
                    t = s.type(); vs.append((t, s.value(t)))
                    if s.acc(close): break
                    s.exp(',')
            if pk: s.exp('>')
            return ('agg', vs)
        if c == 'c' and x.startswith('c"'):
            return ('str', unescape(x[2:-1]))
        if x == 'getelementptr':
            while s.peek() != '(':
                s.next()
                if s.peek() == '(' and s.t[s.i-1] == 'inrange':
                    while s.next() != ')': pass
            s.exp('(')
            t = s.type(); s.exp(',')
            bt = s.type(); b = s.value(bt)
            off = 0; cur = t; first = True
            while s.acc(','):
                it = s.type(); iv = s.value(it)
                k = iv[1]; k = k - (1 << it[1]) if k >> (it[1] - 1) else k
                if first: off += k * size_of(t); first = False
                else:
                    o, cur = field_off(cur, k); off += o
            s.exp(')')
            return ('ge', b, off)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'trunc'):
            s.exp('('); t = s.type(); v = s.value(t); s.exp('to'); s.type(); s.exp(')')
            return v
        if x in ('sub', 'add'):
            while s.peek() in ('nuw', 'nsw'): s.next()
            s.exp('('); t = s.type(); v = s.value(t); s.exp(','); t2 = s.type(); v2 = s.value(t2); s.exp(')')
            return ('ce', x, v, v2)
        if c == '0' and x[1] == 'x': return ('f', parse_float(x))
        raise Exception('value? %s in %s' % (x, ' '.join(s.t[max(0,s.i-8):s.i+20])))

def parse_float(x):
    import struct
    if x.startswith('0x'): return struct.unpack('>d', int(x, 16).to_bytes(8, 'big'))[0]
    return float(x)

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

DEF = re.compile(r'^define .*?(@(?:"[^"]*"|[-A-Za-z$._0-9]+))\(', re.M)
GLB = re.compile(r'^(@(?:"[^"]*"|[-A-Za-z$._0-9]+)) = (.*)$', re.M)
TYD = re.compile(r'^(%(?:"[^"]*"|[-A-Za-z$._0-9]+)) = type (.*)$', re.M)

def unq(n): return n[0] + n[2:-1] if n[1] == '"' else n

class Module:
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.funcs = {}     # name -> (start, linkage_internal)
        self.globals = {}
        self.tydefs = {}
        self.local = set()
        tx = self.text
        for m in DEF.finditer(tx):
            n = unq(m.group(1))
            hdr = tx[m.start():m.start(1)]
            self.funcs[n] = m.start()
            if ' internal ' in hdr or ' private ' in hdr: self.local.add(n)
        for m in GLB.finditer(tx):
            n = unq(m.group(1)); r = m.group(2)
            self.globals[n] = r
            if re.match(r'(private|internal) ', r): self.local.add(n)
        for m in TYD.finditer(tx): self.tydefs[unq(m.group(1))] = m.group(2)
    def named_type(self, n):
        d = self.tydefs[n]
        return P(tokens(d), self).type()

class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'x')
    def __init__(s, op, dst=None, ty=None, a=None, x=None): s.op = op; s.dst = dst; s.ty = ty; s.a = a; s.x = x

class Func:
    pass

BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fmul fsub fdiv'.split())
FLAGS = set('nuw nsw exact disjoint nneg inbounds fast samesign volatile nnan ninf nsz nusw'.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast uitofp sitofp fptoui fptosi ptrtoaddr'.split())

def parse_func(mod, name):
    tx = mod.text
    st = mod.funcs[name]
    eol = tx.index('\n', st)
    end = tx.index('\n}', eol - 1)
    hdr = tx[st:eol]
    f = Func(); f.name = name; f.mod = mod
    f.internal = name in mod.local
    # header
    hp = hdr[hdr.index('('):] if not '("' in hdr[:hdr.index('(')+2] else None
    m = DEF.match(hdr + '\n')
    pos = m.end() - 1
    p = P(tokens(hdr[pos:]), mod)
    p.exp('(')
    f.params = []; f.ptypes = []
    f.sret = None
    if not p.acc(')'):
        k = 0
        while True:
            if p.acc('...'): p.exp(')'); break
            t = p.type()
            p.attrs()
            if p.peek() and p.peek()[0] == '%': n = p.next()
            else: n = '%%%d' % k
            k += 1
            f.params.append(n); f.ptypes.append(t)
            if p.acc(')'): break
            p.exp(',')
    pre = hdr[:m.start(1)]
    f.blocks = []; f.bidx = {}
    cur = None
    lines = tx[eol+1:end].split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]; i += 1
        if not ln or ln.lstrip().startswith(';'): continue
        if ln[0] != ' ':
            mm = re.match(r'("[^"]*"|[-A-Za-z$._0-9]+):', ln)
            bn = mm.group(1)
            if bn[0] == '"': bn = bn[1:-1]
            cur = ('%' + bn, []); f.bidx['%' + bn] = len(f.blocks); f.blocks.append(cur)
            continue
        if cur is None:
            # unnamed entry block: its label is the next value number
            cur = ('%' + str(len(f.params)), []); f.bidx[cur[0]] = 0; f.blocks.append(cur)
        if ln.lstrip().startswith('switch') and ln.rstrip().endswith('['):
            while not lines[i].strip().startswith(']'):
                ln += ' ' + lines[i]; i += 1
            ln += ' ]'; i += 1
        cur[1].append(parse_instr(ln, mod))
    return f

def parse_instr(ln, mod):
    p = P(tokens(ln), mod)
    dst = None
    if p.peek()[0] == '%':
        dst = p.next(); p.exp('=')
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in BINOPS:
        while p.peek() in FLAGS: p.next()
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Instr(op, dst, t, [a, b])
    if op == 'icmp':
        while p.peek() in FLAGS: p.next()
        pr = p.next(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Instr('icmp', dst, t, [a, b], pr)
    if op == 'fcmp':
        while p.peek() in FLAGS: p.next()
        pr = p.next(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Instr('fcmp', dst, t, [a, b], pr)
    if op in CASTS:
        while p.peek() in FLAGS: p.next()
        t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
        return Instr(op, dst, t2, [a], t)
    if op == 'select':
        while p.peek() in FLAGS: p.next()
        t = p.type(); c = p.value(t); p.exp(','); t1 = p.type(); a = p.value(t1); p.exp(','); t2 = p.type(); b = p.value(t2)
        return Instr('select', dst, t1, [c, a, b])
    if op == 'freeze':
        t = p.type(); return Instr('freeze', dst, t, [p.value(t)])
    if op == 'load':
        while p.peek() in FLAGS or p.peek() == 'atomic': p.next()
        t = p.type(); p.exp(','); p.type(); a = p.value(PTR)
        return Instr('load', dst, t, [a])
    if op == 'store':
        while p.peek() in FLAGS or p.peek() == 'atomic': p.next()
        t = p.type(); v = p.value(t); p.exp(','); p.type(); a = p.value(PTR)
        return Instr('store', None, t, [v, a])
    if op == 'getelementptr':
        while p.peek() in FLAGS: p.next()
        t = p.type(); p.exp(','); p.type(); b = p.value(PTR)
        idx = []
        while p.acc(','):
            if p.peek()[0] == '!': break
            it = p.type(); idx.append((it, p.value(it)))
        return Instr('gep', dst, t, [b], idx)
    if op == 'alloca':
        t = p.type(); n = 1
        al = 1
        while p.acc(','):
            if p.acc('align'): al = int(p.next())
            elif p.peek()[0] == '!': break
            else:
                it = p.type(); n = p.value(it)[1]
        return Instr('alloca', dst, t, [], n)
    if op == 'br':
        if p.acc('label'):
            return Instr('br', None, None, [], [p.next()])
        t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); a = p.next(); p.exp(','); p.exp('label'); b = p.next()
        return Instr('condbr', None, None, [c], [a, b])
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = p.next(); p.exp('[')
        cs = []
        while not p.acc(']'):
            ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label'); cs.append((cv[1], p.next()))
        return Instr('switch', None, t, [v], (d, cs))
    if op == 'phi':
        while p.peek() in FLAGS: p.next()
        t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); b = p.next(); p.exp(']')
            inc.append((v, b))
            if not p.acc(','): break
            if p.peek()[0] == '!': break
        return Instr('phi', dst, t, [v for v, _ in inc], [b for _, b in inc])
    if op == 'ret':
        t = p.type()
        if t == VOID: return Instr('ret', None, t, [])
        return Instr('ret', None, t, [p.value(t)])
    if op == 'unreachable': return Instr('unreachable')
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); ix = []
        while p.acc(','):
            if p.peek()[0] == '!': break
            ix.append(int(p.next()))
        return Instr('extractvalue', dst, t, [v], ix)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); v2 = p.value(t2); ix = []
        while p.acc(','):
            if p.peek()[0] == '!': break
            ix.append(int(p.next()))
        return Instr('insertvalue', dst, t, [v, v2], ix)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in ('fastcc', 'coldcc', 'cc', 'ccc', 'preserve_mostcc', 'preserve_allcc', 'contract', 'afn', 'reassoc', 'arcp'): 
            p.next()
        p.attrs()
        rt = p.type()
        if p.peek() == '(':   # function type
            d = 0
            while True:
                y = p.next()
                if y == '(': d += 1
                elif y == ')':
                    d -= 1
                    if d == 0: break
        if p.peek() == 'asm':
            return Instr('asm', dst, rt, [], ln)
        callee = p.value(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                t = p.type(); p.attrs()
                if t[0] == 'm':
                    # metadata argument: skip to , or )
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        y = p.next()
                        if y in '({': d += 1
                        if y in ')}': d -= 1
                    args.append((t, ('c', 0)))
                else:
                    args.append((t, p.value(t)))
                if p.acc(')'): break
                p.exp(',')
        if op == 'invoke':
            # to label %a unwind label %b
            while not p.acc('to'): p.next()
            p.exp('label'); a = p.next(); p.exp('unwind'); p.exp('label'); b = p.next()
            return Instr('invoke', dst, rt, args, (callee, a, b))
        return Instr('call', dst, rt, args, callee)
    if op == 'fence': return Instr('nop')
    if op == 'fneg':
        t = p.type(); return Instr('fneg', dst, t, [p.value(t)])
    if op in ('atomicrmw', 'cmpxchg'): return Instr('unsup', dst, None, [], ln)
    if op in ('landingpad', 'resume', 'extractelement', 'insertelement', 'shufflevector', 'cleanup'):
        return Instr('unsup', dst, None, [], ln)
    raise Exception('instr? ' + ln[:200])
