#!/usr/bin/env python3
"""Debug aid: where the two sides of the first undischarged equality differ structurally.
   tools/diff.py C20 h_c20_msg 3"""
import sys, os, threading, resource
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import build, runner, props, execu, term as tm, decide
from term import T
def pair(a, b, seen, depth=0):
    """descend while operators and arities agree and exactly some children differ"""
    if a is b or (a, b) in seen: return False
    seen.add((a, b))
    if a.__class__ is T and b.__class__ is T and a.op == b.op and a.w == b.w:
        ka, kb = tm.kids(a), tm.kids(b)
        if len(ka) == len(kb):
            if a.op in ('add', 'xor', 'and', 'or', 'mul'):
                sa = [x for x in ka if x not in kb]; sb = [x for x in kb if x not in ka]
            else: sa = [x for x, y in zip(ka, kb) if x is not y]; sb = [y for x, y in zip(ka, kb) if x is not y]
            hit = False
            if len(sa) == 1 == len(sb) or a.op not in ('add', 'xor', 'and', 'or', 'mul'):
                for x, y in zip(sa, sb):
                    if x.w == y.w and pair(x, y, seen, depth + 1): return True
                    hit = True
                if hit: return False
            if a.op == 'xor':
                print('xor depth', depth, 'consts', hex(a.a[0]), hex(b.a[0]))
                for x in sa: print('  A-only', tm.show(x, 3)[:300])
                for x in sb: print('  B-only', tm.show(x, 3)[:300])
            for x in sa:
                for y in sb:
                    if x.op == y.op and x.w == y.w and pair(x, y, seen, depth + 1): return True
    if a.__class__ is T and b.__class__ is T and a.op == b.op == 'add':
        ta, tb = ({x: c for x, c in zip(tm.kids(t), [q[0] if isinstance(q, tuple) else q for q in t.a[1:]])} for t in (a, b))
        print('add', len(tm.kids(a)), len(tm.kids(b)), 'consts', a.a[0], b.a[0])
        for x in tm.kids(a):
            if x not in tb: print('  A-only', tm.show(x, 4)[:600])
        for x in tm.kids(b):
            if x not in ta: print('  B-only', tm.show(x, 4)[:600])
        return True
    print('at depth', depth); print(' A', tm.show(a, 5)[:1500]); print(' B', tm.show(b, 5)[:1500])
    return True
def main():
    pid, fn, ps = sys.argv[1], sys.argv[2], [int(x) for x in sys.argv[3:]]
    P = props.PROPS[pid]
    paths = build.ir([P.feature], std=P.std, ct=P.o0)
    prog = runner.load(paths); prog.touched = set()
    def prove(cons, *a):
        g = cons[-1]
        print('goal', tm.show(g, 3)[:300])
        for t in tm.topo([g]):
            if t.op == 'eq' and pair(t.a[0], t.a[1], set()): break
        os._exit(0)
    decide.prove = prove
    decide.confirm = lambda *a: False
    job = runner.Job(fn, ps)
    print(runner.run_job(prog, job, 1)['obl'])
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main); t.start(); t.join()
