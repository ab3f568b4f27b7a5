"""Runs the harnesses of one property: build, symbolic execution (worker processes), replay, evidence."""
import os, sys, time, json, traceback, multiprocessing as mp, resource, hashlib
import build, term as tm, smt, hooks
from execu import Program, Engine, demangle

class Job:
    """one harness with concrete parameters"""
    def __init__(self, fn, params=(), cap=300, solver=60, bound='', std=False, ctir=False, mode=None, forks=20000, weight=1, opt=False):
        self.opt = opt         # attempted: an undecided result is reported in the evidence, not an error
        self.fn = fn; self.params = tuple(params); self.cap = cap; self.solver = solver; self.bound = bound; self.mode = mode or {}
        self.forks = forks; self.weight = weight
    def label(self): return self.fn + ('(%s)' % ','.join(map(str, self.params)) if self.params else '')

PROG = None
def wanted(paths):
    keep = ('vharness', 'hacspec', 'hacspec_examples', 'secret_integers', 'abstract_integers', 'num-', 'core-', 'alloc-', 'std-')
    return [p for p in paths if os.path.basename(p).startswith(keep)]

def load(paths):
    return Program(wanted(paths), hooks.HOOKS, hooks.hookrx())

def run_job(prog, job, seed):
    tm.reset(); tm.EXT.clear()
    t0 = time.time()
    s0 = smt.STATS; smt.STATS = s = smt.Stats()
    import decide
    eng = Engine(prog, job.params, seed, solver_timeout=job.solver, deadline=t0 + job.cap, maxforks=job.forks)
    eng.mode = dict(job.mode)
    tm.ACAP = job.mode.get('acap', 20000)
    prog.used = {}
    err = None
    for lz in prog.lazy.values():
        pass
    try:
        eng.call_entry('@' + job.fn)
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VX_TB'): traceback.print_exc()
    wit = eng.witness if eng.witness is not None else eng.panwit
    r = dict(job=job.label(), fn=job.fn, params=list(job.params), error=err, violations=eng.violations, inconclusive=eng.inconclusive,
             obl=len(eng.obl), obls=eng.obl, discharged=eng.discharged, paths=eng.paths, forks=eng.forks, merges=eng.merges, steps=eng.steps, ended=len(eng.ended),
             queries=s.queries, unsat=s.unsat, sat=s.sat, unknown=s.unknown, solver_s=s.time, by=s.by, wall=time.time() - t0,
             functions=sorted(prog.touched), terms=len(tm.ALL), inputs=sum(v[1] for v in eng.inputs.values()), uninit=eng.uninit,
             witness=None if wit is None else to_bytes(eng.input_list(wit)).hex(),
             candidates=[to_bytes(eng.input_list(e)).hex() for e in eng.envs[:40]] if (err or eng.inconclusive) else [], bound=job.bound)
    prog.touched = set()
    r['opt'] = job.opt
    return r

def to_bytes(lst):
    out = bytearray()
    for seq, nb, h in lst:
        b = int(h, 16).to_bytes(nb, 'little')
        if len(out) < seq + nb: out.extend(b'\0' * (seq + nb - len(out)))
        out[seq:seq+nb] = b
    return bytes(out)

def worker(paths, jobs, seed, q, idx):
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception: pass
    import threading
    threading.stack_size(512 * 1024 * 1024)
    def body():
        prog = load(paths); prog.touched = set()
        while True:
            with idx.get_lock():
                i = idx.value; idx.value += 1
            if i >= len(jobs): break
            q.put((i, None))
            try: r = run_job(prog, jobs[i], seed)
            except BaseException as e:
                r = dict(job=jobs[i].label(), fn=jobs[i].fn, params=list(jobs[i].params), error='%s: %s' % (type(e).__name__, e), violations=[], inconclusive=[], opt=jobs[i].opt)
            q.put((i, r))
    t = threading.Thread(target=body); t.start(); t.join()
    q.put((-1, None))

def run_jobs(paths, jobs, seed, nproc=8, deadline=None, stop=None, log=None):
    q = mp.Queue(); idx = mp.Value('i', 0)
    nproc = min(nproc, len(jobs)) or 1
    ps = [mp.Process(target=worker, args=(paths, jobs, seed, q, idx), daemon=True) for _ in range(nproc)]
    for p in ps: p.start()
    res = {}; started = {}; live = nproc
    while live:
        try: i, r = q.get(timeout=2)
        except Exception:
            if not any(p.is_alive() for p in ps): break
            if deadline and time.time() > deadline: break
            continue
        if i == -1: live -= 1
        elif r is None: started[i] = time.time()
        else:
            res[i] = r
            if log: log(r)
            if stop and stop(r): break
        if deadline and time.time() > deadline: break
    for p in ps:
        if p.is_alive(): p.terminate()
    for p in ps: p.join()
    out = []
    for i, j in enumerate(jobs):
        out.append(res.get(i) or dict(job=j.label(), fn=j.fn, params=list(j.params), error='not finished', violations=[], inconclusive=[], opt=j.opt))
    return out
