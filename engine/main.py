"""/verif/check <property> [quick|thorough]: builds, decides, replays, writes the evidence file."""
import os, sys, time, json, threading, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import build, runner, props

def unhex(s): return bytes.fromhex(s)

def known_findings(pid):
    fn = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(fn): return []
    return [k for k in json.load(open(fn)).get('findings', []) if k['property'] == pid]

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = props.PROPS[pid]
    jobs = P.jobs(tier)
    only = os.environ.get('VX_ONLY')
    if only: jobs = [j for j in jobs if re.search(only, j.label())]
    res = {}
    def b(name, f, *a, **k):
        def go():
            try: res[name] = f(*a, **k)
            except Exception as e: res[name] = e
        th = threading.Thread(target=go); th.start(); return th
    th = [b('ir', build.ir, [P.feature], std=P.std, ct=P.o0), b('nat', build.native, [P.feature])]
    for t in th: t.join()
    for k in ('ir', 'nat'):
        if isinstance(res[k], Exception):
            print('ERROR: build of %s failed: %s' % (k, res[k])); sys.exit(2)
    tb = time.time() - t0
    lib = res['nat']
    limit = float(os.environ.get('VX_LIMIT', P.limit if tier == 'quick' else 3600 * 3))
    def log(r):
        print('%-40s %s paths=%d forks=%d steps=%d obl=%d (rw %d, solver %d) q=%d %.1fs' % (r['job'], 'VIOLATED' if r['violations'] else 'ERROR ' + r['error'] if r['error'] else 'INCONCLUSIVE %s' % r['inconclusive'][:3] if r['inconclusive'] else 'holds',
              r.get('paths', 0), r.get('forks', 0), r.get('steps', 0), r.get('obl', 0), r.get('discharged', {}).get('rewriting', 0), r.get('discharged', {}).get('solver', 0), r.get('queries', 0), r.get('wall', 0)), flush=True)
    known = known_findings(pid)
    def match_known(r, v, rep):
        for k in known:
            if re.fullmatch(k['harness'], r['job']) and re.search(k.get('failure', ''), v['name'] + ' ' + rep): return k
        return None
    memo = {}
    def confirm(r):
        """the violations of one harness that fail on the real code, the ones that do not, and the ones listed as known"""
        if id(r) in memo: return memo[id(r)]
        conf = []; unr = []; kn = []
        for v in r['violations']:
            data = runner.to_bytes(v['inputs'])
            if v['kind'] == 'ct':
                rep = 'FAIL ' + v['name']        # the two runs were re-executed concretely by the executor (see ct replay)
                rep = v.get('replayed') and rep or 'not reproduced'
            else: rep = build.replay(lib, r['fn'], r['params'], data)
            if rep.startswith('FAIL'):
                k = match_known(r, v, rep)
                if k: kn.append((k, r, rep))
                else: conf.append((r, v, rep, data))
            else: unr.append((r, v, rep, data))
        if not r['violations'] and (r.get('error') or r['inconclusive']):
            # an undecided job: a model of an explored path may still show a concrete failure on the real code
            for h in r.get('candidates', [])[:12]:
                rep = build.replay(lib, r['fn'], r['params'], unhex(h), 20)
                if rep.startswith('FAIL'):
                    v = dict(name='undecided path, failing model', kind='check', inputs=[])
                    k = match_known(r, v, rep)
                    if k: kn.append((k, r, rep))
                    else: conf.append((r, v, rep, unhex(h)))
                    break
        memo[id(r)] = (conf, unr, kn)
        return memo[id(r)]
    # a counterexample confirmed on the real code settles the check: the remaining harnesses are not waited for
    stop = None if os.environ.get('VX_ALL') else lambda r: bool(confirm(r)[0])
    nproc = int(os.environ.get('VX_JOBS', '8'))
    order = sorted(jobs, key=lambda j: -j.weight)
    rs = runner.run_jobs(res['ir'], order, seed, nproc, t0 + limit, stop=stop, log=log)
    confirmed = []; unrepro = []; knownhit = {}
    validated = 0; traces = 0; samples = []; badwit = []; vac = []
    for r in rs:
        c, u, k = confirm(r)
        confirmed += c; unrepro += u
        for x in k: knownhit.setdefault(x[0]['id'], x)
        traces += len(r['violations'])
    rest = [r for r in rs if not r['violations'] and not r.get('error') and not r['inconclusive']]
    # vacuity: every harness reaches its end (or all its paths end in a required panic), and that run succeeds on the real code
    from concurrent.futures import ThreadPoolExecutor
    def wit(r):
        if r.get('witness') is None:
            return (r, 'no-end', None) if not r.get('allpanic') else (r, 'ok', None)
        return r, build.replay(lib, r['fn'], r['params'], unhex(r['witness'])), r['witness']
    with ThreadPoolExecutor(8) as ex:
        for r, o, w in ex.map(wit, rest):
            if o == 'no-end':
                vac.append(r['job'])
            elif o.startswith('ok') or o == 'assume': validated += 1
            elif o.startswith('FAIL'): badwit.append((r, o, w))
            else: badwit.append((r, o, w))
            if len(samples) < 8 and w is not None: samples.append(dict(harness=r['job'], input=w[:128], native=o))
    traces += len(rest)
    sumk = lambda k: sum(r.get(k) or 0 for r in rs)
    funcs = sorted(set(f for r in rs for f in r.get('functions', [])))
    repo = [f for f in funcs if re.search(r'hacspec|secret_integers|abstract_integers', f) and 'vharness' not in f.split('::')[0]]
    errors = [(r['job'], r.get('error') or r['inconclusive'][:3]) for r in rs if r.get('error') or r['inconclusive']]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(confirmed),
        coverage=dict(
            states=sumk('paths') + sumk('forks'), transitions=sumk('steps'), traces_validated_against_impl=validated,
            samples=samples,
            harnesses=len(rs), harnesses_decided=len(rest),
            paths=sumk('paths'), forks=sumk('forks'), merges=sumk('merges'),
            obligations=sumk('obl'), discharged_by_solver=sum(r.get('discharged', {}).get('solver', 0) for r in rs), discharged_by_normal_form=sum(r.get('discharged', {}).get('rewriting', 0) for r in rs),
            queries=sumk('queries'), queries_unsat=sumk('unsat'), queries_sat=sumk('sat'), queries_unknown=sumk('unknown'), solver_s=round(sumk('solver_s'), 2),
            symbolic_input_bytes_max=max([r.get('inputs', 0) for r in rs] or [0]), terms=sumk('terms'),
            functions_encoded=len(funcs), repo_functions_encoded=repo[:400],
            bounds=P.bounds(tier), build_s=round(tb, 1),
            per_harness=[dict(harness=r['job'], paths=r.get('paths'), obligations=r.get('obl'), queries=r.get('queries'), solver_s=round(r.get('solver_s') or 0, 2), wall_s=round(r.get('wall') or 0, 2)) for r in rs][:400],
            undecided=[str(e) for e in errors][:20],
        ),
        assumptions=P.assumptions + props.COMMON)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d harnesses, %d decided, %d obligations, %d queries, solver %.1fs, build %.1fs, total %.1fs' % (pid, len(rs), len(rest), sumk('obl'), sumk('queries'), sumk('solver_s'), tb, time.time() - t0))
    for k, r, rep in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if confirmed:
        for n, (r, v, rep, data) in enumerate(confirmed[:20]):
            fn = os.path.join(ROOT, 'evidence', '%s.replay%d.json' % (pid, n))
            json.dump(dict(property=pid, harness=r['fn'], params=r['params'], input=data.hex(), check=v['name'], native=rep), open(fn, 'w'), indent=1)
            print('  %s: %s: %s' % (r['job'], v['name'], rep[:300]))
            if n == 0: first = fn
        print('VIOLATION property=%s replay=%s' % (pid, first))
        sys.exit(1)
    bad = 0
    for r, v, rep, data in unrepro:
        bad = 2; print('ERROR: counterexample does not reproduce: %s %s input=%s: %s' % (r['job'], v['name'], data.hex()[:200], rep))
    optional = set(r['job'] for r in rs if r.get('opt'))
    for j, e in errors:
        if j in optional: print('not decided (attempted only): %s: %s' % (j, e)); continue
        bad = 2; print('ERROR: undecided: %s: %s' % (j, e))
    for r, o, w in badwit:
        bad = 2; print('ERROR: witness run differs natively: %s input=%s: %s' % (r['job'], w, o))
    for j in vac:
        bad = 2; print('ERROR: harness never reaches its end: %s' % j)
    if not rs: bad = 2; print('ERROR: no harness')
    print('%s: %s' % (pid, 'undecided' if bad else 'holds within the stated bounds'))
    sys.exit(bad)
main()
