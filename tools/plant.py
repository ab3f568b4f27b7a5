#!/usr/bin/env python3
"""Creates and confirms the planted bugs of tools/bugs.py in a scratch copy of /repo.
   tools/plant.py [id ...]     (writes seeded/<id>/ when the bug builds, passes the stable tests and the demo tells the trees apart)"""
import os, sys, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from bugs import BUGS
W = '/tmp/vx_plant'
SH = '''#!/bin/bash
# run with cwd = the repository; builds demo.rs against it in a scratch directory and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/vx_demo_XXXXXX) || exit 9
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
hacspec = { path = "$R/hacspec" }
hacspec-examples = { path = "$R/spec-examples" }
abstract_integers = { path = "$R/abstract-integers" }
secret_integers = { path = "$R/secret-integers" }
[workspace]
END
cd "$T" || exit 9
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/t" CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings
cargo build -q --offline || exit 9
timeout 120 "$T/t/debug/demo"
'''
def sh(cmd, cwd=None, t=1200):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=t)
def demo(d, repo):
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=repo)
    return r.returncode, (r.stdout + r.stderr)[-300:]
def tests(repo):
    # the scratch copy is built with the same commands, in its own directory
    e = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    r = subprocess.run(['cargo', 'test', '--workspace', '--offline', '--no-fail-fast'], cwd=repo, env=e, capture_output=True, text=True, timeout=1800)
    import re
    ok = set(re.findall(r'^test (.+?) \.\.\. ok$', r.stdout, re.M)); bad = re.findall(r'^test (.+?) \.\.\. FAILED$', r.stdout, re.M)
    return len(re.findall(r'\.\.\. ok$', r.stdout, re.M)), bad, r.returncode, r.stderr[-400:]
def main():
    want = sys.argv[1:]
    if os.path.isdir(W): shutil.rmtree(W)
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    base = tests(W)
    print('base tests', base[0], base[1])
    for b in BUGS:
        if want and b['id'] not in want: continue
        out = os.path.join(ROOT, 'seeded', b['id'])
        if not want and os.path.exists(os.path.join(out, 'patch.diff')): continue
        sh(['git', 'checkout', '-q', '--', '.'], cwd=W)
        good = True
        for f, old, new in b['edits']:
            p = os.path.join(W, f); s = open(p).read()
            if s.count(old) != b.get('count', 1): print(b['id'], 'edit matches', s.count(old), 'times:', old[:50]); good = False; break
            open(p, 'w').write(s.replace(old, new))
        if not good: continue
        tmp = '/tmp/vx_plant_out'
        if os.path.isdir(tmp): shutil.rmtree(tmp)
        os.makedirs(tmp)
        open(tmp + '/patch.diff', 'w').write(sh(['git', 'diff'], cwd=W).stdout)
        open(tmp + '/demo.sh', 'w').write(SH); os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo.rs', 'w').write(b['demo'])
        open(tmp + '/meta.json', 'w').write(json.dumps(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), indent=1) + '\n')
        t = tests(W)
        if t[1] or t[0] != base[0]: print(b['id'], 'TESTS', t); continue
        d1 = demo(tmp, W)
        sh(['git', 'checkout', '-q', '--', '.'], cwd=W)
        d0 = demo(tmp, W)
        if d0[0] != 0 or d1[0] in (0, 9): print(b['id'], 'DEMO', d0, d1); continue
        if os.path.isdir(out): shutil.rmtree(out)
        shutil.copytree(tmp, out)
        print(b['id'], 'kept')
    shutil.rmtree(W)
main()
