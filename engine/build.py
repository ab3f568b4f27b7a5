"""Builds the harness crate to LLVM IR and the native replay library from /repo's working tree."""
import os, subprocess, glob, time, threading, shutil, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TC = 'stable-x86_64-unknown-linux-gnu'
IRFLAGS = '--emit=llvm-ir,link -Copt-level=1 -Cdebug-assertions=on -Coverflow-checks=on -Cpanic=abort -Ccodegen-units=1 -Zshare-generics=no -Cno-vectorize-loops -Cno-vectorize-slp -Cdebuginfo=0 -Awarnings -Cembed-bitcode=no'
O0FLAGS = IRFLAGS.replace('-Copt-level=1', '-Copt-level=0')
class BuildError(Exception): pass
def env(flags, target):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true', RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=target, RUSTFLAGS=flags, CARGO_INCREMENTAL='0')
    e.pop('CARGO_BUILD_TARGET', None)
    return e
def bdir(): 
    d = os.environ.get('VX_BUILD') or os.path.join(ROOT, 'build')
    os.makedirs(d, exist_ok=True); return d
def ir(features, std=False, ct=False):
    tag = 'ir' + ('std' if std else '') + ('ct' if ct else '') + '_' + '_'.join(features)
    target = os.path.join(bdir(), tag)
    cmd = ['cargo', 'build', '--offline', '--locked', '--manifest-path', os.path.join(ROOT, 'harness', 'Cargo.toml'), '--target', 'x86_64-unknown-linux-gnu', '--features', ','.join(features)]
    if std: cmd += ['-Z', 'build-std=std,panic_abort']
    deps = os.path.join(target, 'x86_64-unknown-linux-gnu/debug/deps')
    for f in glob.glob(os.path.join(deps, '*.ll')): os.unlink(f)
    # stale artefacts without their .ll must be rebuilt
    if os.path.isdir(os.path.join(target, 'x86_64-unknown-linux-gnu')): shutil.rmtree(os.path.join(target, 'x86_64-unknown-linux-gnu'))
    r = subprocess.run(cmd, env=env(O0FLAGS if ct else IRFLAGS, target), capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-6000:])
    return sorted(glob.glob(os.path.join(deps, '*.ll')))
def native(features):
    target = os.path.join(bdir(), 'native_' + '_'.join(features))
    cmd = ['cargo', 'build', '--offline', '--locked', '--manifest-path', os.path.join(ROOT, 'native', 'Cargo.toml'), '--features', ','.join(features)]
    r = subprocess.run(cmd, env=env('-Awarnings', target), capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-6000:])
    return os.path.join(target, 'debug', 'libvnative.so')
RUN = '''
import ctypes, sys
l = ctypes.CDLL(sys.argv[1]); l.vx_init(); getattr(l, sys.argv[2])(); l.vx_fini()
'''
def replay(lib, fn, params, inputs, timeout=120):
    """inputs: bytes.  -> 'ok' | 'FAIL ...' | 'assume' | 'error ...'"""
    e = dict(os.environ, VX_INPUT=inputs.hex(), VX_PARAMS=','.join(str(p) for p in params))
    try: r = subprocess.run([sys.executable, '-c', RUN, lib, fn], env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return 'FAIL timeout: does not terminate within %d s' % timeout
    for l in reversed(r.stdout.splitlines()):
        if l.startswith('VX '): return l[3:]
    if r.returncode < 0: return 'FAIL died by signal %d' % -r.returncode
    return 'error ' + r.stderr[-300:]
