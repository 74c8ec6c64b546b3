"""Builds the MIR dumper and dumps the type-checked program of /repo's current working tree. Nothing of /repo is executed."""
import os, subprocess, shutil, tempfile, hashlib, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DICE_REPO', '/repo')
CRATES = ('dice_bytecode', 'dice_core', 'dice_syntax', 'dice_compiler')

class BuildError(Exception): pass

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def sysroot():
    r = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if r.returncode: raise RuntimeError('no nightly toolchain: ' + r.stdout)
    return r.stdout.strip()

def driver(root):
    """the compiled dumper, kept in .build/ under its own hash"""
    src = os.path.join(HERE, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read() + root.encode()).hexdigest()[:16]
    d = os.path.join(HERE, '.build'); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'drv-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', tmp])
        if r.returncode: raise RuntimeError('the dumper does not build:\n' + r.stdout[-3000:])
        os.replace(tmp, out)
    return out

def tree_hash(repo):
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(repo)):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target'))
        for f in sorted(files):
            p = os.path.join(base, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def dump(out, repo=REPO):
    """write <out>/<crate>.jsonl for the four crates that make up the compiler"""
    root = sysroot(); drv = driver(root)
    scratch = tempfile.mkdtemp(prefix='dice-sa-')
    try:
        if not os.path.exists(os.path.join(repo, 'Cargo.lock')) and os.path.exists('/opt/vp/Cargo.lock'):
            # the repository ignores its lock file: analyse a copy of the tree that has one
            dst = os.path.join(scratch, 'tree')
            shutil.copytree(repo, dst, ignore=shutil.ignore_patterns('.git', 'target'))
            shutil.copy('/opt/vp/Cargo.lock', os.path.join(dst, 'Cargo.lock')); repo = dst
        env = dict(os.environ, LD_LIBRARY_PATH=root + '/lib', RUSTC_WORKSPACE_WRAPPER=drv, DICE_MIR_OUT=out,
                   CARGO_TARGET_DIR=os.path.join(scratch, 'target'), CARGO_NET_OFFLINE='true')
        env.pop('RUSTFLAGS', None); env.pop('RUSTC_WRAPPER', None)
        os.makedirs(out, exist_ok=True)
        r = sh(['cargo', '+nightly', 'check', '-p', 'dice-compiler', '--offline'], cwd=repo, env=env)
        missing = [c for c in CRATES if not complete(os.path.join(out, c + '.jsonl'))]
        if r.returncode or missing:
            raise BuildError('the tree does not build (missing: %s)\n%s' % (', '.join(missing), r.stdout[-3000:]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def complete(p):
    if not os.path.exists(p): return False
    with open(p, 'rb') as f:
        f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 200)); return b'"k":"end"' in f.read()
