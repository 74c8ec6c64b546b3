#!/usr/bin/env python3
"""plant.py [id...]: write seeded/<id> from tools/seeds.py, confirm each in a scratch copy (builds, tests pass, demo passes/fails) and say which checks catch it."""
import os, sys, subprocess, shutil, json, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE + '/tools')
import seeds
W = '/tmp/plant'; SCR = W + '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(SCR): sh('cp -a /repo %s' % SCR)
    sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && cp /repo/Cargo.lock . ' % SCR)
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=SCR + '/target', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
SCOPE = '--workspace --exclude dice-runtime --exclude dice --exclude dice-cli'
def main(ids):
    for s in seeds.SEEDS:
        if ids and s['id'] not in ids: continue
        fresh(); ok = True
        d = HERE + '/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
        for f, a, b in s['edits']:
            p = SCR + '/' + f; t = open(p).read()
            if t.count(a) != 1: print(s['id'], 'EDIT MATCHES', t.count(a), a[:60]); ok = False; break
            open(p, 'w').write(t.replace(a, b))
        if not ok: continue
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=SCR).stdout)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.copy(HERE + '/tools/demo/vm.rs', d + '/vm.rs'); shutil.copy(HERE + '/tools/demo/demo.sh', d + '/demo.sh')
        main_rs = s['demo'] if 'fn main' in s['demo'] else '#![allow(unused)]\nmod vm;\nuse vm::*;\nfn main() {\n' + s['demo'] + '\n}\n'
        open(d + '/main.rs', 'w').write(main_rs)
        r = sh('cargo test %s --offline 2>&1' % SCOPE, cwd=SCR, env=ENV)
        passed = sum(int(l.split('ok. ')[1].split()[0]) for l in r.stdout.splitlines() if l.startswith('test result: ok.'))
        if r.returncode or passed < 14: print(s['id'], 'TESTS', r.returncode, passed, r.stdout[-800:]); continue
        e2 = dict(os.environ, DEMO_TARGET=W + '/dt')
        bad = sh('bash %s/demo.sh' % d, cwd=SCR, env=e2); good = sh('bash %s/demo.sh' % d, cwd='/repo', env=dict(os.environ, DEMO_TARGET=W + '/dt0'))
        if good.returncode != 0 or bad.returncode in (0, 2): print(s['id'], 'DEMO good=%d bad=%d' % (good.returncode, bad.returncode), good.stdout[-600:], bad.stdout[-300:]); continue
        c = check(s['property'])
        caught = sh('grep -l x /dev/null')
        allp = [p for p in ALL if p != s['property'] and '--all' in sys.argv and check(p)[0] == 1]
        print('%-28s %s %s %s' % (s['id'], s['property'], 'CAUGHT' if c[0] == 1 else 'MISSED rc=%d' % c[0], c[1][:230] if c[0] == 1 else c[1][-300:]), allp, flush=True)
ALL = ['C%02d' % i for i in range(1, 22)]
def check(p):
    r = sh('python3 %s/check.py %s' % (HERE, p), env=dict(os.environ, DICE_REPO=SCR, DICE_SA_CACHE=W + '/cache'))
    lines = [l for l in r.stdout.splitlines() if not l.startswith(('KNOWN', p + ':', 'VIOLATION'))]
    return r.returncode, ' | '.join(lines)
main([a for a in sys.argv[1:] if not a.startswith('--')])
