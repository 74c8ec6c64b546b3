"""check.py <property> : decides one property on /repo's current working tree."""
import os, sys, json, time, tempfile, shutil, traceback
import build

HERE = build.HERE

def known():
    """known findings: {property: {key: description}}"""
    out = {}
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        if l.startswith('known: property='):
            head, _, desc = l[len('known: property='):].partition(' -- ')
            p, _, key = head.partition(' ')
            out.setdefault(p, {})[key.strip()] = desc.strip()
    return out

def statement(prop):
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        if d['id'] == prop: return d
    raise SystemExit('unknown property ' + prop)

def main(argv):
    if argv[:1] == ['--setup']:
        build.driver(build.sysroot()); print('dumper built'); return 0
    prop = argv[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if '--thorough' in argv: tier = 'thorough'
    t0 = time.time(); d = statement(prop)
    import analyses, engine
    from nodecheck import Results
    res = Results(); cache = os.environ.get('DICE_SA_CACHE')
    tmp = None; failure = None; info = {}
    try:
        if cache: out = os.path.join(cache, build.tree_hash(build.REPO))
        else: tmp = out = tempfile.mkdtemp(prefix='dice-mir-')
        try:
            if not (cache and all(build.complete(os.path.join(out, c + '.jsonl')) for c in build.CRATES)): build.dump(out)
            P = engine.Prog(out)
            info = {'functions_in_program': len(P.F), 'crates': list(build.CRATES)}
            analyses.run(P, prop, res, tier)
        except build.BuildError as e:
            failure = 'the tree cannot be analysed: ' + str(e)
    finally:
        if tmp: shutil.rmtree(tmp, ignore_errors=True)
    v = dict(res.viol.get(prop, {}))
    if failure: v['build'] = (failure, ('build', '', '/repo'))
    kn = known().get(prop, {})
    new = {k: x for k, x in v.items() if k not in kn}; old = {k: x for k, x in v.items() if k in kn}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = {'explanation': analyses.explain(prop), 'rule': d['statement'], **info,
           'roots_decided': sorted(res.roots(prop)), 'roots_undecided': {k: x for k, x in res.undecided.items() if res.concerns(k, prop)},
           'counts': res.count.get(prop, {}), 'samples': res.samples.get(prop, [])[:12],
           'known_findings_seen': sorted(old), 'violations': {k: {'what': m, 'where': list(w)} for k, (m, w) in new.items()}}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
                   'wall_s': round(time.time() - t0, 2)}, f, indent=1)
    for k in sorted(old): print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k, kn[k]))
    for k, x in sorted(cov['roots_undecided'].items()): print('undecided: %s: %s' % (k, str(x)[:200].replace('\n', ' ')))
    print('%s: %d roots decided, obligations %s' % (prop, len(cov['roots_decided']), json.dumps(cov['counts'])))
    if not new: return 0
    rp = os.path.join(HERE, 'evidence', prop + '.violations.txt')
    with open(rp, 'w') as f:
        for k, (m, w) in sorted(new.items()):
            f.write('%s\n  construct: %s\n  function: %s\n  at: %s\n  rule: %s\n\n' % (m, w[0], w[1], w[2], d['title']))
    for k, (m, w) in sorted(new.items()): print('%s: %s [%s at %s]' % (w[0], m[:400], w[1], w[2]))
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1

def run(argv):
    try:
        return main(argv)
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); return 2
