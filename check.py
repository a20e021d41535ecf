#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] : decides one property of /repo's current sources.

exit 0  property holds on everything analysed (known findings are printed as KNOWN-FINDING lines)
exit 1  a construct violates it (VIOLATION line on stdout, details in the replay file)
exit 2  the analysis itself could not be carried out
"""
import os, sys, json, time, importlib, tempfile, traceback, argparse, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get('PYTHONHASHSEED') != '0':          # deterministic set order
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

def known(pid):
    try: return [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == pid and k.get('status') == 'known']
    except FileNotFoundError: return []

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from engine import probe, guard
    guard.SEED = seed
    mod = importlib.import_module('specs.' + pid.lower())
    prop = mod.build()
    floor = 0
    try: floor = json.load(open(os.path.join(HERE, 'floors.json'))).get(pid, 0)
    except FileNotFoundError: pass
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    res, extra = [], []
    try:
        try:
            if prop.obs: res = probe.run_prop(prop, scratch, tier, a.only)
            for fn in prop.extra: extra.append(fn(scratch, tier))
        except probe.BuildError as e:
            print('ANALYSIS-ERROR property=%s the probe translation unit does not compile:\n%s' % (pid, e)); return 2
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    errs = [r for r in res if r.get('error')]
    viol, und, lines = [], [], set()
    slots = sum(r['slots'] for r in res); proved = sum(r['proved'] for r in res)
    for r in res:
        for s, m in r['undecided']: und.append({'probe': r['name'], 'cfg': r['cfg'], 'slot': s, 'why': m[:400]})
        for v in r['violations']: viol.append(dict(v, probe=r['name'], cfg=r['cfg']))
        lines.update(r.get('reach', ()))
    for x in extra:
        slots += x['obligations']; proved += x['discharged']
        viol += x['violations']; und += x.get('undecided', [])
        lines.update(x.get('reach', ()))
    kf = known(pid)
    new, hit = [], {}
    for v in viol:
        m = [k for k in kf if k['probe'] == v['probe'] and k.get('slot', v['slot']) == v['slot'] and (not k.get('cfg') or v['cfg'] in k['cfg'])
             and (not k.get('got') or k['got'] == v['got'])]
        if m: hit.setdefault(json.dumps(m[0], sort_keys=True), m[0])
        else: new.append(v)
    wall = time.time() - t0
    fns = sorted(lines)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(wall, 2), 'violations': len(new),
          'coverage': {
            'explanation': getattr(mod, 'EXPLAIN', None) or prop.title + ': every probe instantiates one entry point of the library on symbolic arguments; the compiler IR '
              'of the current source tree is interpreted abstractly (gated SSA) to a canonical normal form and compared with the normal form of the specification, '
              'for every build configuration listed. No code of the library is executed.',
            'obligations': slots, 'discharged': proved, 'undecided': len(und), 'known_findings': len(hit),
            'probes': len({r['name'] for r in res}), 'probe_configurations': len(res), 'configurations': sorted({r['cfg'] for r in res}),
            'ir_instructions_interpreted': sum(r['ninstr'] for r in res),
            'source_functions_reached': len(fns), 'source_functions': fns[:400],
            'undecided_list': und[:60],
            'samples': [{'probe': r['name'], 'cfg': r['cfg'], 'slots': r['slots'], 'proved': r['proved']} for r in res[:: max(1, len(res) // 8)][:10]],
            'structural': [x.get('summary') for x in extra]},
          'assumptions': ['floating-point arithmetic is treated as real arithmetic (rounding, NaN and signed zero are not distinguished)',
                          'clang 18 -O2 lowers the sources faithfully; the build configurations listed stand for the shipped ones'] + list(getattr(mod, 'ASSUME', []))}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in hit.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if a.v:
        for u in und[:40]: print('undecided', u)
    if errs:
        for r in errs[:5]: print('ANALYSIS-ERROR property=%s probe %s [%s]: %s' % (pid, r['name'], r['cfg'], r['error'][-600:]))
    if new:
        rp = os.path.join(HERE, 'evidence', 'replay_%s.json' % pid)
        json.dump({'property': pid, 'how_to_replay': 'python3-vt /verif/check.py %s --only %s -v' % (pid, new[0].get('probe', '')), 'violations': new[:200]}, open(rp, 'w'), indent=1, default=str)
        byp = {}
        for v in new: byp.setdefault(v['probe'], []).append(v)
        for p, vs in list(byp.items())[:25]:
            v = vs[0]
            print('  %s: %s [%s]' % (p, v.get('what', ''), ','.join(sorted({x['cfg'] for x in vs}))))
            print('     result %s computed as %s' % (','.join(sorted({str(x['slot']) for x in vs})), str(v['got'])[:200]))
            print('     specified %s' % str(v['want'])[:200])
            if v.get('witness'): print('     separated at %s' % str(v['witness'])[:240])
            for l in v.get('slice', [])[:6]: print('     through %s' % l)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if not a.only and slots < floor or (prop.obs and not res):
        print('ANALYSIS-ERROR property=%s only %d obligations analysed, expected at least %d' % (pid, slots, floor)); return 2
    if not a.only and slots and proved < slots // 10:
        print('ANALYSIS-ERROR property=%s only %d of %d obligations could be decided' % (pid, proved, slots)); return 2
    print('OK property=%s obligations=%d discharged=%d undecided=%d functions=%d wall=%.1fs' % (pid, slots, proved, len(und), len(fns), wall))
    return 0

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
