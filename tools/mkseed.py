#!/usr/bin/env python3-vt
"""mkseed.py SPEC.py : plants, confirms and stores seeded changes.
SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo=C++ body, needs, breaks, includes=[...], flags='', lib=False)]"""
import sys, os, subprocess, json, runpy, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build_ok():
    b = sh('bash /opt/vp/build.sh')
    if b.returncode: return 'build failed: ' + b.stdout[-800:]
    sh('bash /opt/vp/test.sh /tmp/mkseed_o.json')
    o = json.load(open('/tmp/mkseed_o.json')); base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    t = json.dumps(o)
    bad = [x for x in base if x not in o.get('passed', [])]
    return 'tests failed: %s' % bad if bad else None
DEMO = '''#!/bin/bash
# exit 0: the property holds for the demonstrated inputs; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'cd /; rm -rf "$t"' EXIT
g++ -std=c++17 -O1 %(flags)s -D_USE_MATH_DEFINES -DNOMINMAX -I/repo/include "$d/demo.cpp" %(src)s -o "$t/demo" || exit %(ccfail)d
timeout 60 "$t/demo"
'''
CPP = '''#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <vector>
%(inc)s
using namespace math;
static int bad = 0;
static void near(double got, double want, const char* what, double tol = 1e-4)
{ if (!(std::fabs(got - want) <= tol * (1.0 + std::fabs(want)))) { std::printf("%%s: got %%g, expected %%g\\n", what, got, want); bad = 1; } }
static void check(bool ok, const char* what) { if (!ok) { std::printf("wrong: %%s\\n", what); bad = 1; } }
int main()
{
%(body)s
	return bad;
}
'''
def main():
    only = sys.argv[2:] 
    for s in runpy.run_path(sys.argv[1])['SEEDS']:
        if only and s['id'] not in only: continue
        assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
        d = os.path.join(H, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(CPP % dict(inc='\n'.join('#include "math/%s"' % i for i in s['includes']) + '\n' + s.get('pre', ''), body=s['demo']))
        for n, t in s.get('extra', {}).items(): open(d + '/' + n, 'w').write(t)
        src = ' '.join('/repo/source/' + x for x in s.get('src', []))
        open(d + '/demo.sh', 'w').write(DEMO % dict(flags=s.get('flags', '-march=haswell'), src=src, ccfail=1 if s.get('ccfail') else 2)); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        ok = True
        r = sh('cd /repo && bash %s/demo.sh' % d)
        if r.returncode: print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.returncode, r.stdout[-600:]); ok = False
        try:
            for f, old, new in s['edits']:
                p = os.path.join(R, f); t = open(p, newline='').read()
                if '\r\n' in t: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                assert t.count(old) == 1, (s['id'], f, t.count(old))
                open(p, 'w', newline='').write(t.replace(old, new))
            e = build_ok()
            if e: print(s['id'], e); ok = False
            r = sh('cd /repo && bash %s/demo.sh' % d)
            if r.returncode == 0 or r.returncode == 2: print(s['id'], 'DEMO DOES NOT FAIL', r.stdout[-500:]); ok = False
            open(d + '/patch.diff', 'w', newline='').write(subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout.decode())
            demo = r.stdout.strip().splitlines()
            if ok:
                c = sh('cd %s && python3-vt check.py %s' % (H, s['prop']))
                print(s['id'], 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + s['prop'] in c.stdout else 'MISSED rc=%d %s' % (c.returncode, c.stdout[-300:]), '| demo:', demo[:1])
        finally:
            sh('git -C /repo checkout -- .')
        if not ok: print('  -> removing', d); shutil.rmtree(d)
main()
