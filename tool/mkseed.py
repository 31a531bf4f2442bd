#!/usr/bin/env python3
"""mkseed.py [ID ...]: (re)generate seeded/<ID> from seeds_src/<ID>.seed and confirm it:
applies, builds, passes the tests, demo passes without and fails with it; then run the
property's check with the change applied. Always restores /repo."""
import json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
DEMO = '''#!/bin/bash
# run with cwd /repo after the build: 0 = property holds, nonzero = broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
ulimit -c 0
g++ -std=c++11 -g -w -include stdint.h %s -Isrc/include "$D/demo.cpp" %s -o "$T/demo" || exit 1
timeout 120 "$T/demo"
'''
def parse(p):
    t = open(p).read(); d = {}; edits = []
    head, *secs = re.split(r'^--- (\w+).*\n', t, flags=re.M)
    for ln in head.split('\n'):
        if ':' in ln: k, v = ln.split(':', 1); d[k.strip()] = v.strip()
    it = list(zip(secs[0::2], secs[1::2])); f = d.get('file'); i = 0
    while i < len(it):
        k, v = it[i]
        if k == 'file': f = v.strip()
        elif k == 'old': edits.append((f, v, it[i+1][1])); i += 1
        elif k == 'demo': d['demo'] = v
        i += 1
    d['edits'] = edits
    return d
def passed():
    sh('bash /opt/vp/test.sh /tmp/seed_out.json'); return set(json.load(open('/tmp/seed_out.json'))['passed'])
def main(ids, check=True):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    if sh('git -C /repo status --porcelain').stdout.strip(): sys.exit('/repo is not clean')
    for i in ids:
        d = parse(os.path.join(ROOT, 'seeds_src', i + '.seed')); out = os.path.join(ROOT, 'seeded', i); os.makedirs(out, exist_ok=True)
        open(out + '/demo.cpp', 'w').write(d['demo']); open(out + '/demo.sh', 'w').write(DEMO % (d.get('flags', ''), d.get('srcs', '')))
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        rep = [i, d['property']]
        a = sh('bash %s/demo.sh' % out, cwd=REPO); rep.append('demo-clean=%s' % a.returncode)
        try:
            for f, o, n in d['edits']:
                s = open(os.path.join(REPO, f)).read()
                if s.count(o) != 1: rep.append('EDIT-MATCHES=%d in %s' % (s.count(o), f)); break
                open(os.path.join(REPO, f), 'w').write(s.replace(o, n))
            open(out + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            b = sh('bash /opt/vp/build.sh'); rep.append('build=%s' % b.returncode)
            miss = stable - passed(); rep.append('tests=%s' % ('ok' if not miss else 'FAIL:' + ','.join(sorted(miss)[:3])))
            a = sh('bash %s/demo.sh' % out, cwd=REPO); rep.append('demo-bug=%s' % a.returncode)
            if check:
                c = sh('python3 tool/check.py ' + d['property'], cwd=ROOT)
                v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
                rep.append('check=%s %s' % (c.returncode, 'CONCRETE' if v and 'no-failing' not in v[0] else 'OBLIGATION' if v else 'MISSED'))
                try:
                    cov = json.load(open(os.path.join(ROOT, 'evidence', d['property'] + '.json')))['coverage']; rep.append('proof=' + cov['proof_status'])
                    if cov['proof_status'] != 'failed': rep.append(str(cov.get('undecided_reason'))[:150])
                except Exception: pass
        finally:
            sh('git -C /repo checkout -- .')
        print(' '.join(rep), flush=True)
    sh('bash /opt/vp/build.sh')
if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')] or sorted(f[:-5] for f in os.listdir(os.path.join(ROOT, 'seeds_src')) if f.endswith('.seed'))
    main(a, '--nocheck' not in sys.argv)
