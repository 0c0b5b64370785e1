#!/usr/bin/env python3
"""Validate planted bugs: for each seeded/<id>, patch /repo, rebuild, run the stable
tests, the demonstration and the property's check; undo the patch afterwards.
usage: seed.py [--all-checks] [id...]"""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    allc = '--all-checks' in sys.argv
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('passed') or base.get('stable') or base.get('tests'))
    man = json.load(open(V + '/MANIFEST.json'))
    claimed = [c['property'] for c in man['checks']] if 'checks' in man else []
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    sh('bash /opt/vp/build.sh')
    for i in args or sorted(os.listdir(V + '/seeded')):
        d = V + '/seeded/' + i
        meta = json.load(open(d + '/meta.json'))
        r0 = sh('timeout 280 bash %s/demo.sh' % d, cwd='/repo')
        a = sh('git -C /repo apply %s/patch.diff' % d)
        try:
            b = sh('bash /opt/vp/build.sh')
            t = tempfile.mktemp()
            sh('bash /opt/vp/test.sh ' + t)
            res = json.load(open(t)); os.unlink(t)
            missing = stable - set(res['passed'])
            r1 = sh('timeout 280 bash %s/demo.sh' % d, cwd='/repo')
            cs = []
            for c in (claimed if allc else [meta['property']]):
                r = sh('./run.sh %s quick' % c, cwd=V)
                if c == meta['property'] or r.returncode: cs.append('%s=%d' % (c, r.returncode))
        finally:
            sh('git -C /repo checkout -- .')
            sh('bash /opt/vp/build.sh')
        ok = r0.returncode == 0 and a.returncode == 0 and b.returncode == 0 and not missing and r1.returncode != 0
        print('%-28s %s clean=%d apply=%d build=%d missing=%d bug=%d checks %s' % (i, 'OK ' if ok else 'BAD', r0.returncode, a.returncode, b.returncode, len(missing), r1.returncode, ' '.join(cs)), flush=True)
        if r0.returncode: print(r0.stdout[-1500:])
        if missing: print(sorted(missing)[:5])
    sh('bash /opt/vp/build.sh')
main()
