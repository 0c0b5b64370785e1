"""Helper: write seeded/<id>/ from edits given as (file, old, new)."""
import os, json, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Run in /repo after the build: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++11 -w -O1 %(flags)s-I src "$here/demo.cpp" -o "$out/demo" -L _build/lib -Wl,--no-as-needed %(libs)s -lreflect_primitives -lreflect -lpthread -Wl,-rpath,"$PWD/_build/lib" || exit 5
ulimit -c 0
timeout 60 "$out/demo"
'''
def seed(id, prop, edits, demo, needs, breaks, libs='-lreflect_std', flags=''):
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open('/repo/' + f).read()
        assert s.count(old) >= 1, (id, f, old)
        files[f] = s.replace(old, new, 1)
    out = ''
    for f, s in files.items():
        a = open('/repo/' + f).read().splitlines(True)
        out += 'diff --git a/%s b/%s\n' % (f, f)
        out += ''.join(difflib.unified_diff(a, s.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO_SH % dict(libs=libs, flags=flags))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
