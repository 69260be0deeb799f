#!/usr/bin/env python3
"""mkseed.py DEF.py : DEF defines ID, PROPERTY, NEEDS, BREAKS, SUBS=[(file, old, new)], DEMO (C++ text), [FLAGS], [SRCS].
Applies the change to /repo, confirms build + stable tests + demo + the check's verdict, restores /repo, writes /verif/seeded/ID."""
import sys, os, subprocess, json, runpy, time
d = runpy.run_path(sys.argv[1]); D = lambda k, v=None: d.get(k, v)
out = '/verif/seeded/' + d['ID']; os.makedirs(out, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
assert sh('git -C /repo status --short').stdout.strip() == '', 'repo dirty'
open(out + '/demo.cpp', 'w').write(d['DEMO'])
open(out + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository. Exit 0: behaves as promised.
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
%s -std=c++17 -w -mcx16 -msse2 -pthread %s -I include "$here/demo.cpp" %s -o "$w/demo" || exit 99
cd "$w" && timeout 120 ./demo
''' % (D('CXX', 'g++-10'), D('FLAGS', '-O1'), D('SRCS', '')))
os.chmod(out + '/demo.sh', 0o755)
json.dump(dict(property=d['PROPERTY'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
try:
    r0 = sh('bash %s/demo.sh' % out, cwd='/repo'); print('demo clean rc', r0.returncode, r0.stdout[-1500:] if r0.returncode else '')
    for f, old, new in d['SUBS']:
        p = '/repo/' + f; s = open(p, encoding='latin1', newline='').read()
        if '\r\n' in s: old = old.replace('\r\n', '\n').replace('\n', '\r\n'); new = new.replace('\r\n', '\n').replace('\n', '\r\n')
        assert s.count(old) == 1, (f, s.count(old)); open(p, 'w', encoding='latin1', newline='').write(s.replace(old, new))
    diff = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
    open(out + '/patch.diff', 'wb').write(diff)
    b = sh('bash /opt/vp/build.sh'); print('build rc', b.returncode)
    t = sh('bash /verif/tools/runtests.sh'); print(t.stdout.strip())
    r1 = sh('bash %s/demo.sh' % out, cwd='/repo'); print('demo patched rc', r1.returncode, r1.stdout[-300:])
    if '--nocheck' not in sys.argv:
        t0 = time.time(); c = sh('python3 check.py ' + d['PROPERTY'], cwd='/verif'); print('check rc', c.returncode, '%.0fs' % (time.time() - t0), c.stdout[-600:])
finally:
    sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh') if '--rebuild' in sys.argv else None
ok = r0.returncode == 0 and b.returncode == 0 and "missing []" in t.stdout and r1.returncode not in (0, 99)
print('VALID' if ok else 'INVALID', d['ID'])
