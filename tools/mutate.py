"""developer aid: apply textual mutations to a scratch copy of the headers and run checks on it.
usage: mutate.py FILE.py   (FILE defines MUTS = [(header, old, new, [checks]) ...])"""
import os, re, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for i, m in enumerate(ns['MUTS']):
    if only and str(i) not in only:
        continue
    hdr, old, new, checks = m[:4]
    d = tempfile.mkdtemp(prefix='mut-')
    shutil.copytree('/repo/include', d + '/include')
    p = d + '/include/zerialize/' + hdr
    s = open(p).read()
    cnt = m[4] if len(m) > 4 else 0
    idx = -1
    for k in range(cnt + 1):
        idx = s.find(old, idx + 1)
    if idx < 0:
        print('%d: PATTERN NOT FOUND %r' % (i, old))
        shutil.rmtree(d)
        continue
    s = s[:idx] + new + s[idx + len(old):]
    open(p, 'w').write(s)
    for c in checks:
        ev = tempfile.mkdtemp(prefix='ev-')
        r = subprocess.run([sys.executable, '/verif/check.py', c], env=dict(os.environ, VERIF_REPO=d, VERIF_EVID=ev), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout.strip().splitlines()
        print('%d: %s rc=%d  %r -> %r' % (i, c, r.returncode, old[:60], new[:60]))
        for l in out[:2] if r.returncode else out[-1:]:
            print('      ' + l[:260])
        shutil.rmtree(ev)
    shutil.rmtree(d)
