"""developer aid: (re)generate /verif/seeded/<id>/ from tools/seeds/*.py and validate each one.
A spec file defines SEEDS = [dict(id, property, edits=[(file rel. to /repo, old, new[, occurrence])], demo=<C++ main>, flags='', needs, breaks)].
usage: mkseed.py gen [ids] | validate [ids]"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = []
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    ns = {}
    exec(open(f).read(), ns)
    seeds += ns['SEEDS']
DEMO = '''#!/bin/bash
# builds and runs demo.cpp against ./include; exit 0 = the property holds
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++20 -O1 -include memory -Iinclude -I/opt/vp/compat -isystem /usr/include/eigen3 %s "$D/demo.cpp" -o "$T/demo" %s || exit 2
timeout 120 "$T/demo"
'''
def edit(root, s):
    for e in s['edits']:
        p = os.path.join(root, e[0]); t = open(p).read(); i = -1
        for _ in range((e[3] if len(e) > 3 else 0) + 1):
            i = t.find(e[1], i + 1)
        assert i >= 0, (s['id'], e[1])
        open(p, 'w').write(t[:i] + e[2] + t[i + len(e[1]):])
cmd, only = sys.argv[1], sys.argv[2:]
for s in seeds:
    if only and s['id'] not in only:
        continue
    d = os.path.join(V, 'seeded', s['id'])
    if cmd == 'gen':
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix='seed-')
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
        edit(w + '/r', s)
        df = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
        open(d + '/patch.diff', 'w').write(df)
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w)
        open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(s.get('script') or DEMO % (s.get('flags', ''), s.get('libs', '-lmsgpackc')))
        os.chmod(d + '/demo.sh', 0o755)
        if s.get('stub'):
            shutil.copytree(V + '/' + s['stub'], d + '/stub', dirs_exist_ok=True)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('gen', s['id'])
    else:
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        try:
            r1 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seed_out.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            o = json.load(open('/tmp/seed_out.json'))
            c = subprocess.run([sys.executable, V + '/check.py', s['property']], env=dict(os.environ, VERIF_EVID='/tmp/seed_ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        finally:
            subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        miss = sorted(base - set(o['passed'])) if base else []
        print('%-28s demo %d/%d tests passed=%d missing=%d  check %s rc=%d' % (s['id'], r0.returncode, r1.returncode, len(o['passed']), len(miss), s['property'], c.returncode))
        if r0.returncode or not r1.returncode or miss:
            print('   BAD:', r0.stdout[-500:], r1.stdout[-300:], miss[:3])
        print('     ', c.stdout.strip().splitlines()[0][:200] if c.stdout.strip() else '')
