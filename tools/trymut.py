#!/usr/bin/env python3
"""Development helper: trymut.py LIST [ID...]: one-line mutations of /repo's
sources, each tried in scratch copies mounted over /repo and /verif inside a
private mount namespace: builds the simulator against the mutated tree and runs
the named checks. LIST: blocks '## id | file | C01 C09' then '@@old', '@@new'
(several pairs allowed, '@@file F' switches the file). CAP seconds per check."""
import os, re, subprocess, sys, shutil, json
CAP = os.environ.get('CAP', '30')
def parse(p):
    out = []; cur = None; sec = None; f = None
    for ln in open(p):
        if ln.startswith('## '):
            i, f, c = [x.strip() for x in ln[3:].split('|')]
            cur = {'id': i, 'checks': c.split(), 'pairs': []}; out.append(cur); sec = None
        elif ln.startswith('@@file '): f = ln.split()[1]
        elif ln.startswith('@@old'): cur['pairs'].append([f, '', '']); sec = 1
        elif ln.startswith('@@new'): sec = 2
        elif cur is not None and sec: cur['pairs'][-1][sec] += ln
    return out
if os.environ.get('TRYMUT') != '1':
    os.environ['TRYMUT'] = '1'
    lay = '''
mkdir -p /tmp/wt /tmp/vv/sim
rm -rf /tmp/wt/src; cp -a /repo/src /tmp/wt/src; rm -rf /tmp/wt.src; cp -a /repo/src /tmp/wt.src
rsync -a --delete --exclude target --exclude evidence /verif/sim/ /tmp/vv/sim/
cp /verif/check.sh /verif/known-findings.json /tmp/vv/
cp %s /tmp/mut/self.py
mount --bind /tmp/wt /repo; mount --bind /tmp/vv /verif
exec python3 /tmp/mut/self.py "$@"''' % os.path.realpath(sys.argv[0])
    a = [os.path.realpath(sys.argv[1])] + sys.argv[2:]
    os.execvp('unshare', ['unshare', '-m', 'bash', '-c', lay, 'x'] + a)
log = open('/tmp/mut/log', 'a')
def say(*a):
    print(*a, flush=True); print(*a, file=log, flush=True)
for m in parse(sys.argv[1]):
    if len(sys.argv) > 2 and m['id'] not in sys.argv[2:]: continue
    subprocess.run('rsync -ac --delete /tmp/wt.src/ /repo/src/', shell=True, check=True)
    bad = False
    for f, old, new in m['pairs']:
        p = '/repo/src/' + f; s = open(p).read()
        if s.count(old) != 1: say(m['id'], 'BAD old count', s.count(old), f); bad = True; break
        open(p, 'w').write(s.replace(old, new))
    if bad: continue
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', HYPERSIM_CAP_S=CAP)
    r = subprocess.run(['bash', '/verif/check.sh', 'build'], cwd='/verif', env=env, capture_output=True, text=True)
    if r.returncode: say(m['id'], 'NOBUILD', r.stderr[-1500:]); continue
    res = []
    for c in m['checks']:
        try:
            r = subprocess.run(['bash', '/verif/check.sh', c], cwd='/verif', env=env, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            res.append(c + '=TIMEOUT'); continue
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        cl = ''
        if v:
            rp = v[0].split('replay=')[-1].strip()
            try: cl = json.load(open(rp)).get('class', '')
            except Exception:
                mm = re.search(r'class[=:" ]+([\w-]+)', open(rp).read()); cl = mm.group(1) if mm else ''
        res.append('%s=%s%s' % (c, r.returncode, '(' + cl + ')' if cl else ''))
        if r.returncode == 1: break
    say(m['id'], 'CAUGHT' if any('=1' in x for x in res) else '*** MISSED', ' '.join(res))
subprocess.run('rsync -ac --delete /tmp/wt.src/ /repo/src/', shell=True)
