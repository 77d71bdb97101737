#!/usr/bin/env python3
"""plant.py [id...]: writes /verif/seeded/<id>/ for the bugs in plants*.py after confirming, in a scratch copy of
/repo, that the patch changes original lines, builds, passes the tests, and that the demo passes without it and
fails with it. plant.py -check [id...] runs, for each seeded bug, the check of its property (and reports others
given with -all) on a scratch copy with the bug and prints which checks catch it."""
import sys, os, json, subprocess, shutil, glob, importlib.util, tempfile, threading, queue
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(here))
env = dict(os.environ)
for l in subprocess.run('. /opt/vp/env.sh; env', shell=True, capture_output=True, text=True, executable='/bin/bash').stdout.splitlines():
    if '=' in l:
        k, v = l.split('=', 1); env[k] = v
env.update(GOSUMDB='off', GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
BASE = 'ca90855'
PRELUDE = open(here + '/prelude.go').read()
DEMO = open(here + '/demo.sh').read()

def sh(cmd, cwd, t=300, **kw):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, **kw)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -9, 'timeout'

def load():
    P = []
    for f in sorted(glob.glob(here + '/plants*.py')):
        s = importlib.util.spec_from_file_location('x', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        P += m.P
    ids = [p['id'] for p in P]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return P

def write(p, d):
    os.makedirs(d, exist_ok=True)
    internal = p.get('internal')
    src = ('package goast\n' if internal else PRELUDE) + '\n' + p['demo']
    open(d + '/demo_test.go.txt', 'w').write(src)
    rc, o = sh(['goimports', '-w', d + '/demo_test.go.txt'], d)
    if rc: return 'demo does not parse: ' + o
    dm = DEMO
    if p.get('race'): dm = dm.replace('go test ', 'go test -race ')
    open(d + '/demo.sh', 'w').write(dm); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/meta.json', 'w').write(json.dumps({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, indent=1) + '\n')

def plant(p, slot):
    repo = slot + '/repo'
    if not os.path.isdir(repo):
        os.makedirs(slot); shutil.copytree('/repo', repo, symlinks=True)
    sh(['git', 'checkout', '-q', '-f', '.'], repo); sh(['git', 'clean', '-qfd'], repo)
    for f, old, new in p['edits']:
        s = open(repo + '/' + f).read()
        if s.count(old) != 1: return 'edit of %s matches %d times: %r' % (f, s.count(old), old[:80])
        open(repo + '/' + f, 'w').write(s.replace(old, new))
    fs = sorted({e[0] for e in p['edits']})
    sh(['goimports', '-w'] + fs, repo)
    _, diff = sh(['git', 'diff'], repo)
    # which removed lines are original ones
    orig = own = 0
    for f in fs:
        _, b = sh(['git', 'blame', '-s', f], repo.replace(repo, '/repo'))
        isb = [BASE[:7] in l.split()[0] for l in b.splitlines()]
        _, d0 = sh(['git', 'diff', '-U0', f], repo)
        for l in d0.splitlines():
            if l.startswith('@@'):
                a = l.split()[1][1:]; st, _, n = a.partition(','); n = int(n or 1)
                for i in range(int(st), int(st) + n):
                    if isb[i - 1]: orig += 1
                    else: own += 1
    if orig == 0: return 'changes no original line'
    note = '' if own == 0 else ' (also %d own lines)' % own
    rc, o = sh(['go', 'build', './...'], repo)
    if rc: return 'does not build: ' + o[:600]
    rc, o = sh(['go', 'vet', '.', './kind', './helper', './charset', './scope', './assert'], repo)
    if rc: note += ' (vet: %s)' % o[:200]
    rc, o = sh(['go', 'test', '-vet=off', '-count=1', './...'], repo)
    shutil.rmtree(repo + '/exported/output', ignore_errors=True)
    if rc: return 'existing tests fail: ' + o[-700:]
    d = slot + '/demo'
    shutil.rmtree(d, ignore_errors=True)
    e = write(p, d)
    if e: return e
    rc, o = sh(['bash', d + '/demo.sh'], repo)
    if rc == 0: return 'demo passes with the bug'
    bad = o
    if 'DEMO-FAILED' not in o and 'DATA RACE' not in o and not p.get('crash'): return 'demo fails oddly: ' + o[:900]
    sh(['git', 'checkout', '-q', '-f', '.'], repo)
    rc, o = sh(['bash', d + '/demo.sh'], repo)
    if rc != 0: return 'demo fails without the bug: ' + o[:900]
    out = V + '/seeded/' + p['id']
    shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
    open(out + '/patch.diff', 'w').write(diff)
    i = bad.find('DEMO-FAILED')
    return 'ok' + note + ': ' + bad[i:i + 160].replace('\n', ' | ')

def check(pid, slot, ids):
    repo = slot + '/repo'
    if not os.path.isdir(repo):
        os.makedirs(slot + '/v/evidence'); shutil.copytree('/repo', repo, symlinks=True)
        shutil.copytree(V + '/harness', slot + '/harness')
        g = open(slot + '/harness/go.mod').read().replace('=> /repo', '=> ' + repo); open(slot + '/harness/go.mod', 'w').write(g)
        json.dump({'Replace': {repo + '/zz_verif_export.go': V + '/overlay/zz_verif_export.go'}}, open(slot + '/ov.json', 'w'))
    sh(['git', 'checkout', '-q', '-f', '.'], repo)
    rc, o = sh(['git', 'apply', V + '/seeded/' + pid + '/patch.diff'], repo)
    if rc: return {'err': 'patch does not apply ' + o}
    res = {}
    built = {}
    for c in ids:
        flags = {'C18': ('-tags=trie', '-overlay', slot + '/ov.json'), 'C19': ('-race',)}.get(c, ())
        if flags not in built:
            rc, o = sh(['go', 'build', '-o', slot + '/vh', *flags, '.'], slot + '/harness', 400)
            if rc: res[c] = 'BUILD ' + o[:200]; continue
            built = {flags: 1}
        rc, o = sh([slot + '/vh', '-prop', c, '-verif', slot + '/v'], slot, 900)
        ok = ('VIOLATION property=%s' % c) in o
        res[c] = 'caught' if rc == 1 and ok else 'missed' if rc == 0 else 'RC%d %s' % (rc, o[-300:])
    sh(['git', 'checkout', '-q', '-f', '.'], repo)
    return res

def main():
    a = sys.argv[1:]
    chk = '-check' in a; al = '-all' in a
    ids = [x for x in a if not x.startswith('-')]
    P = {p['id']: p for p in load()}
    todo = [i for i in (P if not chk else sorted(os.listdir(V + '/seeded'))) if not ids or i in ids]
    q = queue.Queue(); [q.put(i) for i in todo]
    lock = threading.Lock(); root = tempfile.mkdtemp(prefix='plant'); bad = 0
    results = {}
    def work(k):
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            slot = '%s/%d' % (root, k)
            if chk:
                prop = json.load(open(V + '/seeded/' + i + '/meta.json'))['property']
                c = ['C%02d' % n for n in range(1, 29)] if al else [prop]
                r = check(i, slot, c); results[i] = r
                caught = [x for x in r if r[x] == 'caught']
                s = ('CAUGHT ' if r.get(prop) == 'caught' else 'MISSED ') + i + ' ' + (','.join(caught) if al else '') + ' '.join('%s:%s' % (x, r[x]) for x in r if r[x] not in ('caught', 'missed'))
            else:
                s = i + ' ' + plant(P[i], slot)
            with lock: print(s, flush=True)
    n = int(os.environ.get('N', '4'))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(root)
    if chk and al: json.dump(results, open(os.environ.get('OUT', '/tmp/plantcheck.json'), 'w'), indent=1)
main()
