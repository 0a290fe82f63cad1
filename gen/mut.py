#!/usr/bin/env python3
"""gen/mut.py CHECK FILE.py: run hand mutants (list M of (path, old, new[, count])) against one check through an overlay.
Prints which are caught. For trying ideas only; nothing in /repo changes."""
import sys, json, os, subprocess, runpy, shutil, tempfile
cid, spec = sys.argv[1], sys.argv[2]
only = set(sys.argv[3:])
env = dict(os.environ, PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off')
env.setdefault('VERIF_SEED', '1')
M = runpy.run_path(spec)['M']
conf = json.load(open('/verif/checks.json')).get(cid, {})
for i, m in enumerate(M):
    if only and str(i) not in only: continue
    edits = m if isinstance(m, list) else [m]
    o = json.load(open('/verif/overlay/overlay.json'))
    for d, s in conf.get('shims', {}).items(): o['Replace']['/repo/' + d] = '/verif/' + s
    fix = os.environ.get('MUT_FIX')  # a tree of files that replace /repo's
    for d, _, fs in (os.walk(fix) if fix else []):
        for f in fs: o['Replace']['/repo' + os.path.join(d, f)[len(fix):]] = os.path.join(d, f)
    tmp = tempfile.mkdtemp(prefix='mut')
    bad = False
    cur = {}
    for e in edits:
        path, old, new = e[0], e[1], e[2]
        src = o['Replace'].get('/repo/' + path, '/repo/' + path)
        t = cur.get(path) or open(src).read()
        if old not in t:
            print(i, 'NOT FOUND', path, repr(old)[:60]); bad = True; break
        cur[path] = t.replace(old, new, e[3] if len(e) > 3 else 1)
    if bad: continue
    for k, (path, t) in enumerate(cur.items()):
        f = f'{tmp}/{k}.go'
        open(f, 'w').write(t)
        o['Replace']['/repo/' + path] = f
    json.dump(o, open(tmp + '/ov.json', 'w'))
    cmd = ['go', 'test', '-count=1', '-vet=off', '-overlay', tmp + '/ov.json', './props/' + cid.lower(), '-rapid.shrinktime=1s', '-timeout=600s']
    if conf.get('race'): cmd.insert(2, '-race')
    p = subprocess.run(cmd, cwd='/verif', env=env, capture_output=True, text=True)
    out = p.stdout + p.stderr
    r = 'missed' if p.returncode == 0 else ('BUILD' if 'build failed' in out or 'setup failed' in out else 'caught')
    line = [l for l in out.splitlines() if 'vlib.go' not in l and l.strip() and '--- FAIL' not in l and 'draw' not in l and 'rapid' not in l]
    why = [l for l in out.splitlines() if '[rapid]' in l]
    print(i, r, '|', repr(edits[0][1])[:70], '->', repr(edits[0][2])[:60], '|', (why[0].strip()[:170] if why else ' '.join(line[:3])[:300]) if r != 'missed' else '', flush=True)
    shutil.rmtree(tmp)
    shutil.rmtree(f'/verif/props/{cid.lower()}/testdata', ignore_errors=True)
