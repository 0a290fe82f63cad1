#!/usr/bin/env python3
"""gen/automut.py CHECK N SEED [workers] [file ...]: N random small changes to covered code of the check's anchor
files, each run against the check (one shard); survivors go to /tmp/automut/CHECK.txt for reading. Nothing in /repo changes."""
import sys, os, json, subprocess, random, re, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.environ.get('AM_ROOT', '/verif')
cid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
workers = int(sys.argv[4]) if len(sys.argv) > 4 else 4
files = sys.argv[5:]
env = dict(os.environ, PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', VERIF_SEED='1', GOMAXPROCS='2', GOGC='100')
conf = json.load(open('/verif/checks.json')).get(cid, {})
base = json.load(open('/verif/overlay/overlay.json'))
for d, s in conf.get('shims', {}).items(): base['Replace']['/repo/' + d] = '/verif/' + s
if not files:
    for l in open('/verif/properties.jsonl'):
        p = json.loads(l)
        if p['id'] == cid:
            import glob
            for f in p['anchors']['files']:
                if f.endswith('.go'): files.append(f)
                elif os.path.isdir('/repo/' + f): files += [x[6:] for x in sorted(glob.glob('/repo/' + f + '/*.go')) if not x.endswith('_test.go')]
os.makedirs('/tmp/automut', exist_ok=True)
pkg = './props/' + cid.lower()
cov = f'/tmp/automut/{cid}.cov'
pk = sorted({'github.com/vitelabs/go-vite/v2/' + os.path.dirname(f) for f in files})
ov = f'/tmp/automut/{cid}.ov.json'
json.dump(base, open(ov, 'w'))
p = subprocess.run(['go', 'test', '-count=1', '-vet=off', '-overlay', ov, '-coverpkg=' + ','.join(pk), '-coverprofile=' + cov, pkg, '-timeout=900s'], cwd=ROOT, env=env, capture_output=True, text=True)
if p.returncode:
    print('coverage run failed', (p.stdout + p.stderr)[-1500:]); sys.exit(2)
blocks = {}
for l in open(cov):
    m = re.match(r'github.com/vitelabs/go-vite/v2/(.*):(\d+)\.(\d+),(\d+)\.(\d+) \d+ (\d+)', l)
    if m and int(m[6]): blocks.setdefault(m[1], []).append(((int(m[2]), int(m[3])), (int(m[4]), int(m[5]))))
muts = []
for f in files:
    src = base['Replace'].get('/repo/' + f, '/repo/' + f)
    q = subprocess.run(['go', 'run', './gen/mutgen', src], cwd=ROOT, env=env, capture_output=True, text=True)
    for l in q.stdout.splitlines():
        m = json.loads(l)
        if 'og.' in m['What'][:12] or 'Logger' in m['What'] or 'fmt.Print' in m['What']: continue
        if any(a <= (m['Line'], m['Col']) <= b for a, b in blocks.get(f, [])): muts.append((f, src, m))
random.Random(seed).shuffle(muts)
print(cid, len(muts), 'candidates in', len(files), 'files', flush=True)
muts = muts[:n]
def one(t):
    f, src, m = t
    d = tempfile.mkdtemp(prefix='amut')
    b = open(src, 'rb').read()
    open(d + '/x.go', 'wb').write(b[:m['Off']] + m['New'].encode() + b[m['End']:])
    o = json.loads(json.dumps(base)); o['Replace']['/repo/' + f] = d + '/x.go'
    json.dump(o, open(d + '/ov.json', 'w'))
    bp = subprocess.run(['go', 'test', '-c', '-vet=off', '-overlay', d + '/ov.json', '-o', d + '/t', pkg] + (['-race'] if conf.get('race') else []), cwd=ROOT, env=env, capture_output=True, text=True)
    if bp.returncode: r = 'build'
    else:
        os.makedirs(d + '/w')
        try:
            tp = subprocess.run([d + '/t', '-test.timeout=400s', '-rapid.shrinktime=1s', '-rapid.nofailfile'], cwd=d + '/w', env=env, capture_output=True, text=True, timeout=420)
            r = 'missed' if tp.returncode == 0 else 'caught'
        except subprocess.TimeoutExpired: r = 'timeout'
    shutil.rmtree(d)
    return r, t
cnt = {}
with ThreadPoolExecutor(workers) as ex, open(f'/tmp/automut/{cid}.txt', 'a') as out:
    for r, (f, src, m) in ex.map(one, muts):
        cnt[r] = cnt.get(r, 0) + 1
        if r in ('missed', 'timeout'):
            out.write(f"{r} {f}:{m['Line']} {m['Func']}: {m['What'][:300]}\n"); out.flush()
print(cid, cnt, flush=True)
