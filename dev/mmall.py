"""mmall.py REGEX-OF-FILES [N-WORKERS]: every refactoring of dev/quiet that edits such a file, against every check"""
import sys, os, re, glob, runpy, shutil, subprocess, concurrent.futures as cf
sys.path.insert(0, '/verif')
from props import TABLE
rx = re.compile(sys.argv[1])
NW = int(sys.argv[2]) if len(sys.argv) > 2 else 7
L = []
for f in sorted(glob.glob('/verif/dev/quiet/*.py')):
    for e in runpy.run_path(f)['M']:
        if e[4] == 'q' and any(rx.search(ed[0] if len(ed) == 3 else e[1]) for ed in e[2]):
            L.append((os.path.basename(f)[:-3], e))
if len(sys.argv) > 3:
    L = [x for x in L if re.search(sys.argv[3], x[0] + ':' + x[1][0])]


def one(i, ln, e):
    name, f, eds = e[:3]
    name = ln + ':' + name
    d, b = '/tmp/mma%d_%d' % (os.getpid(), i), '/tmp/mmab%d_%d' % (os.getpid(), i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run('cd /repo && git archive HEAD | tar x -C %s; cp Cargo.lock %s; cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % (d, d, d), shell=True, capture_output=True)
    out = []
    try:
        for ed in eds:
            ff, o, n = ed if len(ed) == 3 else (f,) + tuple(ed)
            s = open(d + '/' + ff).read()
            if o not in s:
                return '%s: MISSING' % name
            open(d + '/' + ff, 'w').write(s.replace(o, n) if name.endswith('*') else s.replace(o, n, 1))
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=b)
        for c in sorted(TABLE):
            try:
                r = subprocess.run(['python3', 'check.py', c, 'quick'], cwd=os.environ.get('SNAP', '/verif'), env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                out.append('***BAD %s %s TIMEOUT' % (name, c))
                continue
            if r.returncode:
                l = [x for x in r.stdout.splitlines() if x.strip() and not x.startswith('VIOL')]
                out.append('***BAD %s %s rc=%d %s' % (name, c, r.returncode, ' | '.join(l[-3:])[:500] or r.stderr[-300:]))
                if len(out) > 5 and 'compil' in out[-1]:
                    break
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(b, ignore_errors=True)
    return '\n'.join(out) or 'OK ' + name


print(len(L), flush=True)
with cf.ThreadPoolExecutor(NW) as ex:
    for r in cf.as_completed([ex.submit(one, i, ln, e) for i, (ln, e) in enumerate(L)]):
        print(r.result(), flush=True)
