#!/usr/bin/env python3
"""Development aid: apply the edits listed by dev/mutator to scratch copies of /repo and run the checks.

  sweep.py bugs  EDITS OUT [N] [SEED]     one behaviour-changing edit at a time; reports what no check notices
  sweep.py quiet EDITS OUT [SEED] [kinds] many behaviour-preserving edits at once; reports every alarm
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
SCRATCH = '/tmp/sweep'
NW = int(os.environ.get('NW', '7'))


def load(path):
    out = []
    for i, l in enumerate(open(path, newline='\n')):
        f, k, c, a, b, n = l.rstrip('\n').split('\t')
        n = re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', '\\': '\\'}[m.group(1)], n)
        out.append(dict(id=i, file=f, kind=k, cls=c, a=int(a), b=int(b), new=n))
    return out


def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run('cd /repo && git archive HEAD | tar x -C %s; cp Cargo.lock %s; cd %s && git init -q . && git add -A && '
                   'git -c user.email=a@b -c user.name=a commit -qm x' % (d, d, d), shell=True, capture_output=True)


def apply(d, edits):
    """apply non-overlapping edits; returns {file: [(new start, new end, edit)]}"""
    where = {}
    by = {}
    for e in edits:
        by.setdefault(e['file'], []).append(e)
    for f, es in by.items():
        s = open('/repo/' + f, 'rb').read()
        es.sort(key=lambda e: e['a'])
        out, pos, w = b'', 0, []
        for e in es:
            assert e['a'] >= pos
            out += s[pos:e['a']]
            st = len(out)
            out += e['new'].encode()
            w.append((st, len(out), e))
            pos = e['b']
        out += s[pos:]
        open(d + '/' + f, 'wb').write(out)
        where[f] = w
    return where


def restore(d):
    subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'])


def check_build(d, tgt):
    r = subprocess.run(['cargo', 'check', '--offline', '--lib', '--message-format=json'], cwd=d, capture_output=True,
                       text=True, env=dict(os.environ, CARGO_TARGET_DIR=tgt))
    errs = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
            for sp in m['message']['spans']:
                errs.append((sp['file_name'], sp['byte_start'], sp['byte_end']))
                x = sp.get('expansion')
                while x:
                    errs.append((x['span']['file_name'], x['span']['byte_start'], x['span']['byte_end']))
                    x = x['span'].get('expansion')
    return r.returncode == 0, errs


def tests(d, tgt):
    try:
        r = subprocess.run(['cargo', 'test', '--offline', '--test', 'tests', '--lib'], cwd=d, capture_output=True, text=True, timeout=120,
                           env=dict(os.environ, CARGO_TARGET_DIR=tgt))
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def run(d, pid, wk, timeout=600, first='1'):
    env = dict(os.environ, VERIF_FIRST=first, VERIF_REPO=d, VERIF_BUILD=SCRATCH + '/b%s' % wk)
    try:
        r = subprocess.run(['python3', 'check.py', pid, 'quick'], cwd=ROOT, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 2, 'TIMEOUT'
    return r.returncode, r.stdout + r.stderr[-600:]


ORDER = {
    'primefield': 'C01 C02 C03 C04 C05 C06 C07 C42 C10 C15 C16 C41',
    'quadraticfield': 'C08 C02 C09 C10 C11 C12 C07 C42 C15 C16 C41',
    'scalar': 'C13 C14 C06 C02 C42 C25 C15',
    'point': 'C17 C18 C19 C20 C21 C22 C23 C24 C25 C28 C29 C30 C02 C42',
    'curve': 'C17 C18 C26 C27 C28 C29 C30 C20 C21 C22 C23 C24 C02 C42',
    'sswu': 'C31 C34 C35', 'svdw': 'C32 C34', 'elligator': 'C33 C34', 'rational_maps': 'C36 C37 C38',
    'instances': 'C39 C40 C36 C38 C37', 'lib': 'C42 C39', 'ops': 'C07 C13',
}


def order(f):
    from props import TABLE
    first = []
    for k, v in ORDER.items():
        if k in f:
            first += v.split()
    rest = sorted(TABLE, key=lambda p: (p == 'C32', p))
    return list(dict.fromkeys([x for x in first if x in TABLE] + rest))


def bugs(edits, out, n, seed):
    E = [e for e in edits if e['cls'] == 'b']
    random.Random(seed).shuffle(E)
    E = E[:n]
    q = queue.Queue()
    for e in E:
        q.put(e)
    lock = threading.Lock()
    res = open(out, 'a')

    def work(k):
        d, tgt = SCRATCH + '/w%d' % k, SCRATCH + '/t%d' % k
        copy(d)
        while True:
            try:
                e = q.get_nowait()
            except queue.Empty:
                return
            try:
                apply(d, [e])
                src = open('/repo/' + e['file'], 'rb').read()
                line = src[:e['a']].count(b'\n') + 1
                desc = '%d %s:%d %s  %r -> %r' % (e['id'], e['file'], line, e['kind'], src[e['a']:e['b']].decode()[:70], e['new'][:90])
                ok, _ = check_build(d, tgt)
                if not ok:
                    st = 'NOCOMPILE'
                elif not tests(d, tgt):
                    st = 'TESTS'
                else:
                    st = 'SURVIVED'
                    for pid in order(e['file']):
                        rc, o = run(d, pid, k)
                        if rc == 1 and 'VIOLATION' in o:
                            st = 'CAUGHT ' + pid
                            break
                        if rc != 0:
                            st = 'BROKEN %s rc=%d %s' % (pid, rc, o[-300:].replace('\n', ' | '))
                            break
                with lock:
                    res.write('%s\t%s\n' % (st, desc))
                    res.flush()
            finally:
                restore(d)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(NW)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def pick(es, rnd):
    """a random maximal set of non-overlapping edits"""
    es = es[:]
    rnd.shuffle(es)
    got = {}
    for e in es:
        L = got.setdefault(e['file'], [])
        if all(e['b'] <= x['a'] or e['a'] >= x['b'] for x in L):
            L.append(e)
    return [e for L in got.values() for e in L]


def compiling(d, tgt, es):
    for _ in range(60):
        restore(d)
        where = apply(d, es)
        ok, errs = check_build(d, tgt)
        if ok:
            return es
        bad = set()
        for f, a, b in errs:
            for st, en, e in where.get(f, []):
                if st < b and a < en:
                    bad.add(e['id'])
        if not bad:
            # drop edits close to an error
            for f, a, b in errs:
                for st, en, e in where.get(f, []):
                    if st < b + 200 and a - 200 < en:
                        bad.add(e['id'])
        if not bad:
            return None
        es = [e for e in es if e['id'] not in bad]
    return None


def quiet(edits, out, seed, kinds):
    from props import TABLE
    Q = [e for e in edits if e['cls'] == 'q']
    ks = kinds or sorted({e['kind'] for e in Q}) + ['*']
    q = queue.Queue()
    for k in ks:
        q.put(k)
    res = open(out, 'a')
    lock = threading.Lock()

    def work(wk):
        d, tgt = SCRATCH + '/w%d' % wk, SCRATCH + '/t%d' % wk
        copy(d)
        while True:
            try:
                k = q.get_nowait()
            except queue.Empty:
                return
            rnd = random.Random('%s%s' % (seed, k))
            es = pick([e for e in Q if k == '*' or e['kind'] == k], rnd)
            es = compiling(d, tgt, es)
            msgs = []
            if es is None:
                msgs.append('cannot compile')
            elif not tests(d, tgt):
                msgs.append('TESTS FAIL')
            else:
                subprocess.run('git -C %s diff > %s/%s.%s.diff' % (d, SCRATCH, k.replace('*', 'mix'), seed), shell=True)
                for pid in sorted(TABLE):
                    rc, o = run(d, pid, wk, first='')
                    if rc != 0:
                        msgs.append('%s rc=%d\n      %s' % (pid, rc, '\n      '.join(
                            x.strip()[:300] for x in o.splitlines() if 'violated' in x or rc != 1)[:900]))
            with lock:
                res.write('== %s seed %s: %s edits\n' % (k, seed, len(es or [])))
                for m in msgs:
                    res.write('   %s\n' % m)
                res.flush()
            restore(d)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(NW)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    os.makedirs(SCRATCH, exist_ok=True)
    E = load(sys.argv[2])
    if sys.argv[1] == 'bugs':
        bugs(E, sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 10 ** 9, sys.argv[5] if len(sys.argv) > 5 else '1')
    else:
        quiet(E, sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else '1', sys.argv[5:])
