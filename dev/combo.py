"""combo.py SEED COUNT SIZE: random sets of refactorings from dev/quiet applied together; every check has to stay quiet"""
import sys, os, glob, random, runpy, shutil, subprocess, concurrent.futures as cf
sys.path.insert(0, '/verif')
from props import TABLE
SKIP = {'sqrt_swap', 'onc_z1_w', 'display_pt_e', 'params_update'}
ALL = []
for f in sorted(glob.glob('/verif/dev/quiet/*.py')):
    for e in runpy.run_path(f)['M']:
        if e[4] == 'q' and e[0] not in SKIP and not any(x in e[0] for x in ('dec_frombytes', 's_iter_str', 'fp_pow_sqmul', 'x_trait_default', 'fp_sqrt_find')):
            ALL.append((os.path.basename(f)[:-3] + ':' + e[0],) + tuple(e[1:]))


def apply(d, e):
    new = {}
    for ed in e[2]:
        ff, o, n = ed if len(ed) == 3 else (e[1],) + tuple(ed)
        s = new.get(ff) or open(d + '/' + ff).read()
        if o not in s:
            return False
        new[ff] = s.replace(o, n) if e[0].endswith('*') else s.replace(o, n, 1)
    old = {ff: open(d + '/' + ff).read() for ff in new}
    for ff, s in new.items():
        open(d + '/' + ff, 'w').write(s)
    if subprocess.run(['cargo', 'check', '--offline', '--lib'], cwd=d, capture_output=True, env=dict(os.environ, CARGO_TARGET_DIR='/tmp/combot')).returncode:
        for ff, s in old.items():
            open(d + '/' + ff, 'w').write(s)
        return False
    return True


def check(d, c):
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD='/tmp/combob')
    r = subprocess.run(['python3', 'check.py', c, 'quick'], cwd='/verif', env=env, capture_output=True, text=True)
    return c, r.returncode, ' | '.join(x for x in r.stdout.splitlines() if not x.startswith('VIOL'))[-400:]


def main():
    seed, count, size = map(int, sys.argv[1:4])
    for s in range(seed, seed + count):
        rnd = random.Random(s)
        d = '/tmp/comboc'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run('cd /repo && git archive HEAD | tar x -C %s; cp Cargo.lock %s; cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % (d, d, d), shell=True, capture_output=True)
        used = []
        for e in rnd.sample(ALL, len(ALL)):
            if len(used) >= size:
                break
            if apply(d, e):
                used.append(e[0])
        print('seed', s, ' '.join(used), flush=True)
        with cf.ThreadPoolExecutor(int(os.environ.get('J', 7))) as ex:
            for c, rc, o in ex.map(lambda c: check(d, c), sorted(TABLE)):
                if rc:
                    print('  ALARM', s, c, rc, o, flush=True)
                    shutil.rmtree('/tmp/combokeep%d' % s, ignore_errors=True)
                    shutil.copytree(d, '/tmp/combokeep%d' % s)
        shutil.rmtree('/tmp/combob', ignore_errors=True)


main()
