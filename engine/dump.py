"""Produce and load the typed MIR dump of /repo's current source."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
WITNESSES = [os.path.join(ROOT, 'tools', n) for n in ('witness.rs', 'witness_methods.rs')]


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
        for n in sorted(names):
            if n.endswith('.rs') or n in ('Cargo.toml', 'Cargo.lock', 'rust-toolchain', 'config.toml', 'build.rs'):
                files.append(os.path.join(base, n))
    for f in files + [driver_path()] + WITNESSES:
        h.update(f.encode())
        try:
            with open(f, 'rb') as fh:
                h.update(fh.read())
        except OSError:
            pass
    return h.hexdigest()


def driver_path():
    return os.path.join(ROOT, 'driver', 'target', 'release', 'mirdump')


def build_driver():
    src = os.path.join(ROOT, 'driver')
    r = subprocess.run(['cargo', 'build', '--release', '--offline'], cwd=src,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('building the MIR driver failed:\n' + r.stdout[-4000:])


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True,
                          check=True).stdout.strip()


def make_dump():
    """path of the dump of the current tree; regenerated unless the same tree was just analysed"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        main = os.path.join(ROOT, 'driver', 'src', 'main.rs')
        if not os.path.exists(driver_path()) or os.path.getmtime(driver_path()) < os.path.getmtime(main):
            build_driver()
        key = tree_hash()
        out = os.path.join(BUILD, 'dump-%s.json' % key[:24])
        if os.path.exists(out):
            return out, key
        for n in os.listdir(BUILD):
            if n.startswith('dump-'):
                os.unlink(os.path.join(BUILD, n))
        # never let cargo write into the repository
        work = tmp = os.path.join(BUILD, 'srccopy')
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(REPO, tmp, ignore=shutil.ignore_patterns('target', '.git'))
        if not os.path.exists(os.path.join(tmp, 'Cargo.lock')):
            shutil.copy(os.path.join(ROOT, 'tools', 'Cargo.lock.repo'), os.path.join(tmp, 'Cargo.lock'))
        # instances of the generic entry points (default methods, blanket impls) for the analysis
        librs = os.path.join(tmp, 'src', 'lib.rs')
        plain = open(librs).read()
        target = os.path.join(BUILD, 'target')
        for base in ('debug/.fingerprint', 'debug/build', 'debug/incremental'):
            d = os.path.join(target, base)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith('redox'):
                        shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        part = out + '.part'
        if os.path.exists(part):
            os.unlink(part)
        env = dict(os.environ)
        env.update(MIRDUMP_CRATE='redox_ecc', MIRDUMP_OUT=part,
                   LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'),
                   RUSTC_WORKSPACE_WRAPPER=driver_path(),
                   RUSTFLAGS='-Zmir-opt-level=0 --force-warn unsafe_code', CARGO_TERM_COLOR='never')
        cmd = ['cargo', '+nightly', 'check', '--lib', '--offline', '--locked', '--target-dir', target]
        extra = [open(f).read() for f in WITNESSES]
        for text in ('\n'.join(extra), *extra, ''):
            # a tree with another interface does without the instances that do not compile
            open(librs, 'w').write(plain + '\n' + text)
            r = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                break
        shutil.rmtree(tmp, ignore_errors=True)
        if r.returncode != 0 or not os.path.exists(part):
            raise BuildError('dumping the MIR of the current tree failed:\n' + r.stdout[-4000:])
        with open(out + '.log', 'w') as fh:
            fh.write(r.stdout)
        os.rename(part, out)
        return out, key
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


RX_NB = re.compile(r'(?<![\w:])(?:\w+::)+(num_bigint|num_integer|num_traits)(?=::)')
RX_CL = re.compile(r'\{closure@[^}]*\}')


def norm(n):
    return RX_NB.sub(r'\1', n)


class Ty:
    __slots__ = ('id', 'n', 'k', 'raw', 'kind')

    def __init__(self, i, raw):
        self.id, self.raw = i, raw
        self.n = norm(raw['n'])
        self.k = raw['k']
        self.kind = None


class Fn:
    __slots__ = ('id', 'name', 'def_', 'crate', 'kind', 'intr', 'g', 'ty', 'span', 'argc', 'locals', 'argn', 'blocks',
                 'raw', 'cfg', 'vidx', 'model')

    def __init__(self, raw):
        self.raw = raw
        self.id = raw['id']
        self.name = norm(raw['name'])
        self.def_ = norm(raw['def'])
        self.crate = raw['crate']
        self.kind = raw['kind']
        self.intr = raw.get('intr')
        self.g = raw.get('g')
        self.ty = raw.get('ty')
        self.span = raw.get('span')
        self.argc = raw.get('argc')
        self.locals = raw.get('locals')
        self.argn = raw.get('argn')
        self.blocks = raw.get('blocks')
        self.vidx = raw.get('vidx')
        self.cfg = None
        self.model = None

    def __repr__(self):
        return 'Fn#%d %s' % (self.id, self.name)


class Program:
    def __init__(self, path, key=None):
        with open(path) as f:
            d = json.load(f)
        self.path, self.key = path, key
        self.types = d['types']
        self.tn = [norm(t['n']) if isinstance(t['n'], str) else '[array; %s]' % t['n'] for t in self.types]
        self.fns = [Fn(r) for r in d['fns']]
        self.byid = {f.id: f for f in self.fns}
        self.roots = d['roots']
        self.generic = d['generic']
        self.adts = d['adts']
        self.impls = d['impls']
        self.statics = {s['name']: s for s in d['statics']}
        self.notes = d['notes']
        self.auto = d.get('auto', [])
        self.open = d.get('open', [])
        try:
            with open(path + '.log') as fh:
                self.log = fh.read()
        except OSError:
            self.log = ''
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f.name, []).append(f)

    # -- types
    def t(self, i):
        return self.types[i]

    def kind(self, i):
        return self.types[i]['k']

    def adt_def(self, i):
        k = self.types[i]
        return norm(k['def']) if k['k'] == 'adt' else None

    def find_type(self, rx, kind=None):
        r = re.compile(rx)
        return [i for i, n in enumerate(self.tn) if r.search(n) and (kind is None or self.types[i]['k'] == kind)]

    def type_id(self, name):
        for i, n in enumerate(self.tn):
            if n == name:
                return i
        return None

    def crate_fns(self):
        return [f for f in self.fns if f.crate == 'redox_ecc']

    def find(self, rx, body=True, crate=None):
        r = re.compile(rx)
        return [f for f in self.fns if r.search(f.name) and (not body or f.blocks)
                and (crate is None or f.crate == crate)]

    def one(self, rx):
        l = self.find(rx)
        if len(l) != 1:
            raise KeyError('%d functions match %s: %s' % (len(l), rx, [f.name for f in l][:6]))
        return l[0]


def load():
    p, key = make_dump()
    return Program(p, key)
