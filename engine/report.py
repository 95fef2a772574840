"""Obligations, violations and evidence of one check run."""
import json
import os
import re
import sys
import time
import traceback
from contextlib import contextmanager

from . import terms as T
from .values import Unsupported
from .dump import BuildError, ROOT, REPO


class Abort(Exception):
    """the rest of the case cannot be analysed; the violation is already recorded"""


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obs = []            # (key, ok, detail)
        self.fails = []          # (key, detail)
        self.functions = set()
        self.counts = {}
        self.notes = []
        self.rules = []
        self.assumptions = []
        self.cur = ''
        self.finishing = False
        self.log = os.environ.get('VERIF_LOG')

    # ------------------------------------------------------------------
    def ob(self, ok, key, detail=''):
        """one obligation; key must not contain line numbers"""
        k = (self.cur + ': ' + key) if self.cur else key
        self.obs.append((k, bool(ok)))
        if not ok:
            self.fails.append((k, str(detail)[:1500]))
        if self.log:
            print(('ok   ' if ok else 'FAIL ') + k + ('' if ok else '   -- ' + str(detail)[:600]), flush=True)
        return bool(ok)

    def need(self, ok, key, detail=''):
        if not self.ob(ok, key, detail):
            raise Abort()

    def floor(self, what, n, minimum):
        self.counts[what] = n
        self.ob(n >= minimum, 'at least %d %s are analysed' % (minimum, what), 'found %d' % n)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    @contextmanager
    def case(self, name, world=None):
        old = self.cur
        self.cur = (old + ' / ' if old else '') + name
        t = time.time()
        try:
            yield self
        except Abort:
            pass
        except Unsupported as e:
            where = ''
            if world is not None and world.I.frames:
                where = ' in ' + ' < '.join('%s:%s' % (f.fn.name, f.line) for f in reversed(world.I.frames[-6:]))
            self.ob(False, 'analysable', 'cannot establish: %s%s' % (e, where))
            if self.log:
                traceback.print_exc(limit=-4)
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, AssertionError,
                ZeroDivisionError, T.TooBig) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = ''
            if world is not None and world.I.frames:
                where = ' in ' + ' < '.join('%s:%s' % (f.fn.name, f.line) for f in reversed(world.I.frames[-6:]))
            self.ob(False, 'analysable', 'cannot establish: %s: %s at %s%s' % (
                type(e).__name__, str(e)[:300], ['%s:%d' % (os.path.basename(x.filename), x.lineno) for x in tb[-3:]], where))
            if self.log:
                traceback.print_exc(limit=-4)
        finally:
            if world is not None:
                for f in world.I.called:
                    self.functions.add(world.prog.byid[f].name)
            self.cur = old
            if self.log:
                print('     [%.2fs] %s' % (time.time() - t, name), flush=True)

    # ------------------------------------------------------------------
    def known(self):
        out = []
        p = os.path.join(ROOT, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)', l.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self, level, explanation):
        self.finishing = True
        if not self.obs:
            self.ob(False, 'some obligation is analysed', 'no obligation was generated')
        known = self.known()
        rest, hit = [], {}
        for k, d in self.fails:
            for kk, txt in known:
                if k == kk:
                    hit[kk] = txt
                    break
            else:
                rest.append((k, d))
        wall = time.time() - self.t0
        ok = sum(1 for _, o in self.obs if o)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
            'coverage': {
                'explanation': explanation,
                'rules_applied': self.rules,
                'obligations': len(self.obs),
                'discharged': ok,
                'functions_analysed': len(self.functions),
                'functions': sorted(f for f in self.functions if 'redox_ecc' in f)[:400],
                'counts': self.counts,
                'samples': [k for k, o in self.obs[:3]] + [k for k, o in self.obs[len(self.obs) // 2:][:3]] +
                           [k for k, o in self.obs[-3:]],
                'checker_cmd': 'python3 /verif/check.py %s' % self.pid,
                'trusted_base': ['rustc MIR construction (nightly, rustc_public)', 'models of num-bigint/std in engine/models.py',
                                 'the abstract interpreter in engine/'],
            },
            'assumptions': self.assumptions,
            'wall_s': round(wall, 2),
            'violations': len(rest),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for kk, txt in hit.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, txt))
        print('%s: %d obligations, %d discharged, %d functions analysed, %.1fs' % (
            self.pid, len(self.obs), ok, len(self.functions), wall))
        if rest:
            d = os.path.join(ROOT, 'build', 'reports')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.pid + '.txt')
            with open(path, 'w') as f:
                for k, dd in rest:
                    f.write('VIOLATED %s\n    %s\n' % (k, dd))
            for k, dd in rest[:12]:
                print('  violated: %s\n      %s' % (k, dd[:700]))
            if len(rest) > 12:
                print('  ... and %d more, see %s' % (len(rest) - 12, path))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        return 0
