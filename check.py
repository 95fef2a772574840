#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib
import os
import resource
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.report import Check
from engine.dump import BuildError
from engine import world
from props import TABLE

BUDGET = 420          # seconds; a run on the committed tree takes well under a minute
AFTER_FAILURE = 60    # seconds spent on further obligations once one has failed
MEMORY = 10 << 30     # bytes; a run on the committed tree takes well under one gigabyte


def resident():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * resource.getpagesize()


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod, fn = TABLE[pid]
    ck = Check(pid, tier)
    rc = [1]

    def body():
        try:
            world.program()
        except BuildError as e:
            print('the current tree cannot be analysed: %s' % e)
            print('VIOLATION property=%s replay=%s' % (pid, '/verif/build'))
            rc[0] = 1
            return
        m = importlib.import_module('props.' + mod)
        expl = ''
        try:
            with ck.case(''):
                expl = getattr(m, fn)(ck)
        except Exception as e:
            ck.ob(False, 'analysable', 'cannot establish: %s: %s' % (type(e).__name__, e))
            traceback.print_exc()
        rc[0] = ck.finish('other', expl or (getattr(m, fn).__doc__ or '').strip())

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=body)
    t.start()
    # the analysis gives an answer within its budget: what is not established by then counts as not established
    t0, first = time.time(), None
    while t.is_alive():
        t.join(0.2)
        now = time.time()
        if ck.fails and first is None:
            first = now
        stop = first is not None and (os.environ.get('VERIF_FIRST') or now - first > AFTER_FAILURE)
        full = resident() > MEMORY
        if t.is_alive() and not ck.finishing and (stop or full or now - t0 > BUDGET):
            if not ck.fails:
                ck.ob(False, 'analysed within %d s and %d GB' % (BUDGET, MEMORY >> 30), 'the analysis does not finish')
            rc[0] = ck.finish('other', 'stopped before the end: ' + ('violation found' if stop else 'out of time'))
            break
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == '__main__':
    main()
