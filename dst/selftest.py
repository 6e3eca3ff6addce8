"""./check selftest [RUNS] [PROPERTY ...]: one seed is one execution.

Every property's first RUNS plans are executed twice, by 8 workers and by 3, and the digests of the event logs (every
value, text, schedule decision and fault of each execution) are compared; the plans are generated once more in an
interpreter with another string-hash seed and compared as well.
"""
import os
import subprocess
import sys
import time

from . import engine

ALL = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16']


def plans(pid, seed, n):
    from .__main__ import load
    prop = load(pid)
    return [engine.digest(prop.gen(engine.rng_for(seed, pid, i), 'quick', i)) for i in range(n)]


def main(argv):
    n = 40
    if argv and argv[0].isdigit():
        n = int(argv.pop(0))
    if argv and argv[0] == 'plans':
        print(' '.join(plans(argv[1], int(argv[2]), int(argv[3]))))
        return 0
    from .__main__ import load
    seed = int(os.environ.get('VERIF_SEED', '1'))
    bad = 0
    for pid in argv or ALL:
        if not os.path.exists(os.path.join(engine.ROOT, 'dst', pid.lower() + '.py')):
            continue
        t = time.monotonic()
        logs = []
        for workers in (8, 3):
            prop = load(pid)
            agg = engine.sweep(prop, seed, 'quick', n, workers, 600)
            logs.append(agg['logs'])
            for e in agg['errors']:
                print(pid, 'harness error', e[:3])
                bad += 1
        diff = sorted(i for i in set(logs[0]) | set(logs[1]) if logs[0].get(i) != logs[1].get(i))
        env = dict(os.environ, PYTHONHASHSEED='4242')
        p = subprocess.run([sys.executable, '-m', 'dst', 'selftest', str(n), 'plans', pid, str(seed), str(n)], cwd=engine.ROOT,
                           env=env, capture_output=True, text=True)
        same = p.stdout.split() == plans(pid, seed, n)
        bad += len(diff) + (not same)
        print('%s: %d runs twice, %s; plans under another hash seed %s; %.0f s' % (
            pid, n, 'logs identical' if not diff else 'DIFFERENT LOGS %s' % diff[:10], 'identical' if same else 'DIFFER',
            time.monotonic() - t), flush=True)
    print('selftest:', 'ok' if not bad else '%d differences' % bad)
    return 1 if bad else 0
