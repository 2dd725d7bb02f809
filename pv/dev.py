"""dev driver: dev.py MODULE [filter] : run behaviours, print status"""
import sys, importlib, time, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'specs'))
from extract import extract
from dsl import *
import multiprocessing as mp

def work(i):
    t = time.time()
    V = run_beh(PROG, REG, BEHS[i], unroll=UNROLL, budget=BUDGET)
    bad = [(o.name, o.where, o.result, str(o.goal)[:300]) for o in V.obls if o.result != 'proved']
    return i, V.status, V.reason, len(V.obls), V.paths, time.time() - t, getattr(V, 'tb', ''), bad[:6], sorted(str(x) for x in V.touched), V.loops
if __name__ == '__main__':
    UNROLL = int(os.environ['UNROLL']) if os.environ.get('UNROLL') else None
    BUDGET = int(os.environ.get('BUDGET', '120'))
    PROG, e = extract()
    assert not e, e
    REG = registrations(PROG)
    m = importlib.import_module(sys.argv[1])
    BEHS = [b for b in m.S_.behs if len(sys.argv) < 3 or sys.argv[2] in b.key]
    mp.set_start_method('fork')
    tot = {}
    t0 = time.time()
    if os.environ.get('SEQ'):
        it = map(work, range(len(BEHS)))
    else:
        pool = mp.Pool(8)
        it = pool.imap_unordered(work, range(len(BEHS)))
    for i, st, why, no, np_, secs, tb, bad, touched, loops in it:
        tot[st] = tot.get(st, 0) + 1
        if st != 'proved' or os.environ.get('V') or secs > 20:
            print('%-10s %-50s obls=%d paths=%d %.1fs %s' % (st, BEHS[i].key, no, np_, secs, why))
            if os.environ.get('V'):
                print(tb, '\n', loops, touched)
            for b in bad:
                print('      ', b)
    print(tot, 'total %.1fs' % (time.time() - t0))
