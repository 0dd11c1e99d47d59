"""developer aid: python3-vt -m mkv.hrun C02 : build and run only the harness of a property"""
import sys, os, importlib, time
from .driver import Harness, parse_harness
m = importlib.import_module('props.' + sys.argv[1])
h = Harness(m.HARNESS, sys.argv[1], int(os.environ.get('VERIF_SEED', '1')), os.environ.get('VERIF_TIER', 'quick'))
t = time.time()
h.run()
if h.error: print(h.error)
else:
    fails, stats, samples, cover = parse_harness(h.out)
    print('rc', h.rc, 'build %.0fs total %.0fs' % (h.build_s, time.time() - t), stats, h.err[-600:])
    for k, d in fails: print('FAIL', k, '::', d[:500])
    for s in samples[:4]: print('SAMPLE', s[:300])
    print('COVER', sorted(set(cover)))
    last = [l for l in h.out.split('\n') if l.startswith('CASE ')][-1:]
    if h.rc not in (0, 1): print(last)
