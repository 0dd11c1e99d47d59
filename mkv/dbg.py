"""developer aid: python3-vt -m mkv.dbg C02 'undo of Translation' : verify one contract and print everything"""
import sys, importlib, time
from .prog import extract
from . import solve as S


def main():
    m = importlib.import_module('props.' + sys.argv[1])
    pr = extract(m.SOURCES)
    m._prog = pr
    if hasattr(m, 'prepare'): m.prepare(pr)
    for c in m.CONTRACTS:
        if sys.argv[2] not in c.name or c.trusted or c.only_call: continue
        for f in c.targets(pr):
            t = time.time()
            print('==', c.name, f.name)
            e = c.verify(pr, [x for x in m.CONTRACTS if not getattr(x, 'top_only', False)], f)
            print('vcgen %.1fs, %d obls, %d cands, %d facts' % (time.time() - t, len(e.obls), len(e.cands), len(e.facts)))
            t = time.time()
            S.discharge(e, float(sys.argv[3]) if len(sys.argv) > 3 else 10.0)
            print('solve %.1fs' % (time.time() - t))
            for x in e.cands: print('   ', 'KEPT' if x.alive else 'drop', x.name)
            acts = S.actlits(e)
            for i, o in enumerate(e.obls):
                if o.kind == 'inv' and not o.cand.alive: continue
                if o.status not in ('valid', 'reachable') or o.time > 1: print('  ', o.status, '%.1f' % o.time, o.backend, o.kind, o.name, o.loc, o.reason)
                if o.status not in ('valid', 'reachable'):
                    open('/tmp/fail-%d.smt2' % i, 'w').write(S.smt2(e, o, acts))
                    if o.model: print(o.model[:1500])


main()
