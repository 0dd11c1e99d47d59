"""Shared specification vocabulary: validity of points, contracts of tiny numeric helpers, invariant families."""
import z3
from .core import *
from .spec import Contract, V, forall
from .prog import Ty

MISS = z3.RealVal(-999)
MU = 4294967295
ISEQ = z3.Function('ISEQ', R, R, B)
DMAX = None


def iseq_fact(eng):
    if 'iseq' in eng.axioms: return
    a = z3.Const('a!iq', R)
    eng.axioms['iseq'] = z3.ForAll([a], ISEQ(a, a), patterns=[ISEQ(a, a)])


def isnear(eng, a, b):
    iseq_fact(eng)
    if a.eq(b): return TRUE
    return z3.Or(a == b, ISEQ(a, b))


def _iseq_effect(eng, st, obj, av, c, tu):
    av = [eng.read(st, a) if isinstance(a, LV) else a for a in av]
    return Val(BOOL, {(): isnear(eng, av[0].t, av[1].t)})


# IsEqual(double,double,tol): an equivalence-like test that is true for equal arguments; which other values count as equal
# (relative rounding distance) is left open
ISEQUAL = Contract('IsEqual(double)', 'meshkernel::IsEqual', params=['double', 'double', 'double'], effect=_iseq_effect, only_call=True)


def pvalid(eng, p):
    return z3.Not(z3.Or(isnear(eng, p.x.t, MISS), isnear(eng, p.y.t, MISS)))


def dbl_max(eng):
    return eng.constval(DOUBLE, repr(1.7976931348623157e308)).t if False else z3.RealVal(str(int(1.7976931348623157e308)))


def realvars(eng, L):
    out = []
    for key in L.mods:
        root = key[0]
        if isinstance(root, tuple) and root[0] == 'v' and key in L.entry.store and key in eng.keyinfo:
            sort, info = eng.keyinfo[key]
            if sort.eq(R): out.append((root[2] + '.'.join(key[1]), key))
    return out


def counters(eng, L):
    return [(n, k) for n, k, info in eng.intvars(L) if info != 'len']


def extremes(c, L, items):
    """items: list of (name, n, ok(k) -> Bool, value(k) -> Real); families 'v is below/above every value so far and is one of them or its start'"""
    eng = c.eng
    for nm, key in counters(eng, L):
        e0 = L.entry.store[key]
        for rn, rk in realvars(eng, L):
            r0 = L.entry.store[rk]
            for iname, lo, ok, val in items:
                for d, cmp in (('<=', lambda a, b: a <= b), ('>=', lambda a, b: a >= b)):
                    L.add('%s %s all %s so far (%s)' % (rn, d, iname, nm), lambda s, rk=rk, key=key, ok=ok, val=val, cmp=cmp, lo=lo: forall('ex', (lo, s.store[key]), lambda k: z3.Implies(ok(k), cmp(s.store[rk], val(k)))))
                L.add('%s is one of %s so far (%s)' % (rn, iname, nm), lambda s, rk=rk, key=key, ok=ok, val=val, lo=lo, r0=r0: z3.Or(s.store[rk] == r0, exists('ex', (lo, s.store[key]), lambda k: z3.And(ok(k), s.store[rk] == val(k)))))


def exists(n, lo_hi, body):
    lo, hi = lo_hi
    k = z3.Const('k!' + n, I)
    return z3.Exists([k], z3.And(k >= lo, k < hi, body(k)))


def localseqs(eng, L):
    """sequences held in locals that the loop modifies: list of (name, len(s), {leaf path below []: array(s)})"""
    out = {}
    for key in L.mods:
        root = key[0]
        if not (isinstance(root, tuple) and root[0] == 'v' and key in L.entry.store and key in eng.keyinfo): continue
        if key[1] == ('#len',) or key[1][:1] == ('[]',): out.setdefault(root, set()).add(key[1])
    res = []
    for root, ps in out.items():
        if ('#len',) not in ps: continue
        res.append((root[2], lambda s, r=root: s.store[(r, ('#len',))], {p[1:]: (lambda s, r=root, p=p: s.store[(r, p)]) for p in ps if p[:1] == ('[]',)}))
    return res


def localbools(eng, L):
    return [(k[0][2], k) for k in L.mods if isinstance(k[0], tuple) and k[0][0] == 'v' and k in L.entry.store and k in eng.keyinfo and eng.keyinfo[k][0].eq(B) and k[1] == ()]


def scope_ints(eng, L):
    """integer locals in scope that the loop leaves alone"""
    return uniq([(k[0][2], k) for k in L.entry.store if isinstance(k[0], tuple) and k[0][0] == 'v' and k[1] == () and k not in L.mods and k in eng.keyinfo and eng.keyinfo[k][0].eq(I) and eng.keyinfo[k][1] not in ('ptr', 'len')])


def uniq(l):
    """names made unique; the last one declared keeps its name"""
    seen = {}
    out = []
    for n, k in reversed(l):
        seen[n] = seen.get(n, 0) + 1
        out.append((n if seen[n] == 1 else '%s#%d' % (n, seen[n]), k))
    return out[::-1]


def scope_seqs(eng, L, sort):
    """sequences of scalars in locals that the loop leaves alone"""
    return uniq([(k[0][2], L.entry.store[k]) for k in L.entry.store if isinstance(k[0], tuple) and k[0][0] == 'v' and k[1] == ('[]',) and k not in L.mods and L.entry.store[k].sort().eq(z3.ArraySort(I, sort))])


def rankfn(eng, key, pred):
    """count function of the indices below k for which pred holds (pred over a fixed state)"""
    if key in eng.axioms: return eng.rankfns[key]
    if not hasattr(eng, 'rankfns'): eng.rankfns = {}
    C = z3.Function('RANK!%d' % len(eng.axioms), I, I)
    k, j = z3.Ints('k!rf j!rf')
    eng.axioms[key] = z3.And(C(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, z3.And(C(k) >= 0, C(k) <= k)), patterns=[C(k)]),
                             z3.ForAll([k], z3.Implies(k >= 0, C(k + 1) == C(k) + z3.If(pred(k), 1, 0)), patterns=[C(k + 1)]),
                             z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j), z3.And(C(k) <= C(j), z3.Implies(pred(k), C(k) + 1 <= C(j)))), patterns=[z3.MultiPattern(C(k), C(j))]))
    eng.rankfns[key] = C
    return C
