"""C12: averaging interpolation returns the chosen statistic of exactly the samples that count."""
import z3
from fractions import Fraction
from mkv.core import *
from mkv.spec import Contract, V, forall
from mkv.common import *
from mkv.engine import FMUL, FDIV

ID = 'C12'
G = 'libs/MeshKernel/src/'
SOURCES = [G + 'AveragingStrategies/%s.cpp' % x for x in ('AveragingStrategyFactory', 'ClosestAveragingStrategy', 'InverseWeightedAveragingStrategy', 'MaxAveragingStrategy', 'MinAbsAveragingStrategy', 'MinAveragingStrategy', 'SimpleAveragingStrategy')] + [G + 'AveragingInterpolation.cpp']
N_ = 'meshkernel::averaging::'
MX = z3.RealVal(str(int(1.7976931348623157e308)))
REAL = {'real': True}
SQD = z3.Function('SQD', R, R, R, R, I, R)      # squared distance of two points in a projection
DST = z3.Function('DST', R, R, R, R, I, R)      # distance


def dist(f, nm, cname):
    def eff(eng, st, obj, av, c, tu):
        p, q = (V(eng, st, x if isinstance(x, LV) else eng.tmp(st, x)) for x in av[:2])
        pr = eng.read(st, av[2]) if isinstance(av[2], LV) else av[2]
        r = f(p.x.t, p.y.t, q.x.t, q.y.t, pr.t)
        return Val(tu.ty(c['ret']), {(): r})
    return Contract(nm, cname, effect=eff, only_call=True)


def finite(x): return z3.And(x > -MX, x < MX)
def vals_finite(c): return {'finite values': forall('fv', (0, c.arg(1).len), lambda k: finite(c.arg(1)[k].value.t))}


def extreme(f, le):
    def ens(c):
        s = c.arg(1)
        r = c.res.t
        v = lambda k: f(s[k].value.t)
        return {'missing without samples': z3.Implies(s.len == 0, r == MISS),
                'bounds every value': z3.Implies(s.len > 0, forall('ev', (0, s.len), lambda k: r <= v(k) if le else r >= v(k))),
                'is one of the values': z3.Implies(s.len > 0, exists('ov', (0, s.len), lambda k: r == v(k)))}
    return ens


def ex_inv(f):
    def inv(c, L):
        s = c.arg(1)
        extremes(c, L, [('value', z3.IntVal(0), lambda k: TRUE, lambda k: f(s[k].value.t))])
    return inv


HUND = z3.RealVal(Fraction(0.01))
idt = lambda x: x
ab = lambda x: z3.If(x >= 0, x, -x)


def sums(c):
    """specification functions: running sums of the values, the weights and the weighted values"""
    eng = c.eng
    if not hasattr(eng, 'c12'):
        s = c.arg(1)
        p = c.arg(0)
        eng.c12 = {}
        k = z3.Int('k!sum')

        def d(i): return DST(p.x.t, p.y.t, s[i].x.t, s[i].y.t, c.old.m_projection.t)

        def w(i): return FDIV(z3.RealVal(1), z3.If(HUND < d(i), d(i), HUND))
        fs = {'V': lambda i: s[i].value.t}
        if 'Inverse' in eng.top.fn.name: fs.update(W=w, WV=lambda i: FMUL(w(i), s[i].value.t))
        for n, f in fs.items():
            F = z3.Function('SUM' + n, I, R)
            eng.fact(F(0) == 0)
            eng.fact(z3.ForAll([k], z3.Implies(k >= 0, F(k + 1) == F(k) + f(k)), patterns=[z3.MultiPattern(F(k), s[k].x.t if n == 'W' else s[k].value.t)]))
            eng.c12[n] = F
    return eng.c12


def pre_sums(c):
    sums(c)
    return {}


TOUCH = z3.Function('touch', R, B)


def touch0(c):
    s, p = c.arg(1), c.arg(0)
    a = z3.Consts('a!1 a!2 a!3 a!4', R)
    i = z3.Int('i!1')
    c.eng.axioms['sqd'] = (z3.ForAll(a + [i], z3.And(SQD(*a, i) >= 0, SQD(*a, i) < MX), patterns=[SQD(*a, i)]))
    c.eng.fact(TOUCH(SQD(p.x.t, p.y.t, s[0].x.t, s[0].y.t, c.old.m_projection.t)))      # mentions the first sample, for the solver's quantifier instantiation
    return {}


def sum_inv(c, L):
    F = sums(c)
    eng = c.eng
    for nm, key in counters(eng, L):
        for key2 in L.mods:
            if key2 in L.entry.store and key2 in eng.keyinfo and eng.keyinfo[key2][0].eq(R) and not is_heap(key2[0]):
                for n, f in F.items():
                    L.add('%s is sum %s up to %s' % (key2, n, nm), lambda s, f=f, key=key, key2=key2: s.store[key2] == f(s.store[key]))


def simple_ens(c):
    s = c.arg(1)
    F = sums(c)
    return {'mean of the values': z3.Implies(z3.And(s.len >= c.old.m_minNumPoints.t, s.len > 0), c.res.t == FDIV(F['V'](s.len), z3.ToReal(s.len))),
            'missing below the minimum number of samples': z3.Implies(s.len < c.old.m_minNumPoints.t, c.res.t == MISS)}


def inverse_ens(c):
    s = c.arg(1)
    F = sums(c)
    return {'weighted mean of the values': z3.Implies(z3.And(s.len >= c.old.m_minNumSamples.t, s.len > 0), c.res.t == FDIV(F['WV'](s.len), F['W'](s.len))),
            'missing below the minimum number of samples': z3.Implies(s.len < c.old.m_minNumSamples.t, c.res.t == MISS)}


def closest_ens(c):
    s, p = c.arg(1), c.arg(0)
    d = lambda k: SQD(p.x.t, p.y.t, s[k].x.t, s[k].y.t, c.old.m_projection.t)
    return {'missing without samples': z3.Implies(s.len == 0, c.res.t == MISS),
            'value of a nearest sample': z3.Implies(s.len > 0, exists('nr', (0, s.len), lambda k: z3.And(c.res.t == s[k].value.t, forall('nb', (0, s.len), lambda j: d(k) <= d(j)))))}


def closest_inv(c, L):
    s, p = c.arg(1), c.arg(0)
    d = lambda k: SQD(p.x.t, p.y.t, s[k].x.t, s[k].y.t, c.old.m_projection.t)
    extremes(c, L, [('distance', z3.IntVal(0), lambda k: TRUE, d)])
    eng = c.eng
    for nm, key in counters(eng, L):
        for an, ak in realvars(eng, L):
            for bn, bk in realvars(eng, L):
                if ak != bk:
                    L.add('%s belongs to %s (%s)' % (an, bn, nm), lambda st, ak=ak, bk=bk, key=key: z3.Or(z3.And(st.store[bk] == L.entry.store[bk], st.store[ak] == L.entry.store[ak]), exists('cl', (0, st.store[key]), lambda k: z3.And(st.store[ak] == s[k].value.t, st.store[bk] == d(k)))))


def none(c): return []


CONTRACTS = [ISEQUAL, dist(SQD, 'ComputeSquaredDistance', 'meshkernel::ComputeSquaredDistance'), dist(DST, 'ComputeDistance', 'meshkernel::ComputeDistance'),
    Contract('MaxAveragingStrategy::Calculate', N_ + 'MaxAveragingStrategy::Calculate', requires=vals_finite, ensures=extreme(idt, False), loop_inv=ex_inv(idt), modifies=none, nothrow=True),
    Contract('MinAveragingStrategy::Calculate', N_ + 'MinAveragingStrategy::Calculate', requires=vals_finite, ensures=extreme(idt, True), loop_inv=ex_inv(idt), modifies=none, nothrow=True),
    Contract('MinAbsAveragingStrategy::Calculate', N_ + 'MinAbsAveragingStrategy::Calculate', requires=vals_finite, ensures=extreme(ab, True), loop_inv=ex_inv(ab), modifies=none, nothrow=True),
    Contract('SimpleAveragingStrategy::Calculate', N_ + 'SimpleAveragingStrategy::Calculate', requires=pre_sums, ensures=simple_ens, loop_inv=sum_inv, modifies=none, nothrow=True, opts=REAL),
    Contract('InverseWeightedAveragingStrategy::Calculate', N_ + 'InverseWeightedAveragingStrategy::Calculate', requires=pre_sums, ensures=inverse_ens, loop_inv=sum_inv, modifies=none, nothrow=True, opts=REAL),
    Contract('ClosestAveragingStrategy::Calculate', N_ + 'ClosestAveragingStrategy::Calculate', requires=touch0, ensures=closest_ens, loop_inv=closest_inv, modifies=none, nothrow=True),
]
# ---------------------------------------------------------------- which samples take part
AI = 'meshkernel::AveragingInterpolation::'
QN = z3.Function('QN', I, I)              # number of results of the n-th query of the sample tree
QR = z3.Function('QR', I, I, I)           # results of the n-th query
INP = z3.Function('INP', R, R, B)         # the point lies in the search polygon
CALC = z3.Const('CALC', R)
CNT = z3.Function('CNT', I, I)
QG = {'query': I}


def q(st): return st.store[('G', ('query',))]


def qeff(f):
    def eff(eng, st, obj, av, c, tu):
        av = [eng.read(st, a) if isinstance(a, LV) else a for a in av]
        r = f(st, *[a.t for a in av])
        t = tu.ty(c['ret'])
        if t.k == 'int': eng.fact(z3.And(r >= 0, r <= MU))
        return Val(t, {(): r})
    return eff


def search(eng, st, obj, av, c, tu):
    eng.gset(st, 'query', q(st) + 1)
    return Val(tu.ty(c['ret']), {})


def inp(eng, st, obj, av, c, tu):
    p = V(eng, st, av[0] if isinstance(av[0], LV) else eng.tmp(st, av[0]))
    return Val(tu.ty(c['ret']), {(): INP(p.x.t, p.y.t)})


def sample(c, j): return V(c.eng, c.pre, c._this).m_samples[QR(c.gold('query'), j)]
def counts(c, j): return z3.And(sample(c, j).value.t > MISS, INP(sample(c, j).x.t, sample(c, j).y.t))


def nb_req(c):
    k = z3.Int('k!cnt')
    n = c.gold('query')
    c.eng.axioms['cnt0'] = CNT(0) == 0
    c.eng.axioms['cnt'] = z3.ForAll([k], z3.Implies(k >= 0, CNT(k + 1) == CNT(k) + z3.If(counts(c, k), 1, 0)), patterns=[z3.MultiPattern(CNT(k), QR(n, k))])
    return {'query results are sample numbers': forall('qr', (0, QN(n)), lambda j: z3.And(QR(n, j) >= 0, QR(n, j) < c.old.m_samples.len), lambda j: [QR(n, j)])}


def filtered(c, s, n):
    """s is the list of the samples that count among the first n query results, in order"""
    return {'as many as count': s.len == CNT(n),
            'each of them': forall('fi', (0, n), lambda j: z3.Implies(counts(c, j), z3.And(CNT(j) < s.len, *[s[CNT(j)].f(f).t == sample(c, j).f(f).t for f in ('x', 'y', 'value')])), lambda j: [CNT(j)])}


def calc_req(c):
    c0 = getattr(c.eng, 'ctx0', None)
    if c0 is None or 'Neighbors' not in c.eng.top.fn.name: return {}
    return filtered(c0, c.arg(1), QN(c0.gold('query')))


def nb_inv(c, L):
    lv = c.new.m_interpolationSampleCache._l
    for nm, key in counters(c.eng, L):
        for n in ('as many as count', 'each of them'):
            L.add('%s (%s)' % (n, nm), lambda s, key=key, n=n: filtered(c, V(c.eng, s, lv), s.store[key])[n])


def radius_ens(c):
    s, p = c.arg(0), c.arg(1)
    return {'reaches every corner': forall('rc', (0, s.len), lambda k: c.res.t >= SQD(p.x.t, p.y.t, s[k].x.t, s[k].y.t, c.old.m_mesh.m_projection.t))}


def radius_inv(c, L):
    s, p = c.arg(0), c.arg(1)
    extremes(c, L, [('distance', z3.IntVal(0), lambda k: TRUE, lambda k: SQD(p.x.t, p.y.t, s[k].x.t, s[k].y.t, c.old.m_mesh.m_projection.t))])


def on_ens(c):
    n = c.gold('query')
    near = c.old.m_samples[QR(n + 2, 0)].value.t
    return {'the statistic when the search found samples': z3.Implies(QN(n + 1) > 0, c.res.t == CALC),
            'otherwise the nearest sample if asked for': z3.Implies(z3.And(QN(n + 1) == 0, c.old.m_useClosestSampleIfNoneAvailable.t, QN(n + 2) > 0), c.res.t == near),
            'otherwise missing': z3.Implies(z3.And(QN(n + 1) == 0, z3.Or(z3.Not(c.old.m_useClosestSampleIfNoneAvailable.t), QN(n + 2) == 0)), c.res.t == MISS)}


def on_req(c):
    n = c.gold('query')
    return {'query results are sample numbers': z3.And(*[forall('qr', (0, QN(m)), lambda j: z3.And(QR(m, j) >= 0, QR(m, j) < c.old.m_samples.len), lambda j: [QR(m, j)]) for m in (n, n + 1, n + 2)]), 'counts': z3.And(QN(n + 1) >= 0, QN(n + 2) >= 0)}


RT = 'meshkernel::RTreeBase::'
cache = lambda c: [V(c.eng, c.pre, c._this).m_interpolationSampleCache._l]
CONTRACTS += [
    Contract('RTreeBase::GetQueryResultSize', RT + 'GetQueryResultSize', effect=qeff(lambda st: QN(q(st))), only_call=True),
    Contract('RTreeBase::GetQueryResult', RT + 'GetQueryResult', effect=qeff(lambda st, i: QR(q(st), i)), only_call=True),
    Contract('RTreeBase::HasQueryResults', RT + 'HasQueryResults', effect=qeff(lambda st: QN(q(st)) > 0), only_call=True),
    Contract('RTreeBase::SearchPoints', RT + 'SearchPoints', effect=search, only_call=True),
    Contract('RTreeBase::SearchNearestPoint', RT + 'SearchNearestPoint', effect=search, only_call=True),
    Contract('IsPointInPolygonNodes', 'meshkernel::IsPointInPolygonNodes', effect=inp, only_call=True),
    Contract('AveragingStrategy::Calculate', N_ + 'AveragingStrategy::Calculate', requires=calc_req, ensures=lambda c: {'s': c.res.t == CALC}, modifies=none, only_call=True),
    Contract('GetSearchPolygon', AI + 'GetSearchPolygon', modifies=none, only_call=True),
    Contract('ComputeInterpolationResultFromNeighbors', AI + 'ComputeInterpolationResultFromNeighbors', requires=nb_req, ensures=lambda c: {'the statistic of the samples that count': c.res.t == CALC}, loop_inv=nb_inv, modifies=cache, ghost=QG),
    Contract('GetSearchRadiusSquared', AI + 'GetSearchRadiusSquared', ensures=radius_ens, loop_inv=radius_inv, modifies=none, nothrow=True),
    Contract('ComputeOnPolygon', AI + 'ComputeOnPolygon', requires=on_req, ensures=on_ens, modifies=cache, ghost=QG),
]
# ---------------------------------------------------------------- results per location
AR = z3.ArraySort(I, R)
DUALX, DUALY, DUALN = z3.Function('DUALX', I, AR), z3.Function('DUALY', I, AR), z3.Function('DUALN', I, I)
COP = z3.Function('COP', I, AR, AR, R, R, R)


def dual(eng, st, obj, av, c, tu):
    n = (eng.read(st, av[0]) if isinstance(av[0], LV) else av[0]).t
    eng.write_leaf(st, av[2], ('#len',), DUALN(n))
    eng.fact(DUALN(n) >= 0)
    for p, srt, info in eng.leaves(av[2].ty):
        if p[:1] == ('[]',): eng.write_leaf(st, av[2], p, (DUALX if p[-1].endswith('x') else DUALY)(n))
    return Val(VOID, {})


def cop(eng, st, obj, av, c, tu):
    s = V(eng, st, av[0])
    xs = {p[-1][-1]: eng.read_leaf(st, av[0], p) for p, srt, info in eng.leaves(av[0].ty) if p[:1] == ('[]',)}
    p = V(eng, st, av[1] if isinstance(av[1], LV) else eng.tmp(st, av[1]))
    eng.havoc_lv(st, V(eng, st, obj).m_interpolationSampleCache._l)
    eng.gset(st, 'query', eng.fresh(I, 'query'))
    bad = st.copy()
    b = eng.fresh(B, 'throws')
    bad.pc = mk_and(st.pc, b)
    eng.throw(bad, None)
    st.pc = mk_and(st.pc, mk_not(b))
    return Val(tu.ty(c['ret']), {(): COP(s.len, xs['x'], xs['y'], p.x.t, p.y.t)})


def node_val(c, n):
    nd = c.old.m_mesh.m_nodes[n]
    return COP(DUALN(n), DUALX(n), DUALY(n), nd.x.t, nd.y.t)


def cmp_req(c):
    m = c.old.m_mesh
    return {'edges are valid': forall('ed', (0, m.m_edges.len), lambda k: z3.And(m.m_edges[k].first.t < m.m_nodes.len, m.m_edges[k].second.t < m.m_nodes.len))}


def cmp_ens(c):
    m, loc = c.old.m_mesh, c.old.m_interpolationLocation.t
    nr, er = c.new.m_nodeResults, c.new.m_edgeResults

    def avg(e):
        a, b = node_val(c, m.m_edges[e].first.t), node_val(c, m.m_edges[e].second.t)
        return z3.If(z3.Or(isnear(c.eng, a, MISS), isnear(c.eng, b, MISS)), MISS, z3.RealVal('0.5') * (a + b))
    on = z3.Or(loc == c.eng.c12loc['Nodes'], loc == c.eng.c12loc['Edges'])
    return {'samples given': c.old.m_samples.len > 0,
            'one value per node': z3.Implies(on, nr.len == m.m_nodes.len),
            'each node its own value': z3.Implies(on, forall('nv', (0, m.m_nodes.len), lambda n: nr[n].t == node_val(c, n))),
            'one value per edge': z3.Implies(loc == c.eng.c12loc['Edges'], er.len == m.m_edges.len),
            'mean of its two nodes or missing': z3.Implies(loc == c.eng.c12loc['Edges'], forall('ev', (0, m.m_edges.len), lambda e: er[e].t == avg(e)))}


def cmp_pre(c):
    c.eng.c12loc = {'Faces': 0, 'Nodes': 1, 'Edges': 2}
    return cmp_req(c)


def cmp_inv(c, L):
    eng = c.eng
    nl = c.new.m_nodeResults._l
    for nm, key in counters(eng, L):
        L.add('nodes so far (%s)' % nm, lambda s, key=key: forall('nv', (0, s.store[key]), lambda n: V(eng, s, nl)[n].t == node_val(c, n)))


for c_ in CONTRACTS:
    if c_.name == 'ComputeOnPolygon': c_.active = False      # proved above; Compute only needs that the value is determined by polygon and point
cmp_c = Contract('AveragingInterpolation::Compute', AI + 'Compute', requires=cmp_pre, ensures=cmp_ens, loop_inv=cmp_inv, opts=REAL, frame=False, ghost=QG)
CONTRACTS += [
    Contract('RTreeBase::Empty', RT + 'Empty', modifies=none, only_call=True, nothrow=True),
    Contract('RTreeBase::BuildTree', RT + 'BuildTree', modifies=none, only_call=True),
    Contract('Mesh::ComputeEdgesCenters', 'meshkernel::Mesh::ComputeEdgesCenters', modifies=lambda c: [V(c.eng, c.pre, c._this).m_edgesCenters._l], only_call=True),
    Contract('Mesh2D::MakeDualFace', 'meshkernel::Mesh2D::MakeDualFace', effect=dual, only_call=True),
    Contract('ComputeOnPolygon value', AI + 'ComputeOnPolygon', effect=cop, only_call=True),
    cmp_c]
ASSUMPTIONS = ['sums of sample values and weights are treated as sums of real numbers (rounding ignored)', 'squared distances are non-negative finite numbers that depend only on the two points and the projection']
HARNESS = {'main': ['C12.cpp'], 'sources': ['lib'], 'timeout': 100}
BOUNDED = 'the six statistics on random lists of up to 6 samples (negative, tiny, huge values, ties, minimum counts 0..5); interpolation to faces, nodes and edges of random small meshes with up to 60 samples (some missing) against a brute-force selection'
RULE = 'distinct (samples, location) pairs'
