"""C09: bounding boxes are complete and tight."""
import z3
from mkv.core import *
from mkv.spec import Contract, V, forall
from mkv.common import *

ID = 'C09'
SOURCES = ['/verif/lemmas/C09.cpp', 'libs/MeshKernel/src/Mesh2D.cpp', 'libs/MeshKernel/src/Splines.cpp', 'libs/MeshKernel/src/LandBoundary.cpp', 'libs/MeshKernel/src/Polygon.cpp']
BB = 'meshkernel::BoundingBox::'
MX = z3.RealVal(str(int(1.7976931348623157e308)))


def finite(x): return z3.And(x >= -MX, x <= MX)
def pts_finite(s): return forall('fi', (0, s.len), lambda k: z3.And(finite(s[k].x.t), finite(s[k].y.t)))
def box_finite(b): return z3.And(*[finite(x) for x in (b.m_lowerLeft.x.t, b.m_lowerLeft.y.t, b.m_upperRight.x.t, b.m_upperRight.y.t)])
def inside(b, p): return z3.And(b.m_lowerLeft.x.t <= p.x.t, p.x.t <= b.m_upperRight.x.t, b.m_lowerLeft.y.t <= p.y.t, p.y.t <= b.m_upperRight.y.t)
def everything(b): return z3.And(b.m_lowerLeft.x.t == -MX, b.m_lowerLeft.y.t == -MX, b.m_upperRight.x.t == MX, b.m_upperRight.y.t == MX)
def nothing(b): return z3.And(b.m_lowerLeft.x.t == MX, b.m_lowerLeft.y.t == MX, b.m_upperRight.x.t == -MX, b.m_upperRight.y.t == -MX)


def box_of(eng, b, s, lo, hi):
    """b is the box of the valid points s[lo..hi)"""
    ok = lambda k: pvalid(eng, s[k])
    anyv = exists('av', (lo, hi), ok)
    d = {'every valid point is inside': forall('in', (lo, hi), lambda k: z3.Implies(ok(k), inside(b, s[k]))),
         'nothing when no point is valid': z3.Or(anyv, nothing(b))}
    for n, side, co in (('left', b.m_lowerLeft.x.t, 'x'), ('lower', b.m_lowerLeft.y.t, 'y'), ('right', b.m_upperRight.x.t, 'x'), ('upper', b.m_upperRight.y.t, 'y')):
        d['%s side touches a valid point' % n] = z3.Implies(anyv, exists('to', (lo, hi), lambda k: z3.And(ok(k), s[k].f(co).t == side)))
    return d


def inv(seq, lo):
    def f(c, L):
        s = seq(c)
        ok = lambda k: pvalid(c.eng, s[k])
        extremes(c, L, [('x', lo(c), ok, lambda k: s[k].x.t), ('y', lo(c), ok, lambda k: s[k].y.t)])
    return f


def reset3(c):
    return box_of(c.eng, c.new, c.arg(0), c.arg(1).t, c.arg(2).t + 1)


def whole(b):
    def f(c):
        s = c.arg(0)
        return {n: z3.Implies(s.len > 0, g) for n, g in box_of(c.eng, b(c), s, 0, s.len).items()} | {'no points: everything': z3.Implies(s.len == 0, everything(b(c)))}
    return f


req1 = lambda c: {'finite': pts_finite(c.arg(0))}
req3 = lambda c: {'finite': pts_finite(c.arg(0)), 'range': z3.And(c.arg(1).t <= c.arg(2).t, c.arg(2).t < c.arg(0).len)}
modthis = lambda c: [c._this]


def merge_ens(c):
    a, b, r = c.arg(0), c.arg(1), c.res
    mn, mx = lambda x, y: z3.If(x <= y, x, y), lambda x, y: z3.If(x <= y, y, x)
    return {'smallest box around both': z3.And(*[r.m_lowerLeft.f(q).t == mn(a.m_lowerLeft.f(q).t, b.m_lowerLeft.f(q).t) for q in 'xy'] + [r.m_upperRight.f(q).t == mx(a.m_upperRight.f(q).t, b.m_upperRight.f(q).t) for q in 'xy'])}


def two_ens(c):
    a, b, r = c.arg(0), c.arg(1), c.res
    mn, mx = lambda x, y: z3.If(x <= y, x, y), lambda x, y: z3.If(x <= y, y, x)
    return {'box of the two points': z3.And(*[r.m_lowerLeft.f(q).t == mn(a.f(q).t, b.f(q).t) for q in 'xy'] + [r.m_upperRight.f(q).t == mx(a.f(q).t, b.f(q).t) for q in 'xy'])}


def proper(b): return z3.And(b.m_lowerLeft.x.t <= b.m_upperRight.x.t, b.m_lowerLeft.y.t <= b.m_upperRight.y.t)


def overlap_ens(c):
    a, b = c.old, c.arg(0)
    x, y = z3.Reals('px! py!')
    common = z3.Exists([x, y], z3.And(a.m_lowerLeft.x.t <= x, x <= a.m_upperRight.x.t, a.m_lowerLeft.y.t <= y, y <= a.m_upperRight.y.t,
                                      b.m_lowerLeft.x.t <= x, x <= b.m_upperRight.x.t, b.m_lowerLeft.y.t <= y, y <= b.m_upperRight.y.t))
    return {'overlap means a common point': z3.Implies(z3.And(proper(a), proper(b)), c.res.t == common), 'common point means overlap': z3.Implies(common, c.res.t)}


def edges_ens(c):
    r, e, n = c.res, c.old.m_edges, c.old.m_nodes
    mn, mx = lambda x, y: z3.If(x <= y, x, y), lambda x, y: z3.If(x <= y, y, x)
    bad = lambda k: z3.Or(e[k].first.t == MU, e[k].second.t == MU)

    def boxed(k):
        a, b = n[e[k].first.t], n[e[k].second.t]
        return z3.And(*[r[k].m_lowerLeft.f(q).t == mn(a.f(q).t, b.f(q).t) for q in 'xy'] + [r[k].m_upperRight.f(q).t == mx(a.f(q).t, b.f(q).t) for q in 'xy'])
    return {'one box per edge': r.len == e.len, 'box of each valid edge': forall('eb', (0, e.len), lambda k: z3.Implies(z3.Not(bad(k)), boxed(k))),
            'invalid edges have an empty box': forall('ee', (0, e.len), lambda k: z3.Implies(bad(k), nothing(r[k])))}


def edges_req(c):
    e = c.old.m_edges
    return {'edge ends': forall('er', (0, e.len), lambda k: z3.And(*[z3.Or(x == MU, x < c.old.m_nodes.len) for x in (e[k].first.t, e[k].second.t)]))}


def spline_ens(c): return {n: g for n, g in whole_of(c.eng, c.res, c.old.m_splineNodes[c.arg(0).t]).items()}


def whole_of(eng, b, s): return {n: z3.Implies(s.len > 0, g) for n, g in box_of(eng, b, s, 0, s.len).items()} | {'no points: everything': z3.Implies(s.len == 0, everything(b))}
def poly_box(eng, p): return whole_of(eng, p.m_boundingBox, p.m_nodes)
def poly_ens(c): return poly_box(c.eng, c.new)


CONTRACTS = [ISEQUAL,
    Contract('BoundingBox::Reset(slice)', BB + 'Reset', params=['vector', 'unsigned long', 'unsigned long'], requires=req3, ensures=reset3, modifies=modthis, nothrow=True, loop_inv=inv(lambda c: c.arg(0), lambda c: c.arg(1).t)),
    Contract('BoundingBox::Reset', BB + 'Reset', params=['vector'], requires=req1, ensures=whole(lambda c: c.new), modifies=modthis, nothrow=True),
    Contract('box of points', 'lemma::ofPoints', requires=req1, ensures=whole(lambda c: c.res), nothrow=True),
    Contract('box of samples', 'lemma::ofSamples', requires=req1, ensures=whole(lambda c: c.res), nothrow=True),
    Contract('box of a slice', 'lemma::ofSlice', requires=req3, ensures=lambda c: box_of(c.eng, c.res, c.arg(0), c.arg(1).t, c.arg(2).t + 1), nothrow=True),
    Contract('BoundingBox::Contains', BB + 'Contains', ensures=lambda c: {'inside': c.res.t == inside(c.old, c.arg(0))}, modifies=lambda c: [], nothrow=True),
    Contract('BoundingBox::Overlaps', BB + 'Overlaps', ensures=overlap_ens, modifies=lambda c: [], nothrow=True),
    Contract('overlap is symmetric', 'lemma::overlapSymmetric', ensures=lambda c: {'symmetric': c.res.t}, nothrow=True),
    Contract('Merge', 'meshkernel::Merge', params=['BoundingBox', 'BoundingBox'], ensures=merge_ens, modifies=lambda c: [], nothrow=True),
    Contract('BoundingBox::CreateBoundingBox', BB + 'CreateBoundingBox', ensures=two_ens, modifies=lambda c: [], nothrow=True),
    Contract('CreateNonOverlappingBoundingBox', 'meshkernel::CreateNonOverlappingBoundingBox', ensures=lambda c: {'nothing': nothing(c.res)}, modifies=lambda c: [], nothrow=True),
    Contract('default box', 'lemma::everything', ensures=lambda c: {'everything': everything(c.res)}, nothrow=True),
    Contract('Mesh2D::GetBoundingBox', 'meshkernel::Mesh2D::GetBoundingBox', requires=lambda c: {'finite': pts_finite(c.old.m_nodes)}, ensures=lambda c: box_of(c.eng, c.res, c.old.m_nodes, z3.IntVal(0), c.old.m_nodes.len),
             modifies=lambda c: [], nothrow=True, loop_inv=inv(lambda c: c.old.m_nodes, lambda c: z3.IntVal(0))),
    Contract('Mesh2D::GetEdgesBoundingBoxes', 'meshkernel::Mesh2D::GetEdgesBoundingBoxes', requires=edges_req, ensures=edges_ens, modifies=lambda c: [], nothrow=True),
    Contract('LandBoundary::GetBoundingBox(slice)', 'meshkernel::LandBoundary::GetBoundingBox', params=['unsigned long', 'unsigned long'], requires=lambda c: {'finite': pts_finite(c.old.m_nodes), 'range': z3.And(c.arg(0).t <= c.arg(1).t, c.arg(1).t < c.old.m_nodes.len)},
             ensures=lambda c: box_of(c.eng, c.res, c.old.m_nodes, c.arg(0).t, c.arg(1).t + 1), modifies=lambda c: [], nothrow=True),
    Contract('LandBoundary::GetBoundingBox', 'meshkernel::LandBoundary::GetBoundingBox', params=[], requires=lambda c: {'finite': pts_finite(c.old.m_nodes), 'not empty': c.old.m_nodes.len > 0},
             ensures=lambda c: box_of(c.eng, c.res, c.old.m_nodes, z3.IntVal(0), c.old.m_nodes.len), modifies=lambda c: [], nothrow=True),
    Contract('Splines::GetBoundingBox', 'meshkernel::Splines::GetBoundingBox', requires=lambda c: {'finite': pts_finite(c.old.m_splineNodes[c.arg(0).t]), 'range': c.arg(0).t < c.old.m_splineNodes.len}, ensures=spline_ens, modifies=lambda c: []),
    Contract('Polygon::Reset', 'meshkernel::Polygon::Reset', requires=lambda c: {'finite': pts_finite(c.arg(0))}, ensures=poly_ens, modifies=modthis, loop_inv=None),
    Contract('Polygon::Initialise', 'meshkernel::Polygon::Initialise', requires=lambda c: {'finite': pts_finite(c.old.m_nodes)}, ensures=poly_ens, modifies=modthis),
    Contract('InvalidPointCount', 'meshkernel::InvalidPointCount', only_call=True, modifies=lambda c: [], nothrow=True),
    Contract('Polygon::operator=', 'meshkernel::Polygon::operator=', requires=lambda c: {n: g for n, g in poly_box(c.eng, c.arg(0)).items()}, ensures=poly_ens, modifies=lambda c: [c._this, c._args[0]]),
    Contract('Polygon::SnapToLandBoundary', 'meshkernel::Polygon::SnapToLandBoundary', requires=lambda c: {'finite': pts_finite(c.old.m_nodes)}, ensures=poly_ens, modifies=modthis, loop_inv=lambda c, L: L.add('finite', lambda s: pts_finite(V(c.eng, s, c._this).m_nodes))),
    Contract('LandBoundary::FindNearestPoint', 'meshkernel::LandBoundary::FindNearestPoint', only_call=True, modifies=lambda c: [], ensures=lambda c: {'finite': z3.And(finite(c.res.x.t), finite(c.res.y.t))}),
    Contract('TranslateSphericalCoordinates', 'meshkernel::TranslateSphericalCoordinates', only_call=True, modifies=lambda c: [c._args[0]], nothrow=True, ensures=lambda c: {'finite': pts_finite(c.argnew(0)), 'length': c.argnew(0).len == c.arg(0).len}),
]
for c_ in CONTRACTS:
    if c_.cname in (BB + 'CreateBoundingBox', 'meshkernel::CreateNonOverlappingBoundingBox', BB + 'Contains', BB + 'Overlaps'): c_.active = False
ASSUMPTIONS = ['coordinates are finite']
HARNESS = {'main': ['C09.cpp'], 'sources': ['lib'], 'timeout': 100}
BOUNDED = 'boxes of random point/sample lists (up to 9 points, invalid points, extreme and negative ranges), slices, land boundaries, splines, polygons (also copied, reset, snapped), meshes with deleted nodes and edges; merge, overlap, containment'
RULE = 'distinct point lists'
