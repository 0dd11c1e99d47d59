"""C10: parameters are accepted exactly in their documented ranges."""
import z3
from mkv.core import *
from mkv.spec import Contract, V, forall
from mkv.common import *

ID = 'C10'
G = 'libs/MeshKernel/src/'
SOURCES = ['/verif/lemmas/C10.cpp', G + 'MeshRefinement.cpp', G + 'OrthogonalizationAndSmoothing.cpp', G + 'Definitions.cpp', G + 'ConnectMeshes.cpp'] + [G + 'CurvilinearGrid/CurvilinearGrid%s.cpp' % x for x in ('GenerateCircularGrid', 'Orthogonalization', 'FromSplines', 'FromSplinesTransfinite', 'Rectangular')] + [G + 'CurvilinearGrid/CurvilinearGrid.cpp', G + 'Polygons.cpp']
RC = 'meshkernel::range_check::'


def iff(name, cname, pred, n=None, cls=None, **kw):
    """returns normally exactly when pred holds; otherwise a RangeError leaves"""
    def ok(c): return {'accepted only in range': pred(c)}

    def bad(c):
        d = {'rejected only out of range': z3.Not(pred(c))}
        return d
    return Contract(name, cname, params=n, ensures=ok, exc_ensures=bad, modifies=lambda c: [], throws='meshkernel::RangeError', **kw)


def bin_(f): return lambda c: f(c.arg(0).t, c.arg(1).t)
def ter_(f): return lambda c: f(c.arg(0).t, c.arg(1).t, c.arg(2).t)
def pair_(f): return lambda c: f(c.arg(0).t, c.arg(1).first.t, c.arg(1).second.t)


CONTRACTS = []
for n_, f_ in (('Equal', lambda a, b: a == b), ('NotEqual', lambda a, b: a != b), ('Greater', lambda a, b: a > b), ('GreaterEqual', lambda a, b: a >= b), ('Less', lambda a, b: a < b), ('LessEqual', lambda a, b: a <= b)):
    CONTRACTS.append(iff('Check' + n_, RC + 'Check' + n_, bin_(f_)))
for n_, f_ in (('InClosedInterval', lambda v, l, u: z3.And(l <= v, v <= u)), ('InOpenInterval', lambda v, l, u: z3.And(l < v, v < u)), ('InRightHalfOpenInterval', lambda v, l, u: z3.And(l <= v, v < u)),
               ('InLeftHalfOpenInterval', lambda v, l, u: z3.And(l < v, v <= u)), ('OutsideClosedInterval', lambda v, l, u: z3.Or(v < l, v > u)), ('OutsideOpenInterval', lambda v, l, u: z3.Or(v <= l, v >= u))):
    CONTRACTS.append(iff('Check' + n_, RC + 'Check' + n_, ter_(f_), ['', '', '', '']))
    CONTRACTS.append(iff('Check%s(pair)' % n_, RC + 'Check' + n_, pair_(f_), ['', 'pair', '']))
CONTRACTS.append(iff('CheckOneOf', RC + 'CheckOneOf', lambda c: exists('oo', (0, c.arg(1).len), lambda k: c.arg(1)[k].t == c.arg(0).t)))
CONTRACTS.append(iff('CheckNoneOf', RC + 'CheckNoneOf', lambda c: forall('oo', (0, c.arg(1).len), lambda k: c.arg(1)[k].t != c.arg(0).t)))
pos = lambda x: x > 0
nn = lambda x: x >= 0
flag = lambda x: z3.Or(x == 0, x == 1)
unit = lambda x: z3.And(x >= 0, x <= 1)
SPEC = {
    'makeGrid': ('CheckMakeGridParameters', dict(num_columns=pos, num_rows=pos, angle=lambda x: z3.And(x >= -90, x <= 90), block_size_x=pos, block_size_y=pos, radius_curvature=nn, uniform_columns_fraction=nn,
                                               uniform_rows_fraction=nn, maximum_uniform_size_columns=nn, maximum_uniform_size_rows=nn)),
    'curvilinear': ('CheckCurvilinearParameters', dict(m_refinement=pos, n_refinement=pos, smoothing_iterations=pos, smoothing_parameter=unit, attraction_parameter=nn)),
    'splines': ('CheckSplinesToCurvilinearParameters', dict(aspect_ratio=pos, aspect_ratio_grow_factor=pos, average_width=pos, curvature_adapted_grid_spacing=flag, grow_grid_outside=flag, maximum_num_faces_in_uniform_part=pos,
                                                            nodes_on_top_of_each_other_tolerance=pos, min_cosine_crossing_angles=pos, check_front_collisions=flag, remove_skinny_triangles=flag)),
    'refinement': ('CheckMeshRefinementParameters', dict(max_num_refinement_iterations=pos, refine_intersected=flag, use_mass_center_when_refining=flag, min_edge_size=pos, refinement_type=lambda x: z3.And(x >= 1, x <= 3),
                                                         connect_hanging_nodes=flag, account_for_samples_outside=flag, smoothing_iterations=nn, max_courant_time=pos, directional_refinement=flag)),
    'orthogonalization': ('CheckOrthogonalizationParameters', dict(outer_iterations=pos, boundary_iterations=pos, inner_iterations=pos, orthogonalization_to_smoothing_factor=unit, orthogonalization_to_smoothing_factor_at_boundary=unit,
                                                                   areal_to_angle_smoothing_factor=unit)),
}
for l_, (fn_, spec_) in SPEC.items():
    CONTRACTS.append(iff(fn_, 'meshkernel::' + fn_, lambda c, spec_=spec_: z3.And(*[f(c.arg(0).f(n).t) for n, f in spec_.items()])))
from mkv.spec import veq


def guard(name, cname, checks, n=None, keep=(), **kw):
    """the operation is entered only with parameters in range and keeps them; a RangeError leaves otherwise"""
    def ens(c):
        d = {'%s in range' % k: z3.And(*[f(c.arg(i).f(a).t) for a, f in SPEC[k][1].items()]) for i, k in checks}
        for fld, i in keep: d['keeps ' + fld] = veq(c.new.f(fld), c.arg(i))
        return d
    return Contract(name, cname, params=n, ensures=ens, frame=False, **kw)


def nothing_touched(c): return []


CONTRACTS += [Contract('RTreeFactory::Create', 'meshkernel::RTreeFactory::Create', only_call=True, modifies=nothing_touched, nothrow=True),
    Contract('GenerateGridPoints', 'meshkernel::CurvilinearGridGenerateCircularGrid::GenerateGridPoints', only_call=True, modifies=nothing_touched),
    Contract('CurvilinearGrid()', 'meshkernel::CurvilinearGrid::CurvilinearGrid', only_call=True, modifies=lambda c: [c._this]),
    Contract('CurvilinearGridAlgorithm()', 'meshkernel::CurvilinearGridAlgorithm::CurvilinearGridAlgorithm', only_call=True, modifies=lambda c: [c._this]),
    Contract('Splines()', 'meshkernel::Splines::Splines', only_call=True, modifies=lambda c: [c._this])]
CONTRACTS += [
    guard('MeshRefinement(samples)', 'meshkernel::MeshRefinement::MeshRefinement', [(2, 'refinement')], ['Mesh2D', 'unique_ptr', 'Parameters'], [('m_meshRefinementParameters', 2)]),
    guard('MeshRefinement(samples, nodal)', 'meshkernel::MeshRefinement::MeshRefinement', [(2, 'refinement')], ['Mesh2D', 'unique_ptr', 'Parameters', 'bool'], [('m_meshRefinementParameters', 2)]),
    guard('MeshRefinement(polygon)', 'meshkernel::MeshRefinement::MeshRefinement', [(2, 'refinement')], ['Mesh2D', 'Polygons', 'Parameters'], [('m_meshRefinementParameters', 2)]),
    guard('OrthogonalizationAndSmoothing', 'meshkernel::OrthogonalizationAndSmoothing::OrthogonalizationAndSmoothing', [(6, 'orthogonalization')], None, [('m_orthogonalizationParameters', 6)]),
    guard('CurvilinearGridOrthogonalization', 'meshkernel::CurvilinearGridOrthogonalization::CurvilinearGridOrthogonalization', [(1, 'orthogonalization')], None, [('m_orthogonalizationParameters', 1)]),
    guard('CurvilinearGridFromSplines', 'meshkernel::CurvilinearGridFromSplines::CurvilinearGridFromSplines', [(1, 'curvilinear'), (2, 'splines')], None, [('m_curvilinearParameters', 1), ('m_splinesToCurvilinearParameters', 2)]),
    guard('CurvilinearGridFromSplinesTransfinite', 'meshkernel::CurvilinearGridFromSplinesTransfinite::CurvilinearGridFromSplinesTransfinite', [(1, 'curvilinear')], None),
    guard('CurvilinearGridGenerateCircularGrid::Compute', 'meshkernel::CurvilinearGridGenerateCircularGrid::Compute', [(0, 'makeGrid')], None),
]
CR = 'meshkernel::CurvilinearGridRectangular::'
for f_ in ('ComputeCartesian', 'ComputeSpherical', 'ComputeNumRows'):
    CONTRACTS.append(Contract(f_, CR + f_, only_call=True, modifies=nothing_touched))
for f_ in ('Polygons::IsEmpty', 'Polygons::GetProjection', 'Polygons::GetBoundingBox', 'BoundingBox::MassCentre', 'BoundingBox::Width', 'BoundingBox::Height', 'ProjectionToString'):
    CONTRACTS.append(Contract(f_, 'meshkernel::' + f_, only_call=True, modifies=nothing_touched))
CONTRACTS.append(Contract('CurvilinearGrid::Delete', 'meshkernel::CurvilinearGrid::Delete', only_call=True, modifies=lambda c: [c._this]))


def scalar_guard(name, cname, f, n):
    return Contract(name, cname, params=n, ensures=lambda c: {k: g for k, g in f(c).items()}, frame=False)


def ang(x): return z3.And(x > -90, x < 90)


CONTRACTS += [
    scalar_guard('CurvilinearGridRectangular::Compute(counts)', CR + 'Compute', lambda c: {'columns': c.arg(0).t > 0, 'rows': c.arg(1).t > 0, 'angle': ang(c.arg(4).t), 'x block': c.arg(5).t > 0, 'y block': c.arg(6).t > 0},
                 ['int', 'int', 'double', 'double', 'double', 'double', 'double']),
    scalar_guard('CurvilinearGridRectangular::Compute(polygon)', CR + 'Compute', lambda c: {'angle': ang(c.arg(0).t), 'x block': c.arg(1).t > 0, 'y block': c.arg(2).t > 0}, ['double', 'double', 'double', 'shared_ptr', '']),
    scalar_guard('CurvilinearGridRectangular::Compute(extension)', CR + 'Compute', lambda c: {'x block': c.arg(2).t > 0, 'y block': c.arg(3).t > 0}, ['double'] * 6),
]


def enum_iff(name, cname, vals):
    def ok(c): return {'only a known value': z3.Or(*[c.arg(0).t == v for v in vals]), 'that value': c.res.t == c.arg(0).t}
    def bad(c): return {'only an unknown value': z3.And(*[c.arg(0).t != v for v in vals])}
    return Contract(name, cname, ensures=ok, exc_ensures=bad, modifies=nothing_touched, throws='meshkernel::ConstraintError')


CONTRACTS += [enum_iff('GetProjectionValue', 'meshkernel::GetProjectionValue', (0, 1, 2)), enum_iff('GetCurvilinearDirectionValue', 'meshkernel::GetCurvilinearDirectionValue', (0, 1))]
ASSUMPTIONS = ['parameter values are finite and not NaN in the proof; infinities and NaN are covered by the bounded stand-in only']
HARNESS = {'main': ['C10.cpp'], 'sources': ['lib'], 'timeout': 100}
BOUNDED = 'every field of the five parameter sets at the ends of its range, their floating-point neighbours, zero, infinities and NaN, through the checks and through the constructors that must apply them; grid generation and mesh connection arguments; projection, direction and option codes -300..300'
RULE = 'distinct (parameter, value) pairs'
