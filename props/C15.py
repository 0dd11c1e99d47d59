"""C15: faces are closed rings of edges; the tables between faces, edges and nodes agree."""
import z3
from mkv.core import *
from mkv.spec import Contract, V, forall
from mkv.common import *
from props.C06 import have_edges, ad_req, ad_ens, find_req, find_ens, ends, evalid, num, ne, q2, listed, sized, wf, edges_ok, nodup, other

ID = 'C15'
K = 'libs/MeshKernel/src/'
SOURCES = [K + 'Mesh2D.cpp', K + 'Mesh.cpp']
M2 = 'meshkernel::Mesh2D::'
MAXF = 6


def joins(m, e, a, b):
    f, s = ends(m)
    return z3.Or(z3.And(z3.Select(f, e) == a, z3.Select(s, e) == b), z3.And(z3.Select(f, e) == b, z3.Select(s, e) == a))


def nf(m): return m.m_facesEdges.len
def FE(m, f, i): return m.m_facesEdges[f][i].t
def FN(m, f, i): return m.m_facesNodes[f][i].t
def NF(m, e): return m.m_edgesNumFaces[e].t
def EF(m, e, j): return m.m_edgesFaces[e][j].t
def flen(m, f): return m.m_facesEdges[f].len


def tables(m):
    """name -> formula of the face tables"""
    F, nE = nf(m), m.m_edges.len
    a, b, d = z3.Ints('a!ft b!ft d!ft')
    has = lambda f, e: z3.Or(*[z3.And(z3.IntVal(i) < flen(m, f), FE(m, f, z3.IntVal(i)) == e) for i in range(MAXF)])
    r = {'one entry per face': z3.And(m.m_facesNodes.len == F, m.m_numFacesNodes.len == F, m.m_edgesNumFaces.len == nE, m.m_edgesFaces.len == nE),
         'ring sizes agree': forall('rs', (0, F), lambda f: z3.And(flen(m, f) == m.m_facesNodes[f].len, m.m_numFacesNodes[f].t == flen(m, f), flen(m, f) >= 3, flen(m, f) <= MAXF)),
         'edge joins its node and the next': q2('rj', (0, F), lambda f: (0, flen(m, f)), lambda f, i: z3.And(FE(m, f, i) < nE, FE(m, f, i) >= 0, joins(m, FE(m, f, i), FN(m, f, i), FN(m, f, z3.If(i + 1 == flen(m, f), 0, i + 1)))), lambda f, i: FE(m, f, i)),
         'edges know their faces': q2('ek', (0, F), lambda f: (0, flen(m, f)), lambda f, i: z3.Or(z3.And(NF(m, FE(m, f, i)) > 0, EF(m, FE(m, f, i), z3.IntVal(0)) == f), z3.And(NF(m, FE(m, f, i)) > 1, EF(m, FE(m, f, i), z3.IntVal(1)) == f)), lambda f, i: FE(m, f, i)),
         'at most two faces per edge': forall('tw', (0, nE), lambda e: z3.And(NF(m, e) >= 0, NF(m, e) <= 2)),
         'faces of an edge exist and contain it': q2('fx', (0, nE), lambda e: (0, NF(m, e)), lambda e, j: z3.And(EF(m, e, j) >= 0, EF(m, e, j) < F, has(EF(m, e, j), e)), lambda e, j: EF(m, e, j)),
         'two different faces': forall('td', (0, nE), lambda e: z3.Implies(NF(m, e) == 2, EF(m, e, z3.IntVal(0)) != EF(m, e, z3.IntVal(1)))),
         'ring nodes differ': z3.ForAll([a, b, d], z3.Implies(z3.And(a >= 0, a < F, b >= 0, b < d, d < flen(m, a)), FN(m, a, b) != FN(m, a, d)), **({'patterns': [z3.MultiPattern(FN(m, a, b), FN(m, a, d))]} if okpat(FN(m, a, b)) and okpat(FN(m, a, d)) else {}))}
    return r


def dn_ens(c):
    v = c.arg(1)
    i, j = z3.Ints('i!dn j!dn')
    return {'no repetition reported only if there is none': z3.Implies(z3.Not(c.res.t), z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < v.len), v[i].t != v[j].t)))}


def dn_inv(c, L):
    eng = c.eng
    s = lambda st: V(eng, st, c._args[2])
    for nm, key in counters(eng, L):
        L.add('strictly growing below ' + nm, lambda st, key=key: forall('dg', (0, st.store[key]), lambda k: s(st)[k].t < s(st)[k + 1].t))


def path(c, edges, nodes, start):
    """the walk so far: edge i joins node i and node i+1; the first node is the start"""
    m = c.old
    i = z3.Int('i!pt')
    return z3.And(edges.len == nodes.len, z3.Or(nodes.len == 0, nodes[0].t == start),
                  forall('pj', (0, edges.len - 1), lambda i: joins(m, edges[i].t, nodes[i].t, nodes[i + 1].t)),
                  forall('pe', (0, edges.len), lambda i: z3.And(edges[i].t < m.m_edges.len, edges[i].t >= 0, NF(m, edges[i].t) < 2)))


def fr_req(c):
    m = c.old
    st, nd, pe, k = [c.arg(i).t for i in range(4)]
    ed, no = c.arg(4), c.arg(5)
    f, s = ends(m)
    return lists(m) | {'size': z3.And(k >= 3, k <= MAXF),
            'edge of the node': z3.And(pe < m.m_edges.len, z3.Or(z3.Select(f, pe) == nd, z3.Select(s, pe) == nd)), 'walk': path(c, ed, no, st),
            'walk reaches the node': z3.If(no.len == 0, nd == st, joins(m, ed[no.len - 1].t, no[no.len - 1].t, nd))} | tables(m)


def fr_ens(c):
    return tables(c.new)


def fr_inv(c, L):
    eng = c.eng
    this = lambda s: V(eng, s, c._this)
    o = c.old
    ed = lambda s: V(eng, s, c._args[4])
    if any('edgesNumFaces' in str(k[1]) for k in L.mods):
        cs = counters(eng, L) + ([('index', (L.ghost[0], ()))] if L.ghost else [])
        F = nf(o)
        ix, iy = z3.Ints('i!de j!de')
        E0 = V(eng, L.entry, c._args[4])
        N0 = V(eng, L.entry, c._args[5])
        iv = z3.IntVal
        if E0._l != N0._l: 
            for i in range(MAXF): L.add('edge %d of the ring' % i, lambda s, i=i: z3.Implies(iv(i) < E0.len, joins(o, E0[iv(i)].t, N0[iv(i)].t, N0[z3.If(iv(i + 1) == E0.len, iv(0), iv(i + 1))].t)), cut=True)
            for j in range(MAXF):
                for i in range(j): L.add('nodes %d and %d of the ring differ' % (i, j), lambda s, i=i, j=j: z3.Implies(iv(j) < E0.len, N0[iv(i)].t != N0[iv(j)].t), cut=True)
            L.add('length of the ring', lambda s: z3.And(E0.len == N0.len, E0.len >= 3, E0.len <= MAXF), cut=True)
        for j in range(MAXF):
            for i in range(j): L.add('edges %d and %d of the ring differ' % (i, j), lambda s, i=i, j=j: z3.Implies(z3.IntVal(j) < E0.len, E0[z3.IntVal(i)].t != E0[z3.IntVal(j)].t))
        for nm, key in cs:
            inpre = lambda s, e, key=key: z3.Or(*[z3.And(z3.IntVal(i) < s.store[key], V(eng, L.entry, c._args[4])[z3.IntVal(i)].t == e) for i in range(MAXF)])
            L.add('numbers so far ' + nm, lambda s, key=key, inpre=inpre: forall('nn', (0, o.m_edges.len), lambda e: NF(this(s), e) == NF(o, e) + z3.If(inpre(s, e), 1, 0)))
            L.add('faces so far ' + nm, lambda s, key=key, inpre=inpre: q2('nf', (0, o.m_edges.len), lambda e: (0, 2), lambda e, j: EF(this(s), e, j) == z3.If(z3.And(inpre(s, e), j == NF(o, e)), F, EF(o, e, j))))


def lists(m):
    f, s = ends(m)
    return {'lists': z3.And(wf(m), sized(m), listed(m, m.m_edges.len), edges_ok(m)), 'no edge twice': nodup(m), 'ends of a valid edge have edges': have_edges(m)}


def ff_inv(c, L):
    eng = c.eng
    for k in tables(c.old): L.add(k, lambda s, k=k: tables(V(eng, s, c._this))[k], cut=True)


def next_ens(c):
    m, f, e, r = c.old, c.arg(0).t, c.arg(1).t, c.res.t
    return {'the face across the edge': r == z3.If(f == MU, MU, z3.If(EF(m, e, z3.IntVal(0)) == f, EF(m, e, z3.IntVal(1)), z3.If(EF(m, e, z3.IntVal(1)) == f, EF(m, e, z3.IntVal(0)), MU)))}


def on(m, e, f): return z3.Or(z3.And(NF(m, e) > 0, EF(m, e, z3.IntVal(0)) == f), z3.And(NF(m, e) > 1, EF(m, e, z3.IntVal(1)) == f))


def cf_ens(c):
    m, a, b, r = c.old, c.arg(0).t, c.arg(1).t, c.res.t
    f = z3.Int('f!cf')
    return {'a face of both edges': z3.Implies(r != MU, z3.And(on(m, a, r), on(m, b, r))), 'none only if there is none': z3.Implies(r == MU, z3.ForAll([f], z3.Not(z3.And(f != MU, on(m, a, f), on(m, b, f)))))}


def cf_inv(c, L):
    m, a, b = c.old, c.arg(0).t, c.arg(1).t
    iv = z3.IntVal
    for nm, key in counters(c.eng, L):
        L.add('none below ' + nm, lambda s, key=key: z3.And(*[z3.Implies(z3.And(iv(i) < s.store[key], iv(i) < NF(m, a), iv(j) < NF(m, b)), EF(m, a, iv(i)) != EF(m, b, iv(j))) for i in range(2) for j in range(2)]))
        for rn, rk in scope_ints(c.eng, L):
            i = L.entry.store[rk]
            L.add('none for %s below %s' % (rn, nm), lambda s, key=key, i=i: z3.And(*[z3.Implies(z3.And(iv(j) < s.store[key], iv(j) < NF(m, b)), EF(m, a, i) != EF(m, b, iv(j))) for j in range(2)]))


def opp_ens(c):
    m, f, e, r = c.old, c.arg(0).t, c.arg(1).t, c.res.t
    iv = z3.IntVal
    return {'only quadrilaterals': m.m_numFacesNodes[f].t == 4,
            'the edge two further': z3.Or(z3.And(r == MU, *[FE(m, f, iv(i)) != e for i in range(4)]), *[z3.And(FE(m, f, iv(i)) == e, r == FE(m, f, iv((i + 2) % 4))) for i in range(4)])}


def idx_ens(tab):
    def ens(c):
        m, f, e, r = c.old, c.arg(0).t, c.arg(1).t, c.res.t
        return {'position in the ring': z3.Implies(r != MU, z3.And(r < flen(m, f), tab(m, f, r) == e)), 'none only if not in it': z3.Implies(z3.And(r == MU, f != MU, e != MU), forall('ix', (0, flen(m, f)), lambda i: tab(m, f, i) != e))}
    return ens


def idx_inv(c, L):
    m, f, e = c.old, c.arg(0).t, c.arg(1).t
    for nm, key in counters(c.eng, L):
        for tn, tab in (('edges', FE), ('nodes', FN)): L.add('not among the %s below %s' % (tn, nm), lambda s, key=key, tab=tab: forall('ix', (0, s.store[key]), lambda i: tab(m, f, i) != e))


def bd_ens(c):
    m, f = c.old, c.arg(0).t
    return {'exactly if an edge has one face': c.res.t == z3.Not(forall('bd', (0, flen(m, f)), lambda i: NF(m, FE(m, f, i)) != 1))}


def bd_inv(c, L):
    m, f = c.old, c.arg(0).t
    for nm, key in counters(c.eng, L):
        L.add('no boundary edge below ' + nm, lambda s, key=key: forall('bd', (0, s.store[key]), lambda i: NF(m, FE(m, f, i)) != 1))
    for bn, bk in localbools(c.eng, L): L.add('not ' + bn, lambda s, bk=bk: z3.Not(s.store[bk]))


def fg_req(c):
    m, fn, nm = c.old, c.arg(0), c.arg(1)
    a, b = z3.Ints('a!fq b!fq')
    return {'lists': z3.And(wf(m), sized(m), listed(m, m.m_edges.len), edges_ok(m)), 'no faces yet': z3.And(m.m_facesEdges.len == 0, m.m_edgesNumFaces.len == m.m_edges.len, m.m_edgesFaces.len == m.m_edges.len, forall('nq', (0, m.m_edges.len), lambda e: NF(m, e) == 0)),
            'rings of nodes': z3.And(fn.len == nm.len, forall('rq', (0, fn.len), lambda f: z3.And(fn[f].len > 0, nm[f].t == fn[f].len)), z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < fn.len, 0 <= b, b < fn[a].len), z3.And(fn[a][b].t >= 0, fn[a][b].t < m.m_nodes.len))))}


def given(m, F=None):
    t = tables(m)
    F = nf(m) if F is None else F
    return {'at most two faces per edge': t['at most two faces per edge'], 'faces of an edge exist': q2('fx', (0, m.m_edges.len), lambda e: (0, NF(m, e)), lambda e, j: z3.And(EF(m, e, j) >= 0, EF(m, e, j) < F), lambda e, j: EF(m, e, j)), 
            'edge joins its node and the next': q2('rj', (0, nf(m)), lambda f: (0, flen(m, f)), lambda f, i: joins(m, FE(m, f, i), FN(m, f, i), FN(m, f, z3.If(i + 1 == flen(m, f), 0, i + 1))), lambda f, i: FE(m, f, i)),
            'one edge per node': forall('on', (0, nf(m)), lambda f: flen(m, f) == m.m_facesNodes[f].len),
            'edges of a face exist': q2('ge', (0, nf(m)), lambda f: (0, flen(m, f)), lambda f, i: z3.And(FE(m, f, i) >= 0, FE(m, f, i) < m.m_edges.len), lambda f, i: FE(m, f, i))}


def fg_ens(c):
    m = c.new
    return given(m) | {'one entry per face': z3.And(m.m_facesNodes.len == c.arg(0).len, nf(m) == c.arg(0).len, m.m_edgesNumFaces.len == m.m_edges.len, m.m_edgesFaces.len == m.m_edges.len), 'the given rings': q2('gr', (0, c.arg(0).len), lambda f: (0, c.arg(0)[f].len), lambda f, i: FN(m, f, i) == c.arg(0)[f][i].t)}


def fg_inv(c, L):
    eng, o = c.eng, c.old
    this = lambda s: V(eng, s, c._this)
    cs = counters(eng, L)
    for k in given(o): L.add(k, lambda s, k=k: given(this(s), c.arg(0).len)[k], cut=True)
    for nm, key in cs: L.add('one per ' + nm, lambda s, key=key: nf(this(s)) == s.store[key])
    for an, ln, ps in localseqs(eng, L):
        if () not in ps: continue
        for bn, bound in (('edges', o.m_edges.len), ('nodes', o.m_nodes.len)):
            L.add('%s in range of %s' % (an, bn), lambda s, ln=ln, a=ps[()], bound=bound: forall('lr', (0, ln(s)), lambda k: z3.And(z3.Select(a(s), k) >= 0, z3.Select(a(s), k) < bound)))
        for cn, ck in counters(eng, L):
            for rn, rk in scope_ints(eng, L):
                row = L.entry.store[rk]
                L.add('%s joins of ring %s below %s' % (an, rn, cn), lambda s, row=row, ck=ck, a=ps[()]: forall('lj', (0, s.store[ck]), lambda k: joins(o, z3.Select(a(s), k), c.arg(0)[row][k].t, c.arg(0)[row][z3.If(k + 1 == c.arg(0)[row].len, 0, k + 1)].t)))
            L.add('%s one per %s' % (an, cn), lambda s, ck=ck, ln=ln: ln(s) == s.store[ck])
    for rn, rk in counters(eng, L): L.add('%s is a node' % rn, lambda s, rk=rk: z3.And(s.store[rk] >= 0, s.store[rk] < o.m_nodes.len))


def edge_range(*ix): return lambda c: {'edges': z3.And(*[c.arg(i).t < c.old.m_edges.len for i in ix])} | {k: tables(c.old)[k] for k in ('one entry per face', 'at most two faces per edge', 'faces of an edge exist and contain it')}
def face_range(c): return {'face': z3.Or(c.arg(0).t == MU, c.arg(0).t < nf(c.old))} | {k: tables(c.old)[k] for k in ('one entry per face', 'ring sizes agree', 'edge joins its node and the next')}
def face_ok(c): return face_range(c) | {'a face': c.arg(0).t != MU}


none = lambda c: []
ftab = lambda c: [V(c.eng, c.pre, c._this).f(x)._l for x in ('m_edgesNumFaces', 'm_edgesFaces', 'm_facesNodes', 'm_facesEdges', 'm_faceArea', 'm_facesMassCenters', 'm_numFacesNodes')]
CONTRACTS = [ISEQUAL,
    Contract('Mesh2D::HasDuplicateNodes', M2 + 'HasDuplicateNodes', requires=lambda c: {'size': z3.And(c.arg(1).len == c.arg(0).t, c.arg(1).len > 0)}, ensures=dn_ens, loop_inv=dn_inv, modifies=lambda c: [c._args[2]], nothrow=True),
    Contract('Polygon::FaceAreaAndCenterOfMass(points)', 'meshkernel::Polygon::FaceAreaAndCenterOfMass', params=['vector', 'Projection'], only_call=True, modifies=none),
    Contract('Mesh2D::HasDuplicateEdgeFaces', M2 + 'HasDuplicateEdgeFaces', only_call=True, modifies=lambda c: [c._args[2]], nothrow=True),
    Contract('Polygon::FaceAreaAndCenterOfMass', 'meshkernel::Polygon::FaceAreaAndCenterOfMass', only_call=True, modifies=none),
    Contract('Mesh2D::FindFacesRecursive', M2 + 'FindFacesRecursive', requires=fr_req, ensures=fr_ens, loop_inv=fr_inv, opts={'rec': True}, modifies=lambda c: ftab(c) + [c._args[i] for i in range(4, 9)]),
    Contract('Mesh2D::FindFaces', M2 + 'FindFaces', requires=lambda c: lists(c.old) | tables(c.old), ensures=fr_ens, loop_inv=ff_inv, modifies=ftab),
    Contract('Mesh::FindEdge', 'meshkernel::Mesh::FindEdge', only_call=True, requires=find_req, ensures=find_ens, modifies=none),
    Contract('Mesh2D::FindFacesGivenFaceNodesMapping', M2 + 'FindFacesGivenFaceNodesMapping', requires=fg_req, ensures=fg_ens, loop_inv=fg_inv, modifies=ftab),
    Contract('Mesh::AdministrateNodesEdges', 'meshkernel::Mesh::AdministrateNodesEdges', only_call=True, requires=ad_req, ensures=ad_ens, modifies=lambda c: [c._this]),
    Contract('Mesh2D::ComputeCircumcentersMassCentersAndFaceAreas', M2 + 'ComputeCircumcentersMassCentersAndFaceAreas', only_call=True, modifies=lambda c: [c.old.m_facesCircumcenters._l, c.old.m_faceArea._l, c.old.m_facesMassCenters._l]),
    Contract('Mesh2D::ClassifyNodes', M2 + 'ClassifyNodes', only_call=True, modifies=lambda c: [c.old.m_nodesTypes._l]),
    Contract('Mesh2D::DoAdministration', M2 + 'DoAdministration', requires=lambda c: ad_req(c) | {'not empty': z3.And(c.old.m_nodes.len > 0, c.old.m_edges.len > 0)}, ensures=lambda c: lists(c.new) | tables(c.new), frame=False, opts={'null': [0]}),
    Contract('Mesh2D::NextFace', M2 + 'NextFace', requires=edge_range(1), ensures=next_ens, modifies=none, nothrow=True),
    Contract('Mesh2D::FindCommonFace', M2 + 'FindCommonFace', requires=edge_range(0, 1), ensures=cf_ens, loop_inv=cf_inv, modifies=none, nothrow=True),
    Contract('Mesh2D::FindOppositeEdge', M2 + 'FindOppositeEdge', requires=face_ok, ensures=opp_ens, loop_inv=idx_inv, modifies=none),
    Contract('Mesh::GetEdgeIndex', 'meshkernel::Mesh::GetEdgeIndex', requires=face_range, ensures=idx_ens(FE), loop_inv=idx_inv, exc_ensures=lambda c: {'refused only outside the mesh': z3.Or(c.arg(0).t >= nf(c.old), c.arg(1).t >= c.old.m_edges.len)}, modifies=none),
    Contract('Mesh::GetNodeIndex', 'meshkernel::Mesh::GetNodeIndex', requires=face_range, ensures=idx_ens(FN), loop_inv=idx_inv, exc_ensures=lambda c: {'refused only outside the mesh': z3.Or(c.arg(0).t >= nf(c.old), c.arg(1).t >= c.old.m_nodes.len)}, modifies=none),
    Contract('Mesh::GetLocalFaceNodeIndex', 'meshkernel::Mesh::GetLocalFaceNodeIndex', requires=face_ok, ensures=idx_ens(FN), loop_inv=idx_inv, modifies=none),
    Contract('Mesh::IsFaceOnBoundary', 'meshkernel::Mesh::IsFaceOnBoundary', requires=face_ok, ensures=bd_ens, loop_inv=bd_inv, modifies=none, nothrow=True),
    Contract('Mesh::GetNumValidNodes', 'meshkernel::Mesh::GetNumValidNodes', only_call=True, modifies=none, nothrow=True),
]
ASSUMPTIONS = ['the node-edge tables are as C06 guarantees them; the signed area is left open in the proof (which rings become faces is then left to the bounded stand-in; that a face is a closed ring known to its edges is proved)',
               'recursion is taken by its own contract (partial correctness: termination is not proved)']
HARNESS = {'main': ['C15.cpp'], 'sources': ['lib'], 'timeout': 100}
BOUNDED = 'random quadrilateral, triangular and mixed meshes up to 6x6 nodes, with holes and islands, followed by up to 4 edits giving faces of 3 to 6 edges and open spots: faces against independent ring tracing, every table entry and look-up, meshes from given rings'
RULE = 'distinct meshes and edit histories'
