"""C07: removing invalid nodes and edges keeps exactly the valid ones, in order, with the edges renumbered."""
import z3
from mkv.core import *
from mkv.spec import Contract, V, forall
from mkv.common import *
from mkv.stdmodel import predarr, CNT
from props.C06 import ends, evalid, edges_ok, good, GD, nodesxy, fc_req, fc_ens, iu_req, iu_ens, peq, pinv, boolseqs, CONTRACTS as C06C

ID = 'C07'
K = 'libs/MeshKernel/src/'
SOURCES = [K + 'Mesh.cpp', K + 'Mesh1D.cpp', K + 'Mesh2D.cpp']
M = 'meshkernel::Mesh::'


def gdeg(eng, m):
    """the count of C06 with only the two lemmas needed here (proved from its definition by induction, see C06)"""
    f, s = ends(m)
    x, y = nodesxy(m)
    key = ('gdeg',) + tuple(v.sexpr() for v in (f, s, x, y))
    D = lambda n, e: GD(f, s, x, y, n, e)
    E = m.m_edges.len
    if key not in eng.axioms:
        n, k = z3.Ints('n!g k!g')
        eng.axioms[key] = z3.And(z3.ForAll([n], z3.Implies(D(n, E) > 0, pvalid(eng, m.m_nodes[n])), patterns=[D(n, E)]),
                                 z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < E, good(eng, m, k)), z3.And(D(z3.Select(f, k), E) > 0, D(z3.Select(s, k), E) > 0)), patterns=[z3.Select(f, k), z3.Select(s, k)]))
    return D


def rk(eng, key, seq, pred):
    """number of indices below k for which pred holds, shared with the counting models of the standard algorithms"""
    if not hasattr(eng, 'rk'): eng.rk = {}
    n = seq.len
    if key not in eng.rk:
        P = eng.rk[key] = predarr(eng, n, pred, 'RK', eng.seq_elem(seq.ty).s)
        w, j = eng.fresh(I, 'w'), z3.Int('j!rk')
        # lemma (induction): if all hold, the count is the number
        eng.axioms[('rk',) + key] = z3.Or(z3.And(w >= 0, w < n, z3.Not(P[w])), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= n), CNT(P, j) == j), patterns=[CNT(P, j)]))
    P = eng.rk[key]
    return lambda k: CNT(P, k)


def nrank(c):
    m = c.old
    D = gdeg(c.eng, m)
    return rk(c.eng, ('n',) + tuple(x.sexpr() for x in ends(m) + nodesxy(m)), m.m_nodes, lambda n: D(n, m.m_edges.len) > 0)


def erank(c):
    m = c.old
    return rk(c.eng, ('e',) + tuple(x.sexpr() for x in ends(m) + nodesxy(m)), m.m_edges, lambda e: good(c.eng, m, e))


def di_req(c):
    nrank(c), erank(c)
    return {'edges refer to nodes': edges_ok(c.old)}


def di_ens(c):
    o, m = c.old, c.new
    D = gdeg(c.eng, o)
    N, E = nrank(c), erank(c)
    f, s = ends(o)
    F, S = ends(m)
    nN, nE = o.m_nodes.len, o.m_edges.len
    return {'as many nodes as are on a valid edge': m.m_nodes.len == N(nN), 'as many edges as are valid': m.m_edges.len == E(nE),
            'nodes kept in order': forall('dn', (0, nN), lambda n: z3.Implies(D(n, nE) > 0, peq(m.m_nodes[N(n)], o.m_nodes[n])), pat=lambda n: [N(n)]),
            'edges kept in order, renumbered': forall('de', (0, nE), lambda e: z3.Implies(good(c.eng, o, e), z3.And(z3.Select(F, E(e)) == N(z3.Select(f, e)), z3.Select(S, E(e)) == N(z3.Select(s, e)))), pat=lambda e: [E(e)])}


def di_inv(c, L):
    eng, o = c.eng, c.old
    D = gdeg(eng, o)
    N, E = nrank(c), erank(c)
    f, s_ = ends(o)
    this = lambda s: V(eng, s, c._this)
    nE = o.m_edges.len
    cs = counters(eng, L) + ([('index', (L.ghost[0], ()))] if L.ghost else [])
    for nm, key in cs:
        for vn, vk in counters(eng, L):
            if vn != nm: L.add('%s counts the valid below %s' % (vn, nm), lambda s, key=key, vk=vk: s.store[vk] == N(s.store[key]))
        for k in list(L.mods):
            if isinstance(k[0], tuple) and k[0][0] == 'v' and k[1] == ('[]',) and k in L.entry.store and L.entry.store[k].sort().eq(z3.ArraySort(I, I)):
                L.add('%s maps below %s' % (k[0][2], nm), lambda s, key=key, k=k: forall('mp', (0, o.m_nodes.len), lambda n: z3.Select(s.store[k], n) == z3.If(z3.And(n < s.store[key], D(n, nE) > 0), N(n), MU)))
        if any('m_edges' in str(k[1]) for k in L.mods):
            L.add('edges renumbered below ' + nm, lambda s, key=key: forall('er', (0, nE), lambda e: z3.And(*[z3.Select(ends(this(s))[i], e) == z3.If(e < s.store[key], z3.If(good(eng, o, e), N(z3.Select((f, s_)[i], e)), MU), z3.Select((f, s_)[i], e)) for i in (0, 1)])))


def nv_ens(c):
    return {'number of valid nodes': c.res.t == vrank(c)(c.old.m_nodes.len)}


def vrank(c): return rk(c.eng, ('v',) + tuple(x.sexpr() for x in nodesxy(c.old)), c.old.m_nodes, lambda n: pvalid(c.eng, c.old.m_nodes[n]))


def vm_ens(rank, size, ok):
    def ens(c):
        m, r, C = c.old, c.res, rank(c)
        n = size(m)
        return {'one per valid entry': r.len == C(n), 'valid ones in order': forall('vm', (0, n), lambda k: z3.Implies(ok(c, k), r[C(k)].t == k), pat=lambda k: [C(k)])}
    return ens


def vm_inv(rank, size, ok):
    def inv(c, L):
        C = rank(c)
        for nm, key in counters(c.eng, L):
            for vn, vk in counters(c.eng, L):
                if vn != nm: L.add('%s counts below %s' % (vn, nm), lambda s, key=key, vk=vk: s.store[vk] == C(s.store[key]))
            for k in list(L.mods):
                if isinstance(k[0], tuple) and k[0][0] == 'v' and k[1] == ('[]',) and k in L.entry.store and L.entry.store[k].sort().eq(z3.ArraySort(I, I)):
                    L.add('%s filled below %s' % (k[0][2], nm), lambda s, key=key, k=k: forall('vm', (0, s.store[key]), lambda n: z3.Implies(ok(c, n), z3.Select(s.store[k], C(n)) == n), pat=lambda n: [C(n)]))
    return inv


def edge_ok(c, e): return good(c.eng, c.old, e)
def node_ok(c, n): return pvalid(c.eng, c.old.m_nodes[n])


def ne_ens(c): return {'number of valid edges': c.res.t == erank(c)(c.old.m_edges.len)}


nsize, esize = (lambda m: m.m_nodes.len), (lambda m: m.m_edges.len)
none = lambda c: []
sub = {c.name: c for c in C06C}


def use(n):
    import copy
    x = copy.copy(sub[n])
    x.only_call = True
    return x


CONTRACTS = [ISEQUAL, use('Mesh::FindConnectedNodes'), use('Mesh::InvalidateUnConnectedNodes'),
    Contract('Mesh::DeleteInvalidNodesAndEdges', M + 'DeleteInvalidNodesAndEdges', requires=di_req, ensures=di_ens, loop_inv=di_inv, modifies=lambda c: [c.old.m_nodes._l, c.old.m_edges._l], nothrow=True),
    Contract('Mesh::GetNumValidNodes', M + 'GetNumValidNodes', requires=lambda c: (vrank(c), {})[1], ensures=nv_ens, modifies=none, nothrow=True),
    Contract('Mesh::GetNumValidEdges', M + 'GetNumValidEdges', requires=lambda c: (erank(c), {'edges refer to nodes': edges_ok(c.old)})[1], ensures=ne_ens, loop_inv=vm_inv(erank, esize, edge_ok), modifies=none),
    Contract('Mesh::GetValidNodeMapping', M + 'GetValidNodeMapping', requires=lambda c: (vrank(c), {})[1], ensures=vm_ens(vrank, nsize, node_ok), loop_inv=vm_inv(vrank, nsize, node_ok), modifies=none, nothrow=True),
    Contract('Mesh::GetValidEdgeMapping', M + 'GetValidEdgeMapping', requires=lambda c: (erank(c), {'edges refer to nodes': edges_ok(c.old)})[1], ensures=vm_ens(erank, esize, edge_ok), loop_inv=vm_inv(erank, esize, edge_ok), modifies=none),
]
ASSUMPTIONS = ['edges refer to existing nodes (or are missing); FindConnectedNodes and InvalidateUnConnectedNodes by the contracts proved in C06',
               'two lemmas about the number of valid edges of a node (positive for the ends of a valid edge; zero for invalid nodes) follow from its definition by induction and are not machine-checked']
HARNESS = {'main': ['C07.cpp'], 'sources': ['lib'], 'timeout': 100}
BOUNDED = 'random node and edge lists of up to 9 nodes and 13 edges with missing, half-missing and dangling entries; edited random 2D meshes up to 6x6 nodes: result, counts and index mappings against a direct compaction'
RULE = 'distinct node and edge lists, edit histories'
