"""C02: undoing an edit of an unstructured mesh restores it exactly; redoing repeats it exactly."""
import z3
from mkv.core import *
from mkv.spec import Contract, V, veq, forall
from mkv.prog import Ty

ID = 'C02'
U = 'libs/MeshKernel/src/UndoActions/'
SOURCES = ['libs/MeshKernel/src/Mesh.cpp', '/verif/lemmas/C02.cpp'] + [U + x + '.cpp' for x in (
    'UndoAction', 'AddNodeAction', 'AddEdgeAction', 'DeleteEdgeAction', 'DeleteNodeAction', 'ResetNodeAction', 'ResetEdgeAction', 'NodeTranslationAction',
    'MeshConversionAction', 'FullUnstructuredGridUndo', 'SphericalCoordinatesOffsetAction', 'CompoundUndoAction')]
MISS = -999.0
MU = 4294967295


def peq(a, b): return z3.And(a.x.t == b.x.t, a.y.t == b.y.t)
def eeq(a, b): return z3.And(a.first.t == b.first.t, a.second.t == b.second.t)
def pinv(a): return z3.And(a.x.t == MISS, a.y.t == MISS)
def einv(a): return z3.And(a.first.t == MU, a.second.t == MU)


def same_nodes(a, b): return z3.And(a.len == b.len, forall('n', (0, b.len), lambda k: peq(a[k], b[k])))
def same_edges(a, b): return z3.And(a.len == b.len, forall('e', (0, b.len), lambda k: eeq(a[k], b[k])))


def restored(new, old):
    """the mesh is the old one; slots appended meanwhile are invalid"""
    n, o = new.m_nodes, old.m_nodes
    e, f = new.m_edges, old.m_edges
    return {'nodes as before': z3.And(n.len >= o.len, forall('n', (0, o.len), lambda k: peq(n[k], o[k]))),
            'no node more than before': forall('m', (o.len, n.len), lambda k: pinv(n[k])),
            'edges as before': z3.And(e.len >= f.len, forall('e', (0, f.len), lambda k: eeq(e[k], f[k]))),
            'no edge more than before': forall('g', (f.len, e.len), lambda k: einv(e[k])),
            'projection as before': new.m_projection.t == old.m_projection.t}


def frame_same(c, *names):
    return {}


def node_set(idx, val):
    def f(c):
        o, n = c.old, c.new
        a = c.arg(0)
        i = idx(a)
        return {'node written': z3.And(n.m_nodes.len == o.m_nodes.len, val(c, n.m_nodes[i])),
                'other nodes untouched': forall('k', (0, o.m_nodes.len), lambda k: z3.Implies(k != i, peq(n.m_nodes[k], o.m_nodes[k]))),
                'edges untouched': same_edges(n.m_edges, o.m_edges)}
    return f


def edge_set(idx, val):
    def f(c):
        o, n = c.old, c.new
        i = idx(c.arg(0))
        return {'edge written': z3.And(n.m_edges.len == o.m_edges.len, val(c, n.m_edges[i])),
                'other edges untouched': forall('k', (0, o.m_edges.len), lambda k: z3.Implies(k != i, eeq(n.m_edges[k], o.m_edges[k]))),
                'nodes untouched': same_nodes(n.m_nodes, o.m_nodes)}
    return f


nid = lambda a: a.m_nodeId.t
eid = lambda a: a.m_edgeId.t
hasnode = lambda c: {'index in range': z3.And(nid(c.arg(0)) < c.old.m_nodes.len, nid(c.arg(0)) < c.old.m_nodesNumEdges.len)}
hasedge = lambda c: {'index in range': eid(c.arg(0)) < c.old.m_edges.len}
M = 'meshkernel::Mesh::'


def CA(kind, cls, req, ens):
    return Contract('Mesh::%sAction(%s)' % (kind, cls), M + kind + 'Action', params=['meshkernel::' + cls], requires=req, ensures=ens, nothrow=True)


def swap_req(c):
    a = c.arg(0)
    ni, k = a.m_nodeIndices, z3.Ints('q r')
    return {'sizes': z3.And(a.m_nodes.len <= c.old.m_nodes.len, z3.Or(ni.len == 0, ni.len == a.m_nodes.len)),
            'indices in range': forall('i', (0, ni.len), lambda i: z3.And(ni[i].t >= 0, ni[i].t < c.old.m_nodes.len)),
            'indices distinct': distinct(ni)}


def distinct(s):
    i, j = z3.Ints('i! j!')
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < s.len), s[i].t != s[j].t))


def wf(m): return z3.And(m.m_nodesNumEdges.len == m.m_nodes.len, m.m_nodesEdges.len == m.m_nodes.len)


def L(name, req, snap=None, proj=True, **kw):
    """lemma functions name_undo and name_redo"""
    out = []
    mesh = lambda c, st: V(c.eng, st, c._args[0])

    def ens_undo(c): return restored(mesh(c, c.post), mesh(c, c.pre))

    def ens_redo(c):
        m = mesh(c, c.post)
        n = len(c._args)
        return {'nodes as after the edit': same_nodes(m.m_nodes, c.argnew(n - 2)), 'edges as after the edit': same_edges(m.m_edges, c.argnew(n - 1))}
    r = (lambda c: req(c, mesh(c, c.pre))) if req else None
    out.append(Contract('undo of ' + name, 'lemma::%s_undo' % name, requires=r, ensures=ens_undo, **kw))
    if snap is not False: out.append(Contract('redo of ' + name, 'lemma::%s_redo' % name, requires=r, ensures=ens_redo, **kw))
    return out


def rng_nodes(c, m): return {'administrated': wf(m), 'index': c.arg(1).t < m.m_nodes.len}


def valid_edges(m):
    return forall('ve', (0, m.m_edges.len), lambda k: z3.And(*[z3.Or(x == MU, x < m.m_nodes.len) for x in (m.m_edges[k].first.t, m.m_edges[k].second.t)]))


def adm(m):
    a, b = z3.Ints('a! b!')
    ne, cnt = m.m_nodesEdges, m.m_nodesNumEdges
    return z3.And(wf(m), z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < m.m_nodes.len, b >= 0, b < cnt[a].t), z3.And(cnt[a].t <= ne[a].len, ne[a][b].t < m.m_edges.len))))


def idx_ok(c, m):
    s = c.arg(1)
    return {'distinct': distinct(s), 'in range': forall('i', (0, s.len), lambda k: s[k].t < m.m_nodes.len), 'values': c.arg(2).len == s.len, 'not empty': s.len > 0}


def scatter(L, eng, idx, n, targets, srcs, tag):
    """loop invariants for 'x[idx[i]] gets src[i]': candidates, each checked by the solver.
    POS is a (definitional) inverse of the injective index sequence idx[0..n)"""
    POS = z3.Function('POS!%d' % eng.nfresh, I, I)
    eng.nfresh += 1
    i, j = z3.Ints('i! j!')
    inj = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), idx[i].t != idx[j].t))
    k = z3.Int('k!p')
    eng.fact(z3.Implies(inj, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), POS(idx[k].t) == k), patterns=[idx[k].t] if okpat(idx[k].t) else [])))
    ent = L.entry
    for nm, key, info in eng.intvars(L):
        if info == 'len': continue

        def inpre(s, k, key=key): return z3.And(POS(k) >= 0, POS(k) < s.store[key], POS(k) < n, idx[POS(k)].t == k)
        for tn, lv in targets:
            o = V(eng, ent, lv)
            for sn, src in srcs:
                L.add('scatter %s <- %s by %s' % (tn, sn, nm), lambda s, lv=lv, o=o, src=src, inpre=inpre: forall('sc', (0, o.len), lambda k: peq(V(eng, s, lv)[k], PSel(inpre(s, k), src(POS(k)), o[k])), lambda k: pats(V(eng, s, lv)[k])))
            for sn, src in srcs:
                L.add('gather %s <- %s by %s' % (tn, sn, nm), lambda s, lv=lv, o=o, src=src, key=key: forall('ga', (0, o.len), lambda k: peq(V(eng, s, lv)[k], PSel(k < s.store[key], src(idx[k].t), o[k])), lambda k: pats(V(eng, s, lv)[k])))


def pats(v): return [t for t in (v.x.t, v.y.t) if okpat(t)]


class PSel:
    def __init__(self, c, a, b):
        class T: pass
        self.x, self.y = T(), T()
        self.x.t, self.y.t = z3.If(c, a.x.t, b.x.t), z3.If(c, a.y.t, b.y.t)


def tr_inv(c, L):
    eng = c.eng
    act = eng.heaplv(eng.A0, Ty._intern['meshkernel::NodeTranslationAction'])
    av = V(eng, L.entry, act)
    nodes = V(eng, L.entry, c._args[0]).m_nodes
    v = c.arg(2)
    scatter(L, eng, c.arg(1), c.arg(1).len, [('nodes', nodes._l), ('saved', av.m_nodes._l)], [('values', lambda k: v[k]), ('saved', lambda k: av.m_nodes[k]), ('nodes', lambda k: nodes[k])], '')


CONTRACTS = [
    CA('Commit', 'AddNodeAction', hasnode, node_set(nid, lambda c, x: peq(x, c.arg(0).m_node))),
    CA('Restore', 'AddNodeAction', hasnode, node_set(nid, lambda c, x: pinv(x))),
    CA('Commit', 'ResetNodeAction', hasnode, node_set(nid, lambda c, x: peq(x, c.arg(0).m_updatedNode))),
    CA('Restore', 'ResetNodeAction', hasnode, node_set(nid, lambda c, x: peq(x, c.arg(0).m_initialNode))),
    CA('Commit', 'DeleteNodeAction', hasnode, node_set(nid, lambda c, x: pinv(x))),
    CA('Restore', 'DeleteNodeAction', hasnode, node_set(nid, lambda c, x: peq(x, c.arg(0).m_node))),
    CA('Commit', 'AddEdgeAction', hasedge, edge_set(eid, lambda c, x: eeq(x, c.arg(0).m_edge))),
    CA('Restore', 'AddEdgeAction', hasedge, edge_set(eid, lambda c, x: einv(x))),
    CA('Commit', 'ResetEdgeAction', hasedge, edge_set(eid, lambda c, x: eeq(x, c.arg(0).m_updatedEdge))),
    CA('Restore', 'ResetEdgeAction', hasedge, edge_set(eid, lambda c, x: eeq(x, c.arg(0).m_initialEdge))),
    CA('Commit', 'DeleteEdgeAction', hasedge, edge_set(eid, lambda c, x: einv(x))),
    CA('Restore', 'DeleteEdgeAction', hasedge, edge_set(eid, lambda c, x: eeq(x, c.arg(0).m_edge))),
]
for c_ in CONTRACTS: c_.active = False      # proved on their own; the lemmas below execute the bodies
CONTRACTS += L('InsertNode', lambda c, m: {'administrated': wf(m)})
CONTRACTS += L('ConnectNodes', lambda c, m: {'administrated': adm(m), 'nodes': z3.And(c.arg(1).t < m.m_nodes.len, c.arg(2).t < m.m_nodes.len)})
CONTRACTS += L('ResetNode', rng_nodes)
CONTRACTS += L('ResetEdge', lambda c, m: {'index': c.arg(1).t < m.m_edges.len})
CONTRACTS += L('DeleteEdge', lambda c, m: {'index': c.arg(1).t < m.m_edges.len})
CONTRACTS += L('Translation', idx_ok, loop_inv=tr_inv)
CONTRACTS += L('TranslationAll', lambda c, m: {'size': c.arg(1).len == m.m_nodes.len})
CONTRACTS += L('Conversion', lambda c, m: {'size': c.arg(1).len == m.m_nodes.len})
ASSUMPTIONS = ['the mesh administration tables (edges per node) are consistent when an edit starts', 'sum of node indices in a partial translation are distinct']
HARNESS = {'main': ['C02.cpp'], 'sources': ['lib'], 'timeout': 100}
BOUNDED = 'all mesh editing operations of the library on random small meshes (quads, triangles, mixed, holes, islands, up to 6x6, with deleted nodes and edges, cartesian and spherical), undo and redo up to three times; random histories of up to 6 operations walked back and forth'
RULE = 'a case is non-trivial when the operation changed the mesh; distinct by operation, mesh and arguments'
