"""C06: the connectivity tables list exactly the valid edges of every node; look-ups agree with them."""
import z3
from mkv.core import *
from mkv.spec import Contract, V, forall
from mkv.common import *

ID = 'C06'
K = 'libs/MeshKernel/src/'
SOURCES = [K + 'Mesh.cpp', K + 'Mesh2D.cpp']
M = 'meshkernel::Mesh::'
AI = z3.ArraySort(I, I)
DEG = z3.Function('DEG', AI, AI, I, I, I)    # number of valid edges below e that have node n as an end
MAXE = 16


def ends(m): return m.m_edges.leaf(('[]', 'first')), m.m_edges.leaf(('[]', 'second'))


def evalid(f, s, e): return z3.And(z3.Select(f, e) != MU, z3.Select(s, e) != MU)
def touch(f, s, n, e): return z3.And(evalid(f, s, e), z3.Or(z3.Select(f, e) == n, z3.Select(s, e) == n))


def deg(eng, m):
    f, s = ends(m)
    key = ('deg', f.sexpr(), s.sexpr())
    ax = []
    if key in eng.axioms: return eng.axdeg[key][0]
    n, k, j = z3.Ints('n!d k!d j!d')

    def name(x, h):
        if okpat(x): return x
        a = z3.Const('%s!%d' % (h, len(eng.axioms)), x.sort())
        ax.append(a == x)
        return a
    F, S = name(f, 'EF'), name(s, 'ES')
    D = lambda n, e: DEG(F, S, n, e)
    t = lambda n, e: touch(F, S, n, e)
    ax += [z3.ForAll([n], D(n, z3.IntVal(0)) == 0, patterns=[D(n, z3.IntVal(0))]),
           z3.ForAll([n, k], z3.Implies(k >= 0, D(n, k + 1) == D(n, k) + z3.If(t(n, k), 1, 0)), patterns=[D(n, k + 1)]),
           z3.ForAll([n, k], z3.Implies(k >= 0, D(n, k) >= 0), patterns=[D(n, k)]),
           z3.ForAll([n, k, j], z3.Implies(z3.And(0 <= k, k <= j), z3.And(D(n, k) <= D(n, j), z3.Implies(z3.And(k < j, t(n, k)), D(n, k) + 1 <= D(n, j)))), patterns=[z3.MultiPattern(D(n, k), D(n, j))]),
           # lemma (from the above): an end of a valid edge has a positive count
           z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, evalid(F, S, k)), z3.And(D(z3.Select(F, k), j) > 0, D(z3.Select(S, k), j) > 0)), patterns=[D(z3.Select(F, k), j), D(z3.Select(S, k), j)])]
    if not hasattr(eng, 'axdeg'): eng.axdeg = {}
    for G, H in eng.axdeg.values():
        for (A, ta), (B_, tb) in (((D, t), (G, H)), ((G, H), (D, t))):
            # lemma (induction on the bound): fewer touching edges, smaller count
            w, v = z3.Ints('w!%d v!%d' % (len(ax) + 100 * len(eng.axioms), len(ax) + 100 * len(eng.axioms)))
            ax.append(z3.Or(z3.And(w >= 0, w < m.m_edges.len, ta(v, w), z3.Not(tb(v, w))), z3.ForAll([n, k], z3.Implies(z3.And(k >= 0, k <= m.m_edges.len), A(n, k) <= B_(n, k)), patterns=[A(n, k)])))
    eng.axioms[key] = z3.And(*ax)
    eng.axdeg[key] = (D, t)
    return D


def edges_ok(m):
    f, s = ends(m)
    return forall('eo', (0, m.m_edges.len), lambda e: z3.Implies(evalid(f, s, e), z3.And(z3.Select(f, e) < m.m_nodes.len, z3.Select(s, e) < m.m_nodes.len, z3.Select(f, e) != z3.Select(s, e))))


def nodup(m):
    f, s = ends(m)
    a, b = z3.Ints('a!nd b!nd')
    F, S = lambda x: z3.Select(f, x), lambda x: z3.Select(s, x)
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < m.m_edges.len, evalid(f, s, a)), z3.Not(z3.Or(z3.And(F(a) == F(b), S(a) == S(b)), z3.And(F(a) == S(b), S(a) == F(b))))))


def num(m): return lambda n: m.m_nodesNumEdges[n].t
def ne(m): return lambda n, k: m.m_nodesEdges[n][k].t


def q2(nm, ra, rb, body, pat=None):
    a, b = z3.Ints('a!%s b!%s' % (nm, nm))
    lo, hi = ra
    lb, hb = rb(a)
    bd = body(a, b)
    p = pat(a, b) if pat else None
    return z3.ForAll([a, b], z3.Implies(z3.And(a >= lo, a < hi, b >= lb, b < hb), bd), **({'patterns': [p]} if p is not None and okpat(p) else {}))


def listed(m, e, but=None):
    """every listed edge is a valid edge below e of its node"""
    f, s = ends(m)
    N, E = num(m), ne(m)
    return q2('li', (0, m.m_nodes.len), lambda n: (0, N(n)), lambda n, k: z3.Or(FALSE if but is None else n == but, z3.And(E(n, k) < e, E(n, k) >= 0, touch(f, s, n, E(n, k)))), lambda n, k: E(n, k))


def ranked(eng, m):
    D = deg(eng, m)
    N, E = num(m), ne(m)
    return q2('rk', (0, m.m_nodes.len), lambda n: (0, N(n)), lambda n, k: D(n, E(n, k)) == k, lambda n, k: E(n, k))


def once(m, but=None):
    N, E = num(m), ne(m)
    a, b, c = z3.Ints('a!on b!on c!on')
    return z3.ForAll([a, b, c], z3.Implies(z3.And(a >= 0, a < m.m_nodes.len, b >= 0, b < c, c < N(a), TRUE if but is None else a != but), E(a, b) != E(a, c)), **({'patterns': [z3.MultiPattern(E(a, b), E(a, c))]} if okpat(E(a, b)) and okpat(E(a, c)) else {}))


def counted(eng, m, e):
    D = deg(eng, m)
    N = num(m)
    return forall('co', (0, m.m_nodes.len), lambda n: N(n) == D(n, e), pat=lambda n: [N(n)])


def sized(m): return forall('sz', (0, m.m_nodes.len), lambda n: m.m_nodesEdges[n].len == num(m)(n))
def wf(m): return z3.And(m.m_nodesNumEdges.len == m.m_nodes.len, m.m_nodesEdges.len == m.m_nodes.len)


def degree_bound(eng, m):
    D = deg(eng, m)
    f, s = ends(m)
    n, e = m.m_nodes.len, m.m_edges.len
    return q2('db', (0, n), lambda a: (0, e + 1), lambda a, k: D(a, k) + z3.If(z3.And(k < e, touch(f, s, a, k)), 1, 0) <= MAXE, lambda a, k: D(a, k))


GD = z3.Function('GDEG', AI, AI, z3.ArraySort(I, R), z3.ArraySort(I, R), I, I, I)    # edges below e at node n whose two nodes are valid


def nodesxy(m): return m.m_nodes.leaf(('[]', 'Point::x')), m.m_nodes.leaf(('[]', 'Point::y'))


def good(eng, m, e):
    f, s = ends(m)
    return z3.And(evalid(f, s, e), pvalid(eng, m.m_nodes[z3.Select(f, e)]), pvalid(eng, m.m_nodes[z3.Select(s, e)]))


def gdeg(eng, m):
    f, s = ends(m)
    x, y = nodesxy(m)
    key = ('gdeg',) + tuple(v.sexpr() for v in (f, s, x, y))
    D = lambda n, e: GD(f, s, x, y, n, e)
    if key in eng.axioms: return D
    assert okpat(f) and okpat(s) and okpat(x) and okpat(y)
    n, k, j = z3.Ints('n!g k!g j!g')
    t = lambda n, e: z3.And(good(eng, m, e), z3.Or(z3.Select(f, e) == n, z3.Select(s, e) == n))
    eng.axioms[key] = z3.And(z3.ForAll([n], D(n, z3.IntVal(0)) == 0, patterns=[D(n, z3.IntVal(0))]),
           z3.ForAll([n, k], z3.Implies(k >= 0, D(n, k + 1) == D(n, k) + z3.If(t(n, k), 1, 0)), patterns=[D(n, k + 1)]),
           z3.ForAll([n, k], z3.Implies(k >= 0, D(n, k) >= 0), patterns=[D(n, k)]),
           z3.ForAll([n, k, j], z3.Implies(z3.And(0 <= k, k <= j), z3.And(D(n, k) <= D(n, j), z3.Implies(z3.And(k < j, t(n, k)), D(n, k) + 1 <= D(n, j)))), patterns=[z3.MultiPattern(D(n, k), D(n, j))]),
           # lemma (induction): a node of a good edge has a positive count
           z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, good(eng, m, k)), z3.And(D(z3.Select(f, k), j) > 0, D(z3.Select(s, k), j) > 0)), patterns=[z3.MultiPattern(z3.Select(f, k), GD(f, s, x, y, z3.Int('n!g'), j))] if False else [z3.MultiPattern(z3.Select(f, k), D(z3.Select(s, k), j)), z3.MultiPattern(z3.Select(s, k), D(z3.Select(f, k), j))]),
           # lemma (induction): a positive count has a good edge, so the node is valid
           z3.ForAll([n, k], z3.Implies(z3.And(k >= 0, D(n, k) > 0), pvalid(eng, m.m_nodes[n])), patterns=[D(n, k)]))
    return D


def fc_req(c): return {'edges refer to nodes': edges_ok(c.old)}


def fc_ens(c):
    m = c.old
    D = gdeg(c.eng, m)
    r, k = c.argnew(0), c.argnew(1).t
    return {'one flag per node': r.len == m.m_nodes.len, 'flagged exactly if on a valid edge': forall('fc', (0, m.m_nodes.len), lambda n: r[n].t == (D(n, m.m_edges.len) > 0), pat=lambda n: [r[n].t]),
            'no invalid edges counted only if there are none': (k == 0) == forall('fg', (0, m.m_edges.len), lambda e: good(c.eng, m, e)), 'count': k <= m.m_edges.len}


def fc_inv(c, L):
    eng = c.eng
    m = c.old
    D = gdeg(eng, m)
    r = lambda s: V(eng, s, c._args[0])
    k = lambda s: V(eng, s, c._args[1]).t
    cs = counters(eng, L) + ([('index', (L.ghost[0], ()))] if L.ghost else [])
    for nm, key in cs:
        L.add('flags below ' + nm, lambda s, key=key: forall('fc', (0, m.m_nodes.len), lambda n: r(s)[n].t == (D(n, s.store[key]) > 0)))
        L.add('all good or counted below ' + nm, lambda s, key=key: (k(s) == 0) == forall('fg', (0, s.store[key]), lambda e: good(eng, m, e)))
        L.add('count below ' + nm, lambda s, key=key: z3.And(k(s) >= 0, k(s) <= s.store[key]))


def pinv(p): return z3.And(p.x.t == MISS, p.y.t == MISS)
def peq(a, b): return z3.And(a.x.t == b.x.t, a.y.t == b.y.t)


def iu_req(c): return {'flags': c.arg(0).len == c.old.m_nodes.len, 'not recorded': c.arg(2).t == 0}


def iu_ens(c):
    o, m, r = c.old.m_nodes, c.new.m_nodes, c.arg(0)
    return {'same number': m.len == o.len, 'unflagged nodes invalid, others kept': forall('iu', (0, o.len), lambda n: z3.If(r[n].t, peq(m[n], o[n]), pinv(m[n]))),
            'none counted only if all are valid': (c.argnew(1).t == 0) == forall('iv', (0, o.len), lambda n: pvalid(c.eng, m[n])), 'count': c.argnew(1).t <= o.len}


def iu_inv(c, L):
    eng = c.eng
    o, r = c.old.m_nodes, c.arg(0)
    m = lambda s: V(eng, s, c._this).m_nodes
    k = lambda s: V(eng, s, c._args[1]).t
    for nm, key in counters(eng, L):
        L.add('done below ' + nm, lambda s, key=key: forall('iu', (0, o.len), lambda n: z3.If(z3.Or(n >= s.store[key], r[n].t), peq(m(s)[n], o[n]), pinv(m(s)[n]))))
        L.add('valid or counted below ' + nm, lambda s, key=key: (k(s) == 0) == forall('iv', (0, s.store[key]), lambda n: pvalid(eng, m(s)[n])))
        L.add('count below ' + nm, lambda s, key=key: z3.And(k(s) >= 0, k(s) <= s.store[key]))


def su_ens(c):
    eng, o, m = c.eng, c.old, c.new
    D = gdeg(eng, o)
    f, s = ends(o)
    F, S = ends(m)
    return {'same numbers': z3.And(m.m_nodes.len == o.m_nodes.len, m.m_edges.len == o.m_edges.len),
            'nodes on a valid edge kept, others invalid': forall('sn', (0, o.m_nodes.len), lambda n: z3.If(D(n, o.m_edges.len) > 0, peq(m.m_nodes[n], o.m_nodes[n]), pinv(m.m_nodes[n]))),
            'valid edges kept, others invalid': forall('se', (0, o.m_edges.len), lambda e: z3.If(good(eng, o, e), z3.And(z3.Select(F, e) == z3.Select(f, e), z3.Select(S, e) == z3.Select(s, e)), z3.And(z3.Select(F, e) == MU, z3.Select(S, e) == MU)))}


def su_inv(c, L):
    eng, o = c.eng, c.old
    f, s0 = ends(o)
    this = lambda s: V(eng, s, c._this)
    D = gdeg(eng, o)
    for nm, key in counters(eng, L):
        for vn, lv, sq in boolseqs(eng, L):
            L.add('%s tells validity below %s' % (vn, nm), lambda s, key=key, sq=sq: forall('sv', (0, s.store[key]), lambda n: sq(s, n) == (D(n, o.m_edges.len) > 0)))
        if any('m_edges' in str(k[1]) for k in L.mods):
            L.add('edges done below ' + nm, lambda s, key=key: forall('se', (0, o.m_edges.len), lambda e: z3.If(z3.Or(e >= s.store[key], good(eng, o, e)), z3.And(z3.Select(ends(this(s))[0], e) == z3.Select(f, e), z3.Select(ends(this(s))[1], e) == z3.Select(s0, e)), z3.And(z3.Select(ends(this(s))[0], e) == MU, z3.Select(ends(this(s))[1], e) == MU))))


def boolseqs(eng, L):
    return [(k[0][2], k, lambda s, n, k=k: z3.Select(s.store[k], n)) for k in L.mods if isinstance(k[0], tuple) and k[0][0] == 'v' and k[1] == ('[]',) and k in L.entry.store and L.entry.store[k].sort().eq(z3.ArraySort(I, B))]


def have_edges(m):
    f, s = ends(m)
    return forall('hv', (0, m.m_edges.len), lambda e: z3.Implies(evalid(f, s, e), z3.And(num(m)(z3.Select(f, e)) > 0, num(m)(z3.Select(s, e)) > 0)))


def ad_req(c):
    m = c.old
    return {'edges refer to nodes': edges_ok(m), 'no edge twice': nodup(m), 'at most 16 edges per node': degree_bound(c.eng, m), 'not recorded': c.arg(0).t == 0}


def ad_ens(c):
    m = c.new
    on = z3.And(c.old.m_nodes.len > 0, c.old.m_edges.len > 0)
    return {k: (z3.Implies(on, v)) for k, v in {'number of edges of every node': counted(c.eng, m, m.m_edges.len), 'lists only its own valid edges': listed(m, m.m_edges.len), 'no edge listed twice': once(m), 'list as long as its number': z3.And(wf(m), sized(m)), 'ends of a valid edge have edges': have_edges(m)}.items()} | {'edges refer to nodes': edges_ok(m), 'no edge twice': nodup(m)} | su_ens(c)


def na_req(c):
    m = c.old
    return {'tables sized': wf(m), 'tables empty': forall('te', (0, m.m_nodes.len), lambda n: z3.And(num(m)(n) == 0, m.m_nodesEdges[n].len == MAXE)),
            'edges refer to nodes': edges_ok(m), 'no edge twice': nodup(m), 'at most 16 edges per node': degree_bound(c.eng, m)}


def na_ens(c):
    m = c.new
    return {'number of edges of every node': counted(c.eng, m, m.m_edges.len), 'lists only its own valid edges': listed(m, m.m_edges.len), 'each at its rank': ranked(c.eng, m),
            'no edge listed twice': once(m), 'list as long as its number': z3.And(wf(m), sized(m)), 'at most 16': forall('sb', (0, m.m_nodes.len), lambda n: num(m)(n) <= MAXE), 'edges and nodes untouched': z3.And(m.m_nodes.len == c.old.m_nodes.len, m.m_edges.len == c.old.m_edges.len)}


def na_inv(c, L):
    eng = c.eng
    this = lambda s: V(eng, s, c._this)
    for bn, bk in localbools(eng, L): L.add('not ' + bn, lambda s, bk=bk: z3.Not(s.store[bk]))
    if not any('Mesh::m_nodesEdges' in str(k[1]) or 'Mesh::m_nodesNumEdges' in str(k[1]) for k in L.mods): return
    for nm, key in counters(eng, L):
        L.add('counted below ' + nm, lambda s, key=key: counted(eng, this(s), s.store[key]))
        L.add('listed below ' + nm, lambda s, key=key: listed(this(s), s.store[key]))
        L.add('sized below ' + nm, lambda s, key=key: forall('sz', (0, s.store[key]), lambda n: this(s).m_nodesEdges[n].len == num(this(s))(n)))
    L.add('counted', lambda s: counted(eng, this(s), this(s).m_edges.len))
    L.add('listed', lambda s: listed(this(s), this(s).m_edges.len))
    L.add('ranked', lambda s: ranked(eng, this(s)))
    L.add('room', lambda s: forall('rm', (0, this(s).m_nodes.len), lambda n: this(s).m_nodesEdges[n].len == MAXE))


def so_req(c):
    m = c.old
    return {'tables sized': z3.And(wf(m), sized(m)), 'range': z3.And(c.arg(1).t < m.m_nodes.len), 'edges refer to nodes': edges_ok(m), 'lists only its own valid edges': listed(m, m.m_edges.len), 'no edge listed twice': once(m),
            'at most 16': forall('sb', (0, m.m_nodes.len), lambda n: num(m)(n) <= MAXE)}


def so_ens(c):
    m = c.new
    return {'tables sized': wf(m), 'lists only its own valid edges': listed(m, m.m_edges.len), 'no edge listed twice': once(m), 'list as long as its number': sized(m),
            'same numbers': forall('sn', (0, m.m_nodes.len), lambda n: num(m)(n) == num(c.old)(n))}


def so_inv(c, L):
    eng = c.eng
    this = lambda s: V(eng, s, c._this)
    L.add('listed', lambda s: listed(this(s), this(s).m_edges.len))
    L.add('once', lambda s: once(this(s)))
    L.add('sized', lambda s: sized(this(s)))
    if not any('Mesh::m_nodesEdges' in str(k[1]) for k in L.mods): return
    for rn, rk in scope_ints(eng, L):
        row = L.entry.store[rk]
        L.add('once but ' + rn, lambda s, row=row: once(this(s), row))
        L.add('listed but ' + rn, lambda s, row=row: listed(this(s), this(s).m_edges.len, row))
        for nm, key in counters(eng, L):
            for an, a in scope_seqs(eng, L, I):
                for bn, b in scope_seqs(eng, L, I):
                    if an != bn: L.add('row %s permuted %s[%s[%s]]' % (rn, an, bn, nm), lambda s, a=a, b=b, row=row, key=key: forall('pr', (0, s.store[key]), lambda k: ne(this(s))(row, k) == z3.Select(a, z3.Select(b, k))))


def find_ens(c):
    m = c.old
    f, s = ends(m)
    a, b = c.arg(0).t, c.arg(1).t
    N, E = num(m), ne(m)
    conn = lambda e: z3.Or(z3.And(z3.Select(f, e) == a, z3.Select(s, e) == b), z3.And(z3.Select(f, e) == b, z3.Select(s, e) == a))
    return {'an edge between the two nodes': z3.Implies(c.res.t != MU, z3.And(c.res.t < m.m_edges.len, conn(c.res.t))),
            'none only if none is listed': z3.Implies(c.res.t == MU, forall('fe', (0, N(a)), lambda k: z3.Not(conn(E(a, k)))))}


def find_req(c):
    m = c.old
    return {'tables': z3.And(wf(m), sized(m)), 'lists only its own valid edges': listed(m, m.m_edges.len), 'node': z3.Or(c.arg(0).t == MU, c.arg(0).t < m.m_nodes.len)}


def find_inv(c, L):
    m = c.old
    f, s = ends(m)
    a, b = c.arg(0).t, c.arg(1).t
    for nm, key in counters(c.eng, L):
        L.add('none below ' + nm, lambda st, key=key: forall('fe', (0, st.store[key]), lambda k: z3.Not(z3.Or(z3.And(z3.Select(f, ne(m)(a, k)) == a, z3.Select(s, ne(m)(a, k)) == b), z3.And(z3.Select(f, ne(m)(a, k)) == b, z3.Select(s, ne(m)(a, k)) == a)))))
        L.add('no edge below ' + nm, lambda st, key=key: forall('fl', (0, st.store[key]), lambda k: z3.Not(z3.Or(z3.And(z3.Select(f, k) == a, z3.Select(s, k) == b), z3.And(z3.Select(f, k) == b, z3.Select(s, k) == a)))))


def lin_ens(c):
    m = c.old
    f, s = ends(m)
    a, b = c.arg(0).t, c.arg(1).t
    conn = lambda e: z3.Or(z3.And(z3.Select(f, e) == a, z3.Select(s, e) == b), z3.And(z3.Select(f, e) == b, z3.Select(s, e) == a))
    return {'an edge between the two nodes': z3.Implies(c.res.t != MU, z3.And(c.res.t < m.m_edges.len, conn(c.res.t))),
            'none only if there is none': z3.Implies(c.res.t == MU, forall('fl', (0, m.m_edges.len), lambda e: z3.Not(conn(e))))}


def common_ens(c):
    f, s = ends(c.old)
    a, b = c.arg(0).t, c.arg(1).t
    on = lambda n, e: z3.Or(z3.Select(f, e) == n, z3.Select(s, e) == n)
    n = z3.Int('n!cn')
    return {'a node of both edges': z3.Implies(c.res.t != MU, z3.And(on(c.res.t, a), on(c.res.t, b))),
            'none only if there is none': z3.Implies(c.res.t == MU, z3.ForAll([n], z3.Not(z3.And(n != MU, on(n, a), on(n, b)))))}


def other(m, e, n):
    f, s = ends(m)
    return z3.If(z3.Select(f, e) == n, z3.Select(s, e), z3.Select(f, e))


def cn_ens(c):
    m, n, r = c.old, c.arg(0).t, c.argnew(1)
    return {'itself and one node per edge': z3.And(r.len == num(m)(n) + 1, r[0].t == n), 'the other ends in the order of the edges': forall('cn', (0, num(m)(n)), lambda k: r[k + 1].t == other(m, ne(m)(n, k), n))}


def cn_inv(c, L):
    m, n = c.old, c.arg(0).t
    r = lambda s: V(c.eng, s, c._args[1])
    for nm, key in counters(c.eng, L):
        L.add('length ' + nm, lambda s, key=key: r(s).len == s.store[key] + 1)
        L.add('first', lambda s: r(s)[0].t == n)
        L.add('so far ' + nm, lambda s, key=key: forall('cn', (1, s.store[key] + 1), lambda k: r(s)[k].t == other(m, ne(m)(n, k - 1), n)))


def se_ens(c):
    f, s = ends(c.old)
    e, n = c.arg(0).t, c.arg(1).t
    return {'0 for the start, 1 for the end, else none': c.res.t == z3.If(z3.Select(f, e) == n, 0, z3.If(z3.Select(s, e) == n, 1, MU))}


def nb_ens(c):
    m = c.new
    N = num(m)
    return {'a row for every node': m.m_nodesNodes.len == m.m_nodes.len,
            'neighbours in the order of the edges': q2('nb', (0, m.m_nodes.len), lambda n: (0, N(n)), lambda n, k: m.m_nodesNodes[n][k].t == other(m, ne(m)(n, k), n))}


def nb_inv(c, L):
    eng = c.eng
    this = lambda s: V(eng, s, c._this)
    o = c.old
    N = num(o)
    if not any('m_nodesNodes' in str(k[1]) for k in L.mods): return
    X = lambda s, n, k: this(s).m_nodesNodes[n][k].t
    for nm, key in counters(eng, L):
        L.add('rows below ' + nm, lambda s, key=key: q2('nb', (0, s.store[key]), lambda n: (0, N(n)), lambda n, k: X(s, n, k) == other(o, ne(o)(n, k), n)))
        for rn, rk in scope_ints(eng, L):
            row = L.entry.store[rk]
            L.add('rows below %s, %s below %s' % (rn, rn, nm), lambda s, key=key, row=row: z3.And(q2('nb', (0, row), lambda n: (0, N(n)), lambda n, k: X(s, n, k) == other(o, ne(o)(n, k), n)), forall('nc', (0, s.store[key]), lambda k: X(s, row, k) == other(o, ne(o)(row, k), row))))
    L.add('room', lambda s: forall('nr', (0, o.m_nodes.len), lambda n: this(s).m_nodesNodes[n].len > N(n)))


def mk_ens(c):
    m, em, r = c.old, c.arg(0), c.res
    f, s = ends(m)
    n, e = z3.Ints('n!mk e!mk')
    mem = lambda e, n: z3.Or(z3.Select(f, e) == n, z3.Select(s, e) == n)
    return {'one per node': r.len == m.m_nodes.len, 'fits': em.len == m.m_edges.len, 'zero or one': forall('mz', (0, r.len), lambda n: z3.Or(r[n].t == 0, r[n].t == 1)),
            'ends of masked edges are masked': forall('me', (0, m.m_edges.len), lambda e: z3.Implies(em[e].t == 1, z3.And(*[z3.Implies(z3.Select(a, e) != MU, r[z3.Select(a, e)].t == 1) for a in (f, s)]))),
            'nothing else is masked': z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < r.len, r[n].t == 1), z3.Exists([e], z3.And(0 <= e, e < m.m_edges.len, em[e].t == 1, mem(e, n)))))}


def mk_inv(c, L):
    m, em = c.old, c.arg(0)
    f, s_ = ends(m)
    n, e = z3.Ints('n!mk e!mk')
    for nm, key in counters(c.eng, L):
        for vn, ln, ps in localseqs(c.eng, L) + [(k[0][2], None, {(): (lambda s, k=k: s.store[k])}) for k in L.mods if isinstance(k[0], tuple) and k[0][0] == 'v' and k[1] == ('[]',) and k in L.entry.store]:
            r = ps.get(())
            if r is None: continue
            R_ = lambda s, n, r=r: z3.Select(r(s), n)
            L.add('%s zero or one' % vn, lambda s, R_=R_: forall('mz', (0, m.m_nodes.len), lambda n: z3.Or(R_(s, n) == 0, R_(s, n) == 1)))
            L.add('%s masked below %s' % (vn, nm), lambda s, key=key, R_=R_: forall('me', (0, s.store[key]), lambda e: z3.Implies(em[e].t == 1, z3.And(*[z3.Implies(z3.Select(a, e) != MU, R_(s, z3.Select(a, e)) == 1) for a in (f, s_)]))))
            L.add('%s only masked below %s' % (vn, nm), lambda s, key=key, R_=R_: z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < m.m_nodes.len, R_(s, n) == 1), z3.Exists([e], z3.And(0 <= e, e < s.store[key], em[e].t == 1, z3.Or(z3.Select(f, e) == n, z3.Select(s_, e) == n)))), patterns=[R_(s, n)] if okpat(R_(s, n)) else []))


def weak_edges(m):
    f, s = ends(m)
    return forall('wo', (0, m.m_edges.len), lambda e: z3.And(*[z3.Or(z3.Select(a, e) == MU, z3.Select(a, e) < m.m_nodes.len) for a in (f, s)]))


def hg_ens(c):
    m, r = c.old, c.res
    f, s = ends(m)
    N = num(m)
    hang = lambda e: z3.And(evalid(f, s, e), z3.Or(N(z3.Select(f, e)) <= 1, N(z3.Select(s, e)) <= 1))
    C = rankfn(c.eng, 'hanging', hang)
    return {'each is a hanging edge': forall('ha', (0, r.len), lambda k: z3.And(r[k].t >= 0, r[k].t < m.m_edges.len, hang(r[k].t))), 'in order': forall('ho', (0, r.len - 1), lambda k: r[k].t < r[k + 1].t),
            'all of them': forall('hl', (0, m.m_edges.len), lambda e: z3.Implies(hang(e), z3.And(C(e) < r.len, r[C(e)].t == e)), pat=lambda e: [C(e)]), 'as many as there are': r.len == C(m.m_edges.len)}


def hg_inv(c, L):
    m = c.old
    f, s_ = ends(m)
    N = num(m)
    hang = lambda e: z3.And(evalid(f, s_, e), z3.Or(N(z3.Select(f, e)) <= 1, N(z3.Select(s_, e)) <= 1))
    C = rankfn(c.eng, 'hanging', hang)
    for nm, key in counters(c.eng, L):
        for vn, ln, ps in localseqs(c.eng, L):
            r = ps.get(())
            if r is None: continue
            R_ = lambda s, k, r=r: z3.Select(r(s), k)
            L.add('%s hanging below %s' % (vn, nm), lambda s, key=key, R_=R_, ln=ln: forall('ha', (0, ln(s)), lambda k: z3.And(R_(s, k) >= 0, R_(s, k) < s.store[key], hang(R_(s, k)))))
            L.add('%s ordered' % vn, lambda s, R_=R_, ln=ln: forall('ho', (0, ln(s) - 1), lambda k: R_(s, k) < R_(s, k + 1)))
            L.add('%s complete below %s' % (vn, nm), lambda s, key=key, R_=R_, ln=ln: z3.And(ln(s) == C(s.store[key]), forall('hl', (0, s.store[key]), lambda e: z3.Implies(hang(e), R_(s, C(e)) == e), pat=lambda e: [C(e)])))


none = lambda c: []
CONTRACTS = [ISEQUAL,
    Contract('Mesh::NodeAdministration', M + 'NodeAdministration', requires=na_req, ensures=na_ens, loop_inv=na_inv, modifies=lambda c: [c.old.m_nodesEdges._l, c.old.m_nodesNumEdges._l], nothrow=True),
    Contract('Mesh::SortEdgesInCounterClockWiseOrder', M + 'SortEdgesInCounterClockWiseOrder', requires=so_req, ensures=so_ens, loop_inv=so_inv, modifies=lambda c: [c.old.m_nodesEdges._l]),
    Contract('Mesh::FindEdge', M + 'FindEdge', requires=find_req, ensures=find_ens, loop_inv=find_inv, modifies=none),
    Contract('Mesh::FindEdgeWithLinearSearch', M + 'FindEdgeWithLinearSearch', ensures=lin_ens, loop_inv=find_inv, modifies=none, nothrow=True, requires=lambda c: {'edges': z3.BoolVal(True)}),
    Contract('Mesh::FindCommonNode', M + 'FindCommonNode', requires=lambda c: {'edges': z3.And(c.arg(0).t < c.old.m_edges.len, c.arg(1).t < c.old.m_edges.len)}, ensures=common_ens, modifies=none),
    Contract('Mesh::FindConnectedNodes', M + 'FindConnectedNodes', requires=fc_req, ensures=fc_ens, loop_inv=fc_inv, modifies=lambda c: [c._args[0], c._args[1]], nothrow=True),
    Contract('Mesh::InvalidateUnConnectedNodes', M + 'InvalidateUnConnectedNodes', requires=iu_req, ensures=iu_ens, loop_inv=iu_inv, opts={'null': [2]}, modifies=lambda c: [c.old.m_nodes._l, c._args[1]], nothrow=True),
    Contract('Mesh::SetUnConnectedNodesAndEdgesToInvalid', M + 'SetUnConnectedNodesAndEdgesToInvalid', requires=lambda c: {'edges refer to nodes': edges_ok(c.old), 'not recorded': c.arg(0).t == 0}, ensures=su_ens, loop_inv=su_inv, opts={'null': [0]}, modifies=lambda c: [c.old.m_nodes._l, c.old.m_edges._l], nothrow=True),
    Contract('Mesh::AdministrateNodesEdges', M + 'AdministrateNodesEdges', requires=ad_req, ensures=ad_ens, frame=False, opts={'null': [0]}),
    Contract('Mesh2D::GetConnectingNodes', 'meshkernel::Mesh2D::GetConnectingNodes', requires=lambda c: {'tables': z3.And(wf(c.old), sized(c.old), listed(c.old, c.old.m_edges.len)), 'node': c.arg(0).t < c.old.m_nodes.len}, ensures=cn_ens, loop_inv=cn_inv, modifies=lambda c: [c._args[1]], nothrow=True),
    Contract('Mesh2D::IsStartOrEnd', 'meshkernel::Mesh2D::IsStartOrEnd', requires=lambda c: {'edge': c.arg(0).t < c.old.m_edges.len}, ensures=se_ens, modifies=none, nothrow=True),
    Contract('Mesh2D::ComputeNodeNeighbours', 'meshkernel::Mesh2D::ComputeNodeNeighbours', requires=lambda c: {'tables': z3.And(wf(c.old), sized(c.old), listed(c.old, c.old.m_edges.len)), 'at most 16': forall('sb', (0, c.old.m_nodes.len), lambda n: num(c.old)(n) <= MAXE), 'some node': c.old.m_nodes.len > 0}, ensures=nb_ens, loop_inv=nb_inv, modifies=lambda c: [c.old.m_nodesNodes._l, c.old.m_maxNumNeighbours._l], nothrow=True),
    Contract('Mesh2D::NodeMaskFromEdgeMask', 'meshkernel::Mesh2D::NodeMaskFromEdgeMask', requires=lambda c: {'edges refer to nodes': weak_edges(c.old)}, ensures=mk_ens, loop_inv=mk_inv, modifies=none, throws='std::invalid_argument', exc_ensures=lambda c: {'refused only if it does not fit': c.arg(0).len != c.old.m_edges.len}),
    Contract('Mesh2D::GetHangingEdges', 'meshkernel::Mesh2D::GetHangingEdges', requires=lambda c: {'tables': wf(c.old), 'edges refer to nodes': edges_ok(c.old)}, ensures=hg_ens, loop_inv=hg_inv, modifies=none, nothrow=True),
    Contract('Mesh::ResetNode', M + 'ResetNode', only_call=True, modifies=lambda c: [c._this]),
    Contract('Mesh::ResetEdge', M + 'ResetEdge', only_call=True, modifies=lambda c: [c._this]),
    Contract('CompoundUndoAction::Add', 'meshkernel::CompoundUndoAction::Add', only_call=True, modifies=lambda c: [c._this]),
    Contract('GetDx', 'meshkernel::GetDx', only_call=True, modifies=none, nothrow=True),
    Contract('GetDy', 'meshkernel::GetDy', only_call=True, modifies=none, nothrow=True),
]
ASSUMPTIONS = ['edges refer to existing nodes, no edge occurs twice, and a node has at most 16 edges (the documented limit); the administration is taken without recording undo actions',
               'angles are left open in the proof (sorting gives a permutation); the counter-clockwise order is checked by the bounded stand-in']
HARNESS = {'main': ['C06.cpp'], 'sources': ['lib'], 'timeout': 100}
BOUNDED = 'random quadrilateral, triangular and mixed meshes up to 6x6 nodes, with holes and islands, followed by up to 4 edits (deleting, invalidating, inserting, connecting, undone edits), and 1D networks: every table entry, order and look-up against a direct search'
RULE = 'distinct meshes and edit histories'
