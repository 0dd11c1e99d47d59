"""C03: undoing an edit of a curvilinear grid restores it exactly; redoing it repeats it."""
import z3
from mkv.core import *
from mkv.spec import Contract, V, forall
from mkv.common import *
ID = 'C03'
K = 'libs/MeshKernel/src/CurvilinearGrid/'
SOURCES = ['/verif/lemmas/C03.cpp', 'libs/MeshKernel/src/UndoActions/UndoAction.cpp', 'libs/MeshKernel/src/UndoActions/CompoundUndoAction.cpp'] + [K + x + '.cpp' for x in (
    'CurvilinearGrid', 'CurvilinearGridBlock', 'CurvilinearGridDeleteInterior', 'CurvilinearGridDeleteExterior', 'UndoActions/AddGridLineUndoAction',
    'UndoActions/CurvilinearGridBlockUndoAction', 'UndoActions/CurvilinearGridRefinementUndoAction', 'UndoActions/ResetCurvilinearNodeAction')]
G = 'meshkernel::CurvilinearGrid::'
BL = 'meshkernel::CurvilinearGridBlock::'


def peq(a, b): return z3.And(a.x.t == b.x.t, a.y.t == b.y.t)
def rows(m): return m.rows
def cols(m): return m.cols


def so(g): return g.m_startOffset.m_n.t, g.m_startOffset.m_m.t
def eo(g): return g.m_endOffset.m_n.t, g.m_endOffset.m_m.t
def NN(g): return rows(g.m_gridNodes) - so(g)[0] - eo(g)[0]
def NM(g): return cols(g.m_gridNodes) - so(g)[1] - eo(g)[1]
def at(g, n, m): return g.m_gridNodes[(n + so(g)[0], m + so(g)[1])]
def raw(g, r, q): return g.m_gridNodes[(r, q)]
BIG = 1 << 30


def wfg(g):
    """sizes fit: at least two visible lines in each direction"""
    m = g.m_gridNodes
    return z3.And(NN(g) >= 2, NM(g) >= 2, rows(m) < BIG, cols(m) < BIG, *[x < BIG for x in so(g) + eo(g)])


def all2(nm, hn, hm, body, lo=(0, 0), pat=None):
    a, b = z3.Ints('a!%s b!%s' % (nm, nm))
    p = pat(a, b) if pat else []
    f = z3.Implies(z3.And(a >= lo[0], a < hn, b >= lo[1], b < hm), body(a, b))
    return z3.ForAll([a, b], f, patterns=p) if p else z3.ForAll([a, b], f)


def allv(nm, g, body, less=0):
    """for all visible nodes, by position (r, q) in the stored matrix"""
    s0, s1 = so(g)
    return all2(nm, s0 + NN(g) - less, s1 + NM(g) - less, body, lo=(s0, s1))


def val(c, g, r, q): return pvalid(c.eng, raw(g, r, q))


def named(c, g, what, arity, body):
    """a named predicate over positions of the stored matrix of this grid, its definition as axiom"""
    eng = c.eng
    z = raw(g, z3.IntVal(0), z3.IntVal(0))
    key = (what, z.x.t.sexpr(), z.y.t.sexpr(), NN(g).sexpr(), NM(g).sexpr()) + tuple(x.sexpr() for x in so(g))
    if not hasattr(eng, 'preds'): eng.preds = {}
    if key not in eng.axioms:
        F = eng.preds[key] = z3.Function('%s!%d' % (what, len(eng.axioms)), I, I, B)
        eng.axioms[key] = z3.BoolVal(True)
        a, b = z3.Ints('a!if b!if')
        eng.axioms[key] = z3.ForAll([a, b], F(a, b) == body(a, b), patterns=[F(a, b)])
    return eng.preds[key]


def fvalid(c, g, r, q):
    """all four nodes of the face with lowest node (r, q) are valid"""
    s0, s1 = so(g)
    return named(c, g, 'FV', 2, lambda r, q: z3.And(r >= s0, q >= s1, r + 1 < s0 + NN(g), q + 1 < s1 + NM(g), val(c, g, r, q), val(c, g, r + 1, q), val(c, g, r, q + 1), val(c, g, r + 1, q + 1)))(r, q)


def inface(c, g, r, q):
    """(r, q) is a node of a valid face"""
    return named(c, g, 'INF', 2, lambda a, b: z3.Or(*[fvalid(c, g, a - i if i else a, b - j if j else b) for i in (0, 1) for j in (0, 1)]))(r, q)


def shape(a, b): return z3.And(rows(a.m_gridNodes) == rows(b.m_gridNodes), cols(a.m_gridNodes) == cols(b.m_gridNodes), *[x == y for x, y in zip(so(a) + eo(a), so(b) + eo(b))])
def hidden(g, r, q): return z3.Or(r < so(g)[0], q < so(g)[1], r >= so(g)[0] + NN(g), q >= so(g)[1] + NM(g))


def clean(c, g): return allv('cl', g, lambda r, q: z3.Implies(val(c, g, r, q), inface(c, g, r, q)))
def samevis(a, b): return z3.And(NN(a) == NN(b), NM(a) == NM(b), allv('sv', b, lambda r, q: peq(raw(a, r - so(b)[0] + so(a)[0], q - so(b)[1] + so(a)[1]), raw(b, r, q))))


def ints(eng, L):
    """(name, term(state)) of loop counters and of integer locals in scope"""
    cs = [(n, lambda s, k=k: s.store[k]) for n, k in counters(eng, L)] + ([('index', lambda s: s.store[(L.ghost[0], ())])] if L.ghost else [])
    return cs, [(n, lambda s, k=k: L.entry.store[k]) for n, k in scope_ints(eng, L)]


def lex(L, eng):
    """orders in which a nested loop can have visited the cells below (a, b)"""
    cs, sc = ints(eng, L)
    out = []
    for n, t in cs:
        out.append(('rows below ' + n, lambda s, a, b, t=t: a < t(s)))
        for m, u in sc:
            out.append(('cells below (%s,%s)' % (m, n), lambda s, a, b, t=t, u=u: z3.Or(a < u(s), z3.And(a == u(s), b < t(s)))))
    return out


def touched(L, *names): return any(any(x in str(k[1]) for x in names) for k in L.mods)


def blk(b):
    return b.m_bottomLeft.m_n.t, b.m_bottomLeft.m_m.t, b.m_topRight.m_n.t, b.m_topRight.m_m.t


def wfb(b, g):
    n0, m0, n1, m1 = blk(b)
    return z3.And(n0 <= n1, m0 <= m1, n1 <= NN(g), m1 <= NM(g), rows(b.m_gridNodes) == n1 - n0, cols(b.m_gridNodes) == m1 - m0)


def cp_req(c): return {'grid': wfg(c.arg(0)), 'block in the grid': wfb(c.old, c.arg(0))}


def cp_ens(c):
    b, g = c.new, c.arg(0)
    n0, m0, n1, m1 = blk(b)
    return {'block holds the nodes': z3.And(rows(b.m_gridNodes) == n1 - n0, cols(b.m_gridNodes) == m1 - m0, all2('cp', n1 - n0, m1 - m0, lambda r, q: peq(b.m_gridNodes[(r, q)], at(g, r + n0, q + m0))))}


def cp_inv(c, L):
    if not touched(L, 'm_gridNodes'): return
    n0, m0, n1, m1 = blk(c.old)
    g = c.arg(0)
    this = lambda s: V(c.eng, s, c._this)
    for nm, done in lex(L, c.eng):
        L.add('copied ' + nm, lambda s, done=done: all2('cp', n1 - n0, m1 - m0, lambda r, q: z3.Implies(done(s, r, q), peq(this(s).m_gridNodes[(r, q)], at(g, r + n0, q + m0)))))


def inblk(b, r, q):
    n0, m0, n1, m1 = b
    return z3.And(r >= n0, r < n1, q >= m0, q < m1)


def sel2(cond, a, b, x): return z3.And(x.x.t == z3.If(cond, a.x.t, b.x.t), x.y.t == z3.If(cond, a.y.t, b.y.t))


def swapped(c, ob, og, nb, ng, done=lambda r, q: z3.BoolVal(True)):
    n0, m0, n1, m1 = B4 = blk(ob)
    s0, s1 = so(og)
    return {'grid has the values of the block': all2('sw', rows(og.m_gridNodes), cols(og.m_gridNodes), lambda R_, C: sel2(z3.And(inblk(B4, R_ - s0, C - s1), done(R_ - s0 - n0, C - s1 - m0)), ob.m_gridNodes[(R_ - s0 - n0, C - s1 - m0)], og.m_gridNodes[(R_, C)], ng.m_gridNodes[(R_, C)])),
            'block has the values of the grid': all2('sx', n1 - n0, m1 - m0, lambda r, q: sel2(done(r, q), at(og, r + n0, q + m0), ob.m_gridNodes[(r, q)], nb.m_gridNodes[(r, q)]))}


def sw_ens(c):
    g = lambda st: V(c.eng, st, c._args[0])
    d = swapped(c, c.old, g(c.pre), c.new, g(c.post))
    d['same size'] = z3.And(shape(g(c.post), g(c.pre)), *[x == y for x, y in zip(blk(c.new), blk(c.old))])
    d['same block size'] = z3.And(rows(c.new.m_gridNodes) == rows(c.old.m_gridNodes), cols(c.new.m_gridNodes) == cols(c.old.m_gridNodes))
    return d


def sw_inv(c, L):
    if not touched(L, 'm_gridNodes'): return
    g = lambda st: V(c.eng, st, c._args[0])
    this = lambda s: V(c.eng, s, c._this)
    for nm, done in lex(L, c.eng):
        for k, x in swapped(c, c.old, g(c.pre), c.old, g(c.pre)).items():
            L.add(k + ', ' + nm, lambda s, done=done, k=k: swapped(c, c.old, g(c.pre), this(s), g(s), lambda r, q: done(s, r, q))[k])


def gmod(c, *extra):
    o = c.old
    return [o.m_gridNodes._l, o.m_gridFacesMask._l, o.m_gridNodesTypes._l] + [getattr(o, 'm_%sRTreeRequiresUpdate' % x)._l for x in ('nodes', 'edges', 'faces')] + list(extra)


def gone(c, o, r, q): return z3.And(val(c, o, r, q), z3.Not(inface(c, o, r, q)))
def if_gone(c, cond, o, n, r, q): return z3.And(*[getattr(raw(n, r, q), k).t == z3.If(z3.And(cond, gone(c, o, r, q)), MISS, getattr(raw(o, r, q), k).t) for k in 'xy'])


def strip(c, flag, o, n):
    """the nodes of no face are removed, the others untouched"""
    return {'nodes of no face removed, others untouched': allv('st', o, lambda r, q: if_gone(c, flag, o, n, r, q)),
            'hidden nodes untouched': all2('hd', rows(o.m_gridNodes), cols(o.m_gridNodes), lambda r, q: z3.Implies(hidden(o, r, q), peq(raw(n, r, q), raw(o, r, q)))),
            'same size': shape(n, o)}


def ri_ens(c): return strip(c, c.arg(0).t, c.old, c.new)


def fmask(c, o, n, done=lambda r, q: z3.BoolVal(True)):
    return z3.And(rows(n.m_gridFacesMask) == rows(o.m_gridNodes) - 1, cols(n.m_gridFacesMask) == cols(o.m_gridNodes) - 1,
                  allv('fm', o, lambda r, q: n.m_gridFacesMask[(r, q)].t == z3.And(done(r - so(o)[0], q - so(o)[1]), fvalid(c, o, r, q)), less=1))


def fm_ens(c): return {'exactly the valid faces': fmask(c, c.old, c.new)}


def fm_inv(c, L):
    if not touched(L, 'm_gridFacesMask'): return
    this = lambda s: V(c.eng, s, c._this)
    for nm, done in lex(L, c.eng):
        L.add('mask, ' + nm, lambda s, done=done: fmask(c, c.old, this(s), lambda a, b: done(s, a, b)))


def ri_inv(c, L):
    eng, o = c.eng, c.old
    this = lambda s: V(eng, s, c._this)
    s0, s1 = so(o)
    vms = [k for k in L.entry.store if isinstance(k[0], tuple) and k[0][0] == 'v' and k[1] == ('[]', '[]') and L.entry.store[k].sort().eq(z3.ArraySort(I, z3.ArraySort(I, B)))]
    ok = lambda done: lambda a, b: z3.Or(*[z3.And(a >= i, b >= j, done(a - i, b - j), fvalid(c, o, a - i + s0, b - j + s1)) for i in (0, 1) for j in (0, 1)])
    for k in vms:
        if k not in L.mods: L.add('%s final' % k[0][2], lambda s, k=k: all2('vm', NN(o), NM(o), lambda a, b: z3.Select(z3.Select(s.store[k], a), b) == inface(c, o, a + s0, b + s1)))
    for nm, done in lex(L, eng):
        for k in vms:
            if k in L.mods: L.add('%s, %s' % (k[0][2], nm), lambda s, k=k, done=done: all2('vm', NN(o), NM(o), lambda a, b: z3.Select(z3.Select(s.store[k], a), b) == ok(lambda x, y: done(s, x, y))(a, b)))
        if touched(L, 'm_gridNodes'):
            L.add('stripped, %s' % nm, lambda s, done=done: allv('st', o, lambda r, q: if_gone(c, done(s, r - s0, q - s1), o, this(s), r, q)))
    if touched(L, 'm_gridNodes'):
        L.add('hidden kept', lambda s: strip(c, z3.BoolVal(True), o, this(s))['hidden nodes untouched'])


def gridreq(c): return {'grid': wfg(c.old)}
none = lambda c: []


CONTRACTS = [ISEQUAL,
    Contract('CurvilinearGrid::NumN', G + 'NumN', requires=gridreq, ensures=lambda c: {'visible': c.res.t == NN(c.old)}, modifies=none, nothrow=True),
    Contract('CurvilinearGrid::NumM', G + 'NumM', requires=gridreq, ensures=lambda c: {'visible': c.res.t == NM(c.old)}, modifies=none, nothrow=True),
    Contract('CurvilinearGridBlock::CopyFrom', BL + 'CopyFrom', requires=cp_req, ensures=cp_ens, loop_inv=cp_inv, modifies=lambda c: [c.old.m_gridNodes._l], nothrow=True),
    Contract('CurvilinearGridBlock::Swap', BL + 'Swap', requires=cp_req, ensures=sw_ens, loop_inv=sw_inv, nothrow=True, modifies=lambda c: [c.old.m_gridNodes._l, V(c.eng, c.pre, c._args[0]).m_gridNodes._l] + [getattr(V(c.eng, c.pre, c._args[0]), 'm_%sRTreeRequiresUpdate' % x)._l for x in ('nodes', 'edges', 'faces')]),
    Contract('CurvilinearGrid::ComputeGridFacesMask', G + 'ComputeGridFacesMask', requires=gridreq, ensures=fm_ens, loop_inv=fm_inv, nothrow=True, modifies=lambda c: [c.old.m_gridFacesMask._l]),
]
CONTRACTS += [
    Contract('CurvilinearGrid::RemoveInvalidNodes', G + 'RemoveInvalidNodes', requires=gridreq, ensures=ri_ens, loop_inv=ri_inv, nothrow=True, modifies=gmod, opts={'rec': True}),
    Contract('CurvilinearGrid::ComputeGridNodeTypes', G + 'ComputeGridNodeTypes', requires=gridreq, ensures=lambda c: strip(c, z3.BoolVal(True), c.old, c.new), modifies=gmod),
]


def garg(k): return lambda c, st: V(c.eng, st, c._args[k])
def gfield(c, st): return V(c.eng, st, c._args[0]).m_grid


def okidx(g, i): return z3.And(i.m_n.t < NN(g), i.m_m.t < NM(g))


def stripped(c, o, n):
    """n is o without its nodes of no face"""
    return {'redo gives the edited grid': z3.And(*strip(c, z3.BoolVal(True), o, n).values())}


def lem(name, g=garg(0), req=lambda c: {}, n1=None, redo=True, undo=True, **kw):
    kw['opts'] = {'identity': ['meshkernel::CurvilinearGrid'], **kw.get('opts', {})}
    rq = lambda c: {'grid': wfg(g(c, c.pre)), 'every node is in a face': clean(c, g(c, c.pre)), **req(c)}
    out = []
    if undo: out.append(Contract('undo of ' + name, 'lemma::%s_undo' % name, requires=rq, ensures=lambda c: {'all nodes restored': samevis(g(c, c.post), g(c, c.pre))}, **kw))
    if redo: out.append(Contract('redo of ' + name, 'lemma::%s_redo' % name, requires=rq, ensures=lambda c: redone(c, g(c, c.pre), g(c, c.post), n1), **kw))
    return out


class As:
    """the grid g with other nodes"""
    def __init__(self, g, nodes): self.m_gridNodes, self.m_startOffset, self.m_endOffset = nodes, g.m_startOffset, g.m_endOffset


def redone(c, o, n, n1):
    e = As(n, c.argnew(n1))
    return {'redo gives the edited grid, without nodes of no face': z3.And(rows(n.m_gridNodes) == rows(e.m_gridNodes), cols(n.m_gridNodes) == cols(e.m_gridNodes), allv('st', e, lambda r, q: z3.Or(peq(raw(n, r, q), raw(e, r, q)), if_gone(c, z3.BoolVal(True), e, n, r, q))))}


def edit_ens(c):
    o, n = garg(0)(c, c.pre), garg(0)(c, c.post)
    a, b = c.arg(1), c.arg(2)
    s0, s1 = so(o)
    return {'only the block': all2('ed', rows(o.m_gridNodes), cols(o.m_gridNodes), lambda r, q: z3.Implies(z3.Not(inblk((a.m_n.t, a.m_m.t, b.m_n.t, b.m_m.t), r - s0, q - s1)), peq(raw(n, r, q), raw(o, r, q)))),
            'same size': shape(n, o)}


def blkok(a, b, g): return z3.And(a.m_n.t <= b.m_n.t, a.m_m.t <= b.m_m.t, b.m_n.t <= NN(g), b.m_m.t <= NM(g))


CONTRACTS += [Contract('lemma::edit', 'lemma::edit', ensures=edit_ens, modifies=lambda c: [V(c.eng, c.pre, c._args[0]).m_gridNodes._l], only_call=True),
    Contract('CurvilinearGrid::ComputeNodeIndices', G + 'ComputeNodeIndices', ensures=lambda c: {}, modifies=none, nothrow=True, only_call=True)]


def alg(c, st):
    a = V(c.eng, st, c._args[0])
    return a.m_grid


def algblk(c):
    a, g = c.arg(0), alg(c, c.pre)
    lo, hi = a.m_lowerLeft, a.m_upperRight
    return {'block of the grid': z3.And(lo.m_n.t <= hi.m_n.t, lo.m_m.t <= hi.m_m.t, hi.m_n.t < NN(g), hi.m_m.t < NM(g))}


def outside(c, L):
    if not touched(L, 'm_gridNodes'): return
    a, g = c.arg(0), alg(c, c.pre)
    lo, hi = a.m_lowerLeft, a.m_upperRight
    s0, s1 = so(g)
    L.add('nothing outside the block', lambda s: all2('ed', rows(g.m_gridNodes), cols(g.m_gridNodes), lambda r, q: z3.Implies(z3.Not(inblk((lo.m_n.t, lo.m_m.t, hi.m_n.t + 1, hi.m_m.t + 1), r - s0, q - s1)), peq(raw(alg(c, s), r, q), raw(g, r, q)))))


def indices(g): return forall('gi', (0, g.m_gridIndices.len), lambda k: z3.Or(g.m_gridIndices[k].m_n.t == MU, g.m_gridIndices[k].m_m.t == MU, z3.And(g.m_gridIndices[k].m_n.t < NN(g), g.m_gridIndices[k].m_m.t < NM(g))))


node = lambda c: {'node of the grid': okidx(garg(0)(c, c.pre), c.arg(1))}
block = lambda c: {'block of the grid': blkok(c.arg(1), c.arg(2), garg(0)(c, c.pre))}
CONTRACTS += lem('MoveNode', req=node, n1=3)
CONTRACTS += lem('Reset', req=node, redo=False)
CONTRACTS += lem('Block', req=block, n1=3)
CONTRACTS += lem('Refine', n1=1, req=lambda c: {'size of the new grid': z3.And(rows(c.arg(1)) >= 2, cols(c.arg(1)) >= 2, rows(c.arg(1)) < BIG, cols(c.arg(1)) < BIG)})
CONTRACTS += [Contract('CurvilinearGrid::GetBoundaryGridLineType', G + 'GetBoundaryGridLineType', ensures=lambda c: {}, modifies=none, only_call=True)]


def ins_ens(row):
    def f(c):
        o, n, v, k = V(c.eng, c.pre, c._args[0]), V(c.eng, c.post, c._args[0]), c.arg(1), c.arg(2).t
        sh = lambda r, q: (r - 1, q) if row else (r, q - 1)
        i = lambda r, q: r if row else q
        ok = z3.And(k >= 0, k <= (rows(o) if row else cols(o)))
        return {'inserted': z3.And(ok, rows(n) == rows(o) + (1 if row else 0), cols(n) == cols(o) + (0 if row else 1),
                                   all2('in', rows(n), cols(n), lambda r, q: z3.And(z3.Implies(i(r, q) < k, peq(n[(r, q)], o[(r, q)])), z3.Implies(i(r, q) > k, peq(n[(r, q)], o[sh(r, q)])))))}
    return f


CONTRACTS += [Contract('lin_alg::InsertRow', 'lin_alg::InsertRow', ensures=ins_ens(True), modifies=lambda c: [c._args[0]], nothrow=True, only_call=True),
              Contract('lin_alg::InsertCol', 'lin_alg::InsertCol', ensures=ins_ens(False), modifies=lambda c: [c._args[0]], nothrow=True, only_call=True)]
CONTRACTS += lem('AddLine', redo=False, req=lambda c: {'room for a line': z3.And(rows(garg(0)(c, c.pre).m_gridNodes) < BIG - 1, cols(garg(0)(c, c.pre).m_gridNodes) < BIG - 1)})
CONTRACTS += lem('DeleteInterior', g=alg, req=algblk, redo=False, loop_inv=outside)
CONTRACTS += lem('DeleteExterior', g=alg, req=algblk, redo=False)
CONTRACTS += [Contract('CurvilinearGrid::FindLocationIndex', G + 'FindLocationIndex', ensures=lambda c: {'a node of the grid': c.res.t < c.old.m_gridIndices.len}, modifies=none, only_call=True)]


def deleted(c, pre, st):
    """DeleteNode: where a removed node is no neighbour of the invalidated one, nothing changes"""
    o, p, n = garg(0)(c, c.pre), garg(0)(c, pre), garg(0)(c, st)
    x, y = z3.Ints('x!dn y!dn')
    ch = lambda a, b: z3.Not(peq(raw(p, a, b), raw(o, a, b)))
    return {'only neighbours of changed nodes change': allv('nb', o, lambda r, q: z3.Implies(z3.And(*[z3.Not(ch(r + i, q + j)) for i in (-1, 0, 1) for j in (-1, 0, 1)]), peq(raw(n, r, q), raw(o, r, q))))}


def swapback(c, pre, st):
    o, n = garg(0)(c, c.pre), garg(0)(c, st)
    return {'all nodes swapped back': allv('nb', o, lambda r, q: peq(raw(n, r, q), raw(o, r, q)))}


CONTRACTS += lem('DeleteNode', redo=False, opts={'cuts': {'CurvilinearGrid::ComputeGridNodeTypes': deleted, 'CurvilinearGridBlock::Swap': swapback}}, req=lambda c: {'index table of the grid': indices(garg(0)(c, c.pre))})


def near(g, i, r, q):
    s0, s1 = so(g)
    return inblk((i.m_n.t - 1, i.m_m.t - 1, i.m_n.t + 2, i.m_m.t + 2), r - s0, q - s1)


def inv_ens(c):
    o, n = garg(0)(c, c.pre), garg(0)(c, c.post)
    return {'only neighbours can change': allv('nb', o, lambda r, q: z3.Implies(z3.Not(near(o, c.arg(1), r, q)), peq(raw(n, r, q), raw(o, r, q))))}


CONTRACTS += [Contract('invalidating a node', 'lemma::Invalidate_frame', requires=lambda c: {'grid': wfg(garg(0)(c, c.pre)), 'every node is in a face': clean(c, garg(0)(c, c.pre)), **node(c)}, ensures=inv_ens, opts={'identity': ['meshkernel::CurvilinearGrid']})]
HARNESS = {'main': ['C03.cpp'], 'sources': ['lib'], 'timeout': 100}
BOUNDED = 'all editing operations of the library on random curvilinear grids of 3x3 to 7x7 (cartesian and spherical, skewed, with holes), undo and redo three times, then another operation compared with a grid that never had the undone one; random histories of up to 6 operations walked back and forth'
RULE = 'a case is non-trivial when the operation changed the grid; distinct by operation, grid and arguments'
ASSUMPTIONS = ['every valid node of the grid belongs to a face when an edit starts (the administration removes the others)', 'at least two visible lines in each direction, fewer than 2^30 lines',
               'Eigen matrices behave as rows x cols tables (swap, assignment, resize); lin_alg::InsertRow/InsertCol insert a row or column (assumed contract)', 'FindLocationIndex returns the index of a node of the grid; the node index table lists nodes of the grid',
               'line attraction, smoothing, orthogonalization, line shift, line mirror and snapping write only nodes of the block they save (bounded stand-in)']
