"""C01: undo/redo history discipline."""
import z3
from mkv.core import *
from mkv.spec import Contract, V, veq, forall
from mkv.stdmodel import predarr, CNT
from mkv.prog import U32

ID = 'C01'
SRC = 'libs/MeshKernel/src/UndoActions/'
SOURCES = [SRC + 'UndoActionStack.cpp', SRC + 'UndoAction.cpp', SRC + 'CompoundUndoAction.cpp']
LOGS = {'nlog': I, 'log': z3.ArraySort(I, I)}
COMMITTED, RESTORED = 0, 1


def act_ty(): return Ty._intern['meshkernel::UndoAction']


def state_of(c, st, a):
    return V(c.eng, st, LV(HEAP, (), (a,), act_ty())).m_state.t


from mkv.prog import Ty


def ent_eq(a, b):
    return z3.And(a.m_undoAction.t == b.m_undoAction.t, a.m_actionId.t == b.m_actionId.t)


def seq_same(a, b):
    return z3.And(a.len == b.len, forall('s', (0, a.len), lambda k: ent_eq(a[k], b[k])))


def inv(v): return v.m_committed.len <= v.m_maxUndoSize.t


def unchanged(c):
    return {'committed unchanged': seq_same(c.new.m_committed, c.old.m_committed), 'redoable unchanged': seq_same(c.new.m_restored, c.old.m_restored),
            'limit unchanged': c.new.m_maxUndoSize.t == c.old.m_maxUndoSize.t}


def filtered(c, new, old, ident):
    """new is old without the entries of ident, in order"""
    n = old.len
    P = predarr(c.eng, n, lambda k: old[k].m_actionId.t != ident)
    return z3.And(new.len == CNT(P, n), forall('f', (0, n), lambda k: z3.Implies(P[k], ent_eq(new[CNT(P, k)], old[k]))))


# ---- virtual hooks of the actions, as seen by the history
def call_effect(kind):
    def eff(eng, st, obj, args, c, tu):
        """Commit()/Restore() of an action: logged; may throw leaving the caller's lists alone; sets the state; may change the state of sub-actions"""
        a = obj.idxs[0]
        b = eng.fresh(z3.BoolSort(), 'throws')
        bad = st.copy()
        bad.pc = mk_and(st.pc, b)
        eng.throw(bad, None)
        st.pc = mk_and(st.pc, mk_not(b))
        n = eng.gget(st, 'nlog')
        eng.gset(st, 'log', z3.Store(eng.gget(st, 'log'), n, a * 2 + kind))
        eng.gset(st, 'nlog', n + 1)
        sl = obj.cast(act_ty()).f('UndoAction::m_state', eng.fieldty(act_ty(), 'm_state')[1])
        key, sort, info, p = eng.leafkeys(sl)[0]
        f = eng.fresh(sort, 'st')
        eng.typefact(f, sort, info)
        eng._wr(st, LV(HEAP, sl.path, (), sl.ty), key, sort, info, f)
        eng.write(st, sl, type(eng.read(st, sl))(sl.ty, {(): z3.IntVal(kind)}))
        return None or __import__('mkv.core', fromlist=['Val']).Val(VOIDT, {})
    return eff


from mkv.prog import VOID as VOIDT


def add_requires(c):
    a = c.arg(0).t
    return {'representation': inv(c.old), 'pointer valid': z3.And(a >= 0, a < c.A0)}


def add_ensures(c):
    o, n = c.old, c.new
    a, ident = c.arg(0).t, c.arg(1).t
    ok = z3.And(o.m_maxUndoSize.t > 0, a != 0)
    cl = o.m_committed.len
    drop = z3.If(cl + 1 > o.m_maxUndoSize.t, 1, 0)
    isnew = lambda k: z3.And(n.m_committed[k].m_undoAction.t == a, n.m_committed[k].m_actionId.t == ident)
    return {'representation': inv(n),
            'ignored when null or disabled': z3.Implies(z3.Not(ok), z3.And(seq_same(n.m_committed, o.m_committed), seq_same(n.m_restored, o.m_restored))),
            'only committed actions are added': z3.Implies(ok, state_of(c, c.pre, a) == COMMITTED),
            'size': z3.Implies(ok, n.m_committed.len == cl + 1 - drop),
            'appended last': z3.Implies(ok, isnew(n.m_committed.len - 1)),
            'older ones kept in order, only the oldest evicted': z3.Implies(ok, forall('o', (0, n.m_committed.len - 1), lambda k: ent_eq(n.m_committed[k], o.m_committed[k + drop]))),
            'redoable actions of exactly this id discarded': z3.Implies(ok, filtered(c, n.m_restored, o.m_restored, ident)),
            'ownership taken': z3.Implies(ok, c.argnew(0).t == 0),
            'limit unchanged': n.m_maxUndoSize.t == o.m_maxUndoSize.t}


def undo_ensures(frm, to, kind, limit):
    def f(c):
        o, n = c.old, c.new
        a, b, a2, b2 = o.f(frm), o.f(to), n.f(frm), n.f(to)
        any_ = a.len > 0
        last = a[a.len - 1]
        drop = z3.If(z3.And(limit, b.len + 1 > o.m_maxUndoSize.t), 1, 0)
        nl0, nl1 = c.gold('nlog'), c.g('nlog')
        return {'nothing to do': z3.Implies(z3.Not(any_), z3.And(seq_same(a2, a), seq_same(b2, b), z3.Not(c.res.has), nl1 == nl0)),
                'the last action, and only it, is called once': z3.Implies(any_, z3.And(nl1 == nl0 + 1, c.g('log')[nl0] == last.m_undoAction.t * 2 + kind)),
                'returns its id': z3.Implies(any_, z3.And(c.res.has, c.res.opt.t == last.m_actionId.t)),
                'leaves its stack': z3.Implies(any_, z3.And(a2.len == a.len - 1, forall('x', (0, a.len - 1), lambda k: ent_eq(a2[k], a[k])))),
                'enters the other stack on top': z3.Implies(any_, z3.And(b2.len == b.len + 1 - drop, ent_eq(b2[b2.len - 1], last))),
                'others of the other stack kept in order': z3.Implies(any_, forall('y', (0, b2.len - 1), lambda k: ent_eq(b2[k], b[k + drop]))),
                'representation': inv(n),
                'limit unchanged': n.m_maxUndoSize.t == o.m_maxUndoSize.t}
    return f


def setmax_ensures(c):
    o, n = c.old, c.new
    m, cl = c.arg(0).t, o.m_committed.len
    keep = z3.If(m == 0, 0, z3.If(cl > m, m, cl))
    return {'limit set': n.m_maxUndoSize.t == m,
            'newest kept': z3.And(n.m_committed.len == keep, forall('k', (0, keep), lambda k: ent_eq(n.m_committed[k], o.m_committed[k + (cl - keep)]))),
            'redoable': z3.If(m == 0, n.m_restored.len == 0, seq_same(n.m_restored, o.m_restored)),
            'representation': inv(n)}


def setmax_inv(c, L):
    o = c.old

    def shift(s):
        n = o.in_(s)
        return z3.And(n.m_committed.len <= o.m_committed.len,
                      forall('k', (0, n.m_committed.len), lambda k: ent_eq(n.m_committed[k], o.m_committed[k + (o.m_committed.len - n.m_committed.len)])))
    L.add('shifted suffix', shift)


def remove_ensures(c):
    o, n = c.old, c.new
    ident = c.arg(0).t
    return {'committed of exactly this id removed': filtered(c, n.m_committed, o.m_committed, ident),
            'redoable of exactly this id removed': filtered(c, n.m_restored, o.m_restored, ident),
            'count': c.res.t == (o.m_committed.len - n.m_committed.len) + (o.m_restored.len - n.m_restored.len),
            'representation': inv(n), 'limit unchanged': n.m_maxUndoSize.t == o.m_maxUndoSize.t}


MISSING_INT = -2147483648 + 1


def size_ensures(fld):
    def f(c):
        s = c.old.f(fld)
        ident = c.arg(0).t
        P = predarr(c.eng, s.len, lambda k: s[k].m_actionId.t == ident)
        miss = c.eng.prog.globals['meshkernel::constants::missing::intValue'][1]['cv']
        d = {'counts': c.res.t == z3.If(ident == int(miss), s.len, CNT(P, s.len))}
        d.update(unchanged(c))
        return d
    return f


def clear_ensures(c):
    return {'empty': z3.And(c.new.m_committed.len == 0, c.new.m_restored.len == 0), 'limit unchanged': c.new.m_maxUndoSize.t == c.old.m_maxUndoSize.t}


# ---- a single action
def do_effect(kind):
    def eff(eng, st, obj, args, c, tu):
        from mkv.core import Val
        b = eng.fresh(z3.BoolSort(), 'throws')
        bad = st.copy()
        bad.pc = mk_and(st.pc, b)
        eng.throw(bad, None)
        st.pc = mk_and(st.pc, mk_not(b))
        n = eng.gget(st, 'nlog')
        eng.gset(st, 'log', z3.Store(eng.gget(st, 'log'), n, obj.idxs[0] * 2 + kind))
        eng.gset(st, 'nlog', n + 1)
        return Val(VOIDT, {})
    return eff


def action_ensures(kind):
    def f(c):
        s0 = c.old.m_state.t
        do = s0 != kind
        return {'state': c.new.m_state.t == z3.If(z3.Or(s0 == 0, s0 == 1), kind, s0),
                'performed exactly when not already in that state': c.g('nlog') == c.gold('nlog') + z3.If(z3.And(do, z3.Or(s0 == 0, s0 == 1)), 1, 0),
                'the right operation': z3.Implies(z3.And(do, z3.Or(s0 == 0, s0 == 1)), c.g('log')[c.gold('nlog')] == c.addr * 2 + kind)}
    return f


def action_requires(c): return {'enumerated state': z3.Or(c.old.m_state.t == 0, c.old.m_state.t == 1)}


# ---- compound actions
def comp_ensures(kind):
    def f(c):
        s = c.old.m_undoActions
        n = s.len
        l0, l1 = c.gold('nlog'), c.g('nlog')
        pos = (lambda k: s[k]) if kind == COMMITTED else (lambda k: s[n - 1 - k])
        return {'each part once': l1 == l0 + n,
                'in order' if kind == COMMITTED else 'in reverse order': forall('k', (0, n), lambda k: c.g('log')[l0 + k] == pos(k).t * 2 + kind)}
    return f


def comp_inv(kind):
    def f(c, L):
        s = c.old.m_undoActions
        n = s.len
        pos = (lambda k: s[k]) if kind == COMMITTED else (lambda k: s[n - 1 - k])
        g = lambda st, x: st.store[('G', (x,))]
        l0 = c.gold('nlog')
        L.add('log prefix', lambda st: z3.And(g(st, 'nlog') >= l0, forall('k', (0, g(st, 'nlog') - l0), lambda k: g(st, 'log')[l0 + k] == pos(k).t * 2 + kind)))
        L.add('children unchanged', lambda st: z3.And(c.new.in_(st).m_undoActions.len == n))
    return f


def compadd_ensures(c):
    o, n = c.old.m_undoActions, c.new.m_undoActions
    a = c.arg(0).t
    return {'null ignored': z3.Implies(a == 0, z3.And(n.len == o.len, forall('k', (0, o.len), lambda k: n[k].t == o[k].t))),
            'appended': z3.Implies(a != 0, z3.And(n.len == o.len + 1, n[o.len].t == a, forall('k', (0, o.len), lambda k: n[k].t == o[k].t))),
            'only committed parts': z3.Implies(a != 0, state_of(c, c.pre, a) != RESTORED)}


S_ = 'meshkernel::UndoActionStack::'
A_ = 'meshkernel::UndoAction::'
K_ = 'meshkernel::CompoundUndoAction::'
rep = lambda c: {'representation': inv(c.old)}
mod_lists = lambda c: [c._this.f('UndoActionStack::' + n, c.eng.fieldty(c._this.ty, n)[1]) for n in ('m_committed', 'm_restored')]
mod_all = lambda c: mod_lists(c) + [c._this.f('UndoActionStack::m_maxUndoSize', c.eng.fieldty(c._this.ty, 'm_maxUndoSize')[1])]
nomod = lambda c: []
mstate = lambda c: [LV(HEAP, ('UndoAction::m_state',), (c.addr,), c.eng.fieldty(act_ty(), 'm_state')[1])]

CONTRACTS = [
    Contract('virtual DoCommit', A_ + 'DoCommit', effect=do_effect(COMMITTED), trusted=True),
    Contract('virtual DoRestore', A_ + 'DoRestore', effect=do_effect(RESTORED), trusted=True),
    Contract('UndoAction::Commit (call)', A_ + 'Commit', effect=call_effect(COMMITTED), only_call=True),
    Contract('UndoAction::Restore (call)', A_ + 'Restore', effect=call_effect(RESTORED), only_call=True),
    Contract('UndoAction::Commit', A_ + 'Commit', requires=action_requires, ensures=action_ensures(COMMITTED), exc_ensures=lambda c: {'state unchanged': c.new.m_state.t == c.old.m_state.t}, modifies=mstate, ghost=LOGS),
    Contract('UndoAction::Restore', A_ + 'Restore', requires=action_requires, ensures=action_ensures(RESTORED), exc_ensures=lambda c: {'state unchanged': c.new.m_state.t == c.old.m_state.t}, modifies=mstate, ghost=LOGS),
    Contract('UndoAction::GetState', A_ + 'GetState', ensures=lambda c: {'state': c.res.t == c.old.m_state.t}, modifies=nomod, nothrow=True),
    Contract('UndoActionStack::Add', S_ + 'Add', requires=add_requires, ensures=add_ensures, exc_ensures=unchanged, modifies=lambda c: mod_lists(c) + [c._args[0]], ghost=LOGS),
    Contract('UndoActionStack::Undo', S_ + 'Undo', requires=rep, ensures=undo_ensures('m_committed', 'm_restored', RESTORED, z3.BoolVal(False)), exc_ensures=unchanged, ghost=LOGS),
    Contract('UndoActionStack::Commit', S_ + 'Commit', requires=rep, ensures=undo_ensures('m_restored', 'm_committed', COMMITTED, z3.BoolVal(True)), exc_ensures=unchanged, ghost=LOGS),
    Contract('UndoActionStack::SetMaximumSize', S_ + 'SetMaximumSize', requires=rep, ensures=setmax_ensures, loop_inv=setmax_inv, modifies=mod_all, nothrow=True),
    Contract('UndoActionStack::Clear', S_ + 'Clear', ensures=clear_ensures, modifies=mod_lists, nothrow=True),
    Contract('UndoActionStack::Remove', S_ + 'Remove', requires=rep, ensures=remove_ensures, modifies=mod_lists, nothrow=True),
    Contract('UndoActionStack::Size', S_ + 'Size', ensures=lambda c: dict({'total': c.res.t == c.old.m_committed.len + c.old.m_restored.len}, **unchanged(c)), modifies=nomod, nothrow=True),
    Contract('UndoActionStack::CommittedSize', S_ + 'CommittedSize', ensures=size_ensures('m_committed'), modifies=nomod, nothrow=True),
    Contract('UndoActionStack::RestoredSize', S_ + 'RestoredSize', ensures=size_ensures('m_restored'), modifies=nomod, nothrow=True),
    Contract('CompoundUndoAction::DoCommit', K_ + 'DoCommit', ensures=comp_ensures(COMMITTED), loop_inv=comp_inv(COMMITTED), ghost=LOGS),
    Contract('CompoundUndoAction::DoRestore', K_ + 'DoRestore', ensures=comp_ensures(RESTORED), loop_inv=comp_inv(RESTORED), ghost=LOGS),
    Contract('CompoundUndoAction::Add', K_ + 'Add', requires=lambda c: {'ptr': z3.And(c.arg(0).t >= 0, c.arg(0).t < c.A0)}, ensures=compadd_ensures),
]
ASSUMPTIONS = ['the virtual DoCommit/DoRestore of an action do not touch the history object that owns the action',
               'each UndoAction pointer is owned by one list entry']
HARNESS = {'main': ['C01.cpp'], 'sources': SOURCES}
BOUNDED = 'histories of up to 4 (thorough: 6) operations over a 12-operation alphabet exhaustively for limits 0..3, random histories of up to 65 operations, compound actions of up to 6 parts; reference model of two lists'
RULE = 'a history is non-trivial when it differs from all earlier ones'
