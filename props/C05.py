"""C05: failures stay inside the interface, and a call touches the state it names and no other."""
import z3
from mkv.core import *
from mkv.spec import Contract, V
from mkv.absmode import ApiContract, counter

ID = 'C05'
SOURCES = ['libs/MeshKernelApi/src/MeshKernel.cpp']
# the three queries that answer for unknown ids as well
ANSWERS = ('mkernel_is_valid_state', 'mkernel_undo_state_count_for_id', 'mkernel_clear_undo_state_for_id')


def has_id(f): return bool(f.params) and f.params[0][1] == 'meshKernelId' and f.params[0][2].k == 'int'


def dom(s): return s.store[('G', ('dom',))]


def same_except(d1, d0, *ks):
    k = z3.Int('k!dom')
    return z3.ForAll([k], z3.Implies(z3.And(*[k != x for x in ks]), z3.Select(d1, k) == z3.Select(d0, k)))


def ens(eng, f, pre, s, r):
    n = f.sname.split('::')[-1]
    out = []
    if r is None: return out
    threw = eng.gget(s, 'threw')
    out.append(('a failure inside the call is reported by its exit code', 'iso', z3.Implies(threw, r != 0)))
    d0, d1 = dom(pre), dom(s)
    cnt = counter(eng, s)
    k = z3.Int('k!cnt')
    if cnt is not None: out.append(('ids that are in use are below the next id', 'iso', z3.ForAll([k], z3.Implies(z3.Select(d1, k), z3.And(k >= 0, k < cnt)))))
    if eng.idterm is not None:
        i = eng.idterm
        known = z3.Select(d0, i)
        if n not in ANSWERS: out.append(('an id that does not exist is refused', 'iso', z3.Implies(z3.Not(known), r != 0)))
        out.append(('other states stay', 'iso', same_except(d1, d0, i)))
        if n == 'mkernel_expunge_state': out.append(('the state is gone', 'iso', z3.Implies(r == 0, z3.Not(z3.Select(d1, i)))))
        else: out.append(('the state stays as it was registered', 'iso', z3.Select(d1, i) == known))
        if n == 'mkernel_is_valid_state': out.append(('the answer is whether the id exists', 'iso', z3.Implies(r == 0, eng.read(s, eng.paramlist[1]).t == known)))
        if n == 'mkernel_undo_state_count_for_id':
            out.append(('no history for an unknown id', 'iso', z3.Implies(z3.And(r == 0, z3.Not(known)), z3.And(eng.read(s, eng.paramlist[1]).t == 0, eng.read(s, eng.paramlist[2]).t == 0))))
    elif n == 'mkernel_allocate_state':
        i = eng.read(s, eng.paramlist[1]).t
        out.append(('a new id is not one in use', 'iso', z3.Implies(r == 0, z3.Not(z3.Select(d0, i)))))
        out.append(('the new state exists', 'iso', z3.Implies(r == 0, z3.Select(d1, i))))
        out.append(('other states stay', 'iso', same_except(d1, d0, i)))
        out.append(('a refused projection adds no state', 'iso', z3.Implies(r != 0, z3.Select(d1, i) == z3.Select(d0, i))))
    elif n == 'mkernel_clear_state':
        out.append(('no state is left', 'iso', z3.Implies(r == 0, z3.ForAll([k], z3.Not(z3.Select(d1, k))))))
    else:
        out.append(('the registered states stay', 'iso', same_except(d1, d0)))
    return out


API = ApiContract('interface function', lambda f: f.ret.k == 'int', ens, ('iso',))
class Categories(Contract):
    def targets(self, prog): return [f for f in prog.funcs.values() if f.body is not None and f.sname.startswith('meshkernel::') and f.sname.endswith('::Category')]


CODES = [Categories('error classes', 'meshkernel::MeshKernelError::Category', ensures=lambda c: {'the code is not the code of success': c.res.m_exit_code.t != 0}, nothrow=True, modifies=lambda c: [])]
CODES.append(Contract('code of a category', 'meshkernel::ErrorCategory::Code', ensures=lambda c: {'is the one it was made with': c.res.t == c.old.m_exit_code.t}, nothrow=True, modifies=lambda c: []))
CODES.append(Contract('code of an error', 'meshkernel::MeshKernelError::Code', ensures=lambda c: {'is not the code of success': c.res.t != 0}, nothrow=True))
CONTRACTS = [API] + CODES
HARNESS = {'main': ['C05.cpp'], 'sources': ['lib'], 'timeout': 100}
