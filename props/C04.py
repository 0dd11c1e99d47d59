"""C04: the interface records what it changes, under the id it was called with."""
import z3
from mkv.core import *
from mkv.spec import Contract, V
from mkv.absmode import ApiContract
from props.C05 import has_id

ID = 'C04'
SOURCES = ['libs/MeshKernelApi/src/MeshKernel.cpp', 'libs/MeshKernelApi/src/MKStateUndoAction.cpp']


def ens(eng, f, pre, s, r):
    n = f.sname.split('::')[-1]
    if r is None: return []
    g = lambda x: eng.gget(s, x)
    out = [('a successful change of the state is recorded', 'hist', z3.Implies(z3.And(r == 0, g('mut')), g('adds') >= 1)),
           ('one call is at most one step of the history', 'hist', g('adds') <= 1),
           ('nothing is recorded for a refused id', 'hist', z3.Implies(z3.Not(z3.Select(pre.store[('G', ('dom',))], eng.idterm)), z3.And(g('adds') == 0, z3.Not(g('mut')))))]
    # connect_meshes works on a copy and records the saved state; ConnectNodes hands out no action when the edge was there already
    if n == 'mkernel_mesh2d_connect_meshes': out.append(('the replaced mesh is recorded', 'hist', z3.Implies(r == 0, g('adds') == 1)))
    elif n != 'mkernel_mesh2d_insert_edge_from_coordinates': out.append(('every action handed out by the kernel is recorded', 'hist', z3.Implies(r == 0, z3.And(g('pend') == 0, g('comp') == 0))))
    return out


API = ApiContract('interface function', lambda f: f.ret.k == 'int' and has_id(f), ens, ('hist',))
MEMBERS = ('m_mesh1d', 'm_mesh2d', 'm_network1d', 'm_contacts', 'm_curvilinearGrid', 'm_projection')


def same(a, b): return z3.And(*[a.f(m).leaf() == b.f(m).leaf() for m in MEMBERS])


def other(c, st): return V(c.eng, st, c.old.f('m_mkStateReference').obj._l)


def saved(c):
    return {'the saved copy is the state': same(c.new.m_mkState, c.arg(0)),
            'the state itself is not changed': same(c.argnew(0), c.arg(0))}


def swapped(c):
    return {'the state becomes the saved one': same(c.new.f('m_mkStateReference').obj, c.old.m_mkState),
            'the saved copy becomes the state': same(c.new.m_mkState, c.old.f('m_mkStateReference').obj)}


A = 'meshkernelapi::MKStateUndoAction::'
STATE = [Contract('state undo constructor', A + 'MKStateUndoAction', ensures=saved),
         Contract('state undo swap', A + 'SwapContents', ensures=swapped),
         Contract('state undo commit', A + 'DoCommit', ensures=swapped),
         Contract('state undo restore', A + 'DoRestore', ensures=swapped)]
for c in STATE: c.opts['identity'] = ['meshkernelapi::MeshKernelState']
CONTRACTS = [API] + STATE
HARNESS = {'main': ['C04.cpp'], 'sources': ['lib'], 'timeout': 100}
