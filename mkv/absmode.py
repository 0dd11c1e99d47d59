"""Contracts of the C interface, checked in an abstraction of the values: scalars held in local variables, parameters and file-level
variables are exact; every other object is an unknown value that changes at will; every call into the kernel may throw, may change whatever
it is given by non-const reference or pointer, and returns an unknown value.  The registry of states (which ids exist), the history of
actions and the actions handed out by the kernel are ghost state.  Functions defined in the interface file itself are inlined."""
import z3
from .core import *
from .engine import Eng, Frame, Slot
from .prog import *
from .spec import Contract, Ctx, items

STATE = 'meshkernelapi::MeshKernelState'
FILE = 'MeshKernelApi/src/MeshKernel.cpp'
PTRT = ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__uniq_ptr_data', 'std::__uniq_ptr_impl')
MUTATORS = ('operator=', 'operator+=', 'SetNodes', 'SetEdges', 'SetNode', 'SetEdge')
UNDOABLE = ('m_mesh1d', 'm_mesh2d', 'm_network1d', 'm_contacts', 'm_curvilinearGrid', 'm_projection')
NOTHROW = {'strncpy', 'memcpy', 'std::current_exception', 'std::exception::what', 'meshkernel::MeshKernelError::what', 'std::size', 'std::min', 'std::max',
           'meshkernel::MeshGeometryError::MeshIndex', 'meshkernel::MeshGeometryError::MeshLocation'}
U = ('u',)


def base(t): return t.t if t.k == 'ref' else t


class AbsEng(Eng):
    idterm = None

    # ---- values
    def _mkleaves(self, t):
        k = t.k
        if k == 'bool': return [((), B, t)]
        if k in ('int', 'enum'): return [((), I, t)]
        if k == 'float': return [((), R, t)]
        if k == 'void': return []
        return [((), I, 'opaque')]

    def is_seq(self, t): return False

    def identity(self, ty): return False

    def unk(self, ty): return LV(U, (), (), base(ty))

    def read(self, st, lv):
        if isinstance(lv, Val): return lv
        if lv.root[0] in ('u', 's', 'sm') or lv.root == HEAP: return self.havocval(lv.ty)
        m = st.py.get(lv.root)
        if m is not None and m[0] == 'poison': return self.havocval(lv.ty)
        return super().read(st, lv)

    def write(self, st, lv, val):
        r = lv.root[0]
        if lv.root == HEAP or r == 'u': return
        if r == 's':
            self.mutate(st, lv.path[0] if lv.path else '*')
            return
        if r == 'sm':
            self.inplace(st, 'write to ' + lv.root[1])
            return
        if val.meta is None and val.d.keys() != {p for p, s, i in self.leaves(lv.ty)}: val = self.havocval(lv.ty)
        super().write(st, lv, val)

    def havoc_lv(self, st, lv, hint='h'):
        if lv.root[0] in ('u', 'sm') or lv.root == HEAP: return
        self.write(st, lv, self.havocval(lv.ty, hint))

    def mergeval(self, c, x, y):
        try:
            return super().mergeval(c, x, y)
        except Unsupported:
            if isinstance(x, LV) or isinstance(y, LV): return self.unk(x.ty)
            return self.havocval(x.ty)

    def convert_scalar(self, v, t):
        return v

    # ---- ghost events
    def mutate(self, st, member):
        m = member.split('::')[-1]
        if m in UNDOABLE or m == '*':
            self.prove(st, self.gget(st, 'snap'), 'the state is saved before %s is replaced' % m, 'hist')
            self.gset(st, 'mut', TRUE)

    def inplace(self, st, what):
        self.prove(st, self.gget(st, 'full'), 'an object that a saved state may share is not overwritten in place (%s)' % what, 'hist')
        self.gset(st, 'mut', TRUE)

    def fork(self, st):
        """an unknown exception may leave here"""
        b = self.fresh(B, 'throws')
        bad = st.copy()
        bad.pc = mk_and(st.pc, b)
        self.gset(bad, 'threw', TRUE)
        self.throw(bad, None)
        st.pc = mk_and(st.pc, mk_not(b))

    def e_Throw(self, st, e):
        if e.get('e'): self.ev(st, e['e'])
        self.gset(st, 'threw', TRUE)
        return super().e_Throw(st, e)

    # ---- control
    def x_Try(self, st, s):
        saved = self.exc_sink
        self.exc_sink = []
        self.exec(st, s['body'])
        excs, self.exc_sink = self.exc_sink, saved
        outs = [] if st.dead else [st.copy()]
        by = {}
        for est, ety in excs: by.setdefault(ety.s if ety is not None else None, (ety, []))[1].append(est)
        for ety, l in by.values():
            rem = self.mergeall(l)
            for h in s['h']:
                if rem is None: break
                m = True
                if 't' in h:
                    m = self.catches(ety, base(self.fr.tu.ty(h['t'])))
                if m is False: continue
                hs = rem.copy()
                if m is None:
                    b = self.fresh(B, 'catch')
                    hs.pc = mk_and(rem.pc, b)
                    rem = rem.copy()
                    rem.pc = mk_and(rem.pc, mk_not(b))
                else:
                    rem = None
                if 'id' in h:
                    root = self.newroot('exc')
                    self.fr.env[h['id']] = root
                    hs.py[root] = ('ref', LV(U, (), (), base(self.fr.tu.ty(h['t']))))
                self.curexc = ety
                self.exec(hs, h['body'])
                if not hs.dead: outs.append(hs)
            if rem is not None: self.exc_sink.append((rem, ety))
        m = self.mergeall(outs)
        if m is None: st.pc = FALSE
        else: st.setto(m)

    def x_ForRange(self, st, s):
        self.ev(st, s['range']) if isinstance(s.get('range'), dict) else None
        v = s['var']

        def body(x):
            ty = self.fr.tu.ty(v['t'])
            self.bindvar(x, v['id'], v['n'], ty, self.unk(ty) if ty.k == 'ref' else self.havocval(ty))
            for b in v.get('bind', ()):
                if 'id' in b:
                    root = self.newroot(b['n'])
                    self.fr.env[b['id']] = root
                    t = self.fr.tu.ty(b['t']) if 't' in b else ty
                    self.fr.names[root] = (b['n'], t)
                    x.py[root] = ('ref', self.unk(t))
            self.exec(x, s['body'])
        self.loop(st, lambda x: self.fresh(B, 'more'), body, lambda x: None, s)

    def autocands(self, L, entry, head, add):
        for g in ('pend', 'comp', 'adds', 'snap', 'full', 'mut', 'threw', 'dom'):
            add('ghost %s unchanged' % g, lambda s, g=g: self.gget(s, g) == self.gget(entry, g))
        for key in L.mods:
            if key in entry.store and isinstance(key[0], tuple) and key[0][0] == 'g':
                add('%s unchanged' % key[0][1], lambda s, key=key: s.store[key] == entry.store[key])

    def latecands(self, *a): pass

    # ---- expressions
    def ev(self, st, e):
        if e is None: return Val(VOID, {})
        n, s0 = len(self.obls), st.copy()
        ex = len(self.exc_sink)
        try:
            return super().ev(st, e)
        except (Unsupported, KeyError, AttributeError, z3.Z3Exception, IndexError, TypeError) as x:
            del self.obls[n:]
            del self.exc_sink[ex:]
            st.setto(s0)
            if e['k'] in ('Lambda', 'Cond') or self.hascall(e, ('UndoActionStack', 'unordered_map')) and e['k'] in ('MCall', 'OpCall'): raise Unsupported('%s: %s' % (e['k'], x))
            self.weak.append((self.where(), e['k'], str(x)))
            self.subeval(st, e)
            if st.dead: return Val(VOID, {}) if 't' not in e else self.deadval(e)
            t = self.ty(e) if 't' in e else VOID
            if e.get('lv') or t.k == 'ref': return self.unk(t)
            return Val(VOID, {}) if t.k == 'void' else self.havocval(t)

    def deadval(self, e):
        t = self.ty(e)
        return Val(VOID, {}) if t.k == 'void' else self.havocval(base(t))

    def hascall(self, e, names):
        if isinstance(e, dict):
            f = e.get('f')
            if isinstance(f, str) and f in self.prog.callees and any(n in self.prog.callees[f][1]['n'] for n in names): return True
            return any(self.hascall(v, names) for v in e.values())
        if isinstance(e, list): return any(self.hascall(v, names) for v in e)
        return False

    def subeval(self, st, e):
        for k, v in e.items():
            if k in ('t', 'f', 'cls'): continue
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, dict) and isinstance(x.get('k'), str) and 't' in x:
                    r = self.ev(st, x)
                    if isinstance(r, LV) and e['k'] in ('Un', 'CAssign', 'Bin') and e.get('op') in ('++', '--', 'post++', 'post--', '=', '+=', '-=', '*=', '/='): self.havoc_lv(st, r)

    def deref(self, st, v):
        if isinstance(v, LV):
            if v.root[0] == 's' and v.path: return LV(('sm', v.path[0].split('::')[-1]), (), (), self.pointee(v.ty))
            t = v.ty
            m = st.py.get(v.root)
            if m is not None and m[0] == 'val' and m[1].meta and m[1].meta[0] == 'ptr': return m[1].meta[1]
        else:
            if v.meta is not None and v.meta[0] == 'ptr': return v.meta[1]
            t = v.ty
        return LV(U, (), (), self.pointee(t))

    def pointee(self, t):
        t = base(t)
        if t.k == 'ptr': return t.t
        if t.k == 'rec' and t.args and isinstance(t.args[0], Ty): return t.args[0]
        return VOID

    def e_Member(self, st, e):
        b = self.ev(st, e['e'])
        if e.get('arrow'): b = self.deref(st, b)
        t = self.ty(e)
        if isinstance(b, LV):
            if b.root[0] == 's' and not b.path and b.ty.s == STATE: return LV(('s',), (e['n'],), (), base(t))
            if b.root[0] == 'it':
                return self.state(st, z3.IntVal(0)) if False else self.unk(t)
            if b.root[0] == 'sm': return LV(b.root, b.path + (e['n'],), (), base(t))
            if b.ty.k == 'rec' and e['n'] == 'second' and len(b.root) > 1 and b.root[0] == 'u' and b.root[1] == 'entry':
                return LV(('s',), (), (), base(t))
        return self.unk(t)

    def e_Index(self, st, e):
        self.ev(st, e['e'])
        self.rv(st, e['i'])
        return self.unk(self.ty(e))

    def e_Cast(self, st, e):
        ck = e['ck']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'Dynamic'):
            x = self.ev(st, e['e'])
            t = base(self.ty(e))
            return x.cast(t) if isinstance(x, LV) else Val(t, x.d, x.meta)
        if ck == 'PointerToBoolean':
            x = self.ev(st, e['e'])
            return Val(BOOL, {(): self.fresh(B, 'nonnull')})
        if ck == 'ArrayToPointerDecay':
            self.ev(st, e['e'])
            return self.havocval(self.ty(e))
        return super().e_Cast(st, e)

    def tobool(self, st, x):
        if x.ty.k == 'bool': return x.t
        if x.ty.k in ('int', 'enum'): return x.t != 0
        return self.fresh(B, 'cond')

    def compare(self, st, op, a, b):
        if a.meta is not None or b.meta is not None or a.ty.k not in ('int', 'enum', 'bool', 'float') or b.ty.k not in ('int', 'enum', 'bool', 'float'):
            return self.fresh(B, 'cmp')
        return super().compare(st, op, a, b)

    def e_InitList(self, st, e):
        for x in e.get('c', e.get('e', [])) or []:
            if isinstance(x, dict): self.ev(st, x)
        return self.havocval(self.ty(e))

    def e_StdInitList(self, st, e):
        self.subeval(st, e)
        return self.havocval(self.ty(e))

    def e_Cond(self, st, e):
        c = self.cond(st, e['c'])
        a, b = st.copy(), st.copy()
        a.pc, b.pc = mk_and(st.pc, c), mk_and(st.pc, mk_not(c))
        x, y = self.ev(a, e['a']), self.ev(b, e['b'])
        if a.dead and b.dead:
            st.pc = FALSE
            return self.deadval(e)
        if a.dead or b.dead: r = y if a.dead else x
        elif isinstance(x, LV) and isinstance(y, LV) and x.same(y): r = x
        elif e.get('lv'): r = self.unk(self.ty(e))
        else: r = self.mergeval(c, self.read(a, x), self.read(b, y))
        st.setto(self.merge2(c, a, b))
        return r

    def e_Null(self, st, e): return self.havocval(self.ty(e)) if self.leaves(self.ty(e)) else Val(VOID, {})

    def e_New(self, st, e):
        self.subeval(st, e)
        self.fork(st)
        return self.havocval(self.ty(e))

    def e_Delete(self, st, e):
        self.subeval(st, e)
        return Val(VOID, {})

    def e_Construct(self, st, e):
        t = self.ty(e)
        ctu, c = self.prog.callees[e['f']]
        if (c.get('copyctor') or c.get('movector')) and len(e['args']) == 1:
            a = self.ev(st, e['args'][0])
            if isinstance(a, Val) and a.meta is not None: return a
            if isinstance(a, LV) and a.root[0] == 'v':
                m = st.py.get(a.root)
                if m is not None and m[0] not in ('poison', 'ref'): return self.read(st, a)
            if not (c.get('movector') or c.get('noexcept')): self.fork(st)
            return self.havocval(t)
        av = [self.ev(st, a) for a in e['args']]
        if st.dead: return self.havocval(t)
        if t.n in PTRT: return self.havocval(t)
        self.touch(st, ctu, c, av)
        if not c.get('noexcept'): self.fork(st)
        return self.havocval(t)

    def touch(self, st, ctu, c, av):
        """what a callee may change: everything it gets by non-const reference or pointer, everything a closure it gets captures by reference"""
        if strip_targs(c['n']).startswith(('std::pair::', 'std::tuple::', 'std::make_pair', 'std::make_tuple')): return     # forwarding references that only copy
        for i, a in enumerate(av):
            pt = ctu.ty(c['params'][i]) if i < len(c['params']) else None
            v = a
            if isinstance(a, LV) and a.root[0] == 'v':
                m = st.py.get(a.root)
                if m is not None and m[0] == 'val': v = m[1]
            if isinstance(v, Val):
                if v.meta is not None and v.meta[0] == 'ptr' and not (v.ty.k == 'ptr' and v.ty.const):
                    if v.meta[1].root[0] == 's': self.mutate(st, v.meta[1].path[0] if v.meta[1].path else '*')
                    else: self.havoc_lv(st, v.meta[1])
                if v.meta is not None and v.meta[0] == 'clo':
                    clo = v.meta[1]
                    if self.hascall(clo.node, ('UndoActionStack', 'unordered_map')): raise Unsupported('closure with interface calls passed to the kernel')
                    for cap in clo.node['caps']:
                        if cap.get('byref') and cap.get('id') in clo.env:
                            m = st.py.get(clo.env[cap['id']])
                            l = m[1] if m is not None and m[0] == 'ref' else None
                            if l is None and clo.env[cap['id']] in self.fr.names:
                                l = LV(clo.env[cap['id']], (), (), base(self.fr.names[clo.env[cap['id']]][1]))
                            if l is not None and l.root[0] != 's': self.havoc_lv(st, l)
                continue
            if pt is None or (pt.k == 'ref' and not pt.const):
                if a.root[0] == 's' and strip_targs(c['n']) in ('std::make_unique', 'std::make_shared'): continue     # members are passed on to constructors by value or const reference
                if a.root[0] == 's': self.mutate(st, a.path[0] if a.path else '*')
                else: self.havoc_lv(st, a)

    # ---- the registry of states
    def isreg(self, obj):
        return isinstance(obj, LV) and obj.ty.k == 'rec' and obj.ty.n in ('std::unordered_map', 'std::map') and len(obj.ty.args) > 1 and isinstance(obj.ty.args[1], Ty) and obj.ty.args[1].s == STATE

    def state(self, st, key, need=True):
        if self.idterm is None: self.prove(st, FALSE, 'a function without a state id touches no state', 'iso')
        else: self.prove(st, key == self.idterm, 'only the state of the caller\'s id is touched', 'iso')
        if need: self.prove(st, sel(self.gget(st, 'dom'), key), 'the state exists when it is used', 'iso')
        return LV(('s',), (), (), Ty._intern[STATE])

    def registry(self, st, name, av, rt):
        short = name.split('::')[-1]
        dom = self.gget(st, 'dom')
        k = self.read(st, av[0]).t if av and self.read(st, av[0]).ty.k in ('int', 'enum') else None
        if short in ('contains', 'count') and k is not None:
            d = sel(dom, k)
            return Val(rt, {(): d if rt.k == 'bool' else z3.If(d, z3.IntVal(1), z3.IntVal(0))})
        if short == 'operator[]': return self.state(st, k)
        if short == 'at':
            bad = st.copy()
            bad.pc = mk_and(st.pc, mk_not(sel(dom, k)))
            self.gset(bad, 'threw', TRUE)
            self.throw(bad, None)
            st.pc = mk_and(st.pc, sel(dom, k))
            return self.state(st, k, False)
        if short == 'find': return Val(rt, {(): z3.If(sel(dom, k), z3.IntVal(1), z3.IntVal(0))}, ('rit', k))
        if short in ('end', 'cend'): return Val(rt, {(): z3.IntVal(0)}, ('rit', None))
        if short == 'erase' and k is not None:
            self.prove(st, key_eq(self, k), 'only the state of the caller\'s id is removed', 'iso')
            self.gset(st, 'dom', z3.Store(dom, k, FALSE))
            return self.havocval(rt) if rt.k != 'void' else Val(VOID, {})
        if short == 'clear':
            self.gset(st, 'dom', z3.K(I, FALSE))
            return Val(VOID, {})
        if short in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            self.fork(st)
            key = k if k is not None else self.inskey
            if key is None: raise Unsupported('key of an inserted state')
            self.gset(st, 'dom', z3.Store(dom, key, TRUE))
            return self.havocval(rt)
        if short in ('size', 'empty', 'begin', 'cbegin', 'reserve'): return self.havocval(rt) if rt.k != 'void' else Val(VOID, {})
        raise Unsupported('registry operation ' + short)

    def undoish(self, t):
        if t.k != 'rec': return False
        if t.n == 'std::unique_ptr' and isinstance(t.args[0], Ty): return 'UndoAction' in t.args[0].s or t.args[0].s.endswith('Action') or 'UndoAction' in ' '.join(self.prog.bases_of(t.args[0].s)) or t.args[0].n.endswith('Undo')
        if t.n == 'std::pair': return any(isinstance(a, Ty) and self.undoish(a) for a in t.args)
        if t.n == 'std::tuple': return any(isinstance(a, Ty) and self.undoish(a) for a in (t.args[0] or []))
        return False

    def call(self, st, fkey, obj, args, node=None, vals=False):
        if st.dead: return self.dummy(fkey)
        ctu, c = self.prog.callees[fkey]
        name = strip_targs(c['n'])
        rt = ctu.ty(c['ret'])
        if c.get('op') == '()' and obj is not None:
            ov = obj
            if isinstance(obj, LV) and obj.root[0] == 'v': ov = self.read(st, obj)
            if isinstance(ov, Val) and ov.meta is not None and ov.meta[0] in ('clo', 'fn'):
                av = args if vals else [self.ev(st, a) for a in args]
                return self.call_callable(st, ov, av, fkey)
        self.inskey = None
        av = args if vals else [self.ev(st, a) for a in args]
        if st.dead: return self.dummy(fkey)
        if name in ('std::move', 'std::forward', 'std::as_const'): return av[0]
        if self.isreg(obj):
            if not vals and args and not (av and self.read(st, av[0]).ty.k in ('int', 'enum')): self.inskey = self.findkey(st, args[0])
            return self.registry(st, name, av, rt)
        if name in ('std::__detail::operator==', 'std::operator==', 'std::__detail::operator!=') and len(av) == 2:
            x, y = [self.read(st, a) for a in av]
            if x.meta and y.meta and x.meta[0] == 'rit' and y.meta[0] == 'rit' and (x.meta[1] is None or y.meta[1] is None):
                return Val(BOOL, {(): x.t == y.t if '==' in name else x.t != y.t})
        ov = self.read(st, obj) if isinstance(obj, LV) and obj.root[0] == 'v' else obj
        if isinstance(ov, Val) and ov.meta is not None and ov.meta[0] == 'rit' and c.get('op') in ('->', '*'):
            self.state(st, ov.meta[1])
            l = LV(('u', 'entry'), (), (), self.pointee(rt) if rt.k == 'ptr' else base(rt))
            return Val(rt, {}, ('ptr', l)) if c.get('op') == '->' else l
        if obj is not None and base(obj.ty).n in PTRT and not (c.get('assignop') or name.endswith('reset')):
            if c.get('op') == '->' or name.endswith('::get'): return Val(rt, {}, ('ptr', self.deref(st, obj)))
            if c.get('op') == '*': return self.deref(st, obj)
            if name.endswith('operator bool'): return Val(BOOL, {(): self.fresh(B, 'nonnull')})
        # the history
        if name == 'meshkernel::UndoActionStack::Add':
            if len(av) < 2: raise Unsupported('UndoActionStack::Add')
            who = self.read(st, av[1]).t
            self.prove(st, who == self.idterm if self.idterm is not None else FALSE, 'an action is recorded under the caller\'s id', 'hist')
            self.fork(st)
            p, q = self.gget(st, 'pend'), self.gget(st, 'comp')
            self.gset(st, 'adds', self.gget(st, 'adds') + 1)
            self.gset(st, 'pend', z3.If(p > 0, p - 1, p))
            self.gset(st, 'comp', z3.If(p > 0, q, z3.IntVal(0)))
            return Val(VOID, {})
        if name in ('meshkernel::UndoActionStack::Remove', 'meshkernel::UndoActionStack::CommittedSize', 'meshkernel::UndoActionStack::RestoredSize') and self.idterm is not None and av:
            self.prove(st, self.read(st, av[0]).t == self.idterm, 'the history is asked about the caller\'s id', 'iso')
            return self.havocval(rt) if rt.k != 'void' else Val(VOID, {})
        if name == 'meshkernel::UndoActionStack::Clear' and self.idterm is not None:
            self.prove(st, FALSE, 'the history of other states is kept', 'iso')
        if name == 'meshkernel::CompoundUndoAction::Add':
            self.fork(st)
            p = self.gget(st, 'pend')
            self.gset(st, 'pend', z3.If(p > 0, p - 1, p))
            self.gset(st, 'comp', self.gget(st, 'comp') + 1)
            return Val(VOID, {})
        if name == 'meshkernel::CompoundUndoAction::Create':
            self.fork(st)
            return self.havocval(rt)
        if name == 'meshkernelapi::MKStateUndoAction::Create':
            self.fork(st)
            self.prove(st, z3.BoolVal(isinstance(av[0], LV) and av[0].root[0] == 's' and not av[0].path), 'the saved state is the caller\'s state', 'hist')
            self.prove(st, mk_not(self.gget(st, 'mut')), 'the state is saved before it is changed', 'hist')
            self.gset(st, 'snap', TRUE)
            self.gset(st, 'pend', self.gget(st, 'pend') + 1)
            return self.havocval(rt)
        if name == 'meshkernel::FullUnstructuredGridUndo::Create': self.gset(st, 'full', TRUE)
        if name == 'std::rethrow_exception':
            self.throw(st, None)
            return Val(VOID, {})
        if name == 'meshkernel::MeshKernelError::Code':
            r = self.havocval(rt)
            self.assume(st, r.t != 0)       # contract of the error classes, proved separately
            return r
        f = self.prog.funcs.get(fkey)
        if f is not None and f.body is not None and (FILE in f.loc or 'MeshKernelApi/' in f.loc and self.hascall(f.body, ('UndoActionStack', 'unordered_map'))):
            return self.inline(st, f, obj, av)
        if c.get('assignop') and obj is not None and isinstance(obj, LV):
            if obj.root[0] == 's': self.mutate(st, obj.path[0] if obj.path else '*')
            elif obj.root[0] == 'sm': self.inplace(st, 'assignment to *' + obj.root[1])
            elif obj.root[0] == 'v':
                m = av[0].meta if isinstance(av[0], Val) else None
                self.write(st, obj, av[0] if m is not None else self.havocval(obj.ty))
            if not (base(obj.ty).n in PTRT): self.fork(st)
            return obj
        if obj is not None and isinstance(obj, LV):
            const = c.get('constm')
            if obj.root[0] == 's' and obj.path and not const: self.mutate(st, obj.path[0])
            if obj.root[0] == 'sm' and not obj.path and name.split('::')[-1] in MUTATORS: self.inplace(st, name.split('::')[-1])
            if obj.root[0] == 'v' and not const: self.havoc_lv(st, obj)
        self.touch(st, ctu, c, av)
        if not (c.get('noexcept') or name in NOTHROW): self.fork(st)
        if rt.k == 'void': return Val(VOID, {})
        if rt.k == 'ref': return self.unk(rt)
        if self.undoish(rt) and not name.startswith('std::'): self.gset(st, 'pend', self.gget(st, 'pend') + 1)
        return self.havocval(rt)

    def findkey(self, st, e):
        """first scalar variable inside the inserted entry"""
        if isinstance(e, dict):
            if e.get('k') == 'Ref' and 't' in e and self.ty(e).k == 'int':
                x = self.ev(st, e)
                return self.read(st, x).t
            for k, v in e.items():
                if k in ('t', 'cls', 'f'): continue
                r = self.findkey(st, v)
                if r is not None: return r
        if isinstance(e, list):
            for v in e:
                r = self.findkey(st, v)
                if r is not None: return r
        return None


def key_eq(eng, k): return k == eng.idterm if eng.idterm is not None else FALSE


GHOSTS = {'dom': z3.ArraySort(I, B), 'pend': I, 'comp': I, 'adds': I, 'snap': B, 'full': B, 'mut': B, 'threw': B}


class ApiContract(Contract):
    """one contract for every function of the interface"""

    def __init__(self, name, select, ensures, kinds, **kw):
        super().__init__(name, 'meshkernelapi::mkernel_', **kw)
        self.select, self.ens, self.kinds = select, ensures, kinds

    def match(self, *a): return False

    def targets(self, prog):
        return sorted((f for f in prog.funcs.values() if f.body is not None and FILE in f.loc and f.sname.startswith('meshkernelapi::mkernel_') and self.select(f)), key=lambda f: f.sname)

    def verify(self, prog, contracts, f, tmo=10.0, common=None):
        eng = AbsEng(prog, [], opts=dict(self.opts))
        eng.verifying = eng.contract = self
        eng.weak = []
        st = eng.start(f)
        for g, s in GHOSTS.items(): st.store[('G', (g,))] = z3.Const('G.dom', s) if g == 'dom' else (FALSE if s.eq(B) else z3.IntVal(0))
        for pid, pn, pt in f.params:
            if pt.k == 'ref' and st.py[eng.top.env[pid]][1].root == HEAP: st.py[eng.top.env[pid]] = ('ref', LV(U, (), (), pt.t))
        ps = f.params
        if ps and ps[0][1] == 'meshKernelId' and ps[0][2].k == 'int': eng.idterm = eng.read(st, eng.paramlist[0]).t
        eng.pre = pre = st.copy()
        cnt = counter(eng, pre)
        if cnt is not None:
            k = z3.Int('k!reg')
            eng.fact(z3.ForAll([k], z3.Implies(z3.Select(pre.store[('G', ('dom',))], k), z3.And(k >= 0, k < cnt))))
            eng.fact(z3.And(cnt >= 0, cnt < 2 ** 31 - 1))
        eng.prove(st, TRUE, 'precondition satisfiable', 'cover')
        outs, excs = eng.finish(st, f)
        for s, v in outs:
            eng.frames = [eng.top]
            for n, kind, g in self.ens(eng, f, pre, s, eng.read(s, v).t if v is not None else None): eng.prove(s, g, 'postcondition %s' % n, kind)
        for s, ety in excs: eng.prove(s, FALSE, 'no exception leaves the interface', 'iso')
        if outs: eng.prove(State(mk_or(*[s.pc for s, v in outs])), TRUE, 'normal exit reachable', 'cover')
        eng.obls = [o for o in eng.obls if o.kind in self.kinds or o.kind in ('cover', 'inv')]
        return eng


def counter(eng, s):
    for n, (tu, j) in eng.prog.globals.items():
        if n.endswith('meshKernelStateCounter'): return eng.get(s, (('g', n), ()), I, tu.ty(j['t'])) if 't' in j else None
    return None
