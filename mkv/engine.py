"""Forward symbolic execution of the extracted AST; generates named proof obligations."""
import z3, itertools
from .core import *

FADD = z3.Function('fp.add', R, R, R)
FSUB = z3.Function('fp.sub', R, R, R)
FMUL = z3.Function('fp.mul', R, R, R)
FDIV = z3.Function('fp.div', R, R, R)
SEQ = {'std::vector', 'std::list', 'std::deque', 'std::span', 'std::array', 'std::initializer_list'}
MAPS = {'std::unordered_map', 'std::map'}
SETS = {'std::unordered_set', 'std::set'}
PTRS = {'std::unique_ptr', 'std::shared_ptr'}
SCALAR = ('bool', 'int', 'enum', 'float')


class Slot(list):
    """reserved place in the fact list for loop-head facts added later"""


class Obl:
    __slots__ = ('name', 'kind', 'pc', 'goal', 'nf', 'loc', 'cand', 'status', 'time', 'backend', 'model', 'gid', 'reason')

    def __init__(self, name, kind, pc, goal, nf, loc, cand=None):
        self.name, self.kind, self.pc, self.goal, self.nf, self.loc, self.cand = name, kind, pc, goal, nf, loc, cand
        self.status = None
        self.time = 0.0
        self.backend = ''
        self.model = None
        self.reason = ''


class Cand:
    def __init__(self, name, act, loop):
        self.name, self.act, self.loop, self.alive = name, act, loop, True
        self.slow = self.custom = False


class Frame:
    def __init__(self, fn, tu, env, this, parent=None):
        self.fn, self.tu, self.env, self.this, self.parent = fn, tu, env, this, parent
        self.rets = []
        self.names = {}


class Loop:
    """handed to contracts to build invariant candidates"""

    def __init__(self, eng, entry, mods, node, idxroot):
        self.eng, self.entry, self.mods, self.node, self.idxroot = eng, entry, mods, node, idxroot
        self.frames = list(eng.frames)
        self.bound = None


def simp_add(k, a, b):
    """k + a - b"""
    x, y = iconst(a), iconst(b)
    if x is not None and y is not None: return k if x == y else k + (x - y)
    return k + a if y == 0 else k + a - b


class Eng:
    def __init__(self, prog, contracts=None, models=None, opts=None):
        self.prog = prog
        self.contracts = contracts or []
        from . import stdmodel
        self.models = stdmodel
        self.opts = opts or {}
        self.axioms = {}        # closed formulas about uninterpreted symbols, by name; they belong to every obligation
        self.facts = []
        self.obls = []
        self.cands = []
        self.nfresh = 0
        self.iv, self.ivmemo = {}, {}
        self.nroot = 0
        self.inits = {}
        self.frames = []
        self.exc_sink = []
        self.loopstack = []
        self.dry = 0
        self.wlog = None
        self.pruned = 0
        self.callstack = []
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.loops = []
        self.line = 0
        self._leaves = {}
        self.loop_inv = None
        self.gobl = 0
        self.nepoch = 0
        self.dyn = {}
        self.countarrs = []
        self.opaque_handler = None
        self.events = []

    # ------------------------------------------------------------------ types
    def leaves(self, t):
        r = self._leaves.get(t.s)
        if r is None:
            r = self._mkleaves(t)
            self._leaves[t.s] = r
        return r

    def seq_elem(self, t):
        if t.k == 'array': return t.t
        return t.args[0]

    def is_seq(self, t):
        return t.k == 'array' or (t.k == 'rec' and t.n in SEQ)

    def _mkleaves(self, t):
        k = t.k
        if k == 'bool': return [((), B, t)]
        if k in ('int', 'enum'): return [((), I, t)]
        if k == 'float': return [((), R, t)]
        if k == 'void': return []
        if k == 'ref': return [((), I, 'ptr')]
        if k == 'ptr':
            if t.t.k in SCALAR or t.t.k == 'ptr':
                return [(('#base',), I, 'ptr'), (('#off',), I, 'off')]
            return [((), I, 'ptr')]
        if k == 'array' or (k == 'rec' and t.n in SEQ):
            e = self.seq_elem(t)
            out = [(('#len',), I, 'len')]
            for p, s, inf in self.leaves(e):
                out.append((('[]',) + p, z3.ArraySort(I, s), inf))
            return out
        if k == 'rec':
            n = t.n
            if n == 'std::pair':
                return [(('first',) + p, s, i) for p, s, i in self.leaves(t.args[0])] + \
                       [(('second',) + p, s, i) for p, s, i in self.leaves(t.args[1])]
            if n == 'std::tuple':
                out = []
                for j, a in enumerate(t.args[0]):
                    out += [((str(j),) + p, s, i) for p, s, i in self.leaves(a)]
                return out
            if n in PTRS: return [((), I, 'ptr')]
            if n == 'std::optional':
                return [(('#has',), B, BOOL)] + [(('*',) + p, s, i) for p, s, i in self.leaves(t.args[0])]
            if n in MAPS:
                ks = self.keysort(t.args[0])
                return [(('#dom',), z3.ArraySort(ks, B), BOOL), (('#size',), I, 'len')] + \
                       [(('{}',) + p, z3.ArraySort(ks, s), i) for p, s, i in self.leaves(t.args[1])]
            if n in SETS:
                ks = self.keysort(t.args[0])
                return [(('#dom',), z3.ArraySort(ks, B), BOOL), (('#size',), I, 'len')]
            if n == 'Eigen::Matrix':
                return [(('#rows',), I, 'len'), (('#cols',), I, 'len')] + \
                       [(('[]', '[]') + p, z3.ArraySort(I, z3.ArraySort(I, s)), i) for p, s, i in self.leaves(t.args[0])]
            if 'iterator' in n:
                return [(('#idx',), I, 'idx')]
            if t.s in self.prog.records:
                out = []
                for fn, ft, fj, tu, dc in self.prog.fields(t):
                    out += [((fn,) + p, s, i) for p, s, i in self.leaves(ft)]
                return out
            return [((), I, 'opaque')]
        return [((), I, 'opaque')]

    def keysort(self, t):
        l = self.leaves(t)
        if len(l) != 1: raise Unsupported('map key ' + t.s)
        return l[0][1]

    def fieldty(self, cls, name):
        for fn, ft, fj, tu, dc in self.prog.fields(cls):
            if fn.split('::')[1] == name: return fn, ft
        raise Unsupported('field %s of %s' % (name, cls.s))

    # ------------------------------------------------------------------ facts
    def fresh(self, sort, hint='v'):
        self.nfresh += 1
        return z3.Const('%s!%d' % (hint, self.nfresh), sort)

    def fact(self, f):
        if not is_true(f): self.facts.append(f)

    def assume(self, st, f):
        self.fact(mk_imp(st.pc, f))

    def prove(self, st, goal, name, kind='assert', cand=None, gid=None):
        if self.dry: return
        if st.dead and kind != 'cover': return
        if is_true(goal) and kind != 'cover':
            o = Obl(name, kind, st.pc, goal, len(self.facts), self.where(), cand)
            o.status, o.backend = 'valid', 'syntactic'
            o.gid = gid
            self.obls.append(o)
            return
        o = Obl(name, kind, st.pc, goal, len(self.facts), self.where(), cand)
        o.gid = gid
        self.obls.append(o)

    def where(self):
        f = self.frames[-1].fn if self.frames else None
        return '%s:%s' % ((f.loc.split(':')[0] if f else '?'), self.line)

    def typefact(self, term, sort, info, depth=0):
        """range facts of a (possibly array-nested) leaf"""
        vs = []
        t, s = term, sort
        while s.kind() == z3.Z3_ARRAY_SORT:
            v = z3.Const('k!%d' % len(vs), s.domain())
            vs.append(v)
            t = z3.Select(t, v)
            s = s.range()
        c = self.range(t, info)
        if c is None: return
        b = self.rangepair(info)
        if b is not None and z3.is_const(term): self.iv[term.get_id()] = (b, term)
        self.fact(z3.ForAll(vs, c, patterns=[t]) if vs else c)

    def range(self, t, info):
        if not t.sort().eq(I): return None
        if info == 'len': return z3.And(t >= 0, t <= MAXLEN)
        if info == 'idx': return z3.And(t >= -1, t <= 2 ** 32)
        if info == 'ptr': return t >= 0
        if isinstance(info, Ty) and info.k in ('int', 'enum'):
            lo, hi = self.bounds(info)
            return z3.And(t >= lo, t <= hi)
        return None

    def rangepair(self, info):
        if info == 'len': return 0, MAXLEN
        if info == 'idx': return -1, 2 ** 32
        if isinstance(info, Ty) and info.k in ('int', 'enum'): return self.bounds(info)
        return None

    INF = 10 ** 40

    def ival(self, t, depth=0):
        """a sound interval of an integer term (of the elements of an array term)"""
        n, i = -self.INF, self.INF
        if depth > 40: return n, i
        if z3.is_int_value(t): return t.as_long(), t.as_long()
        x = self.ivmemo.get(t.get_id())
        if x is not None: return x[1]
        r = (n, i)
        if z3.is_app(t):
            k = t.decl().kind()
            ch = t.children()
            if z3.is_const(t) and k == z3.Z3_OP_UNINTERPRETED: return self.iv[t.get_id()][0] if t.get_id() in self.iv else r
            if k == z3.Z3_OP_SELECT: r = self.ival(ch[0], depth + 1)
            elif k == z3.Z3_OP_STORE:
                a, b = self.ival(ch[0], depth + 1), self.ival(ch[2], depth + 1)
                r = min(a[0], b[0]), max(a[1], b[1])
            elif k == z3.Z3_OP_CONST_ARRAY: r = self.ival(ch[0], depth + 1)
            elif k == z3.Z3_OP_ITE:
                a, b = self.ival(ch[1], depth + 1), self.ival(ch[2], depth + 1)
                r = min(a[0], b[0]), max(a[1], b[1])
            elif k == z3.Z3_OP_ADD:
                l = [self.ival(c, depth + 1) for c in ch]
                r = max(n, sum(a for a, b in l)), min(i, sum(b for a, b in l))
            elif k == z3.Z3_OP_SUB:
                l = [self.ival(c, depth + 1) for c in ch]
                r = max(n, l[0][0] - sum(b for a, b in l[1:])), min(i, l[0][1] - sum(a for a, b in l[1:]))
            elif k == z3.Z3_OP_UMINUS:
                a, b = self.ival(ch[0], depth + 1)
                r = -b, -a
            elif k == z3.Z3_OP_MUL and len(ch) == 2:
                a, b = self.ival(ch[0], depth + 1), self.ival(ch[1], depth + 1)
                p = [u * v for u in a for v in b]
                r = max(n, min(p)), min(i, max(p))
            elif k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]) and ch[1].as_long() > 0: r = 0, ch[1].as_long() - 1
            elif k == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
                a, b = self.ival(ch[0], depth + 1)
                r = max(n, a // ch[1].as_long()), min(i, b // ch[1].as_long())
        self.ivmemo[t.get_id()] = (t, r)
        return r

    @staticmethod
    def bounds(ty):
        if ty.signed: return -2 ** (ty.bits - 1), 2 ** (ty.bits - 1) - 1
        return 0, 2 ** ty.bits - 1

    # ------------------------------------------------------------------ store
    def init_term(self, epoch, key):
        k = (epoch, key)
        if k not in self.inits:
            root, path = key
            sort, info = self.keyinfo[key]
            c = z3.Const('%s%s!%s' % (root if is_heap(root) else 'g.' + str(root), ''.join('.' + p for p in path), epoch), sort)
            self.inits[k] = c
            self.preamble.append((c, sort, info))
            self.typefact_pre(c, sort, info)
        return self.inits[k]

    keyinfo = None
    preamble = None

    def typefact_pre(self, c, sort, info):
        # type facts of initial memory hold everywhere: put them at the front
        save = self.facts
        self.facts = []
        self.typefact(c, sort, info)
        self.prefacts += self.facts
        self.facts = save

    def get(self, st, key, sort, info):
        if key in st.store: return st.store[key]
        if self.keyinfo is None:
            raise Unsupported('no memory')
        if key not in self.keyinfo: self.keyinfo[key] = (sort, info)
        root = key[0]
        if not (is_heap(root) or (isinstance(root, tuple) and root[0] == 'g')):
            # uninitialised local: arbitrary
            c = self.fresh(sort, 'u')
            self.typefact(c, sort, info)
            st.store[key] = c
            return c
        return self.init_term(st.epoch, key)

    def lift(self, sort, n, heap=False, keysorts=None):
        for _ in range(n): sort = z3.ArraySort(I, sort)
        return sort

    def leafkeys(self, lv):
        """[(key, sort of the stored term, info, leaf path)]"""
        out = []
        for p, s, info in self.leaves(lv.ty):
            sort = s
            for x in reversed(lv.idxs): sort = z3.ArraySort(x.sort(), sort)
            out.append(((lv.root, lv.path + p), sort, info, p))
        return out

    def read(self, st, lv):
        if isinstance(lv, Val): return lv
        if lv.root == 'DYN': raise Unsupported('dyn')
        meta = None
        if not lv.path and not is_heap(lv.root):
            meta = st.py.get(lv.root)
            if meta is not None and meta[0] == 'val': return meta[1]
        d = {}
        for key, sort, info, p in self.leafkeys(lv):
            d[p] = sel_n(self.get(st, key, sort, info), lv.idxs)
        return Val(lv.ty, d, meta)

    def read_leaf(self, st, lv, p):
        for key, sort, info, q in self.leafkeys(lv):
            if q == p: return sel_n(self.get(st, key, sort, info), lv.idxs)
        raise KeyError((lv, p))

    def write_leaf(self, st, lv, p, term):
        for key, sort, info, q in self.leafkeys(lv):
            if q == p:
                self._wr(st, lv, key, sort, info, term)
                return
        raise KeyError((lv, p))

    def _wr(self, st, lv, key, sort, info, term):
        old = self.get(st, key, sort, info) if lv.idxs else None
        st.store[key] = sto(old, lv.idxs, term) if lv.idxs else term
        if key not in self.keyinfo: self.keyinfo[key] = (sort, info)
        if self.wlog is not None:
            self.wlog.append((key, lv.idxs[0] if (lv.idxs and is_heap(lv.root)) else None, sort, info))

    def write(self, st, lv, val):
        if isinstance(val, LV): val = self.read(st, val)
        if val.meta is not None:
            if lv.path or is_heap(lv.root):
                if val.meta[0] in ('clo', 'fn') :
                    if self.leaves(lv.ty)[0][2] == 'opaque':
                        self.write_leaf(st, lv, (), self.fresh(I, 'fn'))
                        return
                    raise Unsupported('storing a %s' % val.meta[0])
                if val.meta[0] == 'iter': raise Unsupported('storing an iterator')
                if val.meta[0] == 'ptr':
                    tgt = val.meta[1]
                    if is_heap(tgt.root) and not tgt.path and len(tgt.idxs) == 1:
                        self.write_leaf(st, lv, (), tgt.idxs[0])
                        return
                    raise Unsupported('storing a pointer to a local')
            else:
                self.setpy(st, lv.root, val.meta)
                if val.meta[0] != 'iter':
                    st.py[lv.root] = ('val', val)
                    return
        elif not lv.path and lv.root in st.py and not is_heap(lv.root):
            self.setpy(st, lv.root, None)
        vd = val.d
        for key, sort, info, p in self.leafkeys(lv):
            if p not in vd:
                raise Unsupported('shape mismatch %s <- %s (%s)' % (lv.ty.s, val.ty.s, p))
            self._wr(st, lv, key, sort, info, vd[p])

    def setpy(self, st, root, meta):
        if meta is None:
            st.py.pop(root, None)
        else:
            st.py[root] = meta
        if self.wlog is not None: self.wlog.append((('py', root), None, None, None))

    def newroot(self, hint=''):
        self.nroot += 1
        return ('v', self.nroot, hint)

    def tmp(self, st, val):
        r = self.newroot('tmp')
        lv = LV(r, (), (), val.ty)
        self.write(st, lv, val)
        return lv

    def havocval(self, ty, hint='h'):
        d = {}
        for p, s, info in self.leaves(ty):
            c = self.fresh(s, hint)
            self.typefact(c, s, info)
            d[p] = c
        if self.is_seq(ty) and (ty.k == 'array' or ty.n == 'std::array'):
            n = ty.cnt if ty.k == 'array' else ty.args[1]
            d[('#len',)] = z3.IntVal(n)
        return Val(ty, d)

    def havoc_lv(self, st, lv, hint='h'):
        self.write(st, lv, self.havocval(lv.ty, hint))

    def alloc(self, st, ty):
        key = ('A', ())
        cur = st.store[key]
        st.store[key] = cur + 1
        if self.wlog is not None: self.wlog.append((key, None, I, None))
        b, o = base_off(cur)
        k = (b.get_id(), o)
        if k in self.dyn and (self.dyn[k] is None or self.dyn[k][0].s != ty.s): self.dyn[k] = None     # two branches allocated different types here
        else: self.dyn[k] = (ty, b)
        return cur

    def heaplv(self, addr, ty):
        if ty.k == 'rec' and ty.s in self.prog.records:
            return LV(HEAP, (), (addr,), ty)
        return LV(HEAP, ('@' + ty.s,), (addr,), ty)

    # ------------------------------------------------------------------ merging
    def merge2(self, c, a, b, pc=None):
        """state that is a if c else b"""
        if a.dead: return b
        if b.dead: return a
        s = State(pc if pc is not None else mk_or(a.pc, b.pc))
        s.epoch = a.epoch
        if a.epoch != b.epoch:
            self.nepoch += 1
            s.epoch = self.nepoch
        for k in a.store.keys() | b.store.keys():
            x, y = a.store.get(k), b.store.get(k)
            if x is None or y is None:
                root = k[0]
                if is_heap(root) or (isinstance(root, tuple) and root[0] == 'g'):
                    x = x if x is not None else self.init_term(a.epoch, k)
                    y = y if y is not None else self.init_term(b.epoch, k)
                else:
                    s.store[k] = x if x is not None else y
                    continue
            if x is y or x.eq(y):
                s.store[k] = x
            else:
                s.store[k] = mk_if(c, x, y)
        if a.epoch != b.epoch:
            for k in self.keyinfo:
                root = k[0]
                if (is_heap(root) or (isinstance(root, tuple) and root[0] == 'g')) and k not in s.store:
                    s.store[k] = mk_if(c, self.init_term(a.epoch, k), self.init_term(b.epoch, k))
        for k in a.py.keys() | b.py.keys():
            x, y = a.py.get(k), b.py.get(k)
            if x is None or y is None:
                s.py[k] = x if x is not None else y
            elif x is y or self.same_meta(x, y):
                s.py[k] = x
            else:
                s.py[k] = ('poison',)
        return s

    def same_meta(self, x, y):
        if x[0] != y[0]: return False
        if x[0] in ('ref', 'iter', 'ptr'): return isinstance(x[1], LV) and isinstance(y[1], LV) and x[1].same(y[1])
        if x[0] == 'val':
            return x[1].meta is not None and y[1].meta is not None and self.same_meta(x[1].meta, y[1].meta)
        if x[0] == 'clo': return x[1] is y[1]
        return False

    def mergeall(self, sts):
        sts = [s for s in sts if not s.dead]
        if not sts: return None
        cur = sts[-1]
        for s in reversed(sts[:-1]):
            cur = self.merge2(s.pc, s, cur)
        return cur

    # ------------------------------------------------------------------ statements
    @property
    def fr(self): return self.frames[-1]

    def ty(self, e): return self.fr.tu.ty(e['t'])

    def exec(self, st, s):
        if s is None or st.dead: return
        self.line = s.get('l') or self.line
        k = s['k']
        m = getattr(self, 'x_' + k, None)
        if m is None: raise Unsupported('statement %s %s' % (k, s.get('cls')))
        m(st, s)

    def x_Compound(self, st, s):
        for c in s['c']:
            if st.dead: return
            self.exec(st, c)

    def x_Null(self, st, s): pass

    def x_Expr(self, st, s): self.ev(st, s['e'])

    def x_Decl(self, st, s):
        for v in s['c']: self.declvar(st, v)

    def bindvar(self, st, vid, name, ty, val):
        """val: LV for references, Val otherwise"""
        root = self.newroot(name)
        self.fr.env[vid] = root
        self.fr.names[root] = (name, ty)
        if ty.k == 'ref':
            if isinstance(val, Val): val = self.tmp(st, val)
            st.py[root] = ('ref', val)
            return root
        if isinstance(val, LV):
            if ty.k == 'rec' and ty.n == 'std::_Bit_reference':
                st.py[root] = ('ref', val)
                return root
            val = self.read(st, val)
        lv = LV(root, (), (), ty)
        self.write(st, lv, val)
        return root

    def declvar(self, st, v):
        ty = self.fr.tu.ty(v['t'])
        if v.get('staticlocal'):
            root = ('g', 'static.' + v['n'] + str(v['id']))
            self.fr.env[v['id']] = root
            if 'init' in v:
                lv = LV(root, (), (), ty)
                try:
                    self.write(st, lv, self.rv(st, v['init']))
                except Unsupported:
                    self.havoc_lv(st, lv)
            return
        if ty.k == 'ref':
            x = self.ev(st, v['init'])
            self.bindvar(st, v['id'], v['n'], ty, x)
        elif self.identity(ty):
            addr = self.alloc(st, ty)
            root = self.newroot(v['n'])
            self.fr.env[v['id']] = root
            self.fr.names[root] = (v['n'], ty)
            lv = LV(HEAP, (), (addr,), ty)
            st.py[root] = ('ref', lv)
            if 'init' in v: self.init_into(st, lv, v['init'])
        else:
            if 'init' in v and v['init'] is not None:
                x = self.ev(st, v['init'])
                if isinstance(x, LV) and not (ty.k == 'rec' and ty.n == 'std::_Bit_reference'): x = self.read(st, x)
                if isinstance(x, Val) and x.meta is None and ty.k == 'rec' and x.ty.k == 'rec' and x.ty.s != ty.s and self.prog.rec(ty) is None and not self.is_seq(ty):
                    x = Val(ty, x.d, x.meta)
            else:
                x = self.havocval(ty, 'u')
                if ty.k == 'array': x.d[('#len',)] = z3.IntVal(ty.cnt)
            self.bindvar(st, v['id'], v['n'], ty, x)
        if 'bind' in v:
            for b in v['bind']:
                if 'hold' in b:
                    self.declvar(st, b['hold'])
                    self.fr.env[b['id']] = self.fr.env[b['holdId']]
                else:
                    x = self.ev(st, b['e'])
                    root = self.newroot(b['n'])
                    self.fr.env[b['id']] = root
                    self.fr.names[root] = (b['n'], x.ty)
                    st.py[root] = ('ref', x if isinstance(x, LV) else self.tmp(st, x))

    def identity(self, ty):
        return ty.k == 'rec' and ty.s in self.prog.records and (self.prog.poly(ty) or ty.s in self.opts.get('identity', ()))

    def init_into(self, st, lv, e):
        """construct the value of e in place (identity objects)"""
        if e['k'] == 'Construct':
            self.construct_at(st, lv, e['f'], e['args'], self.fr.tu)
            return
        x = self.ev(st, e)
        if isinstance(x, LV) and is_heap(x.root) and not x.path:
            x = self.read(st, x)
        self.write(st, lv, x)

    def x_If(self, st, s):
        if s.get('init'): self.exec(st, s['init'])
        if s.get('cvar'): self.exec(st, s['cvar'])
        if 'ccond' in s:
            self.exec(st, s['then'] if int(s['ccond']) else s.get('else'))
            return
        c = self.cond(st, s['cond'])
        if st.dead: return
        self.branch(st, c, lambda x: self.exec(x, s['then']), lambda x: self.exec(x, s.get('else')))

    def branch(self, st, c, fa, fb):
        if is_true(c):
            self.pruned += 1
            fa(st)
            return
        if is_false(c):
            self.pruned += 1
            fb(st)
            return
        a, b = st.copy(), st.copy()
        pa, pb = mk_and(st.pc, c), mk_and(st.pc, mk_not(c))
        a.pc, b.pc = pa, pb
        fa(a)
        fb(b)
        pc = st.pc if (a.pc is pa and b.pc is pb) else None
        if a.dead and b.dead:
            st.pc = FALSE
            return
        st.setto(self.merge2(c, a, b, pc))

    def x_Return(self, st, s):
        f = self.fr
        v = None
        if s.get('e') is not None:
            if f.retty.k == 'ref':
                v = self.ev(st, s['e'])
                if isinstance(v, Val): v = self.tmp(st, v)
            elif f.retty.k == 'void':
                self.ev(st, s['e'])
            else:
                v = self.rv(st, s['e'])
        if not st.dead:
            f.rets.append((st.copy(), v))
        st.pc = FALSE

    def x_Break(self, st, s):
        self.loopstack[-1]['brk'].append(st.copy())
        st.pc = FALSE

    def x_Continue(self, st, s):
        for l in reversed(self.loopstack):
            if l['kind'] == 'loop':
                l['cont'].append(st.copy())
                st.pc = FALSE
                return
        raise Unsupported('continue')

    def x_Switch(self, st, s):
        if s.get('init'): self.exec(st, s['init'])
        v = self.rv(st, s['cond']).t
        items = s['body']['c'] if s['body']['k'] == 'Compound' else [s['body']]
        # flatten nested case labels
        flat = []
        for it in items:
            labels = []
            while it and it['k'] in ('Case', 'Default'):
                labels.append(int(it['v']) if it['k'] == 'Case' else None)
                it = it['body']
            flat.append((labels, it))
        vals = [x for l, _ in flat for x in l if x is not None]
        ctx = {'kind': 'switch', 'brk': []}
        self.loopstack.append(ctx)
        entry = st.copy()
        cur = entry.copy()
        cur.pc = FALSE
        hasdef = False
        taken = FALSE
        for labels, it in flat:
            if labels:
                c = FALSE
                for x in labels:
                    if x is None:
                        hasdef = True
                        c = mk_or(c, mk_and(*[v != y for y in vals]))
                    else:
                        c = mk_or(c, mk_eq(v, z3.IntVal(x)))
                n = entry.copy()
                n.pc = mk_and(entry.pc, c)
                cur = n if cur.dead else self.merge2(n.pc, n, cur)
            if it is not None: self.exec(cur, it)
        self.loopstack.pop()
        outs = ctx['brk'] + [cur]
        if not hasdef:
            n = entry.copy()
            n.pc = mk_and(entry.pc, *[v != y for y in vals])
            outs.append(n)
        m = self.mergeall(outs)
        if m is None: st.pc = FALSE
        else: st.setto(m)

    def x_Case(self, st, s): self.exec(st, s['body'])
    x_Default = x_Case

    def x_Try(self, st, s):
        saved = self.exc_sink
        self.exc_sink = []
        self.exec(st, s['body'])
        excs = self.exc_sink
        self.exc_sink = saved
        outs = [] if st.dead else [st.copy()]
        for est, ety in excs:
            rem = est
            for h in s['h']:
                if rem is None: break
                if 't' in h:
                    ht = self.fr.tu.ty(h['t'])
                    if ht.k == 'ref': ht = ht.t
                    m = self.catches(ety, ht)
                else:
                    ht, m = None, True
                if m is False: continue
                hs = rem.copy()
                if m is None:
                    b = self.fresh(B, 'catch')
                    hs.pc = mk_and(rem.pc, b)
                    rem = rem.copy()
                    rem.pc = mk_and(rem.pc, mk_not(b))
                else:
                    rem = None
                if 'id' in h:
                    root = self.newroot('exc')
                    self.fr.env[h['id']] = root
                    hs.py[root] = ('exc', ety)
                self.curexc = ety
                self.exec(hs, h['body'])
                if not hs.dead: outs.append(hs)
            if rem is not None: self.exc_sink.append((rem, ety))
        m = self.mergeall(outs)
        if m is None: st.pc = FALSE
        else: st.setto(m)

    def catches(self, ety, ht):
        if ety is None: return None
        if self.prog.derives(ety, ht): return True
        if ht.n == 'std::exception' and (ety.n.startswith('std::') or ety.s in self.prog.records): return True
        if ety.s not in self.prog.records and not ety.n.startswith('std::'): return None
        if ety.n.startswith('std::') and ht.n.startswith('std::'): return None
        return False

    def throw(self, st, ety):
        if not st.dead: self.exc_sink.append((st.copy(), ety))
        st.pc = FALSE

    # ------------------------------------------------------------------ loops
    def x_For(self, st, s):
        if s.get('init'): self.exec(st, s['init'])
        cond = (lambda x: self.cond(x, s['cond'])) if s.get('cond') else (lambda x: TRUE)
        inc = (lambda x: self.ev(x, s['inc'])) if s.get('inc') else (lambda x: None)
        self.loop(st, cond, lambda x: self.exec(x, s['body']), inc, s)

    def x_While(self, st, s):
        def cond(x):
            if s.get('cvar'): self.exec(x, s['cvar'])
            return self.cond(x, s['cond'])
        self.loop(st, cond, lambda x: self.exec(x, s['body']), lambda x: None, s)

    def x_Do(self, st, s):
        self.loop(st, lambda x: self.cond(x, s['cond']), lambda x: self.exec(x, s['body']), lambda x: None, s, dowhile=True)

    def x_ForRange(self, st, s):
        if s.get('init'): self.exec(st, s['init'])
        r = self.ev(st, s['range'])
        rev = False
        if isinstance(r, Val) and r.meta is not None and r.meta[0] == 'rev':
            rev, r = True, r.meta[1]
        if isinstance(r, Val): r = self.tmp(st, r)
        v = s['var']
        vty = self.fr.tu.ty(v['t'])
        if r.ty.k == 'rec' and r.ty.n in MAPS:
            self.mapforeach(st, r, s)
            return
        if r.ty.k == 'rec' and r.ty.n.startswith('std::ranges::'):
            raise Unsupported('range ' + r.ty.n)
        if not self.is_seq(r.ty): raise Unsupported('range-for over ' + r.ty.s)
        et = self.seq_elem(r.ty)

        n0 = self.seqlen(st, r)

        def body(x, i):
            if rev: i = n0 - 1 - i
            self.bindvar(x, v['id'], v['n'], vty, r.i(i, et))
            if 'bind' in v: self.bindings(x, v, r.i(i, et))
            self.exec(x, s['body'])
        self.foreach(st, r, body, s)

    def bindings(self, x, v, lv):
        for b in v['bind']:
            if 'hold' in b:
                self.declvar(x, b['hold'])
                self.fr.env[b['id']] = self.fr.env[b['holdId']]
            else:
                y = self.ev(x, b['e'])
                root = self.newroot(b['n'])
                self.fr.env[b['id']] = root
                self.fr.names[root] = (b['n'], y.ty)
                x.py[root] = ('ref', y if isinstance(y, LV) else self.tmp(x, y))

    def mapforeach(self, st, r, s):
        raise Unsupported('range-for over map')

    def foreach(self, st, r, body, node, lo=None, hi=None):
        """for each element of the sequence r in [lo,hi): ghost index variable"""
        root = self.newroot('#i')
        self.fr.names[root] = ('#i', I64)
        ilv = LV(root, (), (), I64)
        lo = lo if lo is not None else z3.IntVal(0)
        hi0 = hi if hi is not None else self.seqlen(st, r)
        self.write(st, ilv, Val(I64, {(): lo}))

        def cond(x): return self.read(x, ilv).t < hi0

        def bd(x): body(x, self.read(x, ilv).t)

        def inc(x): self.write(x, ilv, Val(I64, {(): self.read(x, ilv).t + 1}))
        self.loop(st, cond, bd, inc, node, ghost=(root, lo, hi0))

    def seqlen(self, st, lv):
        if lv.ty.k == 'array': return z3.IntVal(lv.ty.cnt)
        if lv.ty.n == 'std::array': return z3.IntVal(lv.ty.args[1])
        return self.read_leaf(st, lv, ('#len',))

    def iterate(self, head, cond, body, inc, dowhile):
        ctx = {'kind': 'loop', 'brk': [], 'cont': []}
        self.loopstack.append(ctx)
        exits = []
        if not dowhile:
            c = cond(head)
            ex = head.copy()
            ex.pc = mk_and(head.pc, mk_not(c))
            exits.append(ex)
            head.pc = mk_and(head.pc, c)
        if not head.dead: body(head)
        m = self.mergeall([head] + ctx['cont'])
        if m is not None:
            if dowhile:
                c = cond(m)
                ex = m.copy()
                ex.pc = mk_and(m.pc, mk_not(c))
                exits.append(ex)
                m.pc = mk_and(m.pc, c)
            else:
                inc(m)
        self.loopstack.pop()
        return m, exits + ctx['brk']

    def dryrun(self, st, cond, body, inc, dowhile):
        nf, no = len(self.facts), len(self.obls)
        sv = (self.exc_sink, self.fr.rets, self.wlog, [(f, dict(f.env), dict(f.names)) for f in self.frames], len(self.events))
        self.exc_sink, self.fr.rets, self.wlog = [], [], []
        self.dry += 1
        n0, r0 = self.nfresh, self.nroot
        p0 = self.pruned
        try:
            s2 = st.copy()
            self.iterate(s2, cond, body, inc, dowhile)
            w = self.wlog
        finally:
            self.dry -= 1
            self.exc_sink, self.fr.rets, self.wlog = sv[0], sv[1], sv[2]
            for f, e, n in sv[3]: f.env, f.names = e, n
            del self.events[sv[4]:]
            del self.facts[nf:]
            del self.obls[no:]
        return w, n0, r0, self.pruned - p0

    def loop(self, st, cond, body, inc, node, dowhile=False, ghost=None):
        if st.dead: return
        if self.dry:
            # inner loop of a dry run: one symbolic pass is enough to see the writes (repeated by the caller until stable)
            a = st.copy()
            m, exits = self.iterate(a, cond, body, inc, dowhile)
            r = self.mergeall(exits + ([m] if m is not None else []))
            if r is None: st.pc = FALSE
            else: st.setto(r)
            return
        line = self.line
        mods = {}
        cur = st
        nbase, rbase = self.nfresh, self.nroot
        while True:
            w, n0, r0, pr = self.dryrun(cur, cond, body, inc, dowhile)
            n0, r0 = nbase, rbase
            new = {}
            for key, addr, sort, info in w:
                root = key[0]
                if root == 'py':
                    if key[1][1] <= r0: new[key] = None
                    continue
                if root == 'E':
                    new[key] = None
                    continue
                if isinstance(root, tuple) and root[0] == 'v' and root[1] > r0: continue
                if addr is not None and not self.newer(addr, n0) and not self.alloc_addr(addr, st):
                    new.setdefault(key, {})
                    if new[key] is not None: new[key][addr.get_id()] = addr
                elif addr is not None and self.alloc_addr(addr, st):
                    new.setdefault(key, {})   # object allocated inside the loop
                    new[key] = None
                else:
                    new[key] = None
            grown = False
            for k, a in new.items():
                if k not in mods:
                    mods[k] = a
                    grown = True
                elif a is None and mods[k] is not None:
                    mods[k] = None
                    grown = True
                elif a is not None and mods[k] is not None and any(x not in mods[k] for x in a):
                    mods[k].update(a)
                    grown = True
            if not grown: break
            cur = self.havoc_mods(st, mods, quiet=True)
        self.line = line
        entry = st.copy()
        L = Loop(self, entry, mods, node, ghost[0] if ghost else None)
        L.ghost = ghost
        L.id = len(self.loops)
        L.nfresh0 = self.nfresh
        L.line = self.where()
        self.loops.append(L)
        head = self.havoc_mods(st, mods)
        L.head = head.copy()
        slot = Slot()
        self.facts.append(slot)
        cl = []

        cuts = []

        def addcand(name, fn, cut=False):
            if name in seen: return
            seen.add(name)
            try:
                fe, fh = fn(entry), fn(head0)
            except (Unsupported, KeyError, z3.Z3Exception, IndexError, AttributeError, TypeError):
                return
            if fe is None or fh is None: return
            act = z3.Const('act!%d' % len(self.cands), B)
            c = Cand('%s@loop%d(%s)' % (name, L.id, L.line), act, L)
            c.fn = fn
            c.custom = L.incustom
            self.cands.append(c)
            cl.append(c)
            slot.append(mk_imp(mk_and(act, head0.pc), fh))
            o = Obl('inv-entry ' + c.name, 'inv', mk_and(entry.pc, *cuts), fe, L.nf, L.line, c)
            if cut: cuts.append(mk_imp(act, fe))     # later candidates may use it at entry: it is dropped with the candidate
            o.gid = None
            self.obls.append(o)
        seen = set()
        head0 = head.copy()
        L.nf = len(self.facts) - 1
        L.add = addcand
        L.incustom = False
        self.autocands(L, entry, head0, addcand)
        L.incustom = True
        if self.loop_inv is not None: self.loop_inv(L)
        L.incustom = False
        body_start = len(self.facts)
        m, exits = self.iterate(head, cond, body, inc, dowhile)
        self.line = line
        if m is not None and not m.dead:
            self.latecands(L, entry, head0, m, addcand)
            nf = len(self.facts)
            for c in cl:
                try:
                    fm = c.fn(m)
                except (Unsupported, KeyError, z3.Z3Exception, IndexError, AttributeError, TypeError):
                    fm = None
                if fm is None: fm = FALSE
                o = Obl('inv-preserve ' + c.name, 'inv', m.pc, fm, nf, L.line, c)
                o.gid = None
                self.obls.append(o)
        r = self.mergeall(exits)
        if r is None: st.pc = FALSE
        else: st.setto(r)

    def alloc_addr(self, addr, st):
        a0 = st.store.get(('A', ()))
        b, o = base_off(addr)
        b0, o0 = base_off(a0)
        return b.eq(b0) and o >= o0

    def newer(self, t, n0):
        for n in consts_of(t):
            if '!' in n:
                try:
                    if int(n.rsplit('!', 1)[1]) > n0: return True
                except ValueError:
                    pass
        return False

    def havoc_mods(self, st, mods, quiet=False):
        h = st.copy()
        nf = len(self.facts)
        for key, addrs in mods.items():
            root = key[0]
            if root == 'py':
                m = h.py.get(key[1])
                if m is not None and m[0] == 'iter': continue    # container must stay the same: checked at the back edge by merge
                if m is not None: h.py[key[1]] = ('poison',)
                continue
            if root == 'E':
                self.havoc_all(h)
                continue
            if root == 'A':
                a0 = h.store[('A', ())]
                a = self.fresh(I, 'A')
                self.fact(a >= a0)
                h.store[('A', ())] = a
                continue
            if root == 'G':
                old = h.store[key]
                h.store[key] = self.fresh(old.sort(), 'G.' + key[1][0])
                continue
            if not (is_heap(root) or (isinstance(root, tuple) and root[0] == 'g')) and key not in h.store:
                continue
            sort, info = self.keyinfo[key]
            old = self.get(h, key, sort, info)
            if addrs:
                t = old
                es = sort.range()
                for a in addrs.values():
                    f = self.fresh(es, 'L' + key[1][0].split('::')[-1])
                    self.typefact(f, es, info)
                    t = z3.Store(t, a, f)
                h.store[key] = t
            else:
                f = self.fresh(sort, 'L')
                self.typefact(f, sort, info)
                h.store[key] = f
        if quiet: del self.facts[nf:]
        return h

    def intvars(self, L):
        """modified integer locals (name, LV)"""
        out = []
        for key in L.mods:
            root = key[0]
            if isinstance(root, tuple) and root[0] == 'v' and key in L.entry.store and key in self.keyinfo:
                sort, info = self.keyinfo[key]
                if sort.eq(I) and info != 'ptr':
                    out.append((root[2] + ''.join(key[1]), key, info))
            elif root == 'G' and L.entry.store[key].sort().eq(I):
                out.append(('ghost.' + key[1][0], key, 'ghost'))
        return out

    def autocands(self, L, entry, head, add):
        for n, key, info in self.intvars(L):
            e0 = entry.store[key]
            if info == 'len':
                add('len-same ' + n, lambda s, k=key, e=e0: s.store[k] == e)
                add('len-grows ' + n, lambda s, k=key, e=e0: s.store[k] >= e)
            else:
                add('mono-up ' + n, lambda s, k=key, e=e0: s.store[k] >= e)
                add('mono-down ' + n, lambda s, k=key, e=e0: s.store[k] <= e)
            lo, hi = (0, MAXLEN) if info == 'len' else (None, None)
        if L.ghost:
            root, lo, hi = L.ghost
            add('ghost-range', lambda s: z3.And(s.store[(root, ())] >= lo, z3.Or(s.store[(root, ())] <= hi, s.store[(root, ())] == lo)))
        # heap lengths
        for key, addrs in L.mods.items():
            if key[0] in ('py', 'E', 'A', 'G') or key not in self.keyinfo: continue
            sort, info = self.keyinfo[key]
            if is_heap(key[0]) and info == 'len' and sort.range().eq(I) and addrs:
                for a in addrs.values():
                    add('len-same H%s@%s' % (key[1], a.get_id()), lambda s, k=key, a=a: sel(s.store[k], a) == sel(self.get(entry, k, *self.keyinfo[k]), a))
                    add('len-grows H%s@%s' % (key[1], a.get_id()), lambda s, k=key, a=a: sel(s.store[k], a) >= sel(self.get(entry, k, *self.keyinfo[k]), a))
        L.terms = None

    def modarrays(self, L, entry):
        """modified sequence leaves: (id, getter(state)->array term Int->X)"""
        out = []
        for key, addrs in L.mods.items():
            root = key[0]
            if root in ('py', 'E', 'A', 'G') or key not in self.keyinfo: continue
            sort, info = self.keyinfo[key]
            if is_heap(root):
                if '[]' not in key[1] or not addrs: continue
                for a in addrs.values():
                    out.append(('H%s@%d' % ('.'.join(key[1]), a.get_id()), lambda s, k=key, a=a: sel(self.get(s, k, *self.keyinfo[k]), a)))
            elif '[]' in key[1]:
                if isinstance(root, tuple) and root[0] == 'v' and key not in entry.store: continue
                out.append(('%s%s' % (root[2] if len(root) > 2 else root[1], '.'.join(key[1])), lambda s, k=key: self.get(s, k, *self.keyinfo[k])))
        return out

    def latecands(self, L, entry, head, end, add):
        """candidates read off the symbolic effect of one iteration"""
        ints = [(n, k) for n, k, info in self.intvars(L) if info != 'len']
        # induction variables: end == head + 1 ; bound from the loop condition
        ivs, dvs = [], []
        for n, k in ints:
            e, h = end.store.get(k), head.store[k]
            if e is None: continue
            d = const_diff(self.unwrap(e), h)
            if d == 1: ivs.append((n, k))
            if d == -1: dvs.append((n, k))
        for (n1, k1), (n2, k2) in itertools.product(ivs, dvs):
            e1, e2 = entry.store[k1], entry.store[k2]
            add('counter %s %s' % (n1, n2), lambda s, a=k1, b=k2, e1=e1, e2=e2: s.store[a] - e1 == e2 - s.store[b])
        # linear relations between counters
        for (n1, k1), (n2, k2) in itertools.combinations(ivs, 2):
            d0 = None
            e1, e2 = entry.store[k1], entry.store[k2]
            add('lockstep %s %s' % (n1, n2), lambda s, a=k1, b=k2, e1=e1, e2=e2: s.store[a] - e1 == s.store[b] - e2)
        for n, k in ivs:
            h = head.store[k]
            for b in self.find_bounds(end.pc, h):
                if self.depends(b, head, entry, L): continue
                add('bound %s %d' % (n, b.get_id()), lambda s, k=k, b=b, e=entry.store[k]: z3.Or(s.store[k] <= b, s.store[k] == e))
                add('bound1 %s %d' % (n, b.get_id()), lambda s, k=k, b=b, e=entry.store[k]: z3.Or(s.store[k] <= b + 1, s.store[k] == e))
        arrs = self.modarrays(L, entry)
        havoced = self.havoc_subst(L, entry, head)
        for an, g in arrs:
            try:
                ga, ea = g(entry), g(end)
            except (KeyError, Unsupported, z3.Z3Exception):
                continue
            if not ga.sort().kind() == z3.Z3_ARRAY_SORT: continue
            if not ga.sort().domain().eq(I): continue
            self.arrcands(L, entry, head, end, add, an, g, ga, ea, ivs, havoced)
        for an, g in self.modlens(L, entry):
            self.appendcands(L, entry, head, end, add, an, g, arrs, ivs, havoced)
        for an, g in self.modlens(L, entry):
            try:
                e, h, ga = g(end), g(head), g(entry)
            except (KeyError, Unsupported, z3.Z3Exception):
                continue
            d = const_diff(e, h)
            for n, k in ivs:
                if d == -1:
                    add('len-down %s with %s' % (an, n), lambda s, g=g, k=k, ga=ga, e0=entry.store[k]: ga - g(s) == s.store[k] - e0)
                if d == 1:
                    add('len-step %s with %s' % (an, n), lambda s, g=g, k=k, ga=ga, e0=entry.store[k]: g(s) - ga == s.store[k] - e0)

    def arrcands(self, L, entry, head, end, add, an, g, ga, ea, ivs, havoced):
        kv = z3.Const('kk!', I)
        pats = lambda s: [z3.Select(g(s), kv)] if okpat(g(s)) else []
        for n, k in ivs:
            e0 = entry.store[k]
            add('suffix-same %s from %s' % (an, n), lambda s, k=k: z3.ForAll([kv], z3.Implies(kv >= s.store[k], sel(g(s), kv) == sel(ga, kv)), patterns=pats(s)))
            add('prefix-same %s below start of %s' % (an, n), lambda s, e0=e0: z3.ForAll([kv], z3.Implies(kv < e0, sel(g(s), kv) == sel(ga, kv))))
            # elementwise map
            h = head.store[k]
            val = self.selite(ea, h)
            val = z3.substitute(val, *havoced) if havoced else val
            t = z3.substitute(val, (h, kv))
            if len(ivs) > 1: t = z3.substitute(t, *[(head.store[k2], simp_add(kv, entry.store[k2], e0)) for n2, k2 in ivs if k2 != k])
            if not self.depends(t, head, entry, L):
                add('map %s over %s' % (an, n), lambda s, k=k, e0=e0, t=t: z3.ForAll([kv], z3.Implies(z3.And(kv >= e0, kv < s.store[k]), sel(g(s), kv) == t), patterns=pats(s)))

    def appendcands(self, L, entry, head, end, add, ln, gl, arrs, ivs, havoced):
        """element appended per iteration, as a function of its position"""
        try:
            e, h, l0 = gl(end), gl(head), gl(entry)
        except (KeyError, Unsupported, z3.Z3Exception):
            return
        if const_diff(e, h) != 1: return
        kv = z3.Const('kk!', I)
        base = ln[:-len('#len')] if ln.endswith('#len') else ln.replace('#len', '')
        for an, g in arrs:
            if not an.replace('[]', '').startswith(base.replace('[]', '')): continue
            try:
                ga, ea = g(entry), g(end)
            except (KeyError, Unsupported, z3.Z3Exception):
                continue
            if ga.sort().kind() != z3.Z3_ARRAY_SORT or not ga.sort().domain().eq(I): continue
            pats = lambda s, g=g: [z3.Select(g(s), kv)] if okpat(g(s)) else []
            val = self.selite(ea, h)
            val = z3.substitute(val, *havoced) if havoced else val
            for n, k in ivs:
                e0 = entry.store[k]
                pos = kv - l0 + e0
                if iconst(l0) is not None and iconst(e0) is not None: pos = kv if iconst(l0) == iconst(e0) else kv + (iconst(e0) - iconst(l0))
                t = z3.substitute(val, (h, kv), (head.store[k], pos))
                if not self.depends(t, head, entry, L):
                    add('append %s over %s' % (an, n), lambda s, g=g, t=t, l0=l0: z3.ForAll([kv], z3.Implies(z3.And(kv >= l0, kv < gl(s)), sel(g(s), kv) == t), patterns=pats(s)))

    def selite(self, a, i):
        """select pushed through if-then-else of arrays"""
        if z3.is_app_of(a, z3.Z3_OP_ITE): return mk_if(a.arg(0), self.selite(a.arg(1), i), self.selite(a.arg(2), i))
        return sel(a, i)

    def modlens(self, L, entry):
        out = []
        for key, addrs in L.mods.items():
            root = key[0]
            if root in ('py', 'E', 'A', 'G') or key not in self.keyinfo or key[1][-1:] != ('#len',): continue
            sort, info = self.keyinfo[key]
            if is_heap(root):
                if not addrs or not sort.range().eq(I): continue
                for a in addrs.values():
                    out.append(('H%s@%d' % ('.'.join(key[1]), a.get_id()), lambda s, k=key, a=a: sel(self.get(s, k, *self.keyinfo[k]), a)))
            elif sort.eq(I) and key in entry.store:
                out.append(('%s%s' % (root[2], '.'.join(key[1])), lambda s, k=key: s.store[k]))
        return out

    def havoc_subst(self, L, entry, head):
        out = []
        for key, addrs in L.mods.items():
            root = key[0]
            if root in ('py', 'E', 'A', 'G') or key not in self.keyinfo: continue
            if not is_heap(root) and key not in entry.store: continue
            if '[]' not in key[1]: continue
            e, h = self.get(entry, key, *self.keyinfo[key]), self.get(head, key, *self.keyinfo[key])
            if addrs:
                for a in addrs.values(): out.append((sel(h, a), sel(e, a)))
            elif not h.eq(e):
                out.append((h, e))
        return out

    def depends(self, t, head, entry, L):
        """does t mention symbols that the loop havocs (or that are newer)?"""
        hv, keep = {}, set()
        for key, addrs in L.mods.items():
            root = key[0]
            if root in ('py', 'E') or key not in head.store: continue
            e = entry.store.get(key)
            if e is None and key in self.keyinfo and (is_heap(root) or (isinstance(root, tuple) and root[0] == 'g')): e = self.get(entry, key, *self.keyinfo[key])
            hv.update(consts_of(head.store[key]))
            if e is not None: keep.update(consts_of(e))
            for a in (addrs or {}).values(): keep.update(consts_of(a))
        cs = consts_of(t)
        if any(n in hv and n not in keep for n in cs): return True
        lim = getattr(L, 'nfresh0', None)
        for n in cs:
            if '!' in n:
                try:
                    v = int(n.rsplit('!', 1)[1])
                except ValueError:
                    continue
                if n.startswith(('H.', 'g.')): continue
                if lim is not None and v > lim: return True
        return False

    def unwrap(self, t):
        """strip wrap-around if-then-else produced for machine arithmetic: (ite (x>=2^n) x-2^n x) -> x"""
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            if z3.is_app_of(a, z3.Z3_OP_SUB) and a.arg(0).eq(b): return b
            if z3.is_app_of(a, z3.Z3_OP_ADD) and a.arg(0).eq(b): return b
        return t

    def find_bounds(self, pc, h):
        out, stack, seen = [], [pc], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_and(x) or z3.is_not(x) or z3.is_or(x): stack.extend(x.children())
            elif z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = x.children()
                if a.eq(h) and b.sort().eq(I): out.append(b)
                elif b.eq(h) and a.sort().eq(I): out.append(a)
        return out

    def havoc_all(self, st):
        """an opaque callee may have changed all of memory"""
        self.nepoch += 1
        st.epoch = self.nepoch
        for k in list(st.store):
            if is_heap(k[0]) or (isinstance(k[0], tuple) and k[0][0] == 'g' and not k[0][1].startswith('keep.')): del st.store[k]
        a = self.fresh(I, 'A')
        self.fact(a >= st.store[('A', ())])
        st.store[('A', ())] = a
        if self.wlog is not None: self.wlog.append((('E', ()), None, None, None))

    # ------------------------------------------------------------------ expressions
    def rv(self, st, e):
        x = self.ev(st, e)
        return self.read(st, x) if isinstance(x, LV) else x

    def cond(self, st, e):
        x = self.rv(st, e)
        return self.tobool(st, x)

    def tobool(self, st, x):
        if x.ty.k == 'bool': return x.t
        if x.meta is not None and x.meta[0] == 'ptr': return TRUE
        if () in x.d and x.t.sort().eq(B): return x.t
        if () in x.d: return x.t != 0
        if ('#has',) in x.d: return x.d[('#has',)]
        if ('#base',) in x.d: return x.d[('#base',)] != 0
        raise Unsupported('condition of type ' + x.ty.s)

    def ev(self, st, e):
        if e is None: return Val(VOID, {})
        if 'cv' in e and not e.get('lv') or ('cv' in e and e['k'] == 'Ref'):
            t = self.ty(e)
            v = self.constval(t, e['cv'])
            if v is not None: return v
        m = getattr(self, 'e_' + e['k'], None)
        if m is None: raise Unsupported('expression %s %s' % (e['k'], e.get('cls')))
        return m(st, e)

    def constval(self, t, cv):
        if t.k == 'bool': return Val(t, {(): z3.BoolVal(bool(int(cv)))})
        if t.k in ('int', 'enum'): return Val(t, {(): z3.IntVal(int(cv))})
        if t.k == 'float':
            v = flt(cv)
            if v is None:
                v = z3.Const('fp.' + cv, R)
            return Val(t, {(): v})
        return None

    def e_Int(self, st, e): return Val(self.ty(e), {(): z3.IntVal(int(e['v']))})
    def e_Enum(self, st, e): return Val(self.ty(e), {(): z3.IntVal(int(e['v']))})
    def e_Float(self, st, e): return self.constval(self.ty(e), e['v'])
    def e_Bool(self, st, e): return Val(BOOL, {(): z3.BoolVal(bool(e['v']))})

    def e_Str(self, st, e): return Val(self.ty(e), {}, ('str', e.get('v', '')))

    def e_Null(self, st, e): return Val(self.ty(e), {(): z3.IntVal(0)}, None)

    def e_This(self, st, e):
        return Val(self.ty(e), {}, ('ptr', self.fr.this.cast(self.ty(e).t) if self.ty(e).k == 'ptr' else self.fr.this))

    def e_FuncRef(self, st, e): return Val(self.ty(e), {}, ('fn', e['f']))

    def e_Ref(self, st, e):
        vid = e.get('id')
        root = self.fr.env.get(vid)
        if root is None:
            if 'g' in e:
                return LV(('g', e['g']), (), (), self.ty(e))
            raise Unsupported('unbound variable %s' % e.get('n'))
        m = st.py.get(root)
        if m is not None and m[0] == 'ref': return m[1]
        if m is not None and m[0] == 'poison': raise Unsupported('variable %s has no single target' % e.get('n'))
        t = self.fr.names.get(root, (None, None))[1] or self.ty(e)
        return LV(root, (), (), t)

    def deref(self, st, v):
        """Val of pointer kind -> LV"""
        if isinstance(v, LV): v = self.read(st, v)
        if v.meta is not None:
            if v.meta[0] == 'ptr': return v.meta[1]
            if v.meta[0] == 'iter': return v.meta[1].i(v.d[('#idx',)], self.seq_elem(v.meta[1].ty))
            if v.meta[0] == 'miter':
                raise Unsupported('map iterator dereference')
            raise Unsupported('dereference of %s' % v.meta[0])
        if v.ty.k == 'ptr':
            p = v.ty.t
            if ('#base',) in v.d:
                return LV(HEAP, ('@' + p.s, '[]'), (v.d[('#base',)], v.d[('#off',)]), p)
            self.ptrfact(st, v.t)
            return self.heaplv(v.t, p)
        if v.ty.k == 'ref':
            self.ptrfact(st, v.t)
            return self.heaplv(v.t, v.ty.t)
        if v.ty.k == 'rec' and v.ty.n in PTRS:
            self.ptrfact(st, v.t)
            return self.heaplv(v.t, v.ty.args[0])
        if v.ty.k == 'rec' and v.ty.n == 'std::optional':
            raise Unsupported('deref of optional rvalue')
        raise Unsupported('dereference of ' + v.ty.s)

    def ptrfact(self, st, t):
        # memory is well formed: every pointer held in memory is null or an allocated address
        if not self.dry: self.fact(z3.And(t >= 0))

    def e_Member(self, st, e):
        b = self.ev(st, e['e'])
        if e.get('arrow'):
            b = self.deref(st, b)
        if 'cls' not in e: raise Unsupported('member ' + e['n'])
        cls = self.fr.tu.ty(e['cls'])
        t = self.ty(e)
        if cls.s not in self.prog.records:
            if cls.n == 'std::pair': fn, ft = e['n'], cls.args[0 if e['n'] == 'first' else 1]
            else: raise Unsupported('member %s of %s' % (e['n'], cls.s))
        else:
            short = cls.n.split('::')[-1]
            fn = short + '::' + e['n']
            ft = None
            for a, b2, fj, tu, dc in self.prog.fields(cls):
                if a == fn: ft = b2
            if ft is None: raise Unsupported('field ' + fn)
        if isinstance(b, Val):
            if b.meta is not None: raise Unsupported('member of python value')
            d = {p[1:]: v for p, v in b.d.items() if p[:1] == (fn,)}
            r = Val(ft, d)
            if ft.k == 'ref': return self.deref(st, r)
            return r
        r = b.f(fn, ft)
        if ft.k == 'ref': return self.deref(st, self.read(st, r))
        return r

    def e_Index(self, st, e):
        b = self.ev(st, e['e'])
        i = self.rv(st, e['i']).t
        if isinstance(b, LV) and b.ty.k == 'array': return b.i(i, b.ty.t)
        if isinstance(b, LV): b = self.read(st, b)
        if b.meta is not None and b.meta[0] == 'arr':
            return b.meta[1].i(i, self.seq_elem(b.meta[1].ty))
        if ('#base',) in b.d:
            return LV(HEAP, ('@' + b.ty.t.s, '[]'), (b.d[('#base',)], b.d[('#off',)] + i), b.ty.t)
        raise Unsupported('index of ' + b.ty.s)

    # ---- arithmetic
    def wrap(self, t, ty, op=None):
        if z3.is_int_value(t):
            lo, hi = self.bounds(ty)
            v = t.as_long()
            return z3.IntVal((v - lo) % (hi - lo + 1) + lo)
        if ty.signed: return t          # signed overflow is undefined behaviour: excluded (stated)
        m = 2 ** ty.bits
        a, b = self.ival(t)
        if a >= 0 and b < m: return t
        if op == '+': return z3.If(t >= m, t - m, t)
        if op == '-': return z3.If(t < 0, t + m, t)
        return t % m

    def arith(self, st, op, a, b, ty):
        if ty.k == 'float':
            x, y = a, b
            if self.opts.get('real'):
                if op == '+': return x + y
                if op == '-': return x - y
                if op == '*' and (z3.is_rational_value(x) or z3.is_rational_value(y)): return x * y
                if op == '/' and z3.is_rational_value(y) and y.as_fraction() != 0: return x / y
                if op == '*' and 'mulcomm' not in self.axioms:
                    u, v = z3.Consts('u!c v!c', R)
                    self.axioms['mulcomm'] = z3.ForAll([u, v], FMUL(u, v) == FMUL(v, u), patterns=[FMUL(u, v)])
            if op == '+':
                if x.get_id() > y.get_id(): x, y = y, x
                if z3.is_rational_value(x) and x.as_fraction() == 0: return y
                if z3.is_rational_value(y) and y.as_fraction() == 0: return x
                return FADD(x, y)
            if op == '-':
                r = FSUB(x, y)
                self.fact(z3.And((r > 0) == (x > y), (r < 0) == (x < y)))
                return r
            if op == '*':
                if x.get_id() > y.get_id(): x, y = y, x
                for u, v in ((x, y), (y, x)):
                    if z3.is_rational_value(u) and u.as_fraction() == 1: return v
                r = FMUL(x, y)
                if x.eq(y): self.fact(r >= 0)
                return r
            if op == '/':
                if z3.is_rational_value(y) and y.as_fraction() == 1: return x
                return FDIV(x, y)
            raise Unsupported('float op ' + op)
        if op == '+': return self.wrap(self.addi(a, b), ty, '+')
        if op == '-': return self.wrap(self.subi(a, b), ty, '-')
        if op == '*':
            if z3.is_int_value(a) and z3.is_int_value(b): return self.wrap(z3.IntVal(a.as_long() * b.as_long()), ty)
            return self.wrap(a * b, ty)
        if op == '/':
            if not ty.signed: return a / b
            return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
        if op == '%':
            if not ty.signed: return a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return a - q * b
        if op in ('&', '|', '^', '<<', '>>'):
            ca, cb = iconst(a), iconst(b)
            if ca is not None and cb is not None:
                return z3.IntVal({'&': ca & cb, '|': ca | cb, '^': ca ^ cb, '<<': ca << cb, '>>': ca >> cb}[op])
            f = z3.Function('bit' + op, I, I, I)
            r = f(a, b)
            c = self.range(r, ty)
            self.fact(c)
            return r
        raise Unsupported('op ' + op)

    def addi(self, a, b):
        if z3.is_int_value(b):
            if z3.is_int_value(a): return z3.IntVal(a.as_long() + b.as_long())
            x, o = base_off(a)
            v = o + b.as_long()
            return x if v == 0 else x + z3.IntVal(v)
        if z3.is_int_value(a): return self.addi(b, a)
        return a + b

    def subi(self, a, b):
        if z3.is_int_value(b): return self.addi(a, z3.IntVal(-b.as_long()))
        if a.eq(b): return z3.IntVal(0)
        return a - b

    def e_Bin(self, st, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(st, e['a'])
            if (op == '&&' and is_false(a)) or (op == '||' and is_true(a)):
                self.pruned += 1
                return Val(BOOL, {(): a})
            s2 = st.copy()
            p2 = s2.pc = mk_and(st.pc, a if op == '&&' else mk_not(a))
            b = self.cond(s2, e['b'])
            changed = s2.pc is not p2 or s2.store.keys() != st.store.keys() or any(st.store[k] is not v for k, v in s2.store.items())
            if changed:
                c = a if op == '&&' else mk_not(a)
                s1 = st.copy()
                s1.pc = mk_and(st.pc, mk_not(c))
                st.setto(self.merge2(c, s2, s1, st.pc if s2.pc is p2 else None))
            return Val(BOOL, {(): mk_and(a, b) if op == '&&' else mk_or(a, b)})
        if op == ',':
            self.ev(st, e['a'])
            return self.ev(st, e['b'])
        if op == '=':
            r = self.rv(st, e['b'])
            l = self.ev(st, e['a'])
            self.write(st, l, r)
            return l
        a = self.rv(st, e['a'])
        b = self.rv(st, e['b'])
        return self.binop(st, op, a, b, self.ty(e))

    def binop(self, st, op, a, b, ty):
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return Val(BOOL, {(): self.compare(st, op, a, b)})
        if a.ty.k == 'ptr' or b.ty.k == 'ptr' or (a.meta and a.meta[0] == 'arr'):
            if a.meta and a.meta[0] in ('arr', 'ptr') and op in '+-': raise Unsupported('pointer arithmetic on arrays')
            if op in '+-' and ('#base',) in a.d and () in b.d:
                return Val(a.ty, {('#base',): a.d[('#base',)], ('#off',): a.d[('#off',)] + b.t if op == '+' else a.d[('#off',)] - b.t})
            if op == '-' and ('#base',) in a.d and ('#base',) in b.d:
                return Val(ty, {(): a.d[('#off',)] - b.d[('#off',)]})
            raise Unsupported('pointer arithmetic')
        return Val(ty, {(): self.arith(st, op, a.t, b.t, ty)})

    def compare(self, st, op, a, b):
        if a.meta is not None or b.meta is not None:
            if a.meta and b.meta and a.meta[0] == 'iter' and b.meta[0] == 'iter':
                if not a.meta[1].same(b.meta[1]): raise Unsupported('iterators of different containers')
                x, y = a.d[('#idx',)], b.d[('#idx',)]
            elif a.meta and b.meta and a.meta[0] == 'ptr' and b.meta[0] == 'ptr' and op in ('==', '!=') and (a.meta[1].same(b.meta[1]) or a.meta[1].root != b.meta[1].root):
                # different objects, or reference parameters assumed not to alias
                same = z3.BoolVal(a.meta[1].same(b.meta[1]))
                return same if op == '==' else mk_not(same)
            elif a.meta and a.meta[0] == 'ptr' or b.meta and b.meta[0] == 'ptr':
                x, y = self.addr(a), self.addr(b)
            else:
                raise Unsupported('comparison')
        elif ('#base',) in a.d or ('#base',) in b.d:
            if () in b.d: x, y = a.d[('#base',)], b.t
            elif () in a.d: x, y = a.t, b.d[('#base',)]
            else:
                eq = z3.And(a.d[('#base',)] == b.d[('#base',)], a.d[('#off',)] == b.d[('#off',)])
                if op == '==': return eq
                if op == '!=': return z3.Not(eq)
                x, y = a.d[('#off',)], b.d[('#off',)]
        elif ('#idx',) in a.d: x, y = a.d[('#idx',)], b.d[('#idx',)]
        else: x, y = a.t, b.t
        if x.sort().eq(B) or y.sort().eq(B):
            if op == '==': return x == y if not (is_true(y)) else x
            if op == '!=': return x != y
            raise Unsupported('bool order')
        if op == '==': return mk_eq(x, y)
        if op == '!=': return mk_not(mk_eq(x, y))
        if z3.is_int_value(x) and z3.is_int_value(y):
            u, v = x.as_long(), y.as_long()
            return z3.BoolVal({'<': u < v, '<=': u <= v, '>': u > v, '>=': u >= v}[op])
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]

    def addr(self, v):
        if v.meta is not None and v.meta[0] == 'ptr':
            l = v.meta[1]
            if is_heap(l.root) and not l.path and len(l.idxs) == 1: return l.idxs[0]
            raise Unsupported('address of a subobject')
        return v.t

    def e_CAssign(self, st, e):
        b = self.rv(st, e['b'])
        l = self.ev(st, e['a'])
        a = self.read(st, l)
        ct = self.fr.tu.ty(e['ct'])
        lt = self.fr.tu.ty(e['lt'])
        if a.ty.k == 'ptr':
            r = self.binop(st, e['op'], a, b, a.ty)
        else:
            x = self.convert(st, a, lt)
            r = Val(ct, {(): self.arith(st, e['op'], x.t, b.t, ct)})
            r = self.convert(st, r, l.ty)
        self.write(st, l, r)
        return l

    def convert(self, st, v, t):
        if v.ty.s == t.s: return v
        return self.numcast(st, v, t)

    def numcast(self, st, v, t):
        x = v.t
        s = v.ty
        if t.k == 'bool':
            return Val(t, {(): x if x.sort().eq(B) else x != 0})
        if t.k == 'float':
            if x.sort().eq(B): return Val(t, {(): z3.If(x, z3.RealVal(1), z3.RealVal(0))})
            if x.sort().eq(R):
                if t.bits < (s.bits or 64):
                    f = z3.Function('fp.narrow', R, R)
                    return Val(t, {(): f(x)})
                return Val(t, {(): x})
            return Val(t, {(): z3.RealVal(x.as_long()) if z3.is_int_value(x) else z3.ToReal(x)})
        if t.k in ('int', 'enum'):
            if x.sort().eq(B): return Val(t, {(): z3.If(x, z3.IntVal(1), z3.IntVal(0))})
            if x.sort().eq(R):
                # truncation towards zero
                if z3.is_rational_value(x):
                    f = x.as_fraction()
                    return Val(t, {(): z3.IntVal(int(f))})
                r = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
                return Val(t, {(): self.wrapto(r, t)})
            return Val(t, {(): self.convint(x, s, t)})
        raise Unsupported('conversion %s -> %s' % (s.s, t.s))

    def wrapto(self, r, t):
        f = self.fresh(I, 'trunc')
        lo, hi = self.bounds(t)
        self.fact(z3.And(f >= lo, f <= hi, z3.Implies(z3.And(r >= lo, r <= hi), f == r)))
        return f

    def convint(self, x, s, t):
        if s.k not in ('int', 'enum'): return x
        (slo, shi), (lo, hi) = self.bounds(s), self.bounds(t)
        if lo <= slo and shi <= hi: return x
        if z3.is_int_value(x): return z3.IntVal((x.as_long() - lo) % (hi - lo + 1) + lo)
        m = 2 ** t.bits
        a, b = self.ival(x)
        if lo <= a and b <= hi: return x
        if not t.signed:
            if s.signed and s.bits <= t.bits: return z3.If(x < 0, x + m, x)
            return z3.If(z3.And(x >= lo, x <= hi), x, x % m)
        return z3.If(z3.And(x >= lo, x <= hi), x, (x - lo) % m + lo)

    def e_Un(self, st, e):
        op = e['op']
        if op in ('++', '--', 'post++', 'post--'):
            l = self.ev(st, e['e'])
            a = self.read(st, l)
            o = '+' if '++' in op else '-'
            if ('#base',) in a.d:
                r = Val(a.ty, {('#base',): a.d[('#base',)], ('#off',): a.d[('#off',)] + (1 if o == '+' else -1)})
            else:
                r = Val(a.ty, {(): self.arith(st, o, a.t, z3.IntVal(1) if a.ty.k != 'float' else z3.RealVal(1), a.ty)})
            self.write(st, l, r)
            return a if op.startswith('post') else l
        if op == '*':
            v = self.ev(st, e['e'])
            return self.deref(st, v)
        if op == '&':
            l = self.ev(st, e['e'])
            if isinstance(l, Val):
                if l.meta and l.meta[0] == 'fn': return l
                raise Unsupported('address of rvalue')
            if l.root == HEAP and l.path and l.path[0].startswith('@') and l.path[-1] == '[]' and len(l.path) == 2:
                return Val(self.ty(e), {('#base',): l.idxs[0], ('#off',): l.idxs[1]})
            return Val(self.ty(e), {}, ('ptr', l))
        a = self.rv(st, e['e'])
        t = self.ty(e)
        if op == '!': return Val(BOOL, {(): mk_not(self.tobool(st, a))})
        if op == '-':
            if t.k == 'float': return Val(t, {(): -a.t})
            if z3.is_int_value(a.t): return Val(t, {(): self.wrap(z3.IntVal(-a.t.as_long()), t)})
            return Val(t, {(): self.wrap(-a.t, t, '-')})
        if op == '+': return a
        if op == '~': raise Unsupported('~')
        raise Unsupported('unary ' + op)

    def e_Cond(self, st, e):
        c = self.cond(st, e['c'])
        if is_true(c) or is_false(c):
            self.pruned += 1
            return self.ev(st, e['a'] if is_true(c) else e['b'])
        a, b = st.copy(), st.copy()
        pa = a.pc = mk_and(st.pc, c)
        pb = b.pc = mk_and(st.pc, mk_not(c))
        isthrow_a, isthrow_b = e['a']['k'] == 'Throw', e['b']['k'] == 'Throw'
        x = self.ev(a, e['a'])
        y = self.ev(b, e['b'])
        if e.get('lv') and isinstance(x, LV) and isinstance(y, LV) and not x.same(y):
            # reference choice: only reads are supported
            if is_heap(x.root) and is_heap(y.root) and x.path == y.path:
                st.setto(self.merge2(c, a, b, st.pc if a.pc is pa and b.pc is pb else None))
                return LV(x.root, x.path, [mk_if(c, i, j) for i, j in zip(x.idxs, y.idxs)], x.ty)
        if isinstance(x, LV) and isinstance(y, LV) and x.same(y):
            r = x
        else:
            x, y = self.read(a, x), self.read(b, y)
            if isthrow_a: r = y
            elif isthrow_b: r = x
            else: r = self.mergeval(c, x, y)
        st.setto(self.merge2(c, a, b, st.pc if a.pc is pa and b.pc is pb else None)) if not (a.dead and b.dead) else setattr(st, 'pc', FALSE)
        return r

    def mergeval(self, c, x, y):
        if x is None or y is None: return x or y
        if isinstance(x, LV) and isinstance(y, LV):
            if x.same(y): return x
            if x.root == y.root and x.path == y.path:
                return LV(x.root, x.path, [mk_if(c, i, j) for i, j in zip(x.idxs, y.idxs)], x.ty)
            raise Unsupported('reference to one of two objects')
        if x.meta is not None or y.meta is not None:
            if x.meta is not None and y.meta is not None and self.same_meta(x.meta, y.meta):
                return Val(x.ty, {p: mk_if(c, x.d[p], y.d[p]) for p in x.d}, x.meta)
            if x.meta and x.meta[0] == 'str' and y.meta and y.meta[0] == 'str': return x
            if (x.meta and x.meta[0] == 'ptr') or (y.meta and y.meta[0] == 'ptr'):
                return Val(x.ty, {(): mk_if(c, self.addr(x), self.addr(y))})
            raise Unsupported('merge of python values')
        if x.d.keys() != y.d.keys():
            raise Unsupported('merge of shapes %s %s' % (x.ty.s, y.ty.s))
        return Val(x.ty, {p: mk_if(c, x.d[p], y.d[p]) for p in x.d})

    def e_Cast(self, st, e):
        ck = e['ck']
        if ck in ('LValueToRValue',):
            x = self.ev(st, e['e'])
            return self.read(st, x) if isinstance(x, LV) else x
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(st, e['e'])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived') and (self.ty(e).t if self.ty(e).k == 'ref' else self.ty(e)).s.startswith(('Eigen::', 'std::__shared_ptr', 'std::__uniq_ptr')): return self.ev(st, e['e'])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            x = self.ev(st, e['e'])
            t = self.ty(e)
            if isinstance(x, LV): return x.cast(t if t.k != 'ref' else t.t)
            if x.meta is not None and x.meta[0] == 'ptr':
                return Val(t, {}, ('ptr', x.meta[1].cast(t.t)))
            if x.ty.k == 'ptr' or x.ty.k == 'rec' and x.ty.n in PTRS: return Val(t, x.d, x.meta)
            return Val(t, x.d, x.meta)
        if ck == 'ToVoid':
            self.ev(st, e['e'])
            return Val(VOID, {})
        if ck == 'ArrayToPointerDecay':
            x = self.ev(st, e['e'])
            if isinstance(x, LV): return Val(self.ty(e), {}, ('arr', x))
            return x
        if ck == 'NullToPointer':
            t = self.ty(e)
            d = {p: z3.IntVal(0) for p, s, i in self.leaves(t)}
            return Val(t, d)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            x = self.rv(st, e['e'])
            return self.numcast(st, x, self.ty(e))
        if ck == 'PointerToBoolean':
            x = self.rv(st, e['e'])
            return Val(BOOL, {(): self.tobool(st, x)})
        if ck == 'Dynamic':
            x = self.ev(st, e['e'])
            t = self.ty(e)
            if isinstance(x, Val):
                p = self.addr(x)
                r = self.fresh(I, 'dyn')
                self.fact(z3.Or(r == 0, r == p))
                return Val(t, {(): r})
            return x.cast(t.t if t.k == 'ref' else t)
        if ck == 'BitCast':
            x = self.rv(st, e['e'])
            return Val(self.ty(e), x.d, x.meta)
        if ck == 'IntegralToPointer' or ck == 'PointerToIntegral':
            raise Unsupported(ck)
        raise Unsupported('cast ' + ck)

    def zero(self, t):
        d = {}
        for p, s, info in self.leaves(t): d[p] = self.zeroterm(s)
        if t.k == 'array': d[('#len',)] = z3.IntVal(t.cnt)
        elif t.k == 'rec' and t.n == 'std::array': d[('#len',)] = z3.IntVal(t.args[1])
        return Val(t, d)

    def zeroterm(self, s):
        if s.eq(I): return z3.IntVal(0)
        if s.eq(B): return FALSE
        if s.eq(R): return z3.RealVal(0)
        return z3.K(s.domain(), self.zeroterm(s.range()))

    def e_ZeroInit(self, st, e): return self.zero(self.ty(e))

    def e_Sizeof(self, st, e): return self.constval(self.ty(e), e.get('cv', '8'))

    def e_StdInitList(self, st, e):
        x = self.ev(st, e['e'])
        v = self.read(st, x) if isinstance(x, LV) else x
        return Val(self.ty(e), v.d, v.meta)

    def e_ArrayCopy(self, st, e): return self.rv(st, e['e'])

    def e_InitList(self, st, e):
        t = self.ty(e)
        if t.k == 'array' or (t.k == 'rec' and t.n == 'std::array'):
            if t.k == 'rec' and len(e['c']) == 1 and e['c'][0]['k'] == 'InitList':
                inner = self.e_InitList(st, e['c'][0])
                return Val(t, inner.d)
            if t.k == 'rec' and not e['c']: return self.zero(t)
            et = self.seq_elem(t)
            n = t.cnt if t.k == 'array' else t.args[1]
            d = {('#len',): z3.IntVal(n)}
            z = self.zero(t)
            for p, s, info in self.leaves(t):
                if p != ('#len',): d[p] = z.d[p]
            for i, c in enumerate(e['c']):
                v = self.rv(st, c)
                if v.meta is not None: return Val(t, {}, ('opaque',))
                for p in v.d: d[('[]',) + p] = z3.Store(d[('[]',) + p], z3.IntVal(i), v.d[p])
            return Val(t, d)
        if t.k == 'rec' and t.s in self.prog.records:
            tu, j = self.prog.records[t.s]
            d = {}
            cs = list(e['c'])
            for b in j['bases']:
                if cs:
                    v = self.rv(st, cs.pop(0))
                    d.update(v.d)
            short = strip_targs(j['n']).split('::')[-1]
            for f in j['fields']:
                ft = tu.ty(f['t'])
                if cs:
                    v = self.rv(st, cs.pop(0)) if ft.k != 'ref' else None
                else:
                    v = self.default_field(st, f, ft, tu)
                for p in v.d: d[(short + '::' + f['n'],) + p] = v.d[p]
            return Val(t, d)
        if len(e['c']) == 1: return self.ev(st, e['c'][0])
        if not e['c']: return self.zero(t)
        raise Unsupported('initializer list of ' + t.s)

    def default_field(self, st, f, ft, tu):
        if 'init' in f:
            self.frames.append(Frame(self.fr.fn, tu, dict(self.fr.env), self.fr.this))
            self.frames[-1].retty = VOID
            try:
                return self.rv(st, f['init'])
            finally:
                self.frames.pop()
        return self.zero(ft)

    def e_Lambda(self, st, e):
        env = dict(self.fr.env)
        for c in e['caps']:
            if 'id' in c and 'initcap' in c:
                self.declvar(st, c['initcap'])
                env[c['id']] = self.fr.env[c['id']]
                continue
            if 'id' in c and not c.get('byref'):
                root = self.fr.env.get(c['id'])
                if root is None: continue
                m = st.py.get(root)
                nr = self.newroot(c['n'])
                if m is not None and m[0] == 'ref':
                    v = self.read(st, m[1])
                    ty = v.ty
                elif m is not None and m[0] == 'val':
                    st.py[nr] = m
                    env[c['id']] = nr
                    continue
                else:
                    ty = self.fr.names[root][1]
                    v = self.read(st, LV(root, (), (), ty))
                self.fr.names[nr] = (c['n'], ty)
                self.write(st, LV(nr, (), (), ty), v)
                env[c['id']] = nr
        clo = Closure(e, env, self.fr.this, self.fr.tu)
        clo.names = self.fr.names
        return Val(self.ty(e), {}, ('clo', clo))

    def call_closure(self, st, clo, args, fkey=None):
        """args: list of LV/Val"""
        node = clo.node
        if 'fn' in node: j = node['fn']
        else:
            j = None
            for i in node['insts']:
                if i['key'] == fkey or len(node['insts']) == 1: j = i['fn']
            if j is None: raise Unsupported('generic lambda')
        fn = Func(clo.tu, 'lambda', j)
        fr = Frame(fn, clo.tu, dict(clo.env), clo.this)
        fr.names = dict(clo.names)
        fr.names.update(self.fr.names)
        return self.run_body(st, fn, fr, args)

    def call_callable(self, st, v, args, fkey=None):
        if isinstance(v, LV): v = self.read(st, v)
        if v.meta is None: raise Unsupported('call of unknown function object ' + v.ty.s)
        if v.meta[0] == 'clo': return self.call_closure(st, v.meta[1], args, fkey)
        if v.meta[0] == 'fn': return self.call(st, v.meta[1], None, args, vals=True)
        if v.meta[0] == 'functor': return self.models.functor(self, st, v.meta[1], args)
        raise Unsupported('call of %s' % v.meta[0])

    def e_New(self, st, e): raise Unsupported('new')
    def e_Delete(self, st, e): raise Unsupported('delete')

    def e_Throw(self, st, e):
        self.line = e.get('l') or self.line
        self.throw(st, self.fr.tu.ty(e['et']) if 'et' in e else getattr(self, 'curexc', None))
        return Val(VOID, {})

    # ---- calls
    def e_Call(self, st, e):
        if 'f' not in e:
            f = self.ev(st, e['fe'])
            return self.call_callable(st, f, [self.ev(st, a) for a in e['args']])
        return self.call(st, e['f'], None, e['args'], node=e)

    def e_MCall(self, st, e):
        o = self.ev(st, e['obj'])
        if e.get('arrow'): o = self.deref(st, o)
        return self.call(st, e['f'], o, e['args'], node=e)

    def e_OpCall(self, st, e):
        args = e['args']
        if 'f' not in e: raise Unsupported('operator call')
        if e.get('mem'):
            # assignment operators evaluate the right operand first
            if e['op'] == '=' and len(args) == 2:
                r = self.ev(st, args[1])
                o = self.ev(st, args[0])
                return self.call(st, e['f'], o, [r], node=e, vals=True)
            o = self.ev(st, args[0])
            return self.call(st, e['f'], o, args[1:], node=e)
        return self.call(st, e['f'], None, args, node=e)

    def e_Construct(self, st, e):
        t = self.ty(e)
        if self.identity(t):
            addr = self.alloc(st, t)
            lv = LV(HEAP, (), (addr,), t)
            self.construct_at(st, lv, e['f'], e['args'], self.fr.tu)
            return lv
        return self.construct(st, t, e['f'], e['args'], self.fr.tu)

    def construct(self, st, t, fkey, args, tu, vals=False):
        """value of a constructor call"""
        ctu, c = self.prog.callees[fkey]
        c = dict(c)
        if c.get('copyctor') or c.get('movector'):
            a = args[0] if vals else self.ev(st, args[0])
            if t.s in self.prog.records and fkey in self.prog.funcs and not c.get('defaulted') and self.prog.funcs[fkey].body is not None:
                return self.construct_user(st, t, fkey, [a], True)
            v = self.read(st, a) if isinstance(a, LV) else a
            if c.get('movector') and isinstance(a, LV): self.moved_from(st, a)
            return Val(t, v.d, v.meta) if v.ty.s != t.s else v
        name = strip_targs(c['n'])
        if t.s in self.prog.records:
            return self.construct_user(st, t, fkey, args, vals)
        av = args if vals else [self.ev(st, a) for a in args]
        m = self.models.ctor(self, st, t, c, av)
        if m is not None: return m
        raise Unsupported('constructor ' + c['n'])

    def construct_user(self, st, t, fkey, args, vals):
        r = self.newroot('obj')
        lv = LV(r, (), (), t)
        self.construct_at(st, lv, fkey, args, self.fr.tu, vals)
        return self.read(st, lv)

    def construct_at(self, st, lv, fkey, args, tu, vals=False):
        ctu, c = self.prog.callees[fkey]
        t = lv.ty
        if (c.get('copyctor') or c.get('movector')) and (c.get('defaulted') or fkey not in self.prog.funcs):
            a = args[0] if vals else self.ev(st, args[0])
            v = self.read(st, a) if isinstance(a, LV) else a
            self.write(st, lv, v)
            if c.get('movector') and isinstance(a, LV): self.moved_from(st, a)
            return
        f = self.prog.funcs.get(fkey)
        ct = self.find_contract(fkey, c)
        if ct is not None:
            av = args if vals else [self.ev(st, a) for a in args]
            return ct.apply(self, st, fkey, c, lv, av)
        if f is None or f.body is None:
            if c.get('defctor'):
                self.default_init(st, lv)
                return
            # constructor body not available in the extracted units
            av = args if vals else [self.ev(st, a) for a in args]
            return self.opaque(st, fkey, c, lv, av)
        av = args if vals else [self.ev(st, a) for a in args]
        self.run_ctor(st, lv, f, av)

    def default_init(self, st, lv):
        for fn, ft, fj, tu, dc in self.prog.fields(lv.ty):
            if ft.k == 'ref': continue
            if 'init' in fj: v = self.default_field(st, fj, ft, tu)
            elif ft.k == 'rec' and ft.s in self.prog.records: v = self.default_obj(st, ft)
            else: v = self.zero(ft) if ft.k == 'rec' else self.havocval(ft, 'uninit')
            self.write(st, lv.f(fn, ft), v)

    def default_obj(self, st, ft):
        r = self.newroot('def')
        l = LV(r, (), (), ft)
        # user-provided default constructor?
        for f in self.prog.funcs.values():
            if f.j.get('ctor') and f.cls is not None and f.cls.s == ft.s and not f.params:
                self.run_ctor(st, l, f, [])
                return self.read(st, l)
        self.default_init(st, l)
        return self.read(st, l)

    def run_ctor(self, st, lv, f, args):
        self.inlined.add(f.key)
        if f.key in self.callstack: raise Unsupported('recursive constructor')
        fr = Frame(f, f.tu, {}, lv)
        fr.retty = VOID
        self.frames.append(fr)
        self.callstack.append(f.key)
        try:
            for (pid, pn, pt), a in zip(f.params, args): self.pass_arg(st, pid, pn, pt, a)
            deleg = [i for i in f.j['inits'] if 'd' in i]
            if deleg:
                e = deleg[0]['e']
                self.construct_at(st, lv, e['f'], e['args'], f.tu)
            else:
                done = set()
                for i in f.j['inits']:
                    if 'b' in i:
                        bt = f.tu.ty(i['b'])
                        if bt.s not in self.prog.records: continue
                        e = i['e']
                        if e['k'] == 'Construct':
                            self.construct_at(st, lv.cast(bt), e['f'], e['args'], f.tu)
                        for fn, _, _, _, _ in self.prog.fields(bt): done.add(fn)
                tu, j = self.prog.records[lv.ty.s]
                short = strip_targs(j['n']).split('::')[-1]
                inits = {i['f']: i['e'] for i in f.j['inits'] if 'f' in i}
                for fj in j['fields']:
                    ft = tu.ty(fj['t'])
                    flv = lv.f(short + '::' + fj['n'], ft)
                    if fj['n'] in inits:
                        e = inits[fj['n']]
                        if ft.k == 'ref':
                            x = self.ev(st, e)
                            if isinstance(x, LV) and is_heap(x.root) and not x.path and len(x.idxs) == 1:
                                self.write(st, flv, Val(ft, {(): x.idxs[0]}))
                            elif isinstance(x, LV) and is_heap(x.root) and x.path == ('@' + x.ty.s,) and len(x.idxs) == 1:
                                self.write(st, flv, Val(ft, {(): x.idxs[0]}))
                            else:
                                raise Unsupported('reference member bound to a non-heap object')
                        else:
                            v = self.rv(st, e)
                            if v.ty.k == 'void': v = self.zero(ft)
                            self.write(st, flv, v)
                    elif 'init' in fj:
                        self.write(st, flv, self.rv_in(st, fj['init'], tu))
                    elif ft.k == 'rec' and ft.s in self.prog.records:
                        self.write(st, flv, self.default_obj(st, ft))
                    elif ft.k == 'rec':
                        self.write(st, flv, self.zero(ft))
                    else:
                        self.havoc_lv(st, flv, 'uninit')
            self.exec(st, f.body)
            outs = [s for s, v in fr.rets] + [st.copy()]
        finally:
            self.frames.pop()
            self.callstack.pop()
        m = self.mergeall(outs)
        if m is None: st.pc = FALSE
        else: st.setto(m)

    def rv_in(self, st, e, tu):
        fr = Frame(self.fr.fn, tu, dict(self.fr.env), self.fr.this)
        fr.retty = VOID
        fr.names = self.fr.names
        self.frames.append(fr)
        try:
            return self.rv(st, e)
        finally:
            self.frames.pop()

    def moved_from(self, st, lv):
        """effect of a move on the source object (library types: libstdc++ behaviour)"""
        t = lv.ty
        if t.k == 'rec':
            if t.n in PTRS:
                self.write(st, lv, Val(t, {(): z3.IntVal(0)}))
            elif t.n in ('std::vector', 'std::list', 'std::deque'):
                self.write_leaf(st, lv, ('#len',), z3.IntVal(0))
            elif t.n == 'Eigen::Matrix':
                self.write(st, lv, self.havocval(t, 'mv'))
            elif t.s in self.prog.records:
                for fn, ft, fj, tu, dc in self.prog.fields(t):
                    if ft.k == 'rec': self.moved_from(st, lv.f(fn, ft))
            elif t.n == 'std::pair':
                for i, n in enumerate(('first', 'second')): self.moved_from(st, lv.f(n, t.args[i]))
            elif t.n == 'std::tuple':
                for i, a in enumerate(t.args[0]): self.moved_from(st, lv.f(str(i), a))

    def find_contract(self, fkey, c):
        name = strip_targs(c['n'])
        for ct in self.contracts:
            if ct.match(self, name, fkey, c): return ct
        return None

    def call(self, st, fkey, obj, args, node=None, vals=False):
        if st.dead: return self.dummy(fkey)
        ctu, c = self.prog.callees[fkey]
        name = strip_targs(c['n'])
        ct = self.find_contract(fkey, c)
        if ct is not None:
            av = args if vals else [self.ev(st, a) for a in args]
            self.used_contracts.add(ct.name)
            return ct.apply(self, st, fkey, c, obj, av)
        f = self.prog.funcs.get(fkey)
        if c.get('assignop') and (c.get('defaulted') or f is None or f.body is None) and obj is not None and isinstance(obj, LV) and (obj.ty.k != 'rec' or obj.ty.n != 'std::_Bit_reference'):
            av = args if vals else [self.ev(st, a) for a in args]
            m = self.models.assign(self, st, obj, c, ctu, av[0])
            return m
        if f is None or f.body is None:
            m = self.models.lookup(name)
            if m is not None:
                if getattr(m, 'raw', False):
                    return m(self, st, obj, args, c, ctu, node, vals)
                av = args if vals else [self.ev(st, a) for a in args]
                if st.dead: return self.dummy(fkey)
                return m(self, st, obj, av, c, ctu)
            if obj is not None and c.get('op') == '()' :
                ov = self.read(st, obj) if isinstance(obj, LV) else obj
                if ov.meta is not None and ov.meta[0] in ('clo', 'functor', 'fn'):
                    av = args if vals else [self.ev(st, a) for a in args]
                    return self.call_callable(st, ov, av, fkey)
            av = args if vals else [self.ev(st, a) for a in args]
            if c.get('virtual') and obj is not None and isinstance(obj, LV):
                g = self.devirt(fkey, obj)
                if g is not None: return self.inline(st, g, obj, av)
            return self.opaque(st, fkey, c, obj, av)
        if obj is not None and c.get('op') == '()' and isinstance(obj, Val) and obj.meta and obj.meta[0] == 'clo':
            av = args if vals else [self.ev(st, a) for a in args]
            return self.call_callable(st, obj, av, fkey)
        av = args if vals else [self.ev(st, a) for a in args]
        if c.get('virtual') and obj is not None and not (node or {}).get('nonvirt'):
            f2 = self.devirt(fkey, obj)
            if f2 is None:
                if self.overridden(fkey): return self.opaque(st, fkey, c, obj, av)
            else:
                f = f2
        pol = self.opts.get('inline')
        if pol is not None and not pol(f):
            return self.opaque(st, fkey, c, obj, av)
        return self.inline(st, f, obj, av)

    def overridden(self, fkey):
        for f in self.prog.funcs.values():
            if fkey in f.j.get('overrides', ()): return True
        return False

    def dyn_of(self, addr):
        """dynamic type of the object at an address allocated here (null is not an object)"""
        b, o = base_off(addr)
        d = self.dyn.get((b.get_id(), o))
        if d is not None: return d[0].s
        if z3.is_app_of(addr, z3.Z3_OP_ITE):
            ts = {self.dyn_of(x) for x in addr.children()[1:] if not (z3.is_int_value(x) and x.as_long() == 0)}
            return ts.pop() if len(ts) == 1 else None
        return None

    def devirt(self, fkey, obj):
        """final overrider when the dynamic type of the object is known (objects created here or listed)"""
        dyn = self.opts.get('dyntype')
        t = None
        if isinstance(obj, LV) and is_heap(obj.root) and len(obj.path) == 0 and len(obj.idxs) == 1:
            t = self.dyn_of(obj.idxs[0])
        if t is None and dyn is not None and isinstance(obj, LV): t = dyn(self, obj)
        if t is not None:
            # the final overrider: search the class, then its bases
            for cls in [t] + self.prog.bases_of(t):
                for f in self.prog.funcs.values():
                    if f.cls is not None and f.cls.s == cls and (fkey in f.j.get('overrides', ()) or f.key == fkey): return f
        return None

    def dummy(self, fkey):
        ctu, c = self.prog.callees[fkey]
        t = ctu.ty(c['ret'])
        if t.k == 'void': return Val(VOID, {})
        if t.k == 'ref':
            return LV(self.newroot('dead'), (), (), t.t)
        try:
            return self.havocval(t)
        except Unsupported:
            return Val(t, {})

    def opaque(self, st, fkey, c, obj, av):
        if self.opaque_handler is not None:
            r = self.opaque_handler(self, st, fkey, c, obj, av)
            if r is not None: return r
        raise Unsupported('call of %s (no contract, no body)' % c['n'])

    def pass_arg(self, st, pid, pn, pt, a):
        if pt.k == 'ref':
            if isinstance(a, Val): a = self.tmp(st, a)
            root = self.newroot(pn)
            self.fr.env[pid] = root
            self.fr.names[root] = (pn, pt)
            st.py[root] = ('ref', a)
            return
        v = self.read(st, a) if isinstance(a, LV) else a
        if self.identity(pt) and isinstance(a, LV):
            root = self.newroot(pn)
            self.fr.env[pid] = root
            self.fr.names[root] = (pn, pt)
            st.py[root] = ('ref', a)
            return
        if v.meta is None and v.ty.s != pt.s: v = Val(pt, v.d, v.meta)
        self.bindvar(st, pid, pn, pt, v)

    def inline(self, st, f, obj, args):
        if f.key in self.callstack: raise Unsupported('recursion in ' + f.name)
        if len(self.callstack) > 14: raise Unsupported('inlining too deep')
        self.inlined.add(f.key)
        this = None
        if f.is_method:
            if isinstance(obj, Val):
                if obj.meta is not None: raise Unsupported('method of python value')
                obj = self.tmp(st, obj)
            this = obj.cast(f.cls) if self.prog.derives(obj.ty, f.cls) or self.prog.derives(f.cls, obj.ty) else obj
        fr = Frame(f, f.tu, {}, this)
        self.callstack.append(f.key)
        try:
            return self.run_body(st, f, fr, args)
        finally:
            self.callstack.pop()

    def run_body(self, st, f, fr, args):
        fr.retty = f.ret
        self.frames.append(fr)
        ls, self.loopstack = self.loopstack, []
        line = self.line
        entry_pc = st.pc
        try:
            for (pid, pn, pt), a in zip(f.params, args): self.pass_arg(st, pid, pn, pt, a)
            self.exec(st, f.body)
        finally:
            self.frames.pop()
            self.loopstack = ls
        self.line = line
        outs = list(fr.rets)
        if not st.dead: outs.append((st.copy(), None))
        if not outs:
            st.pc = FALSE
            return self.dummy_t(fr.retty)
        cur, cv = outs[-1]
        for s, v in reversed(outs[:-1]):
            if v is not None or cv is not None:
                cv = self.mergeval(s.pc, v, cv) if (v is not None and cv is not None) else (v or cv)
            cur = self.merge2(s.pc, s, cur)
        st.setto(cur)
        return cv if cv is not None else Val(VOID, {})

    def dummy_t(self, t):
        if t.k == 'void': return Val(VOID, {})
        if t.k == 'ref': return LV(self.newroot('dead'), (), (), t.t)
        return self.havocval(t)

    # ------------------------------------------------------------------ entry
    def start(self, f):
        """symbolic initial state and frame for verifying function f"""
        self.keyinfo, self.preamble, self.prefacts = {}, [], []
        st = State()
        A0 = z3.Const('A0', I)
        self.A0 = A0
        self.prefacts.append(A0 >= 1)
        st.store[('A', ())] = A0
        this = None
        if f.is_method or f.j.get('ctor'):
            a = z3.Const('this', I)
            self.prefacts.append(z3.And(a >= 1, a < A0))
            this = LV(HEAP, (), (a,), f.cls)
        fr = Frame(f, f.tu, {}, this)
        fr.retty = f.ret
        self.frames = [fr]
        self.top = fr
        self.params = {}
        self.paramlist = []
        for pid, pn, pt in f.params:
            root = self.newroot(pn)
            fr.env[pid] = root
            fr.names[root] = (pn, pt)
            if pt.k == 'ref':
                if self.identity(pt.t):
                    a = z3.Const('p.' + pn, I)
                    self.prefacts.append(z3.And(a >= 1, a < A0))
                    lv = LV(HEAP, (), (a,), pt.t)
                else:
                    r2 = self.newroot(pn + '&')
                    lv = LV(r2, (), (), pt.t)
                    v = self.havocval(pt.t, 'p.' + pn)
                    self.write(st, lv, v)
                st.py[root] = ('ref', lv)
            elif self.identity(pt):
                a = z3.Const('p.' + pn, I)
                self.prefacts.append(z3.And(a >= 1, a < A0))
                lv = LV(HEAP, (), (a,), pt)
                st.py[root] = ('ref', lv)
            else:
                lv = LV(root, (), (), pt)
                v = self.havocval(pt, 'p.' + pn)
                for p, s, info in self.leaves(pt):
                    if info == 'ptr' and s.eq(I): self.fact(v.d[p] < A0)
                self.write(st, lv, v)
            self.params[pn] = lv
            self.paramlist.append(lv)
        self.pre = st.copy()
        return st

    def finish(self, st, f):
        """run the body; returns list of (state, value) for normal exits and list of exceptional exits"""
        self.callstack = [f.key]
        if f.j.get('ctor'):
            this = self.top.this
            self.callstack = []
            av = [self.pre.py[self.top.env[pid]][1] if self.top.env[pid] in self.pre.py and self.pre.py[self.top.env[pid]][0] == 'ref' else self.read(st, LV(self.top.env[pid], (), (), pt)) for pid, pn, pt in f.params]
            self.run_ctor(st, this, f, av)
            outs = [] if st.dead else [(st, None)]
            return outs, self.exc_sink
        self.exec(st, f.body)
        outs = list(self.top.rets)
        if not st.dead: outs.append((st.copy(), None))
        return outs, self.exc_sink

    # ------------------------------------------------------------------ ghost variables
    def gget(self, st, name): return st.store[('G', (name,))]

    def gset(self, st, name, t):
        st.store[('G', (name,))] = t
        if self.wlog is not None: self.wlog.append((('G', (name,)), None, None, None))

    def allfacts(self, n):
        out = list(self.axioms.values()) + list(self.prefacts)
        for f in self.facts[:n]:
            if isinstance(f, Slot): out.extend(f)
            else: out.append(f)
        return out
