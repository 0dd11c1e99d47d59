"""Contracts: views on states for writing specifications, function contracts, verification of one function."""
import z3, time, traceback
from .core import *
from . import engine as E
from .engine import Eng
from . import solve as S


class V:
    """read-only view of an object in a state, for specifications"""

    def __init__(self, eng, st, lv):
        self.__dict__.update(_e=eng, _s=st, _l=lv)

    @property
    def ty(self): return self._l.ty

    def leaf(self, p=()):
        if isinstance(self._l, Val): return self._l.d[p]
        return self._e.read_leaf(self._s, self._l, p)

    @property
    def t(self): return self.leaf()

    @property
    def len(self):
        if self.ty.k == 'ref': return self.obj.len
        if isinstance(self._l, Val): return self._l.d[('#len',)]
        return self._e.seqlen(self._s, self._l)

    @property
    def rows(self): return self.leaf(('#rows',))

    @property
    def cols(self): return self.leaf(('#cols',))

    @property
    def has(self): return self.leaf(('#has',))

    @property
    def opt(self): return self._sub('*', self.ty.args[0])

    @property
    def obj(self):
        """pointee of a pointer/reference field"""
        v = self._e.read(self._s, self._l) if isinstance(self._l, LV) else self._l
        t = v.ty
        et = t.args[0] if t.k == 'rec' else t.t
        return V(self._e, self._s, self._e.heaplv(v.t, et))

    def as_(self, ty):
        return V(self._e, self._s, self._l.cast(ty))

    def at(self, addr, ty): return V(self._e, self._s, self._e.heaplv(addr, ty))

    def dom(self, k): return z3.Select(self.leaf(('#dom',)), k)

    def mapval(self, k): return V(self._e, self._s, self._l.i(k, self.ty.args[1], '{}'))

    def in_(self, st): return V(self._e, st, self._l)

    def _sub(self, n, t):
        if isinstance(self._l, Val):
            return V(self._e, self._s, Val(t, {p[1:]: x for p, x in self._l.d.items() if p[:1] == (n,)}))
        return V(self._e, self._s, self._l.f(n, t))

    def __getattr__(self, n):
        t = self.ty
        if t.k == 'rec' and t.n == 'std::pair' and n in ('first', 'second'):
            return self._sub(n, t.args[0 if n == 'first' else 1])
        if t.k == 'rec' and t.n == 'std::tuple' and n[0] == '_':
            return self._sub(n[1:], t.args[0][int(n[1:])])
        if t.k == 'ref': return getattr(self.obj, n)
        fn, ft = self._e.fieldty(t, n)
        return self._sub(fn, ft)

    def f(self, n): return self.__getattr__(n)

    def __getitem__(self, i):
        if isinstance(i, int): i = z3.IntVal(i)
        t = self.ty
        if t.k == 'ref': return self.obj[i]
        if t.k == 'rec' and t.n == 'Eigen::Matrix':
            r, c = i
            if isinstance(self._l, Val):
                return V(self._e, self._s, Val(t.args[0], {p[2:]: sel(sel(x, r), c) for p, x in self._l.d.items() if p[:2] == ('[]', '[]')}))
            l = LV(self._l.root, self._l.path + ('[]', '[]'), self._l.idxs + (r, c), t.args[0])
            return V(self._e, self._s, l)
        et = self._e.seq_elem(t)
        if isinstance(self._l, Val):
            return V(self._e, self._s, Val(et, {p[1:]: sel(x, i) for p, x in self._l.d.items() if p[:1] == ('[]',)}))
        return V(self._e, self._s, self._l.i(i, et))

    def leaves(self):
        """{path: term} of a value"""
        v = self._e.read(self._s, self._l) if isinstance(self._l, LV) else self._l
        return v.d


def veq(a, b):
    """equality of two views as abstract values (sequences compared on their elements only)"""
    return deq(a._e, a.ty, a.leaves(), b.leaves())


def deq(eng, t, x, y):
    out = []
    if eng.is_seq(t):
        n = x[('#len',)]
        out.append(mk_eq(n, y[('#len',)]))
        k = z3.Const('k!%d' % deq_depth(x), I)
        et = eng.seq_elem(t)
        ex = {p[1:]: sel(v, k) for p, v in x.items() if p[:1] == ('[]',)}
        ey = {p[1:]: sel(v, k) for p, v in y.items() if p[:1] == ('[]',)}
        if all(x[p].eq(y[p]) for p in x if p[:1] == ('[]',)): return mk_and(*out)
        body = deq(eng, et, ex, ey)
        out.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), body)))
        return mk_and(*out)
    if t.k == 'rec' and t.n == 'Eigen::Matrix':
        r, c = z3.Ints('k!r k!c')
        out += [mk_eq(x[('#rows',)], y[('#rows',)]), mk_eq(x[('#cols',)], y[('#cols',)])]
        ex = {p[2:]: sel(sel(v, r), c) for p, v in x.items() if p[:2] == ('[]', '[]')}
        ey = {p[2:]: sel(sel(v, r), c) for p, v in y.items() if p[:2] == ('[]', '[]')}
        out.append(z3.ForAll([r, c], z3.Implies(z3.And(r >= 0, r < x[('#rows',)], c >= 0, c < x[('#cols',)]), deq(eng, t.args[0], ex, ey))))
        return mk_and(*out)
    if t.k == 'rec' and t.s in eng.prog.records:
        for fn, ft, fj, tu, dc in eng.prog.fields(t):
            out.append(deq(eng, ft, {p[1:]: v for p, v in x.items() if p[:1] == (fn,)}, {p[1:]: v for p, v in y.items() if p[:1] == (fn,)}))
        return mk_and(*out)
    if t.k == 'rec' and t.n == 'std::pair':
        for fn, ft in zip(('first', 'second'), t.args):
            out.append(deq(eng, ft, {p[1:]: v for p, v in x.items() if p[:1] == (fn,)}, {p[1:]: v for p, v in y.items() if p[:1] == (fn,)}))
        return mk_and(*out)
    return mk_and(*[mk_eq(x[p], y[p]) for p in x])


def deq_depth(x):
    for p, v in x.items():
        if p[:1] == ('[]',):
            d, s = 0, v.sort()
            while s.kind() == z3.Z3_ARRAY_SORT:
                d, s = d + 1, s.range()
            return d
    return 0


class Ctx:
    """what a contract sees"""

    def __init__(self, eng, pre, post, this, args, ret=None, fn=None):
        self.eng, self.pre, self.post, self._this, self._args, self._ret = eng, pre, post, this, args, ret
        self.exc = None

    @property
    def old(self): return V(self.eng, self.pre, self._this)

    @property
    def new(self): return V(self.eng, self.post, self._this)

    @property
    def addr(self): return self._this.idxs[0]

    def arg(self, i): return V(self.eng, self.pre, self._args[i])

    def argnew(self, i): return V(self.eng, self.post, self._args[i])

    @property
    def res(self): return V(self.eng, self.post, self._ret)

    def oldat(self, addr, ty): return V(self.eng, self.pre, self.eng.heaplv(addr, ty))

    def newat(self, addr, ty): return V(self.eng, self.post, self.eng.heaplv(addr, ty))

    def ty(self, s):
        t = Ty._intern.get(s)
        if t is None:
            for tu in self.eng.prog.tus:
                for tid, j in (enumerate(tu.d['types']) if isinstance(tu.d['types'], list) else tu.d['types'].items()):
                    if j.get('s') == s or j.get('n') == s and j.get('k') == 'rec': t = tu.ty(tid)
                    if t is not None and t.s == s: return t
            raise Unsupported('type ' + s)
        return t

    def g(self, name, st=None):
        return (st or self.post).store[('G', (name,))]

    def gold(self, name): return self.pre.store[('G', (name,))]

    @property
    def A0(self): return self.pre.store[('A', ())]


class Contract:
    """contract of one function (all overloads selected by `params`)"""

    def __init__(self, name, cname, params=None, requires=None, ensures=None, modifies=None, throws=None, ghost=None, cls=None,
                 loop_inv=None, opts=None, trusted=False, exc_ensures=None, nothrow=False, only_call=False, cover=True, extra=None, effect=None, title=None, sel=None, frame=True, lemmas=None):
        self.name, self.cname, self.params = name, cname, params
        self.requires, self.ensures, self.modifies, self.throws = requires, ensures, modifies, throws
        self.ghost, self.cls, self.loop_inv, self.opts = ghost or {}, cls, loop_inv, opts or {}
        self.trusted, self.exc_ensures, self.nothrow = trusted, exc_ensures, nothrow
        self.only_call, self.extra, self.effect = only_call, extra, effect
        self.sel = sel
        self.frame = frame
        self.active = True

    # ---- use at call sites
    def match(self, eng, name, fkey, c):
        if name != self.cname or not self.active: return False
        if getattr(eng, 'verifying', None) is self and not self.opts.get('rec'): return False     # rec: a recursive call is taken by its contract (partial correctness)
        if self.params is not None:
            tu = eng.prog.callees[fkey][0]
            ps = [tu.ty(p).s for p in c['params']]
            if len(ps) != len(self.params) or not all(x in p for x, p in zip(self.params, ps)): return False
        if self.sel is not None and not self.sel(eng, fkey, c): return False
        return True

    def apply(self, eng, st, fkey, c, obj, args):
        eng.used_contracts.add(self.name)
        if isinstance(obj, Val): obj = eng.tmp(st, obj)
        tu = eng.prog.callees[fkey][0]
        rt = tu.ty(c['ret'])
        pts = [tu.ty(p) for p in c['params']]
        av = []
        for a, pt in zip(args, pts):
            if isinstance(a, LV) and pt.k != 'ref' and not eng.identity(pt): a = eng.read(st, a)
            av.append(a)
        if self.effect is not None:
            return self.effect(eng, st, obj, av, c, tu)
        pre = st.copy()
        ctx = Ctx(eng, pre, st, obj, av)
        if self.requires:
            for n, g in items(self.requires(ctx)):
                eng.prove(st, g, 'precondition %s of %s' % (n, self.name), 'pre')
        if not self.nothrow:
            b = eng.fresh(B, 'throws')
            bad = st.copy()
            bad.pc = mk_and(st.pc, b)
            if self.modifies:
                for lv in self.modifies(ctx): eng.havoc_lv(bad, lv, 'x')
            elif self.modifies is None: eng.havoc_all(bad)
            if self.exc_ensures:
                cx = Ctx(eng, pre, bad, obj, av)
                for n, g in items(self.exc_ensures(cx)): eng.assume(bad, g)
            eng.throw(bad, ctx.ty(self.throws) if self.throws else None)
            st.pc = mk_and(st.pc, mk_not(b))
        if self.modifies:
            for lv in self.modifies(ctx): eng.havoc_lv(st, lv, 'm')
        elif self.modifies is None: eng.havoc_all(st)
        a0 = st.store[('A', ())]
        a1 = eng.fresh(I, 'A')
        eng.fact(a1 >= a0)
        st.store[('A', ())] = a1
        ret = None
        if rt.k == 'ref':
            if self.extra is None: raise Unsupported('contract %s returns a reference' % self.name)
            ret = self.extra(ctx)
        elif rt.k != 'void': ret = eng.havocval(rt, 'r')
        ctx._ret = ret
        ctx.result_raw = ret
        if self.ensures:
            for n, g in items(self.ensures(ctx)): eng.assume(st, g)
        cut = eng.opts.get('cuts', {}).get(self.name)
        if cut:      # intermediate assertions of the function under verification, after this call
            for n, g in items(cut(eng.ctx0, pre, st)):
                eng.prove(st, g, 'assertion %s after %s' % (n, self.name), 'pre')
                eng.assume(st, g)
        return ret if ret is not None else Val(VOID, {})

    # ---- verification
    def targets(self, prog):
        fs = prog.find(self.cname, params=self.params)
        fs = [f for f in fs if f.body is not None]
        if self.cls: fs = [f for f in fs if f.cls is not None and self.cls in f.cls.s]
        return fs

    def verify(self, prog, contracts, f, tmo=10.0, common=None):
        opts = dict(self.opts)
        eng = Eng(prog, contracts, opts=opts)
        eng.verifying = self
        eng.opaque_handler = opts.get('opaque')
        eng.contract = self
        st = eng.start(f)
        for g, s in self.ghost.items():
            st.store[('G', (g,))] = z3.Const('G.' + g, s)
        if opts.get('arrays'):      # pointer parameters and fields point at the first element of an array
            for k in list(st.store):
                if k[1][-1:] == ('#off',) and not is_heap(k[0]): st.store[k] = z3.IntVal(0)
        for i in opts.get('null', ()):      # pointer parameters verified for null only (the precondition says so)
            lv = eng.paramlist[i]
            for k in list(st.store):
                if k[0] == lv.root and k[1] == lv.path: st.store[k] = z3.IntVal(0)
        pre = st.copy()
        eng.pre = pre
        ctx = Ctx(eng, pre, st, eng.top.this, eng.paramlist)
        eng.ctx0 = ctx
        if self.requires:
            for n, g in items(self.requires(ctx)): eng.fact(g)
        eng.prove(st, TRUE, 'precondition satisfiable', 'cover')
        if self.loop_inv: eng.loop_inv = lambda L: self.loop_inv(ctx, L)
        outs, excs = eng.finish(st, f)
        nret = 0
        for s, v in outs:
            c2 = Ctx(eng, pre, s, eng.top.this, eng.paramlist, v)
            eng.frames = [eng.top]
            if self.ensures:
                for n, g in items(self.ensures(c2)):
                    eng.prove(s, g, 'postcondition %s' % n, 'post')
            nret += 1
            if self.frame and self.modifies is not None: self.prove_frame(eng, pre, s, c2)
        anynormal = mk_or(*[s.pc for s, v in outs]) if outs else FALSE
        if outs:
            m = State(anynormal)
            eng.prove(m, TRUE, 'normal exit reachable', 'cover')
        for s, ety in excs:
            c2 = Ctx(eng, pre, s, eng.top.this, eng.paramlist, None)
            c2.exc = ety
            if self.nothrow:
                eng.prove(s, FALSE, 'no exception (%s)' % (ety.n if ety else 'unknown'), 'nothrow')
            elif self.exc_ensures:
                for n, g in items(self.exc_ensures(c2)): eng.prove(s, g, 'exceptional postcondition %s' % n, 'post')
            if self.throws and not self.nothrow: eng.prove(s, z3.BoolVal(ety is not None and ety.n == self.throws), 'the exception is a %s' % self.throws, 'post')
        if self.throws and excs:
            eng.prove(State(mk_or(*[s.pc for s, e in excs])), TRUE, 'exceptional exit reachable', 'cover')
        return eng

    def prove_frame(self, eng, pre, s, ctx):
        allowed = {}
        for lv in (self.modifies(ctx) or []):
            for key, sort, info, p in eng.leafkeys(lv):
                allowed.setdefault(key, []).append(lv.idxs[0] if is_heap(lv.root) else True)
        if s.epoch != pre.epoch:
            eng.prove(s, FALSE, 'frame: unknown callee may modify memory', 'frame')
        for key, t in s.store.items():
            root = key[0]
            if root in ('A', 'G'): continue
            if is_heap(root):
                t0 = eng.get(pre, key, *eng.keyinfo[key])
                if t.eq(t0): continue
                al = [a for a in allowed.get(key, []) if a is not True]
                # peel stores at permitted or newly allocated addresses
                u = t
                while z3.is_app_of(u, z3.Z3_OP_STORE) and (any(u.arg(1).eq(a) for a in al) or eng.alloc_addr(u.arg(1), pre)): u = u.arg(0)
                if u.eq(t0): continue
                a = z3.Const('a!fr', I)
                g = z3.ForAll([a], z3.Implies(z3.And(a >= 1, a < eng.A0, *[a != x for x in al]), sel(t, a) == sel(t0, a)))
                eng.prove(s, g, 'frame %s' % '.'.join(key[1]), 'frame')
            elif isinstance(root, tuple) and root[0] == 'g':
                t0 = eng.get(pre, key, *eng.keyinfo[key])
                if t.eq(t0) or key in allowed: continue
                if root[1].startswith('static.'): continue    # function-local static
                eng.prove(s, t == t0, 'frame global %s%s' % (root[1], key[1]), 'frame')
        for lv in eng.paramlist:
            if is_heap(lv.root): continue
            for key, sort, info, p in eng.leafkeys(lv):
                if key in allowed or key not in s.store or key not in pre.store: continue
                if s.store[key].eq(pre.store[key]): continue
                if lv.root in eng.top.env.values(): continue    # by-value parameter
                eng.prove(s, s.store[key] == pre.store[key], 'frame parameter %s' % (key,), 'frame')


def items(x):
    if x is None: return []
    if isinstance(x, dict): return list(x.items())
    if isinstance(x, list): return [('%d' % i, g) for i, g in enumerate(x)] if x and not isinstance(x[0], tuple) else x
    return [('', x)]


def forall(n, lo_hi, body, pat=None):
    """forall k in [lo,hi): body(k)"""
    lo, hi = lo_hi
    k = z3.Const('k!' + n, I)
    b = body(k)
    return z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), b), patterns=[p for p in (pat(k) if pat else []) if haspat(p, k) and E.okpat(p)])
