"""Models of the C++ standard library operations used by the code under verification.
These are trusted: they state the documented (libstdc++) behaviour of each operation."""
import z3
from .core import *
from . import engine as E

M = {}
USED = set()


def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d


def raw(f):
    f.raw = True
    return f


def lookup(name):
    m = M.get(name)
    if m is not None:
        USED.add(name)
        return m
    if 'iterator' in name:
        op = name.split('operator')[-1] if 'operator' in name else None
        if op is not None and ('iterop' + op) in M: return M['iterop' + op]
    return None


def seqs(op):
    return ['std::%s::%s' % (c, op) for c in ('vector', 'list', 'deque', 'array', 'span', 'initializer_list', 'basic_string')]


def need_lv(eng, st, o):
    return o if isinstance(o, LV) else eng.tmp(st, o)


def val(eng, st, x): return eng.read(st, x) if isinstance(x, LV) else x


def setlen(eng, st, o, n): eng.write_leaf(st, o, ('#len',), n)


def elem(eng, o, i): return o.i(i, eng.seq_elem(o.ty))


def fresharr(eng, st, o, defn, hint='S'):
    """give the element leaves of sequence o new contents: defn(path, old array, k) -> value"""
    for key, sort, info, p in eng.leafkeys(o):
        if p[:1] != ('[]',): continue
        old = sel_n(eng.get(st, key, sort, info), o.idxs)
        new = eng.fresh(old.sort(), hint)
        eng.typefact(new, old.sort(), info)
        k = z3.Const('k!s', I)
        eng.fact(z3.ForAll([k], z3.Select(new, k) == defn(p[1:], old, k), patterns=[z3.Select(new, k)]))
        eng.write_leaf(st, o, p, new)


def iterval(eng, st, o, i, ty):
    return Val(ty, {('#idx',): i}, ('iter', o))


def isiter(v): return isinstance(v, Val) and v.meta is not None and v.meta[0] == 'iter'


@model(*seqs('size'), 'std::size', 'std::ssize', 'std::ranges::__size_fn::operator()', 'std::_cust_size::operator()')
def _(eng, st, o, a, c, tu):
    o = o if o is not None and not (o.ty.k == 'rec' and '_fn' in (o.ty.n or '')) else a[0]
    o = need_lv(eng, st, o)
    if not eng.is_seq(o.ty): raise Unsupported('size of ' + o.ty.s)
    return Val(tu.ty(c['ret']), {(): eng.seqlen(st, o)})


@model(*seqs('empty'), 'std::empty')
def _(eng, st, o, a, c, tu):
    o = need_lv(eng, st, o if o is not None else a[0])
    if not eng.is_seq(o.ty): return Val(BOOL, {(): eng.fresh(B, 'empty')})
    return Val(BOOL, {(): mk_eq(eng.seqlen(st, o), z3.IntVal(0))})


@model(*seqs('reserve'), *seqs('shrink_to_fit'))
def _(eng, st, o, a, c, tu): return Val(VOID, {})


@model(*seqs('capacity'))
def _(eng, st, o, a, c, tu):
    r = eng.fresh(I, 'cap')
    eng.fact(r >= eng.seqlen(st, o))
    return Val(tu.ty(c['ret']), {(): r})


def bounds_ob(eng, st, o, i, what):
    if eng.opts.get('safety'):
        eng.prove(st, z3.And(i >= 0, i < eng.seqlen(st, o)), 'index-in-range ' + what, 'safety')


@model(*seqs('operator[]'))
def _(eng, st, o, a, c, tu):
    i = val(eng, st, a[0]).t
    o = need_lv(eng, st, o)
    bounds_ob(eng, st, o, i, '[]')
    return elem(eng, o, i)


@model(*seqs('at'))
def _(eng, st, o, a, c, tu):
    i = val(eng, st, a[0]).t
    o = need_lv(eng, st, o)
    bad = st.copy()
    ok = mk_and(i >= 0, i < eng.seqlen(st, o))
    bad.pc = mk_and(st.pc, mk_not(ok))
    eng.throw(bad, std_exc(eng, 'std::out_of_range'))
    st.pc = mk_and(st.pc, ok)
    return elem(eng, o, i)


_exc = {}


def std_exc(eng, n):
    if n not in _exc:
        from .prog import _mk
        _exc[n] = _mk(k='rec', s=n, n=n, args=[])
    return _exc[n]


@model(*seqs('front'))
def _(eng, st, o, a, c, tu):
    bounds_ob(eng, st, o, z3.IntVal(0), 'front')
    return elem(eng, o, z3.IntVal(0))


@model(*seqs('back'))
def _(eng, st, o, a, c, tu):
    n = eng.subi(eng.seqlen(st, o), z3.IntVal(1))
    bounds_ob(eng, st, o, n, 'back')
    return elem(eng, o, n)


@model(*seqs('clear'))
def _(eng, st, o, a, c, tu):
    setlen(eng, st, o, z3.IntVal(0))
    return Val(VOID, {})


def append(eng, st, o, v):
    n = eng.seqlen(st, o)
    eng.write(st, elem(eng, o, n), v)
    setlen(eng, st, o, eng.addi(n, z3.IntVal(1)))
    eng.assume(st, n < MAXLEN)      # container sizes stay below the stated bound


@model(*seqs('push_back'))
def _(eng, st, o, a, c, tu):
    v = val(eng, st, a[0])
    if isinstance(a[0], LV) and tu.ty(c['params'][0]).rv: eng.moved_from(st, a[0])
    append(eng, st, o, v)
    return Val(VOID, {})


def make(eng, st, t, args):
    """construct a T from arguments (emplace)"""
    if len(args) == 1:
        a = args[0]
        at = a.ty
        if at.s == t.s:
            v = val(eng, st, a)
            return v
    if not args:
        if t.k == 'rec' and t.s in eng.prog.records: return eng.default_obj(st, t)
        return eng.zero(t)
    if t.k in E.SCALAR:
        v = val(eng, st, args[0])
        return eng.numcast(st, v, t) if v.ty.s != t.s else v
    if t.k == 'rec' and t.s in eng.prog.records:
        cands = [f for f in eng.prog.funcs.values() if f.j.get('ctor') and f.cls.s == t.s and len(f.params) == len(args)]
        good = [f for f in cands if all(ctor_ok(eng, p[2], a) for p, a in zip(f.params, args))]
        if len(good) > 1:
            g2 = [f for f in good if all((p[2].t if p[2].k == 'ref' else p[2]).s == a.ty.s for p, a in zip(f.params, args))]
            if g2: good = g2
        if len(good) >= 1:
            return eng.construct_user(st, t, good[0].key, conv_args(eng, st, good[0], args), True)
        # aggregate
        fs = eng.prog.fields(t)
        if not cands and len(fs) >= len(args):
            d = {}
            for i, (fn, ft, fj, tu, dc) in enumerate(fs):
                v = make(eng, st, ft, [args[i]]) if i < len(args) else eng.default_field(st, fj, ft, tu)
                for p in v.d: d[(fn,) + p] = v.d[p]
            return Val(t, d)
        raise Unsupported('emplace of ' + t.s)
    m = ctor(eng, st, t, {'n': t.n, 'params': []}, list(args))
    if m is None: raise Unsupported('emplace of ' + t.s)
    return m


def conv_args(eng, st, f, args):
    out = []
    for (pid, pn, pt), a in zip(f.params, args):
        if pt.k in E.SCALAR and a.ty.s != pt.s: a = eng.numcast(st, val(eng, st, a), pt)
        out.append(a)
    return out


def ctor_ok(eng, pt, a):
    if pt.k == 'ref': pt = pt.t
    at = a.ty
    if pt.s == at.s: return True
    if pt.k in ('int', 'float', 'bool') and at.k in ('int', 'float', 'bool', 'enum'): return True
    if pt.k == 'rec' and at.k == 'rec':
        if pt.n in E.PTRS and at.n in E.PTRS: return True
        return eng.prog.derives(at, pt)
    if pt.k == 'ptr' and at.k == 'ptr': return True
    return False


@model(*seqs('emplace_back'))
def _(eng, st, o, a, c, tu):
    et = eng.seq_elem(o.ty)
    move = []
    ps = [tu.ty(p) for p in c['params']]
    v = make(eng, st, et, a)
    for x, p in zip(a, ps):
        if isinstance(x, LV) and p.k == 'ref' and p.rv: move.append(x)
    if len(a) == 1 and isinstance(a[0], LV) and a[0].ty.s == et.s:
        for x in move: eng.moved_from(st, x)
    elif move:
        for x in move:
            if x.ty.k == 'rec' and x.ty.n in E.PTRS: eng.moved_from(st, x)
    n = eng.seqlen(st, o)
    append(eng, st, o, v)
    return elem(eng, o, n)


@model(*seqs('pop_back'))
def _(eng, st, o, a, c, tu):
    n = eng.seqlen(st, o)
    bounds_ob(eng, st, o, eng.subi(n, z3.IntVal(1)), 'pop_back')
    setlen(eng, st, o, eng.subi(n, z3.IntVal(1)))
    return Val(VOID, {})


@model(*seqs('pop_front'))
def _(eng, st, o, a, c, tu):
    n = eng.seqlen(st, o)
    bounds_ob(eng, st, o, eng.subi(n, z3.IntVal(1)), 'pop_front')
    fresharr(eng, st, o, lambda p, old, k: z3.Select(old, k + 1))
    setlen(eng, st, o, eng.subi(n, z3.IntVal(1)))
    return Val(VOID, {})


@model(*seqs('push_front'), *seqs('emplace_front'))
def _(eng, st, o, a, c, tu):
    v = make(eng, st, eng.seq_elem(o.ty), a)
    n = eng.seqlen(st, o)
    fresharr(eng, st, o, lambda p, old, k: z3.If(k == 0, v.d[p], z3.Select(old, k - 1)))
    setlen(eng, st, o, eng.addi(n, z3.IntVal(1)))
    return Val(VOID, {})


@model(*seqs('resize'))
def _(eng, st, o, a, c, tu):
    n = val(eng, st, a[0]).t
    et = eng.seq_elem(o.ty)
    v = val(eng, st, a[1]) if len(a) > 1 else make(eng, st, et, [])
    old_n = eng.seqlen(st, o)
    if iconst(old_n) == 0:
        for p, s, info in eng.leaves(o.ty):
            if p[:1] == ('[]',): eng.write_leaf(st, o, p, z3.K(I, v.d[p[1:]]))
    else:
        fresharr(eng, st, o, lambda p, old, k: z3.If(k < old_n, z3.Select(old, k), v.d[p]))
    setlen(eng, st, o, n)
    eng.assume(st, n <= MAXLEN)
    return Val(VOID, {})


@model(*seqs('assign'))
def _(eng, st, o, a, c, tu):
    if isiter(a[0]):
        copyrange(eng, st, o, a[0], a[1])
    else:
        n, v = val(eng, st, a[0]).t, val(eng, st, a[1])
        for p, s, info in eng.leaves(o.ty):
            if p[:1] == ('[]',): eng.write_leaf(st, o, p, z3.K(I, v.d[p[1:]]))
        setlen(eng, st, o, n)
    return Val(VOID, {})


def copyrange(eng, st, o, f, l):
    v = rangeval(eng, st, o.ty, f, l)
    eng.write(st, o, v)


def rangeval(eng, st, ty, f, l):
    if isinstance(f, LV): f = eng.read(st, f)
    if isinstance(l, LV): l = eng.read(st, l)
    if not (isiter(f) and isiter(l)): raise Unsupported('range of non-iterators')
    src = f.meta[1]
    lo, hi = f.d[('#idx',)], l.d[('#idx',)]
    d = {('#len',): eng.subi(hi, lo)}
    s = eng.read(st, src)
    for p, so, info in eng.leaves(ty):
        if p[:1] == ('[]',):
            if iconst(lo) == 0: d[p] = s.d[p]
            else:
                new = eng.fresh(so, 'S')
                eng.typefact(new, so, info)
                k = z3.Const('k!s', I)
                eng.fact(z3.ForAll([k], z3.Select(new, k) == z3.Select(s.d[p], k + lo), patterns=[z3.Select(new, k)]))
                d[p] = new
    return Val(ty, d)


@model(*seqs('begin'), *seqs('cbegin'), 'std::begin', 'std::cbegin')
def _(eng, st, o, a, c, tu):
    o = need_lv(eng, st, o if o is not None else a[0])
    if not eng.is_seq(o.ty): raise Unsupported('begin of ' + o.ty.s)
    return iterval(eng, st, o, z3.IntVal(0), tu.ty(c['ret']))


@model(*seqs('end'), *seqs('cend'), 'std::end', 'std::cend')
def _(eng, st, o, a, c, tu):
    o = need_lv(eng, st, o if o is not None else a[0])
    if not eng.is_seq(o.ty): raise Unsupported('end of ' + o.ty.s)
    return iterval(eng, st, o, eng.seqlen(st, o), tu.ty(c['ret']))


@model(*seqs('data'))
def _(eng, st, o, a, c, tu):
    return Val(tu.ty(c['ret']), {}, ('arr', o))


def itv(eng, st, x):
    v = val(eng, st, x)
    if not isiter(v): raise Unsupported('iterator operation on ' + v.ty.s)
    return v


@model('iterop*')
def _(eng, st, o, a, c, tu):
    v = itv(eng, st, o if o is not None else a[0])
    return elem(eng, v.meta[1], v.d[('#idx',)])


@model('iterop->')
def _(eng, st, o, a, c, tu):
    v = itv(eng, st, o if o is not None else a[0])
    l = elem(eng, v.meta[1], v.d[('#idx',)])
    return Val(tu.ty(c['ret']), {}, ('ptr', l))


@model('iterop[]')
def _(eng, st, o, a, c, tu):
    v = itv(eng, st, o)
    return elem(eng, v.meta[1], eng.addi(v.d[('#idx',)], val(eng, st, a[0]).t))


@model('iterop++')
def _(eng, st, o, a, c, tu):
    v = itv(eng, st, o)
    eng.write(st, o, Val(v.ty, {('#idx',): eng.addi(v.d[('#idx',)], z3.IntVal(1))}, v.meta))
    return v if a else o


@model('iterop--')
def _(eng, st, o, a, c, tu):
    v = itv(eng, st, o)
    eng.write(st, o, Val(v.ty, {('#idx',): eng.addi(v.d[('#idx',)], z3.IntVal(-1))}, v.meta))
    return v if a else o


@model('iterop+', 'iterop+=')
def _(eng, st, o, a, c, tu):
    v = itv(eng, st, o)
    r = Val(v.ty, {('#idx',): eng.addi(v.d[('#idx',)], val(eng, st, a[0]).t)}, v.meta)
    if c.get('op') == '+=':
        eng.write(st, o, r)
        return o
    return r


@model('iterop-', 'iterop-=')
def _(eng, st, o, a, c, tu):
    v = itv(eng, st, o if o is not None else a[0])
    w = val(eng, st, a[-1])
    if isiter(w): return Val(tu.ty(c['ret']), {(): eng.subi(v.d[('#idx',)], w.d[('#idx',)])})
    r = Val(v.ty, {('#idx',): eng.subi(v.d[('#idx',)], w.t)}, v.meta)
    if c.get('op') == '-=':
        eng.write(st, o, r)
        return o
    return r


@model('std::next', 'std::prev')
def _(eng, st, o, a, c, tu):
    v = itv(eng, st, a[0])
    d = val(eng, st, a[1]).t if len(a) > 1 else z3.IntVal(1)
    return Val(v.ty, {('#idx',): eng.addi(v.d[('#idx',)], d) if c['n'].startswith('std::next') else eng.subi(v.d[('#idx',)], d)}, v.meta)


@model('std::distance')
def _(eng, st, o, a, c, tu):
    f, l = itv(eng, st, a[0]), itv(eng, st, a[1])
    return Val(tu.ty(c['ret']), {(): eng.subi(l.d[('#idx',)], f.d[('#idx',)])})


def cmpop(op):
    def f(eng, st, o, a, c, tu):
        xs = ([o] if o is not None else []) + list(a)
        x, y = val(eng, st, xs[0]), val(eng, st, xs[1])
        if isiter(x) and isiter(y): return Val(BOOL, {(): eng.compare(st, op, x, y)})
        for u in (x, y):
            if u.ty.k == 'rec' and u.ty.n in E.PTRS and u.meta is None:
                return Val(BOOL, {(): eng.compare(st, op, ptrish(x), ptrish(y))})
        if x.meta and x.meta[0] == 'miter':
            return mitercmp(eng, st, op, x, y)
        if x.ty.k == 'rec' and x.ty.n in ('std::vector', 'std::list') and op in ('==', '!='):
            e = seq_eq(eng, x, y)
            return Val(BOOL, {(): e if op == '==' else mk_not(e)})
        if x.ty.k == 'rec' and x.ty.n == 'std::pair' and op in ('==', '!='):
            e = mk_and(*[mk_eq(x.d[p], y.d[p]) for p in x.d])
            return Val(BOOL, {(): e if op == '==' else mk_not(e)})
        if x.ty.k == 'rec' and x.ty.n == 'std::basic_string': return Val(BOOL, {(): eng.fresh(B, 'streq')})
        raise Unsupported('operator%s on %s' % (op, x.ty.s))
    return f


def ptrish(v):
    if v.ty.k == 'rec' and v.ty.n not in E.PTRS and v.ty.n != 'std::nullptr_t': return v
    if not v.d and v.meta is None: return Val(v.ty, {(): z3.IntVal(0)})
    return v


def seq_eq(eng, x, y):
    k = z3.Const('k!e', I)
    conj = [x.d[('#len',)] == y.d[('#len',)]]
    el = []
    for p in x.d:
        if p[:1] == ('[]',):
            if '[]' in p[1:]: raise Unsupported('nested sequence equality')
            el.append(z3.Select(x.d[p], k) == z3.Select(y.d[p], k))
    return z3.And(x.d[('#len',)] == y.d[('#len',)], z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < x.d[('#len',)]), z3.And(*el))))


for op in ('==', '!=', '<', '<=', '>', '>='):
    M['std::operator' + op] = cmpop(op)
    M['iterop' + op] = cmpop(op)
    M['__gnu_cxx::operator' + op] = cmpop(op)


@model('std::vector::erase', 'std::list::erase', 'std::deque::erase')
def _(eng, st, o, a, c, tu):
    f = itv(eng, st, a[0])
    lo = f.d[('#idx',)]
    hi = itv(eng, st, a[1]).d[('#idx',)] if len(a) > 1 else eng.addi(lo, z3.IntVal(1))
    n = eng.seqlen(st, o)
    if hi.eq(n):
        setlen(eng, st, o, lo)
    else:
        fresharr(eng, st, o, lambda p, old, k: z3.If(k < lo, z3.Select(old, k), z3.Select(old, k + (hi - lo))))
        setlen(eng, st, o, n - (hi - lo))
    return iterval(eng, st, o, lo, tu.ty(c['ret']))


@model('std::vector::insert', 'std::list::insert', 'std::deque::insert')
def _(eng, st, o, a, c, tu):
    pos = itv(eng, st, a[0]).d[('#idx',)]
    n = eng.seqlen(st, o)
    if len(a) == 3:
        f, l = val(eng, st, a[1]), val(eng, st, a[2])
        if isiter(f):
            src = f.meta[1]
            lo, hi = f.d[('#idx',)], l.d[('#idx',)]
            s = eng.read(st, src)
            cnt = eng.subi(hi, lo)
            fresharr(eng, st, o, lambda p, old, k: z3.If(k < pos, z3.Select(old, k), z3.If(k < pos + cnt, z3.Select(s.d[('[]',) + p], k - pos + lo), z3.Select(old, k - cnt))))
            setlen(eng, st, o, eng.addi(n, cnt))
            eng.assume(st, n + cnt <= MAXLEN)
            return iterval(eng, st, o, pos, tu.ty(c['ret']))
        cnt, v = f.t, l
        fresharr(eng, st, o, lambda p, old, k: z3.If(k < pos, z3.Select(old, k), z3.If(k < pos + cnt, v.d[p], z3.Select(old, k - cnt))))
        setlen(eng, st, o, eng.addi(n, cnt))
        eng.assume(st, n + cnt <= MAXLEN)
        return iterval(eng, st, o, pos, tu.ty(c['ret']))
    v = val(eng, st, a[1])
    fresharr(eng, st, o, lambda p, old, k: z3.If(k < pos, z3.Select(old, k), z3.If(k == pos, v.d[p], z3.Select(old, k - 1))))
    setlen(eng, st, o, eng.addi(n, z3.IntVal(1)))
    eng.assume(st, n < MAXLEN)
    return iterval(eng, st, o, pos, tu.ty(c['ret']))


@model('std::list::splice')
def _(eng, st, o, a, c, tu): raise Unsupported('splice')


# counting over a boolean array: cnt(P,k) = number of true entries among the first k
CNT = z3.Function('cnt', z3.ArraySort(I, B), I, I)


def cnt_axioms():
    P = z3.Const('P!', z3.ArraySort(I, B))
    k, j = z3.Ints('k! j!')
    return [z3.ForAll([P], CNT(P, 0) == 0, patterns=[CNT(P, 0)]),
            z3.ForAll([P, k], z3.Implies(k >= 0, CNT(P, k + 1) == CNT(P, k) + z3.If(P[k], 1, 0)), patterns=[CNT(P, k + 1)]),
            z3.ForAll([P, k], z3.Implies(k > 0, CNT(P, k) == CNT(P, k - 1) + z3.If(P[k - 1], 1, 0)), patterns=[CNT(P, k)]) if False else TRUE,
            z3.ForAll([P, k], z3.Implies(k >= 0, z3.And(CNT(P, k) >= 0, CNT(P, k) <= k)), patterns=[CNT(P, k)]),
            z3.ForAll([P, k, j], z3.Implies(z3.And(0 <= k, k <= j), z3.And(CNT(P, k) <= CNT(P, j), CNT(P, j) - CNT(P, k) <= j - k)), patterns=[z3.MultiPattern(CNT(P, k), CNT(P, j))]),
            # strictly before a true entry (lemmas by induction on j)
            z3.ForAll([P, k, j], z3.Implies(z3.And(0 <= k, k < j, P[k]), CNT(P, k) + 1 <= CNT(P, j)), patterns=[z3.MultiPattern(CNT(P, k), CNT(P, j))])]


def predarr(eng, n, fn, hint='P', grp=None):
    """array P with P[k] == fn(k); registered so equal predicates give equal counts"""
    P = eng.fresh(z3.ArraySort(I, B), hint)
    k = z3.Const('k!p', I)
    body = fn(k)
    eng.fact(z3.ForAll([k], P[k] == body, patterns=[P[k]]))
    for Q, m, g in eng.countarrs:
        if g is not None and grp is not None and g != grp: continue      # counts over sequences of different things
        # congruence of counting (induction on j): equal below n => equal counts
        w = eng.fresh(I, 'w')
        j = z3.Const('j!p', I)
        eng.fact(z3.Or(z3.And(w >= 0, w < n, P[w] != Q[w]),
                       z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= n), CNT(P, j) == CNT(Q, j)), patterns=[CNT(P, j), CNT(Q, j)])))
        if not m.eq(n): pass
    eng.countarrs.append((P, n, grp))
    if not getattr(eng, 'cntax', False):
        eng.cntax = True
        eng.prefacts += [a for a in cnt_axioms() if not is_true(a)]
    eng.fact(CNT(P, 0) == 0)
    return P


def pure_pred(eng, st, fnv, src, k):
    """truth value of predicate fnv on element k of src, evaluated without side effects"""
    s2 = st.copy()
    s2.pc = TRUE
    sink = eng.exc_sink
    eng.exc_sink = []
    try:
        r = eng.call_callable(s2, fnv, [elem(eng, src, k)])
        r = val(eng, s2, r)
    finally:
        ex = eng.exc_sink
        eng.exc_sink = sink
    if ex: raise Unsupported('predicate may throw')
    for key, v in s2.store.items():
        if key in st.store and st.store[key] is not v and (E.is_heap(key[0]) or key[0][0] == 'g'): raise Unsupported('predicate with side effects')
    return eng.tobool(s2, r)


def keepfilter(eng, st, o, keep, lo=None):
    """stable filter of the sequence o: keep(k) -> Bool. Returns number kept"""
    n = eng.seqlen(st, o)
    P = predarr(eng, n, keep, grp=eng.seq_elem(o.ty).s)
    k = z3.Const('k!f', I)
    for key, sort, info, p in eng.leafkeys(o):
        if p[:1] != ('[]',): continue
        old = sel_n(eng.get(st, key, sort, info), o.idxs)
        new = eng.fresh(old.sort(), 'F')
        eng.typefact(new, old.sort(), info)
        eng.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, P[k]), z3.Select(new, CNT(P, k)) == z3.Select(old, k)), patterns=[z3.Select(old, k), CNT(P, k)]))
        eng.write_leaf(st, o, p, new)
    # every kept position comes from somewhere
    inv = eng.fresh(z3.ArraySort(I, I), 'src')
    m = CNT(P, n)
    eng.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(inv[k] >= 0, inv[k] < n, P[inv[k]], CNT(P, inv[k]) == k)), patterns=[inv[k]]))
    for key, sort, info, p in eng.leafkeys(o):
        if p[:1] != ('[]',): continue
        new = sel_n(eng.get(st, key, sort, info), o.idxs)
        oldv = None
    eng.lastfilter = (P, n, m, inv)
    return P, n, m, inv


@model('std::list::remove_if', 'std::erase_if', 'std::list::remove')
def _(eng, st, o, a, c, tu):
    fnv = a[-1]
    o = o if o is not None else a[0]
    src = o
    st0 = st.copy()
    old = {p: sel_n(eng.get(st, key, sort, info), o.idxs) for key, sort, info, p in eng.leafkeys(o) if p[:1] == ('[]',)}
    if c['n'].endswith('::remove'):
        v = val(eng, st, fnv)
        f = lambda k: mk_and(*[z3.Select(old[('[]',) + p], k) == v.d[p] for p in v.d])
    else:
        f = lambda k: pure_pred(eng, st0, fnv, src, k)
    P, n, m, inv = keepfilter(eng, st, o, lambda k: mk_not(f(k)))
    k = z3.Const('k!f', I)
    for key, sort, info, p in eng.leafkeys(o):
        if p[:1] != ('[]',): continue
        new = sel_n(eng.get(st, key, sort, info), o.idxs)
        eng.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(z3.Select(new, k) == z3.Select(old[p], inv[k]), inv[k] >= 0)), patterns=[z3.Select(new, k)]))
    setlen(eng, st, o, m)
    return Val(tu.ty(c['ret']), {(): n - m})


@model('std::remove_if', 'std::remove')
def _(eng, st, o, a, c, tu):
    f, l = itv(eng, st, a[0]), itv(eng, st, a[1])
    src = f.meta[1]
    if iconst(f.d[('#idx',)]) != 0: raise Unsupported('remove_if on a subrange')
    n = l.d[('#idx',)]
    if not n.eq(eng.seqlen(st, src)): raise Unsupported('remove_if on a subrange')
    st0 = st.copy()
    old = {p: sel_n(eng.get(st, key, sort, info), src.idxs) for key, sort, info, p in eng.leafkeys(src) if p[:1] == ('[]',)}
    if c['n'].startswith('std::remove_if'):
        g = lambda k: pure_pred(eng, st0, a[2], src, k)
    else:
        v = val(eng, st, a[2])
        g = lambda k: mk_and(*[z3.Select(old[('[]',) + p], k) == v.d[p] for p in v.d])
    P, n, m, inv = keepfilter(eng, st, src, lambda k: mk_not(g(k)))
    k = z3.Const('k!f', I)
    for key, sort, info, p in eng.leafkeys(src):
        if p[:1] != ('[]',): continue
        new = sel_n(eng.get(st, key, sort, info), src.idxs)
        eng.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(z3.Select(new, k) == z3.Select(old[p], inv[k]), inv[k] >= 0)), patterns=[z3.Select(new, k)]))
    return iterval(eng, st, src, m, tu.ty(c['ret']))


def rng(eng, st, a):
    """(src lv, lo, hi, remaining args) of an algorithm called with iterators or a range"""
    x = a[0]
    v = val(eng, st, x) if not (isinstance(x, LV) and eng.is_seq(x.ty)) else x
    if isiter(v):
        l = itv(eng, st, a[1])
        if not l.meta[1].same(v.meta[1]): raise Unsupported('range over two containers')
        return v.meta[1], v.d[('#idx',)], l.d[('#idx',)], list(a[2:])
    if isinstance(v, Val) and v.meta is not None and v.meta[0] == 'arr':
        raise Unsupported('pointer range')
    o = need_lv(eng, st, x)
    if not eng.is_seq(o.ty): raise Unsupported('range ' + o.ty.s)
    return o, z3.IntVal(0), eng.seqlen(st, o), list(a[1:])


@model('std::ranges::__count_if_fn::operator()', 'std::count_if', 'std::ranges::__count_fn::operator()', 'std::count')
def _(eng, st, o, a, c, tu):
    src, lo, hi, rest = rng(eng, st, a)
    if iconst(lo) != 0: raise Unsupported('count on a subrange')
    st0 = st.copy()
    if 'count_if' in c['n']:
        P = predarr(eng, hi, lambda k: pure_pred(eng, st0, rest[0], src, k), grp=eng.seq_elem(src.ty).s)
    else:
        v = val(eng, st, rest[0])
        s = eng.read(st, src)
        P = predarr(eng, hi, lambda k: mk_and(*[z3.Select(s.d[('[]',) + p], k) == v.d[p] for p in v.d]), grp=eng.seq_elem(src.ty).s)
    return Val(tu.ty(c['ret']), {(): CNT(P, hi)})


def extreme(less):
    def f(eng, st, o, a, c, tu):
        src, lo, hi, rest = rng(eng, st, a)
        s = eng.read(st, src)
        arr = s.d.get(('[]',))
        if rest or arr is None: raise Unsupported('min/max element with comparison')
        k = z3.Const('k!m', I)
        r = eng.fresh(I, 'ext')
        eng.fact(z3.Implies(lo >= hi, r == hi))
        eng.fact(z3.Implies(lo < hi, z3.And(r >= lo, r < hi)))
        eng.fact(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), less(z3.Select(arr, r), z3.Select(arr, k))), patterns=[z3.Select(arr, k)] if okpat(arr) else []))
        return iterval(eng, st, src, r, tu.ty(c['ret']))
    return f


for kind, less in (('min', lambda a, b: a <= b), ('max', lambda a, b: a >= b)):
    M['std::%s_element' % kind] = extreme(less)
    M['std::ranges::__%s_element_fn::operator()' % kind] = extreme(less)


def quant_alg(kind):
    def f(eng, st, o, a, c, tu):
        src, lo, hi, rest = rng(eng, st, a)
        st0 = st.copy()
        k = z3.Const('k!q', I)
        b = pure_pred(eng, st0, rest[0], src, k)
        rg = z3.And(k >= lo, k < hi)
        if kind == 'all': r = z3.ForAll([k], z3.Implies(rg, b))
        elif kind == 'any': r = z3.Exists([k], z3.And(rg, b))
        else: r = z3.ForAll([k], z3.Implies(rg, mk_not(b)))
        q = eng.fresh(B, kind)
        eng.fact(q == r)
        return Val(BOOL, {(): q})
    return f


for kind in ('all', 'any', 'none'):
    M['std::%s_of' % kind] = quant_alg(kind)
    M['std::ranges::__%s_of_fn::operator()' % kind] = quant_alg(kind)


@model('std::find_if', 'std::find', 'std::ranges::__find_if_fn::operator()', 'std::ranges::__find_fn::operator()')
def _(eng, st, o, a, c, tu):
    src, lo, hi, rest = rng(eng, st, a)
    st0 = st.copy()
    k = z3.Const('k!q', I)
    if 'find_if' in c['n']:
        pred = lambda k: pure_pred(eng, st0, rest[0], src, k)
    else:
        v = val(eng, st, rest[0])
        s = eng.read(st, src)
        pred = lambda k: mk_and(*[z3.Select(s.d[('[]',) + p], k) == v.d[p] for p in v.d])
    r = eng.fresh(I, 'find')
    eng.fact(z3.Implies(lo <= hi, z3.And(r >= lo, r <= hi)))
    eng.fact(z3.Implies(z3.And(r >= lo, r < hi), pred(r)))
    eng.fact(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < r), mk_not(pred(k)))))
    return iterval(eng, st, src, r, tu.ty(c['ret']))


@model('std::for_each', 'std::ranges::__for_each_fn::operator()')
def _(eng, st, o, a, c, tu):
    src, lo, hi, rest = rng(eng, st, a)

    def body(x, i): eng.call_callable(x, rest[0], [elem(eng, src, i)])
    eng.foreach(st, src, body, None, lo, hi)
    return Val(VOID, {})


@model('std::transform', 'std::ranges::__transform_fn::operator()')
def _(eng, st, o, a, c, tu):
    src, lo, hi, rest = rng(eng, st, [x for x in a if not (x.ty.k == 'rec' and x.ty.n == 'std::identity')])
    dst = val(eng, st, rest[0])
    if len(rest) > 2: raise Unsupported('binary transform')
    back = dst.meta and dst.meta[0] == 'backins'
    if not back: dst = itv(eng, st, dst)

    def body(x, i):
        r = eng.call_callable(x, rest[1], [elem(eng, src, i)])
        r = val(eng, x, r)
        if back: append(eng, x, dst.meta[1], make(eng, x, eng.seq_elem(dst.meta[1].ty), [r]))
        else: eng.write(x, elem(eng, dst.meta[1], eng.addi(dst.d[('#idx',)], eng.subi(i, lo))), r)
    eng.foreach(st, src, body, None, lo, hi)
    return Val(VOID, {}, ('unused',))


@model('std::back_inserter')
def _(eng, st, o, a, c, tu): return Val(tu.ty(c['ret']), {}, ('backins', a[0]))


@model('std::accumulate')
def _(eng, st, o, a, c, tu):
    src, lo, hi, rest = rng(eng, st, a)
    acc = eng.tmp(st, val(eng, st, rest[0]))
    eng.fr.names[acc.root] = ('#acc', acc.ty)

    def body(x, i):
        if len(rest) > 1: r = val(eng, x, eng.call_callable(x, rest[1], [val(eng, x, acc), elem(eng, src, i)]))
        else: r = eng.binop(x, '+', val(eng, x, acc), val(eng, x, elem(eng, src, i)), acc.ty)
        eng.write(x, acc, r)
    eng.foreach(st, src, body, None, lo, hi)
    return eng.read(st, acc)


@model('std::iota')
def _(eng, st, o, a, c, tu):
    src, lo, hi, rest = rng(eng, st, a)
    v = val(eng, st, rest[0])
    fresharr(eng, st, src, lambda p, old, k: z3.If(z3.And(k >= lo, k < hi), v.t + (k - lo), z3.Select(old, k)))
    return Val(VOID, {})


@model('std::fill', 'std::ranges::__fill_fn::operator()')
def _(eng, st, o, a, c, tu):
    src, lo, hi, rest = rng(eng, st, a)
    v = val(eng, st, rest[0])
    et = eng.seq_elem(src.ty)
    if et.k in E.SCALAR and v.ty.s != et.s: v = eng.numcast(st, v, et)
    whole = iconst(lo) == 0 and hi.eq(eng.seqlen(st, src))
    if whole:
        for p, s, info in eng.leaves(src.ty):
            if p[:1] == ('[]',): eng.write_leaf(st, src, p, lift_k(s, v.d[p[1:]]))
    else:
        fresharr(eng, st, src, lambda p, old, k: z3.If(z3.And(k >= lo, k < hi), v.d[p], z3.Select(old, k)))
    return Val(VOID, {})


def lift_k(s, v): return z3.K(I, v)


@model('std::copy', 'std::ranges::__copy_fn::operator()')
def _(eng, st, o, a, c, tu):
    src, lo, hi, rest = rng(eng, st, a)
    d = val(eng, st, rest[0])
    sv = eng.read(st, src)
    if d.meta and d.meta[0] == 'backins':
        dst = d.meta[1]
        n = eng.seqlen(st, dst)
        fresharr(eng, st, dst, lambda p, old, k: z3.If(k < n, z3.Select(old, k), z3.Select(sv.d[('[]',) + p], k - n + lo)))
        k = z3.Const('k!s', I)
        for key, sort, info, p in eng.leafkeys(dst):
            if p[:1] == ('[]',) and okpat(z3.Select(sv.d[p], k)):
                eng.fact(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), z3.Select(sel_n(eng.get(st, key, sort, info), dst.idxs), n + (k - lo)) == z3.Select(sv.d[p], k)), patterns=[z3.Select(sv.d[p], k)]))
        setlen(eng, st, dst, n + (hi - lo))
        eng.assume(st, n + (hi - lo) <= MAXLEN)
        return d
    if isiter(d):
        dst, off = d.meta[1], d.d[('#idx',)]
        fresharr(eng, st, dst, lambda p, old, k: z3.If(z3.And(k >= off, k < off + (hi - lo)), z3.Select(sv.d[('[]',) + p], k - off + lo), z3.Select(old, k)))
        return Val(d.ty, {('#idx',): off + (hi - lo)}, d.meta)
    raise Unsupported('copy to ' + d.ty.s)


@model('std::sort', 'std::ranges::__sort_fn::operator()', 'std::stable_sort')
def _(eng, st, o, a, c, tu):
    src, lo, hi, rest = rng(eng, st, a)
    old = eng.read(st, src)
    perm = eng.fresh(z3.ArraySort(I, I), 'perm')
    inv = eng.fresh(z3.ArraySort(I, I), 'permi')
    k = z3.Const('k!t', I)
    eng.fact(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), z3.And(perm[k] >= lo, perm[k] < hi, inv[perm[k]] == k)), patterns=[perm[k]]))
    eng.fact(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), z3.And(inv[k] >= lo, inv[k] < hi, perm[inv[k]] == k)), patterns=[inv[k]]))
    fresharr(eng, st, src, lambda p, oa, k: z3.If(z3.And(k >= lo, k < hi), z3.Select(oa, perm[k]), z3.Select(oa, k)))
    for key, sort, info, p in eng.leafkeys(src):
        if p[:1] == ('[]',) and okpat(z3.Select(old.d[p], k)):
            eng.fact(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), z3.And(inv[k] >= lo, inv[k] < hi, z3.Select(sel_n(eng.get(st, key, sort, info), src.idxs), inv[k]) == z3.Select(old.d[p], k))), patterns=[z3.Select(old.d[p], k)]))
    if not rest and eng.seq_elem(src.ty).k in E.SCALAR:
        j = z3.Const('j!t', I)
        new = eng.read(st, src).d[('[]',)]
        eng.fact(z3.ForAll([k, j], z3.Implies(z3.And(k >= lo, k < j, j < hi), new[k] <= new[j]), patterns=[z3.MultiPattern(new[k], new[j])]))
    return Val(VOID, {})


@model('std::ranges::views::__adaptor::operator|', 'std::ranges::views::_Reverse::operator()')
def _(eng, st, o, a, c, tu):
    t = a[1].ty if len(a) > 1 else o.ty
    if 'Reverse' not in t.s: raise Unsupported('range adaptor ' + t.s)
    return Val(tu.ty(c['ret']), {}, ('rev', need_lv(eng, st, a[0])))


# ---------------------------------------------------------------- scalars
@model('std::move', 'std::forward', 'std::as_const')
def _(eng, st, o, a, c, tu):
    if len(a) == 3: raise Unsupported('std::move algorithm')
    return a[0]


@model('std::swap', 'std::ranges::_Swap::operator()', 'std::ranges::__cust_swap::_Swap::operator()')
def _(eng, st, o, a, c, tu):
    x, y = val(eng, st, a[0]), val(eng, st, a[1])
    eng.write(st, a[0], y)
    eng.write(st, a[1], x)
    return Val(VOID, {})


@model('std::swap_ranges')
def _(eng, st, o, a, c, tu):
    src, lo, hi, rest = rng(eng, st, a)
    d = itv(eng, st, rest[0])
    dst, j = d.meta[1], d.d[('#idx',)]
    if dst.same(src): raise Unsupported('swap_ranges within one container')
    sv, dv = eng.read(st, src), eng.read(st, dst)
    fresharr(eng, st, src, lambda p, old, k: z3.If(z3.And(k >= lo, k < hi), z3.Select(dv.d[('[]',) + p], k - lo + j), z3.Select(old, k)))
    fresharr(eng, st, dst, lambda p, old, k: z3.If(z3.And(k >= j, k < j + (hi - lo)), z3.Select(sv.d[('[]',) + p], k - j + lo), z3.Select(old, k)))
    return Val(VOID, {})


@model(*seqs('swap'), 'std::unique_ptr::swap', 'std::shared_ptr::swap')
def _(eng, st, o, a, c, tu):
    x, y = val(eng, st, o), val(eng, st, a[0])
    eng.write(st, o, y)
    eng.write(st, a[0], x)
    return Val(VOID, {})


@model('std::exchange')
def _(eng, st, o, a, c, tu):
    x = val(eng, st, a[0])
    v = val(eng, st, a[1])
    eng.write(st, a[0], make(eng, st, a[0].ty, [v]) if v.ty.s != a[0].ty.s else v)
    return x


def minmax(op):
    def f(eng, st, o, a, c, tu):
        if len(a) != 2: raise Unsupported('min/max')
        x, y = val(eng, st, a[0]), val(eng, st, a[1])
        if () not in x.d: raise Unsupported('min/max of ' + x.ty.s)
        t = z3.If(y.t < x.t, y.t, x.t) if op == 'min' else z3.If(x.t < y.t, y.t, x.t)
        return Val(x.ty, {(): t})
    return f


for n in ('min', 'max'):
    M['std::' + n] = minmax(n)
    M['std::ranges::__%s_fn::operator()' % n] = minmax(n)
M['std::fmin'] = M['fmin'] = minmax('min')
M['std::fmax'] = M['fmax'] = minmax('max')


@model('std::clamp')
def _(eng, st, o, a, c, tu):
    x, lo, hi = [val(eng, st, y) for y in a]
    return Val(x.ty, {(): z3.If(x.t < lo.t, lo.t, z3.If(hi.t < x.t, hi.t, x.t))})


@model('std::abs', 'std::fabs', 'abs', 'fabs')
def _(eng, st, o, a, c, tu):
    x = val(eng, st, a[0])
    return Val(x.ty, {(): z3.If(x.t < 0, -x.t, x.t)})


def ufun(name, n, fact=None):
    F = z3.Function('fp.' + name, *([R] * (n + 1)))

    def f(eng, st, o, a, c, tu):
        xs = []
        for y in a:
            v = val(eng, st, y)
            xs.append(v.t if v.t.sort().eq(R) else z3.ToReal(v.t))
        r = F(*xs)
        if fact: eng.fact(fact(r, *xs))
        return Val(tu.ty(c['ret']), {(): r})
    return f


for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'round', 'log10', 'cbrt'):
    M['std::' + n] = M[n] = ufun(n, 1)
M['std::sqrt'] = M['sqrt'] = ufun('sqrt', 1, lambda r, x: z3.And(r >= 0, z3.Implies(x > 0, r > 0), z3.Implies(x == 0, r == 0)))
for n in ('pow', 'atan2', 'fmod', 'hypot'):
    M['std::' + n] = M[n] = ufun(n, 2)


@model('std::isnan', 'std::isinf')
def _(eng, st, o, a, c, tu): return Val(BOOL, {(): FALSE})


@model('std::isfinite')
def _(eng, st, o, a, c, tu): return Val(BOOL, {(): TRUE})


@model('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest', 'std::numeric_limits::epsilon', 'std::numeric_limits::infinity', 'std::numeric_limits::quiet_NaN')
def _(eng, st, o, a, c, tu): raise Unsupported('numeric_limits without constant value')


# ---------------------------------------------------------------- vector<bool>
@model('std::_Bit_reference::operator bool')
def _(eng, st, o, a, c, tu): return val(eng, st, o)


@model('std::_Bit_reference::operator=')
def _(eng, st, o, a, c, tu):
    v = val(eng, st, a[0])
    eng.write(st, o, Val(BOOL, {(): v.t}))
    return o


# ---------------------------------------------------------------- pair/tuple
@model('std::make_pair')
def _(eng, st, o, a, c, tu): return mkpair(eng, st, tu.ty(c['ret']), a)


def mkpair(eng, st, t, a):
    d = {}
    for n, x, et in zip(('first', 'second'), a, t.args):
        v = make(eng, st, et, [x])
        for p in v.d: d[(n,) + p] = v.d[p]
    return Val(t, d)


@model('std::make_tuple')
def _(eng, st, o, a, c, tu): return mktuple(eng, st, tu.ty(c['ret']), a)


def mktuple(eng, st, t, a):
    d = {}
    for i, (x, et) in enumerate(zip(a, t.args[0])):
        if et.k == 'ref': raise Unsupported('tuple of references')
        v = make(eng, st, et, [x])
        if isinstance(x, LV) and et.k == 'rec' and et.n in E.PTRS: eng.moved_from(st, x)
        for p in v.d: d[(str(i),) + p] = v.d[p]
    return Val(t, d)


@model('std::tie')
def _(eng, st, o, a, c, tu): return Val(tu.ty(c['ret']), {}, ('tie', list(a)))


@model('std::get')
def _(eng, st, o, a, c, tu):
    x = a[0]
    i = None
    for t in c.get('targs', []):
        if 'i' in t:
            i = int(t['i'])
            break
    if i is None: raise Unsupported('std::get by type')
    t = x.ty
    if t.n == 'std::pair': n, et = ('first', 'second')[i], t.args[i]
    elif t.n == 'std::tuple': n, et = str(i), t.args[0][i]
    elif eng.is_seq(t):
        x = need_lv(eng, st, x)
        return elem(eng, x, z3.IntVal(i))
    else: raise Unsupported('std::get on ' + t.s)
    if isinstance(x, LV): return x.f(n, et)
    return Val(et, {p[1:]: v for p, v in x.d.items() if p[:1] == (n,)})


# ---------------------------------------------------------------- smart pointers
@model('std::make_unique', 'std::make_shared')
def _(eng, st, o, a, c, tu):
    t = tu.ty(c['ret'])
    et = t.args[0]
    addr = eng.alloc(st, et)
    lv = eng.heaplv(addr, et)
    if et.s not in eng.prog.records: 
        eng.write(st, lv, make(eng, st, et, a))
        return Val(t, {(): addr})
    emplace_obj(eng, st, lv, et, a, [tu.ty(p) for p in c['params']])
    return Val(t, {(): addr})


def emplace_obj(eng, st, lv, et, a, pts):
    a = list(a)
    cands = [f for f in eng.prog.funcs.values() if f.j.get('ctor') and f.cls.s == et.s and len(f.params) == len(a)]
    good = [f for f in cands if all(ctor_ok(eng, p[2], x) for p, x in zip(f.params, a))]
    if len(good) > 1:
        g2 = [f for f in good if all((p[2].t if p[2].k == 'ref' else p[2]).s == x.ty.s for p, x in zip(f.params, a))]
        if g2: good = g2
        if len(good) > 1:
            # overloads differing only in reference kind: rvalue arguments prefer rvalue references
            def score(f):
                s = 0
                for p, ap in zip(f.params, pts):
                    if p[2].k == 'ref' and ap.k == 'ref' and p[2].rv == ap.rv: s += 1
                return -s
            good.sort(key=score)
    if good:
        f = good[0]
        ct = eng.find_contract(f.key, eng.prog.callees[f.key][1])
        if ct is not None:
            ct.apply(eng, st, f.key, eng.prog.callees[f.key][1], lv, a)
            return
        eng.run_ctor(st, lv, f, conv_args(eng, st, f, a))
        return
    if len(a) == 1 and a[0].ty.s == et.s:
        v = val(eng, st, a[0])
        eng.write(st, lv, v)
        return
    if not a:
        eng.default_init(st, lv)
        return
    if eng.opaque_handler is not None:
        key = [k for k, (tu2, c2) in eng.prog.callees.items() if c2.get('ctor') and tu2.ty(c2['cls']).s == et.s and len(c2['params']) == len(a)]
        if key:
            eng.opaque(st, key[0], eng.prog.callees[key[0]][1], lv, a)
            return
    raise Unsupported('make_unique<%s>' % et.s)


@model('std::unique_ptr::operator->', 'std::shared_ptr::operator->', 'std::__shared_ptr_access::operator->', 'std::unique_ptr::get', 'std::shared_ptr::get', 'std::__shared_ptr::get')
def _(eng, st, o, a, c, tu):
    v = val(eng, st, o)
    if v.ty.n in E.PTRS or v.ty.k == 'ptr':
        if c['n'].endswith('get'):
            return Val(tu.ty(c['ret']), {(): v.t} if v.ty.args[0].k not in E.SCALAR else {('#base',): v.t, ('#off',): z3.IntVal(0)})
        return Val(tu.ty(c['ret']), {}, ('ptr', eng.deref(st, v)))
    raise Unsupported('-> on ' + v.ty.s)


@model('std::unique_ptr::operator*', 'std::shared_ptr::operator*', 'std::__shared_ptr_access::operator*')
def _(eng, st, o, a, c, tu): return eng.deref(st, val(eng, st, o))


@model('std::unique_ptr::operator bool', 'std::shared_ptr::operator bool', 'std::__shared_ptr::operator bool')
def _(eng, st, o, a, c, tu): return Val(BOOL, {(): val(eng, st, o).t != 0})


@model('std::unique_ptr::reset', 'std::shared_ptr::reset', 'std::__shared_ptr::reset')
def _(eng, st, o, a, c, tu):
    t = z3.IntVal(0)
    if a:
        v = val(eng, st, a[0])
        t = eng.addr(v) if v.meta else (v.d[()] if () in v.d else v.d[('#base',)])
    eng.write(st, o, Val(o.ty, {(): t}))
    return Val(VOID, {})


@model('std::unique_ptr::release')
def _(eng, st, o, a, c, tu):
    v = val(eng, st, o)
    eng.write(st, o, Val(o.ty, {(): z3.IntVal(0)}))
    return Val(tu.ty(c['ret']), {(): v.t})


@model('std::shared_ptr::use_count', 'std::__shared_ptr::use_count')
def _(eng, st, o, a, c, tu): return eng.havocval(tu.ty(c['ret']))


# ---------------------------------------------------------------- optional
@model('std::optional::has_value', 'std::optional::operator bool')
def _(eng, st, o, a, c, tu): return Val(BOOL, {(): val(eng, st, o).d[('#has',)]})


@model('std::optional::operator*', 'std::optional::value', 'std::optional::operator->')
def _(eng, st, o, a, c, tu):
    o = need_lv(eng, st, o)
    if c['n'].endswith('value'):
        h = eng.read_leaf(st, o, ('#has',))
        bad = st.copy()
        bad.pc = mk_and(st.pc, mk_not(h))
        eng.throw(bad, std_exc(eng, 'std::bad_optional_access'))
        st.pc = mk_and(st.pc, h)
    l = o.f('*', o.ty.args[0])
    if c['n'].endswith('->'): return Val(tu.ty(c['ret']), {}, ('ptr', l))
    return l


@model('std::optional::value_or')
def _(eng, st, o, a, c, tu):
    v = val(eng, st, o)
    d = val(eng, st, a[0])
    et = v.ty.args[0]
    d = make(eng, st, et, [d])
    return Val(et, {p: mk_if(v.d[('#has',)], v.d[('*',) + p], d.d[p]) for p in d.d})


@model('std::optional::reset')
def _(eng, st, o, a, c, tu):
    eng.write_leaf(st, o, ('#has',), FALSE)
    return Val(VOID, {})


@model('std::optional::emplace')
def _(eng, st, o, a, c, tu):
    v = make(eng, st, o.ty.args[0], a)
    eng.write(st, o.f('*', o.ty.args[0]), v)
    eng.write_leaf(st, o, ('#has',), TRUE)
    return o.f('*', o.ty.args[0])


# ---------------------------------------------------------------- maps
def mp(*ops):
    return ['std::%s::%s' % (c, op) for c in ('map', 'unordered_map') for op in ops]


def mkey(eng, st, x):
    v = val(eng, st, x)
    if () not in v.d: raise Unsupported('map key')
    return v.t


def mdom(eng, st, o): return eng.read_leaf(st, o, ('#dom',))


@model(*mp('contains', 'count'), 'std::set::contains', 'std::unordered_set::contains', 'std::set::count', 'std::unordered_set::count')
def _(eng, st, o, a, c, tu):
    r = z3.Select(mdom(eng, st, o), mkey(eng, st, a[0]))
    if c['n'].endswith('count'): return Val(tu.ty(c['ret']), {(): z3.If(r, z3.IntVal(1), z3.IntVal(0))})
    return Val(BOOL, {(): r})


def mval(o, k): return o.i(k, o.ty.args[1], '{}')


@model(*mp('operator[]'))
def _(eng, st, o, a, c, tu):
    k = mkey(eng, st, a[0])
    d = mdom(eng, st, o)
    has = z3.Select(d, k)
    sz = eng.read_leaf(st, o, ('#size',))
    l = mval(o, k)
    old = eng.read(st, l)
    new = make(eng, st, o.ty.args[1], [])
    eng.write(st, l, Val(l.ty, {p: mk_if(has, old.d[p], new.d[p]) for p in old.d}))
    eng.write_leaf(st, o, ('#dom',), z3.Store(d, k, TRUE))
    eng.write_leaf(st, o, ('#size',), z3.If(has, sz, sz + 1))
    return l


@model(*mp('at'))
def _(eng, st, o, a, c, tu):
    k = mkey(eng, st, a[0])
    has = z3.Select(mdom(eng, st, o), k)
    bad = st.copy()
    bad.pc = mk_and(st.pc, mk_not(has))
    eng.throw(bad, std_exc(eng, 'std::out_of_range'))
    st.pc = mk_and(st.pc, has)
    return mval(o, k)


@model(*mp('find'))
def _(eng, st, o, a, c, tu):
    k = mkey(eng, st, a[0])
    return Val(tu.ty(c['ret']), {}, ('miter', o, k, z3.Select(mdom(eng, st, o), k)))


@model(*mp('clear'), 'std::set::clear', 'std::unordered_set::clear')
def _(eng, st, o, a, c, tu):
    d = mdom(eng, st, o)
    eng.write_leaf(st, o, ('#dom',), z3.K(d.sort().domain(), FALSE))
    eng.write_leaf(st, o, ('#size',), z3.IntVal(0))
    return Val(VOID, {})


@model(*mp('erase'), 'std::set::erase', 'std::unordered_set::erase')
def _(eng, st, o, a, c, tu):
    v = val(eng, st, a[0])
    if v.meta is not None: raise Unsupported('map erase by iterator')
    d = mdom(eng, st, o)
    has = z3.Select(d, v.t)
    sz = eng.read_leaf(st, o, ('#size',))
    eng.write_leaf(st, o, ('#dom',), z3.Store(d, v.t, FALSE))
    eng.write_leaf(st, o, ('#size',), z3.If(has, sz - 1, sz))
    return Val(tu.ty(c['ret']), {(): z3.If(has, z3.IntVal(1), z3.IntVal(0))})


@model(*mp('insert_or_assign'))
def _(eng, st, o, a, c, tu):
    k = mkey(eng, st, a[0])
    v = make(eng, st, o.ty.args[1], a[1:])
    d = mdom(eng, st, o)
    sz = eng.read_leaf(st, o, ('#size',))
    eng.write(st, mval(o, k), v)
    eng.write_leaf(st, o, ('#size',), z3.If(z3.Select(d, k), sz, sz + 1))
    eng.write_leaf(st, o, ('#dom',), z3.Store(d, k, TRUE))
    return Val(VOID, {}, ('unused',))


@model(*mp('emplace', 'try_emplace', 'insert'))
def _(eng, st, o, a, c, tu):
    if c['n'].endswith('insert'):
        p = val(eng, st, a[0])
        k = p.d[('first',)]
        v = Val(o.ty.args[1], {q[1:]: x for q, x in p.d.items() if q[:1] == ('second',)})
    else:
        k = mkey(eng, st, a[0])
        v = make(eng, st, o.ty.args[1], a[1:])
        for x in a[1:]:
            if isinstance(x, LV) and x.ty.k == 'rec' and x.ty.n in E.PTRS: eng.moved_from(st, x)
    d = mdom(eng, st, o)
    has = z3.Select(d, k)
    sz = eng.read_leaf(st, o, ('#size',))
    l = mval(o, k)
    old = eng.read(st, l)
    eng.write(st, l, Val(l.ty, {p: mk_if(has, old.d[p], v.d[p]) for p in old.d}))
    eng.write_leaf(st, o, ('#dom',), z3.Store(d, k, TRUE))
    eng.write_leaf(st, o, ('#size',), z3.If(has, sz, sz + 1))
    return Val(VOID, {}, ('unused',))


@model(*mp('size'), 'std::set::size', 'std::unordered_set::size')
def _(eng, st, o, a, c, tu): return Val(tu.ty(c['ret']), {(): eng.read_leaf(st, o, ('#size',))})


@model(*mp('empty'), 'std::set::empty', 'std::unordered_set::empty')
def _(eng, st, o, a, c, tu): return Val(BOOL, {(): eng.read_leaf(st, o, ('#size',)) == 0})


@model(*mp('end', 'cend'))
def _(eng, st, o, a, c, tu): return Val(tu.ty(c['ret']), {}, ('miter', o, None, FALSE))


def mitercmp(eng, st, op, x, y):
    # only comparisons against end()
    if x.meta[2] is None: x, y = y, x
    if y.meta[0] != 'miter' or y.meta[2] is not None: raise Unsupported('map iterator comparison')
    f = x.meta[3]
    return Val(BOOL, {(): mk_not(f) if op == '==' else f})


M['std::__detail::operator=='] = cmpop('==')
M['std::__detail::operator!='] = cmpop('!=')


# ---------------------------------------------------------------- strings, formatting: opaque values
STRS = ('std::basic_string', 'std::basic_string_view', 'std::format', 'std::vformat', 'std::make_format_args', 'std::to_string', 'std::basic_format_string', 'std::basic_format_args', 'std::source_location', 'std::allocator', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::exception::what')


# ---------------------------------------------------------------- Eigen dense matrices (dynamic size), element access and shape only
def eig(*ops):
    return ['Eigen::%s::%s' % (b, o) for b in ('PlainObjectBase', 'DenseBase', 'DenseCoeffsBase', 'EigenBase', 'Matrix', 'MatrixBase') for o in ops]


def isint(v): return v.ty.k in ('int', 'enum')


def matrix_of(eng, st, o):
    o = need_lv(eng, st, o)
    if o.ty.k != 'rec' or o.ty.n != 'Eigen::Matrix': raise Unsupported('Eigen expression ' + o.ty.s)
    return o


@model(*eig('rows'))
def _(eng, st, o, a, c, tu): return Val(tu.ty(c['ret']), {(): eng.read_leaf(st, matrix_of(eng, st, o), ('#rows',))})


@model(*eig('cols'))
def _(eng, st, o, a, c, tu): return Val(tu.ty(c['ret']), {(): eng.read_leaf(st, matrix_of(eng, st, o), ('#cols',))})


@model(*eig('size'))
def _(eng, st, o, a, c, tu):
    o = matrix_of(eng, st, o)
    return Val(tu.ty(c['ret']), {(): eng.read_leaf(st, o, ('#rows',)) * eng.read_leaf(st, o, ('#cols',))})


@model(*eig('operator()', 'coeff', 'coeffRef'))
def _(eng, st, o, a, c, tu):
    o = matrix_of(eng, st, o)
    if len(a) != 2: raise Unsupported('Eigen access')
    r, q = val(eng, st, a[0]), val(eng, st, a[1])
    if not (isint(r) and isint(q)): raise Unsupported('Eigen access')
    if eng.opts.get('safety'):
        eng.prove(st, z3.And(r.t >= 0, r.t < eng.read_leaf(st, o, ('#rows',)), q.t >= 0, q.t < eng.read_leaf(st, o, ('#cols',))), 'index-in-range matrix', 'safety')
    return LV(o.root, o.path + ('[]', '[]'), o.idxs + (r.t, q.t), o.ty.args[0])


@model(*eig('fill', 'setConstant'))
def _(eng, st, o, a, c, tu):
    o = matrix_of(eng, st, o)
    if len(a) != 1: raise Unsupported('Eigen fill')
    e = val(eng, st, a[0])
    for p, s, info in eng.leaves(o.ty.args[0]):
        eng.write_leaf(st, o, ('[]', '[]') + p, z3.K(I, z3.K(I, e.d[p])))
    return o if tu.ty(c['ret']).k == 'ref' else Val(VOID, {})


@model(*eig('resize', 'conservativeResize'))
def _(eng, st, o, a, c, tu):
    o = matrix_of(eng, st, o)
    if len(a) != 2: raise Unsupported('Eigen resize')
    r, q = val(eng, st, a[0]).t, val(eng, st, a[1]).t
    r0, q0 = eng.read_leaf(st, o, ('#rows',)), eng.read_leaf(st, o, ('#cols',))
    keep = z3.And(r == r0, q == q0)
    cons = 'conservative' in c['n']
    i, j = z3.Ints('r!e c!e')
    for p, s, info in eng.leaves(o.ty.args[0]):
        old = eng.read_leaf(st, o, ('[]', '[]') + p)
        new = eng.fresh(old.sort(), 'Z')
        eng.typefact(new, old.sort(), info)
        t = z3.If(keep, old, new)
        if cons:
            eng.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < r0, i < r, j >= 0, j < q0, j < q), z3.Select(z3.Select(new, i), j) == sel(sel(old, i), j)), patterns=[z3.Select(z3.Select(new, i), j)]))
            t = new
        eng.write_leaf(st, o, ('[]', '[]') + p, t)
    eng.assume(st, z3.And(r >= 0, q >= 0))
    eng.write_leaf(st, o, ('#rows',), r)
    eng.write_leaf(st, o, ('#cols',), q)
    return Val(VOID, {})


@model(*eig('swap'))
def _(eng, st, o, a, c, tu):
    o, b = matrix_of(eng, st, o), matrix_of(eng, st, a[0])
    x, y = eng.read(st, o), eng.read(st, b)
    eng.write(st, o, y)
    eng.write(st, b, x)
    return Val(VOID, {})


def eigen_ctor(eng, st, t, c, a):
    z = eng.zero(t) if False else None
    d = {}
    vs = [val(eng, st, x) for x in a]
    if len(vs) == 1 and vs[0].ty.k == 'rec' and vs[0].ty.n == 'Eigen::Matrix':
        if isinstance(a[0], LV) and c.get('movector'): eng.moved_from(st, a[0])
        return Val(t, vs[0].d)
    if vs and not all(isint(v) for v in vs): raise Unsupported('Eigen constructor')
    if len(vs) == 1:      # row or column vector of a length, elements not modelled
        one = z3.IntVal(1)
        vs = [Val(vs[0].ty, {(): one}), vs[0]] if str(t.args[1]) == '1' or getattr(t.args[1], 's', '') == '1' else [vs[0], Val(vs[0].ty, {(): one})]
    if len(vs) not in (0, 2): raise Unsupported('Eigen constructor')
    h = eng.havocval(t, 'E')
    d = dict(h.d)
    d[('#rows',)], d[('#cols',)] = (vs[0].t, vs[1].t) if vs else (z3.IntVal(0), z3.IntVal(0))
    return Val(t, d)


# ---------------------------------------------------------------- constructors and assignment
def ctor(eng, st, t, c, a):
    n = t.n if t.k == 'rec' else None
    if t.k != 'rec':
        if not a: return eng.zero(t)
        return None
    if n in ('std::vector', 'std::list', 'std::deque', 'std::array', 'std::span'):
        a = [x for x in a if not (isinstance(x, Val) and x.ty.k == 'rec' and x.ty.n == 'std::allocator')]
        if not a: return eng.zero(t)
        x = a[0]
        if x.ty.k == 'rec' and x.ty.n == 'std::initializer_list':
            v = val(eng, st, x)
            if v.meta is not None: raise Unsupported('initializer list')
            return Val(t, v.d)
        if x.ty.k == 'rec' and x.ty.n in E.SEQ and len(a) == 1:
            v = val(eng, st, x)
            return Val(t, v.d)
        v = val(eng, st, x)
        if isiter(v):
            if len(a) > 1 and isiter(val(eng, st, a[1])): return rangeval(eng, st, t, v, a[1])
        if v.ty.k == 'int':
            et = eng.seq_elem(t)
            if len(a) > 1: e = make(eng, st, et, [a[1]])
            else: e = make(eng, st, et, [])
            d = {('#len',): v.t}
            for p, s, info in eng.leaves(t):
                if p[:1] == ('[]',): d[p] = z3.K(I, e.d[p[1:]])
            eng.assume(st, v.t <= MAXLEN)
            return Val(t, d)
        return None
    if n == 'Eigen::Matrix': return eigen_ctor(eng, st, t, c, a)
    if n == 'std::pair':
        if not a: return eng.zero(t)
        if len(a) == 2: return mkpair(eng, st, t, a)
        if len(a) == 1:
            v = val(eng, st, a[0])
            return Val(t, v.d)
    if n == 'std::tuple':
        if not a: return eng.zero(t)
        if len(a) == len(t.args[0]): return mktuple(eng, st, t, a)
        if len(a) == 1:
            v = val(eng, st, a[0])
            if isinstance(a[0], LV): eng.moved_from(st, a[0])
            return Val(t, v.d)
    if n in E.PTRS:
        if not a: return Val(t, {(): z3.IntVal(0)})
        v = val(eng, st, a[0])
        if v.ty.k == 'rec' and v.ty.n in E.PTRS:
            r = Val(t, {(): v.t})
            if isinstance(a[0], LV) and (v.ty.n == 'std::unique_ptr' or c.get('movector')): eng.moved_from(st, a[0])
            return r
        if v.meta is not None and v.meta[0] == 'ptr': return Val(t, {(): eng.addr(v)})
        if () in v.d: return Val(t, {(): v.t})
        return Val(t, {(): z3.IntVal(0)})
    if n == 'std::optional':
        if not a: return eng.zero(t)
        v = val(eng, st, a[0])
        if v.ty.k == 'rec' and v.ty.n == 'std::nullopt_t': return eng.zero(t)
        if v.ty.k == 'rec' and v.ty.n == 'std::optional': return Val(t, v.d)
        v = make(eng, st, t.args[0], [a[0]])
        d = {('#has',): TRUE}
        for p in v.d: d[('*',) + p] = v.d[p]
        return Val(t, d)
    if n in E.MAPS or n in E.SETS:
        if not a: 
            return eng.zero(t)
        return eng.havocval(t)
    if 'iterator' in (n or ''):
        if len(a) == 1:
            v = val(eng, st, a[0])
            return Val(t, v.d, v.meta)
        if not a: return Val(t, {('#idx',): z3.IntVal(0)})
    if n == 'std::function':
        if len(a) == 1: 
            v = val(eng, st, a[0])
            if v.meta is None and v.ty.k == 'rec' and v.ty.n in FUNCTORS: return Val(t, {}, ('functor', v.ty.n))
            return v
        return Val(t, {(): z3.IntVal(0)})
    if n.startswith('std::') and n.split('::')[-1] in ('allocator', 'basic_string', 'basic_string_view', 'nullopt_t', 'less', 'less_equal', 'greater_equal', 'not_equal_to', 'hash', 'equal_to', 'basic_format_string', 'basic_format_args', 'source_location', 'plus', 'minus', 'greater', 'basic_ostringstream', 'mutex', 'lock_guard'):
        return eng.havocval(t, 'str')
    if n in ('std::mt19937', 'std::mersenne_twister_engine', 'std::uniform_int_distribution'):
        return eng.havocval(t)
    return eng.havocval(t, 'opq') if eng.leaves(t) and eng.leaves(t)[0][2] == 'opaque' and not a else None


def assign(eng, st, obj, c, tu, x):
    """copy/move assignment of library and defaulted class types"""
    v = val(eng, st, x)
    pt = tu.ty(c['params'][0])
    rv = pt.k == 'ref' and pt.rv or (isinstance(x, LV) and obj.ty.k == 'rec' and obj.ty.n == 'std::unique_ptr')
    if obj.ty.k == 'rec' and obj.ty.n == 'std::optional' and v.ty.s != obj.ty.s:
        v = ctor(eng, st, obj.ty, c, [v])
    if v.meta is not None and v.meta[0] == 'tie': raise Unsupported('tie')
    if rv and isinstance(x, LV):
        if x.same(obj): return obj
        v = val(eng, st, x)
        eng.moved_from(st, x)
    eng.write(st, obj, Val(obj.ty, v.d, v.meta))
    return obj


@model('std::unique_ptr::operator=', 'std::shared_ptr::operator=')
def _(eng, st, o, a, c, tu):
    v = val(eng, st, a[0])
    t = v.t if () in v.d else z3.IntVal(0)
    if isinstance(a[0], LV) and (v.ty.n == 'std::unique_ptr' or tu.ty(c['params'][0]).rv): eng.moved_from(st, a[0])
    eng.write(st, o, Val(o.ty, {(): t}))
    return o


@model('std::vector::operator=', 'std::list::operator=', 'std::pair::operator=', 'std::optional::operator=')
def _(eng, st, o, a, c, tu):
    v = val(eng, st, a[0])
    if o.ty.n == 'std::optional':
        v = ctor(eng, st, o.ty, c, [a[0]])
    eng.write(st, o, Val(o.ty, v.d))
    return o


@model('std::tuple::operator=')
def _(eng, st, o, a, c, tu):
    ov = val(eng, st, o) if not isinstance(o, Val) else o
    if ov.meta is not None and ov.meta[0] == 'tie':
        v = val(eng, st, a[0])
        names = ('first', 'second') if v.ty.n == 'std::pair' else [str(i) for i in range(len(ov.meta[1]))]
        for n, l in zip(names, ov.meta[1]):
            if isinstance(l, Val): continue
            eng.write(st, l, Val(l.ty, {p[1:]: x for p, x in v.d.items() if p[:1] == (n,)}))
        return o
    raise Unsupported('tuple assignment')


FUNCTORS = {'std::less': '<', 'std::less_equal': '<=', 'std::greater': '>', 'std::greater_equal': '>=', 'std::equal_to': '==', 'std::not_equal_to': '!='}


def functor(eng, st, n, a):
    if isinstance(a[0], LV) and a[0].ty.k == 'rec': raise Unsupported('%s on objects' % n)
    return Val(BOOL, {(): eng.compare(st, FUNCTORS[n], val(eng, st, a[0]), val(eng, st, a[1]))})


for f_ in FUNCTORS:
    M[f_ + '::operator()'] = lambda eng, st, o, a, c, tu, f_=f_: functor(eng, st, f_, a)

_look = lookup


def lookup(name):
    m = _look(name)
    if m is not None: return m
    if any(name.startswith(s) for s in STRS): return opaque_str
    return None


def opaque_str(eng, st, o, a, c, tu):
    t = tu.ty(c['ret'])
    if t.k == 'void': return Val(VOID, {})
    if t.k == 'ref':
        if isinstance(o, LV) and o.ty.s == t.t.s: return o
        return eng.tmp(st, eng.havocval(t.t, 'str'))
    return eng.havocval(t, 'str')
