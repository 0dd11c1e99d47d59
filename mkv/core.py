"""Values, states and term helpers of the verification-condition generator."""
import z3
from .prog import *

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
MAXLEN = 2 ** 31 - 8      # assumption: no container holds 2^31-8 elements or more


def is_true(t): return z3.is_true(t)
def is_false(t): return z3.is_false(t)


def mk_not(a):
    if is_true(a): return FALSE
    if is_false(a): return TRUE
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)


def mk_and(*xs):
    o = []
    for x in xs:
        if is_false(x): return FALSE
        if not is_true(x): o.append(x)
    if not o: return TRUE
    if len(o) == 1: return o[0]
    return z3.And(*o)


def mk_or(*xs):
    o = []
    for x in xs:
        if is_true(x): return TRUE
        if not is_false(x): o.append(x)
    if not o: return FALSE
    if len(o) == 1: return o[0]
    return z3.Or(*o)


def mk_imp(a, b):
    if is_true(a): return b
    if is_false(a) or is_true(b): return TRUE
    return z3.Implies(a, b)


def mk_if(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a.eq(b): return a
    if a.sort().eq(B):
        if is_true(a) and is_false(b): return c
        if is_false(a) and is_true(b): return mk_not(c)
    return z3.If(c, a, b)


def iconst(t):
    return t.as_long() if z3.is_int_value(t) else None


def mk_eq(a, b):
    if a.eq(b): return TRUE
    if z3.is_int_value(a) and z3.is_int_value(b): return z3.BoolVal(a.as_long() == b.as_long())
    return a == b


def sel(a, i):
    """read-over-write simplification"""
    while True:
        if z3.is_app_of(a, z3.Z3_OP_STORE):
            j = a.arg(1)
            if j.eq(i): return a.arg(2)
            ci, cj = iconst(i), iconst(j)
            if ci is not None and cj is not None:
                a = a.arg(0)
                continue
            d = const_diff(i, j)
            if d is not None and d != 0:
                a = a.arg(0)
                continue
        elif z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
            return a.arg(0)
        break
    return z3.Select(a, i)


def haspat(t, k):
    return any(x.eq(k) for x in subterms(t))


def subterms(t):
    out, stack, seen = [], [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        out.append(x)
        stack.extend(x.children())
    return out


def okpat(t):
    """usable inside a quantifier pattern: constants and selects only"""
    if z3.is_app(t):
        k = t.decl().kind()
        if k not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_ANUM, z3.Z3_OP_ADD, z3.Z3_OP_SUB): return False
        return all(okpat(c) for c in t.children())
    return False


def base_off(t):
    if z3.is_app_of(t, z3.Z3_OP_ADD) and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
        b, o = base_off(t.arg(0))
        return b, o + t.arg(1).as_long()
    if z3.is_app_of(t, z3.Z3_OP_SUB) and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
        b, o = base_off(t.arg(0))
        return b, o - t.arg(1).as_long()
    return t, 0


def const_diff(i, j):
    bi, oi = base_off(i)
    bj, oj = base_off(j)
    if bi.eq(bj): return oi - oj
    return None


def sel_n(a, idxs):
    for i in idxs:
        a = sel(a, i)
    return a


def sto(a, idxs, v):
    if not idxs: return v
    if len(idxs) == 1:
        return z3.Store(a, idxs[0], v)
    return z3.Store(a, idxs[0], sto(sel(a, idxs[0]), idxs[1:], v))


def karr(sort, v):
    return z3.K(I, v)


def consts_of(t, acc=None, seen=None):
    """free uninterpreted constants of a term"""
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        h = x.get_id()
        if h in seen: continue
        seen.add(h)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc[x.decl().name()] = x
            else:
                stack.extend(x.children())
    return acc


class Val:
    __slots__ = ('ty', 'd', 'meta')

    def __init__(self, ty, d, meta=None):
        self.ty, self.d, self.meta = ty, d, meta

    @property
    def t(self):
        return self.d[()]

    def __repr__(self):
        return 'Val(%s,%s,%s)' % (self.ty.s, self.d, self.meta)


class LV:
    """lvalue: root + path of steps; idxs are the index terms of the '[]'/'{}' steps in order"""
    __slots__ = ('root', 'path', 'idxs', 'ty')

    def __init__(self, root, path, idxs, ty):
        self.root, self.path, self.idxs, self.ty = root, tuple(path), tuple(idxs), ty

    def f(self, name, ty):
        return LV(self.root, self.path + (name,), self.idxs, ty)

    def i(self, idx, ty, step='[]'):
        return LV(self.root, self.path + (step,), self.idxs + (idx,), ty)

    def cast(self, ty):
        return LV(self.root, self.path, self.idxs, ty)

    def same(self, o):
        return (self.root == o.root and self.path == o.path and len(self.idxs) == len(o.idxs)
                and all(a.eq(b) for a, b in zip(self.idxs, o.idxs)))

    def __repr__(self):
        return 'LV(%s,%s,%s)' % (self.root, self.path, list(self.idxs))


HEAP = 'H'


def is_heap(root): return root == HEAP


class State:
    __slots__ = ('pc', 'store', 'py', 'epoch')

    def __init__(self, pc=TRUE):
        self.pc, self.store, self.py, self.epoch = pc, {}, {}, 0

    def copy(self):
        s = State(self.pc)
        s.store, s.py, s.epoch = dict(self.store), dict(self.py), self.epoch
        return s

    def setto(self, o):
        self.pc, self.store, self.py, self.epoch = o.pc, o.store, o.py, o.epoch

    @property
    def dead(self):
        return is_false(self.pc)


class Closure:
    def __init__(self, node, env, this, tu):
        self.node, self.env, self.this, self.tu = node, env, this, tu


def flt(s):
    if s in ('inf', '-inf', 'nan'):
        return None
    from fractions import Fraction
    f = Fraction(float.fromhex(s))
    return z3.RatVal(f.numerator, f.denominator)
