"""Discharging obligations with z3 (API) and, for what it leaves open, cvc5."""
import os, time, subprocess, tempfile, multiprocessing, signal
import z3
from .core import *


def mk_solver(timeout, seed=0, mbqi=False, auto=False):
    s = z3.SolverFor('ALL') if False else z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.set('smt.mbqi', mbqi)
    s.set('auto_config', auto)
    s.set('smt.solve_eqs', False)       # z3 5.3.2 loses E-matching instances otherwise
    s.set('smt.random_seed', seed)
    return s


def check(eng, o, acts, timeout, want_model=False, seed=0, mbqi=False, auto=False):
    t0 = time.time()
    s = mk_solver(timeout, seed, mbqi, auto)
    for f in eng.allfacts(o.nf): s.add(f)
    for a in acts: s.add(a)
    s.add(o.pc)
    if o.kind != 'cover': s.add(mk_not(o.goal))
    r = s.check()
    o.time += time.time() - t0
    if r == z3.unsat: return 'valid', '', None
    reason = s.reason_unknown() if r == z3.unknown else 'sat'
    model = None
    if want_model:
        try:
            m = s.model()
            model = '\n'.join(sorted('%s = %s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0 and len(str(m[d])) < 200))[:6000]
        except z3.Z3Exception:
            model = None
    return ('invalid' if r == z3.sat else 'unknown'), reason, model


def smt2(eng, o, acts):
    s = z3.Solver()
    for f in eng.allfacts(o.nf): s.add(f)
    for a in acts: s.add(a)
    s.add(o.pc)
    if o.kind != 'cover': s.add(mk_not(o.goal))
    return s.to_smt2()


def cvc5(eng, o, acts, timeout):
    t0 = time.time()
    txt = '(set-logic ALL)\n' + smt2(eng, o, acts)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--full-saturate-quant', f.name], capture_output=True, text=True, timeout=timeout + 5)
        out = r.stdout.strip().split('\n')[0]
    except Exception as e:
        out = 'error'
    finally:
        os.unlink(f.name)
    o.time += time.time() - t0
    return out


def actlits(eng): return [c.act if c.alive else mk_not(c.act) for c in eng.cands]


def second_chance(eng, tmo=3.0):
    """candidates dropped because of the short time limit get another chance once the others have settled"""
    n0 = sum(c.alive for c in eng.cands)
    # candidates with the same text in different loops stand and fall together
    groups = {}
    for c in eng.cands:
        if not c.alive and c.custom: groups.setdefault(c.name.split('@loop')[0], []).append(c)
    late = [c for c in eng.cands if not c.alive and c.slow and not c.custom]
    for g in ([late] if late else []) + list(groups.values()):
        for c in g: c.alive = True
        houdini1(eng, tmo, set(g))     # the others stay inductive when assumptions are added
    return sum(c.alive for c in eng.cands) > n0


class NoTime(Exception): pass


def houdini1(eng, tmo, only=None):
    rounds = 0
    inv = [o for o in eng.obls if o.kind == 'inv' and (only is None or o.cand in only)]
    while True:
        rounds += 1
        changed = False
        acts = actlits(eng)
        # entry obligations only depend on outer loops
        todo = [o for o in inv if o.cand.alive and not is_true(o.goal)]
        # batch per loop and phase
        groups = {}
        for o in todo: groups.setdefault((o.cand.loop.id, o.name.split()[0]), []).append(o)
        for g, os_ in groups.items():
            os_ = [o for o in os_ if o.cand.alive]
            if len(os_) > 1:
                b = Batch(os_)
                st, _, _ = check(eng, b, acts, tmo)
                if st == 'valid':
                    for o in os_: o.status = 'valid'
                    continue
            for o in os_:
                if not o.cand.alive: continue
                if getattr(eng, 'deadline', None) and time.time() > eng.deadline: raise NoTime()
                st, why, _ = check(eng, o, acts, tmo)
                o.status = st
                o.reason = why
                if st != 'valid':
                    o.cand.slow = 'timeout' in why or 'cancel' in why
                    o.cand.alive = False
                    changed = True
                    acts = actlits(eng)
        if not changed: break
    return rounds


class Batch:
    kind = 'inv'

    def __init__(self, os_):
        self.pc = os_[0].pc
        self.goal = z3.And(*[o.goal for o in os_])
        self.nf = max(o.nf for o in os_)
        self.time = 0.0


def discharge(eng, tmo=10.0, use_cvc5=True, deadline=None, hmo=0.5):
    """returns dict summary; sets status of each obligation"""
    eng.deadline = deadline
    try:
        return discharge1(eng, tmo, use_cvc5, deadline, hmo)
    except NoTime:
        for o in eng.obls:
            if o.kind == 'inv': o.cand.alive = False
            elif o.kind == 'cover': o.status = 'reachable'
            elif o.status != 'valid': o.status, o.reason, o.model = 'unknown', 'no time left', None
        return 0


def discharge1(eng, tmo, use_cvc5, deadline, hmo):
    rounds = houdini1(eng, hmo) if eng.cands else 0
    acts = actlits(eng)
    if any((c.slow or c.custom) and not c.alive for c in eng.cands):
        if any(check(eng, o, acts, 2.0)[0] != 'valid' for o in eng.obls if o.kind not in ('inv', 'cover')):
            second_chance(eng)
            acts = actlits(eng)
    for o in eng.obls:
        if o.kind == 'inv':
            if o.cand.alive:
                o.status = 'valid'
                o.backend = 'z3'
            continue
        if o.status == 'valid': continue
        if o.kind == 'cover':
            s = mk_solver(2.0)
            for f in eng.allfacts(o.nf): s.add(f)
            for a in acts: s.add(a)
            s.add(o.pc)
            r = s.check()
            o.status = 'vacuous' if r == z3.unsat else 'reachable'
            o.backend = 'z3'
            continue
        if deadline is not None and time.time() > deadline:
            o.status, o.reason, o.model = 'unknown', 'no time left', None
            continue
        st, why, m = check(eng, o, acts, tmo)
        o.backend = 'z3'
        if st != 'valid':
            for sd, au in ((11, False), (23, True)):
                s2, w2, _ = check(eng, o, acts, tmo, seed=sd, auto=au, mbqi=au)
                if s2 == 'valid':
                    st, why = s2, w2
                    break
        if st != 'valid' and use_cvc5:
            r = cvc5(eng, o, acts, tmo)
            if r == 'unsat':
                st, o.backend = 'valid', 'cvc5'
            elif r == 'sat':
                st = 'invalid'
                o.backend = 'z3+cvc5'
        if st != 'valid':
            _, why2, m = check(eng, o, acts, tmo, want_model=True, mbqi=True)
            if _ == 'valid':
                st = 'valid'
            else:
                if _ == 'invalid': st = 'invalid'
                why = why or why2
        o.status, o.reason, o.model = st, why, m
    return rounds
