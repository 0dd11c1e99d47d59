"""Runs the check of one property: extraction, proof, bounded stand-ins / replay on the real code, evidence, verdict."""
import os, sys, json, time, subprocess, threading, multiprocessing, traceback, importlib, shutil, hashlib, glob
from . import prog as P
from .prog import Prog, Unsupported, extract, REPO, VERIF, CACHE
from . import solve as S

NPROC = 8


class Prop:
    """a property module defines: ID, SOURCES, CONTRACTS, optional HARNESS (dict), ASSUMPTIONS, FUNCTIONS"""


def timed_out(o):
    return o['kind'] not in ('inv', 'cover') and o['status'] not in ('valid', 'invalid') and any(x in (o['reason'] or '') for x in ('timeout', 'canceled', 'resource', 'no time left'))


def job(args):
    mod, ci, key, tmo, deadline, hmo = args
    t0 = time.time()
    m = sys.modules[mod]
    pr = m._prog
    c = m.CONTRACTS[ci]
    f = pr.funcs[key]
    out = {'contract': c.name, 'function': f.name, 'key': key, 'loc': f.loc, 'obls': [], 'error': None}
    try:
        eng = c.verify(pr, [x for x in m.CONTRACTS if not getattr(x, 'top_only', False)], f)
        rounds = S.discharge(eng, tmo, deadline=deadline, hmo=hmo)
        out['rounds'] = rounds
        out['loops'] = len(eng.loops)
        out['cands'] = len(eng.cands)
        out['kept'] = sum(1 for x in eng.cands if x.alive)
        out['keptnames'] = [x.name for x in eng.cands if x.alive]
        out['used'] = sorted(eng.used_contracts)
        out['inlined'] = sorted(pr.funcs[k].name for k in eng.inlined if k in pr.funcs)
        for o in eng.obls:
            if o.kind == 'inv' and not o.cand.alive: continue
            out['obls'].append({'name': o.name, 'kind': o.kind, 'status': o.status, 'time': round(o.time, 3), 'backend': o.backend, 'loc': o.loc,
                                'reason': o.reason, 'model': o.model if o.status not in ('valid', 'reachable') else None})
        from . import stdmodel
        out['std'] = sorted(stdmodel.USED)
        dump = os.environ.get('MKV_DUMP')
        if dump:
            acts = S.actlits(eng)
            for i, o in enumerate(eng.obls):
                if o.status not in ('valid', 'reachable') and o.kind != 'inv':
                    open('%s/%s-%d.smt2' % (dump, c.name.replace('/', '_').replace(' ', '_'), i), 'w').write(S.smt2(eng, o, acts))
    except Unsupported as e:
        out['error'] = 'out of reach: %s' % e
    except Exception as e:
        out['error'] = 'internal: %s' % ''.join(traceback.format_exception(e))[-1500:]
    out['wall'] = time.time() - t0
    return out


# ------------------------------------------------------------------ harness
def lib_sources():
    r = sorted(glob.glob(REPO + '/libs/MeshKernel/src/**/*.cpp', recursive=True))
    return r


CXX = ['clang++', '-std=c++20', '-O1', '-g0', '-fno-access-control', '-ffunction-sections', '-fdata-sections', '-include', 'numeric', '-include', 'memory', '-include', 'cstring']


PCH = """#include <MeshKernel/Mesh2D.hpp>
#include <MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp>
#include <MeshKernel/Operations.hpp>
#include <MeshKernel/Polygons.hpp>
#include <MeshKernel/Utilities/RTreeFactory.hpp>
#include <MeshKernel/Utilities/RTree.hpp>
#include <MeshKernel/Utilities/LinearAlgebra.hpp>
#include <MeshKernel/Exceptions.hpp>
"""


def compile_objs(srcs, outdir, extra=(), pch=None, jobs=NPROC):
    """compile sources in parallel; returns (objects, errors)"""
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(outdir, exist_ok=True)
    fl = [x for x in P.flags() if x != '-w'] + ['-w']

    def one(s):
        s = s if s.startswith('/') else os.path.join(REPO, s)
        o = os.path.join(outdir, hashlib.md5(s.encode()).hexdigest()[:10] + '-' + os.path.basename(s) + '.o')
        if s.endswith('.c'):
            cmd = ['clang', '-O1', '-g0', '-DTRILIBRARY', '-DANSI_DECLARATORS', '-DNO_TIMER', '-w'] + [x for x in fl if x.startswith('-I')] + ['-c', s, '-o', o]
        else:
            cmd = CXX + (['-include-pch', pch] if pch else []) + list(extra) + fl + ['-c', s, '-o', o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode and pch and not s.endswith('.c'):
            cmd = CXX + list(extra) + fl + ['-c', s, '-o', o]
            r = subprocess.run(cmd, capture_output=True, text=True)
        return s, o, r.returncode, r.stderr
    big = sorted(srcs, key=lambda s: -os.path.getsize(s if s.startswith('/') else os.path.join(REPO, s)))
    with ThreadPoolExecutor(jobs) as ex: res = list(ex.map(one, big))
    return [o for s, o, rc, e in res if rc == 0], [(s, e[-3000:]) for s, o, rc, e in res if rc]


def tree_hash():
    h = hashlib.sha256()
    for base in ('libs', 'extern'):
        for d, dn, fn in os.walk(os.path.join(REPO, base)):
            dn[:] = sorted(x for x in dn if x not in ('_build', '.git'))
            for f in sorted(fn):
                if f.endswith(('.cpp', '.hpp', '.h', '.c', '.in', '.hxx')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def build_lib(api):
    """all of MeshKernel (and the API library) from the current tree, as object files; cached by the content of the tree"""
    import fcntl
    d = os.path.join(CACHE, 'lib-' + tree_hash())
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lib.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.isdir(d):
            for old in glob.glob(os.path.join(CACHE, 'lib-*')): shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        pch = os.path.join(d, 'pch.pch')
        if not os.path.exists(pch):
            open(os.path.join(d, 'pch.hpp'), 'w').write(PCH)
            r = subprocess.run(CXX + [x for x in P.flags()] + ['-w', '-x', 'c++-header', '-fpch-instantiate-templates', os.path.join(d, 'pch.hpp'), '-o', pch], capture_output=True, text=True)
            if r.returncode: pch = None
        res, errs = [], []
        groups = [('core', lib_sources() + glob.glob(REPO + '/extern/triangle/**/*.c', recursive=True))]
        if api: groups.append(('api', sorted(glob.glob(REPO + '/libs/MeshKernelApi/src/**/*.cpp', recursive=True))))
        todo = [(n, ss) for n, ss in groups if not os.path.exists(os.path.join(d, n + '.done'))]
        if todo:
            o, errs = compile_objs([s for n, ss in todo for s in ss], os.path.join(d, 'o'), ['-I' + VERIF + '/harness/include'], pch)
            for n, ss in todo:
                if not any(s in ss for s, e in errs):
                    json.dump([os.path.join(d, 'o', hashlib.md5(s.encode()).hexdigest()[:10] + '-' + os.path.basename(s) + '.o') for s in ss], open(os.path.join(d, n + '.done'), 'w'))
        if errs: raise RuntimeError('compile error in %s: %s' % errs[0])
        for n, ss in groups: res += json.load(open(os.path.join(d, n + '.done')))
        return res, pch


class Harness(threading.Thread):
    """compiles the replay/bounded harness against the current sources of /repo and runs it"""

    def __init__(self, cfg, pid, seed, tier):
        super().__init__()
        self.cfg, self.pid, self.seed, self.tier = cfg, pid, seed, tier
        self.dir = os.path.join(CACHE, 'h-%s-%d' % (pid, os.getpid()))
        self.result = None
        self.error = None
        self.start_t = time.time()

    def run(self):
        try:
            self._run()
        except Exception as e:
            self.error = ''.join(traceback.format_exception(e))[-2000:]
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def _run(self):
        cfg = self.cfg
        os.makedirs(self.dir, exist_ok=True)
        main = [os.path.join(VERIF, 'harness', s) for s in cfg['main']]
        srcs = list(cfg['sources'])
        extra = cfg.get('flags', [])
        exe = os.path.join(self.dir, 'h')
        inc = ['-I' + VERIF + '/harness/include', '-I' + VERIF + '/harness']
        err = None
        ok = False
        if srcs != ['lib'] and srcs != ['api']:
            objs, errs = compile_objs(main + srcs, self.dir, list(extra) + inc)
            if errs: err = 'harness compile error: %s\n%s' % errs[0]
            else:
                r = subprocess.run(['clang++', '-o', exe, '-Wl,--gc-sections'] + objs + cfg.get('libs', []), capture_output=True, text=True)
                ok = r.returncode == 0
        if not ok:
            # the whole library
            o2, pch = build_lib('api' in srcs)
            objs, errs = compile_objs(main, self.dir, list(extra) + inc, pch)
            if errs:
                self.error = 'harness compile error: %s\n%s' % errs[0]
                return
            r = subprocess.run(['clang++', '-o', exe, '-Wl,--gc-sections'] + objs + o2 + cfg.get('libs', []), capture_output=True, text=True)
            if r.returncode:
                self.error = 'harness link error: ' + r.stderr[-2000:]
                return
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        self.build_s = time.time() - self.start_t
        if os.environ.get('MKV_KEEP'): shutil.copy(exe, os.environ['MKV_KEEP'])
        work = os.path.join(self.dir, 'work')
        os.makedirs(work)
        try:
            r = subprocess.run([exe], capture_output=True, text=True, timeout=cfg.get('timeout', 240), env=env, cwd=work, errors='replace')
            self.rc, self.out, self.err = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            self.rc, self.out, self.err = -999, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
        self.result = True


def parse_harness(out):
    """lines: FAIL <finding key> :: <description with concrete input> ; STAT name value ; SAMPLE text ; COVER fn"""
    fails, stats, samples, cover = [], {}, [], []
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            k, _, d = l[5:].partition(' :: ')
            fails.append((k.strip(), d.strip()))
        elif l.startswith('STAT '):
            _, n, v = l.split(' ', 2)
            stats[n] = stats.get(n, 0) + int(v)
        elif l.startswith('SAMPLE '): samples.append(l[7:])
        elif l.startswith('COVER '): cover.append(l[6:])
    return fails, stats, samples, cover


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


def main(pid):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    m = importlib.import_module('props.' + pid)
    kf = known_findings(pid)
    h = None
    if getattr(m, 'HARNESS', None):
        h = Harness(m.HARNESS, pid, seed, tier)
        h.start()
    notes = []
    results = []
    pr = None
    tmo = 10.0 if tier == 'quick' else 60.0
    try:
        pr = extract(m.SOURCES)
        if pr.errors: notes.append('extraction errors: %s' % (pr.errors,))
        m._prog = pr
        if hasattr(m, 'prepare'): m.prepare(pr)
        jobs = []
        for ci, c in enumerate(m.CONTRACTS):
            if c.trusted or c.only_call: continue
            ts = c.targets(pr)
            if not ts: results.append({'contract': c.name, 'function': c.cname, 'error': 'out of reach: function not found in the extracted sources', 'obls': [], 'loc': '', 'wall': 0})
            for f in ts: jobs.append((m.__name__, ci, f.key, tmo, t0 + (400 if tier == 'quick' else 3600), 0.5))
        ctx = multiprocessing.get_context('fork')
        if jobs:
            with ctx.Pool(min(NPROC, len(jobs)), maxtasksperchild=4) as pool:
                done = pool.map(job, jobs, chunksize=1)
            # functions with obligations left open by the time limit are tried once more, with a longer limit
            again = [i for i, r in enumerate(done) if not r['error'] and any(timed_out(o) for o in r['obls']) and not any(o['kind'] not in ('inv', 'cover') and o['status'] != 'valid' and not timed_out(o) for o in r['obls'])]
            if again and h is not None:
                h.join()
                if h.result and any(not any(x['key'] == k for x in kf) for k, d in parse_harness(h.out)[0]): again = []     # failing inputs are known already
            if again:
                with ctx.Pool(min(NPROC, len(again)), maxtasksperchild=1) as pool:
                    for i, r in zip(again, pool.map(job, [jobs[i][:3] + (3 * tmo, t0 + (560 if tier == 'quick' else 7200), 1.0) for i in again], chunksize=1)):
                        r['retried'] = True
                        done[i] = r
            results += done
    except Exception as e:
        notes.append('proof machinery error: ' + ''.join(traceback.format_exception(e))[-1500:])
    # -------- verdict of the proof
    failed, undecided, reach, nobl, ndis, solver = [], [], [], 0, 0, 0.0
    backends = {}
    fns = []
    for r in results:
        if r['error']:
            reach.append((r['contract'], r['function'], r['error']))
            continue
        n = d = 0
        for o in r['obls']:
            solver += o['time']
            if o['kind'] == 'cover':
                if o['status'] == 'vacuous': undecided.append((r['function'], 'vacuous: ' + o['name'], o))
                continue
            n += 1
            if o['status'] == 'valid':
                d += 1
                backends[o['backend'] or 'z3'] = backends.get(o['backend'] or 'z3', 0) + 1
            elif o['reason'] == 'no time left' or timed_out(o) and not r.get('retried'):
                undecided.append((r['function'], o['name'], o))
            else:
                failed.append((r['function'], o['name'], o))
        nobl += n
        ndis += d
        fns.append({'function': r['function'], 'at': r['loc'], 'contract': r['contract'], 'obligations': n, 'discharged': d, 'loops': r.get('loops'), 'invariants_kept': r.get('kept'),
                    'candidates': r.get('cands'), 'inlined': r.get('inlined'), 'contracts_used': r.get('used'), 'wall_s': round(r['wall'], 2)})
    if h is not None:
        h.join()
    fails, stats, samples, cover = [], {}, [], []
    hnote = None
    if h is not None:
        if h.result:
            fails, stats, samples, cover = parse_harness(h.out)
            if h.rc not in (0, 1) and not fails:
                # the real code crashed on a contract-respecting input (last announced case) 
                last = [l for l in h.out.split('\n') if l.startswith('CASE ')][-1:]
                if h.rc < 0 and h.rc != -999 and h.rc not in (-9, -15):
                    fails.append(('crash', 'the code under test was killed by signal %d; last case: %s' % (-h.rc, last[0] if last else '?')))
                elif h.rc == -999: 
                    if m.HARNESS.get('hang_is_failure', True) and last: fails.append(('hang', 'no answer within the time limit; last case: %s' % last[0]))
                    else: hnote = 'harness timeout'
                else: hnote = 'harness exit %s: %s' % (h.rc, h.err[-500:])
        else:
            hnote = h.error
    newfails = []
    for k, d in fails:
        hit = [x for x in kf if x['key'] == k]
        if hit: continue
        newfails.append((k, d))
    for x in kf:
        if x['key'].startswith('obl:') or any(k == x['key'] for k, d in fails):
            print('KNOWN-FINDING: property=%s %s' % (pid, x['what']))
    kfo = [x['key'][4:] for x in kf if x['key'].startswith('obl:')]
    failed = [x for x in failed if not any(k in (x[0] + ' ' + x[1]) for k in kfo)]
    violation = None
    rdir = os.path.join(VERIF, 'replay')
    if newfails or failed:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid)
            if newfails:
                f.write('\nconcrete failing inputs on the real code (harness %s, VERIF_SEED=%d, tier %s):\n' % (m.HARNESS['main'], seed, tier))
                for k, d in newfails[:50]: f.write('  [%s] %s\n' % (k, d))
            for fn, n, o in failed:
                f.write('\nfailed obligation: %s\n  in function %s at %s\n  solver: %s %s\n' % (n, fn, o['loc'], o['status'], o['reason']))
                if o['model']: f.write('  counterexample candidate:\n    ' + o['model'].replace('\n', '\n    ') + '\n')
        violation = rp
    level = getattr(m, 'LEVEL', 'proof')
    proved = nobl > 0 and nobl == ndis and not reach and not undecided
    cov = {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3-vt /verif/check.py ' + pid,
           'backends': backends, 'solver_time_s': round(solver, 2), 'functions_under_contract': fns,
           'trusted_base': ['clang 18 front end and cxxdump extractor', 'mkv VC generator (/verif/mkv)', 'z3 5.3.2 / cvc5 1.1.2'] + list(getattr(m, 'TRUSTED', [])) +
           ['assumed contract: ' + c.name for c in m.CONTRACTS if c.trusted or c.only_call],
           'std_models_used': sorted({s for r in results for s in r.get('std', [])}),
           'undecided': [(a, b) for a, b, c in undecided], 'out_of_reach': reach,
           'proved_completely': proved,
           'bounded_standin': {'what': getattr(m, 'BOUNDED', ''), 'evaluations': stats.get('evaluations', 0), 'distinct_nontrivial': stats.get('distinct', 0), 'stats': stats, 'note': hnote, 'covers': sorted(set(cover))},
           'evaluations': stats.get('evaluations', 0), 'distinct_nontrivial': stats.get('distinct', 0), 'rule': getattr(m, 'RULE', ''), 'samples': samples[:10]}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(m, 'ASSUMPTIONS', [])) + COMMON, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
    if notes: cov['notes'] = notes
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d functions (solver %.1fs), %d out of reach, %d undecided; bounded evaluations %d; %.0fs' %
          (pid, ndis, nobl, len(fns), solver, len(reach), len(undecided), stats.get('evaluations', 0), time.time() - t0))
    for n in notes: print('NOTE', n)
    if hnote: print('NOTE harness:', hnote)
    for a, b, c in reach: print('OUT-OF-REACH', a, b, c)
    for a, b, c in undecided: print('UNDECIDED', a, b)
    if violation:
        for fn, n, o in failed[:20]: print('FAILED-OBLIGATION %s: %s (%s)' % (fn, n, o['loc']))
        for k, d in newfails[:10]: print('FAILING-INPUT [%s] %s' % (k, d[:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, violation, '' if newfails else ' no-failing-input-found'))
        return 1
    if nobl == 0 and level == 'proof' and stats.get('evaluations', 0) == 0:
        print('ERROR: nothing was decided')
        return 2
    return 0


COMMON = ['doubles are modelled as reals with exact comparisons, arithmetic and elementary functions uninterpreted; NaN excluded, +0 and -0 identified',
          'containers hold fewer than 2^31-8 elements; memory allocation does not fail',
          'signed integer overflow does not occur (undefined behaviour); unsigned arithmetic is modular as in C++',
          'reference parameters of a verified function do not alias each other unless they are polymorphic objects',
          'standard library operations behave as modelled in mkv/stdmodel.py (libstdc++)']
