"""Loading of the extracted ASTs (cxxdump JSON) of one or more translation units."""
import json, os, re, subprocess, hashlib, sys
import z3

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()


class Unsupported(Exception):
    """the construct is outside the verified subset: the function is out of reach (never a violation)"""


def strip_targs(n):
    # drop template argument lists from a qualified name (operator<, operator-> etc. kept)
    out, d, i = [], 0, 0
    m = re.search(r'operator\W+$', n)
    tail = ''
    if m:
        tail = n[m.start():]
        n = n[:m.start()]
    for c in n:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out).replace('__cxx11::', '') + tail


class Ty:
    _intern = {}
    __slots__ = ('k', 's', 'bits', 'signed', 'n', 'args', 't', 'lam', 'const', 'rv', 'cnt')

    def __repr__(self):
        return 'Ty(%s)' % self.s


def _mk(**kw):
    t = Ty()
    t.bits = t.signed = t.n = t.args = t.t = t.lam = t.cnt = None
    t.const = t.rv = False
    for a, v in kw.items():
        setattr(t, a, v)
    return t


BOOL = _mk(k='bool', s='bool')
U32 = _mk(k='int', s='unsigned int', bits=32, signed=False)
I32 = _mk(k='int', s='int', bits=32, signed=True)
U64 = _mk(k='int', s='unsigned long', bits=64, signed=False)
I64 = _mk(k='int', s='long', bits=64, signed=True)
DBL = _mk(k='float', s='double', bits=64)
VOID = _mk(k='void', s='void')
for _t in (BOOL, U32, I32, U64, I64, DBL, VOID):
    Ty._intern[_t.s] = _t


class TU:
    def __init__(self, prog, d):
        self.d = d
        self.prog = prog
        self._ty = {}

    def ty(self, tid):
        if tid in self._ty:
            return self._ty[tid]
        j = self.d['types'][tid]
        s = j['s']
        const = bool(j.get('const'))
        if const and s.startswith('const '):
            s = s[6:]
        elif const and s.endswith(' const'):
            s = s[:-6]
        elif const and s.endswith('*const'):
            s = s[:-5]
        if s in Ty._intern:
            t = Ty._intern[s]
            self._ty[tid] = t
            return t
        t = _mk(k=j['k'], s=s)
        Ty._intern[s] = t
        self._ty[tid] = t
        k = t.k
        if k == 'int':
            t.bits, t.signed = j['bits'], j['signed']
        elif k == 'float':
            t.bits = j['bits']
        elif k == 'enum':
            t.n = j['n']
            u = self.ty(j['u']) if 'u' in j else I32
            t.bits, t.signed = (u.bits or 32), (u.signed if u.signed is not None else True)
            if u.k == 'bool':
                t.bits, t.signed = 8, False
        elif k in ('ref', 'ptr', 'array'):
            t.t = self.ty(j['t'])
            t.rv = bool(j.get('rv'))
            t.const = bool(self.d['types'][j['t']].get('const'))
            t.cnt = j.get('n')
        elif k == 'rec':
            t.n = strip_targs(j['n'])
            t.args = [self.targ(a) for a in j['args']]
            t.lam = j.get('lambda')
        return t

    def targ(self, a):
        if 't' in a:
            return self.ty(a['t'])
        if 'i' in a:
            return int(a['i'])
        if 'pack' in a:
            return [self.targ(x) for x in a['pack']]
        return None


class Func:
    def __init__(self, tu, key, j):
        self.tu, self.key, self.j = tu, key, j
        self.name = j['n']
        self.sname = strip_targs(j['n'])
        self.loc = j.get('loc', '')
        self.body = j.get('body')

    @property
    def params(self):
        return [(p['id'], p['n'], self.tu.ty(p['t'])) for p in self.j['params']]

    @property
    def ret(self):
        return self.tu.ty(self.j['ret'])

    @property
    def cls(self):
        return self.tu.ty(self.j['cls']) if 'cls' in self.j else None

    @property
    def is_method(self):
        return 'cls' in self.j and not self.j.get('static')


class Prog:
    def __init__(self):
        self.tus = []
        self.funcs = {}      # mangled -> Func
        self.callees = {}    # mangled -> dict (with _tu)
        self.records = {}    # type string -> (tu, json)
        self.enums = {}
        self.globals = {}
        self._fields = {}
        self._leaves = {}
        self.byname = {}

    def load(self, d):
        tu = TU(self, d)
        self.tus.append(tu)
        for k, v in d['records'].items():
            if v and k not in self.records:
                self.records[k] = (tu, v)
        for k, v in d['enums'].items():
            self.enums.setdefault(k, {a: int(b) for a, b in v.items()})
        for k, v in d['globals'].items():
            if k not in self.globals or 'init' in v and 'init' not in self.globals[k][1]:
                self.globals[k] = (tu, v)
        for k, v in d['callees'].items():
            if v and k not in self.callees:
                self.callees[k] = (tu, v)
        for k, v in d['functions'].items():
            if k not in self.funcs:
                f = Func(tu, k, v)
                self.funcs[k] = f
                self.byname.setdefault(f.sname, []).append(f)
        return tu

    # ---- record structure
    def rec(self, t):
        return self.records.get(t.s)

    def fields(self, t):
        """flattened [(step name, Ty, fieldjson, tu, declaring Ty)] including bases"""
        r = self._fields.get(t.s)
        if r is not None:
            return r
        if t.s not in self.records:
            raise Unsupported('record ' + t.s)
        tu, j = self.records[t.s]
        out = []
        for b in j['bases']:
            bt = tu.ty(b)
            if bt.s in self.records:
                out += self.fields(bt)
        short = strip_targs(j['n']).split('::')[-1]
        for f in j['fields']:
            out.append((short + '::' + f['n'], tu.ty(f['t']), f, tu, t))
        self._fields[t.s] = out
        return out

    def poly(self, t):
        return t.s in self.records and self.records[t.s][1].get('poly')

    def bases(self, t):
        if t.s not in self.records:
            return []
        tu, j = self.records[t.s]
        return [tu.ty(b) for b in j['bases']]

    def bases_of(self, s):
        """names of all base classes"""
        out = []
        if s in self.records:
            for b in self.bases(Ty._intern[s]): out += [b.s] + self.bases_of(b.s)
        return out

    def derives(self, t, base):
        if t.s == base.s:
            return True
        return any(self.derives(b, base) for b in self.bases(t))

    def find(self, name, nparams=None, params=None, cls=None):
        """functions by (template-argument-free) qualified name; params: list of substrings of the type names"""
        fs = list(self.byname.get(name, []))
        if nparams is not None:
            fs = [f for f in fs if len(f.params) == nparams]
        if params is not None:
            fs = [f for f in fs if len(f.params) == len(params) and all(x in p[2].s for x, p in zip(params, f.params))]
        return fs


REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')


def flags():
    r = REPO
    return ['-std=c++20', '-DHAVE_SRC_LOC_IN_ERR_MSGS=0', '-DUSE_LIBFMT=0', '-DCMAKE_SRC_DIR=' + r,
            '-I' + r + '/libs/MeshKernel/include', '-I' + r + '/libs/MeshKernelApi/include', '-I' + VERIF + '/harness/include',
            '-I' + r + '/tools', '-I' + r + '/libs/MeshKernel/src', '-I' + r + '/extern/triangle/include',
            '-I/usr/include/eigen3', '-w', '-include', 'numeric', '-include', 'memory', '-include', 'cstring']


def build_tool():
    src = os.path.join(VERIF, 'tool', 'cxxdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'cxxdump-' + h)
    if not os.path.exists(out):
        subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh'), out], check=True, stdout=subprocess.DEVNULL)
    return out


def extract(sources, prog=None):
    """run the extractor on the current /repo sources (never cached across runs: outputs are rebuilt each call)"""
    tool = build_tool()
    prog = prog or Prog()
    procs = []
    outd = os.path.join(CACHE, 'ast-%d' % os.getpid())
    os.makedirs(outd, exist_ok=True)
    try:
        for i, s in enumerate(sources):
            out = os.path.join(outd, '%d.json' % i)
            p = subprocess.Popen([tool, out, REPO + '/libs/', s if s.startswith('/') else os.path.join(REPO, s), '--'] + flags(),
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            procs.append((s, out, p))
        errs = []
        for s, out, p in procs:
            _, e = p.communicate()
            if not os.path.exists(out):
                errs.append((s, e[-2000:]))
                continue
            d = json.load(open(out))
            if d['errors']:
                errs.append((s, e[-2000:]))
            prog.load(d)
    finally:
        for f in os.listdir(outd):
            os.unlink(os.path.join(outd, f))
        os.rmdir(outd)
    prog.errors = errs
    return prog
