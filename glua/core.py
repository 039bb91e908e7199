"""Resolved-program model: runs the AST dumper over /repo's sources for one
build configuration and links the translation units into one Program."""
import json, os, re, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GLU_REPO', '/repo')


class AnalysisError(Exception):
    """the analysis cannot give an answer (vanished anchor, parse failure...)"""


class Type(object):
    __slots__ = ('s', 'k', 'sz', 'e', 'n', 'r', 'c', 'vol', 'ps', 'ret', 'sg', 'va', '_ix')

    def __init__(self):
        self.s = ''
        self.k = self.sz = self.e = self.n = self.r = None
        self.c = self.vol = 0
        self.ps = self.ret = self.sg = self.va = None

    def __repr__(self):
        return '<%s>' % self.s

    @property
    def isptr(self):
        return self.k == 'ptr'


class Node(object):
    # absent attributes read as None (class attributes: no __getattr__ call for the common ones)
    k = l = f = n = d = fn = o = e = a = b = c = i = v = t = args = fe = ck = at = es = init = inc = ct = cl = None
    arrow = nloops = dir = None

    def __init__(self, d):
        self.__dict__.update(d)

    def __getattr__(self, a):
        return None

    def __repr__(self):
        return 'N(%s@%s)' % (self.__dict__.get('k'), self.__dict__.get('l'))


class Var(object):
    def __init__(self):
        self.id = self.name = self.type = self.otype = None
        self.line = 0
        self.isglobal = self.static = self.isparam = False
        self.init = None
        self.vla = None
        self.func = None
        self.index = None
        self.file = None

    def __repr__(self):
        return 'Var(%s)' % self.name


class Func(object):
    def __init__(self):
        self.name = self.key = self.file = None
        self.line = self.endline = 0
        self.params = []
        self.body = None
        self.ret = None
        self.static = False
        self.locals = {}
        self.tu = None

    def __repr__(self):
        return 'Func(%s)' % self.key


class Program(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.funcs = {}      # key -> Func with body
        self.protos = {}     # name -> Func without body
        self.globals = {}    # id -> Var
        self.vars = {}       # id -> Var (all)
        self.records = {}    # name -> list of (field, Type, off)
        self.enums = {}      # name -> list of (const, value)
        self.enumconst = {}  # const name -> (enum, value)
        self.files = []
        self.macros = {}

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            raise AnalysisError('anchor function %s has vanished (config %s)' % (name, self.cfg))
        return f


def built_sources(repo=None):
    """the sources src/Makefile.am puts in libGLU.a and GLU"""
    repo = repo or REPO
    mk = open(os.path.join(repo, 'src', 'Makefile.am')).read()
    mk = mk.replace('\\\n', ' ')
    res = []
    for line in mk.splitlines():
        m = re.match(r'\s*([A-Za-z_0-9]+)\s*=(.*)', line)
        if not m or m.group(1) == 'include_HEADERS':
            continue
        for t in m.group(2).split():
            if t.endswith('.c') and '$' not in t and '%' not in t:
                res.append(os.path.normpath(os.path.join(repo, 'src', t)))
    seen = []
    for r in res:
        if r not in seen:
            seen.append(r)
    if len(seen) < 50:
        raise AnalysisError('only %d sources found in src/Makefile.am' % len(seen))
    miss = [s for s in seen if not os.path.exists(s)]
    if miss:
        raise AnalysisError('sources listed in src/Makefile.am are missing: %s' % miss)
    return seen


def dumper_path(name='gludump'):
    p = os.path.join(VERIF, 'build', name)
    src = os.path.join(VERIF, 'dumper', name + '.cpp')
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        r = subprocess.run(['bash', os.path.join(VERIF, 'dumper', 'build.sh'), name, p + '.tmp%d' % os.getpid()],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise AnalysisError('cannot build the AST dumper: %s' % r.stdout.decode()[-2000:])
        os.rename(p + '.tmp%d' % os.getpid(), p)
    return p


_resdir = None


def resource_dir():
    global _resdir
    if _resdir is None:
        _resdir = subprocess.check_output(['clang-18', '-print-resource-dir']).decode().strip()
    return _resdir


def compile_flags(cfgdir, repo):
    extra = os.path.join(cfgdir, 'flags')
    return (open(extra).read().split() if os.path.exists(extra) else []) + ['-resource-dir', resource_dir(), '-I' + os.path.join(VERIF, 'stubs'),
            '-std=gnu17', '-fopenmp', '-msse2', '-Wno-error=implicit-function-declaration',
            '-w', '-DHAVE_CONFIG_H', '-I' + cfgdir, '-I' + os.path.join(repo, 'src', 'Headers')]


def load(cfg, repo=None, extra_sources=None, sources=None):
    repo = repo or REPO
    if os.path.isdir(cfg):
        cfgdir = cfg
    else:
        cfgdir = os.path.join(VERIF, 'configs', cfg)
    srcs = sources if sources is not None else built_sources(repo)
    dumper = dumper_path()
    tmp = tempfile.mkdtemp(prefix='gludump')
    try:
        flags = compile_flags(cfgdir, repo)

        def one(ix):
            out = os.path.join(tmp, '%d.json' % ix)
            r = subprocess.run([dumper, out, srcs[ix], '--'] + flags,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode or not os.path.exists(out):
                # run the front end for the message
                m = subprocess.run(['clang-18', '-fsyntax-only'] + flags + [srcs[ix]],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                raise AnalysisError('cannot parse %s (config %s): %s' % (srcs[ix], cfg, m.stdout.decode()[-1500:]))
            return out
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, range(len(srcs))))
        prog = Program(os.path.basename(cfgdir))
        prog.repo = repo
        for ix, o in enumerate(outs):
            with open(o) as fh:
                d = json.load(fh)
            _link(prog, d, ix, srcs[ix])
        _resolve(prog)
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _link(prog, d, tu, src):
    repo = prog.repo
    rel = os.path.relpath(src, repo)
    prog.files.append(rel)
    files = [os.path.relpath(f, repo) if f.startswith('/') else f for f in d['files']]
    types = []
    for t in d['types']:
        types.append(Type())
    for T, t in zip(types, d['types']):
        T.s = t['s']
        T.k = t.get('k')
        T.sz = t.get('sz')
        T.n = t.get('n')
        T.r = t.get('r')
        if T.r and re.match(r'anon(enum)?\d+$', T.r):
            T.r = '%s/%d' % (T.r, tu)
        T.c = t.get('c', 0)
        T.vol = t.get('vol', 0)
        T.sg = t.get('sg')
        T.va = t.get('va')
        if 'e' in t:
            T.e = types[t['e']]
        if 'ps' in t:
            T.ps = [types[x] for x in t['ps']]
        if 'ret' in t:
            T.ret = types[t['ret']]
    for r in d['records']:
        n = r['n']
        if re.match(r'anon\d+$', n):
            n = '%s/%d' % (n, tu)
        prog.records.setdefault(n, [(f['n'], types[f['t']], f['off']) for f in r['fields']])
    for e in d['enums']:
        prog.enums.setdefault(e['n'], [(a, b) for a, b in e['c']])
        for a, b in e['c']:
            prog.enumconst[a] = (e['n'], b)
    statics = {}
    for f in d['functions']:
        if f.get('static') and 'b' in f:
            statics[f['n']] = f['n'] + '@' + rel
    gids = {}
    # globals
    for g in d['globals']:
        if g.get('static'):
            gid = 'g:' + g['n'] + '@' + rel
        else:
            gid = 'g:' + g['n']
        gids[g['id']] = gid
    conv = _Conv(prog, types, tu, rel, files, statics, gids)
    for g in d['globals']:
        gid = gids[g['id']]
        V = prog.globals.get(gid)
        if V is None:
            V = Var()
            V.id = gid
            V.name = g['n']
            V.isglobal = True
            V.static = bool(g.get('static'))
            V.type = types[g['t']]
            V.file = files[g['f']]
            V.line = g['l']
            prog.globals[gid] = V
            prog.vars[gid] = V
        if g.get('def'):
            V.file = files[g['f']]
            V.line = g['l']
            V.type = types[g['t']]
            V.isdef = True
        if 'init' in g:
            V.init = conv.node(g['init'])
    for f in d['functions']:
        F = Func()
        F.name = f['n']
        F.file = files[f['f']]
        F.line = f['l']
        F.static = bool(f.get('static'))
        F.ret = types[f['ret']]
        F.tu = rel
        conv.cur = F
        for i, p in enumerate(f['ps']):
            V = conv.var(p)
            V.isparam = True
            V.index = i
            F.params.append(V)
        if 'b' in f:
            F.key = statics.get(f['n'], f['n'])
            F.endline = f['le']
            F.body = conv.node(f['b'])
            if F.key in prog.funcs and prog.funcs[F.key].file == F.file:
                continue
            prog.funcs[F.key] = F
        else:
            F.key = f['n']
            prog.protos.setdefault(f['n'], F)


class _Conv(object):
    LISTS = ('b', 'args', 'es', 'ch', 'v', 'cl')
    SKIP = frozenset(('k', 'l', 'f', 't', 'n', 'o', 'r', 'cv', 'd', 'fn', 'fd', 'bi', 'ck', 'dir', 'c',
                      'id', 'kind', 'op', 'sched', 'cls', 'en', 'g', 'arrow', 'ex', 'le', 'nloops', 'chr', 'fill', 'static', 'extern'))

    def __init__(self, prog, types, tu, rel, files, statics, gids):
        self.prog, self.types, self.tu, self.rel = prog, types, tu, rel
        self.files, self.statics, self.gids = files, statics, gids
        self.cur = None

    def vid(self, raw):
        g = self.gids.get(raw)
        if g is not None:
            return g
        return self.tu * 1000000 + raw

    def var(self, d):
        V = Var()
        V.id = self.vid(d['id'])
        V.name = d['n']
        V.type = self.types[d['t']]
        if 'ot' in d:
            V.otype = self.types[d['ot']]
        V.line = d['l']
        V.static = bool(d.get('static'))
        V.isglobal = bool(d.get('g'))
        V.func = self.cur
        V.file = self.cur.file if self.cur else None
        if 'init' in d:
            V.init = self.node(d['init'])
        if 'vla' in d:
            V.vla = self.node(d['vla'])
        self.prog.vars[V.id] = V
        if self.cur is not None:
            self.cur.locals[V.id] = V
        return V

    def node(self, d):
        if d is None:
            return None
        n = Node.__new__(Node)
        D = n.__dict__
        k = d['k']
        D['k'] = k
        for key, val in d.items():
            if key == 't':
                D['t'] = self.types[val]
            elif key == 'r' and val.__class__ is str and val.startswith('anon'):
                D['r'] = '%s/%d' % (val, self.tu) if re.match(r'anon(enum)?\d+$', val) else val
            elif key == 'at' or key == 'ct':
                D[key] = self.types[val]
            elif key == 'f':
                D['f'] = self.files[val]
            elif k == 'decl' and key == 'v':
                D['v'] = [self.var(x) for x in val]
            elif k == 'omp' and key == 'cl':
                D['cl'] = [self.clause(c) for c in val]
            elif isinstance(val, dict):
                D[key] = self.node(val)
            elif isinstance(val, list):
                D[key] = [self.node(x) if isinstance(x, dict) else x for x in val]
            else:
                D[key] = val
        if k == 'ref':
            if d.get('fn'):
                D['fn'] = self.statics.get(d['n'], d['n'])
            else:
                D['d'] = self.vid(d['d'])
        elif k == 'call' and 'fn' in d:
            D['fn'] = self.statics.get(d['fn'], d['fn'])
        return n

    def clause(self, c):
        n = Node.__new__(Node)
        D = n.__dict__
        for key, val in c.items():
            if isinstance(val, dict):
                D[key] = self.node(val)
            elif isinstance(val, list):
                D[key] = [self.node(x) for x in val]
            else:
                D[key] = val
        return n


def _resolve(prog):
    pass


# ---------------------------------------------------------------- utilities
CHILD_KEYS = ('init', 'c', 'inc', 'a', 'b', 'e', 'i', 'fe', 'args', 'es', 'ch', 'v2', 'vla')


def children(n):
    """direct sub-nodes (expressions and statements)"""
    k = n.k
    D = n.__dict__
    if k == 'decl':
        for v in n.v:
            if v.vla is not None:
                yield v.vla
            if v.init is not None:
                yield v.init
        return
    if k == 'case':
        yield n.b
        return
    if k == 'omp':
        for c in n.cl:
            if c.e is not None and isinstance(c.e, Node):
                yield c.e
            if isinstance(c.chunk, Node):
                yield c.chunk
        if n.b is not None:
            yield n.b
        return
    for key in CHILD_KEYS:
        x = D.get(key)
        if x is None:
            continue
        if isinstance(x, list):
            for y in x:
                if isinstance(y, Node):
                    yield y
        elif isinstance(x, Node):
            yield x


def walk(n):
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(children(x))))


def strip(e):
    """drop casts"""
    while e is not None and e.k in ('cast', 'const'):
        e = e.e
    return e


def cval(e):
    """integer constant value of an expression or None"""
    if e is None:
        return None
    if e.k == 'int':
        return e.v
    if e.cv is not None:
        return e.cv
    if e.k == 'cast' or e.k == 'const':
        return cval(e.e)
    return None


def text(e, depth=0):
    """readable rendering of an expression, for reports"""
    if e is None:
        return ''
    if depth > 12:
        return '...'
    d = depth + 1
    k = e.k
    if k == 'int':
        return e.en if e.en else (repr(chr(e.v)) if e.chr and 32 <= e.v < 127 else str(e.v))
    if k == 'flt':
        return str(e.v)
    if k == 'str':
        return '"%s"' % (e.v or '').replace('\n', '\\n')
    if k == 'ref':
        return e.n
    if k == 'un':
        o = e.o
        if o in ('p++', 'p--'):
            return o[1:] + text(e.e, d)
        if o in ('q++', 'q--'):
            return text(e.e, d) + o[1:]
        return o + text(e.e, d)
    if k in ('bin', 'asg'):
        return '%s %s %s' % (text(e.a, d), e.o, text(e.b, d))
    if k == 'cond':
        return '%s ? %s : %s' % (text(e.c, d), text(e.a, d), text(e.b, d))
    if k == 'call':
        return '%s(%s)' % (e.fn.split('@')[0] if e.fn else text(e.fe, d), ', '.join(text(a, d) for a in e.args))
    if k == 'mem':
        return text(e.e, d) + ('->' if e.arrow else '.') + e.n
    if k == 'idx':
        return '%s[%s]' % (text(e.a, d), text(e.i, d))
    if k == 'cast':
        if e.ex:
            return '(%s)%s' % (e.t.s, text(e.e, d))
        return text(e.e, d)
    if k == 'sizeof':
        return 'sizeof(%s)' % e.at.s
    if k == 'const':
        return text(e.e, d)
    return k
