"""Context-sensitive abstract interpreter over the resolved program.

Domains: integers are polynomials over atoms plus a lattice displacement;
pointers are (root object, access path, offset); colour matrices are typed by
the two lattice sites their indices live at.  Calls are inlined, constant loops
unrolled, site loops executed once with a generic iteration, serial loops with
a symbolic bound solved by linear induction.  Accesses made inside an OpenMP
parallel region are recorded and compared at every barrier."""
import math, re, sys
from .core import *
from . import poly as PL
from .poly import Poly, A, C, atom, ATOMS, nonneg, leq, less

sys.setrecursionlimit(20000)


class NeedChoice(Exception):
    def __init__(self, key, vals):
        self.key, self.vals = key, vals


class Budget(Exception):
    pass


# ------------------------------------------------------------------ values
class T(object):
    """unknown value; tt: may differ between threads of the region"""
    __slots__ = ('tt',)

    def __init__(self, tt=False):
        self.tt = tt

    def __repr__(self):
        return 'T!' if self.tt else 'T'

    def __eq__(self, o):
        return isinstance(o, T) and self.tt == o.tt

    def __hash__(self):
        return 7 + self.tt


TOP = T(False)
TOPT = T(True)


def top(tt):
    return TOPT if tt else TOP


class I(object):
    __slots__ = ('p', 'd', '_h', '_k')

    def __init__(self, p, d=None):
        self.p = p
        self.d = d
        self._h = None
        self._k = None

    def key(self):
        """canonical (base, displacement): LCU multiples moved into the time displacement"""
        if self._k is None:
            base, t = {}, {}
            for k, v in self.p.m.items():
                if 'LCU' in k:
                    kk = list(k)
                    kk.remove('LCU')
                    t[tuple(kk)] = v
                else:
                    base[k] = v
            d = self.d
            if d is None:
                d = (PL.ZERO,) * ND_()
            if t:
                d = d[:-1] + (d[-1] + Poly(t),)
            self._k = (Poly(base), d)
        return self._k

    def __eq__(self, o):
        return isinstance(o, I) and self.p == o.p and (self.d or None) == (o.d or None)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.p, self.d))
        return self._h

    @property
    def const(self):
        return self.p.const if self.d is None else None

    def atoms(self):
        s = self.p.atoms()
        if self.d:
            for x in self.d:
                s |= x.atoms()
        return s

    @property
    def tt(self):
        for a in self.atoms():
            x = ATOMS.get(a)
            if x is not None and x.tt:
                return True
        return False

    def __repr__(self):
        if self.d is None:
            return repr(self.p)
        return '%r@(%s)' % (self.p, ','.join(map(repr, self.d)))


_ND = [4]


def ND_():
    return _ND[0]


def norm_d(d):
    if d is None or all(not x.m for x in d):
        return None
    return tuple(d)


_IC = {}


def IC(n):
    v = _IC.get(n)
    if v is None:
        v = IC1(n)
        if -64 < n < 4096:
            _IC[n] = v
    return v


def IC1(n):
    return I(C(n))


class P(object):
    """pointer to element `off` of the array region at (obj, path)"""
    __slots__ = ('o', 'path', 'off', '_h')

    def __init__(self, o, path, off):
        self.o, self.path, self.off = o, path, off
        self._h = None

    def __eq__(self, x):
        return isinstance(x, P) and self.o is x.o and self.path == x.path and self.off == x.off

    def __hash__(self):
        if self._h is None:
            self._h = hash((id(self.o), self.path, self.off))
        return self._h

    def __repr__(self):
        return '&%s%s+%r' % (self.o, pathstr(self.path), self.off)


def pathstr(path):
    return ''.join(('.' + x) if isinstance(x, str) else '[%r]' % x for x in path)


class F(object):
    __slots__ = ('names',)

    def __init__(self, names):
        self.names = frozenset(names)

    def __eq__(self, o):
        return isinstance(o, F) and self.names == o.names

    def __hash__(self):
        return hash(self.names)

    def __repr__(self):
        return 'F%s' % sorted(self.names)


class E(object):
    """element of a matrix: type of the matrix, element index"""
    __slots__ = ('mt', 'ix', 'tt')

    def __init__(self, mt, ix, tt=False):
        self.mt, self.ix, self.tt = mt, ix, tt

    def __eq__(self, o):
        return isinstance(o, E) and self.mt == o.mt and self.ix == o.ix and self.tt == o.tt

    def __hash__(self):
        return hash((self.mt, self.ix, self.tt))

    def __repr__(self):
        return 'E(%r,%r)' % (self.mt, self.ix)


class M(object):
    """matrix type: start site, end site (I values); link: a bare gauge link"""
    __slots__ = ('s', 'e', 'link')

    def __init__(self, s, e, link=False):
        self.s, self.e, self.link = s, e, link

    def __eq__(self, o):
        return isinstance(o, M) and self.s == o.s and self.e == o.e

    def __hash__(self):
        return hash((self.s, self.e))

    def __repr__(self):
        return '<%s -> %s>' % (site_str(self.s), site_str(self.e))

    @property
    def tt(self):
        return self.s.tt or self.e.tt


class MX(object):
    """special matrix types"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n
    tt = False


BOT, ZEROM, IDM, TOPM = MX('uninitialised'), MX('zero'), MX('identity'), MX('any')


class Mis(object):
    """sum of elements whose matrices have different end points"""

    def __init__(self, a, b):
        self.a, self.b = a, b
    tt = False


def site_str(s):
    b, d = s.key()
    out = repr(b)
    names = 'xyztuvw' if False else None
    for mu, x in enumerate(d):
        if x.m:
            c = x.const
            if c is not None:
                out += ' %+d*e%d' % (c, mu)
            else:
                out += ' +(%r)*e%d' % (x, mu)
    return out


class Obj(object):
    __slots__ = ('name', 'kind', 'type', 'private', 'size', 'var', 'id', 'elsize', 'ver')
    N = [0]

    def __init__(self, name, kind, type_=None, private=False, size=None, var=None):
        self.name, self.kind, self.type, self.private, self.size, self.var = name, kind, type_, private, size, var
        Obj.N[0] += 1
        self.id = Obj.N[0]
        self.ver = 0

    def __repr__(self):
        return self.name


# ------------------------------------------------------- structural helpers
def vatoms(v):
    if isinstance(v, I):
        return v.atoms()
    if isinstance(v, M):
        return v.s.atoms() | v.e.atoms()
    if isinstance(v, P):
        s = set(v.off.atoms()) if v.off is not None else set()
        for x in v.path:
            if isinstance(x, I):
                s |= x.atoms()
        return s
    if isinstance(v, E):
        return vatoms(v.mt)
    return set()


def isub(v, a, r):
    """substitute atom a by the I value r inside index v"""
    if a not in v.atoms():
        return v
    if r.d is None:
        p = v.p.subst(a, r.p)
        d = None if v.d is None else norm_d(tuple(x.subst(a, r.p) for x in v.d))
        return I(p, d)
    # r displaced: a may only occur with coefficient one in the base
    s = v.p.split(a)
    if s is None or s[0].const != 1 or (v.d is not None and any(x.has(a) for x in v.d)):
        return None
    p = s[1] + r.p
    d = tuple(x + y for x, y in zip(r.d, v.d or (PL.ZERO,) * ND_()))
    return I(p, norm_d(d))


def vsub(v, a, r):
    if isinstance(v, I):
        x = isub(v, a, r)
        return x if x is not None else top(v.tt)
    if isinstance(v, M):
        s, e = isub(v.s, a, r), isub(v.e, a, r)
        if s is None or e is None:
            return TOPM
        return M(s, e, v.link)
    if isinstance(v, P):
        off = isub(v.off, a, r) if v.off is not None else None
        path = psub(v.path, a, r)
        if (off is None and v.off is not None) or path is None:
            return TOP
        return P(v.o, path, off)
    if isinstance(v, E):
        m = vsub(v.mt, a, r)
        ix = v.ix
        if isinstance(ix, I):
            ix = isub(ix, a, r)
        return E(m, ix, v.tt)
    return v


def psub(path, a, r):
    out = []
    for x in path:
        if isinstance(x, I):
            x = isub(x, a, r)
            if x is None:
                return None
        out.append(x)
    return tuple(out)


def is_mat(v):
    return isinstance(v, (M, MX, Mis))


def vtt(v):
    return bool(getattr(v, 'tt', False))


def join(a, b):
    if a is b or a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if is_mat(a) or is_mat(b):
        if not is_mat(a):
            a = TOPM
        if not is_mat(b):
            b = TOPM
        if a is BOT:
            return b
        if b is BOT:
            return a
        if a is TOPM or b is TOPM:
            return TOPM
        if a is ZEROM:
            return b
        if b is ZEROM:
            return a
        if site_eq_m(a, b):
            return a
        return TOPM
    if isinstance(a, F) and isinstance(b, F):
        return F(a.names | b.names)
    if isinstance(a, P) and isinstance(b, I) and b.const == 0:
        return a
    if isinstance(b, P) and isinstance(a, I) and a.const == 0:
        return b
    if isinstance(a, F) and isinstance(b, I):
        return a
    if isinstance(b, F) and isinstance(a, I):
        return b
    if isinstance(a, E) and isinstance(b, E) and a.ix == b.ix:
        m = join(a.mt, b.mt)
        return E(m, a.ix, a.tt or b.tt)
    return top(vtt(a) or vtt(b))


def reduce_key(k):
    """site key with the displacements taken modulo the lattice extents"""
    b, d = k
    out = []
    for mu, x in enumerate(d):
        n = 'L%d' % mu
        if (n,) in x.m:
            m = dict(x.m)
            del m[(n,)]
            x = Poly(m)
        out.append(x)
    return b, tuple(out)


def site_eq(a, b):
    return a == b or reduce_key(a.key()) == reduce_key(b.key())


def site_eq_m(a, b):
    return isinstance(a, M) and isinstance(b, M) and site_eq(a.s, b.s) and site_eq(a.e, b.e)


def site_ne(a, b):
    """the two sites are certainly different for some value of the loop atoms"""
    (b1, d1), (b2, d2) = reduce_key(a.key()), reduce_key(b.key())
    db = b1 - b2
    dd = [x - y for x, y in zip(d1, d2)]
    for p in [db] + dd:
        for at in p.atoms():
            k = ATOMS.get(at)
            if k is None or k.kind not in ('loop',):
                return False
    if db.m:
        # different base: only when they differ by a free loop index
        if db.const is not None:
            return False
        return True
    return any(p.m for p in dd)


class Lst(object):
    """entries of an array written by a finished loop"""
    __slots__ = ('lo', 'hi', 'v')

    def __init__(self, lo, hi, v):
        self.lo, self.hi, self.v = lo, hi, v

    def __eq__(self, o):
        return self.lo == o.lo and self.hi == o.hi and self.v == o.v

    def __hash__(self):
        return hash((self.lo, self.hi, self.v))

    def __repr__(self):
        return '[%r..%r):%r' % (self.lo, self.hi, self.v)


class State(object):
    __slots__ = ('mem', 'tm', 'ev', 'ret', 'wr')

    def __init__(self):
        self.mem = {}
        self.tm = {}      # (obj, pre, post) -> tuple of Lst, newest last
        self.ev = {}      # pending accesses in the current barrier phase
        self.ret = None
        self.wr = {}      # link writes of the current sweep

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.tm = dict(self.tm)
        s.ev = dict(self.ev)
        s.ret = self.ret
        s.wr = dict(self.wr)
        return s


def join_states(a, b):
    if a is None:
        return b
    if b is None:
        return a
    s = State()
    s.mem = m = dict(a.mem)
    # both descend from one state: walk the common part of the tables in step
    ra, rb = list(a.mem.items()), list(b.mem.items())
    i, la, lb = 0, len(ra), len(rb)
    while i < la and i < lb:
        ka, v = ra[i]
        kb, w = rb[i]
        if ka is not kb:
            break
        if v is not w:
            m[ka] = join(v, w)
        i += 1
    if i < la or i < lb:
        am, bm = dict(ra[i:]), dict(rb[i:])
        for k, v in am.items():
            w = bm.get(k)
            if w is None:
                if k[0].kind != 'local':
                    m[k] = join(v, TOPM) if is_mat(v) else top(vtt(v))
            elif w is not v:
                m[k] = join(v, w)
        for k, v in bm.items():
            if k not in am:
                m[k] = v if k[0].kind == 'local' else (join(v, TOPM) if is_mat(v) else top(vtt(v)))
    for k, v in a.tm.items():
        w = b.tm.get(k)
        if w is None or w == v:
            s.tm[k] = v
        else:
            s.tm[k] = join_lists(v, w)
    for k, v in b.tm.items():
        if k not in a.tm:
            s.tm[k] = v
    s.ev = dict(a.ev)
    s.ev.update(b.ev)
    s.wr = dict(a.wr)
    s.wr.update(b.wr)
    s.ret = join(a.ret, b.ret)
    return s


def join_lists(v, w):
    # common prefix kept; ranges with the same bounds joined; others to unknown
    if len(v) == len(w) and all(x.lo == y.lo and x.hi == y.hi for x, y in zip(v, w)):
        return tuple(Lst(x.lo, x.hi, join(x.v, y.v)) for x, y in zip(v, w))
    n = 0
    while n < len(v) and n < len(w) and v[n] == w[n]:
        n += 1
    out = list(v[:n])
    da = {(x.lo, x.hi): x.v for x in v[n:]}
    db = {(x.lo, x.hi): x.v for x in w[n:]}
    for k in list(da) + [k for k in db if k not in da]:
        if k in da and k in db:
            out.append(Lst(k[0], k[1], join(da[k], db[k])))
        else:
            x = da.get(k, db.get(k))
            out.append(Lst(k[0], k[1], TOPM if is_mat(x) else top(vtt(x))))
    return tuple(out)


# ---------------------------------------------------------------- interpreter
class Frame(object):
    def __init__(self, fn, call=None):
        self.fn = fn
        self.vars = {}
        self.objs = set()
        self.call = call
        self.divret = None


class Event(object):
    __slots__ = ('o', 'path', 'rw', 'ws', 'excl', 'file', 'line', 'fn', 'ser', 'seq', 'uni', 'par')
    N = [0]

    def __init__(self, o, path, rw, ws, excl, file, line, fn, ser):
        self.o, self.path, self.rw, self.ws, self.excl = o, path, rw, ws, excl
        self.file, self.line, self.fn, self.ser = file, line, fn, ser
        Event.N[0] += 1
        self.seq = Event.N[0]
        self.uni = False
        self.par = 0


class WS(object):
    """one execution of a worksharing loop"""
    N = [0]

    def __init__(self, node, atoms):
        self.node, self.atoms = node, atoms
        WS.N[0] += 1
        self.id = WS.N[0]


CMP = {'<': 1, '<=': 1, '>': 1, '>=': 1, '==': 1, '!=': 1}


class Interp(object):
    MAXRUNS = 200
    asgmemo = {}
    UNROLL = 12

    def __init__(self, prog, budget=4000000, skip=None):
        self.prog = prog
        nd = None
        for n, t, o in prog.records.get('site', []):
            if n == 'neighbor':
                nd = t.n
            if n == 'O':
                pass
        if nd is None:
            raise AnalysisError('struct site has no neighbor array (config %s)' % prog.cfg)
        self.ND = nd
        _ND[0] = nd
        self.skip = skip or (lambda f: False)
        self.budget0 = budget
        self.alarms = {}          # key -> dict
        self.count = {}           # counters
        self.visited = set()      # functions inlined
        self.sites = {}           # (rule) -> set of (file,line)
        self.globs = {}
        self.trace = []
        self.model = {}
        self.watch = None
        self.unmodelled = {}
        self.cmpmemo = {}
        self.heavies = {}
        self.cmemo = {}
        self.cgen = 0
        self.evlog = None
        self.evm = {}
        self._geom()

    # -------------------------------------------------- bookkeeping
    def _geom(self):
        for mu in range(self.ND):
            atom('L%d' % mu, 'geom')
        atom('LCU', 'geom')
        atom('NTH', 'geom')
        atom('TID', 'tid', tt=True)
        PL.SPATIAL[0] = tuple('L%d' % mu for mu in range(self.ND - 1))
        self.LT = A('L%d' % (self.ND - 1))
        self.VOL = A('LCU') * self.LT

    def cnt(self, k, n=None, w=1):
        self.count[k] = self.count.get(k, 0) + w
        if n is not None:
            self.sites.setdefault(k, set()).add((self.file(n), n.l))

    def file(self, n):
        if n is not None and n.f:
            return n.f
        return self.fr.fn.file if self.fr else '?'

    def alarm(self, rule, n, msg, extra=None):
        key = (rule, self.file(n), n.l if n is not None else 0, self.fr.fn.name, extra)
        if key not in self.alarms:
            self.alarms[key] = dict(rule=rule, file=self.file(n), line=n.l if n is not None else 0,
                                    function=self.fr.fn.name, msg=msg, entry=self.entry,
                                    path=[f.fn.name for f in self.frames], choices=dict(self.choices))

    def tick(self, w=1):
        self.fuel -= w
        if self.fuel < 0:
            raise Budget()

    # -------------------------------------------------- entry point driver
    def run(self, fname, setup=None, sig=None):
        fn = self.prog.func(fname)
        if not hasattr(self, 'queue'):
            self.queue = {}
        self.entry = fname
        work = [{}]
        runs = 0
        while work:
            ch = work.pop()
            runs += 1
            if runs > self.MAXRUNS:
                self.unmodelled['choices:' + fname] = 'more than %d parameter combinations' % self.MAXRUNS
                break
            self.choices = ch
            self.frames = []
            self.fr = None
            self.par = None
            self.ws = ()
            self.excl = None
            self.div = []
            self.serial = ()
            self.barriers = 0
            self.fuel = self.budget0
            self.globs = {}
            self.loopdepth = 0
            try:
                st = State()
                args = []
                fr = Frame(fn)
                for i, v in enumerate(fn.params):
                    if sig is not None and sig[i] is not None:
                        args.append(sig[i])
                    else:
                        args.append(self.param_value(fn, v))
                if setup:
                    setup(self, fn, args, st)
                self.invoke(fn, args, st, None)
                self.cnt('runs')
            except NeedChoice as e:
                for v in reversed(e.vals):
                    d = dict(ch)
                    d[e.key] = v
                    work.append(d)
            except Budget:
                self.unmodelled['budget:' + fname] = 'step budget exhausted'
        return runs

    def param_value(self, fn, v):
        t = v.type
        if t.k == 'ptr':
            if t.e.k == 'fn':
                return TOP
            o = Obj(v.name, 'param', t.e)
            if t.e.r == 'site':
                o.kind = 'lat'
                o.size = self.VOL
            return P(o, (), IC(0))
        if t.k == 'rec':
            o = Obj(v.name, 'param', t)
            return P(o, (), None)
        if t.k == 'enum':
            a = atom('param:%s.%s' % (fn.name, v.name), 'param')
            return I(A(a.name))
        if t.k == 'int':
            a = atom('param:%s.%s' % (fn.name, v.name), 'param')
            return I(A(a.name))
        return TOP

    def choose(self, key, vals):
        if key in self.choices:
            return self.choices[key]
        raise NeedChoice(key, vals)

    def param_atom(self, v):
        """name of the single entry-parameter atom v consists of, or None"""
        if isinstance(v, I) and v.d is None and len(v.p.m) == 1:
            k, c = list(v.p.m.items())[0]
            if c == 1 and len(k) == 1 and ATOMS[k[0]].kind == 'param':
                return k[0]
        return None

    def resolve(self, v):
        """apply the choices already made for parameter atoms"""
        if isinstance(v, I) and self.choices:
            for a in v.p.atoms():
                if a in self.choices:
                    v = I(v.p.subst(a, C(self.choices[a])), v.d)
        return v

    def as_dir(self, v):
        """a direction index: constant, by choice when it is an entry parameter"""
        v = self.resolve(v)
        if isinstance(v, I):
            if v.const is not None:
                return v.const
            for a in v.p.atoms():
                if v.d is None and ATOMS[a].kind == 'param':
                    self.choose(a, list(range(self.ND)))
        return None

    # -------------------------------------------------- memory
    def glob(self, vid):
        o = self.globs.get(vid)
        if o is None:
            V = self.prog.vars[vid]
            o = Obj(V.name, 'global', V.type, var=V)
            self.globs[vid] = o
        return o

    def var(self, n):
        d = n.d
        x = self.fr.vars.get(d)
        if x is not None:
            return x
        V = self.prog.vars.get(d)
        if V is None:
            return None
        if V.isglobal or V.static:
            return (self.glob(d), ())
        o = Obj(V.name, 'local', V.type, private=self.par is not None, var=V)
        self.fr.vars[d] = (o, ())
        self.fr.objs.add(o)
        return (o, ())

    parity = 0

    def rec(self, o, path, rw, n, uni=False):
        if self.par is None or o.private or o.kind == 'code':
            return
        st = self.st
        ws = self.ws
        key = (o, path, rw, tuple(w.id for w in ws), self.excl, n.l if n is not None else 0)
        e = st.ev.get(key)
        if e is not None:
            if self.evlog is not None:
                self.evlog.setdefault(key, e)
            return
        st.ev[key] = Event(o, path, rw, ws, self.excl, self.file(n), n.l if n is not None else 0,
                           self.fr.fn.name, self.serial)
        st.ev[key].uni = uni
        st.ev[key].par = self.parity
        if self.evlog is not None:
            self.evlog[key] = st.ev[key]
        self.cnt('accesses')

    def canon_path(self, path):
        out = []
        for x in path:
            if isinstance(x, I) and x.d is not None:
                b, d = x.key()
                dd = norm_d(d)
                out.append(I(b, dd))
            elif isinstance(x, I):
                if any('LCU' in k for k in x.p.m):
                    b, d = x.key()
                    out.append(I(b, norm_d(d)))
                else:
                    out.append(x)
            else:
                out.append(x)
        return tuple(out)

    def lookup(self, st, o, path):
        """stored value of a cell or None"""
        v = st.mem.get((o, path))
        if v is not None:
            return v
        for i, x in enumerate(path):
            if isinstance(x, I):
                lst = st.tm.get((o, path[:i], path[i + 1:]))
                if lst:
                    r = self.lookup_list(lst, x)
                    if r is not None:
                        return r
        return None

    def lookup_list(self, lst, x):
        if x.d is None:
            lo = hi = x.p
        else:
            lo = hi = None
        # range of the index over its own loop atoms
        for en in reversed(lst):
            if x.d is None:
                if leq(en.lo, x.p) and less(x.p, en.hi):
                    return vsub(en.v, '$', x)
                if self.disjoint(x.p, en):
                    continue
                # may overlap: unknown
                return TOPM if is_mat(en.v) else top(vtt(en.v))
            else:
                # a displaced site: any site of the volume
                b, d = x.key()
                sp = any(q.m for q in d[:-1])
                if en.lo == PL.ZERO and en.hi == self.VOL:
                    return vsub(en.v, '$', x)
                xt = I(b + A('LCU') * d[-1]) if not sp else None
                if xt is not None and leq(en.lo, xt.p) and less(xt.p, en.hi):
                    return vsub(en.v, '$', xt)
                # spatial displacement within one slice buffer
                if sp and not d[-1].m and leq(en.lo, b) and less(b, en.hi):
                    return vsub(en.v, '$', x)
                return TOPM if is_mat(en.v) else top(vtt(en.v))
        return None

    def disjoint(self, p, en):
        return leq(en.hi, p) or less(p, en.lo)

    def store(self, st, o, path, v):
        m = st.mem
        if isinstance(v, T) or m.get((o, path)) != v:
            o.ver += 1
        if any(isinstance(x, I) for x in path):
            # kill possibly equal cells
            dead = None
            for k in m:
                if k[0] is o and k[1] != path and self.may_alias(k[1], path, not is_mat(m[k])):
                    dead = (dead or []) + [k]
            if dead:
                for k in dead:
                    w = m[k]
                    m[k] = TOPM if is_mat(w) else top(vtt(w))
        m[(o, path)] = v

    def may_alias(self, p, q, scalar=False):
        if len(p) != len(q):
            return False
        for a, b in zip(p, q):
            if isinstance(a, str) or isinstance(b, str):
                if a != b:
                    return False
            else:
                if a == b:
                    continue
                if a.d is None and b.d is None:
                    df = a.p - b.p
                    if df.const is not None and df.const != 0:
                        return False
                    if less(a.p, b.p) or less(b.p, a.p):
                        return False
                    # different slices / loop indices are treated as distinct cells
                    if scalar and any(ATOMS[z].kind == 'opaque' for z in a.atoms() | b.atoms()):
                        continue
                    return False if (a.atoms() or b.atoms()) else True
                return False
        return True

    # -------------------------------------------------- l-values
    def lval(self, n, st):
        """(obj, path) of an l-value expression or None"""
        k = n.k
        if k == 'ref':
            if n.fn:
                return None
            return self.var(n)
        if k == 'mem':
            if n.arrow:
                v = self.eval(n.e, st)
                if not isinstance(v, P):
                    return None
                return self.deref(v, (n.n,))
            b = self.lval(n.e, st)
            if b is None:
                if n.e.k == 'call':
                    self.eval(n.e, st)
                return None
            return (b[0], b[1] + (n.n,))
        if k == 'idx':
            i = self.eval(n.i, st)
            if n.a.t is not None and n.a.t.k == 'arr':
                b = self.lval(n.a, st)
                if b is None:
                    return None
                if not isinstance(i, I):
                    return (b[0], b[1] + (self.opaque_index(n, i),))
                return (b[0], b[1] + (self.resolve(i),))
            v = self.eval(n.a, st)
            if not isinstance(v, P):
                return None
            if not isinstance(i, I):
                i = self.opaque_index(n, i)
            v = self.padd(v, self.resolve(i))
            if not isinstance(v, P):
                return None
            return self.deref(v, ())
        if k == 'un' and n.o == '*':
            v = self.eval(n.e, st)
            if not isinstance(v, P):
                return None
            return self.deref(v, ())
        if k == 'cast':
            return self.lval(n.e, st)
        if k == 'un' and n.o in ('p++', 'p--'):
            self.eval(n, st)
            return self.lval(n.e, st)
        if k in ('clit', 'init', 'str'):
            return None
        return None

    def opaque_index(self, n, v):
        a = atom('ix:%d:%s' % (n.l, '!' if vtt(v) else ''), 'opaque', tt=vtt(v))
        return I(A(a.name))

    def deref(self, p, more):
        if p.off is None:
            return (p.o, p.path + more)
        return (p.o, p.path + (p.off,) + more)

    def iadd(self, a, b):
        if not isinstance(a, I) or not isinstance(b, I):
            return top(vtt(a) or vtt(b))
        if a.d is None and b.d is None:
            return I(a.p + b.p)
        if a.d is not None and b.d is not None:
            return top(a.tt or b.tt)
        if b.d is not None:
            a, b = b, a
        q = b.p
        if not q.m:
            return a
        if all('LCU' in k for k in q.m):
            return I(a.p + q, a.d)
        if all(not x.m for x in a.d[:-1]):
            return I(a.p + q, a.d)
        return top(a.tt or b.tt)

    def padd(self, p, i):
        if p.off is None:
            if i.const == 0:
                return p
            return TOP
        r = self.iadd(p.off, i)
        if not isinstance(r, I):
            return TOP
        return P(p.o, p.path, r)

    # -------------------------------------------------- loads and stores
    def is_latt(self, o):
        return o.kind == 'global' and o.name == 'Latt'

    def load(self, o, path, t, n, st):
        """value of the cell (obj, path) of type t"""
        if t is not None and t.k == 'arr':
            return P(o, path, IC(0))
        if t is not None and t.k == 'rec':
            return P(o, path, None)
        # geometry
        if self.is_latt(o):
            r = self.load_latt(path)
            if r is not None:
                return r
        if len(path) >= 2 and path[-2] in ('neighbor', 'back'):
            return self.load_neigh(o, path, n)
        cp = self.canon_path(path)
        if t is not None and t.k == 'cplx':
            return self.load_elem(o, cp, n, st)
        self.rec(o, cp, 'r', n)
        v = self.lookup(st, o, cp)
        if isinstance(v, T) and not v.tt and t is not None and cp and \
                (t.k == 'int' or t.k == 'ptr' and any(isinstance(x, I) for x in cp)):
            # an unknown integer of a table or structure: the same one each time it is read
            v = None
        if v is not None:
            if is_mat(v):
                # the cell stands for the matrix the pointer leads to
                return P(o, path, IC(0)) if t is not None and t.k == 'ptr' else TOP
            if not o.private and vtt(v):
                # shared memory read at the same place by every thread; one that all of them just stored
                # something different in is still what each of them likes it to be
                if self.par is not None and isinstance(v, T) and any(
                        e.o is o and e.rw == 'w' and e.path == cp and not e.ws and not e.excl and not e.uni
                        for e in st.ev.values()):
                    return TOPT
                if not any(isinstance(x, I) and x.tt for x in cp):
                    if isinstance(v, (T, E)):
                        return TOP if isinstance(v, T) else E(v.mt, v.ix, False)
                    if isinstance(v, I):
                        return TOP
            return v
        tt = any(isinstance(x, I) and x.tt for x in cp)
        if t is None:
            return top(tt)
        if t.k == 'ptr':
            if t.e.k == 'fn':
                return top(tt)
            return P(o, path, IC(0))
        if t.k in ('int', 'enum'):
            if o.kind in ('param', 'global') and not any(isinstance(x, I) and x.const is None for x in cp):
                if self.const_global(o, cp):
                    return IC(self.const_global(o, cp)[0])
                a = atom('param:%s%s' % (o.name, pathstr(cp)), 'param')
                return self.resolve(I(A(a.name)))
            a = atom('o:%d.%d%s' % (o.id, o.ver, pathstr(cp)), 'opaque', tt=tt)
            if a.src is None:
                a.src = (o, cp)
            return I(A(a.name))
        return top(tt)

    def const_global(self, o, path):
        if o.kind == 'global' and not path and o.var is not None and o.var.init is not None and o.type.c:
            c = cval(o.var.init)
            if c is not None:
                return (c,)
        return None

    def load_latt(self, path):
        f = path[0] if path else None
        if f == 'Lcu':
            return I(A('LCU'))
        if f == 'Volume':
            return I(self.VOL)
        if f == 'dims' and len(path) == 2:
            c = self.as_dir(path[1])
            if c is not None and 0 <= c < self.ND:
                return I(A('L%d' % c))
            return TOP
        if f == 'Nthreads':
            return I(A('NTH'))
        return None

    def load_neigh(self, o, path, n):
        mu = self.as_dir(path[-1])
        x = path[-3] if len(path) >= 3 else None
        if not isinstance(x, I):
            return TOP
        self.cnt('neighbour', n)
        if mu is None:
            return top(x.tt or vtt(path[-1]))
        if not 0 <= mu < self.ND:
            self.alarm('bounds', n, 'neighbour table indexed with direction %d (ND=%d)' % (mu, self.ND))
            return TOP
        d = list(x.d) if x.d is not None else [PL.ZERO] * self.ND
        d[mu] = d[mu] + C(1 if path[-2] == 'neighbor' else -1)
        return I(x.p, norm_d(d))

    def load_elem(self, o, path, n, st):
        self.rec(o, self.elem_region(path), 'r', n)
        v = st.mem.get((o, path))
        tt = any(isinstance(x, I) and x.tt for x in path)
        if v is not None and not is_mat(v):
            if not o.private and vtt(v) and not tt:
                return TOP
            return v
        if not path or not isinstance(path[-1], I):
            return top(tt)
        mt = self.mtype_at(st, o, path[:-1], n)
        if isinstance(mt, (M, MX)) and mt is not TOPM and mt is not BOT:
            return E(mt, path[-1], tt or (o.private and False))
        return top(tt)

    def elem_region(self, path):
        if path and isinstance(path[-1], I):
            c = path[-1]
            # a constant element of a matrix stands for the matrix; a running element for itself
            if c.const is not None and len(path) > 1:
                return path[:-1]
        return path

    def mtype_at(self, st, o, path, n):
        """type of the matrix stored in the region (obj, path)"""
        v = self.lookup(st, o, path)
        if v is not None:
            return v if is_mat(v) else TOPM
        if len(path) >= 2 and path[-2] == 'O' and o.kind == 'lat':
            mu = self.as_dir(path[-1])
            x = path[-3] if len(path) >= 3 else None
            if mu is None or not isinstance(x, I):
                return TOPM
            if not 0 <= mu < self.ND:
                self.alarm('bounds', n, 'link direction %d (ND=%d)' % (mu, self.ND))
                return TOPM
            d = list(x.d) if x.d is not None else [PL.ZERO] * self.ND
            d[mu] = d[mu] + PL.ONE
            return M(x, I(x.p, norm_d(d)), True)
        if o.kind == 'local':
            t = o.type
            for x in path:
                if t is None:
                    break
                if isinstance(x, str):
                    t = next((q for m, q, _ in self.prog.records.get(t.r, []) if m == x), None) if t.k == 'rec' else None
                else:
                    t = t.e if t.k == 'arr' else None
            while t is not None and t.k == 'arr':
                t = t.e
            if t is not None and t.k == 'cplx':
                return BOT
        return TOPM

    def mget(self, v, n, st):
        """matrix type behind the pointer value v"""
        if not isinstance(v, P):
            return TOPM
        if v.off is None:
            return TOPM
        path = self.canon_path(v.path)
        self.rec(v.o, path, 'r', n)
        if v.off.const != 0:
            return TOPM
        return self.mtype_at(st, v.o, path, n)

    def mset(self, v, ty, n, st):
        if not isinstance(v, P):
            return
        if v.off is None:
            self.rec(v.o, self.canon_path(v.path), 'w', n)
            self.store(st, v.o, self.canon_path(v.path), TOP)
            return
        path = self.canon_path(v.path)
        self.rec(v.o, path, 'w', n)
        if v.off.const != 0:
            ty = TOPM
        self.mset_at(st, v.o, path, ty, n)

    def mset_at(self, st, o, path, ty, n):
        if o.kind == 'lat' and len(path) >= 2 and path[-2] == 'O':
            self.link_write(o, path, ty, n, st)
            return
        # element cells of the same region are stale
        for k in [k for k in st.mem if k[0] is o and len(k[1]) == len(path) + 1 and k[1][:-1] == path]:
            del st.mem[k]
        self.store(st, o, path, ty)

    def link_write(self, o, path, ty, n, st):
        x = path[-3] if len(path) >= 3 else None
        mu = self.as_dir(path[-1])
        self.cnt('linkwrites', n)
        if self.watch:
            self.watch('linkwrite', o, x, mu, ty, n, st)
        if isinstance(ty, M) and isinstance(x, I) and mu is not None:
            d = list(x.d) if x.d is not None else [PL.ZERO] * self.ND
            d[mu] = d[mu] + PL.ONE
            want = M(x, I(x.p, norm_d(d)))
            self.cnt('linkwrites typed', n)
            if not site_eq_m(ty, want) and (site_ne(ty.s, want.s) or site_ne(ty.e, want.e)):
                self.alarm('link-store', n, 'a matrix %r is stored in the link %r' % (ty, want))

    # -------------------------------------------------- expressions
    def eval(self, n, st):
        self.tick()
        self.st = st
        k = n.k
        m = self.evm.get(k)
        if m is None:
            m = getattr(self, 'e_' + k, None)
            if m is not None:
                self.evm[k] = m
                return m(n, st)
            for c in children(n):
                if c.k not in ('block',):
                    self.eval(c, st)
            return TOP
        return m(n, st)

    def e_int(self, n, st):
        return IC(n.v)

    def e_flt(self, n, st):
        return TOP

    e_imag = e_str = e_zero = e_flt

    def e_sizeof(self, n, st):
        if n.at is not None and n.at.sz is not None:
            return IC(n.at.sz)
        return TOP

    def e_ref(self, n, st):
        if n.fn:
            return F([n.fn])
        lv = self.fr.vars.get(n.d)
        if lv is None:
            lv = self.var(n)
            if lv is None:
                return TOP
        if lv[1] == () and (lv[0].private or self.par is None):
            v = st.mem.get(lv)
            if v.__class__ is I or v.__class__ is P and n.t is not None and n.t.k == 'ptr':
                return v
        return self.load(lv[0], lv[1], n.t, n, st)

    def e_mem(self, n, st):
        lv = self.lval(n, st)
        if lv is None:
            return TOP
        return self.load(lv[0], lv[1], n.t, n, st)

    e_idx = e_mem

    def e_const(self, n, st):
        return self.eval(n.e, st)

    def e_clit(self, n, st):
        self.eval(n.e, st)
        return TOP

    def e_init(self, n, st):
        for x in n.es:
            self.eval(x, st)
        return TOP

    def e_cast(self, n, st):
        ck = n.ck
        if ck == 'NullToPointer':
            return IC(0)
        v = self.eval(n.e, st)
        if ck in ('IntegralCast', 'NoOp', 'BitCast', 'LValueToRValue', 'ArrayToPointerDecay',
                  'FunctionToPointerDecay', 'IntegralToBoolean', 'PointerToBoolean'):
            return v
        if ck in ('FloatingComplexCast', 'FloatingRealToComplex', 'FloatingCast'):
            return v if isinstance(v, E) else top(vtt(v))
        if ck == 'ToVoid':
            return TOP
        return top(vtt(v)) if not isinstance(v, P) else v

    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, I):
            c = v.const
            if c is not None:
                return c != 0
            if v.d is None and (nonneg(v.p - PL.ONE) or nonneg(-v.p - PL.ONE)):
                return True
            return None
        if isinstance(v, (P, F)):
            return True
        return None

    def e_un(self, n, st):
        o = n.o
        if o == '&':
            e = n.e
            while e.k == 'cast':
                e = e.e
            if e.k == 'ref' and e.fn:
                return F([e.fn])
            if e.k == 'idx':
                if not (e.a.t is not None and e.a.t.k == 'arr'):
                    v = self.eval(e.a, st)
                    i = self.eval(e.i, st)
                    if isinstance(v, P) and isinstance(i, I):
                        return self.padd(v, self.resolve(i))
                    return TOP
                b = self.lval(e.a, st)
                i = self.eval(e.i, st)
                if b is not None and isinstance(i, I):
                    return P(b[0], b[1], self.resolve(i))
                return TOP
            lv = self.lval(e, st)
            if lv is None:
                return TOP
            return P(lv[0], lv[1], None)
        if o == '*':
            lv = self.lval(n, st)
            if lv is None:
                return TOP
            return self.load(lv[0], lv[1], n.t, n, st)
        if o in ('p++', 'p--', 'q++', 'q--'):
            v = self.eval(n.e, st)
            one = IC(1 if '+' in o else -1)
            if isinstance(v, P):
                w = self.padd(v, one)
            else:
                w = self.iadd(v, one)
            self.assign(n.e, w, st, n)
            return v if o[0] == 'q' else w
        v = self.eval(n.e, st)
        if o == '-':
            if isinstance(v, I) and v.d is None:
                return I(-v.p)
            if isinstance(v, E):
                return v
            return top(vtt(v))
        if o == '+':
            return v
        if o == '!':
            t = self.truth(v)
            return top(vtt(v)) if t is None else IC(0 if t else 1)
        if o == '~' and isinstance(v, I) and v.const is not None and n.t is not None and n.t.k == 'int':
            b = 8 * (n.t.sz or 4)
            r = (~v.const) & ((1 << b) - 1) if not n.t.sg else ~v.const
            return IC(r)
        return top(vtt(v))

    def compare(self, o, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, P) and isinstance(b, P):
            if a == b:
                return {'==': True, '!=': False}.get(o)
            if a.o is b.o and a.path == b.path and a.off is not None and b.off is not None:
                return self.compare(o, a.off, b.off)
            return None
        if isinstance(a, (P, F)) or isinstance(b, (P, F)):
            x, y = (a, b) if isinstance(a, (P, F)) else (b, a)
            if isinstance(y, I) and y.const == 0:
                return {'==': False, '!=': True}.get(o)
            if isinstance(x, F) and isinstance(y, F):
                if len(x.names) == 1 and len(y.names) == 1:
                    return {'==': x == y, '!=': x != y}.get(o)
            return None
        if not isinstance(a, I) or not isinstance(b, I):
            return None
        if a.d is not None or b.d is not None:
            if a == b and o in ('==', '<=', '>='):
                return True
            if a == b and o in ('!=', '<', '>'):
                return False
            return None
        p, q = a.p, b.p
        if o in ('>', '>='):
            p, q, o = q, p, {'>': '<', '>=': '<='}[o]
        d = q - p
        c = d.const
        if o == '<':
            if c is not None:
                return c > 0
            if nonneg(d - PL.ONE):
                return True
            if nonneg(-d):
                return False
        elif o == '<=':
            if c is not None:
                return c >= 0
            if nonneg(d):
                return True
            if nonneg(-d - PL.ONE):
                return False
        elif o in ('==', '!='):
            r = None
            if c is not None:
                r = (c == 0)
            elif nonneg(d - PL.ONE) or nonneg(-d - PL.ONE):
                r = False
            if r is None:
                return None
            return r if o == '==' else not r
        return None

    def split_here(self, vals, k=None):
        """is a parameter tested in this function worth one run per value?  Only where fields are handled"""
        if len(vals) <= 2:
            f = self.prog.func(self.entry)
            if k not in ['param:%s.%s' % (f.name, v.name) for v in f.params]:
                return False
        for v in self.fr.fn.params:
            t = v.type
            while t.k == 'ptr':
                t = t.e
                if t.r == 'site' or t.k == 'cplx':
                    return True
        return False

    def enum_choice(self, n, a, b):
        """comparison of an enumerated entry parameter with a constant: split the run"""
        if self.par is not None and self.excl is not None:
            return      # one thread of a team doing input or output: not worth a run per value
        for x, ex in ((a, n.a), (b, n.b)):
            k = self.param_atom(x)
            if k is None or k in self.choices:
                continue
            e = strip(ex)
            if e is not None and e.t is not None and e.t.k == 'enum':
                vals = sorted(set(v for c, v in self.prog.enums.get(e.t.r, [])))
                if vals and len(vals) <= 24 and self.split_here(vals, k):
                    self.choose(k, vals)

    def e_bin(self, n, st):
        o = n.o
        if o in ('&&', '||'):
            a = self.eval(n.a, st)
            ta = self.truth(a)
            if ta is False and o == '&&':
                return IC(0)
            if ta is True and o == '||':
                return IC(1)
            b = self.eval(n.b, st)
            tb = self.truth(b)
            if o == '&&':
                if tb is False:
                    return IC(0)
                if ta and tb:
                    return IC(1)
            else:
                if tb is True:
                    return IC(1)
                if ta is False and tb is False:
                    return IC(0)
            return top((ta is None and vtt(a)) or (tb is None and vtt(b)))
        if o == ',':
            self.eval(n.a, st)
            return self.eval(n.b, st)
        a = self.eval(n.a, st)
        b = self.eval(n.b, st)
        if o in CMP:
            self.enum_choice(n, a, b)
            r = self.compare(o, a, b)
            if r is None:
                return top(vtt(a) or vtt(b))
            return IC(1 if r else 0)
        return self.arith(o, a, b, n)

    def arith(self, o, a, b, n):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, P) or isinstance(b, P):
            if o == '+':
                if isinstance(b, P):
                    a, b = b, a
                if isinstance(b, I):
                    return self.padd(a, b)
            if o == '-' and isinstance(a, P):
                if isinstance(b, I) and b.d is None:
                    return self.padd(a, I(-b.p))
                if isinstance(b, P) and a.o is b.o and a.path == b.path and a.off is not None and b.off is not None \
                        and a.off.d is None and b.off.d is None:
                    return I(a.off.p - b.off.p)
            return TOP
        if isinstance(a, E) or isinstance(b, E):
            return self.elem_arith(o, a, b)
        if isinstance(a, I) and isinstance(b, I):
            if o == '+':
                return self.iadd(a, b)
            if o == '-':
                if b.d is None:
                    return self.iadd(a, I(-b.p))
                if a == b:
                    return IC(0)
                return top(a.tt or b.tt)
            if a.d is not None or b.d is not None:
                return top(a.tt or b.tt)
            if o == '*':
                return I(a.p * b.p)
            ca, cb = a.const, b.const
            if ca is not None and cb is not None:
                try:
                    if o == '/':
                        return IC(int(ca / cb) if (ca < 0) != (cb < 0) else ca // cb)
                    if o == '%':
                        q = abs(ca) % abs(cb)
                        return IC(q if ca >= 0 else -q)
                    if o == '<<':
                        return IC(ca << cb)
                    if o == '>>':
                        return IC(ca >> cb)
                    if o == '&':
                        return IC(ca & cb)
                    if o == '|':
                        return IC(ca | cb)
                    if o == '^':
                        return IC(ca ^ cb)
                except Exception:
                    return TOP
            if o == '/' and cb and all(v % cb == 0 for v in a.p.m.values()):
                return I(Poly({k: v // cb for k, v in a.p.m.items()}))
            if o in ('/', '%') and len(b.p.m) == 1:
                k, c = list(b.p.m.items())[0]
                sp = a.p.split(k[0]) if len(k) == 1 and c == 1 else None
                if sp is not None and sp[0].const is not None and nonneg(sp[1]) and less(sp[1], b.p):
                    return I(sp[0]) if o == '/' else I(sp[1])
            # opaque but deterministic
            nm = 'x:(%r)%s(%r)' % (a.p, o, b.p)
            at = atom(nm, 'opaque', tt=a.tt or b.tt)
            if a.p.atoms() and len(nm) < 200:
                return I(A(at.name))
            return top(a.tt or b.tt)
        return top(vtt(a) or vtt(b))

    def elem_arith(self, o, a, b):
        tt = vtt(a) or vtt(b)
        if isinstance(a, E) and isinstance(b, E):
            if o in ('+', '-'):
                if a.ix == b.ix:
                    if isinstance(a.mt, M) and isinstance(b.mt, M):
                        if site_eq_m(a.mt, b.mt):
                            return E(a.mt, a.ix, tt)
                        return E(Mis(a.mt, b.mt), a.ix, tt)
                    j = join(a.mt, b.mt)
                    return E(j, a.ix, tt) if j is not TOPM else top(tt)
            return top(tt)
        x, y = (a, b) if isinstance(a, E) else (b, a)
        if o in ('*', '+', '-') or (o == '/' and isinstance(a, E)):
            if o in ('+', '-') and not (isinstance(x.mt, M)):
                return top(tt)
            return E(x.mt, x.ix, tt)
        return top(tt)

    def e_cond(self, n, st):
        c = self.eval(n.c, st)
        t = self.truth(c)
        if t is True:
            return self.eval(n.a, st)
        if t is False:
            return self.eval(n.b, st)
        a = self.eval(n.a, st)
        b = self.eval(n.b, st)
        r = join(a, b)
        if vtt(c) and not vtt(r) and isinstance(r, T):
            r = TOPT
        return r

    def e_asg(self, n, st):
        o = n.o
        if o == '=':
            if n.a.t is not None and n.a.t.k == 'rec':
                return self.struct_assign(n, st)
            v = self.eval(n.b, st)
            self.assign(n.a, v, st, n)
            return v
        a = self.eval(n.a, st)
        b = self.eval(n.b, st)
        v = self.arith(o[:-1], a, b, n)
        self.assign(n.a, v, st, n)
        return v

    def struct_assign(self, n, st):
        src = self.eval(n.b, st)
        dst = self.lval(n.a, st)
        if dst is None:
            return TOP
        if isinstance(src, P) and src.off is None:
            for (o, path), v in list(st.mem.items()):
                if o is src.o and path[:len(src.path)] == src.path:
                    st.mem[(dst[0], dst[1] + path[len(src.path):])] = v
        self.rec(dst[0], self.canon_path(dst[1]), 'w', n)
        return src

    def assign(self, lhs, v, st, n):
        lv = self.lval(lhs, st)
        self.st = st
        if lv is None:
            return
        self.assign_to(lv[0], lv[1], v, lhs.t, st, n)

    def assign_to(self, o, path, v, t, st, n):
        path = self.canon_path(path)
        if len(path) >= 2 and path[-2] in ('neighbor', 'back'):
            self.rec(o, path, 'w', n)
            if self.watch:
                self.watch('geomwrite', o, path, None, v, n, st)
            return
        if t is not None and t.k in ('cplx', 'vec') and path and isinstance(path[-1], I):
            region = path[:-1]
            self.rec(o, self.elem_region(path), 'w', n)
            if isinstance(v, E):
                if isinstance(v.mt, Mis):
                    if v.ix == path[-1]:
                        self.cnt('element sums', n)
                        if site_ne(v.mt.a.s, v.mt.b.s) or site_ne(v.mt.a.e, v.mt.b.e):
                            self.alarm('sum-type', n, 'elements of %r and %r are added' % (v.mt.a, v.mt.b))
                    ty = TOPM
                elif v.ix == path[-1]:
                    ty = v.mt
                else:
                    ty = TOPM
            else:
                ty = TOPM
            if o.kind == 'lat' and len(region) >= 2 and region[-2] == 'O':
                self.link_write(o, region, ty, n, st)
                return
            cur = self.lookup(st, o, region)
            if isinstance(v, (I, T)) and not (cur is not None and is_mat(cur)):
                st.mem[(o, path)] = v
                if cur is None:
                    st.mem.setdefault((o, region), TOPM)
                return
            if cur is None or not is_mat(cur) or cur is BOT or cur is ZEROM:
                new = ty
            elif path[-1].const == 0 or path[-1].const is None:
                new = ty
            else:
                new = cur if (site_eq_m(cur, ty) or cur is ty) else TOPM
            for k in [k for k in st.mem if k[0] is o and len(k[1]) == len(region) + 1 and k[1][:-1] == region]:
                del st.mem[k]
            st.mem[(o, region)] = new
            return
        self.rec(o, path, 'w', n, uni=not vtt(v))
        if self.watch:
            self.watch('store', o, path, None, v, n, st)
        if isinstance(v, Mis) or is_mat(v):
            v = TOP
        if isinstance(v, E):
            v = E(v.mt, v.ix, v.tt)
        self.store(st, o, path, v)

    def e_stmtexpr(self, n, st):
        out = self.ex(n.b, st)
        s = out.get('n')
        if s is not None and s is not st:
            self.replace(st, s)
        return TOP

    def replace(self, st, s):
        st.mem, st.tm, st.ev, st.ret, st.wr = s.mem, s.tm, s.ev, s.ret, s.wr

    # -------------------------------------------------- calls
    def e_call(self, n, st):
        fn = n.fn
        if fn is None:
            fv = self.eval(n.fe, st)
            names = sorted(fv.names) if isinstance(fv, F) else []
        else:
            names = [fn]
        args = [self.eval(a, st) for a in n.args]
        args = [self.resolve(a) for a in args]
        self.st = st
        if not names:
            for a in args:
                self.havoc(a, n, st)
            return TOPT if any(vtt(a) for a in args) else TOP
        if len(names) == 1:
            return self.call1(names[0], args, n, st)
        res, acc = None, None
        for x in names:
            s = st.copy()
            r = self.call1(x, args, n, s)
            res = r if acc is None else join(res, r)
            acc = s if acc is None else join_states(acc, s)
        self.replace(st, acc)
        return res

    def call1(self, name, args, n, st):
        self.st = st
        base = name.split('@')[0]
        h = self.model.get(base)
        if h is not None:
            r = h(self, base, args, n, st)
            if r is not NotImplemented:
                return r
        f = self.prog.funcs.get(name)
        if f is None or self.skip(f):
            return self.external(base, args, n, st)
        if len(self.frames) > 40 or sum(1 for x in self.frames if x.fn is f) >= 5:
            for a in args:
                self.havoc(a, n, st)
            return TOP
        if self.par is None and self.frames and self.modular(f, args, n):
            self.cnt('modular calls')
            for v, a in zip(f.params, args):
                if isinstance(a, P) and v.type.k == 'ptr' and not v.type.e.c and a.o.kind != 'lat':
                    self.havoc(a, n, st)
                    if a.off is None:
                        st.mem[(a.o, self.canon_path(a.path))] = TOP
            return TOP
        if self.par is not None and self.ws and self.heavy(f):
            return self.memo_invoke(f, args, st, n)
        return self.invoke(f, args, st, n)

    # calls made many times with equal inputs inside one worksharing loop
    def heavy(self, f):
        r = self.heavies.get(f.key)
        if r is None:
            r = self.heavies[f.key] = self.is_heavy(f, set()) > 60
        return r

    def is_heavy(self, f, seen):
        seen.add(f.key)
        k = 0
        for x in walk(f.body):
            k += 1 if x.k in ('call', 'for', 'while') else 0
            if x.k == 'call' and x.fn:
                if x.fn.split('@')[0] in self.model:
                    continue
                if x.fn in seen:
                    k += 100 if x.fn == f.key else 0
                    continue
                g = self.prog.funcs.get(x.fn)
                if g is not None:
                    k += self.is_heavy(g, seen)
        return k

    def memo_invoke(self, f, args, st, n):
        objs = []

        def reach(v):
            if isinstance(v, P) and v.o.kind == 'local' and v.o.private and v.o not in objs:
                objs.append(v.o)
        for v in args:
            reach(v)
        loc = {}
        rest = []
        for k, v in st.mem.items():
            o = k[0]
            if o.kind == 'local':
                if o.private:
                    loc.setdefault(o, []).append((k[1], v))
                    continue
            rest.append((k, v))
        i = 0
        while i < len(objs):
            for p, v in loc.get(objs[i], ()):
                reach(v)
            i += 1
        ix = {o: j for j, o in enumerate(objs)}

        def ren(v):
            if isinstance(v, P) and v.o in ix:
                return ('P', ix[v.o], v.path, v.off)
            return v
        tm = [(k, v) for k, v in st.tm.items() if not (k[0].kind == 'local' and k[0].private and k[0] not in ix)]
        if any(k[0] in ix for k, v in tm):
            return self.invoke(f, args, st, n)
        try:
            key = (f.key, tuple(ren(v) for v in args), frozenset(rest), frozenset(tm),
                   tuple(frozenset((p, ren(v)) for p, v in loc.get(o, ())) for o in objs),
                   tuple(w.id for w in self.ws), self.excl, self.serial, self.parity, len(self.div))
        except TypeError:
            return self.invoke(f, args, st, n)
        hit = self.cmemo.get(key)
        if hit is not None and hit[4] == self.cgen:
            eff, dead, evs, ret, _ = hit
            self.cnt('repeated calls')
            for j, p in dead:
                st.mem.pop((objs[j], p), None)
            for j, p, v in eff:
                if type(v) is tuple:
                    v = P(objs[v[1]], v[2], v[3])
                st.mem[(objs[j], p)] = v
            for k, e in evs:
                if k not in st.ev:
                    st.ev[k] = e
                if self.evlog is not None:
                    self.evlog[k] = e
            return ret
        mem0, tm0, wr0 = dict(st.mem), st.tm, dict(st.wr)
        n_al, gen = len(self.alarms), self.cgen
        outer, self.evlog = self.evlog, {}
        try:
            r = self.invoke(f, args, st, n)
        finally:
            inner, self.evlog = self.evlog, outer
            if outer is not None:
                outer.update(inner)
        evs = list(inner.items())
        ok = gen == self.cgen and len(self.alarms) == n_al and st.wr == wr0 and st.tm == tm0 \
            and not isinstance(r, P) and all(k[2] != 'w' for k, e in evs)
        if ok:
            eff, dead = [], []
            for k, v in st.mem.items():
                if mem0.get(k) is not v:
                    if k[0] not in ix:
                        if mem0.get(k) == v:
                            continue
                        ok = False
                        break
                    v = ren(v)
                    if isinstance(v, P) and v.o.kind == 'local' and v.o.private:
                        ok = False
                        break
                    eff.append((ix[k[0]], k[1], v))
            for k in mem0:
                if k not in st.mem:
                    if k[0] not in ix:
                        ok = False
                        break
                    dead.append((ix[k[0]], k[1]))
        if ok:
            self.cmemo[key] = (eff, dead, evs, r, gen)
        return r

    def modular(self, f, args, n):
        """may the call be analysed as an entry point of its own?"""
        if f.ret.k in ('ptr', 'rec'):
            return False
        lat = False
        sig = []
        for v, a in zip(f.params, args):
            t = v.type
            if t.k == 'ptr':
                if t.e.k == 'fn':
                    if not isinstance(a, F):
                        return False
                    sig.append(a)
                    continue
                if t.e.r == 'site':
                    if not isinstance(a, P) or a.o.kind != 'lat' or a.path or a.off is None or a.off.const != 0:
                        return False
                    lat = True
                    sig.append(None)
                    continue
                if t.e.k == 'cplx' or t.e.r == 's_site' or (t.e.k == 'ptr'):
                    return False
                sig.append(None)
            elif t.k in ('int', 'enum'):
                a = self.resolve(a)
                k, ex = self.param_atom(a), strip(n.args[len(sig)]) if n is not None else None
                if k is not None and ex is not None and ex.t is not None and ex.t.k == 'enum' and k not in self.choices:
                    # an enumerated setting passed on: one analysis per value
                    vals = sorted(set(x for c, x in self.prog.enums.get(ex.t.r, [])))
                    if 0 < len(vals) <= 3:
                        self.choose(k, vals)
                if isinstance(a, I) and a.const is not None:
                    sig.append(a)
                elif isinstance(a, I) and (a.d is not None or any(ATOMS[x].kind not in ('param', 'geom') for x in a.atoms())):
                    return False
                else:
                    sig.append(None)
            else:
                sig.append(None)
        if not lat:
            return False
        if f.key in [fr.fn.key for fr in self.frames]:
            return False
        self.queue.setdefault((f.key, tuple(sig)), self.entry)
        return True

    def havoc(self, a, n, st):
        if isinstance(a, P):
            path = self.canon_path(a.path)
            t = a.o.type
            if a.off is not None:
                if a.o.kind == 'lat':
                    return
                v = self.lookup(st, a.o, path)
                if v is not None and is_mat(v):
                    st.mem[(a.o, path)] = TOPM
                    return
            st.mem[(a.o, path)] = TOP if a.off is None else st.mem.get((a.o, path), TOPM)

    def external(self, name, args, n, st):
        tt = any(vtt(a) for a in args)
        if name in ('malloc', 'calloc', 'fftw_malloc', 'fftwf_malloc', 'aligned_alloc', 'valloc', 'realloc'):
            o = Obj('heap@%d' % n.l, 'heap', None, private=(self.par is not None))
            return P(o, (), IC(0))
        if name in ('posix_memalign',):
            o = Obj('heap@%d' % n.l, 'heap', None, private=(self.par is not None))
            if isinstance(args[0], P):
                lv = self.deref(args[0], ())
                self.rec(lv[0], self.canon_path(lv[1]), 'w', n)
                self.store(st, lv[0], self.canon_path(lv[1]), P(o, (), IC(0)))
            return IC(0)
        if name in ('omp_get_thread_num',):
            return I(A('TID'))
        if name in ('omp_get_num_threads', 'omp_get_max_threads'):
            return I(A('NTH'))
        if name == 'memcpy' or name == 'memmove':
            if isinstance(args[0], P) and isinstance(args[1], P):
                t0 = strip(n.args[0]).t
                if t0 is not None and t0.k in ('ptr', 'arr') and t0.e.k != 'cplx':
                    # not a matrix: the objects pointed to
                    for a, rw in ((args[0], 'w'), (args[1], 'r')):
                        lv = self.deref(a, ())
                        self.rec(lv[0], self.canon_path(lv[1]), rw, n)
                    lv = self.deref(args[0], ())
                    self.store(st, lv[0], self.canon_path(lv[1]), TOP)
                    return TOP
                ty = self.mget(args[1], n, st)
                self.mset(args[0], ty, n, st)
            elif isinstance(args[0], P):
                self.havoc(args[0], n, st)
            return TOP
        if name == 'memset':
            if isinstance(args[0], P):
                self.mset(args[0], ZEROM, n, st)
            return TOP
        if name in ('conj', 'conjf', 'conjl'):
            v = args[0]
            return top(vtt(v))
        if name in ('fread', 'fscanf', 'sscanf', 'scanf', 'read', 'fgets'):
            for a in args:
                if isinstance(a, P):
                    self.rec(a.o, self.canon_path(a.path), 'w', n)
                self.havoc(a, n, st)
            return TOP
        # intrinsics on element vectors
        if name.startswith('_mm') or name.startswith('__builtin_ia32'):
            es = [a for a in args if isinstance(a, E)]
            if ('add' in name or 'sub' in name) and len(args) == 2 and 'addsub' not in name:
                return self.arith('+', args[0], args[1], n)
            return top(tt)
        f = self.prog.protos.get(name)
        if f is not None or name in self.prog.funcs:
            f = self.prog.funcs.get(name) or f
            for i, a in enumerate(args):
                if isinstance(a, P):
                    pt = f.params[i].type if i < len(f.params) else None
                    if pt is not None and pt.k == 'ptr' and not pt.e.c:
                        self.havoc(a, n, st)
        return top(tt)

    def invoke(self, fn, args, st, n):
        self.cnt('calls')
        self.visited.add(fn.key)
        fr = Frame(fn, n)
        for v, a in zip(fn.params, args):
            if isinstance(a, P) and a.off is None and v.type.k == 'rec':
                fr.vars[v.id] = (a.o, a.path)      # structure passed by value: read-only alias
                continue
            o = Obj(v.name, 'local', v.type, private=self.par is not None, var=v)
            fr.objs.add(o)
            fr.vars[v.id] = (o, ())
            st.mem[(o, ())] = a if not is_mat(a) else TOP
        self.frames.append(fr)
        old, self.fr = self.fr, fr
        ret0, st.ret = st.ret, None
        try:
            out = self.ex(fn.body, st)
        finally:
            self.frames.pop()
            self.fr = old
        s = None
        for k, x in out.items():
            if k in ('n', 'r') or isinstance(k, tuple):
                s = x if s is None else join_states(s, x)
        if s is None:
            # never returns on the explored paths
            s = st
            s.ret = TOP
        r = s.ret
        s.ret = ret0
        # locals die
        objs = fr.objs
        if objs:
            mem = s.mem
            for k in [k for k in mem if k[0] in objs]:
                del mem[k]
            for k in [k for k in s.tm if k[0] in objs]:
                del s.tm[k]
            if self.par is None:
                s.ev = {k: v for k, v in s.ev.items() if k[0] not in objs}
        if s is not st:
            self.replace(st, s)
        return r if r is not None else TOP

    # -------------------------------------------------- statements
    def ex(self, n, st):
        if n is None:
            return {'n': st}
        self.tick()
        m = getattr(self, 's_' + n.k, None)
        if m is not None:
            return m(n, st)
        self.eval(n, st)
        return {'n': st}

    def merge(self, out, o2, skip=()):
        for k, s in o2.items():
            if k in skip:
                continue
            out[k] = s if k not in out else join_states(out[k], s)

    def s_block(self, n, st):
        return self.ex_list(n.b, st)

    def ex_list(self, stmts, st, start=0):
        out = {}
        cur = st
        for s in stmts[start:]:
            lab = self.label_of(s)
            if lab and ('g', lab) in out:
                cur = join_states(cur, out.pop(('g', lab))) if cur is not None else out.pop(('g', lab))
            if cur is None:
                continue
            o = self.ex(s, cur)
            cur = o.pop('n', None)
            self.merge(out, o)
        # backward goto inside this list: one more pass
        for s_i, s in enumerate(stmts):
            lab = self.label_of(s)
            if lab and ('g', lab) in out:
                again = out.pop(('g', lab))
                o = self.ex_list_once(stmts, again, s_i, lab)
                c2 = o.pop('n', None)
                o.pop(('g', lab), None)
                if c2 is not None:
                    cur = join_states(cur, c2) if cur is not None else c2
                self.merge(out, o)
        if cur is not None:
            out['n'] = cur
        return out

    def ex_list_once(self, stmts, st, start, lab):
        out = {}
        cur = st
        for s in stmts[start:]:
            l2 = self.label_of(s)
            if l2 and ('g', l2) in out and l2 != lab:
                cur = join_states(cur, out.pop(('g', l2))) if cur is not None else out.pop(('g', l2))
            if cur is None:
                continue
            o = self.ex(s, cur)
            cur = o.pop('n', None)
            self.merge(out, o)
        if cur is not None:
            out['n'] = cur
        return out

    def label_of(self, s):
        return s.n if s.k == 'label' else None

    def s_label(self, n, st):
        return self.ex(n.b, st)

    def s_null(self, n, st):
        return {'n': st}

    s_otherstmt = s_null

    def s_decl(self, n, st):
        for V in n.v:
            if V.static and V.isglobal:
                continue
            o = Obj(V.name, 'local', V.type, private=self.par is not None, var=V)
            old = self.fr.vars.get(V.id)
            if old is not None:
                # the same declaration executed again: reuse the object, drop its contents
                o = old[0]
                for k in [k for k in st.mem if k[0] is o]:
                    del st.mem[k]
                for k in [k for k in st.tm if k[0] is o]:
                    del st.tm[k]
            self.fr.vars[V.id] = (o, ())
            self.fr.objs.add(o)
            if V.vla is not None:
                self.eval(V.vla, st)
            if V.init is not None:
                if V.init.k == 'init':
                    self.init_list(o, (), V.init, V.type, st)
                elif V.type.k == 'rec':
                    v = self.eval(V.init, st)
                    if isinstance(v, P) and v.off is None:
                        for (oo, path), x in list(st.mem.items()):
                            if oo is v.o and path[:len(v.path)] == v.path:
                                st.mem[(o, path[len(v.path):])] = x
                else:
                    v = self.eval(V.init, st)
                    if is_mat(v):
                        v = TOP
                    st.mem[(o, ())] = v
        return {'n': st}

    def init_list(self, o, path, n, t, st):
        if t.k == 'arr' and t.e.k == 'cplx':
            vs = [self.eval(x, st) for x in n.es]
            st.mem[(o, path)] = ZEROM if all(isinstance(v, (I, T)) for v in vs) and len(vs) <= 1 else TOPM
            return
        if t.k == 'arr':
            for i, x in enumerate(n.es):
                p = path + (IC(i),)
                if x.k == 'init':
                    self.init_list(o, p, x, t.e, st)
                else:
                    st.mem[(o, p)] = self.eval(x, st)
            if t.n is not None and t.e.k == 'int':
                for i in range(len(n.es), min(t.n, 64)):
                    st.mem[(o, path + (IC(i),))] = IC(0)
            return
        if t.k == 'rec':
            fs = self.prog.records.get(t.r, [])
            for (fnm, ft, off), x in zip(fs, n.es):
                if x.k == 'init':
                    self.init_list(o, path + (fnm,), x, ft, st)
                else:
                    v = self.eval(x, st)
                    st.mem[(o, path + (fnm,))] = v if not is_mat(v) else TOP
            return
        for x in n.es:
            st.mem[(o, path)] = self.eval(x, st)

    def s_return(self, n, st):
        v = self.eval(n.e, st) if n.e is not None else TOP
        st.ret = v
        return {'r': st}

    def s_break(self, n, st):
        return {'b': st}

    def s_continue(self, n, st):
        return {'c': st}

    def s_goto(self, n, st):
        return {('g', n.n): st}

    pguard = False

    def parity_cond(self, c):
        c = strip(c)
        while c.k == 'bin' and c.o in ('==', '!=') and cval(c.b) is not None:
            c = strip(c.a)
        return c.k == 'bin' and ((c.o == '%' and cval(c.b) == 2) or (c.o == '&' and cval(c.b) == 1))

    def branch(self, cond_tt, n, outs):
        """join the outcomes of the branches of a condition"""
        out = {}
        for o in outs:
            self.merge(out, o)
        return out

    def s_if(self, n, st):
        c = self.eval(n.c, st)
        t = self.truth(c)
        if t is True:
            return self.ex(n.a, st)
        if t is False:
            return self.ex(n.b, st) if n.b is not None else {'n': st}
        tt = vtt(c)
        s2 = st.copy()
        b0 = self.barriers
        if tt and self.par is not None:
            self.div.append((n, b0))
        pg = self.parity_cond(n.c)
        self.parity += pg
        o1 = self.ex(n.a, st)
        self.parity -= pg
        o2 = self.ex(n.b, s2) if n.b is not None else {'n': s2}
        if tt and self.par is not None:
            self.div.pop()
            self.divergent_exit(n, o1, o2)
        if tt and self.par is not None:
            self.taint_diff(o1, o2)
        return self.branch(tt, n, (o1, o2))

    def taint_diff(self, o1, o2):
        """scalars that depend on which side of a thread-dependent branch was taken"""
        for k, a in o1.items():
            b = o2.get(k)
            if b is None:
                continue
            for q, v in a.mem.items():
                w = b.mem.get(q)
                if w is None or w is v or not q[0].private or is_mat(v) or is_mat(w):
                    continue
                if v != w and (isinstance(v, I) or isinstance(w, I) or isinstance(v, T) or isinstance(w, T)):
                    a.mem[q] = TOPT
            if a.ret != b.ret:
                a.ret = b.ret = TOPT

    def divergent_exit(self, n, o1, o2):
        """a thread-dependent branch that leaves the surrounding loop/function on one side"""
        k1 = set(k for k in o1 if k not in ('n',))
        k2 = set(k for k in o2 if k not in ('n',))
        if k1 != k2 or ('n' in o1) != ('n' in o2):
            for k in k1 ^ k2:
                self.divjump(n, k)

    def divjump(self, n, k):
        # inside a worksharing loop the jump stays inside the iteration
        if self.loopstack and k in ('b', 'c'):
            self.loopstack[-1]['div'] = n
        elif k == 'r' or isinstance(k, tuple):
            for L in self.loopstack:
                L['div'] = n
            self.fr.divret = n

    loopstack = ()

    def s_switch(self, n, st):
        v = self.eval(n.c, st)
        v = self.resolve(v)
        k = self.param_atom(v)
        if k is not None and n.ct is not None and n.ct.k == 'enum' and (self.par is None or self.excl is None):
            vals = sorted(set(x for c, x in self.prog.enums.get(n.ct.r, [])))
            if vals and len(vals) <= 24 and self.split_here(vals, k):
                v = IC(self.choose(k, vals))
        body = n.b.b if n.b.k == 'block' else [n.b]
        # flatten case labels
        flat = []
        for s in body:
            labs = []
            while s.k in ('case', 'default'):
                labs.append(s)
                s = s.b
            flat.append((labs, s))
        stmts = [s for labs, s in flat]
        starts = []
        hasdef = False
        for i, (labs, s) in enumerate(flat):
            for l in labs:
                if l.k == 'default':
                    hasdef = True
                    starts.append((None, i))
                else:
                    starts.append((cval(l.v), i))
        c = v.const if isinstance(v, I) else None
        if c is not None:
            sel = [i for val, i in starts if val == c]
            if not sel:
                sel = [i for val, i in starts if val is None]
            if not sel:
                return {'n': st}
            out = self.ex_list(stmts, st, sel[0])
            self.brk(out)
            return out
        tt = vtt(v)
        if tt and self.par is not None:
            self.div.append((n, self.barriers))
        out = {}
        seen = set()
        for val, i in starts:
            if i in seen:
                continue
            seen.add(i)
            o = self.ex_list(stmts, st.copy(), i)
            self.brk(o)
            self.merge(out, o)
        if not hasdef:
            self.merge(out, {'n': st})
        if tt and self.par is not None:
            self.div.pop()
        return out

    def brk(self, out):
        if 'b' in out:
            s = out.pop('b')
            out['n'] = s if 'n' not in out else join_states(out['n'], s)

    # -------------------------------------------------- loops
    def loop_shape(self, n):
        """(variable node, op, bound node, step, other conjuncts) of a counted loop"""
        if n.c is None or n.inc is None:
            return None
        conj = []
        todo = [n.c]
        while todo:
            c = strip(todo.pop())
            if c.k == 'bin' and c.o == '&&':
                todo += [c.a, c.b]
            else:
                conj.append(c)
        inc = strip(n.inc)
        step = None
        var = None
        if inc.k == 'un' and inc.o in ('p++', 'q++', 'p--', 'q--'):
            var, step = strip(inc.e), IC(1 if '+' in inc.o else -1)
        elif inc.k == 'asg' and inc.o in ('+=', '-='):
            var = strip(inc.a)
            c = cval(inc.b)
            step = (IC(c if inc.o == '+=' else -c)) if c is not None else inc
        elif inc.k == 'asg' and inc.o == '=':
            b = strip(inc.b)
            if b.k == 'bin' and b.o in ('+', '-') and strip(b.a).k == 'ref' and strip(inc.a).k == 'ref' \
                    and strip(b.a).d == strip(inc.a).d and cval(b.b) is not None:
                var = strip(inc.a)
                c = cval(b.b)
                step = IC(c if b.o == '+' else -c)
        if var is None or var.k != 'ref':
            return None
        for c in conj:
            if c.k == 'bin' and c.o in CMP:
                a, b = strip(c.a), strip(c.b)
                if a.k == 'ref' and a.d == var.d:
                    return var, c.o, c.b, step, [x for x in conj if x is not c]
                if b.k == 'ref' and b.d == var.d:
                    fl = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
                    return var, fl[c.o], c.a, step, [x for x in conj if x is not c]
        return None

    def push_loop(self):
        L = dict(div=None, bar=None)
        self.loopstack = list(self.loopstack) + [L]
        return L

    def pop_loop(self, L, n):
        self.loopstack = self.loopstack[:-1]
        if self.par is not None and L['div'] is not None and L['bar'] is not None:
            self.alarm('barrier', L['div'], 'threads may leave the loop at line %d at different iterations, but the '
                       'loop contains the barrier at line %d' % (n.l, L['bar'].l))

    def s_for(self, n, st, ws=None, nl=1):
        if n.init is not None:
            out = self.ex(n.init, st)
            st = out.get('n', st)
        sh = self.loop_shape(n)
        if sh is None:
            return self.while_loop(n.c, n.b, n.inc, st, n)
        var, op, bn, step, others = sh
        v0 = self.resolve(self.eval(var, st))
        hi = self.resolve(self.eval(bn, st))
        if not isinstance(step, I):
            return self.while_loop(n.c, n.b, n.inc, st, n)
        step = step.const
        N = None
        if isinstance(v0, I) and isinstance(hi, I) and v0.d is None and hi.d is None:
            d = hi.p - v0.p
            if step > 0 and op in ('<', '!='):
                N = d
            elif step > 0 and op == '<=':
                N = d + PL.ONE
            elif step < 0 and op in ('>', '!='):
                N = -d
            elif step < 0 and op == '>=':
                N = PL.ONE - d
            if N is not None and abs(step) != 1:
                c = N.const
                if c is not None:
                    N = C(-(-c // abs(step)))
                else:
                    N = A(atom('trip:(%r)/%d' % (N, abs(step)), 'param').name)
        if vtt(hi) or vtt(v0):
            pass
        tt = (vtt(hi) or vtt(v0)) and ws is None
        L = self.push_loop()
        if tt and self.par is not None:
            L['div'] = n
        try:
            if N is None:
                if isinstance(v0, I) and v0.d is None and ws is not None:
                    N = A(atom('trip:%s:%d' % (self.file(n), n.l), 'param').name)
                elif not isinstance(v0, I) or v0.d is not None:
                    return self.while_loop(n.c, n.b, n.inc, st, n, L)
                else:
                    N = A(atom('trip:%s:%d' % (self.file(n), n.l), 'param').name)
            c = N.const
            if c is not None and c <= 0:
                return {'n': st}
            if c is not None and c <= self.UNROLL and ws is None:
                return self.unroll(n, st, c)
            lv = self.var(var)
            if ws is not None or c is not None or any('LCU' in k for k in N.m):
                return self.site_loop(n, st, lv, v0, N, step, ws, nl)
            if step == 1 and not v0.p.m and len(N.m) == 1:
                k, c = list(N.m.items())[0]
                if len(k) == 1 and 2 <= c <= self.UNROLL and ATOMS[k[0]].kind in ('opaque', 'param'):
                    return self.nested_count(n, st, lv, c, A(k[0]))
            return self.serial_loop(n, st, lv, v0, N, step)
        finally:
            self.pop_loop(L, n)

    def nested_count(self, n, st, lv, c, K):
        """0 <= i < c*K: i = q*K + r for each q, with a generic r"""
        out = {}
        cur = st
        for q in [0] + list(range(c)):
            a = self.fresh_atom(n, PL.ZERO, K, None)
            s = cur.copy()
            s.mem[(lv[0], lv[1])] = I(C(q) * K + A(a.name))
            serial0 = self.serial
            self.serial = self.serial + ('%s/%d' % (a.name, q),)
            s = self.body_once(n, s, out)
            self.serial = serial0
            if s is None:
                break
            self.kill_atom(s, a, None)
            cur = s
        for b in out.pop('brk', []):
            cur = join_states(cur, b)
        cur.mem[(lv[0], lv[1])] = I(C(c) * K)
        out['n'] = cur
        return out

    def unroll(self, n, st, trip):
        out = {}
        cur = st
        for k in range(trip + 1):
            c = self.truth(self.eval(n.c, cur))
            if c is False:
                break
            if c is None:
                self.merge(out, {'n': cur.copy()})
            if k == trip:
                # the loop variable is changed in the body: give up precisely here
                break
            o = self.ex(n.b, cur)
            nx = o.pop('n', None)
            cc = o.pop('c', None)
            if cc is not None:
                nx = cc if nx is None else join_states(nx, cc)
            b = o.pop('b', None)
            if b is not None:
                self.merge(out, {'n': b})
            self.merge(out, o)
            if nx is None:
                cur = None
                break
            cur = nx
            if n.inc is not None:
                self.eval(n.inc, cur)
        if cur is not None:
            self.merge(out, {'n': cur})
        return out

    def body_once(self, n, st, out):
        """one execution of the loop body; returns the state at its end"""
        o = self.ex(n.b, st)
        nx = o.pop('n', None)
        cc = o.pop('c', None)
        if cc is not None:
            nx = cc if nx is None else join_states(nx, cc)
        b = o.pop('b', None)
        if b is not None:
            out.setdefault('brk', [])
            out['brk'].append(b)
        for k, s in o.items():
            out[k] = s if k not in out else join_states(out[k], s)
        return nx

    def fresh_atom(self, n, lo, hi, ws):
        nm = '%s#%s:%d:%d%s' % (self.loopvar_name(n), self.file(n), n.l, len(self.frames) * 100 + len(self.loopstack),
                                'w' if ws else ('p' if self.par else ''))
        a = ATOMS.get(nm)
        if a is None:
            a = atom(nm, 'loop', lo, hi, tt=bool(ws))
        if a.lo != lo or a.hi != hi:
            self.cmpmemo.clear()
            self.cgen += 1
        a.lo, a.hi = lo, hi
        PL.Atom.COUNT[0] += 1
        a.seq = PL.Atom.COUNT[0]
        return a

    def loopvar_name(self, n):
        sh = self.loop_shape(n) if n.k == 'for' else None
        return sh[0].n if sh else 'k'

    def site_loop(self, n, st, lv, v0, N, step, ws, nl):
        if step == 1:
            lo, hi = v0.p, v0.p + N
            a = self.fresh_atom(n, lo, hi, ws)
            val = I(A(a.name))
        else:
            lo, hi = PL.ZERO, N
            a = self.fresh_atom(n, lo, hi, ws)
            val = I(v0.p + C(step) * A(a.name))
        if ws is not None:
            ws.atoms.append(a.name)
        o, path = lv
        out = {}
        pre = st.copy()
        st.mem[(o, path)] = val
        if not o.private:
            self.rec(o, path, 'w', n)
        serial0 = self.serial
        if ws is None:
            self.serial = self.serial + (a.name,)
        b0 = self.barriers
        body = n
        if ws is not None and nl > 1:
            inner = n.b
            while inner.k == 'block' and len(inner.b) == 1:
                inner = inner.b[0]
            if inner.k == 'for':
                fake = Node({'k': 'for', 'l': n.l, 'f': n.f, 'b': Node({'k': 'ompinner', 'l': inner.l, 'f': inner.f, 'e': inner,
                                                                      'ws': ws, 'nl': nl - 1})})
                body = fake
        s1 = self.body_once(body, st, out)
        if s1 is not None:
            carried = False
            for k, v in pre.mem.items():
                if k == (o, path):
                    continue
                w = s1.mem.get(k)
                if w is not None and w is not v and w != v:
                    carried = True
                    break
            if not carried:
                for k, v in pre.tm.items():
                    w = s1.tm.get(k)
                    if w is not None and w is not v and w != v:
                        carried = True
                        break
            if carried or (self.par is not None and self.barriers != b0):
                j = self.head_join(pre, s1, a)
                j.mem[(o, path)] = val
                s2 = self.body_once(body, j, out)
                if s2 is not None:
                    s1 = s2
        self.serial = serial0
        res = {}
        last = I(hi - PL.ONE) if ws is None else None
        ex = None
        for b in out.pop('brk', []):
            self.kill_atom(b, a, None)
            ex = b if ex is None else join_states(ex, b)
        if s1 is not None:
            if ws is not None:
                # what a thread's own variables hold depends on the iterations it was given
                for q, v in s1.mem.items():
                    w = pre.mem.get(q)
                    if q[0].private and w is not None and v is not w and v != w and not is_mat(v) and \
                            isinstance(v, (I, T)):
                        s1.mem[q] = TOPT
                for d in self.assigned(n.b):
                    lv2 = self.fr.vars.get(d)
                    if lv2 is not None and lv2[0].private and lv2[1] == () and s1.mem.get(lv2) is TOP:
                        s1.mem[lv2] = TOPT
            self.kill_atom(s1, a, last)
            s1.mem[(o, path)] = I(v0.p + C(step) * N) if v0.d is None else TOP
            ex = s1 if ex is None else join_states(ex, s1)
        if ex is not None:
            res['n'] = ex
        for k, s in out.items():
            self.kill_atom(s, a, None)
            res[k] = s
        return res

    def assigned(self, b):
        """variables a loop body assigns directly"""
        r = self.asgmemo.get(id(b))
        if r is None:
            r = set()
            for x in walk(b):
                e = x.a if x.k == 'asg' else x.e if x.k == 'un' and x.o in ('p++', 'p--', 'q++', 'q--') else None
                if e is not None:
                    e = strip(e)
                    if e.k == 'ref' and e.d is not None:
                        r.add(e.d)
            self.asgmemo[id(b)] = r
        return r

    def s_ompinner(self, n, st):
        f = n.e
        # private loop variable of a collapsed nest
        sh = self.loop_shape(f)
        save = None
        if sh is not None:
            vid = sh[0].d
            save = (vid, self.fr.vars.get(vid))
            o = Obj(sh[0].n, 'local', None, private=True)
            self.fr.objs.add(o)
            self.fr.vars[vid] = (o, ())
        r = self.s_for(f, st, n.ws, n.nl)
        if save is not None:
            if save[1] is None:
                self.fr.vars.pop(save[0], None)
            else:
                self.fr.vars[save[0]] = save[1]
        return r

    def head_join(self, pre, s1, a):
        """state at the head of a later generic iteration"""
        j = State()
        for k, v in s1.mem.items():
            w = pre.mem.get(k)
            if w is None:
                # created in the loop: value left by an earlier iteration
                if a.name in vatoms(v) or any(isinstance(x, I) and a.name in x.atoms() for x in k[1]):
                    continue
                j.mem[k] = v
            elif w is v or w == v:
                j.mem[k] = v
            else:
                if a.name in vatoms(v):
                    v = TOPM if is_mat(v) else top(vtt(v))
                j.mem[k] = join(w, v)
        for k, v in pre.mem.items():
            if k not in j.mem and k not in s1.mem:
                j.mem[k] = v
        for k, v in s1.tm.items():
            w = pre.tm.get(k)
            if w is None:
                j.tm[k] = v
            else:
                j.tm[k] = v if w == v else join_lists(w, v)
        for k, v in pre.tm.items():
            if k not in j.tm:
                j.tm[k] = v
        j.ev = dict(s1.ev)
        j.wr = dict(s1.wr)
        j.ret = s1.ret
        return j

    def kill_atom(self, st, a, last):
        nm = a.name
        mem = {}
        adds = []
        for (o, path), v in st.mem.items():
            pos = [i for i, x in enumerate(path) if isinstance(x, I) and nm in x.atoms()]
            if not pos:
                if nm in vatoms(v):
                    v = vsub(v, nm, last) if last is not None else (TOPM if is_mat(v) else top(vtt(v)))
                mem[(o, path)] = v
                continue
            if len(pos) > 1:
                continue
            i = pos[0]
            x = path[i]
            if x.d is not None:
                b, d = x.key()
                if any(q.m for q in d[:-1]):
                    continue
                x = I(b + A('LCU') * d[-1])
                if nm not in x.atoms():
                    continue
            s = x.p.split(nm)
            if s is None or s[0].const != 1:
                if s is not None and s[0] == A('LCU') and False:
                    pass
                continue
            rest = s[1]
            nv = vsub(v, nm, I(A('$') - rest))
            adds.append(((o, path[:i], path[i + 1:]), Lst(rest + a.lo, rest + a.hi, nv)))
        st.mem = mem
        tm = {}
        for (o, pre, post), lst in st.tm.items():
            if any(isinstance(x, I) and nm in x.atoms() for x in pre + post):
                continue
            out = []
            for en in lst:
                if en.lo.has(nm) or en.hi.has(nm):
                    lo0 = en.lo.subst(nm, a.lo)
                    hi0 = en.hi.subst(nm, a.hi - PL.ONE)
                    nxt = en.lo.subst(nm, A(nm) + PL.ONE)
                    if nxt == en.hi:
                        v = en.v
                        if nm in vatoms(v):
                            v = TOPM if is_mat(v) else top(vtt(v))
                        out.append(Lst(lo0, hi0, v))
                    else:
                        v = en.v
                        out.append(Lst(lo0, hi0, TOPM if is_mat(v) else top(vtt(v))))
                elif nm in vatoms(en.v):
                    v = vsub(en.v, nm, last) if last is not None else (TOPM if is_mat(en.v) else top(vtt(en.v)))
                    out.append(Lst(en.lo, en.hi, v))
                else:
                    out.append(en)
            tm[(o, pre, post)] = self.squash(out)
        for k, en in adds:
            tm[k] = self.squash(list(tm.get(k, ())) + [en])
        st.tm = tm

    def squash(self, lst):
        out = []
        for en in lst:
            out = [x for x in out if not (leq(en.lo, x.lo) and leq(x.hi, en.hi))]
            out.append(en)
        return tuple(out[-8:])

    # ---- serial loops with a symbolic bound: linear induction
    def serial_loop(self, n, st, lv, v0, N, step):
        o, path = lv
        out = {}
        heads = [st.copy()]
        cur = st
        D = None
        m = 0
        self.eval(n.c, cur)
        exits = []
        for k in range(4):
            cnd = self.eval(n.c, cur)
            if self.par is not None and vtt(cnd) and self.loopstack:
                self.loopstack[-1]['div'] = n
            if self.truth(cnd) is False:
                exits.append(cur)
                cur = None
                break
            nx = self.body_once(n, cur, out)
            if nx is None:
                cur = None
                break
            if n.inc is not None:
                self.eval(n.inc, nx)
            cur = nx
            heads.append(nx.copy())
            m = k + 1
            if k == 0:
                d01 = self.delta_state(heads[0], heads[1])
                if set(d01) <= {('m', o, path)} and set(heads[1].mem) <= set(heads[0].mem) and \
                        set(heads[1].tm) <= set(heads[0].tm):
                    D = d01
                    break
            if k >= 1:
                d1 = self.delta_state(heads[-3], heads[-2])
                d2 = self.delta_state(heads[-2], heads[-1])
                if d1 == d2 and BAD not in d2.values() and set(heads[-2].mem) == set(heads[-1].mem) and \
                        set(heads[-2].tm) == set(heads[-1].tm):
                    D = d2
                    break
        if cur is not None:
            if D is None:
                D = self.delta_state(heads[-2], heads[-1])
                prev = self.delta_state(heads[-3], heads[-2]) if len(heads) > 2 else {}
                for q in list(D):
                    if D[q] is not BAD and q[0] in ('m', 't') and prev.get(q, 0) != D[q] and q != ('m', o, path):
                        D[q] = BAD
            a = self.fresh_atom(n, C(m), N, None)
            K = A(a.name)
            base = heads[-1]
            G = self.apply_state(base, D, K - C(m))
            G.mem[(o, path)] = I(v0.p + C(step) * K)
            serial0 = self.serial
            self.serial = self.serial + (a.name,)
            for attempt in range(2):
                s = self.body_once(n, G.copy(), out)
                if s is None:
                    break
                if n.inc is not None:
                    self.eval(n.inc, s)
                G1 = self.apply_state(base, D, K + C(1 - m))
                bad = []
                for kk, v in s.mem.items():
                    w = G1.mem.get(kk)
                    if kk == (o, path):
                        continue
                    if w is None:
                        continue
                    if w != v and not (is_mat(v) and is_mat(w) and (site_eq_m(v, w))):
                        bad.append(('m',) + kk)
                for kk, v in s.tm.items():
                    w = G1.tm.get(kk)
                    if w is not None and w != v:
                        bad.append(('t',) + kk)
                bad = [b for b in bad if D.get(b) is not BAD]
                if not bad:
                    break
                for b in bad:
                    D[b] = BAD
                ev = s.ev
                G = self.apply_state(base, D, K - C(m))
                G.mem[(o, path)] = I(v0.p + C(step) * K)
                G.ev = dict(ev)
            self.serial = serial0
            if s is not None:
                fin = self.apply_state(base, D, N - C(m))
                fin.mem[(o, path)] = I(v0.p + C(step) * N)
                fin.ev = s.ev
                fin.wr = s.wr
                fin.ret = s.ret
                for kk, v in s.mem.items():
                    if kk not in fin.mem and not (a.name in vatoms(v) or any(isinstance(x, I) and a.name in x.atoms() for x in kk[1])):
                        fin.mem[kk] = v
                exits.append(fin)
            for k2 in list(out):
                if k2 == 'brk':
                    for b in out[k2]:
                        self.kill_atom(b, a, None)
                else:
                    self.kill_atom(out[k2], a, None)
        for b in out.pop('brk', []):
            exits.append(b)
        res = dict(out)
        ex = None
        for s in exits:
            ex = s if ex is None else join_states(ex, s)
        if ex is not None:
            res['n'] = ex
        return res

    def delta_state(self, s1, s2):
        D = {}
        for k, v in s1.mem.items():
            w = s2.mem.get(k)
            if w is None or w is v or w == v:
                continue
            D[('m',) + k] = delta(v, w)
        for k, v in s1.tm.items():
            w = s2.tm.get(k)
            if w is None or w == v:
                continue
            D[('t',) + k] = delta_list(v, w)
        return D

    def apply_state(self, s, D, mult):
        r = s.copy()
        for k, d in D.items():
            if k[0] == 'm':
                v = r.mem.get(k[1:])
                if v is None:
                    continue
                if d is BAD:
                    r.mem[k[1:]] = TOPM if is_mat(v) else top(vtt(v))
                else:
                    r.mem[k[1:]] = apply_delta(v, d, mult)
            else:
                v = r.tm.get(k[1:])
                if v is None:
                    continue
                if d is BAD:
                    r.tm[k[1:]] = tuple(Lst(x.lo, x.hi, TOPM if is_mat(x.v) else top(vtt(x.v))) for x in v)
                else:
                    r.tm[k[1:]] = tuple(
                        Lst(x.lo + dd[0] * mult, x.hi + dd[1] * mult, apply_delta(x.v, dd[2], mult))
                        for x, dd in zip(v, d))
        return r

    # ---- loops without a recognised counter
    def while_loop(self, c, body, inc, st, n, L=None):
        own = L is None
        if own:
            L = self.push_loop()
        out = {}
        exits = []
        cur = st
        fake = Node({'k': 'while', 'b': body, 'l': n.l, 'f': n.f})
        for k in range(3):
            t = None
            if c is not None:
                cv = self.eval(c, cur)
                t = self.truth(cv)
                if self.par is not None and vtt(cv):
                    L['div'] = n
            else:
                t = True
            if t is False:
                exits.append(cur)
                cur = None
                break
            if t is None:
                exits.append(cur.copy())
            if k == 2:
                break
            pre = cur.copy()
            nx = self.body_once(fake, cur, out)
            if nx is None:
                cur = None
                break
            if inc is not None:
                self.eval(inc, nx)
            j = join_states(pre, nx)
            j.ev = nx.ev
            cur = j
        if cur is not None and not exits and 'brk' not in out:
            exits.append(cur)
        exits += out.pop('brk', [])
        ex = None
        for s in exits:
            ex = s if ex is None else join_states(ex, s)
        res = dict(out)
        if ex is not None:
            res['n'] = ex
        if own:
            self.pop_loop(L, n)
        return res

    def s_while(self, n, st):
        return self.while_loop(n.c, n.b, None, st, n)

    def s_do(self, n, st):
        out = {}
        L = self.push_loop()
        s = self.body_once(n, st, out)
        if s is not None:
            cv = self.eval(n.c, s)
            if self.par is not None and vtt(cv):
                L['div'] = n
            t = self.truth(cv)
            if t is not False:
                pre = s.copy()
                s2 = self.body_once(n, s, out)
                if s2 is not None:
                    self.eval(n.c, s2)
                    j = join_states(pre, s2)
                    j.ev = s2.ev
                    s = j
                else:
                    s = pre
        for b in out.pop('brk', []):
            s = b if s is None else join_states(s, b)
        res = dict(out)
        if s is not None:
            res['n'] = s
        self.pop_loop(L, n)
        return res

    # -------------------------------------------------- OpenMP
    def s_omp(self, n, st):
        d = n.dir.replace('simd', '').strip()
        toks = d.split()
        if not toks:
            # plain simd loop
            return self.ex(n.b, st)
        if 'barrier' in toks:
            self.barrier(n, st)
            return {'n': st}
        if toks[0] in ('master', 'masked', 'single'):
            if self.par is None:
                return self.ex(n.b, st)
            if toks[0] == 'single':
                self.align(n, 'single')
            old, self.excl = self.excl, toks[0]
            o = self.ex(n.b, st)
            self.excl = old
            if toks[0] == 'single' and not self.has_clause(n, 'nowait'):
                for k, s in o.items():
                    if k == 'n':
                        self.barrier(n, s, implied=True)
            return o
        if toks[0] in ('critical', 'atomic'):
            old, self.excl = self.excl, toks[0]
            if toks[0] == 'critical' and self.par is not None:
                pass
            o = self.ex(n.b, st)
            self.excl = old
            return o
        if toks[0] in ('flush', 'taskwait', 'ordered', 'threadprivate'):
            return self.ex(n.b, st) if n.b is not None else {'n': st}
        binds, reds = self.bind_private(n, st, 'for' in toks)
        try:
            if 'parallel' in toks:
                return self.parallel(n, st, 'for' in toks, reds)
            if 'for' in toks:
                return self.workshare(n, st, reds)
            return self.ex(n.b, st)
        finally:
            for vid, old in binds:
                if old is None:
                    self.fr.vars.pop(vid, None)
                else:
                    self.fr.vars[vid] = old

    def has_clause(self, n, name):
        return any(c.c == name for c in n.cl)

    def bind_private(self, n, st, isfor):
        binds, reds = [], []
        self.newpriv = []

        def bind(vid, name, init):
            V = self.prog.vars.get(vid)
            old = self.fr.vars.get(vid)
            o = Obj(name, 'local', V.type if V else None, private=True, var=V)
            self.fr.objs.add(o)
            binds.append((vid, old))
            self.fr.vars[vid] = (o, ())
            if init is not None:
                st.mem[(o, ())] = init
            return old
        for c in n.cl:
            if c.c in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
                for v in c.v or []:
                    v = strip(v)
                    if v.k != 'ref':
                        continue
                    old = self.fr.vars.get(v.d)
                    if old is None:
                        old = self.var(v)
                    init = None
                    if c.c == 'firstprivate' and old is not None:
                        init = st.mem.get((old[0], old[1]))
                    bind(v.d, v.n, init if c.c != 'reduction' else TOPT)
                    if c.c in ('reduction', 'lastprivate'):
                        reds.append((old, self.fr.vars[v.d][0], c.c))
        if isfor:
            # the loop variables are private by rule
            nl = n.nloops or 1
            b = n.b
            for _ in range(nl):
                while b is not None and b.k == 'block' and len(b.b) == 1:
                    b = b.b[0]
                if b is None or b.k != 'for':
                    break
                sh = self.loop_shape(b)
                if sh is not None and all(vid != sh[0].d for vid, o in binds):
                    V = self.prog.vars.get(sh[0].d)
                    bind(sh[0].d, sh[0].n, None)
                b = b.b
        return binds, reds

    def finish_reductions(self, st, reds):
        for old, o, kind in reds:
            if old is not None:
                st.mem[(old[0], old[1])] = TOP

    def parallel(self, n, st, isfor, reds):
        if self.par is not None:
            # nested region: a team of one, every encountering thread runs it
            self.cnt('nested regions', n)
            if isfor:
                o = self.ex(n.b, st)
            else:
                o = self.ex(n.b, st)
            for s in o.values():
                self.finish_reductions(s, reds)
            return o
        self.cnt('parallel regions', n)
        save = (self.par, self.ws, self.excl, self.div, self.loopstack, self.serial)
        evs = st.ev
        st.ev = {}
        self.par = n
        self.ws, self.excl, self.div, self.loopstack = (), None, [], ()
        dr = getattr(self.fr, 'divret', None)
        try:
            if isfor:
                o = self.ws_loop(n, st)
            else:
                o = self.ex(n.b, st)
            res = {}
            for k, s in o.items():
                self.conflicts(s, n)
                s.ev = dict(evs)
                self.finish_reductions(s, reds)
                res[k] = s
            # after the region the encountering thread's view is what is left of tainted values
            return res
        finally:
            self.par, self.ws, self.excl, self.div, self.loopstack, self.serial = save
            self.fr.divret = dr

    def ws_loop(self, n, st):
        b = n.b
        while b.k == 'block' and len(b.b) == 1:
            b = b.b[0]
        if b.k != 'for':
            return self.ex(n.b, st)
        w = WS(n, [])
        old = self.ws
        self.ws = old + (w,)
        ls, self.loopstack = self.loopstack, ()
        self.cnt('worksharing loops', n)
        try:
            return self.s_for(b, st, w, n.nloops or 1)
        finally:
            self.ws = old
            self.loopstack = ls

    def workshare(self, n, st, reds):
        if self.par is None:
            o = self.ex(n.b, st)
            for s in o.values():
                self.finish_reductions(s, reds)
            return o
        self.align(n, 'worksharing loop')
        o = self.ws_loop(n, st)
        for k, s in o.items():
            self.finish_reductions(s, reds)
        if not self.has_clause(n, 'nowait') and 'n' in o:
            self.barrier(n, o['n'], implied=True)
        return o

    def align(self, n, what):
        """every thread of the team must reach this construct, in the same order"""
        if self.par is None:
            return
        self.cnt('synchronisation points', n)
        if self.ws:
            self.alarm('barrier', n, '%s inside a worksharing loop (line %d)' % (what, self.ws[-1].node.l))
        if self.excl:
            self.alarm('barrier', n, '%s inside a %s construct' % (what, self.excl))
        if self.div:
            self.alarm('barrier', n, '%s reached only by the threads that take the branch at line %d, whose condition '
                       'differs between threads' % (what, self.div[-1][0].l))
        for f in self.frames:
            dr = getattr(f, 'divret', None)
            if dr is not None:
                self.alarm('barrier', n, '%s after a thread-dependent return (line %d)' % (what, dr.l))
        for L in self.loopstack:
            L['bar'] = n

    def barrier(self, n, st, implied=False):
        if self.par is None:
            return
        if not implied:
            self.align(n, 'barrier')
        self.barriers += 1
        for L in self.loopstack:
            L['bar'] = n
        self.conflicts(st, n)
        st.ev = {}

    def conflicts(self, st, n):
        byobj = {}
        for e in st.ev.values():
            byobj.setdefault(e.o, []).append(e)
        for o, evs in byobj.items():
            ws = [e for e in evs if e.rw == 'w']
            if not ws:
                continue
            for a in ws:
                self.cnt('shared writes')
                for b in evs:
                    if b.rw == 'w' and id(b) < id(a):
                        continue
                    why = self.conflict(a, b)
                    if why:
                        self.race(a, b, why)

    def race(self, a, b, why):
        key = ('race', a.file, a.line, a.fn, (b.file, b.line, str(a.o)))
        if key not in self.alarms:
            self.alarms[key] = dict(
                rule='race', file=a.file, line=a.line, function=a.fn,
                msg='write of %s%s and %s of %s%s at %s:%d (%s) are not ordered: %s' % (
                    a.o, pathstr(a.path), 'write' if b.rw == 'w' else 'read', b.o, pathstr(b.path),
                    b.file, b.line, b.fn, why), entry=self.entry, path=[], choices=dict(self.choices))

    def conflict(self, a, b):
        if a.excl and a.excl == b.excl:
            return None
        ins = set((a.excl, b.excl))
        if ins <= {'critical', 'atomic'}:
            return None
        if ins == {'master', 'single'}:
            pass
        if len(a.path) != len(b.path):
            return None       # a pointer cell and what it points to
        k = len(a.path)
        if not a.ws and not b.ws and not a.excl and not b.excl and a.path == b.path:
            # every thread stores the same thread-independent value: redundant, not conflicting
            w, r = (a, b) if a.rw == 'w' else (b, a)
            if w.uni and (r is w or (r.rw == 'w' and r.uni and r.line == w.line) or (r.rw == 'r' and r.seq > w.seq)):
                return None
        same = bool(a.ws) and bool(b.ws) and a.ws[-1].id == b.ws[-1].id
        self.pguard = a.par and b.par
        if same:
            wsat = frozenset(a.ws[-1].atoms)
            covered = set()
            for x, y in zip(a.path[:k], b.path[:k]):
                if isinstance(x, str) or isinstance(y, str):
                    if x != y:
                        return None
                    continue
                r = self.cmp_ws(x, y, wsat)
                if r == 'ne':
                    return None
                if r == 'q':
                    return None
                if isinstance(r, set):
                    covered |= r
            if wsat and covered >= wsat:
                return None
            return 'the iterations of the loop at line %d do not touch disjoint elements' % a.ws[-1].node.l
        for x, y in zip(a.path[:k], b.path[:k]):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return None
                continue
            if self.cmp_all(x, y, bool(a.ws) and bool(b.ws)) == 'ne':
                return None
        if a.ws or b.ws:
            return 'no barrier separates them'
        return 'every thread executes the statement'

    def wsdep(self, x, wsat):
        """worksharing atoms x depends on; opaque thread-dependent indices count as depending on all"""
        at = x.atoms()
        r = at & wsat
        for a in at:
            k = ATOMS.get(a)
            if k is not None and k.tt and k.kind in ('opaque', 'tid'):
                return set(wsat) or {'?'}
        return r

    def residues(self, x, y):
        """x and y differ modulo the common stride of everything that varies in them"""
        g = 0
        for q in (x.p, y.p):
            for k, c in q.m.items():
                if k != ():
                    g = math.gcd(g, abs(c))
        if g < 2:
            return False
        return (x.p.m.get((), 0) - y.p.m.get((), 0)) % g != 0

    def hyperplane(self, b, dims):
        """the sites b all have coordinate 0 in the given dimensions: lines along them do not meet"""
        pre = [PL.ONE]
        for m in range(self.ND):
            q = pre[-1] * A('L%d' % m)
            pre.append(q)
        ats = list(b.atoms())
        if len(b.m) == 1 and len(ats) == 1 and b == A(ats[0]):
            k = ATOMS[ats[0]]
            if k.kind == 'loop' and k.lo is not None and k.lo == PL.ZERO and k.hi is not None:
                return any(leq(k.hi, pre[m]) for m in range(1, self.ND) if m <= min(dims))
            return False
        seen = set()
        for k, c in b.m.items():
            at = [q for q in k if ATOMS[q].kind != 'geom']
            if c != 1 or len(at) != 1 or ATOMS[at[0]].kind != 'opaque':
                return False
            g = Poly({tuple(q for q in k if q != at[0]): 1})
            ix = [m for m in range(self.ND) if pre[m] == g]
            if not ix or ix[0] in seen:
                return False
            seen.add(ix[0])
        return bool(seen) and not (seen & set(dims))

    def cmp_ws(self, x, y, wsat):
        k = (x, y, wsat, self.pguard)
        r = self.cmpmemo.get(k)
        if r is None:
            r = self.cmpmemo[k] = self.cmp_ws1(x, y, wsat)
        return r

    def cmp_ws1(self, x, y, wsat):
        if x.d is None and y.d is None and self.residues(x, y):
            return 'ne'
        if x.d is None and y.d is None and (x.p.has('TID') or y.p.has('TID')):
            r = self.cmp_all(x, y)
            if r == 'ne' or (x == y):
                return 'ne'
            return 'maybe'
        dx, dy = self.wsdep(x, wsat), self.wsdep(y, wsat)
        if not dx and not dy:
            df = x.p - y.p
            if x.d is None and y.d is None:
                if df.const is not None and df.const != 0:
                    return 'ne'
                if less(x.p, y.p) or less(y.p, x.p):
                    return 'ne'
            return 'maybe'
        if not dx or not dy:
            o = y if dx else x
            if any(ATOMS[a].kind == 'opaque' for a in o.atoms() if a in ATOMS):
                return 'q'
            return 'maybe'
        (b1, d1), (b2, d2) = reduce_key(x.key()), reduce_key(y.key())
        if b1 == b2:
            dd = [p - q for p, q in zip(d1, d2)]
            if all(not p.m for p in dd):
                return dx & dy
            mv = [m for m, p in enumerate(dd) if p.m]
            if self.hyperplane(b1, mv):
                return dx & dy
            if any(p.const is None for p in dd):
                # slices numbered by a uniform expression
                if all(not p.m for p in dd[:-1]):
                    return 'ne' if (less(d1[-1], d2[-1]) or less(d2[-1], d1[-1])) else 'q'
                return 'q'
            opq = [a for a in b1.atoms() if ATOMS[a].kind == 'opaque']
            cs = [p.const for p in dd]
            if opq or self.pguard:
                # draughtboard squares: neighbours an odd distance away have the other colour
                return 'ne' if sum(abs(c) for c in cs) % 2 else 'maybe'
            if all(c == 0 for c in cs[:-1]) and cs[-1] != 0:
                for a in dx | dy:
                    k = ATOMS.get(a)
                    if k is not None and k.lo is not None and k.hi is not None and leq(k.hi - k.lo, A('LCU')):
                        return 'ne'
            return 'maybe'
        df = b1 - b2
        if not any(set(b.atoms()) & wsat for b in (b1, b2)) and not (d1[-1] - d2[-1]).m:
            # two positions of one time slice, the slice is the iteration
            cov = set(q for q in wsat if (d1[-1].split(q) or [PL.ZERO])[0].const in (1, -1))
            if cov == dx == dy:
                return cov
        df = b1 - b2
        if df.const is not None and not any((p - q).m for p, q in zip(d1, d2)):
            # i and i+c: strided element blocks
            for a in dx:
                s = b1.split(a)
                if s is not None and s[0].const is not None and abs(s[0].const) > abs(df.const):
                    return 'ne'
                if s is not None and s[0].const is None:
                    return 'q'
            return 'maybe'
        # inner serial indices inside a block that belongs to the iteration
        if dx == dy and dx:
            same = True
            for a in dx & wsat:
                s1, s2 = b1.split(a), b2.split(a)
                if s1 is None or s2 is None or s1[0] != s2[0]:
                    same = False
            if same:
                return dx & dy
        return 'q'

    def cmp_all(self, x, y, strict=False):
        """strict: two worksharing loops without a barrier between them; an index that is not known may be any"""
        if x.d is None and y.d is None:
            if self.residues(x, y):
                return 'ne'
            df = x.p - y.p
            c = df.const
            sx, sy = x.p.split('TID'), y.p.split('TID')
            tx = sx is not None and bool(sx[0].m)
            ty = sy is not None and bool(sy[0].m)
            if tx and ty:
                if sx[0] == sy[0]:
                    if c is not None and sx[0].const is not None and abs(c) < abs(sx[0].const):
                        return 'ne'
                    if c is None or sx[0].const is None:
                        return 'ne'
                    return 'maybe'
                return 'ne'
            if c is not None and c != 0:
                return 'ne'
            if less(x.p, y.p) or less(y.p, x.p):
                return 'ne'
            for z in (x, y) if not strict else ():
                for a in z.atoms():
                    k = ATOMS.get(a)
                    if k is not None and k.kind == 'opaque' and k.tt:
                        return 'ne'
            return 'maybe'
        if not strict and any(k is not None and k.kind == 'opaque' for k in (ATOMS.get(a) for a in x.atoms() | y.atoms())):
            return 'ne'
        return 'maybe'


BAD = 'bad'


def idelta(a, b):
    dp = b.p - a.p
    if a.d is None and b.d is None:
        return (dp, None)
    z = (PL.ZERO,) * ND_()
    d = tuple(q - p for p, q in zip(a.d or z, b.d or z))
    return (dp, norm_d(d))


def delta(v, w):
    if v == w:
        return 0
    if isinstance(v, I) and isinstance(w, I):
        return ('I',) + idelta(v, w)
    if isinstance(v, M) and isinstance(w, M):
        return ('M', idelta(v.s, w.s), idelta(v.e, w.e))
    if isinstance(v, P) and isinstance(w, P) and v.o is w.o and len(v.path) == len(w.path) and \
            v.off is not None and w.off is not None:
        ds = []
        for x, y in zip(v.path, w.path):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return BAD
                ds.append(None)
            else:
                ds.append(idelta(x, y))
        return ('P', tuple(ds), idelta(v.off, w.off))
    return BAD


def delta_list(v, w):
    if len(v) != len(w):
        return BAD
    out = []
    for x, y in zip(v, w):
        d = delta(x.v, y.v)
        if d is BAD:
            return BAD
        out.append((y.lo - x.lo, y.hi - x.hi, d))
    return tuple(out)


def iapply(v, d, m):
    p = v.p + d[0] * m
    if d[1] is None:
        return I(p, v.d)
    z = (PL.ZERO,) * ND_()
    return I(p, norm_d(tuple(a + b * m for a, b in zip(v.d or z, d[1]))))


def apply_delta(v, d, m):
    if d == 0:
        return v
    if d[0] == 'I':
        return iapply(v, d[1:], m)
    if d[0] == 'M':
        return M(iapply(v.s, d[1], m), iapply(v.e, d[2], m))
    if d[0] == 'P':
        path = tuple(x if dd is None else iapply(x, dd, m) for x, dd in zip(v.path, d[1]))
        return P(v.o, path, iapply(v.off, d[2], m))
    return v
