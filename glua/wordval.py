"""Abstract interpretation of lattice code in the domain of non-commutative
polynomials of gauge links ("words").

The colour matrices the code handles are abstracted by linear combinations of
products of links U_mu(x+d), of their daggers and of uninterpreted matrices; the
matrix primitives act on them by their definition (decided for each of them by
C05).  Scalars are polynomials over traces of closed words, matrix entries and
the lattice extents.  Sites are a base (the generic site of a loop, an argument)
plus a displacement, integers are polynomials over the extents.  A loop over a
symbolic range is interpreted once for a generic iteration; what it adds to an
accumulator is multiplied with the number of iterations."""
from . import core
from .core import strip, walk
from .polyval import (V, Machine, Region, Ptr, Unknown, UNK, Undecided, Outside, Cmp, padd, pmul, pneg, pconst, pvar, pinv,
                      pfun, pkey, pnum, pscale, peq, vadd, vmul, vconj, vdiv, veq, num, sym, NAMES, iscplx, isvec, isflt,
                      INTR, _Ret, _Brk, _Cont)
from .checks import c05

EPS = 1e-12


# ------------------------------------------------------------------ integers
class SI(Unknown):
    """symbolic integer: {sorted tuple of symbols: coefficient}"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def key(self):
        return tuple(sorted(self.p.items(), key=repr))

    def __eq__(self, o):
        return isinstance(o, SI) and self.p == o.p or isinstance(o, int) and self.p == ({(): o} if o else {})

    def __hash__(self):
        return hash(self.key())

    def const(self):
        return self.p.get((), 0) if not self.p or list(self.p) == [()] else None

    def __repr__(self):
        return 'SI(%s)' % ' + '.join('%s*%s' % (c, '*'.join(map(str, m))) for m, c in self.key())


def si(x):
    return x if isinstance(x, SI) else SI({(): x} if x else {})


def simp(x):
    c = x.const()
    return c if c is not None else x


def isym(s):
    return SI({(s,): 1})


def siadd(a, b, s=1):
    r = dict(si(a).p)
    for m, c in si(b).p.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return simp(SI(r))


def simul(a, b):
    r = {}
    for m, c in si(a).p.items():
        for n, d in si(b).p.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return simp(SI(r))


# -------------------------------------------------------------------- words
# letter: ('U', name, base, disp, mu, dag) or ('F', name, key, hermitian, dag)
def ldag(l):
    if l[0] == 'F' and l[3]:
        return l
    return l[:-1] + (1 - l[-1],)


def wdag(w):
    return tuple(ldag(l) for l in reversed(w))


def reduce_word(w):
    out = []
    for l in w:
        if out and l[0] in 'UG' and out[-1] == ldag(l):
            out.pop()
        else:
            out.append(l)
    return tuple(out)


ONE = V(pconst(1))


def wadd(a, b, s=1.0):
    r = dict(a)
    for w, c in b.items():
        v = vadd(r[w], c, s) if w in r else vadd(V({}), c, s)
        if v.re == {} and v.im == {}:
            r.pop(w, None)
        else:
            r[w] = v
    return r


def wmul(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            w = reduce_word(x + y)
            v = vmul(c, d)
            r[w] = vadd(r[w], v) if w in r else v
    return {w: v for w, v in r.items() if not (v.re == {} and v.im == {})}


def wd(a):
    r = {}
    for w, c in a.items():
        k = wdag(w)
        r[k] = vadd(r[k], vconj(c)) if k in r else vconj(c)
    return r


def weq(a, b):
    z = V({})
    return all(veq(a.get(w, z), b.get(w, z)) for w in set(a) | set(b))


def wkey(a):
    return tuple(sorted(((w, pkey(c.re), pkey(c.im)) for w, c in a.items()), key=repr))


_ent = {}


def entry(w, n, r, c):
    """entry (r,c) of a single word"""
    k = (w, n, r, c)
    v = _ent.get(k)
    if v is None:
        if w == ():
            v = ONE if r == c else V({})
        else:
            d = wdag(w)
            cj = False
            if d == w:                  # hermitian
                if r > c:
                    r, c, cj = c, r, True
                if r == c == n - 1 and len(w) == 1 and w[0][3] == 2:        # and traceless
                    v = V({})
                    for i in range(n - 1):
                        v = vadd(v, entry(w, n, i, i), -1.0)
                    _ent[k] = v
                    return v
                v = V(pvar(('e', w, r, c, 're')), {} if r == c else pvar(('e', w, r, c, 'im')))
            elif repr(d) < repr(w):
                v, cj = V(pvar(('e', d, c, r, 're')), pvar(('e', d, c, r, 'im'))), True
            else:
                v = V(pvar(('e', w, r, c, 're')), pvar(('e', w, r, c, 'im')))
            if cj:
                v = vconj(v)
        _ent[k] = v
    return v


def went(a, n, k):
    s = V({})
    for w, c in a.items():
        s = vadd(s, vmul(c, entry(w, n, k // n, k % n)))
    return s


_tr = {}


def trace_word(w, n):
    v = _tr.get((w, n))
    if v is None:
        x = list(w)
        while len(x) > 1 and x[0][0] in 'UG' and x[-1] == ldag(x[0]):
            x = x[1:-1]
        if not x:
            v = V(pconst(n))
        else:
            best = None
            for y in (tuple(x), wdag(tuple(x))):
                for i in range(len(y)):
                    z = y[i:] + y[:i]
                    k = repr(z)
                    if best is None or k < best[0]:
                        best = k, z, y is not tuple(x) and y != tuple(x)
            z = best[1]
            d = wdag(z)
            real = any(d[i:] + d[:i] == z for i in range(len(d)))
            v = V(pvar(('t', z, 're')), {} if real else pvar(('t', z, 'im')))
            # is z a rotation of the word itself or of its dagger?
            if not real and not any(tuple(x[i:] + x[:i]) == z for i in range(len(x))):
                v = vconj(v)
        _tr[(w, n)] = v
    return v


def wtrace(a, n):
    s = V({})
    for w, c in a.items():
        s = vadd(s, vmul(c, trace_word(w, n)))
    return s


class WM(object):
    """a matrix as the algebra of c05.specs sees it"""
    __slots__ = ('w', 'n')

    def __init__(self, w, n):
        self.w, self.n = w, n

    def __getitem__(self, k):
        if isinstance(k, slice):
            return [self[i] for i in range(*k.indices(self.n * self.n))]
        return went(self.w, self.n, k)

    def __len__(self):
        return self.n * self.n

    def __iter__(self):
        return (self[k] for k in range(len(self)))


class WAlg(c05.Alg):
    def mul(self, a, b):
        if not isinstance(a, WM) or not isinstance(b, WM):
            a, b = self.lift(a), self.lift(b)
        return WM(wmul(a.w, b.w), self.n)

    def lift(self, a):
        return a if isinstance(a, WM) else WM(decode(list(a), self.n), self.n)

    def dag(self, a):
        return WM(wd(self.lift(a).w), self.n)

    def tr(self, a):
        return wtrace(self.lift(a).w, self.n)

    def add(self, a, b, s=1.0):
        return WM(wadd(self.lift(a).w, self.lift(b).w, s), self.n)

    def scale(self, a, c):
        return WM(wmul(self.lift(a).w, {(): c}) if not (c.re == {} and c.im == {}) else {}, self.n)

    def one(self, c=None):
        c = c or ONE
        return WM({(): c} if not (c.re == {} and c.im == {}) else {}, self.n)

    def complete(self, a):
        return a


def decode(vals, n):
    """the linear combination of words whose entries are vals"""
    out = {}
    amb = {}
    for k, v in enumerate(vals):
        if v is None or v.re is None or v.im is None:
            raise Undecided('a matrix with an unknown element')
        r, c = k // n, k % n
        const = V({m: x for m, x in v.re.items() if not any(isent(s) for s in m)},
                  {m: x for m, x in v.im.items() if not any(isent(s) for s in m)})
        if r == c:
            if not (const.re == {} and const.im == {}):
                amb.setdefault((), {})[k] = const
        elif not (const.re == {} and const.im == {}):
            raise Undecided('a constant off-diagonal element')
        acc = {}
        for part, p in ((0, v.re), (1, v.im)):
            for m, x in p.items():
                es = [s for s in m if isent(s)]
                if not es:
                    continue
                if len(es) != 1:
                    raise Undecided('a product of matrix elements')
                rest = list(m)
                rest.remove(es[0])
                _, w, er, ec, ri = NAMES[es[0]]
                d = acc.setdefault((w, er, ec), [[{}, {}], [{}, {}]])
                d[part][0 if ri == 're' else 1][tuple(rest)] = x
        for (w, er, ec), ((rr, ri), (ir, ii)) in acc.items():
            # value = c * e or c * conj(e): re = cr er -+ ci ei, im = ci er +- cr ei
            # entry of w (1): rr = cr, ri = -ci, ir = ci, ii = cr ; of conj: rr = cr, ri = ci, ir = ci, ii = -cr
            if r == c:
                continue                # fixed by the others, compared below
            if (er, ec) == (r, c) and (er, ec) != (c, r):
                hit = [w, 1]
            elif (er, ec) == (c, r) and er != ec:
                hit = [wdag(w), -1]
            else:
                raise Undecided('elements out of place')
            if not (peq(rr, pscale(ii, hit[1])) and peq(ri, pscale(ir, -hit[1]))):
                raise Undecided('mixed elements')
            co = V(rr, ir)
            o = out.setdefault(hit[0], {})
            o[k] = co
    W = {}
    for w, d in out.items():
        cs = list(d.values())
        if len(d) != n * n - n or not all(veq(cs[0], x) for x in cs[1:]):
            raise Undecided('not a matrix combination')
        W[w] = cs[0]
    if () in amb:
        d = amb[()]
        cs = list(d.values())
        if len(d) != n or not all(veq(cs[0], x) for x in cs[1:]):
            raise Undecided('a diagonal that is not constant')
        W[()] = cs[0]
    for k, v in enumerate(vals):
        if not veq(went(W, n, k), v):
            raise Undecided('not a matrix combination')
    return W


ELEMS, _elems = [], {}


def elems(vals):
    """a matrix known by its elements only, as a letter of its own"""
    if any(v is None or v.re is None or v.im is None for v in vals):
        raise Undecided('a matrix with an unknown element')
    if sum(len(v.re) + len(v.im) for v in vals) > 20000:
        raise Undecided('a matrix with large elements')
    k = tuple((pkey(v.re), pkey(v.im)) for v in vals)
    i = _elems.get(k)
    if i is None:
        i = _elems[k] = len(ELEMS)
        ELEMS.append(list(vals))
    return {(('F', 'elems', i, 0, 0),): ONE}


def isent(s):
    nm = NAMES[s]
    return isinstance(nm, tuple) and nm and nm[0] == 'e'


# ------------------------------------------------------------------- memory
class ME(object):
    """real or imaginary part of an entry of an abstract matrix, not yet expanded"""
    __slots__ = ('w', 'n', 'k', 'im')

    def __init__(self, w, n, k, im):
        self.w, self.n, self.k, self.im = w, n, k, im

    def val(self):
        v = went(self.w, self.n, self.k)
        return v.im if self.im else v.re


class Field(object):
    """an array with one element per site (or other symbolic index)"""

    def __init__(self, name, t, gen=None, dim=None):
        self.name, self.t, self.gen = name, t, gen
        self.el = {}
        self.done = {}          # base -> element at that site after a loop over all of them
        self.live = True
        self.dim = dim
        self.ndirs = None
        self.links = True


class FPtr(Ptr):
    """pointer to a symbolic element of a field: index a symbolic integer or site"""
    __slots__ = ()


class Site(Unknown):
    __slots__ = ('base', 'd')

    def __init__(self, base, d=()):
        self.base, self.d = base, tuple(d)

    def key(self):
        return (self.base, self.d)

    def __eq__(self, o):
        return isinstance(o, Site) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'Site(%s%s)' % (self.base, list(self.d))


class FnVal(Unknown):
    def __init__(self, name):
        self.name = name


OPAQUE_H = {'exact_log_slow': 'log', 'exact_log_fast': 'log', 'approx_log': 'log'}


class WordMachine(Machine):
    def __init__(self, prog, dims=None):
        Machine.__init__(self, prog)
        t = prog.func('multab').params[0].otype
        self.n = int(round(t.n ** 0.5))
        self.nd = next(ft.n for nm, ft in self.fields_of('site') if nm == 'neighbor')
        self.A = WAlg(self.n)
        self.prims = c05.specs(self.A)
        self.dims = [isym('d%d' % i) if not dims or dims.get(i) is None else dims[i] for i in range(self.nd)]
        self.ranges = {}        # loop symbol -> (start, end)
        self.active = []
        self.tsyms = []
        self.fields_ = []
        self.count = dict(products=0, traces=0, loops=0)
        self.depthfork = 0

    def fields_of(self, r):
        fs = self.p.records.get(r)
        if not fs:
            raise core.AnalysisError('struct %s has vanished' % r)
        return [(f[0], f[1]) for f in fs]

    # the lattice
    def volume(self, k=None):
        v = 1
        for x in self.dims[:k if k is not None else self.nd]:
            v = simul(v, x)
        return v

    def lattice(self, name, t, base=None):
        """pointer to the first site of a gauge field"""
        f = Field(name, t)
        f.gen = lambda s, f=f: self.gensite(f, s)
        self.fields_.append(f)
        return FPtr(f, 0, None)

    def gauge(self, name, t, kind='G'):
        """an array of pointers to one matrix per site"""
        f = Field(name, t)
        f.gen = lambda s, f=f: self.gengauge(f, s, kind)
        self.fields_.append(f)
        return FPtr(f, 0, None)

    def gengauge(self, f, s, kind):
        mr = Region(f.name, 2 * self.n * self.n, 1)
        if kind:
            self.putw(mr, 0, {((kind, f.name, s.base, s.d, 0, 0),): ONE})
        return Region(f.name, 1, 1, {0: Ptr(mr, 0, f.t.e if f.t.isptr else None)})

    def gensite(self, f, s):
        r = Region(f.name, self.width(f.t), 1)
        off = 0
        for nm, ft in self.fields_of(f.t.r):
            w = self.width(ft)
            if nm in ('neighbor', 'back'):
                for mu in range(self.nd):
                    r.cells[off + mu] = self.step(s, mu, 1 if nm == 'neighbor' else -1)
            elif ft.isptr and ft.e is not None and ft.e.isptr:
                # directions -> matrices
                nn = self.n * self.n
                k = self.ndirs(f)
                d = Region(f.name, k, 1)
                for mu in range(k):
                    mr = Region(f.name, 2 * nn, 1)
                    if f.links:
                        self.putw(mr, 0, {(self.link(f.name, s, mu),): ONE})
                    d.cells[mu] = Ptr(mr, 0, ft.e)
                r.cells[off] = Ptr(d, 0, ft)
            elif ft.k == 'arr':
                nn = self.n * self.n
                for mu in range(w // (2 * nn)):
                    self.putw(r, off + mu * 2 * nn, {(self.link(f.name, s, mu),): ONE})
            off += w
        return r

    def ndirs(self, f):
        return f.ndirs or self.nd

    def link(self, name, s, mu):
        return ('U', name, s.base, s.d, mu, 0)

    def step(self, s, mu, k):
        d = list(s.d) or [0] * self.nd
        d[mu] += k
        L = self.dims[mu]
        if isinstance(L, int):
            d[mu] %= L
        return Site(s.base, d if any(d) else ())

    def site(self, x):
        """the site an integer numbers"""
        if isinstance(x, Site):
            return x
        if isinstance(x, int):
            return Site(('c', x))
        if isinstance(x, SI):
            full = self.fullsite(x)
            if full is not None:
                return full
            k = x.key()
            if len(k) == 1 and k[0][1] == 1 and len(k[0][0]) == 1 and isinstance(k[0][0][0], Site):
                return k[0][0][0]
            # site + displacement into other time slices
            return Site(('i',) + k)
        raise Undecided('site index')

    def fullsite(self, x):
        """'x' when x runs over every site of the lattice, ('sl', t) over those of the time slice t"""
        k = x.key()
        L, T = self.volume(self.nd - 1), self.dims[-1]
        for m, c in k:
            if c != 1 or len(m) != 1:
                continue
            if isinstance(m[0], Site) and m[0].base == 'y' and not (m[0].d and m[0].d[-1]):
                b = self.sliceof(siadd(x, isym(m[0]), -1), L, T)
                if b is not None:
                    return Site(b, m[0].d)
            if m[0] in self.ranges:
                a, b = self.ranges[m[0]]
                rest = siadd(x, isym(m[0]), -1)
                if rest == 0 and a == 0 and b == self.volume():
                    return Site('x')
                if a == 0 and b == L:
                    t = self.sliceof(rest, L, T)
                    if t is not None:
                        return Site(t)
                if rest == 0 and b == siadd(a, L):
                    t = self.sliceof(a, L, T)
                    if t is not None:
                        return Site(t)
        return None

    def sliceof(self, r, L, T):
        """the base of the sites r + 0..Lcu-1"""
        if r == 0:
            return 'y'
        for l in list(self.ranges) + list(self.tsyms):
            if r == simul(isym(l), L):
                return 'x' if self.ranges.get(l) == (0, T) else ('sl', l)
        return None

    def putw(self, r, off, w):
        for k in range(self.n * self.n):
            r.cells[off + 2 * k] = ME(w, self.n, k, 0)
            r.cells[off + 2 * k + 1] = ME(w, self.n, k, 1)

    def getw(self, p):
        p = self.real(p)
        nn = self.n * self.n
        self.check(p, 2 * nn)
        c = p.r.cells
        a = c.get(p.off)
        if isinstance(a, ME):
            if all(isinstance(c.get(p.off + j), ME) and c[p.off + j].w is a.w and c[p.off + j].k == j // 2 and
                   c[p.off + j].im == j % 2 for j in range(2 * nn)):
                return a.w
        vals = []
        for k in range(nn):
            x, y = self.cell(c.get(p.off + 2 * k)), self.cell(c.get(p.off + 2 * k + 1))
            vals.append(V(x, y))
        try:
            return decode(vals, self.n)
        except Undecided:
            return elems(vals)

    def cell(self, x):
        if isinstance(x, ME):
            return x.val()
        return x if isinstance(x, dict) else None

    def real(self, p):
        """the element region a field pointer designates"""
        if isinstance(p, FPtr):
            f = p.r
            if not f.live:
                raise Outside(self.line, '%s is used after it went away' % f.name, self.file)
            s = self.site(p.off) if f.dim is None else (p.off if isinstance(p.off, (int, Site)) else self.site(p.off))
            r = f.el.get(s)
            if r is None:
                t = f.done.get(s.base) if isinstance(s, Site) else None
                if t is not None:
                    r = self.shift(t, s.d)
                else:
                    r = f.gen(s) if f.gen else Region(f.name, self.width(f.t), 1)
                f.el[s] = r
            return Ptr(r, 0, p.t)
        return p

    # ------------------------------------------------- machine overrides
    def check(self, p, w):
        if isinstance(p, FPtr):
            return
        Machine.check(self, p, w)

    def loadp(self, p, t):
        p = self.real(p)
        if isinstance(p, Ptr):
            w = 0 if t.k == 'arr' else self.width(t)
            for o in range(p.off, p.off + w):
                x = p.r.cells.get(o)
                if isinstance(x, ME):
                    p.r.cells[o] = x.val()
            if w == 1 and (t.k in ('int', 'enum', 'bool') or t.isptr):
                x = p.r.cells.get(p.off)
                self.check(p, 1)
                if isinstance(x, (SI, Site, FPtr, FnVal, Cmp)):
                    return x
        return Machine.loadp(self, p, t)

    def storep(self, p, t, v):
        p = self.real(p)
        if not isinstance(p, Ptr):
            return Machine.storep(self, p, t, v)
        w = self.width(t)
        if w == 1 and isinstance(v, (SI, Site, FnVal)):
            self.check(p, w)
            if isflt(t):
                p.r.cells[p.off] = self.sival(v).re
            else:
                p.r.cells[p.off] = v
            return
        return Machine.storep(self, p, t, v)

    def sival(self, v):
        if isinstance(v, SI):
            s = {}
            for m, c in v.p.items():
                t = pconst(c)
                for x in m:
                    t = pmul(t, pvar(('n', x)))
                s = padd(s, t)
            return V(s)
        return V(None)

    def convert(self, v, t):
        if isinstance(v, (SI, Site)) and t is not None:
            if t.k in ('int', 'enum', 'bool'):
                return v
            if isflt(t) or iscplx(t):
                return self.sival(v)
        if isinstance(v, FnVal):
            return v
        if isinstance(v, FPtr):
            return FPtr(v.r, v.off, t)
        return Machine.convert(self, v, t)

    def padd(self, p, i, t):
        if isinstance(p, FPtr):
            if isinstance(p.off, Site):
                if i == 0:
                    return FPtr(p.r, p.off, t)
                raise Undecided('index')
            return FPtr(p.r, i if p.off == 0 else siadd(p.off, i), t)
        if isinstance(p, Ptr) and isinstance(i, (SI, Site)):
            raise Undecided('index')
        return Machine.padd(self, p, i, t)

    def lval(self, e, env):
        if e.k == 'un' and e.o == '*':
            p = self.expr(e.e, env)
            if isinstance(p, FPtr):
                return FPtr(p.r, p.off, e.t), e.t
            return (Ptr(p.r, p.off, e.t) if isinstance(p, Ptr) else UNK), e.t
        return Machine.lval(self, e, env)

    def member(self, e, env):
        b = self.expr(e.e, env) if e.arrow else self.lval(e.e, env)[0]
        if b is self.latt:
            return ('latt', e), e.t
        b = self.real(b)
        if not isinstance(b, Ptr):
            return UNK, e.t
        rt = e.e.t.e if e.arrow else e.e.t
        off = 0
        for f in self.fields(rt):
            if f[0] == e.n:
                return Ptr(b.r, b.off + off, f[1]), f[1]
            off += self.width(f[1])
        raise Undecided('member %s' % e.n)

    latt = None

    def globalvar(self, e):
        v = self.p.vars.get(e.d)
        if v is not None and v.name == 'Latt':
            if self.latt is None:
                rt = v.type
                r = Region('Latt', self.width(rt), 1)
                off = 0
                for nm, ft in self.fields_of(rt.r):
                    if nm == 'dims':
                        for i, x in enumerate(self.dims):
                            r.cells[off + i] = x
                    elif nm == 'Volume':
                        r.cells[off] = self.volume()
                    elif nm == 'Lcu':
                        r.cells[off] = self.volume(self.nd - 1)
                    elif nm == 'Lsq':
                        r.cells[off] = self.volume(2)
                    elif nm == 'Nthreads':
                        r.cells[off] = 1
                    off += self.width(ft)
                self._latt = r
                self.latt = ()
            return self._latt
        return Machine.globalvar(self, e)

    def expr(self, e, env):
        if e.k == 'ref' and e.fn:
            return FnVal(e.fn.split('@')[0])
        if e.k in ('ref', 'idx', 'mem') or e.k == 'un' and e.o == '*':
            if e.t is not None and (e.t.k == 'rec' or e.t.k == 'arr') and e.cv is None:
                p, t = self.lval(e, env)
                if t is not None and t.k == 'arr':
                    p = self.real(p)
                    return Ptr(p.r, p.off, t) if isinstance(p, Ptr) else UNK
        return Machine.expr(self, e, env)

    def e_un(self, e, env):
        if e.o == '&':
            p, t = self.lval(e.e, env)
            if isinstance(p, FPtr):
                return FPtr(p.r, p.off, e.t)
            return Ptr(p.r, p.off, e.t) if isinstance(p, Ptr) else UNK
        if e.o in ('p++', 'p--', 'q++', 'q--'):
            p, t = self.lval(e.e, env)
            v = self.loadp(p, t)
            if isinstance(v, SI):
                w = siadd(v, 1, 1 if '+' in e.o else -1)
                self.storep(p, t, w)
                return w if e.o[0] == 'p' else v
            if isinstance(v, FPtr):
                raise Undecided('a moving pointer to a field')
        if e.o == '-':
            v = self.expr(e.e, env)
            if isinstance(v, SI):
                return siadd(0, v, -1)
            if isinstance(v, V):
                return V(pneg(v.re), pneg(v.im))
            return -v if isinstance(v, int) else UNK
        return Machine.e_un(self, e, env)

    def arith(self, o, a, b, e):
        if isinstance(a, FPtr) or isinstance(b, FPtr):
            if isinstance(b, FPtr):
                a, b = b, a
            if o == '+' and not isinstance(b, Ptr):
                return self.padd(a, b, a.t)
            if o in ('==', '!='):
                return int(o == '!=') if b == 0 else UNK
            return UNK
        if isinstance(a, Site) or isinstance(b, Site):
            if isinstance(a, Site) and isinstance(b, Site) and o in ('==', '!=') and a == b:
                return int(o == '==')
            if o in ('+', '-') and b == 0:
                return a
            if o == '+' and a == 0:
                return b
            if isinstance(a, (Site, SI, int)) and isinstance(b, (Site, SI, int)) and o == '+':
                a = isym(a) if isinstance(a, Site) else a
                b = isym(b) if isinstance(b, Site) else b
                return siadd(a, b)
            return UNK
        if isinstance(a, SI) or isinstance(b, SI):
            if isinstance(a, V) or isinstance(b, V):
                a = self.sival(a) if isinstance(a, SI) else a
                b = self.sival(b) if isinstance(b, SI) else b
                return Machine.arith(self, o, a, b, e)
            if isinstance(a, (SI, int)) and isinstance(b, (SI, int)):
                if o == '+':
                    return siadd(a, b)
                if o == '-':
                    return siadd(a, b, -1)
                if o == '*':
                    return simul(a, b)
                if o in ('==', '!=') and si(a) == si(b):
                    return int(o == '==')
            return UNK
        if o == '/' and isinstance(a, (V, int, float)) and isinstance(b, V) and b.im == {} and b.re is not None:
            i = invp(b.re)
            a = num(a)
            return V(pmul(a.re, i), pmul(a.im, i))
        return Machine.arith(self, o, a, b, e)

    def stmt(self, s, env):
        if s is not None and s.k == 'omp':
            toks = (s.dir or '').split()
            if toks and toks[0] in ('barrier', 'flush', 'taskwait'):
                return
            return self.stmt(s.b, env) if s.b is not None else None
        return Machine.stmt(self, s, env)

    def switch(self, s, env):
        return Machine.switch(self, s, env)

    # --------------------------------------------------------------- loops
    def loop(self, s, env):
        sh = self.shape(s, env)
        if sh is None:
            return Machine.loop(self, s, env)
        p, t, a, b = sh
        self.count['loops'] += 1
        kb = si(b).key()
        lvl = sum(1 for x in self.active if x[0] == (a, kb))
        name = ('k', a, kb, lvl)
        self.ranges[name] = (a, b)
        self.active.append(((a, kb), name))
        var = isym(name)
        self.storep(p, t, var)
        els = {f: dict(f.el) for f in self.fields_}
        before = self.snapshot(env)
        e2 = env
        self.body1(s, e2)
        mid = self.snapshot(env)
        redo = self.unwind(env, before, els)
        self.storep(p, t, var)
        self.body1(s, e2)
        after = self.snapshot(env)
        redo()
        self.active.pop()
        if not self.active:
            self.commit(els, before)
        n = self.sival(si(siadd(b, a, -1))).re
        regs = self.regions(env)
        for k, r in regs.items():
            if k not in before:
                continue                # made inside the loop
            A, B, C = before[k], mid[k], after[k]
            for i in set(A) | set(B) | set(C):
                x, y, z = A.get(i), B.get(i), C.get(i)
                if x is y and y is z:
                    continue
                if r is p.r and i == p.off:
                    continue
                if k[0] == 'F':
                    continue            # an element of a field: the iteration's own
                x, y, z = self.cellv(x), self.cellv(y), self.cellv(z)
                if isinstance(x, dict) and isinstance(y, dict) and isinstance(z, dict):
                    d1, d2 = padd(y, x, -1.0), padd(z, y, -1.0)
                    if peq(d1, d2):
                        r.cells[i] = padd(x, pmul(d1, n))
                        continue
                    if peq(y, z) and not self.depends(y, name):
                        r.cells[i] = y
                        continue
                    r.cells[i] = None
                elif y == z and type(y) is type(z) and isinstance(y, (int, SI)) and not self.mentions(y, name):
                    r.cells[i] = y
                elif isinstance(y, (dict, type(None))) and isinstance(z, (dict, type(None))):
                    # unset before: the value of the last iteration
                    r.cells[i] = None
                else:
                    r.cells[i] = UNK
        self.storep(p, t, b)

    def depends(self, p, name):
        return True

    def mentions(self, x, name):
        return isinstance(x, SI) and any(name in m for m in x.p)

    def cellv(self, x):
        return x.val() if isinstance(x, ME) else x

    def body1(self, s, env):
        try:
            self.stmt(s.b, env)
        except _Cont:
            pass
        except _Brk:
            raise Undecided('break in a loop of symbolic length')

    def snapshot(self, env):
        return {k: dict(r.cells) for k, r in self.regions(env).items()}

    def regions(self, env):
        out, seenf = {}, set()
        todo = list(self.fields_)
        # what hangs on an element of a field belongs to the iteration that works on it
        while todo:
            f = todo.pop()
            if isinstance(f, Field):
                if id(f) not in seenf:
                    seenf.add(id(f))
                    todo.extend(f.el.values())
                continue
            if not isinstance(f, Region) or ('F', id(f)) in out:
                continue
            out['F', id(f)] = f
            todo.extend(v.r for v in f.cells.values() if isinstance(v, Ptr))
        todo = [r for r in env.values()] + list(self.roots) + list(getattr(self, 'globals_', {}).values())
        for e in getattr(self, 'envs', ()):
            todo.extend(e.values())
        while todo:
            r = todo.pop()
            if not isinstance(r, Region):
                continue
            k = ('R', id(r))
            if k in out or ('F', id(r)) in out:
                continue
            out[k] = r
            for v in r.cells.values():
                if isinstance(v, Ptr):
                    todo.append(v.r)
        return out

    def commit(self, els, before):
        """a loop over every site has written the elements at its own site: so it has at all the others"""
        for f in self.fields_:
            for s, r in list(f.el.items()):
                if not isinstance(s, Site) or s.d:
                    continue
                if els[f].get(s) is r and not self.changed(r, before, set()):
                    continue
                f.done[s.base] = r
                for q in [q for q in f.el if isinstance(q, Site) and q.base == s.base and q.d]:
                    del f.el[q]

    def changed(self, r, before, seen):
        if id(r) in seen:
            return False
        seen.add(id(r))
        b = before.get(('F', id(r)))
        if b is None or set(b) != set(r.cells):
            return True
        for i, v in r.cells.items():
            if v is not b[i]:
                x, y = self.cellv(v), self.cellv(b[i])
                if not (isinstance(x, dict) and isinstance(y, dict) and peq(x, y)):
                    return True
            if isinstance(v, Ptr) and isinstance(v.r, Region) and self.changed(v.r, before, seen):
                return True
        return False

    def shift(self, r, d):
        q = Region(r.name, r.n, 1)
        ws = {}
        for i, v in r.cells.items():
            if isinstance(v, ME):
                if id(v.w) not in ws:
                    ws[id(v.w)] = {tuple(self.shiftl(l, d) for l in w): V(self.shiftp(c.re, d), self.shiftp(c.im, d))
                                   for w, c in v.w.items()}
                v = ME(ws[id(v.w)], v.n, v.k, v.im)
            elif isinstance(v, dict):
                v = self.shiftp(v, d)
            elif isinstance(v, Site):
                for mu, k in enumerate(d):
                    if k:
                        v = self.step(v, mu, k)
            elif isinstance(v, FPtr):
                pass
            elif isinstance(v, Ptr):
                v = Ptr(self.shift(v.r, d), v.off, v.t)
            q.cells[i] = v
        return q

    def shiftl(self, l, d):
        if l[0] in 'UG':
            s = Site(l[2], l[3])
            for mu, k in enumerate(d):
                if k:
                    s = self.step(s, mu, k)
            return l[:3] + (s.d,) + l[4:]
        if l[0] == 'F' and l[2] and isinstance(l[2], tuple):
            w = {tuple(self.shiftl(x, d) for x in w): V(self.shiftp(dict(a), d), self.shiftp(dict(b), d)) for w, a, b in l[2]}
            return l[:2] + (wkey(w),) + l[3:]
        return l

    def shiftp(self, p, d):
        if p is None:
            return None
        r = {}
        for m, c in p.items():
            q = pconst(c)
            for s in m:
                nm = NAMES[s]
                if isinstance(nm, tuple) and nm[0] in ('e', 't'):
                    w = tuple(self.shiftl(l, d) for l in nm[1])
                    v = entry(w, self.n, nm[2], nm[3]) if nm[0] == 'e' else trace_word(w, self.n)
                    q = pmul(q, v.re if nm[-1] == 're' else v.im)
                elif isinstance(nm, tuple) and nm[0] not in ('n', '1/'):
                    raise Undecided('shift of a function of links')
                else:
                    q = pmul(q, {(s,): 1.0})
            r = padd(r, q)
        return r

    def unwind(self, env, before, els):
        """undoes what the body did to the elements of the fields; returns how to redo it"""
        keep = [(r, r.cells) for k, r in self.regions(env).items() if k[0] == 'F']
        kel = [(f, f.el) for f in self.fields_]
        for r, c in keep:
            r.cells = dict(before.get(('F', id(r)), c))
        for f in self.fields_:
            f.el = dict(els.get(f, {}))

        def redo():
            for f, e in kel:
                f.el = e
            for r, c in keep:
                r.cells = c
        return redo

    def call(self, F, args):
        # keep the callers' variables reachable for the loop summaries
        return Machine.call(self, F, args)

    def shape(self, s, env):
        """(pointer, type, start, end) of a counting loop with a symbolic bound"""
        if s.k != 'for' or s.c is None or s.inc is None:
            return None
        c = strip(s.c)
        if c.k != 'bin' or c.o not in ('<', '!=', '<='):
            return None
        v = strip(c.a)
        if v.k != 'ref':
            return None
        # initialisation runs here once more: it has no other effect than setting the variable
        if s.init is not None:
            self.stmt(s.init, env)
        b = self.expr(c.b, env)
        if isinstance(b, V) and b.im == {}:
            return None
        if not isinstance(b, SI):
            return None
        inc = strip(s.inc)
        if not (inc.k == 'un' and inc.o in ('p++', 'q++') and strip(inc.e).k == 'ref' and strip(inc.e).d == v.d):
            raise Undecided('step of a symbolic loop')
        p, t = self.lval(v, env)
        a = self.loadp(p, t)
        if not isinstance(a, (int, SI)):
            raise Undecided('start of a symbolic loop')
        if c.o == '<=':
            b = siadd(b, 1)
        return p, t, a, b

    # --------------------------------------------------------------- calls
    def e_call(self, e, env):
        fn = e.fn.split('@')[0] if e.fn else None
        if fn is None and e.fe is not None or fn is None and e.e is not None:
            f = self.expr(e.fe if e.fe is not None else e.e, env)
            if isinstance(f, FnVal):
                fn = f.name
        args = [self.expr(a, env) for a in e.args]
        if fn is None:
            raise Undecided('indirect call')
        if fn in self.opaque:
            return self.opaque[fn](self, args, e)
        if fn in OPAQUE_H and fn not in self.prims:
            w = self.getw(args[1])
            self.setw(args[0], {(('F', OPAQUE_H[fn], wkey(w), 2, 0),): ONE})
            return UNK
        if fn in ('get_GLU_thread',):
            return 0
        if fn in ('memcpy',) and len(args) == 3:
            n = args[2]
            if isinstance(n, int) and isinstance(args[1], Ptr) and isinstance(args[0], Ptr):
                nn = self.n * self.n
                q = self.csize()
                if n == nn * q:
                    self.setw(args[0], self.getw(args[1]))
                    return args[0]
            raise Undecided('memcpy')
        if fn in self.prims and e.fn in self.p.funcs:
            return self.prim(fn, args, e)
        m = INTR.get(fn)
        if m is not None:
            return m(self, args, e)
        F = self.p.funcs.get(e.fn) or self.p.funcs.get(fn)
        if F is None:
            if fn in ('printf', 'fprintf', 'puts', 'free', 'abort', 'exit', 'omp_get_thread_num', 'fflush'):
                return 0 if fn.startswith('omp') else UNK
            if e.t is not None and e.t.s != 'void' and not any(isinstance(a, Ptr) for a in args):
                return self.unkval(e.t)
            raise Undecided('call of %s' % fn)
        return self.call(F, args)

    def csize(self):
        return min([v.type.e.sz for f in self.p.funcs.values() for v in f.params
                    if v.type.isptr and v.type.e.k == 'cplx' and v.type.e.sz] or [16])

    def setw(self, p, w):
        p = self.real(p)
        if not isinstance(p, Ptr):
            raise Undecided('result argument')
        self.check(p, 2 * self.n * self.n)
        self.putw(p.r, p.off, w)

    def prim(self, fn, args, e):
        kinds, f = self.prims[fn]
        self.funs.add(fn)
        vals = []
        for k, a in zip(kinds, args):
            if k in 'ow':
                vals.append(None)
            elif k in 'MSQkK' and isinstance(a, Ptr):
                vals.append(WM(self.getw(a), self.n))
            elif k in 'pef':
                vals.append(None)
            elif k in 'rc':
                if isinstance(a, SI):
                    a = self.sival(a)
                a = num(a)
                if a.re is None or a.im is None:
                    raise Undecided('a factor')
                vals.append([a])
            elif k in 'HAP' and isinstance(a, Ptr):
                a = self.real(a)
                x = []
                for i in range(self.A.h):
                    x.append(V(self.cell(a.r.cells.get(a.off + 2 * i)), self.cell(a.r.cells.get(a.off + 2 * i + 1))))
                vals.append(x)
            else:
                raise Undecided('argument of %s' % fn)
        self.count['traces' if 'tr' in fn else 'products'] += 1
        want = f(*vals)
        rv = UNK
        for which, alts in want.items():
            x = alts[0]
            if which == 'ret':
                rv = x[0]
                continue
            k = kinds[which]
            p = args[which]
            if k in 'oMSk':
                w = x.w if isinstance(x, WM) else decode(list(x), self.n)
                self.setw(p, w)
            else:
                p = self.real(p)
                if not isinstance(p, Ptr):
                    raise Undecided('result argument')
                for i, v in enumerate(x):
                    if k == 'f':
                        self.check(Ptr(p.r, p.off + i, None), 1)
                        p.r.cells[p.off + i] = v.re
                    else:
                        self.check(Ptr(p.r, p.off + 2 * i, None), 2)
                        p.r.cells[p.off + 2 * i], p.r.cells[p.off + 2 * i + 1] = v.re, v.im
        if rv is not UNK and e.t is not None:
            rv = self.convert(rv, e.t)
        return rv


def invp(a):
    """1/a with the factors of a monomial inverted one by one"""
    if a is None:
        return None
    if len(a) == 1:
        (m, c), = a.items()
        r = pconst(1.0 / c)
        for s in m:
            nm = NAMES[s]
            if isinstance(nm, tuple) and nm[0] == '1/':
                r = pmul(r, pvar(nm[1]))
            else:
                r = pmul(r, pvar(('1/', nm)))
        return r
    return pinv(a)


def cancel(p):
    """cancels x * 1/x in every monomial"""
    if p is None:
        return None
    r = {}
    for m, c in p.items():
        m = list(m)
        for s in list(m):
            nm = NAMES[s]
            if isinstance(nm, tuple) and nm[0] == '1/' and s in m:
                o = sym(nm[1])
                if o in m:
                    m.remove(s)
                    m.remove(o)
        m = tuple(sorted(m))
        r[m] = r.get(m, 0.0) + c
        if abs(r[m]) < 1e-14:
            del r[m]
    return r
