"""C11: smearing and flow steps equal their definition.

SM_wrap_struct is interpreted over memory words (glua/wordmem.py) on lattices of
small fixed extents.  The links are opaque matrices; the primitive matrix
operations (the subject of C05) build terms over them, everything else - the
staples, the order of the sites, the temporaries, the weights, the number of
iterations, the recorded flow times - is interpreted as it is written.  Every link
of the result is a term in the links of the initial field, and is compared with
the definition as an identity between functions of the field (evaluated at a
generic field of SU(N), as in C07)."""
import os, re, hashlib
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
from concurrent.futures import ProcessPoolExecutor
import numpy as np
from .. import core, wordmem as wm
from ..wordmem import T, Cx, Ptr, Machine, mk, Undecided, Outside, Exited
from ..common import Result
from .c08 import Fail, setdims, setlatt, latt, link, nop

QUICK = ['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc3opts', 'nc3opts2']
THOROUGH = QUICK + ['nc3nosse', 'nc4nosse', 'nc2nosse', 'nc8']
ALPHA = [0.61, 0.37, 0.23, 0.19]
TOL = 1e-7


# ---------------------------------------------------- matrices, numerically
def dag(a):
    return a.conj().T


def herm(u):
    """traceless Hermitian part of -i u"""
    h = (u - dag(u)) / 2j
    return h - np.trace(h) / len(h) * np.eye(len(h))


def expi(h):
    w, v = np.linalg.eigh(h)
    return (v * np.exp(1j * w)) @ dag(v)


def logu(u):
    """the Hermitian h with exp(i h) = u"""
    w, v = np.linalg.eig(u)
    h = (v * np.angle(w)) @ np.linalg.inv(v)
    return (h + dag(h)) / 2


def suproj(m):
    u, _, v = np.linalg.svd(m)
    w = u @ v
    return w / np.linalg.det(w) ** (1.0 / len(w))


def isu(u):
    n = len(u)
    return np.abs(u @ dag(u) - np.eye(n)).max() < 1e-7 and abs(np.linalg.det(u) - 1) < 1e-7


# stand-ins for the two projections to the group: two different functions onto SU(N)
PROJ = {'nape_reunit': suproj, 'givens_reunit': lambda m: suproj(m + 0.1 * m @ m)}


class Field0(object):
    """a generic field"""

    def __init__(self, n, V, nd, seed=7):
        rng = np.random.default_rng(seed)
        self.U = np.zeros((V, nd, n, n), complex)
        for i in range(V):
            for mu in range(nd):
                h = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
                self.U[i, mu] = expi(0.1 * herm(1j * (h + dag(h))))


# --------------------------------------------------------------- the machine
class Mats(object):
    """what the matrix terms are worth at the generic field"""

    def __init__(self, n, f0):
        self.n, self.f0 = n, f0
        self.v, self.s, self.su = {}, {}, {}

    def scal(self, t):
        if not isinstance(t, T):
            return float(t)
        x = self.s.get(t)
        if x is None:
            o, a = t.op, t.a
            if o == 'e':
                z = self.mat(a[0]).flat[a[1]]
                x = z.imag if a[2] else z.real
            elif o == '+':
                x = self.scal(a[0]) + self.scal(a[1])
            elif o == '*':
                x = self.scal(a[0]) * self.scal(a[1])
            elif o == '/':
                x = self.scal(a[0]) / self.scal(a[1])
            elif o == 'neg':
                x = -self.scal(a[0])
            elif o in FUN:
                x = float(FUN[o](*[self.scal(y) for y in a]))
            elif o == 'uninit':
                raise Fail('a result depends on memory that was never written (%s)' % a[0])
            else:
                raise Undecided('value of %s' % o)
            self.s[t] = x
        return x

    def mat(self, t):
        x = self.v.get(t)
        if x is None:
            o, a = t.op, t.a
            if o == 'U':
                x = self.f0.U[a[0], a[1]]
            elif o == 'lit':
                w = [self.scal(y) for y in a]
                x = (np.array(w[0::2]) + 1j * np.array(w[1::2])).reshape(self.n, self.n)
            elif o == 'herm':
                x = self.herm_short(a)
            elif o in OPS:
                x = OPS[o](*[self.mat(y) for y in a])
            else:
                raise Undecided('value of %s' % o)
            self.v[t] = x
        return x

    def herm_short(self, a):
        w = [self.scal(y) for y in a]
        n = self.n
        z = np.array(w[0::2]) + 1j * np.array(w[1::2])
        h = np.zeros((n, n), complex)
        k = 0
        for i, j in short_slots(n):
            if i == j:
                h[i, i] = z[k].real
            else:
                h[i, j], h[j, i] = z[k], z[k].conj()
            k += 1
        h[n - 1, n - 1] = -sum(h[i, i] for i in range(n - 1))
        return h


FUN = {'fabs': abs, 'sqrt': lambda x: abs(x) ** .5, 'creal': lambda x: x}
OPS = {'mul': lambda a, b: a @ b, 'muld': lambda a, b: a @ dag(b), 'dmul': lambda a, b: dag(a) @ b, 'dmuld': lambda a, b: dag(a) @ dag(b),
       'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'dag': dag, 'H': herm, 'expi': expi, 'log': logu}
OPS.update(PROJ)


def short_slots(n):
    return [(i, j) for i in range(n - 1) for j in range(i, n)]


class SM(Machine):
    pass


_ENT = {}


def entries(M, n2):
    """the cells of matrix M, as they are stored"""
    e = _ENT.get(M)
    if e is None:
        e = _ENT[M] = tuple((mk('e', M, k >> 1, k & 1), 8) for k in range(2 * n2))
    return e


def getm(m, p):
    """the matrix at p"""
    if not isinstance(p, Ptr):
        m.badptr(p, 0)
    n2 = m.NC * m.NC
    h = p.t.e.sz // 2
    if h != 8:
        raise Undecided('matrices in single precision')
    r, off = p.r, p.off
    m.chk(r, off, n2 * 16)
    cells = r.cells
    c = cells.get(off)
    if c is not None and c[1] == 8 and isinstance(c[0], T) and c[0].op == 'e' and c[0].a[1] == 0:
        M = c[0].a[0]
        get = cells.get
        o = off
        for x in entries(M, n2):
            y = get(o)
            if y is not x and y != x:
                break
            o += 8
        else:
            return M
    es = [m.ld(r, off + 8 * k, 8, True) for k in range(2 * n2)]
    for x in es:
        if not isinstance(x, (T, int, float)):
            raise Undecided('a matrix with an entry that is no number')
    return mk('lit', *es)


def putm(m, p, M):
    if not isinstance(p, Ptr):
        m.badptr(p, 0)
    n2 = m.NC * m.NC
    if p.t.e.sz != 16:
        raise Undecided('matrices in single precision')
    r, off = p.r, p.off
    m.chk(r, off, n2 * 16)
    cells = r.cells
    o = off
    if not cells:
        cells.update(zip(range(off, off + n2 * 16, 8), entries(M, n2)))
        m.last[r, off] = (m.file, m.line)
        m.nops += 1
        return
    for x in entries(M, n2):
        c = cells.get(o)
        if c is not None and c[1] == 8:
            cells[o] = x
        else:
            m.clear(r, o, 8)
            cells[o] = x
        o += 8
    m.last[r, off] = (m.file, m.line)
    m.nops += 1


def bin_(op, su=False):
    def f(m, a, e):
        x, y = getm(m, a[1]), getm(m, a[2])
        if su and m.NC < 4:
            for q in (x, y):
                u = m.M.su.get(q)
                if u is None:
                    u = m.M.su[q] = isu(m.M.mat(q))
                if not u:
                    raise Fail('a product of special unitary matrices is used on a matrix that is not special unitary', m.line, m.file)
        putm(m, a[0], mk(op, x, y))
        return 0
    return f


def inplace(op, arg=True):
    def f(m, a, e):
        putm(m, a[0], mk(op, getm(m, a[0]), getm(m, a[1])) if arg else mk(op, getm(m, a[0])))
        return 0
    return f


def un(op):
    def f(m, a, e):
        putm(m, a[0], mk(op, getm(m, a[1])))
        return 0
    return f


def _equiv(m, a, e):
    putm(m, a[0], getm(m, a[1]))
    return 0


def _zero(m, a, e):
    n2 = m.NC * m.NC
    putm(m, a[0], mk('lit', *([0.0] * (2 * n2))))
    return 0


def _expi(m, a, e):
    q = getm(m, a[1])
    h = m.M.mat(q)
    if m.NC == 2:
        h = np.array([[h[0, 0].real, h[0, 1]], [h[0, 1].conj(), -h[0, 0].real]])
        q = mk('herm', *[x for k in (0, 1) for x in (m.ld(a[1].r, a[1].off + 2 * k * (a[1].t.e.sz // 2), a[1].t.e.sz // 2, True),
                                                     m.ld(a[1].r, a[1].off + (2 * k + 1) * (a[1].t.e.sz // 2), a[1].t.e.sz // 2, True))])
    elif np.abs(h - dag(h)).max() > 1e-7 or abs(np.trace(h)) > 1e-7:
        raise Fail('exponentiate is given a matrix that is not Hermitian and traceless', m.line, m.file)
    putm(m, a[0], mk('expi', q))
    return 0


def _expi_short(m, a, e):
    p = a[1]
    h = p.t.e.sz // 2
    n = len(short_slots(m.NC))
    putm(m, a[0], mk('expi', mk('herm', *[m.ld(p.r, p.off + k * h, h, True) for k in range(2 * n)])))
    return 0


def _herm_short(m, a, e):
    M = mk('H', getm(m, a[1]))
    p = a[0]
    h = p.t.e.sz // 2
    for k, (i, j) in enumerate(short_slots(m.NC)):
        m.st(p.r, p.off + 2 * k * h, h, mk('e', M, i * m.NC + j, 0))
        m.st(p.r, p.off + (2 * k + 1) * h, h, mk('e', M, i * m.NC + j, 1) if i != j else 0.0)
    m.nops += 1
    return 0


def _zero_red(m, a, e):
    p = a[0]
    k = 0
    while (k + 1) * 8 <= p.r.n - p.off:
        m.st(p.r, p.off + 8 * k, 8, m.plaq.get(k, 0.0))
        k += 1
    return 0


def _allplaq(m, a, e):
    for p in a[1:3]:
        m.st(p.r, p.off, 8, 0.5)
    return 0.5


def _memalign(m, a, e):
    p = wm._malloc(m, [a[2]], e)
    m.st(a[0].r, a[0].off, 8, p)
    return 0


def machine(prog, n, nd, f0):
    h = dict(posix_memalign=_memalign, start_timer=nop, print_time=nop, fprintf=nop, printf=nop, sprintf=nop,
             links=lambda m, a, e: 0.5, all_plaquettes=_allplaq, av_plaquette=lambda m, a, e: 0.5,
             av_plaquette_th=_zero_red, compute_Gmunu_th=_zero_red, scaleset=nop, print_GG_info=nop,
             gauge_topological_meas_th=lambda m, a, e: -1, omp_get_num_threads=lambda m, a, e: 1,
             have_memory_hyp=lambda m, a, e: m.mem, have_memory_wf=lambda m, a, e: m.mem,
             equiv=_equiv, zero_mat=_zero, a_plus_b=inplace('add'), b_min_c=bin_('sub'),
             exponentiate=_expi, exponentiate_short=_expi_short, Hermitian_proj=un('H'), Hermitian_proj_short=_herm_short,
             exact_log_slow=un('log'), dagger=un('dag'),
             powl=lambda m, a, e: float(a[0]) ** float(a[1]), fabsl=lambda m, a, e: abs(float(a[0])))
    for g in PROJ:
        h[g] = inplace(g, False)
    for nm, op in (('multab', 'mul'), ('multab_dag', 'muld'), ('multabdag', 'dmul'), ('multab_dagdag', 'dmuld')):
        h[nm] = bin_(op)
        h[nm + '_suNC'] = bin_(op, True)
    m = Machine(prog, h)
    m.NC, m.ND = n, nd
    m.single_prec = False
    m.M = Mats(n, f0)
    m.last = {}
    m.nops = 0
    m.plaq = {}
    m.opened = []
    m.records = []
    return m


# --------------------------------------------------------------- definition
class Def(object):
    def __init__(self, C, dims, f0):
        self.C, self.dims, self.n, self.nd = C, dims, C.n, C.nd
        V = int(np.prod(dims))
        self.V = V
        self.U = f0.U.copy()
        self.up = np.zeros((V, self.nd), int)
        self.dn = np.zeros((V, self.nd), int)
        for i in range(V):
            x, r = [], i
            for d in dims:
                x.append(r % d)
                r //= d
            for mu in range(self.nd):
                for s, a in ((1, self.up), (-1, self.dn)):
                    y = list(x)
                    y[mu] = (y[mu] + s) % dims[mu]
                    k = 0
                    for q in reversed(range(self.nd)):
                        k = k * dims[q] + y[q]
                    a[i, mu] = k

    def staples(self, U, x, mu, A, B, dirs, log):
        """sum over the directions of the staples of links A (sides) and B (lids)"""
        tot = np.zeros((self.n, self.n), complex)
        for nu in dirs:
            if nu == mu:
                continue
            d = self.dn[x, nu]
            t = A(x, nu) @ B(self.up[x, nu], mu, nu) @ dag(A(self.up[x, mu], nu))
            b = dag(A(d, nu)) @ B(d, mu, nu) @ A(self.up[d, mu], nu)
            for s in (t, b):
                tot = tot + (logu(s @ dag(U[x, mu])) if log else s)
        return tot

    def project(self, kind, stap, u, a, al):
        if kind == 'APE':
            return PROJ[self.C.proj](al * u + a * stap)
        return expi(a * (stap if kind == 'LOG' else herm(stap @ dag(u)))) @ u

    def weights(self, k):
        """of the staples and of the link, with k directions taken"""
        nd = self.nd
        s = ALPHA[k - 1]
        if 'CHROMA_APE' in self.C.flags and nd == 4:
            return 1.0, s
        return s / ((nd - k) * (nd - 2)) if nd > 2 else s, 1.0 - s

    def simple(self, kind, ndir):
        a, al = self.weights(1)
        W = self.U.copy()
        for x in range(self.V):
            for mu in range(ndir):
                W[x, mu] = self.project(kind, self.stap(self.U, x, mu, ndir, kind == 'LOG'), self.U[x, mu], a, al)
        self.U = W

    def stap(self, U, x, mu, ndir, log):
        if self.C.improved:
            return self.C.improved_staple(self, U, x, mu, ndir, log)
        return self.staples(U, x, mu, lambda y, nu: U[y, nu], lambda y, r, nu: U[y, r], range(ndir), log)

    def hyp(self, kind, ndir):
        U = self.U
        memo = {}

        def V(x, mu, E):
            key = (x, mu, E)
            if key in memo:
                return memo[key]
            k = len(E)
            orth = [d for d in range(ndir) if d not in E]
            if k == ndir - 1:
                A, B = (lambda y, nu: U[y, nu]), (lambda y, r, nu: U[y, r])
            else:
                A, B = (lambda y, nu: V(y, nu, E | {nu})), (lambda y, r, nu: V(y, r, E | {nu}))
            a, al = self.weights(k)
            r = memo[key] = self.project(kind, self.staples(U, x, mu, A, B, orth, kind == 'LOG'), U[x, mu], a, al)
            return r
        W = U.copy()
        for x in range(self.V):
            for mu in range(ndir):
                W[x, mu] = V(x, mu, frozenset([mu]))
        self.U = W

    def flow(self, U, kind, h):
        """third order Runge-Kutta step of length h"""
        Z = [None, None, None]
        W = U
        for k, c in enumerate(((1 / 4.,), (-17 / 36., 8 / 9.), (17 / 36., -8 / 9., 3 / 4.))):
            Z[k] = np.zeros_like(U)
            for x in range(self.V):
                for mu in range(self.nd):
                    s = self.stap(W, x, mu, self.nd, kind == 'LOG')
                    Z[k][x, mu] = s if kind == 'LOG' else herm(s @ dag(W[x, mu]))
            X = W.copy()
            for x in range(self.V):
                for mu in range(self.nd):
                    X[x, mu] = expi(h * sum(c[j] * Z[j][x, mu] for j in range(k + 1))) @ W[x, mu]
            W = X
        return W


# ------------------------------------------------------------------ contexts
class Ctx(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.p = core.load(cfg)
        with open(os.path.join(core.VERIF, 'configs', cfg, 'config.h')) as fh:
            self.flags = set(re.findall(r'^#define (\w+)', fh.read(), re.M))
        d = dict(re.findall(r'^#define (NC|ND) (\d+)', open(os.path.join(core.VERIF, 'configs', cfg, 'config.h')).read(), re.M))
        self.n, self.nd = int(d.get('NC', 3)), int(d.get('ND', 4))
        self.proj = 'givens_reunit' if 'GIVENS_APE' in self.flags else 'nape_reunit'
        self.improved = bool(self.flags & {'SYMANZIK', 'IWASAKI', 'DBW2', 'SYMANZIK_ONE_LOOP'}) or {'IWA_WEIGHT1', 'IWA_WEIGHT2'} <= self.flags
        self.machines = self.ops = self.links = 0
        self.stapterms = {}
        self.mt = self.p.func('equiv').params[0].type

    def enum(self, n):
        return self.p.enumconst[n][1]

    def where(self, fn):
        F = self.p.func(fn)
        return (F.file, F.line) if F is not None else ('src/Wrappers/SM_wrap.c', 0)

    def start(self, dims, f0):
        m = machine(self.p, self.n, self.nd, f0)
        setdims(m, dims)
        r, fs = latt(m)
        for k in range(self.nd):
            m.store(r, fs['sm_alpha'][2] + k * fs['sm_alpha'][1].e.sz, fs['sm_alpha'][1].e, ALPHA[k])
        m.callname('init_latt', [])
        setlatt(m, 'Nthreads', 1)
        lat = m.callname('allocate_lat', [])
        m.sitesize = self.p.func('SM_wrap_struct').params[0].type.e.sz
        self.V = int(np.prod(dims))
        for i in range(self.V):
            for mu in range(self.nd):
                rr, o = link(m, lat, i, mu)
                for k in range(2 * self.n ** 2):
                    m.st(rr, o + 8 * k, 8, mk('e', mk('U', i, mu), k >> 1, k & 1))
        self.machines += 1
        m.mem = self.enum('FAST')
        m.lat = lat
        return m

    def terms(self, m, lat=None):
        """the matrix of every link"""
        lat = lat or m.lat
        out = []
        for i in range(self.V):
            for mu in range(self.nd):
                r, o = link(m, lat, i, mu)
                out.append(getm(m, Ptr(r, o, self.mt)))
        return tuple(out)

    def values(self, m, ts):
        out = np.zeros((self.V, self.nd, self.n, self.n), complex)
        for k, t in enumerate(ts):
            out[k // self.nd, k % self.nd] = m.M.mat(t)
        return out

    def compare(self, m, got, want, what, tol=TOL):
        self.links += self.V * self.nd
        d = np.abs(got - want).max(axis=(2, 3))
        if not (d < tol).all():
            x, mu = np.unravel_index(np.argmax(~(d < tol)), d.shape)
            bad = int((~(d < tol)).sum())
            r, o = link(m, m.lat, int(x), int(mu))
            f, l = m.last.get((r, o), (None, None))
            f2, l2 = self.where('SM_wrap_struct')
            raise Fail('%s: the link in direction %d of site %d is not the one defined (off by %.2g; %d of %d links differ)'
                       % (what, mu, x, d[x, mu], bad, d.size), l or l2, f or f2)

    def wrap(self, m, type_, dirn, iters):
        rec = [v.type for v in self.p.func('SM_wrap_struct').params][1]
        R = wm.Region('SMINFO', rec.sz)
        fs = {f[0]: f for f in self.p.records[rec.r]}
        for k, v in (('dir', self.enum(dirn)), ('smiters', iters), ('type', self.enum(type_))):
            m.store(R, fs[k][2], fs[k][1], v)
        rv = m.callname('SM_wrap_struct', [m.lat, Ptr(R, 0, rec)])
        self.ops += m.nops
        return rv

    def improved_staple(self, D, U, x, mu, ndir, log):
        key = (D.dims, x, mu, ndir, log)
        t = self.stapterms.get(key)
        if t is None:
            m = self.stapm.get(D.dims)
            if m is None:
                m = self.stapm[D.dims] = self.start(D.dims, Field0(self.n, D.V, self.nd))
                m.buf = wm.Region('staple', 16 * self.n ** 2)
            F = self.p.func('all_staples_improve')
            p = Ptr(m.buf, 0, F.params[0].type)
            _zero(m, [p], None)
            m.call(F, [p, m.lat, x, mu, ndir, self.enum('SM_LOG' if log else 'SM_STOUT')])
            t = self.stapterms[key] = getm(m, p)
        ev = self.evs.get(id(U))
        if ev is None or ev[0] is not U:
            class X(object):
                pass
            f = X()
            f.U = U
            ev = self.evs[id(U)] = (U, Mats(self.n, f))
        return ev[1].mat(t)


SIMPLE = {4: (3, 2, 3, 4), 3: (3, 2, 4)}
LARGE = {4: (2, 3, 3, 3), 3: (3, 4, 3)}
IMP = {4: (2, 2, 2, 5), 3: (3, 4, 5)}
SMALL = {4: (2, 2, 3, 3), 3: (3, 2, 3)}


def smear(C, type_, dirn, kind, iters, mem=None, hyp=False, dims=None):
    dims = dims or (IMP if C.improved and not hyp else LARGE if hyp else SIMPLE)[C.nd]
    f0 = Field0(C.n, int(np.prod(dims)), C.nd)
    m = C.start(dims, f0)
    if mem:
        m.mem = C.enum(mem)
    what = '%d iteration%s of %s smearing (%s%s)' % (iters, 's' if iters > 1 else '', type_[3:], dirn.lower().replace('_', ' '),
                                                  ', %s memory setting' % mem if mem else '')
    try:
        rv = C.wrap(m, type_, dirn, iters)
    except Fail as e:
        raise Fail('%s: %s' % (what, e), e.line, e.file)
    if rv != 0:
        raise Fail('%s: reports failure' % what, *C.where('SM_wrap_struct')[::-1])
    C.stapm, C.evs = {}, {}
    D = Def(C, dims, f0)
    nd = C.nd if dirn == 'ALL_DIRECTIONS' else C.nd - 1
    for _ in range(iters):
        (D.hyp if hyp else D.simple)(kind, nd)
    C.compare(m, C.values(m, C.terms(m)), D.U, what)
    return 1


def _print(C):
    """the flow reports a flow time: keeps the time, the numbers and the field"""
    def f(m, a, e):
        s = wm.pystr(m, a[1])
        if not isinstance(s, str):
            s = bytes(s).decode('latin-1')
        names = re.findall(r'\{(\w+)\}\s*%', s)
        conv = re.findall(r'%[-+ #0-9.*]*(?:hh|h|ll|l|z|L)?[a-zA-Z]', s)
        if 't' in names and len(names) == len(conv):
            m.records.append([dict(zip(names, a[2:])), C.terms(m)])
        elif 'p' in names and m.records and len(names) == len(conv):
            m.records[-1][0].update(zip(names, a[2:]))
        return 0
    return f


def flow(C, type_, kind, iters, mem='FAST', dt=None, control=None, gseq=None, stop=False, least=2):
    dims = (IMP if C.improved else SMALL)[C.nd]
    f0 = Field0(C.n, int(np.prod(dims)), C.nd)
    m = C.start(dims, f0)
    m.mem = C.enum(mem)
    V = C.V
    what = '%s%s' % (type_[3:], '' if 'ADAPT' in type_ else ' (%s memory setting)' % mem)
    dt = dt if dt is not None else 0.07
    r, fs = latt(m)
    m.store(r, fs['sm_alpha'][2], fs['sm_alpha'][1].e, dt)
    plaqs, gs = {}, {}
    norm = C.n * C.nd * (C.nd - 1) // 2 * V

    def plaq(m, lat):
        k = len(plaqs)
        v = 0.5 + (control[k] if control and k < len(control) else 0.0) + 1e-10 * k
        plaqs[k] = (v, C.terms(m, lat))
        return v

    def pth(m, a, e):
        v = plaq(m, a[1])
        _zero_red(m, a, e)
        m.st(a[0].r, a[0].off + 24, 8, v * norm)
        return 0

    def gth(m, a, e):
        k = len(gs)
        g, q = (gseq[k] if gseq and k < len(gseq) else 1e-7 * (k + 1)), 0.25 + 0.5 * k
        gs[k] = (g, q, C.terms(m, a[1]))
        _zero_red(m, a, e)
        m.st(a[0].r, a[0].off, 8, g * 16 * V)
        m.st(a[0].r, a[0].off + 8, 8, -q * 64 * np.pi ** 2)
        return 0
    m.hooks.update(fprintf=_print(C), av_plaquette=lambda m, a, e: plaq(m, a[0]), av_plaquette_th=pth, compute_Gmunu_th=gth)
    try:
        rv = C.wrap(m, type_, 'ALL_DIRECTIONS', iters)
    except Fail as e:
        raise Fail('%s: %s' % (what, e), e.line, e.file)
    W = C.where('flow_adaptive_RK3' if 'ADAPT' in type_ else 'flow_RK3')[::-1]
    if rv != 0:
        raise Fail('%s: reports failure' % what, *W)
    R = m.records
    if len(R) < least:
        raise Undecided('only %d flow times are reported' % len(R))
    C.stapm, C.evs = {}, {}
    D = Def(C, dims, f0)
    U, t = D.U, 0.0
    tol = 1e-5 if stop else TOL
    if abs(R[0][0]['t']) > 1e-12:
        raise Fail('%s: the flow starts at time %r' % (what, R[0][0]['t']), *W)
    prev = None
    for k, (num, ts) in enumerate(R):
        w = '%s: the measurement at flow time %.6g' % (what, num['t'])
        got = C.values(m, ts)
        h = num['t'] - t
        if k:
            want = D.flow(U, kind, h) if h else U
            if np.abs(got - want).max() > tol and 'ADAPT' in type_:
                want = D.flow(D.flow(U, kind, h / 2), kind, h / 2)
            C.compare(m, got, want, w + ': the field is not the flow of the one before by %.6g' % h, tol)
        elif np.abs(got - U).max() > TOL:
            raise Fail(w + ': the field has been changed before the flow starts', *W)
        v = [x for x, f in plaqs.values() if f == ts]
        if 'p' in num and not any(abs(x - num['p']) < 1e-11 for x in v):
            raise Fail(w + ': the plaquette reported is not the one of the field at that time', *W)
        v = [(x, q) for x, q, f in gs.values() if f == ts]
        if 'Gt' in num and not any(abs(x * num['t'] ** 2 - num['Gt']) < 1e-12 * (1 + abs(num['Gt'])) for x, q in v):
            raise Fail(w + ': t^2 G reported is not the one of the field at that time', *W)
        if 'q' in num and not any(abs(q - num['q']) < 1e-9 for x, q in v):
            raise Fail(w + ': the topological charge reported is not the one of the field at that time', *W)
        U, t = got, num['t']
    C.compare(m, C.values(m, C.terms(m)), U, '%s: the field that is left is not the last one measured' % what)
    if 'ADAPT' not in type_:
        want = [k * dt for k in range(iters + 1)]
        if stop:
            want = [x for x in want if x < STOP] + [min(x for x in want if x >= STOP), STOP]
        if len(R) != len(want) or any(abs(a[0]['t'] - b) > 1e-9 for a, b in zip(R, want)):
            raise Fail('%s: the flow times are %s and not %s' % (what, ' '.join('%.6g' % a[0]['t'] for a in R), ' '.join('%.6g' % b for b in want)), *W)
    elif stop and abs(t - STOP) > 1e-9:
        raise Fail('%s: the flow ends at time %.6g, not at %.6g' % (what, t, STOP), *W)
    return len(R)


STOP = 20.0


def nothing(C, type_, iters):
    dims = SMALL[C.nd]
    f0 = Field0(C.n, int(np.prod(dims)), C.nd)
    m = C.start(dims, f0)
    a = C.terms(m)
    rv = C.wrap(m, type_, 'ALL_DIRECTIONS', iters)
    if rv != 0 or C.terms(m) != a:
        raise Fail('%d iterations of %s %s' % (iters, type_, 'report failure' if rv else 'change the field'), *C.where('SM_wrap_struct')[::-1])
    return 1


def obligations(C):
    AL, SP = 'ALL_DIRECTIONS', 'SPATIAL_LINKS_ONLY'
    O = []
    for k in ('APE', 'STOUT', 'LOG'):
        for d in (AL, SP):
            O.append(('%s %s' % (k, d[:3]), lambda C, k=k, d=d: smear(C, 'SM_' + k, d, k, 2)))
    for t, k in (('HYP', 'APE'), ('HEX', 'STOUT'), ('HYL', 'LOG')):
        if C.nd == 4:
            O.append(('%s ALL fast' % t, lambda C, t=t, k=k: smear(C, 'SM_' + t, AL, k, 2, 'FAST', True)))
            O.append(('%s SPA' % t, lambda C, t=t, k=k: smear(C, 'SM_' + t, SP, k, 2, 'FAST', True)))
            if not C.improved:
                O.append(('%s ALL slow' % t, lambda C, t=t, k=k: smear(C, 'SM_' + t, AL, k, 1, 'SLOW', True, (2, 2, 2, 3))))
        else:
            O.append(('%s ALL' % t, lambda C, t=t, k=k: smear(C, 'SM_' + t, AL, k, 2, None, True)))
    for t in ('STOUT', 'LOG'):
        for mem in ('FAST', 'MODERATE'):
            O.append(('flow %s %s' % (t, mem), lambda C, t=t, mem=mem: flow(C, 'SM_WFLOW_' + t, t, 2, mem)))
        O.append(('adaptive %s' % t, lambda C, t=t: flow(C, 'SM_ADAPTWFLOW_' + t, t, 2)))
    O.append(('flow to stop', lambda C: flow(C, 'SM_WFLOW_STOUT', 'STOUT', 4, 'FAST', 12.0, stop=True)))
    O.append(('flow to stop, memcheap', lambda C: flow(C, 'SM_WFLOW_STOUT', 'STOUT', 4, 'MODERATE', 12.0, stop=True)))
    O.append(('adaptive rejects', lambda C: flow(C, 'SM_ADAPTWFLOW_STOUT', 'STOUT', 1, control=[0, 0.01, -0.01])))
    if not C.improved:
        O.append(('adaptive to stop', lambda C: flow(C, 'SM_ADAPTWFLOW_STOUT', 'STOUT', 4, dt=15.0, stop=True)))
    s0 = 0.1125 * (C.n ** 2 - 1) / C.n
    if not C.improved and C.nd == 4:
        O.append(('adaptive fine', lambda C: flow(C, 'SM_ADAPTWFLOW_STOUT', 'STOUT', 1, least=5, gseq=[0.0] + [
            s0 * y / (0.07 + 0.0007 * k) ** 2 for k, y in enumerate((0.98, 0.982, 0.984, 1.001, 1.003, 1.005, 1.007, 1.009))])))
    O.append(('nothing', lambda C: nothing(C, 'SM_STOUT', 0) + nothing(C, 'SM_NOSMEARING', 3)))
    return O


def skip(C, name):
    """left to the thorough tier: what another configuration decides for the same code"""
    if C.cfg == 'nc3':
        return False
    if C.improved:
        return name.startswith('adaptive') or name.startswith('flow to stop,') or \
            (C.cfg == 'nc3opts' and name in ('LOG ALL', 'flow LOG FAST', 'flow LOG MODERATE', 'flow to stop')) or \
            (C.cfg == 'nc3opts2' and (name.startswith('HE') or name.startswith('HY') or name == 'flow LOG FAST'))
    if 'slow' in name:
        return name[:3] != {2: 'HYL', 4: 'HYP'}.get(C.n, 'HEX')
    return name in ('adaptive LOG', 'adaptive fine', 'adaptive rejects') or (name == 'adaptive STOUT' and C.n != 4)


def analyse(job):
    cfg, part, parts, full = job
    C = Ctx(cfg)
    res, und, bad = 0, [], []
    todo = [x for x in obligations(C) if full or not skip(C, x[0])]
    for k, (name, f) in enumerate(todo):
        if (isinstance(part, int) and k % parts != part) or (not isinstance(part, int) and part and not any(name.startswith(x) for x in part)):
            continue
        wm.reset()
        _ENT.clear()
        C.stapterms = {}
        try:
            f(C)
            res += 1
        except (Fail, Outside) as e:
            bad.append((name, e.file, e.line, str(e)))
        except Undecided as e:
            und.append((name, str(e)))
        except Exited:
            bad.append((name, None, None, 'the program is left by exit()'))
        except RecursionError:
            und.append((name, 'recursion'))
    return cfg, res, und, bad, (C.machines, C.ops, C.links)


def run(tier, seed):
    res = Result()
    core.dumper_path()
    cfgs = THOROUGH if tier == 'thorough' else QUICK
    jobs = [(c, k, 6, tier == 'thorough') for c in sorted(cfgs, key=lambda c: 'opts' not in c) for k in range(6)]
    with ProcessPoolExecutor(8) as ex:
        outs = list(ex.map(analyse, jobs))
    tot = runs = ops = links = 0
    und, seen = [], {}
    for cfg, n, u, bad, (a, b, c) in outs:
        tot += n + len(u) + len(bad)
        runs, ops, links = runs + a, ops + b, links + c
        und += [(cfg,) + x for x in u]
        for name, file, line, msg in bad:
            seen.setdefault((name, file), (line, msg, []))[2].append(cfg)
    if len(und) > tot // 2:
        raise core.AnalysisError('%d of %d obligations are undecided: %s' % (len(und), tot, und[:3]))
    for (name, file), (line, msg, cs) in sorted(seen.items(), key=str):
        file = file or 'src/Wrappers/SM_wrap.c'
        res.add(name.split()[0], '%s|%s' % (name, file), '%s:%s' % (file, line or 0), '%s [configurations: %s]' % (msg, ' '.join(sorted(set(cs)))))
    res.coverage = dict(configurations=len(cfgs), obligations=tot, decided=tot - len(und), undecided=len(und), interpreted_runs=runs,
                        matrix_operations=ops, links_compared=links,
                        explanation='SM_wrap_struct is interpreted with opaque links for every smearing type, direction setting and memory setting; '
                        'every link of every site is compared with the definition as a function of the initial field. Rules: APE/STOUT/LOG, HYP/HEX/HYL '
                        '(fast, recursive and spatial variants), flow (fixed step, both memory settings), adaptive (accepted and rejected steps, fine '
                        'steps), stopping time, times and numbers reported, products of special unitary matrices only on such matrices, exponentials '
                        'only of Hermitian traceless ones, nothing (no smearing, no iterations).',
                        samples=['%s %s: %s' % x for x in und[:20]])
    res.assumptions = ['the primitive matrix operations do what C05 shows', 'the improved staple is the one C07 shows',
                       'the projections onto SU(N), the exponential and the logarithm are stood in for by fixed functions of the matrix; '
                       'identities of links are decided at one generic field', 'one thread (C04 covers the independence of the number of threads)']
    return res
