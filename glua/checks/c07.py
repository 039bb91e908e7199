"""C07: measured and updated quantities equal their lattice definition.

Word-domain abstract interpretation (glua/wordval.py) of the functions that build
staples, plaquettes, link averages, Polyakov loops, field strengths, gauge
functionals and gauge rotations, compared with the definition below."""
import os
import re
from concurrent.futures import ProcessPoolExecutor
from .. import core, numeq
from ..common import Result
from ..polyval import (V, Region, Ptr, Undecided, Outside, padd, pmul, pconst, pvar, peq, pscale, vadd, vmul, vconj, veq, NAMES,
                       sym, UNK, pkey, pnum, num)
from ..wordval import (WordMachine, Site, SI, isym, siadd, simul, FPtr, Field, FnVal, wadd, wmul, wd, weq, wkey, went, wtrace, ONE,
                       WM, invp, cancel, entry, trace_word, reduce_word)

QUICK = ['nc3', 'nc2', 'nc4', 'nc3nosse', 'nc5nd3', 'nc3opts', 'nc3opts2', 'nc3single']
THOROUGH = QUICK + ['nc2nosse', 'nc4nosse', 'nc8', 'nc2single', 'nc3sse3', 'nc3fma', 'nc2sse3', 'nc5nosse', 'nc4sse3', 'nc4gsl']


class Mismatch(Exception):
    pass


class Def(object):
    """definitions, in terms of the links of the field called name"""

    def __init__(self, m, name='lat'):
        self.m, self.name, self.n, self.nd = m, name, m.n, m.nd

    def U(self, s, mu):
        return {(self.m.link(self.name, s, mu),): ONE}

    def path(self, s, steps):
        """product of links along the path of steps +-(mu+1) from s"""
        w = {(): ONE}
        for k in steps:
            mu = abs(k) - 1
            if k > 0:
                w = wmul(w, self.U(s, mu))
                s = self.m.step(s, mu, 1)
            else:
                s = self.m.step(s, mu, -1)
                w = wmul(w, wd(self.U(s, mu)))
        return w

    def log(self, w):
        return {(('F', 'log', wkey(w), 2, 0),): ONE}

    def retr(self, w):
        return V(wtrace(w, self.n).re)


class Ctx(object):
    def __init__(self, prog, cfg):
        self.p, self.cfg = prog, cfg
        with open(os.path.join(core.VERIF, 'configs', cfg, 'config.h')) as fh:
            self.flags = set(re.findall(r'^#define (\w+)', fh.read(), re.M))
        self.site_t = next((v.type.e for F in prog.funcs.values() for v in F.params
                            if v.type.isptr and v.type.e.r == 'site'), None)
        if self.site_t is None:
            raise core.AnalysisError('no function takes a gauge field (config %s)' % cfg)

    def machine(self, dims=None):
        m = WordMachine(self.p, dims)
        self.m = m
        m.opaque = {}
        return m

    def mat(self, m, name, w, undefined=False):
        r = Region(name, 2 * m.n * m.n, 1)
        if not undefined:
            m.putw(r, 0, w)
        return Ptr(r, 0, None)

    def buf(self, name, n, fill=True):
        r = Region(name, n, 1, {i: {} for i in range(n)} if fill else {})
        return Ptr(r, 0, None)

    def run(self, m, F, args):
        m.roots = [a.r for a in args if isinstance(a, Ptr) and not isinstance(a, FPtr)]
        if len(args) != len(F.params):
            raise core.AnalysisError('%s has another signature (configuration %s)' % (F.name, self.cfg))
        return m.call(F, [m.convert(a, v.type) if isinstance(a, Ptr) and v.type.k != 'rec' else a for a, v in zip(args, F.params)])


def same(a, b, n):
    a, b = cancel(a), cancel(b)
    if a is None or b is None:
        return False
    return peq(a, b) or numeq.equal(a, b, n)


def wsame(a, b, n):
    return weq(a, b) or numeq.wequal(a, b, n)


def need(ok, what):
    if not ok:
        raise Mismatch(what)


def real(v):
    return v.re if isinstance(v, V) else v


# ------------------------------------------------------------- obligations
OBS = []


def ob(name, nd=None):
    def g(f):
        OBS.append((name, f, nd))
        return f
    return g


def smtype(c, name):
    return c.p.enumconst[name][1]


@ob('all_staples')
def staples(c, F):
    log = smtype(c, 'SM_LOG')
    for dir in (None, -1):
        for ty in sorted({log, smtype(c, 'SM_APE'), smtype(c, 'SM_STOUT')}):
            m = c.machine()
            nd = m.nd if dir is None else m.nd - 1
            for mu in range(nd):
                d = Def(m)
                lat = m.lattice('lat', c.site_t)
                x = Site('x')
                S = {(('F', 'S', '', 0, 0),): ONE}
                st = c.mat(m, 'stap', S)
                c.run(m, F, [st, lat, x, mu, nd, ty])
                want = S
                for nu in range(nd):
                    if nu == mu:
                        continue
                    for sg in (1, -1):
                        w = d.path(x, [sg * (nu + 1), mu + 1, -sg * (nu + 1)])
                        if ty == log:
                            w = d.log(wmul(w, wd(d.U(x, mu))))
                        want = wadd(want, w)
                need(wsame(m.getw(st), want, m.n), 'direction %d of %d%s: the result is not the sum of the staples' % (
                    mu, nd, ', logarithm' if ty == log else ''))


@ob('all_staples_improve')
def staples_improve(c, F):
    """c0 times the staples plus c1 times the rectangles, c0 + 8 c1 = 1"""
    log = smtype(c, 'SM_LOG')
    for dir in (None, -1):
        for ty in sorted({log, smtype(c, 'SM_APE'), smtype(c, 'SM_STOUT')}):
            m = c.machine()
            nd = m.nd if dir is None else m.nd - 1
            for mu in range(nd):
                d = Def(m)
                lat = m.lattice('lat', c.site_t)
                x = Site('x')
                st = c.mat(m, 'stap', None, True)
                c.run(m, F, [st, lat, x, mu, nd, ty])
                got = m.getw(st)
                u = mu + 1
                small, large = {}, {}
                for nu in range(nd):
                    if nu == mu:
                        continue
                    for v in (nu + 1, -nu - 1):
                        for k, p in [(0, [v, u, -v]), (1, [v, v, u, -v, -v]), (1, [v, u, u, -v, -u]), (1, [-u, v, u, u, -v])]:
                            w = d.path(x, p)
                            if ty == log:
                                w = d.log(wmul(w, wd(d.U(x, mu))))
                            if k:
                                large = wadd(large, w)
                            else:
                                small = wadd(small, w)
                c0, c1 = numeq.fit(got, [small, large], m.n)
                what = 'direction %d of %d%s: ' % (mu, nd, ', logarithm' if ty == log else '')
                need(c0 is not None, what + 'the result is not a weighted sum of the staples and the rectangles')
                need(abs(c0 + 8 * c1 - 1) < 1e-6, what + 'the weights of staple and rectangle, %g and %g, are not normalised to '
                     'c0 + 8 c1 = 1' % (c0, c1))
                need(wsame(got, wadd(wmul(small, {(): V(pconst(c0))}), large, c1), m.n),
                     what + 'the result is not the weighted sum of the staples and the rectangles')


def plane(d, mu, nu, s=None):
    return d.path(s or Site('x'), [mu + 1, nu + 1, -mu - 1, -nu - 1])


def plaq(d, pairs):
    s = {}
    for mu, nu in pairs:
        s = padd(s, d.retr(plane(d, mu, nu)).re)
    return pscale(s, 1.0 / (d.n * len(pairs)))


def planes(nd, kind):
    r = []
    for mu in range(nd):
        for nu in range(mu):
            t = mu == nd - 1
            if kind == 'all' or (kind == 't') == t:
                r.append((mu, nu))
    return r


def scalar(name, kind):
    @ob(name)
    def f(c, F):
        m = c.machine()
        d = Def(m)
        rv = c.run(m, F, [m.lattice('lat', c.site_t)])
        need(isinstance(rv, V) and same(rv.re, plaq(d, planes(m.nd, kind)), m.n),
             'the returned value is not the average of Re tr of the %splaquettes' % {'all': '', 's': 'spatial ', 't': 'temporal '}[kind])


for _n, _k in (('av_plaquette', 'all'), ('s_plaq', 's'), ('t_plaq', 't')):
    scalar(_n, _k)


@ob('all_plaquettes')
def all_plaq(c, F):
    m = c.machine()
    d = Def(m)
    sp, t = c.buf('sp', 1), c.buf('t', 1)
    rv = c.run(m, F, [m.lattice('lat', c.site_t), sp, t])
    need(same(sp.r.cells[0], plaq(d, planes(m.nd, 's')), m.n), 'the first result is not the average spatial plaquette')
    need(same(t.r.cells[0], plaq(d, planes(m.nd, 't')), m.n), 'the second result is not the average temporal plaquette')
    need(isinstance(rv, V) and same(rv.re, plaq(d, planes(m.nd, 'all')), m.n), 'the returned value is not the average plaquette')


@ob('av_plaquette_th')
def plaq_th(c, F):
    m = c.machine()
    d = Def(m)
    red = c.buf('red', 64)
    c.run(m, F, [red, m.lattice('lat', c.site_t)])
    v = m.sival(m.volume()).re
    want = pmul(v, pscale(plaq(d, planes(m.nd, 'all')), m.n * len(planes(m.nd, 'all'))))
    hit = [i for i, x in red.r.cells.items() if x != {}]
    need(len(hit) == 1 and same(red.r.cells[hit[0]], want, m.n), 'the accumulated value is not the sum of Re tr of all plaquettes')


def linkav(d, mus):
    s = {}
    for mu in mus:
        s = padd(s, d.retr(d.U(Site('x'), mu)).re)
    return pscale(s, 1.0 / (d.n * len(mus)))


def linkob(name, mus, extra=0, flip=False):
    @ob(name)
    def f(c, F):
        m = c.machine()
        d = Def(m)
        bufs = [c.buf('r%d' % i, 1) for i in range(extra)]
        rv = c.run(m, F, [m.lattice('lat', c.site_t)] + bufs)
        w = linkav(d, mus(m.nd))
        if flip:
            w = padd(pconst(1), w, -1.0)
        need(isinstance(rv, V) and same(rv.re, w, m.n), 'the returned value is not the average of Re tr of the links')
        if name == 'all_links':
            need(same(bufs[0].r.cells[0], linkav(d, range(m.nd - 1)), m.n), 'the first result is not the spatial average')
            need(same(bufs[1].r.cells[0], linkav(d, [m.nd - 1]), m.n), 'the second result is not the temporal average')


linkob('links', lambda nd: range(nd))
linkob('s_links', lambda nd: range(nd - 1))
linkob('t_links', lambda nd: [nd - 1])
linkob('indivlinks', lambda nd: range(nd), 1)
linkob('all_links', lambda nd: range(nd), 2)
linkob('gauge_functional', lambda nd: range(nd), 0, True)


# Polyakov loops: the extent of the winding direction is a number
def polyhooks(m, d):
    def mom(mm, a, e):
        p, i, dd = a
        p = mm.real(p)
        p.r.cells[p.off] = SI({(('mom', si_key(i), dd),): 1})
        return UNK

    def gen(mm, a, e):
        p = mm.real(a[0])
        x = p.r.cells.get(p.off)
        if not isinstance(x, SI):
            raise Undecided('gen_site')
        (s,), = x.p
        _, k, dd = s
        full = None
        if isinstance(k, tuple) and len(k) == 1 and k[0][1] == 1 and k[0][0][0] in mm.ranges:
            full = mm.ranges[k[0][0][0]]
        sub = 1
        for i in range(mm.nd):
            if i != dd:
                sub = simul(sub, mm.dims[i])
        if full == (0, sub):
            return Site(('h', dd))
        return Site(('h', dd, k))
    m.opaque = {'get_mom_2piBZ': mom, 'gen_site': gen}


def si_key(i):
    return i.key() if isinstance(i, SI) else i


def polyloop(d, m, dir, L):
    return wtrace(d.path(Site(('h', dir)), [dir + 1] * L), m.n)


@ob('poly')
def poly(c, F):
    for L in (1, 2, 3, 5):
        m = c.machine()
        for dir in range(m.nd):
            m = c.machine({dir: L})
            polyhooks(m, None)
            d = Def(m)
            rv = c.run(m, F, [m.lattice('lat', c.site_t), dir])
            w = polyloop(d, m, dir, L)
            need(isinstance(rv, V) and same(rv.re, w.re, m.n) and same(rv.im, w.im, m.n),
                 'direction %d, extent %d: the returned value is not the average trace of the loops that wind once' % (dir, L))


@ob('poly_th')
def poly_th(c, F):
    for L in (1, 2, 3, 5):
        m = c.machine()
        for dir in range(m.nd):
            m = c.machine({dir: L})
            polyhooks(m, None)
            d = Def(m)
            red = c.buf('red', 64)
            c.run(m, F, [red, m.lattice('lat', c.site_t), dir])
            w = polyloop(d, m, dir, L)
            for off, x in ((2 * dir, w.re), (2 * dir + 1, w.im)):
                need(same(red.r.cells[off], x, m.n),
                     'direction %d, extent %d: the result is not the average trace of the loops that wind once' % (dir, L))


# ------------------------------------------------------ gauge transformations
def G(s, name='g', dag=0):
    return {(('G', name, s.base, s.d, 0, dag),): ONE}


def msame(m, p, w):
    """does the matrix at p equal w on the group?"""
    try:
        return wsame(m.getw(p), w, m.n)
    except Undecided:
        pass
    q = m.real(p)
    for k in range(m.n * m.n):
        v = went(w, m.n, k)
        for j, x in ((0, v.re), (1, v.im)):
            if not same(m.cell(q.r.cells.get(q.off + 2 * k + j)), x, m.n):
                return False
    return True


def linkp(m, lat, s, mu):
    """pointer to the link"""
    r = m.real(FPtr(lat.r, s, None)).r
    off = 0
    for nm, ft in m.fields_of(lat.r.t.r):
        if nm == 'O':
            if ft.k == 'arr':
                return Ptr(r, off + mu * 2 * m.n * m.n, None)
            d = r.cells[off]
            x = d.r.cells[d.off + mu]
            return x
        off += m.width(ft)
    raise core.AnalysisError('struct site has no links')


def gaugetype(F, k=1):
    for v in F.params:
        if v.type.isptr and v.type.e.isptr and v.type.e.e.k == 'cplx':
            return v.type.e
    raise core.AnalysisError('%s takes no array of matrices' % F.name)


def transforms(name):
    @ob(name)
    def f(c, F):
        m = c.machine()
        d = Def(m)
        lat, g = m.lattice('lat', c.site_t), m.gauge('g', gaugetype(F))
        c.run(m, F, [lat, g])
        x = Site('x')
        for mu in range(m.nd):
            w = wmul(wmul(G(x), d.U(x, mu)), wd(G(m.step(x, mu, 1))))
            need(msame(m, linkp(m, lat, x, mu), w), 'direction %d: the new link is not g(x) U(x) g(x+mu)^dagger' % mu)


transforms('gtransform')
transforms('gtransform_th')


def slicetransforms(name):
    @ob(name)
    def f(c, F):
        m = c.machine()
        d = Def(m)
        m.tsyms = ['t']
        t = isym('t')
        lat, g, u = m.lattice('lat', c.site_t), m.gauge('g', gaugetype(F)), m.gauge('u', gaugetype(F))
        c.run(m, F, [g, lat, u, t])
        x, y = Site(('sl', 't')), Site('y')
        for mu in range(m.nd):
            h = G(m.step(y, mu, 1)) if mu < m.nd - 1 else G(y, 'u')
            w = wmul(wmul(G(y), d.U(x, mu)), wd(h))
            need(msame(m, linkp(m, lat, x, mu), w), 'direction %d: the new link is not g(x) U(x) g(x+mu)^dagger' % mu)


slicetransforms('gtransform_slice')
slicetransforms('gtransform_slice_th')


def expgauge(m):
    """set_gauge_matrix: a special unitary function of the step and of the gradient at the site"""
    def f(mm, a, e):
        al = num(a[2])
        s = mm.site(a[3])
        if al.re is None:
            raise Undecided('step of a gauge rotation')
        mm.setw(a[0], E(s, al))
        return UNK
    m.opaque['set_gauge_matrix'] = f


def E(s, al, dag=0):
    al = num(al)
    return {(('G', 'exp', s.base, s.d, pkey(al.re), dag),): ONE}


def gradient(m, F):
    """the gradient fields: only ever handed to set_gauge_matrix"""
    t = next(v.type for v in F.params if v.name == 'in') if any(v.name == 'in' for v in F.params) else F.params[-1].type
    return Ptr(Region('in', 64, 1), 0, t)


@ob('egauge_Landau')
def egauge(c, F):
    m = c.machine()
    expgauge(m)
    d = Def(m)
    lat = m.lattice('lat', c.site_t)
    al = V(pvar('alpha'))
    c.run(m, F, [lat, gradient(m, F), al])
    x = Site('x')
    for mu in range(m.nd):
        w = wmul(wmul(E(x, al), d.U(x, mu)), wd(E(m.step(x, mu, 1), al)))
        need(msame(m, linkp(m, lat, x, mu), w), 'direction %d: the new link is not g(x) U(x) g(x+mu)^dagger' % mu)


@ob('exponentiate_gauge_CG')
def expcg(c, F):
    m = c.machine()
    expgauge(m)
    g = m.gauge('g', gaugetype(F))
    al = V(pvar('alpha'))
    c.run(m, F, [g, gradient(m, F), al])
    y = Site('y')
    need(msame(m, m.real(FPtr(g.r, y, None)).r.cells[0], wmul(E(y, al), G(y))), 'the new transformation is not exp(alpha A) times the old')


def search(c, F, m, slots):
    """stand-in for the minimisation: records the abscissae and the values"""
    seen = []

    def amin(mm, a, e):
        k = a[0]
        if not isinstance(k, int):
            raise Undecided('number of probes')
        xs, fs = mm.real(a[1]), mm.real(a[2])
        seen.append([(mm.cell(xs.r.cells[xs.off + i]), mm.cell(fs.r.cells[fs.off + i])) for i in range(k)])
        return V(pvar('min'))
    m.opaque['approx_minimum'] = amin
    return seen


def functional(d, m, steps, lat, x, shift=None):
    """sum over the links at x of Re tr of the rotated links"""


def checksearch(m, seen, red, want, what):
    need(len(seen) == 1 and len(seen[0]) == 3, 'the minimum of the functional is not sought once over three probes')
    for k, (a, f) in enumerate(seen[0]):
        a = pnum(a)
        need(a is not None, 'probe %d is not a constant' % k)
        need(k > 0 or a == 0, 'the first probe is not the unrotated field')
        w = padd(red[k], want(a), 1.0)
        need(same(f, pscale(w, -1.0), m.n), 'probe %d (step %g): the value handed to the minimisation is not minus the sum of Re tr of the links rotated by '
             'that step%s' % (k, a, what))


def redbuf(c):
    r = Region('red', 64, 1, {i: pvar(('red', i)) for i in range(64)})
    return Ptr(r, 0, None), [pvar(('red', i)) for i in range(3)]


@ob('line_search_Landau')
def lsl(c, F):
    m = c.machine()
    expgauge(m)
    d = Def(m)
    lat = m.lattice('lat', c.site_t)
    seen = search(c, F, m, 3)
    red, r0 = redbuf(c)
    c.run(m, F, [red, lat, gradient(m, F)])
    x = Site('x')

    def want(a):
        s = {}
        for mu in range(m.nd):
            w = d.U(x, mu)
            if a:
                w = wmul(wmul(E(x, V(pconst(a))), w), wd(E(m.step(x, mu, 1), V(pconst(a)))))
            s = padd(s, d.retr(w).re)
        return pmul(s, m.sival(m.volume()).re)
    checksearch(m, seen, r0, want, '')
    al = V(pvar('min'))
    for mu in range(m.nd):
        w = wmul(wmul(E(x, al), d.U(x, mu)), wd(E(m.step(x, mu, 1), al)))
        need(msame(m, linkp(m, lat, x, mu), w), 'direction %d: the links are not rotated by the step found' % mu)


def coulomb(name, boards):
    @ob(name)
    def f(c, F):
        for board in boards:
            m = c.machine()
            expgauge(m)
            d = Def(m)
            m.tsyms = ['t']
            t = isym('t')
            lat, g = m.lattice('lat', c.site_t), m.gauge('g', gaugetype(F))
            seen = search(c, F, m, 3)
            red, r0 = redbuf(c)
            args, half = [], False
            for v in F.params:
                ty = v.type
                if ty.k == 'rec':
                    args.append(board2(m, ty))
                    half = True
                elif ty.isptr and ty.e.r == 'site':
                    args.append(lat)
                elif ty.isptr and ty.e.isptr:
                    args.append(g if g is not None else gradient(m, F))
                    g_, g = g or g_, None
                elif ty.isptr:
                    args.append(red)
                else:
                    args.append(t)
            c.run(m, F, args)
            x, y = Site(('sl', 't')), Site('y')

            def rot(s, ys, mu, a):
                """the link at s (y on its slice) after the rotation"""
                w = wmul(wmul(G(ys), d.U(s, mu)), wd(G(m.step(ys, mu, 1))))
                if a:
                    w = wmul(wmul(E(ys, V(pconst(a))), w), wd(E(m.step(ys, mu, 1), V(pconst(a)))))
                return d.retr(w).re

            def want(a):
                s = {}
                for mu in range(m.nd - 1):
                    s = padd(s, rot(x, y, mu, a))
                    if half:
                        s = padd(s, rot(m.step(x, mu, -1), m.step(y, mu, -1), mu, a))
                return pmul(s, pvar(('n', 'half')) if half else m.sival(m.volume(m.nd - 1)).re)
            checksearch(m, seen, r0, want, '')
            need(msame(m, m.real(FPtr(g_.r, y, None)).r.cells[0], wmul(E(y, V(pvar('min'))), G(y))),
                 'the transformation is not multiplied by the rotation of the step found')


def board2(m, t):
    """a checkerboard of two colours"""
    fs = m.fields_of(t.r)
    r = Region('db', m.width(t), 1)
    off = 0
    for nm, ft in fs:
        if ft.isptr and ft.e.isptr:
            q = Region('db.' + nm, 2, 1)
            for col in (0, 1):
                f = Field('db.%s[%d]' % (nm, col), ft.e.e)
                f.dim = 'square'
                f.gen = lambda s: Region('square', 1, 1, {0: Site('y')})
                q.cells[col] = FPtr(f, 0, ft.e)
            r.cells[off] = Ptr(q, 0, ft)
        elif ft.isptr:
            r.cells[off] = Ptr(Region('db.' + nm, 2, 1, {0: isym('half'), 1: isym('half')}), 0, ft)
        else:
            r.cells[off] = 2
        off += m.width(ft)
    return Ptr(r, 0, t)


coulomb('line_search_CoulombOdd', [None])
coulomb('line_search_Coulomb', [2])


@ob('gauge_test')
def gtest(c, F):
    m = c.machine()
    d = Def(m)
    g = m.gauge('g', gaugetype(F))
    rv = c.run(m, F, [g])
    w = padd(pconst(1), pscale(d.retr(G(Site('x'))).re, -1.0 / m.n))
    need(isinstance(rv, V) and same(rv.re, w, m.n), 'the returned value is not 1 - average Re tr g / NC')


@ob('gtrans_functional')
def gtf(c, F):
    m = c.machine()
    d = Def(m)
    m.tsyms = ['t']
    lat, g = m.lattice('lat', c.site_t), m.gauge('g', gaugetype(F))
    rv = c.run(m, F, [lat, g, isym('t')])
    x, y = Site(('sl', 't')), Site('y')
    lin, log = {}, {}
    for mu in range(m.nd - 1):
        w = wmul(wmul(G(y), d.U(x, mu)), wd(G(m.step(y, mu, 1))))
        lin = padd(lin, d.retr(w).re)
        A = d.log(w)
        log = padd(log, d.retr(wmul(A, A)).re)
    k = m.n * (m.nd - 1)
    need(isinstance(rv, V) and (same(rv.re, padd(pconst(1), pscale(lin, -1.0 / k)), m.n) or same(rv.re, pscale(log, 0.5 / k), m.n)),
         'the returned value is not the gauge functional of the rotated slice')


# -------------------------------------------------------------- field strength
def leaf(d, s, mu, nu, a, b, k):
    """one of the four loops a x b of the plane that begin at s, all turning the same way"""
    M, N = [mu + 1] * a, [nu + 1] * b
    m, n = [-x for x in M], [-x for x in N]
    return d.path(s, (M + N + m + n, n + M + N + m, m + n + M + N, N + m + n + M)[k])


PAIRS = [((3, 0), (1, 2)), ((3, 1), (2, 0)), ((3, 2), (0, 1))]
SHAPES = [(1, 1), (2, 2), (1, 2), (2, 1), (1, 3), (3, 1), (3, 3)]


def herm(w, n):
    """(w - w^dagger)/2i without its trace"""
    h = wadd(w, wd(w), -1.0)
    h = wmul(h, {(): V({}, pconst(-0.5))})
    t = wtrace(h, n)
    return wadd(h, {(): V(t.re, t.im)}, -1.0 / n)


def trmul(a, b, n):
    return wtrace(wmul(a, b), n).re


def strength(c, d, weights):
    """(G squared, G G dual) summed over the planes, per site"""
    x, n = Site('x'), d.n
    plaqdef = 'PLAQUETTE_FMUNU' in c.flags
    gg, q = {}, {}
    for pair in PAIRS:
        h = []
        for mu, nu in pair:
            w = {}
            for sh, k in weights.items():
                for j in range(1 if plaqdef else 4):
                    w = wadd(w, leaf(d, x, mu, nu, sh[0], sh[1], j), k)
            h.append(herm(w, n))
            if plaqdef:
                gg = padd(gg, padd(pconst(2 * n), d.retr(w).re, -2.0))
            else:
                gg = padd(gg, trmul(h[-1], h[-1], n))
        q = padd(q, trmul(h[0], h[1], n))
    if plaqdef:
        gg, q = pscale(gg, 16.0), pscale(q, 16.0)
    return gg, q


def weightsof(c, d, q):
    """the weights of the loops, read off the coefficients of tr(leaf leaf') in q"""
    if 'CLOVER_IMPROVE' not in c.flags or 'PLAQUETTE_FMUNU' in c.flags:
        return {(1, 1): 1.0}
    x, r = Site('x'), {}
    (mu, nu), (rho, sg) = PAIRS[0]
    for sh in SHAPES:
        t = wtrace(wmul(leaf(d, x, mu, nu, 1, 1, 0), leaf(d, x, rho, sg, sh[0], sh[1], 0)), d.n)
        (m, k), = t.re.items()
        r[sh] = -2.0 * q.get(m, 0.0) / k
    need(r[1, 1] > 0, 'the loops 1x1 do not contribute to the field strength')
    k = r[1, 1] ** 0.5
    if sum(v * a * b for (a, b), v in r.items()) < 0:       # the field strength is known up to its sign
        k = -k
    r = {s: v / k for s, v in r.items() if abs(v) > 1e-12}
    for f, want, what in ((lambda a, b: a * b, 1.0, 'the continuum field strength'),
                          (lambda a, b: a * b * (a * a + b * b), 0.0, 'free of errors of second order')):
        t = sum(v * f(*s) for s, v in r.items())
        need(abs(t - want) < 1e-9, 'the weighted sum of the loops is not %s (weights %s)' % (
            what, ', '.join('%dx%d: %.6g' % (s + (v,)) for s, v in sorted(r.items()))))
    return r


def pervol(m, p):
    return cancel(pmul(p, invp(m.sival(m.volume()).re)))


def checkstrength(c, m, d, gg, q):
    w = weightsof(c, d, q if q is not None else gg)
    G, Q = strength(c, d, w)
    if gg is not None:
        need(same(gg, G, m.n), 'the field strength squared is not the sum of tr F^2 over the six planes')
    need(same(q, Q, m.n), 'the topological density is not the sum of tr F F~ over the three pairs of planes')


@ob('compute_Gmunu', 4)
def gmunu(c, F):
    m = c.machine()
    d = Def(m)
    gg, q = c.buf('GG', 1), c.buf('q', 1)
    c.run(m, F, [gg, q, m.lattice('lat', c.site_t)])
    checkstrength(c, m, d, pervol(m, gg.r.cells[0]), pervol(m, q.r.cells[0]))


@ob('compute_Gmunu_th', 4)
def gmunu_th(c, F):
    m = c.machine()
    d = Def(m)
    red = c.buf('red', 64)
    c.run(m, F, [red, m.lattice('lat', c.site_t)])
    checkstrength(c, m, d, pervol(m, red.r.cells[0]), pervol(m, red.r.cells[1]))


@ob('compute_Gmunu_array', 4)
def gmunu_array(c, F):
    m = c.machine()
    d = Def(m)
    q = Field('qtop', F.params[0].type.e)
    m.fields_.append(q)
    c.run(m, F, [FPtr(q, 0, F.params[0].type), m.lattice('lat', c.site_t)])
    r = m.real(FPtr(q, Site('x'), None))
    checkstrength(c, m, d, None, m.cell(r.r.cells[0]))


@ob('gauge_topological_meas_th', 4)
def topmeas(c, F):
    m = c.machine()
    d = Def(m)
    red, new, old = c.buf('red', 64), c.buf('new', 1), c.buf('old', 1)

    def gm(mm, a, e):
        p = mm.real(a[0])
        p.r.cells[p.off], p.r.cells[p.off + 1] = pvar('sumGG'), pvar('sumQ')
        return UNK
    m.opaque['compute_Gmunu_th'] = gm
    c.run(m, F, [red, m.lattice('lat', c.site_t), new, old, 1])
    import math
    need(same(new.r.cells[0], pscale(pvar('sumQ'), -1.0 / (64 * math.pi ** 2)), m.n),
         'the charge is not -1/(64 pi^2) of the sum of tr F F~ over the lattice')


# ---------------------------------------------------------------- driver
def analyse(cfg):
    prog = core.load(cfg)
    c = Ctx(prog, cfg)
    out, und, proved, fns = [], [], 0, set()
    cnt = dict(products=0, traces=0, loops=0)
    for name, f, nd in OBS:
        F = prog.funcs.get(name)
        if F is None:
            continue
        if nd is not None and nd != WordMachine(prog).nd:
            continue
        try:
            f(c, F)
            proved += 1
        except Mismatch as e:
            out.append((name, F.file, F.line, str(e)))
        except Undecided as e:
            und.append('%s: %s (%s:%s)' % (name, e, c.m.file, c.m.line))
        except Outside as e:
            out.append((name, e.file or F.file, e.line or F.line, 'access outside the object: %s' % e))
        fns |= c.m.funs
        for k, v in c.m.count.items():
            cnt[k] += v
    return cfg, out, und, proved, sorted(fns), cnt


def run(tier, seed):
    res = Result()
    core.dumper_path()
    cfgs = THOROUGH if tier == 'thorough' else QUICK
    with ProcessPoolExecutor(min(8, len(cfgs))) as ex:
        outs = list(ex.map(analyse, cfgs))
    seen, und, tot, fns, proved = {}, set(), {}, set(), 0
    for cfg, bad, u, ok, fs, cnt in outs:
        if ok + len(bad) < 0.5 * (ok + len(bad) + len(u)) or ok + len(bad) < 12:
            raise core.AnalysisError('only %d of %d obligations can be analysed (configuration %s): %s'
                                     % (ok + len(bad), ok + len(bad) + len(u), cfg, u[:6]))
        proved += ok
        fns |= set(fs)
        und.update(u)
        for k, v in cnt.items():
            tot[k] = tot.get(k, 0) + v
        for name, f, line, msg in bad:
            seen.setdefault((name, f, msg), (line, []))[1].append(cfg)
    for (name, f, msg), (line, cs) in sorted(seen.items()):
        res.add('wrong-quantity', '%s|%s' % (f, name), '%s:%d' % (f, line), '%s: %s [configurations: %s]' % (name, msg, ' '.join(cs)))
    res.level = 'proof'
    res.coverage = dict(configurations=len(cfgs), obligations=proved + sum(len(c) for _, c in seen.values()) + len(und), proved=proved,
                        functions_interpreted=len(fns), undecided=len(und),
                        explanation='The functions are interpreted once with the gauge field unknown: a matrix is a polynomial of '
                        'words in links U_mu(x+d) at a symbolic site (plus, for gauge transformations, rotations g(x+d)), a loop '
                        'over all sites contributes one symbolic site, both sides of unknown branches are joined. Results are '
                        'compared with the definition as words, and where those differ as functions of special unitary matrices '
                        '(identity testing of the abstract values). Rule: wrong-quantity.',
                        samples=sorted(und)[:40], **tot)
    res.assumptions = ['exact arithmetic', 'links and gauge rotations are special unitary', 'matrix primitives as in C05',
                       'neighbor and back tables are inverse']
    return res
