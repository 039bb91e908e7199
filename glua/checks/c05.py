"""C05: the matrix primitives compute the algebra they are documented to compute,
in every build variant.  Polynomial-form abstract interpretation of the kernels
(glua/polyval.py) compared with their definition."""
import itertools
from concurrent.futures import ProcessPoolExecutor
from .. import core
from ..common import Result
from ..core import walk, strip, text
from ..polyval import (V, Machine, Region, Ptr, Undecided, Outside, padd, pmul, pneg, pconst, pvar, pinv, pfun,
                       pscale, peq, vadd, vmul, vdiv, vconj, veq, iscplx, UNK)

QUICK = ['nc3', 'nc2', 'nc4', 'nc3nosse', 'nc2nosse', 'nc3single', 'nc5nd3', 'nc4nosse', 'nc3sse3', 'nc2single']
THOROUGH = QUICK + ['nc8', 'nc3fma', 'nc2sse3', 'nc5nosse', 'nc4sse3', 'nc3opts', 'nc3opts2', 'nc4gsl']


# ---------------------------------------------------------------- definitions
class Alg(object):
    """naive matrix algebra over the abstract values"""

    def __init__(self, n):
        self.n = n
        self.h = n * (n + 1) // 2 - 1

    def mul(self, a, b):
        n = self.n
        r = []
        for i in range(n):
            for j in range(n):
                s = V({})
                for k in range(n):
                    s = vadd(s, vmul(a[i * n + k], b[k * n + j]))
                r.append(s)
        return r

    def dag(self, a):
        n = self.n
        return [vconj(a[j * n + i]) for i in range(n) for j in range(n)]

    def tp(self, a):
        n = self.n
        return [a[j * n + i] for i in range(n) for j in range(n)]

    def tr(self, a):
        s = V({})
        for i in range(self.n):
            s = vadd(s, a[i * (self.n + 1)])
        return s

    def add(self, a, b, s=1.0):
        return [vadd(x, y, s) for x, y in zip(a, b)]

    def scale(self, a, c):
        return [vmul(x, c) for x in a]

    def one(self, c=None):
        n = self.n
        c = c or V(pconst(1))
        return [c if i == j else V({}) for i in range(n) for j in range(n)]

    def det(self, a, n=None):
        n = n or self.n
        s = V({})
        for p in itertools.permutations(range(n)):
            sg = 1
            for i in range(n):
                for j in range(i + 1, n):
                    if p[i] > p[j]:
                        sg = -sg
            t = V(pconst(sg))
            for i in range(n):
                t = vmul(t, a[i * n + p[i]])
            s = vadd(s, t)
        return s

    def cofT(self, a):
        n = self.n
        r = []
        for i in range(n):
            for j in range(n):
                m = [a[x * n + y] for x in range(n) for y in range(n) if x != j and y != i]
                d = self.det(m, n - 1) if n > 1 else V(pconst(1))
                r.append(d if (i + j) % 2 == 0 else V(pneg(d.re), pneg(d.im)))
        return r

    def complete(self, a):
        """the special unitary matrix with the rows above the last of a"""
        n = self.n
        if n == 2:
            return [a[0], a[1], vmul(V(pconst(-1)), vconj(a[1])), vconj(a[0])]
        if n == 3:
            c = lambda i, j, k, l: vconj(vadd(vmul(a[i], a[j]), vmul(a[k], a[l]), -1.0))
            return a[:6] + [c(1, 5, 2, 4), c(2, 3, 0, 5), c(0, 4, 1, 3)]
        return a

    def traceless(self, a):
        t = self.tr(a)
        t = vmul(t, V(pconst(1.0 / self.n)))
        return self.add(a, self.one(t), -1.0)

    def antiherm(self, a):
        return self.scale(self.add(a, self.dag(a), -1.0), V(pconst(0.5)))

    def herm(self, a):
        """(U - U^dagger)/2i, traceless"""
        return self.traceless(self.scale(self.antiherm(a), V({}, pconst(-1))))

    def expi(self, q):
        """exp(iQ) of a traceless hermitian matrix, Cayley-Hamilton form"""
        f = lambda name, x: V(pfun(name, x.re))
        i = V({}, pconst(1))
        r = lambda x: V(pconst(x))
        if self.n == 2:
            z = f('sqrt', vadd(vmul(q[0], q[0]), vmul(q[1], vconj(q[1]))))
            sc = vdiv(f('sin', z), z)
            return self.add(self.one(f('cos', z)), self.scale(q, vmul(i, sc)))
        q2 = self.mul(q, q)
        c1 = vmul(self.tr(q2), r(1 / 6.))
        c0 = self.det(q)
        flag = V(pfun('sgn', c0.re))
        c0 = vmul(c0, flag)
        rc = f('sqrt', c1)
        th = vmul(f('acos', vdiv(c0, vmul(vmul(r(2), rc), c1))), r(1 / 3.))
        u = vmul(rc, f('cos', th))
        w = vmul(vmul(r(3 ** 0.5), rc), f('sin', th))
        uu, ww = vmul(u, u), vmul(w, w)
        den = vdiv(r(1), vadd(vmul(r(9), uu), ww, -1.0))
        e1 = vadd(f('cos', u), vmul(i, f('sin', u)), -1.0)
        e2 = vmul(vconj(e1), vconj(e1))
        cw, x0 = f('cos', w), vdiv(f('sin', w), w)
        P = lambda *x: vmul(x[0], P(*x[1:])) if len(x) > 1 else x[0]
        t = vadd(P(r(3), uu), ww)
        f0 = vadd(P(vadd(uu, ww, -1.0), e2), P(e1, vadd(P(r(8), uu, cw), P(r(2), i, u, t, x0))))
        f1 = vadd(P(r(2), u, e2), P(e1, vadd(P(r(2), u, cw), P(i, vadd(P(r(3), uu), ww, -1.0), x0), -1.0)), -1.0)
        f2 = vadd(e2, P(e1, vadd(cw, P(r(3), i, u, x0))), -1.0)
        f0 = P(V(f0.re, pmul(f0.im, flag.re)), den)
        f1 = P(V(pmul(f1.re, flag.re), f1.im), den)
        f2 = P(V(f2.re, pmul(f2.im, flag.re)), den)
        return self.add(self.add(self.one(f0), self.scale(q, f1)), self.scale(q2, f2))

    def pack(self, a):
        n = self.n
        return [a[j + i * n] for i in range(n - 1) for j in range(i, n)]

    def unpack(self, h, s):
        """hermitian (s=1) or antihermitian (s=-1) matrix of the packed form"""
        n = self.n
        r = [None] * (n * n)
        k = 0
        for i in range(n - 1):
            for j in range(i, n):
                c = vconj(h[k])
                r[i + n * j] = c if s > 0 else vmul(V(pconst(-1)), c)
                r[j + n * i] = h[k]
                k += 1
        t = V({})
        for i in range(n - 1):
            t = vadd(t, r[i * (n + 1)])
        r[n * n - 1] = vmul(V(pconst(-1)), t)
        return r


def fresh(name, n):
    return [V(pvar('%s%d.re' % (name, i)), pvar('%s%d.im' % (name, i))) for i in range(n)]


def inputs(A, name, kind):
    """entries of an argument: general matrix, special unitary (2x2: quaternion),
    hermitian, packed hermitian/antihermitian, vector, scalar"""
    n = A.n
    if kind in ('M', 'out', 'any'):
        return fresh(name, n * n)
    if kind in ('S', 'Q'):          # special unitary; Q: in a group algebra (2x2 only)
        m = fresh(name, n * n)
        return A.complete(m) if n == 2 else m
    if kind == 'h':
        m = fresh(name, n * n)
        for i in range(n):
            m[i * (n + 1)] = V(m[i * (n + 1)].re)
            for j in range(i):
                m[i * n + j] = vconj(m[j * n + i])
        return m
    if kind == 'h0':
        return A.unpack(inputs(A, name, 'H'), 1)
    if kind == 'H':                 # packed hermitian: the diagonal is real
        m = fresh(name, A.h)
        k = 0
        for i in range(n - 1):
            m[k] = V(m[k].re)
            k += n - i
        return m
    if kind == 'A':                 # packed antihermitian: the diagonal is imaginary
        m = fresh(name, A.h)
        k = 0
        for i in range(n - 1):
            m[k] = V({}, m[k].im)
            k += n - i
        return m
    if kind == 'P':                 # any packed matrix
        return fresh(name, A.h)
    if kind == 'v':
        return fresh(name, n)
    if kind == 'c':
        return fresh(name, 1)
    if kind == 'r':
        return [V(pvar(name + '.re'))]
    raise KeyError(kind)


def specs(A):
    """name -> (argument kinds, {argument: acceptable values} or function of the inputs)
    upper-case result names: 'ret' is the returned value"""
    n = A.n
    m, d, tr = A.mul, A.dag, A.tr
    one = V(pconst(1))
    S = {}

    def prim(name, kinds, f):
        S[name] = (kinds, f)
    prim('multab', 'oMM', lambda a, b, c: {0: [m(b, c)]})
    prim('multabdag', 'oMM', lambda a, b, c: {0: [m(d(b), c)]})
    prim('multab_dag', 'oMM', lambda a, b, c: {0: [m(b, d(c))]})
    prim('multab_dagdag', 'oMM', lambda a, b, c: {0: [m(d(b), d(c))]})
    prim('multab_atomic_left', 'MM', lambda a, b: {0: [m(b, a)]})
    prim('multab_atomic_right', 'MM', lambda a, b: {0: [m(a, b)]})
    for nm, f in (('multab_suNC', lambda b, c: m(b, c)), ('multabdag_suNC', lambda b, c: m(d(b), c)),
                  ('multab_dag_suNC', lambda b, c: m(b, d(c))), ('multab_dagdag_suNC', lambda b, c: m(d(b), d(c)))):
        prim(nm, 'oSS', lambda a, b, c, f=f: {0: [f(b, c), A.complete(f(b, c))]})
    prim('add_constant', 'Mc', lambda a, c: {0: [A.add(a, A.one(c[0]))]})
    prim('a_plus_b', 'MM', lambda a, b: {0: [A.add(a, b)]})
    prim('a_plus_CSxb', 'MMc', lambda a, b, c: {0: [A.add(a, A.scale(b, c[0]))]})
    prim('a_plus_Sxb', 'MMr', lambda a, b, c: {0: [A.add(a, A.scale(b, c[0]))]})
    prim('a_plus_Sxbminc_short', 'PrPP', lambda a, s, b, c: {0: [A.add(a, A.scale(A.add(b, c, -1.0), s[0]))]})
    prim('b_min_c', 'oMM', lambda a, b, c: {0: [A.add(b, c, -1.0)]})
    prim('dagger', 'oM', lambda a, b: {0: [d(b)]})
    prim('transpose', 'oM', lambda a, b: {0: [A.tp(b)]})
    prim('equiv', 'oM', lambda a, b: {0: [b]})
    prim('diag', 'oc', lambda a, c: {0: [A.one(c[0])]})
    prim('diag_vect', 'ov', lambda a, c: {0: [[c[i] if i == j else V({}) for i in range(n) for j in range(n)]]})
    prim('identity', 'o', lambda a: {0: [A.one()]})
    prim('zero_mat', 'o', lambda a: {0: [[V({})] * (n * n)]})
    prim('mat_mult_vec', 'wMv', lambda a, b, c: {0: [[sumv(vmul(b[i * n + j], c[j]) for j in range(n)) for i in range(n)]]})
    prim('M_times_c', 'Mc', lambda a, c: {0: [A.scale(a, c[0])]})
    prim('outerproduct', 'ovv', lambda q, a, b: {0: [[vmul(a[i], vconj(b[j])) for i in range(n) for j in range(n)]]})
    prim('pack_hermitian', 'pM', lambda a, b: {0: [A.pack(b)]})
    prim('rebuild_hermitian', 'oH', lambda a, b: {0: [A.unpack(b, 1)]})
    prim('rebuild_antihermitian', 'oA', lambda a, b: {0: [A.unpack(b, -1)]})
    prim('trace', 'M', lambda a: {'ret': [[tr(a)]]})
    prim('speed_trace', 'eM', lambda r, a: {0: [[tr(a)]]})
    prim('speed_trace_Re', 'fM', lambda r, a: {0: [[V(tr(a).re)]]})
    prim('trace_ab', 'eMM', lambda r, a, b: {0: [[tr(m(a, b))]]})
    prim('trace_ab_dag', 'eMM', lambda r, a, b: {0: [[tr(m(a, d(b)))]]})
    prim('trace_ab_dag_Re', 'fMM', lambda r, a, b: {0: [[V(tr(m(a, d(b))).re)]]})
    k = 'K' if n == 2 else 'k'      # 2x2: of traceless matrices
    prim('trace_ab_herm', 'f' + k + k, lambda r, a, b: {0: [[V(tr(m(a, b)).re)]]})
    prim('trace_ab_herm_short', 'fHH', lambda r, a, b: {0: [[V(tr(m(A.unpack(a, 1), A.unpack(b, 1))).re)]]})
    prim('trace_prod_herm', 'f' + k, lambda r, a: {0: [[V(tr(m(a, a)).re)]]})
    prim('trace_deriv', 'H', lambda a: {'ret': [[V(pscale(tr(m(A.unpack(a, 1), A.unpack(a, 1))).re, 2.0))]]})
    if n <= 4:
        prim('trace_abc', 'eMMM', lambda r, a, b, c: {0: [[tr(m(m(a, b), c))]]})
        prim('trace_abc_dag', 'eMMM', lambda r, a, b, c: {0: [[tr(m(m(a, b), d(c)))]]})
        prim('trace_abc_dag_Re', 'fMMM', lambda r, a, b, c: {0: [[V(tr(m(m(a, b), d(c))).re)]]})
        prim('Re_trace_abc_dag_suNC', 'SSS', lambda a, b, c: {'ret': [
            [V(tr(m(m(a, b), d(c))).re)], [V(tr(m(A.complete(m(a, b)), d(c))).re)]]})
    if n <= 3:
        prim('det', 'M', lambda a: {'ret': [[A.det(a)]]})
        prim('speed_det', 'eM', lambda r, a: {0: [[A.det(a)]]})
        prim('cofactor_transpose', 'oM', lambda a, b: {0: [A.cofT(b)], 'ret': [[A.det(b)]]})
    prim('AntiHermitian_proj', 'oQ', lambda a, b: {0: [A.antiherm(b)]})
    prim('trf_AntiHermitian_proj', 'oQ', lambda a, b: {0: [A.traceless(A.antiherm(b))]})
    prim('AntiHermitian_proj_short', 'pQ', lambda a, b: {0: [A.pack(A.traceless(A.antiherm(b)))]})
    prim('Hermitian_proj', 'oQ', lambda a, b: {0: [A.herm(b)]})
    prim('Hermitian_proj_short', 'pQ', lambda a, b: {0: [A.pack(A.herm(b))]})
    def su(x):
        x = SU(x)
        x.A = A
        return x
    prim('gtransform_local', 'SSS', lambda a, b, c: {1: [su(m(m(a, b), d(c)))]})
    if n == 2:
        prim('inverse', 'oM', lambda a, b: {0: [A.scale(A.cofT(b), vdiv(one, A.det(b)))]})
    if n <= 3:
        prim('exponentiate', 'oK', lambda a, q: {0: [A.expi(q)]})
        prim('exponentiate_short', 'oH', lambda a, q: {0: [A.expi(A.unpack(q, 1))]})
    return S


class SU(list):
    """a special unitary matrix: an element may be the conjugate cofactor of exact elements"""
    pass


def sunequal(A, got, want):
    n = A.n
    ex = [veq(x, y) for x, y in zip(got, want)]
    for i in range(n * n):
        if ex[i]:
            continue
        if n != 3:
            return i
        r, c = [x for x in range(3) if x != i // 3], [x for x in range(3) if x != i % 3]
        e = [x * 3 + y for x in r for y in c]
        if not all(ex[x] for x in e):
            return i
        d = vconj(vadd(vmul(got[e[0]], got[e[3]]), vmul(got[e[1]], got[e[2]]), -1.0))
        if (i // 3 + i % 3) % 2:
            d = V(pneg(d.re), pneg(d.im))
        if not veq(got[i], d):
            return i
    return None


def products(A):
    """the special unitary products, each decided on its own, stand for their definition"""
    d, r = A.dag, {}
    for nm, f in (('multab_suNC', lambda b, c: A.mul(b, c)), ('multabdag_suNC', lambda b, c: A.mul(d(b), c)),
                  ('multab_dag_suNC', lambda b, c: A.mul(b, d(c))), ('multab_dagdag_suNC', lambda b, c: A.mul(d(b), d(c)))):
        def g(m, args, e, f=f):
            if not all(isinstance(x, Ptr) for x in args):
                raise Undecided('argument')
            k = A.n * A.n
            x, y = [getvals(Ptr(p.r, p.off, p.t), k, False, p.off) for p in args[1:3]]
            for i, v in cells(f(x, y), False).items():
                m.check(Ptr(args[0].r, args[0].off + i, None), 1)
                args[0].r.cells[args[0].off + i] = v
            return UNK
        r[nm] = g
    return r


# o,w,p: result matrix, vector, packed matrix; e,f: result complex, real; k: hermitian
KIND = {'o': 'M', 'w': 'v', 'p': 'P', 'e': 'c', 'f': 'r', 'k': 'h', 'K': 'h0'}


def sumv(it):
    s = V({})
    for x in it:
        s = vadd(s, x)
    return s


def cells(vals, real):
    r = {}
    for i, v in enumerate(vals):
        if real:
            r[i] = v.re
        else:
            r[2 * i], r[2 * i + 1] = v.re, v.im
    return r


def mkptr(name, vals, t, real=False, undefined=False):
    r = Region(name, len(vals) * (1 if real else 2), 1, {} if undefined else cells(vals, real))
    return Ptr(r, 0, t)


def getvals(p, k, real, off=0):
    if off:
        p = Ptr(Region(p.r.name, None, 1, {i - off: v for i, v in p.r.cells.items()}), 0, p.t)
    out = []
    for i in range(k):
        if real:
            x = p.r.cells.get(i)
            out.append(V(x if isinstance(x, dict) else None))
        else:
            a, b = p.r.cells.get(2 * i), p.r.cells.get(2 * i + 1)
            out.append(V(a if isinstance(a, dict) else None, b if isinstance(b, dict) else None))
    return out


def same(xs, ys):
    return next((i for i, (x, y) in enumerate(zip(xs, ys)) if not veq(x, y)), None)


def runprim(prog, A, F, kinds, alias=None, tiny=False):
    """alias: (result argument, input argument) given the same matrix"""
    args, vals, ptrs = [], [], []
    for i, k in enumerate(kinds):
        kk = KIND.get(k, k)
        v = inputs(A, 'abcdefg'[i], kk)
        vals.append(v)
    for i, k in enumerate(kinds):
        t = F.params[i].type
        if alias and i == alias[0]:
            args.append(None)
        elif t.isptr or t.k == 'arr':
            args.append(mkptr(F.params[i].name, vals[i], t, k == 'f', k in 'owpef'))
        else:
            args.append(vals[i][0])
    if alias:
        args[alias[0]] = Ptr(args[alias[1]].r, 0, F.params[alias[0]].type)
    M = Machine(prog, products(A) if F.name.startswith('gtransform') else None)
    M.tiny = tiny
    M.roots = [a.r for a in args if isinstance(a, Ptr)]
    rv = M.call(F, args)
    return vals, args, rv, M


def verdict(kinds, want, vals, args, rv):
    """None or text"""
    for which, alts in want.items():
        best = None
        for alt in alts:
            if which == 'ret':
                got = [rv if isinstance(rv, V) else V(None, None)]
            else:
                got = getvals(args[which], len(alt), kinds[which] == 'f')
            bad = sunequal(alt.A, got, alt) if isinstance(alt, SU) else same(got, alt)
            if bad is None:
                best = None
                break
            best = best if best is not None else (which, bad, got[bad])
        else:
            w, i, g = best
            what = 'the returned value' if w == 'ret' else 'element %d of the result' % i
            return what + (' is not the polynomial of its definition' if g.re is not None and g.im is not None
                           else ' is not always defined by the arguments (differs between branches or is not assigned)')
    for i, k in enumerate(kinds):
        if k in 'owpef' or i in want or not isinstance(args[i], Ptr):
            continue
        if same(getvals(args[i], len(vals[i]), False), vals[i]) is not None:
            return 'the argument %s is changed' % i
    return None


# --------------------------------------------------------- SU(2) subgroups
def su2(prog, A, out, stat):
    n = A.n
    F = {x: prog.func(x) for x in ('su2_rotate', 'only_subgroup', 'compute_pertinent_indices')}
    pairs = {}
    M0 = Machine(prog)
    M0.call(F['compute_pertinent_indices'], [])
    nsub = n * (n - 1) // 2
    fs = ['su2_rotate', 'shortened_su2_multiply', 'shortened_su2_multiply_dag']

    def embed(s0, s1, p, q):
        e = A.one()
        e[p * n + p], e[p * n + q] = s0, s1
        e[q * n + p], e[q * n + q] = vmul(V(pconst(-1)), vconj(s1)), vconj(s0)
        return e
    for k in range(nsub):
        for fn in fs:
            f = prog.funcs.get(fn)
            if f is None:
                continue
            stat['primitives'] += 1
            U = inputs(A, 'u', 'S')
            s0, s1 = fresh('s', 2)
            M = Machine(prog)
            M.globals_ = M0.globals_
            up = mkptr('U', U, f.params[0].type)
            M.roots = [up.r]
            M.call(f, [up, s0, s1, k])
            got = getvals(up, n * n, False)
            hit = None
            for p in range(n):
                for q in range(n):
                    if p == q:
                        continue
                    e = embed(s0, s1, p, q)
                    w = A.mul(U, A.dag(e)) if fn.endswith('_dag') else A.mul(e, U)
                    if same(got, w) is None:
                        hit = (p, q)
            if hit is None:
                out.append((fn, f, 'subgroup %d: the result is not an embedded SU(2) rotation of the argument' % k))
                continue
            if fn == 'su2_rotate':
                pairs[k] = hit
            stat['proved'] += 1
        f = F['only_subgroup']
        stat['primitives'] += 1
        U, T = fresh('u', n * n), fresh('t', n * n)
        M = Machine(prog)
        M.globals_ = M0.globals_
        a = [mkptr('s0', fresh('x', 1), f.params[0].type, False, True), mkptr('s1', fresh('x', 1), f.params[1].type, False, True),
             mkptr('scale', fresh('x', 1), f.params[2].type, True, True), mkptr('U', U, f.params[3].type),
             mkptr('staple', T, f.params[4].type)]
        M.roots = [x.r for x in a]
        M.call(f, a + [k])
        if k in pairs:
            p, q = pairs[k]
            W = A.mul(U, A.dag(T))
            z0 = vadd(W[p * n + p], vconj(W[q * n + q]))
            z1 = vadd(W[p * n + q], vconj(W[q * n + p]), -1.0)
            g0, g1 = getvals(a[0], 1, False)[0], getvals(a[1], 1, False)[0]
            sc = getvals(a[2], 1, True)[0]
            if sc.re is None or g0.re is None:
                out.append(('only_subgroup', f, 'subgroup %d: the result is not defined by the arguments' % k))
            elif not veq(g0, vmul(z0, sc)) or not veq(g1, vmul(z1, sc)):
                out.append(('only_subgroup', f, 'subgroup %d: not the SU(2) part of U.staple^dagger in the rows su2_rotate turns' % k))
            else:
                stat['proved'] += 1
    if len(pairs) == nsub and len(set(frozenset(x) for x in pairs.values())) != nsub:
        out.append(('su2_rotate', F['su2_rotate'], 'two subgroup indices rotate the same pair of rows, another pair is never updated'))


# -------------------------------------------------------- lattice divergence
def deriv(prog, A, out, stat):
    """Delta = sum_mu A_mu(x-mu) - A_mu(x) and its trace"""
    rec = prog.records.get('site')
    nd = next(f[1].n for f in rec if f[0] == 'back')
    n = A.n
    for fn in ('latt_deriv_AntiHermitian_proj', 'fast_deriv_AntiHermitian_proj'):
        F = prog.funcs.get(fn)
        if F is None:
            continue
        stat['primitives'] += 1
        M = Machine(prog)
        site = next(p.type.e for p in F.params if p.type.isptr and p.type.e.k == 'rec')
        w = M.width(site)
        lat = Region('lat', w * (nd + 1), 1)
        links = {}
        for s in range(nd + 1):
            off = s * w
            for f in M.fields(site):
                name, t = f[0], f[1]
                if name == 'O':
                    rows = Region('O', nd, 1)
                    lat.cells[off] = Ptr(rows, 0, t)
                    for mu in range(nd):
                        u = links[s, mu] = inputs(A, 'u%d_%d_' % (s, mu), 'S')
                        rows.cells[mu] = mkptr('O[mu]', u, t.e)
                else:
                    for mu in range(nd):
                        lat.cells[off + mu] = (1 + mu if name == 'back' else 0) if s == 0 else UNK
                off += M.width(t)
        args = []
        zero = [V({})] * A.h
        sm = None
        for p in F.params:
            if p.type.isptr and p.type.e.k == 'rec':
                args.append(Ptr(lat, 0, p.type))
            elif p.type.isptr or p.type.k == 'arr':
                sm = mkptr('sum', zero, p.type)
                args.append(sm)
            else:
                args.append(0 if p is not F.params[-1] or fn.startswith('fast') else nd)
        M.roots = [lat, sm.r]
        rv = M.call(F, args)
        tot = zero
        for mu in range(nd):
            tot = A.add(tot, A.add(A.pack(A.herm(links[1 + mu, mu])), A.pack(A.herm(links[0, mu])), -1.0))
        got = getvals(sm, A.h, False)
        g = A.unpack(tot, 1)
        want = V(pscale(A.tr(A.mul(g, g)).re, 2.0))
        if same(got, tot) is not None:
            out.append((fn, F, 'element %d of the divergence is not the sum over mu of A(x-mu)-A(x)' % same(got, tot)))
        elif not isinstance(rv, V) or not veq(V(rv.re), want):
            out.append((fn, F, 'the returned value is not 2 tr of the squared divergence'))
        else:
            stat['proved'] += 1


# ------------------------------------------------- routines built on primitives
def static(prog, name):
    return prog.funcs.get(name) or next((F for k, F in prog.funcs.items() if k.split('@')[0] == name), None)


def lie(prog, A, out, stat):
    """contractions with the structure constants"""
    init = static(prog, 'actually_compute_fs_and_ds')
    if init is None or A.n > 3:
        return
    M0 = Machine(prog)
    M0.call(init, [])
    m, tr, one = A.mul, A.tr, lambda x: V(pconst(x))
    com = lambda a, b, s: A.add(m(a, b), m(b, a), s)
    want = {'ifabc_ABC': lambda a, b, c: vmul(one(2), tr(m(com(a, b, -1.0), c))),
            'dabc_ABC': lambda a, b, c: vmul(one(2), tr(m(com(a, b, 1.0), c))),
            'ifabc_dabc_ABC': lambda a, b, c: vmul(one(4), tr(m(m(a, b), c)))}
    for fn, w in sorted(want.items()):
        F = prog.funcs.get(fn)
        if F is None:
            continue
        stat['primitives'] += 1
        a = [A.traceless(fresh(x, A.n * A.n)) for x in 'abc']
        M = Machine(prog)
        M.globals_ = M0.globals_
        p = [mkptr(v.name, x, v.type) for v, x in zip(F.params, a)]
        M.roots = [x.r for x in p]
        rv = M.call(F, p)
        if not isinstance(rv, V) or not veq(rv, w(*a)):
            out.append((fn, F, 'the returned value is not the contraction of the traceless matrices it is documented to be'))
        else:
            stat['proved'] += 1


def projections(prog, A, out, stat):
    """smearing projections, with the exponential and the reunitarisation left abstract"""
    n = A.n
    alpha, al = V(pvar('alpha')), V(pvar('al'))

    def go(fn, kinds, check):
        F = prog.funcs.get(fn)
        if F is None:
            return
        if len(F.params) != len(kinds):
            raise core.AnalysisError('%s has another signature' % fn)
        stat['primitives'] += 1
        seen = []
        E = inputs(A, 'E', 'S')

        def exp(m, args, e):
            short = m.p.funcs[e.fn].params[1].otype
            k = A.h if e.fn.endswith('_short') else n * n
            seen.append((e.fn, getvals(args[1], k, False)))
            for i, v in cells(E, False).items():
                args[0].r.cells[args[0].off + i] = v
            return UNK

        def reunit(m, args, e):
            seen.append((e.fn, [V(args[0].r.cells.get(args[0].off + 2 * i), args[0].r.cells.get(args[0].off + 2 * i + 1))
                                for i in range(n * n)]))
            for i, v in cells(E, False).items():
                args[0].r.cells[args[0].off + i] = v
            return UNK
        M = Machine(prog, {'exponentiate': exp, 'exponentiate_short': exp, 'givens_reunit': reunit, 'nape_reunit': reunit,
                           'gram_reunit': reunit})
        vals, args = [], []
        for i, (k, v) in enumerate(zip(kinds, F.params)):
            if k == 'r':
                args.append(alpha if 'r' not in kinds[:i] else al)
                vals.append(None)
                continue
            x = inputs(A, 'abc'[i], KIND.get(k, k))
            vals.append(x)
            args.append(mkptr(v.name, x, v.type, False, k == 'o'))
        M.roots = [x.r for x in args if isinstance(x, Ptr)]
        M.call(F, args)
        got = getvals(args[0], n * n, False)
        bad = check(vals, seen, got, E)
        if bad:
            out.append((fn, F, bad))
        else:
            stat['proved'] += 1

    def anyof(got, *alts):
        return any(same(got, x) is None for x in alts)

    def ape(v, seen, got, E):
        w = A.add(A.scale(v[2], al), A.scale(v[1], alpha))
        if not seen or not anyof(seen[-1][1], w):
            return 'the matrix reunitarised is not (1-alpha).link + alpha.staple'
        return None if anyof(got, E) else 'the result is not the reunitarised matrix'

    def exped(arg, v, seen, got, E):
        if len(seen) != 1:
            return 'the smeared link is not one exponential times the link'
        fn, x = seen[0]
        if not anyof(x, A.pack(arg) if fn.endswith('_short') else arg):
            return 'the matrix exponentiated is not alpha times the (projected) staple'
        w = A.mul(E, v[2])
        return None if anyof(got, w, A.complete(w)) else 'the result is not exponential times link'

    go('project_APE', 'oMSrr', ape)
    go('project_STOUT', 'oQSrr', lambda v, s, g, E: exped(A.scale(A.herm(A.mul(v[1], A.dag(v[2]))), alpha), v, s, g, E))
    go('project_LOG', 'oKSrr', lambda v, s, g, E: exped(A.scale(v[1], alpha), v, s, g, E))
    # the flow variants take the packed form with both diagonal entries in the first one (SU(3))
    def flow(v, s, g, E):
        h = list(v[1])
        if n == 3:
            h = [V(h[0].re), h[1], h[2], V(h[0].im), h[3]]
        elif n == 2:
            h[0] = V(h[0].re)
        h = A.scale(h, alpha)
        if len(s) == 1 and s[0][0].endswith('_short') and same(s[0][1], h) is None:
            h = None
        if h is not None:
            return 'the matrix exponentiated is not alpha times the packed staple'
        w = A.mul(E, v[2])
        return None if anyof(g, w, A.complete(w)) else 'the result is not exponential times link'
    k = 'oPSr'
    go('project_LOG_wflow_short', k, flow)
    go('project_STOUT_wflow_short', k, flow)


WRITTEN = [('exact_log_slow', 'oS'), ('exact_log_slow_short', 'pS'), ('exponentiate', 'oM'), ('exponentiate_short', 'oP')]
EIGEN = ('Eigenvalues_suNC', 'Eigenvalues_hermitian', 'Eigenvalues')


def written(prog, A, out, stat):
    """routines without an algebraic definition assign their whole result on every path"""
    n = A.n

    def eig(m, args, e):
        for i in range(2 * n):
            args[0].r.cells[args[0].off + i] = None
        return UNK
    for fn, kinds in WRITTEN:
        F = prog.funcs.get(fn)
        if F is None:
            continue
        stat['primitives'] += 1
        M = Machine(prog, {x: eig for x in EIGEN})
        vals = [inputs(A, 'ab'[i], KIND.get(k, k)) for i, k in enumerate(kinds)]
        args = [mkptr(v.name, x, v.type, False, i == 0) for i, (v, x) in enumerate(zip(F.params, vals))]
        M.roots = [x.r for x in args]
        try:
            M.call(F, args)
        except Undecided:
            stat['primitives'] -= 1
            continue
        miss = [i for i in range(2 * len(vals[0])) if i not in args[0].r.cells]
        if miss:
            out.append((fn, F, 'element %d of the result is not assigned on every path' % (miss[0] // 2)))
        else:
            stat['proved'] += 1


def aliases(prog, A, S, stat, decided):
    """which input of a primitive may be its result"""
    bad = {}
    for fn, (kinds, f) in S.items():
        F = prog.funcs.get(fn)
        if F is None or fn not in decided:
            continue
        for i, k in enumerate(kinds):
            if k not in 'owp':
                continue
            for j, q in enumerate(kinds):
                kk = KIND.get(q, q)
                if i == j or q in 'owpefcrv' or (k == 'p') != (kk in 'PHA'):
                    continue
                if k == 'p':
                    continue
                try:
                    vals, args, rv, M = runprim(prog, A, F, kinds, (i, j))
                    want = f(*vals)
                    if verdict(kinds, {w: x for w, x in want.items()}, vals, args, rv) is not None and \
                            same(getvals(args[i], len(vals[i]), False), want[i][0]) is not None and \
                            same(getvals(args[i], len(vals[i]), False), want[i][-1]) is not None:
                        bad.setdefault(fn, set()).add((i, j))
                except (Undecided, Outside):
                    pass
    return bad


PURE = ('ref', 'idx', 'mem', 'int', 'bin', 'un', 'cast', 'const')


def expr_eq(a, b):
    a, b = strip(a), strip(b)
    if a is None or b is None:
        return a is b
    if a.k != b.k or a.k not in PURE:
        return False
    if a.k == 'int':
        return a.v == b.v
    if a.k == 'ref':
        return a.d == b.d
    if a.k == 'un':
        return a.o == b.o and a.o in ('*', '-', '+', '&') and expr_eq(a.e, b.e)
    if a.k == 'mem':
        return a.n == b.n and expr_eq(a.e, b.e)
    if a.k == 'idx':
        return expr_eq(a.a, b.a) and expr_eq(a.i, b.i)
    return a.o == b.o and expr_eq(a.a, b.a) and expr_eq(a.b, b.b)


def analyse(cfg):
    prog = core.load(cfg)
    t = prog.func('multab').params[0].otype
    n = int(round(t.n ** 0.5)) if t is not None and t.k == 'arr' and t.n else None
    if not n:
        raise core.AnalysisError('the size of the matrices of multab is not known (config %s)' % cfg)
    A = Alg(n)
    S = specs(A)
    out, und = [], []
    stat = dict(primitives=0, proved=0, alias_sites=0, products=0)
    decided = set()
    for fn, (kinds, f) in sorted(S.items()):
        F = prog.funcs.get(fn)
        if F is None:
            continue        # replaced by a macro in this build
        if len(F.params) != len(kinds):
            raise core.AnalysisError('%s has another signature (config %s)' % (fn, cfg))
        stat['primitives'] += 1
        try:
            vals, args, rv, M = runprim(prog, A, F, kinds)
            v = verdict(kinds, f(*vals), vals, args, rv)
        except Undecided as e:
            und.append('%s: %s' % (fn, e))
            continue
        except Outside as e:
            out.append((fn, F, 'line %s: access outside the object: %s' % (e.line, e)))
            continue
        decided.add(fn)
        if v:
            out.append((fn, F, v))
        else:
            stat['proved'] += 1
    for g in (su2, deriv, lie, projections, written):
        try:
            g(prog, A, out, stat)
        except Undecided as e:
            und.append('%s: %s' % (g.__name__, e))
        except Outside as e:
            out.append((g.__name__, next(iter(F for F in prog.funcs.values() if F.file == e.file), prog.func('su2_rotate')),
                        'line %s: access outside the object: %s' % (e.line, e)))
    bad = aliases(prog, A, S, stat, decided)
    al = []
    for F in prog.funcs.values():
        for c in walk(F.body):
            if c.k != 'call' or not c.fn:
                continue
            fn = c.fn.split('@')[0]
            if fn not in S:
                continue
            stat['products'] += 1
            for i, j in bad.get(fn, ()):
                stat['alias_sites'] += 1
                if expr_eq(c.args[i], c.args[j]):
                    al.append((fn, F, c.l, text(c)))
    res = [('wrong-algebra', F.file, F.line, fn, msg) for fn, F, msg in out]
    res += [('overwrites-operand', F.file, l, '%s in %s' % (fn, F.name.split('@')[0]),
             '%s overwrites an operand it still reads: %s' % (fn, t)) for fn, F, l, t in al]
    return cfg, res, stat, und, {k: sorted(v) for k, v in bad.items()}


def run(tier, seed):
    res = Result()
    core.dumper_path()
    cfgs = THOROUGH if tier == 'thorough' else QUICK
    with ProcessPoolExecutor(min(8, len(cfgs))) as ex:
        outs = list(ex.map(analyse, cfgs))
    seen, tot, und = {}, {}, set()
    for cfg, rs, stat, u, bad in outs:
        if stat['primitives'] < 40 or stat['proved'] + len(rs) < 0.85 * stat['primitives'] or stat['products'] < 60:
            raise core.AnalysisError('only %s of the matrix primitives can be analysed (configuration %s): %s' % (stat, cfg, u))
        for k, v in stat.items():
            tot[k] = tot.get(k, 0) + v
        und.update(u)
        for r in rs:
            seen.setdefault((r[0], r[1], r[3], r[4]), (r[2], []))[1].append(cfg)
    for (rule, f, fn, msg), (line, cs) in sorted(seen.items()):
        res.add(rule, '%s|%s' % (f, fn), '%s:%d' % (f, line), '%s: %s [configurations: %s]' % (fn, msg, ' '.join(cs)))
    res.coverage = dict(configurations=len(cfgs), primitives=tot['primitives'], proved=tot['proved'],
                        primitive_call_sites=tot['products'], operand_pairs_compared=tot['alias_sites'],
                        undecided=len(und),
                        explanation='Every matrix primitive is interpreted in the domain of polynomials over the entries of '
                        'its arguments (constant loops unrolled, both sides of unknown branches joined, vector intrinsics by '
                        'their lane definition) and the final contents of its result compared with the definition. Rules: '
                        'wrong-algebra, overwrites-operand (a call passes its result also as an operand the primitive still '
                        'reads after the first store).', samples=sorted(und)[:40])
    res.assumptions = ['exact arithmetic', 'special unitary 3x3 products may complete the last row from the others']
    return res
