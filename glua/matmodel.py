"""Typing rules of the colour-matrix primitives (Matrix_Ops): every matrix is a
parallel transporter from one lattice site to another."""
import re
from .absint import *


def mism(x, y):
    return site_ne(x, y)


class Rules(object):
    def __init__(self, it):
        self.it = it

    # -- elementary type operations
    def dag(self, a):
        if isinstance(a, M):
            return M(a.e, a.s, a.link)
        return a if a in (ZEROM, IDM, BOT) else TOPM

    def mul(self, a, b, n, what='product'):
        it = self.it
        for x in (a, b):
            if x is BOT:
                it.alarm('uninit', n, '%s uses a matrix that was never assigned' % what)
                return TOPM
        if a is ZEROM or b is ZEROM:
            return ZEROM
        if a is IDM:
            return b
        if b is IDM:
            return a
        if isinstance(a, M) and isinstance(b, M):
            it.cnt('typed products', n)
            if not site_eq(a.e, b.s):
                if mism(a.e, b.s):
                    it.alarm('product-type', n, '%s of %r and %r: the first ends at %s, the second starts at %s' % (
                        what, a, b, site_str(a.e), site_str(b.s)))
                return TOPM
            return M(a.s, b.e)
        it.cnt('untyped products', n)
        return TOPM

    def add(self, a, b, n, what='sum'):
        it = self.it
        for x in (a, b):
            if x is BOT:
                it.alarm('uninit', n, '%s uses a matrix that was never assigned' % what)
                return TOPM
        if a is ZEROM:
            return b
        if b is ZEROM:
            return a
        if isinstance(a, M) and isinstance(b, M):
            it.cnt('typed sums', n)
            if site_eq(a.s, b.s) and site_eq(a.e, b.e):
                return M(a.s, a.e)
            if mism(a.s, b.s) or mism(a.e, b.e):
                it.alarm('sum-type', n, '%s of matrices of different type: %r and %r' % (what, a, b))
            return TOPM
        if (a is IDM and isinstance(b, M)) or (b is IDM and isinstance(a, M)):
            m = a if isinstance(a, M) else b
            if site_eq(m.s, m.e):
                return m
            if mism(m.s, m.e):
                it.alarm('sum-type', n, '%s of the identity and the open path %r' % (what, m))
            return TOPM
        if a is IDM and b is IDM:
            return IDM
        return TOPM

    def closed(self, a, n, what, link_ok=True):
        """a must be a closed loop; returns its type"""
        it = self.it
        if a is BOT:
            it.alarm('uninit', n, '%s of a matrix that was never assigned' % what)
            return TOPM
        if isinstance(a, M):
            it.cnt('typed traces', n)
            if site_eq(a.s, a.e):
                return a
            if a.link and link_ok:
                return TOPM
            if mism(a.s, a.e):
                it.alarm('open-loop', n, '%s of the open path %r' % (what, a))
            return TOPM
        return a if a in (ZEROM, IDM) else TOPM


def build(it):
    R = Rules(it)
    m = {}

    def scal(it, a, n, st):
        """a scalar result pointer is written"""
        if isinstance(a, P):
            if a.off is None:
                p = it.canon_path(a.path)
            else:
                p = it.canon_path(a.path + (a.off,))
            tt = any(isinstance(x, I) and x.tt for x in p)
            it.rec(a.o, p if a.off is None else p, 'w', n)
            it.store(st, a.o, p, top(True if (it.ws or tt) and it.par is not None else False))

    def g(it, args, i, n, st):
        return it.mget(args[i], n, st)

    DAG = {'': (0, 0), '_dag': (0, 1), 'dag': (1, 0), '_dagdag': (1, 1), 'dagdag': (1, 1)}
    for d in ('', '_dag', 'dag', '_dagdag'):
        for suf in ('', '_suNC', '_SSE', '_suNC_SSE'):
            def f(it, name, args, n, st, d=d):
                if len(args) != 3:
                    return NotImplemented
                b, c = g(it, args, 1, n, st), g(it, args, 2, n, st)
                x, y = DAG[d]
                if x:
                    b = R.dag(b)
                if y:
                    c = R.dag(c)
                it.mset(args[0], R.mul(b, c, n), n, st)
                return TOP
            m['multab' + d + suf] = f

    def left(it, name, args, n, st):
        a, b = g(it, args, 0, n, st), g(it, args, 1, n, st)
        it.mset(args[0], R.mul(b, a, n), n, st)
        return TOP

    def right(it, name, args, n, st):
        a, b = g(it, args, 0, n, st), g(it, args, 1, n, st)
        it.mset(args[0], R.mul(a, b, n), n, st)
        return TOP
    m['multab_atomic_left'] = left
    m['multab_atomic_right'] = right

    # traces: (function, dagger pattern, scalar result by pointer?)
    def trace_of(pat, ptr, herm=False):
        def f(it, name, args, n, st):
            ms = args[1:] if ptr else args
            if len(ms) < len(pat):
                return NotImplemented
            acc = None
            for d, a in zip(pat, ms):
                t = it.mget(a, n, st)
                if d:
                    t = R.dag(t)
                acc = t if acc is None else R.mul(acc, t, n, 'trace of product')
            if len(pat) > 1 and isinstance(acc, M):
                acc = M(acc.s, acc.e)
            R.closed(acc, n, 'trace')
            tt = it.par is not None and any(isinstance(a, P) and (a.o.private or any(
                isinstance(x, I) and x.tt for x in a.path)) for a in ms)
            if ptr:
                scal(it, args[0], n, st)
                if isinstance(args[0], P) and tt:
                    p = it.canon_path(args[0].path if args[0].off is None else args[0].path + (args[0].off,))
                    st.mem[(args[0].o, p)] = TOPT
            return top(tt)
        return f
    m['trace'] = trace_of((0,), False)
    m['speed_trace'] = trace_of((0,), True)
    m['speed_trace_Re'] = trace_of((0,), True)
    m['trace_ab'] = trace_of((0, 0), True)
    m['trace_ab_dag'] = trace_of((0, 1), True)
    m['trace_ab_dag_Re'] = trace_of((0, 1), True)
    m['trace_abc'] = trace_of((0, 0, 0), True)
    m['trace_abc_dag'] = trace_of((0, 0, 1), True)
    m['trace_abc_dag_Re'] = trace_of((0, 0, 1), True)
    m['Re_trace_abc_dag_suNC'] = trace_of((0, 0, 1), False)
    m['complete_plaquette'] = trace_of((0, 0, 1, 1), False)

    def traceless(it, name, args, n, st):
        # hermitian (algebra) products: colour neutral only when both sit at one site
        ts = [it.mget(a, n, st) for a in args[1:]]
        if len(ts) == 2 and all(isinstance(t, M) for t in ts):
            R.closed(R.mul(ts[0], ts[1], n, 'trace of product'), n, 'trace')
        tt = it.par is not None and any(isinstance(a, P) and (a.o.private or any(
            isinstance(x, I) and x.tt for x in a.path)) for a in args[1:])
        scal(it, args[0], n, st)
        if tt and isinstance(args[0], P):
            p = it.canon_path(args[0].path if args[0].off is None else args[0].path + (args[0].off,))
            st.mem[(args[0].o, p)] = TOPT
        return TOP
    for x in ('trace_ab_herm', 'trace_ab_herm_short', 'trace_prod_herm'):
        m[x] = traceless

    def det(it, name, args, n, st):
        t = it.mget(args[-1], n, st)
        if len(args) == 2:
            scal(it, args[0], n, st)
        return top(it.par is not None)
    m['det'] = m['speed_det'] = det

    def copy(it, name, args, n, st):
        t = it.mget(args[1], n, st)
        if t is BOT:
            it.alarm('uninit', n, 'copy of a matrix that was never assigned')
        it.mset(args[0], t, n, st)
        return TOP
    m['equiv'] = copy

    def dag(it, name, args, n, st):
        it.mset(args[0], R.dag(it.mget(args[1], n, st)), n, st)
        return TOP
    m['dagger'] = dag

    def inv(it, name, args, n, st):
        it.mset(args[0], R.dag(it.mget(args[1], n, st)), n, st)
        return TOP
    m['inverse'] = inv

    def unknown(it, name, args, n, st):
        it.mget(args[1], n, st)
        it.mset(args[0], TOPM, n, st)
        return TOP
    m['transpose'] = unknown
    m['cofactor_transpose'] = unknown

    def const(ty):
        def f(it, name, args, n, st):
            it.mset(args[0], ty, n, st)
            return TOP
        return f
    m['zero_mat'] = const(ZEROM)
    m['identity'] = const(IDM)
    m['diag'] = const(IDM)
    m['Sunitary_gen'] = const(TOPM)

    def add2(it, name, args, n, st):
        a, b = g(it, args, 0, n, st), g(it, args, 1, n, st)
        it.mset(args[0], R.add(a, b, n), n, st)
        return TOP
    m['a_plus_b'] = m['a_plus_Sxb'] = m['a_plus_CSxb'] = add2

    def bminc(it, name, args, n, st):
        b, c = g(it, args, 1, n, st), g(it, args, 2, n, st)
        it.mset(args[0], R.add(b, c, n, 'difference'), n, st)
        return TOP
    m['b_min_c'] = bminc

    def axbc(it, name, args, n, st):
        a = g(it, args, 0, n, st)
        b, c = g(it, args, 2, n, st), g(it, args, 3, n, st)
        it.mset(args[0], R.add(a, R.add(b, c, n, 'difference'), n), n, st)
        return TOP
    m['a_plus_Sxbminc_short'] = axbc

    def keep(it, name, args, n, st):
        t = g(it, args, 0, n, st)
        if t is BOT:
            it.alarm('uninit', n, '%s of a matrix that was never assigned' % name)
            t = TOPM
        it.mset(args[0], t, n, st)
        return IC(0) if name == 'nape_reunit' else TOP
    m['M_times_c'] = m['gram_reunit'] = m['givens_reunit'] = m['nape_reunit'] = keep

    def addc(it, name, args, n, st):
        t = g(it, args, 0, n, st)
        it.mset(args[0], R.add(t, IDM, n), n, st)
        return TOP
    m['add_constant'] = addc

    def algebra(it, name, args, n, st):
        t = R.closed(g(it, args, 1, n, st), n, name)
        it.mset(args[0], t, n, st)
        return IC(0)
    for x in ('Hermitian_proj', 'Hermitian_proj_short', 'AntiHermitian_proj', 'AntiHermitian_proj_short',
              'trf_AntiHermitian_proj', 'exact_log_slow', 'exact_log_slow_short', 'exponentiate',
              'exponentiate_short', 'get_iQ', 'matrix_power', 'rebuild_hermitian', 'rebuild_antihermitian',
              'pack_hermitian', 'asinh_log', 'brute_force_log'):
        m[x] = algebra

    def shorten(it, name, args, n, st):
        t = g(it, args, 1, n, st)
        if isinstance(args[0], P) and args[0].off is not None:
            it.mset(args[0], t if isinstance(t, M) else TOPM, n, st)
        return TOP
    m['shorten'] = shorten
    m['rebuild'] = shorten

    def scalars(it, name, args, n, st):
        # reads only
        for a in args:
            if isinstance(a, P):
                it.mget(a, n, st)
        return top(it.par is not None)
    for x in ('is_unitary', 'write_matrix', 'write_matrix_cform', 'write_matrix_mathematica', 'dabc_ABC',
              'ifabc_ABC', 'ifabc_dabc_ABC'):
        m[x] = scalars

    def outs(it, name, args, n, st):
        for a in args[1:]:
            if isinstance(a, P):
                it.mget(a, n, st)
        if isinstance(args[0], P):
            it.mset(args[0], TOPM, n, st)
        return TOP
    for x in ('Eigenvalues', 'Eigenvalues_hermitian', 'Eigenvalues_suNC', 'mat_mult_vec', 'outerproduct',
              'f_hermitian_log_suNC', 'calculate_effs_VDM_herm', 'calculate_effs_VDM_suNC', 'diag_vect',
              'solvandermonde', 'solvandermonde_new'):
        m[x] = outs

    # allocation of temporary link fields
    def alloc_s(it, name, args, n, st):
        o = Obj('%s@%d' % (name, n.l), 's_site', None, private=it.par is not None)
        o.size = args[0].p if isinstance(args[0], I) and args[0].d is None else None
        o.elsize = args[1].p if len(args) > 1 and isinstance(args[1], I) and args[1].d is None else None
        return P(o, (), IC(0))
    m['allocate_s_site'] = alloc_s

    def alloc_lat(it, name, args, n, st):
        o = Obj('%s@%d' % (name, n.l), 'lat', None, private=it.par is not None)
        o.size = it.VOL
        return P(o, (), IC(0))
    m['allocate_lat'] = alloc_lat

    def corr(it, name, args, n, st):
        v = args[0]
        if isinstance(v, P):
            lv = it.deref(v, ()) if v.off is not None else (v.o, v.path)
            st.mem[(lv[0], it.canon_path(lv[1]))] = P(Obj('heap@%d' % n.l, 'heap', None, private=it.par is not None), (), IC(0))
        return IC(0)
    m['GLU_malloc'] = corr

    def nop(it, name, args, n, st):
        return TOP
    for x in ('free_s_site', 'free_lat', 'free', 'fftw_free', 'start_timer', 'print_time', 'fprintf', 'printf', 'fflush',
              'fclose', 'sprintf', 'snprintf'):
        m[x] = nop

    def tid(it, name, args, n, st):
        return I(A('TID'))
    m['get_GLU_thread'] = m['omp_get_thread_num'] = tid

    def rnd(it, name, args, n, st):
        return top(it.par is not None)
    for x in ('par_rng_dbl', 'par_rng_int', 'par_polar_box', 'par_polar'):
        m[x] = rnd
    it.model = m
    return R
