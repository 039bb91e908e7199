"""C08: configurations read back as they were written.

The writer (write_configuration), the stream and the reader (read_file) are
interpreted over opaque words (glua/wordmem.py) on lattices of fixed small
extents: every real number of the field is an opaque word, so what is shown
holds for every field.  The stream is compared with the definition of the
format, and what is read back with what was written."""
import itertools, time, traceback
from concurrent.futures import ProcessPoolExecutor
import numpy as np
from .. import core, wordmem as wm
from ..wordmem import T, Cx, Ptr, Region, Machine, mk, Undecided, Outside, Exited, show
from ..common import Result

QUICK = ['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc3single', 'nc2single']
THOROUGH = QUICK + ['nc8', 'nc3opts2', 'nc4nosse', 'nc3opts', 'nc2nosse', 'nc3nosse', 'nc4gsl']
DIMS = {2: [(4, 6)], 3: [(2, 4, 6)], 4: [(2, 4, 2, 2)], 5: [(2, 4, 2, 2, 2)]}
# formats with an order of sites of their own
ODD = {4: [(2, 4, 6, 2), (4, 2, 2, 6)]}


class Fail(Exception):
    def __init__(self, what, line=None, file=None):
        Exception.__init__(self, what)
        self.line, self.file = line, file


# ------------------------------------------------------------ the machine
def words(r, off, n, m):
    return tuple((v if isinstance(v, (T, int, float)) else 'p', s) for _, v, s in m.get_range(r, off, n))


def _crc(m, a, e):
    if not isinstance(a[1], Ptr):
        m.badptr(a[1], 0)
    m.chk(a[1].r, a[1].off, a[2])
    return mk('crc', a[0], words(a[1].r, a[1].off, a[2], m))


def _ckadd(m, a, e):
    if not isinstance(a[0], Ptr):
        m.badptr(a[0], 0)
    m.chk(a[0].r, a[0].off, a[1])
    m.ck = m.ck + words(a[0].r, a[0].off, a[1], m)
    return 0


def _ckget(m, a, e):
    v = mk('cksum', m.ck)
    m.ck = ()
    m.st(a[0].r, a[0].off, 4, v)
    m.chk(a[1].r, a[1].off, 4)
    m.st(a[1].r, a[1].off, 4, mk('name', 'bytes'))
    return 0


def _memalign(m, a, e):
    p = wm._malloc(m, [a[2]], e)
    m.st(a[0].r, a[0].off, 8, p)
    return 0


def _det(m, a, e):
    n, p = a
    t = p.t.e
    w = t.sz
    A = [[m.load(p.r, p.off + (i * n + j) * w, t) for j in range(n)] for i in range(n)]
    tot = Cx(0.0, 0.0)
    for perm in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if perm[j] > perm[i]:
                    s = -s
        x = Cx(float(s), 0.0)
        for i in range(n):
            x = m.arith('*', x, A[i][perm[i]], t)
        tot = m.arith('+', tot, x, t)
    return tot


def _shorten(m, a, e):
    out, O = a
    z = O.t.e.sz
    N = m.NC
    es = []
    for k in range(N * N):
        v = m.load(O.r, O.off + k * z, O.t.e)
        es += [v.re, v.im]
    key = tuple(es)
    for j in range(N * N - 1):
        m.store(out.r, out.off + j * (z // 2), out.t.e, mk('short', key, j))
    return 0


def _rebuild(m, a, e):
    O, u = a
    N = m.NC
    z = O.t.e.sz
    ws = [m.load(u.r, u.off + j * (z // 2), u.t.e) for j in range(N * N - 1)]
    k0 = ws[0].a[0] if isinstance(ws[0], T) and ws[0].op == 'short' else None
    ok = k0 is not None and all(isinstance(w, T) and w.op == 'short' and w.a[0] == k0 and w.a[1] == j for j, w in enumerate(ws))
    for k in range(N * N):
        v = Cx(k0[2 * k], k0[2 * k + 1]) if ok else Cx(mk('rebuilt', tuple(ws), 2 * k), mk('rebuilt', tuple(ws), 2 * k + 1))
        m.store(O.r, O.off + k * z, O.t.e, v)
    return 0


def nop(m, a, e):
    return 0


def decide(t):
    """two different opaque words differ (all but a set of measure zero)"""
    if t.op == 'cmp':
        if t.a[0] == '==':
            return False
        if t.a[0] == '!=':
            return True
        if t.a[0] in ('>', '>='):
            x, y = t.a[1], t.a[2]
            if isinstance(x, T) and x.op == 'fabs' and isinstance(y, (int, float)):
                return True
            if isinstance(y, int) and y > 1 << 60:
                return False
    return None


def machine(prog, NC, ND, single, fast, plaq='plaquette', tr='trace'):
    h = dict(crc32=_crc, CKSUM_ADD=_ckadd, CKSUM_GET=_ckget, posix_memalign=_memalign, LU_det_overwrite=_det,
             shorten=_shorten, rebuild=_rebuild, gram_reunit=nop, latt_reunitU=nop, start_timer=nop, print_time=nop,
             compute_pertinent_indices=nop, ferror=nop, omp_get_num_threads=lambda m, a, e: 1,
             get_date=lambda m, a, e: m.string('today', e.t),
             have_memory_gauge=nop,
             have_memory_readers_writers=lambda m, a, e: m.fast if fast else m.fast + 1,
             av_plaquette=lambda m, a, e: m.plaq, links=lambda m, a, e: m.tr)
    m = Machine(prog, h)
    m.opened = []
    m.ck = ()
    m.NC, m.ND, m.single_prec = NC, ND, single
    m.plaq, m.tr = mk('name', plaq), mk('name', tr)
    m.fast = prog.enumconst['FAST'][1]
    m.decide = decide
    return m


def latt(m):
    r = m.gname('Latt')
    rec = [v.type.r for v in m.p.globals.values() if v.name == 'Latt'][0]
    return r, {f[0]: f for f in m.p.records[rec]}


def setdims(m, dims):
    r, fs = latt(m)
    o = fs['dims'][2]
    for i, d in enumerate(dims):
        m.st(r, o + 8 * i, 8, d)


def getdims(m):
    r, fs = latt(m)
    return tuple(m.ld(r, fs['dims'][2] + 8 * i, 8) for i in range(m.ND))


def setlatt(m, name, v):
    r, fs = latt(m)
    f = fs[name]
    m.store(r, f[2], f[1], v)


def link(m, lat, i, mu):
    """(region, offset) of the link matrix"""
    st = m.p.records['site']
    sz = m.sitesize
    o = [f for f in st if f[0] == 'O'][0][2]
    p = m.ld(lat.r, lat.off + i * sz + o, 8)
    q = m.ld(p.r, p.off + 8 * mu, 8)
    return q.r, q.off


def fill(m, lat, V):
    w = 4 if m.single_prec else 8
    N2 = 2 * m.NC ** 2
    for i in range(V):
        for mu in range(m.ND):
            r, o = link(m, lat, i, mu)
            for k in range(N2):
                m.st(r, o + k * w, w, mk('u', i, mu, k))


def field(m, lat, V):
    w = 4 if m.single_prec else 8
    N2 = 2 * m.NC ** 2
    out = {}
    for i in range(V):
        for mu in range(m.ND):
            r, o = link(m, lat, i, mu)
            for k in range(N2):
                out[i, mu, k] = m.ld(r, o + k * w, w, True)
    return out


# --------------------------------------------------- numbers for the words
class Point(object):
    """a random SU(N) field and the values the words take on it"""

    def __init__(self, NC, seed):
        self.NC = NC
        self.rng = np.random.default_rng(seed)
        self.U = {}
        self.memo = {}

    def mat(self, i, mu):
        k = (i, mu)
        if k not in self.U:
            N = self.NC
            q, r = np.linalg.qr(self.rng.normal(size=(N, N)) + 1j * self.rng.normal(size=(N, N)))
            q = q / np.linalg.det(q) ** (1.0 / N)
            self.U[k] = q
        return self.U[k]

    def val(self, t):
        if isinstance(t, (int, float)):
            return float(t)
        v = self.memo.get(t)
        if v is None:
            v = self.memo[t] = self._val(t)
        return v

    def _val(self, t):
        if t.op == 'u':
            z = self.mat(t.a[0], t.a[1]).flat[t.a[2] // 2]
            return z.imag if t.a[2] & 1 else z.real
        if t.op == '+':
            return self.val(t.a[0]) + self.val(t.a[1])
        if t.op == '*':
            return self.val(t.a[0]) * self.val(t.a[1])
        if t.op == '/':
            return self.val(t.a[0]) / self.val(t.a[1])
        if t.op == 'neg':
            return -self.val(t.a[0])
        return 1e3 + 7.7 * (hash((t.op, t.id)) % 1009)


def compare(m, got, V, what, NC):
    """every link is the one that was written"""
    bad = None
    pts = None
    n = 0
    for i in range(V):
        for mu in range(m.ND):
            for k in range(2 * NC * NC):
                g = got[i, mu, k]
                want = mk('u', i, mu, k)
                n += 1
                if g is want:
                    continue
                if pts is None:
                    pts = [Point(NC, s) for s in (1, 2)]
                if isinstance(g, (T, float, int)) and all(abs(p.val(g) - p.val(want)) < 1e-9 for p in pts):
                    continue
                raise Fail('%s: %s of link mu=%d at site %d, entry %d, is read back as %s' %
                           (what, 'imaginary part' if k & 1 else 'real part', mu, i, k // 2, show(g)))
    return n


# --------------------------------------------------- definitions of formats
def siteindex(x, dims):
    i = 0
    for d in reversed(range(len(dims))):
        i = i * dims[d] + x[d]
    return i


def short(m, i, mu):
    key = tuple(mk('u', i, mu, k) for k in range(2 * m.NC ** 2))
    return [mk('short', key, j) for j in range(m.NC ** 2 - 1)]


def plain(m, kind, dims, V):
    """the reals of the NERSC style formats, in order"""
    N = m.NC
    for i in range(V):
        for mu in range(m.ND):
            if kind == 'SMALL':
                for w in short(m, i, mu):
                    yield w
            else:
                for k in range(2 * (N * N - N if kind == 'GAUGE' else N * N)):
                    yield mk('u', i, mu, k)


def hirep(m, dims):
    ND, N = m.ND, m.NC
    order = [ND - 1] + list(range(ND - 1))     # t, x, y, z: z fastest
    for c in itertools.product(*[range(dims[d]) for d in order]):
        x = [0] * ND
        for d, v in zip(order, c):
            x[d] = v
        i = siteindex(x, dims)
        for mu in order:
            if N == 2:
                # the quaternion components
                yield mk('u', i, mu, 0)
                yield mk('u', i, mu, 3)
                yield wm.rneg(mk('u', i, mu, 2))
                yield mk('u', i, mu, 1)
            else:
                for k in range(2 * N * N):
                    yield mk('u', i, mu, k)


def cern(m, dims):
    N = m.NC
    for t in range(dims[3]):
        for x in range(dims[0]):
            for y in range(dims[1]):
                for z in range(dims[2]):
                    if (x + y + z + t) % 2 == 0:
                        continue
                    for mu in (3, 0, 1, 2):
                        c = [x, y, z, t]
                        i = siteindex(c, dims)
                        for k in range(2 * N * N):
                            yield mk('u', i, mu, k)
                        c[mu] = (c[mu] - 1) % dims[mu]
                        i = siteindex(c, dims)
                        for k in range(2 * N * N):
                            yield mk('u', i, mu, k)


def ordered(v, n, big):
    """how the word stands in the file, as this machine (little endian) sees it"""
    return wm.from_bytes(list(reversed(wm.bytes_of(v, n)))) if big else v


def checksum_words(ws, n):
    """the sum of the 32 bit words of the data in the order of this machine"""
    s = 0
    for v in ws:
        if n == 4:
            s = wm.ladd(s, as_int(v, 4), 4)
        else:
            b = wm.bytes_of(v, 8)
            s = wm.ladd(s, wm.ladd(wm.from_bytes(b[:4]), wm.from_bytes(b[4:]), 4), 4)
    return s


def as_int(v, n):
    return wm.from_bytes(wm.bytes_of(v, n)) if isinstance(v, float) else v


def rot(w, r):
    return w if r == 0 else wm.iop('|', wm.iop('<<', w, r, 4, 0), wm.iop('>>', w, 32 - r, 4, 0), 4, 0)


def milc_sums(ws, n):
    a = b = 0
    for i, v in enumerate(ws):
        if n == 8:
            x = wm.bytes_of(v, 8)
            w = wm.ladd(wm.from_bytes(x[:4]), wm.from_bytes(x[4:]), 4)
        else:
            w = as_int(v, 4)
        a, b = wm.lxor(a, rot(w, i % 29), 4), wm.lxor(b, rot(w, i % 31), 4)
    return a, b


def crc_sums(m, ws, n, V, big=True):
    per = len(ws) // V
    a = b = 0
    for i in range(V):
        w = mk('crc', 0, tuple((ordered(v, n, big), n) for v in ws[i * per:(i + 1) * per]))
        a, b = wm.lxor(a, rot(w, i % 29), 4), wm.lxor(b, rot(w, i % 31), 4)
    return a, b


class Out(object):
    """a stream being composed"""

    def __init__(self):
        self.r = Region('file', 0)

    def text(self, *parts):
        for s in parts:
            if isinstance(s, T):
                self.word(s, 1)
            else:
                for c in s:
                    self.word(ord(c), 1)
        return self

    def word(self, v, n):
        self.r.cells[self.r.n] = (v, n)
        self.r.n += n
        return self

    def ints(self, vs, big):
        for v in vs:
            self.word(ordered(v, 4, big), 4)
        return self

    def reals(self, vs, n, big):
        for v in vs:
            self.word(ordered(v, n, big), n)
        return self


def fmtw(spec, v):
    return mk('fmt', spec, v)


def compose(m, fmt, prec, big, dims, V, P, TR):
    """a file of the format, from its definition"""
    o = Out()
    n = 8 if prec == 'D' else 4
    if fmt in ('SMALL', 'GAUGE', 'NCxNC'):
        ws = list(plain(m, fmt, dims, V))
        o.text('BEGIN_HEADER\n', 'HDR_VERSION = 1.0\n', 'DATATYPE = %dD_SU%d_GAUGE%s\n' % (
            m.ND, m.NC, {'SMALL': '_SMALL', 'GAUGE': '', 'NCxNC': '_%dx%d' % (m.NC, m.NC)}[fmt]))
        o.text('STORAGE_FORMAT = 1.0\n')
        for mu in range(m.ND):
            o.text('DIMENSION_%d = %d\n' % (mu + 1, dims[mu]))
        o.text('CHECKSUM = ', fmtw('%x', checksum_words(ws, n)), '\nLINK_TRACE = ', fmtw('%f', TR),
               '\nPLAQUETTE = ', fmtw('%f', P), '\n')
        o.text('SEQUENCE_NUMBER = 137\nFLOATING_POINT = IEEE%s%s\nEND_HEADER\n' % ('64' if n == 8 else '32', 'BIG' if big else 'LITTLE'))
        return o.reals(ws, n, big), len(ws)
    if fmt == 'MILC':
        ws = list(plain(m, 'NCxNC', dims, V))
        o.ints([20104 if n == 8 else 20103] + list(dims), big).text('x' * 64).ints([0], big)
        o.ints(milc_sums(ws, n), big)
        return o.reals(ws, n, big), len(ws)
    if fmt == 'JLQCD':
        ws = list(plain(m, 'NCxNC', dims, V))
        return o.reals(ws, 8, True), len(ws)
    if fmt == 'HIREP':
        ws = list(hirep(m, dims))
        o.ints([m.NC, dims[-1]] + list(dims[:-1]), True).reals([P], 8, True)
        return o.reals(ws, 8, True), len(ws)
    if fmt == 'CERN':
        ws = list(cern(m, dims))
        o.ints([dims[-1]] + list(dims[:-1]), False).reals([wm.rmul(float(m.NC), P)], 8, False)
        return o.reals(ws, 8, False), len(ws)
    if fmt in ('SCIDAC', 'ILDG', 'BQCD', 'LIME'):
        ws = list(plain(m, 'NCxNC', dims, V))
        xml = '<?xml version="1.0" encoding="UTF-8"?>'

        def rec(name, *parts, **kw):
            t = Out().text(*parts)
            size = kw.get('size', t.r.n)
            o.ints([1164413355], True).word(0, 1).word(1, 1).word(0x80, 1).word(0, 1)
            o.word(ordered(size, 8, True), 8)
            for c in name.ljust(128, '\0'):
                o.word(ord(c), 1)
            for off in sorted(t.r.cells):
                o.word(*t.r.cells[off])
            if 'size' not in kw:
                while o.r.n % 8:
                    o.word(0, 1)
        if fmt == 'SCIDAC':
            rec('scidac-private-file-xml', xml + '<scidacFile><version>1.1</version><spacetime>%d</spacetime><dims>%s</dims>'
                '<volfmt>0</volfmt></scidacFile>' % (m.ND, ' '.join(map(str, dims))))
            rec('scidac-private-record-xml', xml + '<scidacRecord><version>1.0</version><date>now</date><datatype>QDP</datatype>'
                '<precision>%s</precision><colors>%d</colors><typesize>%d</typesize><datacount>%d</datacount></scidacRecord>'
                % (prec, m.NC, m.ND * m.NC ** 2 * 2 * (n // 4), m.ND))
        else:
            f = ''.join('<%s>%d</%s>' % (t, dims[mu], t) for mu, t in
                        [(mu, 'lt' if mu == m.ND - 1 else ['lx', 'ly', 'lz', 'l3'][mu]) for mu in range(m.ND)])
            rec('ildg-format', xml + '<ildgFormat><version>1.0</version><field>su%dgauge</field><precision>%d</precision>%s</ildgFormat>'
                % (m.NC, 8 * n, f))
        rec('scidac-binary-data' if fmt == 'SCIDAC' else 'ildg-binary-data', size=n * len(ws))
        o.reals(ws, n, True)
        if fmt == 'BQCD':
            rec('bqcd-plaquette', fmtw('%f', P))
            rec('bqcd-cksum', fmtw('%lu', mk('cksum', tuple((ordered(v, n, True), n) for v in ws))))
        elif fmt != 'LIME':
            a, b = crc_sums(m, ws, n, V)
            rec('scidac-checksum', xml + '<scidacChecksum><version>1.0</version><suma>', fmtw('%x', a), '</suma><sumb>', fmtw('%x', b),
                '</sumb></scidacChecksum>')
        return o, len(ws)
    raise KeyError(fmt)


# ------------------------------------------------------------- obligations
HEAD = dict(SMALL='NERSC_HEADER', GAUGE='NERSC_HEADER', NCxNC='NERSC_HEADER', MILC='MILC_HEADER', SCIDAC='SCIDAC_HEADER',
            ILDG='ILDG_SCIDAC_HEADER', HIREP='HIREP_HEADER', CERN='CERN_HEADER', JLQCD='JLQCD_HEADER', BQCD='ILDG_BQCD_HEADER',
            LIME='LIME_HEADER')
TRAILING = ('SCIDAC', 'ILDG', 'BQCD')
WRITERS = dict(HIREP='write_gauge_field', CERN='write_CLS_field')
READERS = dict(HIREP='read_gauge_field', CERN='read_CLS_field')


class Ctx(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.p = core.load(cfg)
        st = self.p.records.get('site')
        if st is None:
            raise core.AnalysisError('struct site has vanished (config %s)' % cfg)
        self.ND = [f for f in st if f[0] == 'neighbor'][0][1].n
        self.sitesize = 8 + 16 * self.ND
        t = [f for f in st if f[0] == 'O'][0][1]
        while t.k == 'ptr':
            t = t.e
        self.single = t.sz == 8
        self.NC = self.find_nc()

    def find_nc(self):
        import os, re
        s = open(os.path.join(core.VERIF, 'configs', self.cfg, 'config.h')).read()
        mt = re.search(r'^\s*#define\s+NC\s+(\d+)', s, re.M)
        return int(mt.group(1)) if mt else 3

    def machine(self, fast=True, **kw):
        m = machine(self.p, self.NC, self.ND, self.single, fast, **kw)
        m.sitesize = self.sitesize
        return m

    def enum(self, n):
        if n not in self.p.enumconst:
            raise core.AnalysisError('%s has vanished' % n)
        return self.p.enumconst[n][1]

    def where(self, fn):
        F = self.p.funcs.get(fn)
        if F is None:
            for k, G in self.p.funcs.items():
                if k.split('@')[0] == fn:
                    F = G
        return (F.file, F.line) if F is not None else (None, None)

    # ---- writing
    def write(self, fmt, dims, fast):
        m = self.machine(fast)
        setdims(m, dims)
        setlatt(m, 'head', self.enum('UNIT_GAUGE'))
        setlatt(m, 'flow', 137)
        m.callname('init_latt', [])
        lat = m.callname('allocate_lat', [])
        V = int(np.prod(dims))
        fill(m, lat, V)
        rv = m.callname('write_configuration', [lat, m.string('cfg'), self.enum('OUTPUT_' + fmt), m.string('note')])
        if rv != 0:
            raise Fail('writing a %s configuration reports failure (%s)' % (fmt, tail(m)), *self.where('write_lat')[::-1])
        got = field(m, lat, V)
        for (i, mu, k), v in got.items():
            if v is not mk('u', i, mu, k):
                raise Fail('writing a %s configuration changes the field: link mu=%d at site %d' % (fmt, mu, i), *self.where('write_lat')[::-1])
        self.leaks(m, lat, 'writing')
        return m, m.files['cfg']

    def leaks(self, m, lat, what):
        for h in m.opened:
            if h.live:
                raise Fail('%s leaves %s open' % (what, h.name))

    # ---- reading
    def read(self, data, fmt, fast, dims, **kw):
        m = self.machine(fast, **kw)
        d = Region('contents of cfg', data.n)
        d.cells = dict(data.cells)
        m.files['cfg'] = d
        if fmt == 'JLQCD':
            setdims(m, dims)
        else:
            setdims(m, [0] * self.ND)
        setlatt(m, 'head', self.enum(HEAD[fmt]))
        hd = [k for k in self.p.records if k == 'head_data']
        H = Region('HEAD_DATA', 40)
        p = m.callname('read_file', [Ptr(H, 0, None), m.string('cfg')])
        return m, p, H

    def readback(self, data, fmt, fast, dims, what, **kw):
        m, p, H = self.read(data, fmt, fast, dims, **kw)
        V = int(np.prod(dims))
        if not isinstance(p, Ptr):
            raise Fail('%s is rejected (%s)' % (what, tail(m)), *self.where('read_file')[::-1])
        if getdims(m) != tuple(dims):
            raise Fail('%s: a %s lattice is read as %s' % (what, 'x'.join(map(str, dims)), 'x'.join(map(str, getdims(m)))))
        self.leaks(m, p, what)
        return m, compare(m, field(m, p, V), V, what, self.NC)


def tail(m):
    s = ''.join(chr(c) if isinstance(c, int) else '#' for l in m.log[-3:] for c in l)
    return ' '.join(s.split())[-160:]


def datastart(fmt, data, nd):
    """offset of the first of the nd reals"""
    return nd


def obligations(C):
    fm = ['GAUGE', 'NCxNC', 'MILC', 'SCIDAC', 'ILDG', 'HIREP']
    if C.NC < 4:
        fm.insert(0, 'SMALL')
    if C.NC == 3 and C.ND == 4:
        fm.append('CERN')
    return fm


def writer_of(fmt):
    return WRITERS.get(fmt, 'write_binary_data')


def reader_of(fmt, fast):
    return READERS.get(fmt, 'lattice_reader_suNC' if fast else 'lattice_reader_suNC_cheaper')


def header_checks(C, m, fmt, data, ws, dims, V):
    """the header says what the format defines"""
    prec = 4 if C.single else 8
    if fmt in ('SMALL', 'GAUGE', 'NCxNC'):
        txt, i = [], 0
        lines = []
        while True:
            c = m.ld(data, i, 1)
            i += 1
            if c == 10:
                lines.append(txt)
                if ''.join(x if isinstance(x, str) else '#' for x in txt) == 'END_HEADER':
                    break
                txt = []
            else:
                txt.append(chr(c) if isinstance(c, int) else c)
        kv = {}
        for l in lines:
            s = ''.join(x if isinstance(x, str) else '\1' for x in l)
            if ' = ' in s:
                a, b = s.split(' = ', 1)
                kv[a] = [x for x in l[len(a) + 3:]]
        wf = C.where('write_header_NERSC')

        def need(k, want):
            v = kv.get(k)
            if v is None:
                raise Fail('the NERSC header has no %s' % k, wf[1], wf[0])
            if isinstance(want, tuple):
                if not (len(v) == 1 and isinstance(v[0], T) and v[0].op == 'fmt' and v[0].a[1] is want[0] and v[0].a[0][-1] in want[1]):
                    raise Fail('%s of the NERSC header is %s, not the %s of the configuration' % (
                        k, ''.join(x if isinstance(x, str) else show(x) for x in v), want[2]), wf[1], wf[0])
            elif ''.join(x if isinstance(x, str) else '#' for x in v) != want:
                raise Fail('%s of the NERSC header is "%s", expected "%s"' % (
                    k, ''.join(x if isinstance(x, str) else '#' for x in v), want), wf[1], wf[0])
        for mu in range(C.ND):
            need('DIMENSION_%d' % (mu + 1), str(dims[mu]))
        need('DATATYPE', '%dD_SU%d_GAUGE%s' % (C.ND, C.NC, {'SMALL': '_SMALL', 'GAUGE': '', 'NCxNC': '_%dx%d' % (C.NC, C.NC)}[fmt]))
        need('FLOATING_POINT', 'IEEE%dBIG' % (8 * prec))
        need('SEQUENCE_NUMBER', '137')
        need('CHECKSUM', (checksum_words(ws, prec), 'xX', 'sum of the words'))
        need('PLAQUETTE', (m.plaq, 'feEgG', 'plaquette'))
        need('LINK_TRACE', (m.tr, 'feEgG', 'link trace'))
        return 7 + C.ND


def one(C, fmt, dims, fast):
    """writes, compares with the definition, reads back"""
    V = int(np.prod(dims))
    tag = '%s, %s' % (fmt, 'whole field' if fast else 'piece by piece')
    m, data = C.write(fmt, dims, fast)
    # definition
    big = fmt != 'CERN'
    n = 8 if fmt in ('HIREP', 'CERN') else 4 if C.single else 8
    if fmt == 'HIREP':
        ws = list(hirep(m, dims))
    elif fmt == 'CERN':
        ws = list(cern(m, dims))
    else:
        ws = list(plain(m, fmt if fmt in ('SMALL', 'GAUGE') else 'NCxNC', dims, V))
    wf, wl = C.where(writer_of(fmt))
    header_checks(C, m, fmt, data, ws, dims, V)
    if fmt in ('MILC', 'HIREP', 'CERN'):
        o, _ = compose(m, fmt, 'F' if n == 4 else 'D', big, dims, V, m.plaq, m.tr)
        start = o.r.n - n * len(ws)
        if data.n != o.r.n:
            raise Fail('%s: the file has %d bytes, the format defines %d' % (tag, data.n, o.r.n), wl, wf)
        i = 0
        while i < start:
            v, k = o.r.cells[i]
            if k > 1 or i < 4:
                g = m.ld(data, i, k, isinstance(v, float))
                if g is not v and g != v:
                    raise Fail('%s: the header word at byte %d is %s, the format defines %s' % (tag, i, show(g), show(v)),
                               *C.where('write_header_MILC' if fmt == 'MILC' else writer_of(fmt))[::-1])
            i += k
    elif fmt in ('SMALL', 'GAUGE', 'NCxNC'):
        start = data.n - n * len(ws)
    else:
        # after the record header of the binary data
        start = None
        name = ('scidac' if fmt == 'SCIDAC' else 'ildg') + '-binary-data'
        i = 0
        while i + 144 <= data.n and start is None:
            s = wm.cstr(m, Ptr(data, i + 16, None))
            if ''.join(chr(c) if isinstance(c, int) else '#' for c in s) == name:
                start = i + 144
            ln = m.ld(data, i + 8, 8)
            ln = int.from_bytes(int(ln).to_bytes(8, 'little'), 'big') if isinstance(ln, int) else 0
            i += 144 + ln + (-ln) % 8
        if start is None:
            raise Fail('%s: no record %s follows the other records' % (tag, name), *C.where('write_header_' + fmt)[::-1])
    if start < 0 or data.n < start + n * len(ws):
        raise Fail('%s: %d bytes of data are written, the format defines %d' % (tag, data.n - max(start, 0), n * len(ws)), wl, wf)
    # the values the memory holds, at the precision of the file
    for j, w in enumerate(ws):
        want = ordered(w, n, big)
        g = m.ld(data, start + j * n, n)
        if g is want or g == want:
            continue
        raise Fail('%s: number %d of the file is %s, the format defines %s' % (tag, j, show(g), show(want)), wl, wf)
    # and back
    what = '%s configuration written by %s' % (fmt, writer_of(fmt) if fast or fmt in WRITERS else 'write_binary_data_cheap')
    for rf in (True, False) if fmt not in READERS else (True,):
        m2, k = C.readback(data, fmt, rf, dims, what)
    return len(ws)


def variants(C, dims):
    """files of every documented kind, composed from the definitions"""
    out = []
    kinds = ['GAUGE', 'NCxNC'] + (['SMALL'] if C.NC < 4 else [])
    for f in kinds:
        for prec in 'DF':
            for big in (True, False):
                out.append((f, prec, big))
    for prec in 'DF':
        for big in (True, False):
            out.append(('MILC', prec, big))
        out += [('SCIDAC', prec, True), ('ILDG', prec, True), ('BQCD', prec, True), ('LIME', prec, True)]
    out += [('JLQCD', 'D', True), ('HIREP', 'D', True)]
    if C.NC == 3 and C.ND == 4:
        out.append(('CERN', 'D', False))
    if C.ND > 4:
        out = [v for v in out if v[0] not in ('ILDG', 'BQCD', 'LIME')]
    return out


def variant(C, fmt, prec, big, dims, fast):
    V = int(np.prod(dims))
    m = C.machine()
    o, n = compose(m, fmt, prec, big, dims, V, m.plaq, m.tr)
    what = 'a %s file (%s precision, %s endian)' % (fmt, 'double' if prec == 'D' else 'single', 'big' if big else 'little')
    m2, k = C.readback(o.r, fmt, fast, dims, what)
    # a file that ends early is not accepted
    w = 8 if prec == 'D' else 4
    if fmt not in TRAILING + ('LIME',):
        d = Region('short', o.r.n - w)
        d.cells = {i: c for i, c in o.r.cells.items() if i < o.r.n - w}
        m3, p, _ = C.read(d, fmt, fast, dims)
        if isinstance(p, Ptr):
            raise Fail('%s that ends one number early is accepted' % what, *C.where(reader_of(fmt, fast))[::-1])
    # a file whose data do not fit its checksums is not accepted
    if fmt not in ('JLQCD', 'LIME'):
        d = Region('altered', o.r.n)
        d.cells = dict(o.r.cells)
        if fmt not in ('HIREP', 'CERN'):
            i = [j for j, c in sorted(d.cells.items()) if c[1] == w and isinstance(c[0], T) and c[0].op != 'fmt'][-3]
            d.cells[i] = (mk('name', 'altered'), w)
        m3, p, _ = C.read(d, fmt, fast, dims, plaq='another plaquette', tr='another trace')
        if isinstance(p, Ptr):
            raise Fail('%s with altered data is accepted' % what, *C.where('check_sums')[::-1])
    return n


def overwrite(C, dims):
    """an existing file is not written over"""
    m = C.machine()
    setdims(m, dims)
    m.callname('init_latt', [])
    lat = m.callname('allocate_lat', [])
    fill(m, lat, int(np.prod(dims)))
    d = m.files['cfg'] = Region('existing', 4)
    d.cells = {0: (1, 4)}
    rv = m.callname('write_configuration', [lat, m.string('cfg'), C.enum('OUTPUT_NCxNC'), m.string('note')])
    if m.files['cfg'] is not d or d.n != 4 or d.cells != {0: (1, 4)}:
        raise Fail('write_configuration writes over an existing file', *C.where('write_configuration')[::-1])
    if rv == 0:
        raise Fail('write_configuration reports success when it refuses to write', *C.where('write_configuration')[::-1])
    return 1


def analyse(job):
    cfg, part, parts, thorough = job
    C = Ctx(cfg)
    dimss = DIMS[C.ND]
    jobs = []
    for f in obligations(C):
        for d in ODD.get(C.ND, dimss) if f in WRITERS else dimss:
            for fast in (True, False):
                if f in WRITERS and not fast:
                    continue
                jobs.append(('roundtrip', (f, d, fast), lambda f=f, d=d, fast=fast: one(C, f, d, fast)))
    d = tuple(sorted(dimss[0]))[:]
    d = {2: (2, 4), 3: (2, 2, 4), 4: (2, 2, 2, 4), 5: (2, 2, 2, 2, 2)}[C.ND]
    for f, prec, big in variants(C, d):
        for fast in (True, False):
            if f in READERS and not fast:
                continue
            jobs.append(('reads', (f, prec, big, fast), lambda f=f, p=prec, b=big, fast=fast: variant(C, f, p, b, d, fast)))
    jobs.append(('no-overwrite', (), lambda: overwrite(C, d)))
    res, und, bad, nums = 0, [], [], 0
    funs = set()
    for name, key, f in jobs[part::parts]:
        wm.reset()
        try:
            nums += f()
            res += 1
        except Fail as e:
            bad.append((name, key, e.file, e.line, str(e)))
        except Outside as e:
            bad.append((name, key, e.file, e.line, str(e)))
        except Undecided as e:
            und.append((name, key, str(e)))
        except Exited as e:
            bad.append((name, key, None, None, 'the program is left by exit()'))
        except RecursionError:
            und.append((name, key, 'recursion'))
    return cfg, res, und, bad, nums


def run(tier, seed):
    res = Result()
    core.dumper_path()
    cfgs = THOROUGH if tier == 'thorough' else QUICK
    parts = {c: 8 if c in ('nc8', 'nc5nd3') or c.startswith('nc4') else 3 for c in cfgs}
    jobs = [(c, i, parts[c], tier == 'thorough') for c in sorted(cfgs, key=lambda c: -parts[c]) for i in range(parts[c])]
    with ProcessPoolExecutor(8) as ex:
        outs = list(ex.map(analyse, jobs))
    tot = nums = 0
    und = []
    seen = {}
    for cfg, n, u, bad, k in outs:
        tot += n + len(u) + len(bad)
        nums += k
        und += [(cfg,) + x for x in u]
        for name, key, file, line, msg in bad:
            fmt = key[0] if key else ''
            seen.setdefault((name, fmt, file, msg), (line, []))[1].append(cfg)
    if tot < 30 * len(cfgs):
        raise core.AnalysisError('only %d obligations were found' % tot)
    if len(und) > tot // 2:
        raise core.AnalysisError('%d of %d obligations are undecided: %s' % (len(und), tot, und[:3]))
    for (name, fmt, file, msg), (line, cs) in sorted(seen.items(), key=str):
        file = file or 'src/IO/readers.c'
        res.add(name, '%s|%s|%s' % (name, fmt, file), '%s:%s' % (file, line or 0), '%s [configurations: %s]' % (msg, ' '.join(sorted(set(cs)))))
    res.coverage = dict(configurations=len(cfgs), obligations=tot, decided=tot - len(und), undecided=len(und), numbers_compared=nums,
                        explanation='Every real of the field is an opaque word; write_configuration, the stream and read_file are '
                        'interpreted over words with normal forms for byte swaps, half words, sums, xors and rotations. Rules: '
                        'roundtrip (the stream is what the format defines, header and data, and reading it gives the field back, '
                        'by both readers and both writers), reads (files of every documented kind, precision and endianness '
                        'composed from the definition are read; one that ends early or whose data were altered is rejected), '
                        'no-overwrite.',
                        samples=['%s %s %s: %s' % x for x in und[:20]])
    res.assumptions = ['lattices of fixed small extents stand for all: %s' % DIMS,
                       'reunitarisation leaves an SU(N) link as it is', 'shorten and rebuild are inverse (property C05/C06)',
                       'different opaque checksums are different numbers', 'this machine is little endian']
    return res
