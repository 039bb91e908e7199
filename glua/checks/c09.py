"""C09: random streams are reproducible, one per thread, and resume.

par_rng and the generators are interpreted over opaque seeds (glua/wordmem.py);
what a stream yields is a value graph over its seed.  The graphs are compared
with each other (resumed against continued, with and without draws of other
threads) and, at sampled seeds, with the recurrences that were published."""
import math, random
from concurrent.futures import ProcessPoolExecutor
from .. import core, wordmem as wm
from ..wordmem import T, Cx, Ptr, Region, Machine, mk, Undecided, Outside, Exited, show
from ..common import Result
from .c08 import Fail, latt, setlatt

QUICK = ['nc3', 'nc3opts', 'nc3opts2', 'nc8', 'nc3nosse']
THOROUGH = QUICK + ['nc2', 'nc4', 'nc5nd3', 'nc3single']
NT = 3
GEN = dict(KISS_RNG='KISS', MWC_1038_RNG='MWC1038', MWC_4096_RNG='CMWC4096', XOR_1024_RNG='XOR1024', WELL_512_RNG='WELL512')
M32, M64 = (1 << 32) - 1, (1 << 64) - 1


# ------------------------------------------------- the published recurrences
def lcg(n, s):
    t = [s]
    for j in range(1, n):
        t.append((1812433253 * (t[-1] ^ (t[-1] >> 30)) + j) & M32)
    return t


def ref_kiss(s):
    z = lcg(5, s)
    while True:
        y = z[1]
        y ^= y << 5 & M32
        y ^= y >> 7
        y ^= y << 22 & M32
        z[1] = y
        t = z[2] + z[3] + z[4] & M32
        z[2] = z[3]
        z[4] = t >> 31
        z[3] = t & 0x7fffffff
        z[0] = z[0] + 1411392427 & M32
        yield (z[0] + z[1] + z[3] & M32) * 2.0 ** -32


def ref_mwc1038(s):
    q = lcg(1038, s)
    c, i = q[1037] % 61137367, 1037
    while True:
        t = 611373678 * q[i] + c
        c = t >> 32
        i -= 1
        if i:
            q[i] = t & M32
            yield q[i] * 2.0 ** -32
        else:
            i = 1037
            q[0] = t & M32
            yield q[0] * 2.0 ** -32


def ref_cmwc4096(s):
    q = lcg(4096, s)
    c, i = q[4095] % 809430660, 4095
    while True:
        i = i + 1 & 4095
        t = 18782 * q[i] + c
        c = t >> 32
        x = t + c & M32
        if x < c:
            x, c = x + 1 & M32, c + 1
        q[i] = 0xfffffffe - x & M32
        yield q[i] * 2.0 ** -32


def ref_xor1024(s):
    def L(a, i):
        return (1812433253 * (a ^ (a >> 30)) + i) & M32
    a = [s, L(s, 1)]
    for j in range(1, 16):
        a.append(L(a[-1], 2 * j))
        a.append(L(a[-1], 2 * j + 1))
    q = [a[2 * i] | a[2 * i + 1] << 32 for i in range(16)]
    p = 15
    while True:
        s0 = q[p]
        p = p + 1 & 15
        s1 = q[p]
        s1 ^= s1 << 31 & M64
        s1 ^= s1 >> 11
        s0 ^= s0 >> 30
        q[p] = s0 ^ s1
        yield float(q[p] * 1181783497276652981 & M64) * 5.421010862427522e-20


def ref_well512(s):
    t, i = lcg(16, s), 0
    while True:
        a, c = t[i], t[i + 13 & 15]
        b = (a ^ c ^ a << 16 ^ c << 15) & M32
        c = t[i + 9 & 15]
        c ^= c >> 11
        a = t[i] = b ^ c
        d = a ^ (a << 5 & 0xDA442D24)
        i = i + 15 & 15
        a = t[i]
        t[i] = (a ^ b ^ d ^ a << 2 ^ b << 18 ^ c << 28) & M32
        yield t[i] * 2.0 ** -32


REF = dict(KISS=(ref_kiss, 40), MWC1038=(ref_mwc1038, 2200), CMWC4096=(ref_cmwc4096, 4200), XOR1024=(ref_xor1024, 40), WELL512=(ref_well512, 60))


# -------------------------------------------------- value of a graph at a point
def nodes(ts):
    seen, todo = {}, [t for t in ts if isinstance(t, T)]
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        for a in kids(t):
            if isinstance(a, T) and a.id not in seen:
                todo.append(a)
    return [seen[i] for i in sorted(seen)]


def kids(t):
    if t.op == 'sum':
        return [x for x, _ in wm.lin(t)[0]]
    if t.op == 'xor':
        return list(t.a[0])
    return [a for a in t.a if isinstance(a, T)]


def evaluate(ts, env):
    """the values of graphs when the leaves have the values of env"""
    val = {}

    def g(x):
        return val[x.id] if isinstance(x, T) else x
    for t in nodes(ts):
        o, a = t.op, t.a
        if o in ('word', 'name'):
            v = env[a[0]]
        elif o == 'sum':
            v = (sum(g(x) * k for x, k in wm.lin(t)[0]) + a[2]) & ((1 << 8 * a[0]) - 1)
        elif o == 'xor':
            v = a[1]
            for x in a[0]:
                v ^= g(x)
        elif o == 'shl':
            v = g(a[0]) << a[1] & ((1 << 8 * a[2]) - 1)
        elif o == 'shr':
            v = g(a[0]) >> a[1]
        elif o == 'rot':
            n = 8 * a[2]
            v = (g(a[0]) << a[1] | g(a[0]) >> (n - a[1])) & ((1 << n) - 1)
        elif o == 'and':
            v = g(a[0]) & g(a[1])
        elif o == 'or':
            v = g(a[0]) | g(a[1])
        elif o == 'byte':
            v = g(a[0]) >> (8 * a[1]) & 255
        elif o == 'cat':
            v = sum(g(x) << (8 * i) for i, x in enumerate(a))
        elif o == 'cmp':
            x, y = g(a[1]), g(a[2])
            v = int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[a[0]])
        elif o == 'signed':
            v = g(a[0])
            v -= (v >> (8 * a[1] - 1)) << (8 * a[1])
        elif o == 'i%':
            v = g(a[0]) % g(a[1])
        elif o == 'i/':
            v = g(a[0]) // g(a[1])
        elif o == 'i*':
            v = g(a[0]) * g(a[1])
        elif o == '*':
            v = float(g(a[0])) * float(g(a[1]))
        elif o == '+':
            v = float(g(a[0])) + float(g(a[1]))
        elif o == '/':
            v = float(g(a[0])) / float(g(a[1]))
        elif o == 'neg':
            v = -float(g(a[0]))
        elif o == 'pow':
            v = float(g(a[0])) ** float(g(a[1]))
        elif o in ('sqrt', 'log', 'cos', 'sin', 'fabs', 'exp'):
            v = getattr(math, o)(g(a[0]))
        else:
            raise Undecided('value of %s' % o)
        val[t.id] = v
    return [g(x) for x in ts]


class Rng(object):
    """a machine with its streams seeded by opaque words"""

    def __init__(self, C, first=None, files=None, nt=NT, tag='s'):
        self.C = C
        self.conds = []
        self.memo = {}
        self.first = first
        self.seeds = None
        self.seeded = 0
        self.warm = False
        m = self.m = Machine(C.p, dict(par_rng_dbl=self.dbl))
        self.tag = tag
        for n in C.p.funcs:
            b = n.split('@')[0]
            if b.startswith('GLU_set_par_'):
                m.hooks[b] = self.setter(n)
        m.opened = []
        m.decide = self.decide
        if files is not None:
            m.files.update(files)
        setlatt(m, 'Nthreads', nt)
        r, fs = latt(m)
        f = fs['Seed']
        w = f[1].e.sz if f[1].k == 'arr' else f[1].sz
        self.S = mk('word', 'S' + tag, w or 4)
        m.st(r, f[2], w or 4, self.S)
        self.nt = nt

    def dbl(self, m, a, e):
        if self.warm:
            return 0.5
        return m.call(self.C.func('par_rng_dbl'), a)

    def setter(self, n):
        def f(m, a, e):
            p = a[0]
            self.seeds = [m.ld(p.r, p.off + 4 * i, 4) for i in range(self.nt)]
            self.seeded += 1
            for i in range(self.nt):
                m.st(p.r, p.off + 4 * i, 4, mk('word', '%s%d' % (self.tag, i), 4))
            return m.call(self.C.p.funcs[n], a)
        return f

    def decide(self, t):
        if t.op == 'cmp' and t.a[0] in ('==', '!=') and (t.a[1] is self.S or t.a[2] is self.S):
            return t.a[0] == '!='
        if t not in self.memo:
            self.memo[t] = len(self.conds) == self.first
            self.conds.append((t, self.memo[t]))
        return self.memo[t]

    def init(self, name=None):
        self.warm = True
        rv = self.m.callname('initialise_par_rng', [self.m.string(name) if name else 0])
        self.warm = False
        return rv

    def draw(self, t):
        return self.m.callname('par_rng_dbl', [t])


class Ctx(object):
    def __init__(self, cfg):
        import os, re
        self.cfg = cfg
        self.p = core.load(cfg)
        s = open(os.path.join(core.VERIF, 'configs', cfg, 'config.h')).read()
        self.kind = 'CMWC4096'
        for k, v in GEN.items():
            if re.search(r'^\s*#define\s+%s\b' % k, s, re.M):
                self.kind = v

    def func(self, n):
        F = self.p.funcs.get(n)
        if F is None:
            F = [G for k, G in self.p.funcs.items() if k.split('@')[0] == n][0]
        return F

    def fail(self, what, fn):
        try:
            F = self.func(fn)
        except IndexError:
            F = None
        raise Fail(what, F.line if F is not None else None, F.file if F is not None else None)

    def step(self):
        """the function a stream is drawn from"""
        b = dict(KISS='par_KISS_dbl', MWC1038='par_MWC_1038_dbl', CMWC4096='par_MWC_4096_dbl', XOR1024='par_XOR_1024_dbl', WELL512='par_WELL_512_dbl')[self.kind]
        return b


def same(x, y, cond=()):
    """graphs are equal: by form, or at sampled seeds"""
    if x is y or isinstance(x, float) and x == y:
        return True
    rnd = random.Random(7)
    hit = 0
    leaves = {t.a[0]: t.a[1] for t in nodes([x, y] + [c for c, _ in cond]) if t.op == 'word'}
    for i in range(40):
        env = {n: rnd.getrandbits(8 * w) for n, w in leaves.items()}
        v = evaluate([x, y] + [c for c, _ in cond], env)
        if all(bool(b) == d for b, (_, d) in zip(v[2:], cond)):
            hit += 1
            if v[0] != v[1]:
                return False
            if hit > 6:
                break
    return hit > 0


def ob_seeds(C):
    R = Rng(C)
    if R.init() != 0:
        C.fail('initialise_par_rng reports failure', 'initialise_par_rng')
    if R.seeded != 1:
        C.fail('the generator is seeded %d times' % R.seeded, 'initialise_par_rng')
    for s in [3, 77, 2 ** 32 - 2]:
        v = evaluate(R.seeds, {'Ss': s})
        if len(set(v)) != NT:
            C.fail('threads share a seed', 'initialise_par_rng')
        if evaluate(R.seeds, {'Ss': s}) == evaluate(R.seeds, {'Ss': s + 12345 & M32}):
            C.fail('the seeds of the threads do not depend on the seed of the input file', 'initialise_par_rng')
    if any(t.a[0] != 'Ss' for t in nodes(R.seeds) if t.op in ('word', 'name')):
        C.fail('the seeds depend on more than the seed of the input file', 'initialise_par_rng')
    # a second call leaves the streams as they are
    a = [R.draw(t) for t in range(NT)]
    S = Rng(C)
    S.init()
    S.init()
    if S.seeded != 1 or any(S.draw(t) is not a[t] for t in range(NT)):
        C.fail('a second initialise_par_rng starts the streams anew', 'initialise_par_rng')
    return 8


def ob_pool(C):
    """without a seed of its own it is drawn from the pool"""
    R = Rng(C)
    setlatt(R.m, 'Nthreads', NT)
    r, fs = latt(R.m)
    R.m.st(r, fs['Seed'][2], 4, 0)
    d = R.m.files['/dev/urandom'] = Region('/dev/urandom', 4096)
    for i in range(0, 4096, 4):
        d.cells[i] = (mk('word', 'pool%d' % i, 4), 4)
    if R.init() != 0:
        C.fail('initialise_par_rng reports failure without a seed', 'initialise_par_rng')
    env = {'pool%d' % i: 1000 + 17 * i for i in range(0, 4096, 4)}
    v = evaluate(R.seeds, env)
    if len(set(v)) != NT:
        C.fail('threads share a seed from the pool', 'initialise_par_rng')
    if not any(t.op == 'word' for t in nodes(R.seeds)):
        C.fail('the seed does not come from the pool', 'initialise_par_rng')
    return 2


def ob_isolation(C):
    """a thread's stream depends on its own seed and draws only"""
    A, B = Rng(C), Rng(C)
    A.init()
    B.init()
    a = {t: [A.draw(t) for _ in range(4)] for t in range(NT)}
    b = {t: [] for t in range(NT)}
    for k in range(4):
        for t in reversed(range(NT)):
            b[t].append(B.draw(t))
    for t in range(NT):
        for k in range(4):
            x, y = a[t][k], b[t][k]
            names = set(z.a[0] for z in nodes([x]) if z.op in ('word', 'name'))
            if names - {'s%d' % t}:
                C.fail('the stream of thread %d depends on %s' % (t, ', '.join(sorted(names - {'s%d' % t}))), C.step())
            if not names:
                C.fail('the stream of thread %d does not depend on its seed' % t, C.step())
            if not same(x, y):
                C.fail('the stream of thread %d depends on what other threads draw' % t, C.step())
    return 2 * 4 * NT


def ob_recurrence(C):
    """the numbers are those of the published generator"""
    ref, n = REF[C.kind]
    cnt = 0
    paths = [(None, n, [1, 2 ** 32 - 1, 12345, 0x9e3779b9, 77, 3141592653, 2, 65537])]
    if C.kind == 'CMWC4096':
        s, at = carried()
        paths.append((at, at + 8, [s]))
    for first, n, seeds in paths:
        R = Rng(C, first)
        R.init()
        xs = [R.draw(0) for _ in range(n)]
        if first is not None and not R.conds:
            break
        hit = 0
        for s in seeds:
            v = evaluate(xs + [c for c, _ in R.conds], {'s0': s})
            if any(bool(b) != d for b, (_, d) in zip(v[n:], R.conds)):
                continue
            hit += 1
            g = ref(s)
            for k in range(n):
                w = next(g)
                if not 0 <= v[k] <= 1:
                    C.fail('draw %d of seed %d is %r, outside [0,1]' % (k, s, v[k]), C.step())
                if v[k] != w:
                    C.fail('draw %d of seed %d is %r; the %s generator gives %r' % (k, s, v[k], C.kind, w), C.step())
            cnt += n
            if hit > 2:
                break
        if not hit:
            # the conditions of the code are not those of the generator; draws up to the first difference
            if first is not None:
                continue
            raise Undecided('no seed takes the path')
    return cnt


def carried():
    """a seed and the first draw at which the addition of the carry overflows"""
    s = 1
    while True:
        q = lcg(4096, s)
        c = q[4095] % 809430660
        for k in range(4096):
            t = 18782 * q[k] + c
            c = t >> 32
            x = t + c & M32
            if x < c:
                return s, k
        s += 1


def ob_resume(C):
    """a saved state, read back, gives the numbers that would have followed"""
    A = Rng(C)
    A.init()
    for t in range(NT):
        for _ in range(2 + 3 * t):
            A.draw(t)
    if A.m.callname('write_par_rng_state', [A.m.string('st')]) != 0:
        C.fail('write_par_rng_state reports failure', 'write_par_rng_state')
    B = Rng(C, files=A.m.files, tag='q')
    if B.init('st') != 0:
        C.fail('reading a saved state reports failure (%s)' % tailtext(B.m), 'read_par_rng_state')
    if B.seeded:
        C.fail('a saved state is not used: the streams are seeded anew (%s)' % tailtext(B.m), 'read_par_rng_state')
    n = 0
    for k in range(6):
        for t in range(NT):
            x, y = A.draw(t), B.draw(t)
            if not same(x, y):
                C.fail('draw %d of thread %d after a restart is not the one that followed when the state was saved' % (k, t), 'read_par_rng_state')
            n += 1
        if k == 2:
            B.init()
            if B.seeded:
                C.fail('the first initialise_par_rng after a restart seeds the restored streams anew', 'initialise_par_rng')
    # saved again, the state is the same file
    f1 = A.m.callname('write_par_rng_state', [A.m.string('one')])
    f2 = B.m.callname('write_par_rng_state', [B.m.string('one')])
    a, b = A.m.files['one'], B.m.files['one']
    if f1 != f2 or a.n != b.n:
        C.fail('the state saved after a restart differs', 'write_par_rng_state')
    return n


def tailtext(m):
    s = ''.join(x if isinstance(x, str) else chr(x) if isinstance(x, int) else '#' for x in m.log[-120:]) if m.log else ''
    return ' '.join(s.split())


def ob_foreign(C):
    """a state of another number of threads is not used; one that ends early is not accepted"""
    A = Rng(C)
    A.init()
    A.m.callname('write_par_rng_state', [A.m.string('st')])
    B = Rng(C, files=A.m.files, nt=NT - 1, tag='q')
    rv = B.init('st')
    if rv == 0:
        if not B.seeded:
            C.fail('a state of %d threads is used for %d' % (NT, NT - 1), 'read_par_rng_state')
        for t in range(NT - 1):
            if any(z.a[0].startswith('s') for z in nodes([B.draw(t)]) if z.op == 'word'):
                C.fail('a state of another number of threads is mixed into the streams', 'read_par_rng_state')
    d = A.m.files['st']
    e = Region('short', d.n - 4)
    e.cells = {i: c for i, c in d.cells.items() if i + c[1] <= d.n - 4}
    B = Rng(C, files={'st': e}, tag='q')
    if B.init('st') == 0 and not B.seeded:
        C.fail('a state file that ends early is accepted', 'read_par_rng_state')
    B = Rng(C, tag='q')
    if B.init('nothing') != 0 or B.seeded != 1:
        C.fail('a missing state file does not lead to a new sequence', 'read_par_rng_state')
    return 4


def ob_gaussian(C):
    """deviates derived from the uniform ones"""
    def mach(acc):
        us = []

        def dbl(m, a, e):
            us.append(mk('word', 'u%d' % len(us), 8))
            return us[-1]
        m = Machine(C.p, dict(par_rng_dbl=dbl))
        dec = list(acc)
        conds = []

        def decide(t):
            b = dec.pop(0) if dec else True
            conds.append((t, b))
            return b
        m.decide = decide
        return m, us, conds
    rnd = random.Random(5)
    n = 0
    m, us, _ = mach(())
    x = m.callname('par_polar', [1])
    env = {u.a[0]: rnd.random() for u in us}
    got = evaluate([x], env)[0]
    u, v = env['u0'], env['u1']
    want = math.sqrt(-2 * math.log(u)) * math.cos(2 * math.pi * v)
    if len(us) != 2 or abs(got - want) > 1e-6 * (1 + abs(want)):
        C.fail('par_polar(u=%g, v=%g) is %g, sqrt(-2 log u) cos(2 pi v) is %g' % (u, v, got, want), 'par_polar')
    for path in ((True,), (False, True), (False, False, True)):
        m, us, conds = mach(path)
        z = wm.cx(m.callname('par_polar_box', [1]))
        for _ in range(400):
            env = {u.a[0]: rnd.random() for u in us}
            ts = [z.re, z.im] + [c for c, _ in conds]
            try:
                val = evaluate(ts, env)
            except (ValueError, ZeroDivisionError):
                continue
            if any(bool(b) != d for b, (_, d) in zip(val[2:], conds)):
                continue
            k = 2 * len(path) - 2
            ok = False
            a, b = [2 * env['u%d' % (k + i)] - 1 for i in (0, 1)]
            s = a * a + b * b
            for i in range(len(path)):
                p, q = [2 * env['u%d' % (2 * i + j)] - 1 for j in (0, 1)]
                if (p * p + q * q < 1) != path[i]:
                    C.fail('par_polar_box rejects another region than the outside of the unit disc', 'par_polar_box')
            w = math.sqrt(-math.log(s) / s)
            if len(us) != 2 * len(path) or abs(val[0] - w * a) + abs(val[1] - w * b) > 1e-6 * (1 + w):
                C.fail('par_polar_box is not sqrt(-log s / s) (u + i v)', 'par_polar_box')
            n += 1
            break
    return n + 1


OBS = [('seeds', ob_seeds), ('pool', ob_pool), ('isolation', ob_isolation), ('recurrence', ob_recurrence), ('resume', ob_resume),
       ('foreign-state', ob_foreign), ('gaussian', ob_gaussian)]


def analyse(job):
    cfg, names = job
    C = Ctx(cfg)
    res, und, bad, nums = 0, [], [], 0
    for name, f in OBS:
        if names and name not in names:
            continue
        wm.reset()
        try:
            nums += f(C)
            res += 1
        except (Fail, Outside) as e:
            bad.append((name, (C.kind,), e.file, e.line, str(e)))
        except Undecided as e:
            und.append((name, (C.kind,), str(e)))
        except Exited:
            bad.append((name, (C.kind,), None, None, 'the program is left by exit()'))
        except RecursionError:
            und.append((name, (C.kind,), 'recursion'))
    return cfg, res, und, bad, nums


def run(tier, seed):
    res = Result()
    core.dumper_path()
    cfgs = THOROUGH if tier == 'thorough' else QUICK
    with ProcessPoolExecutor(8) as ex:
        outs = list(ex.map(analyse, [(c, None) for c in cfgs]))
    tot = nums = 0
    und, seen = [], {}
    for cfg, n, u, bad, k in outs:
        tot += n + len(u) + len(bad)
        nums += k
        und += [(cfg,) + x for x in u]
        for name, key, file, line, msg in bad:
            seen.setdefault((name, key[0], file, msg), (line, []))[1].append(cfg)
    if len(und) > tot // 2:
        raise core.AnalysisError('%d of %d obligations are undecided: %s' % (len(und), tot, und[:3]))
    for (name, kind, file, msg), (line, cs) in sorted(seen.items(), key=str):
        file = file or 'src/Utils/par_rng.c'
        res.add(name, '%s|%s|%s' % (name, kind, file), '%s:%s' % (file, line or 0), '%s: %s [configurations: %s]' % (kind, msg, ' '.join(sorted(set(cs)))))
    res.coverage = dict(configurations=len(cfgs), obligations=tot, decided=tot - len(und), undecided=len(und), numbers_compared=nums,
                        explanation='The generators are interpreted over opaque seeds. Rules: seeds (threads have different seeds, all of '
                        'them functions of the seed of the input file; a second initialisation changes nothing), pool, isolation (a stream '
                        'depends on its own seed and draws only), recurrence (value graphs of the draws equal the published generator at '
                        'sampled seeds, on either side of each condition; values in [0,1]), resume (a saved state that is read gives the '
                        'draws that would have followed and is not seeded over), foreign-state, gaussian.',
                        samples=['%s %s %s: %s' % x for x in und[:20]])
    res.assumptions = ['the warm-up draws are taken to be the same for every thread', 'this machine is little endian']
    return res
