"""Abstract interpretation of C at the level of memory words.

Memory objects are byte addressed; a cell holds an integer, a number, a pointer
or an opaque *word*: a value of which only the origin is known (the real part of
entry k of the mu link of site x, the checksum in a header, ...).  Words are
hash-consed terms; taking them apart into bytes, putting the bytes back, swapping
them, shifting, rotating, adding modulo 2^n and xor-ing have normal forms, so
that two words that are equal for every value of the opaque ones are the same
object.  Indices, extents and loop bounds are concrete: the lattice has fixed
small extents.  A condition on an opaque word that its form does not decide
gives no answer (Undecided); an access outside an object is an Outside."""
import itertools, random, struct
from . import core
from .core import cval, walk


class Undecided(Exception):
    pass


class Outside(Exception):
    def __init__(self, what, line=None, file=None):
        Exception.__init__(self, what)
        self.line, self.file = line, file


class Exited(Exception):
    pass


# -------------------------------------------------------------------- words
class T(object):
    __slots__ = ('op', 'a', 'id')

    def __repr__(self):
        return show(self)


_TAB = {}


def mk(op, *a):
    k = (op,) + a
    t = _TAB.get(k)
    if t is None:
        t = _TAB[k] = T()
        t.op, t.a, t.id = op, a, len(_TAB)
    return t


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 3:
        return '..'
    if t.op == 'u':
        s, mu, k = t.a
        return '%s U_%d(site %d)[%d]' % ('im' if k & 1 else 're', mu, s, k // 2)
    if t.op == 'name':
        return str(t.a[0])
    if t.op == 'sum':
        return 'sum of %d words' % _AUX[t][1]
    x = [show(y, d + 1) if not isinstance(y, tuple) else '(%d terms)' % len(y) for y in t.a[:4]]
    return '%s(%s%s)' % (t.op, ', '.join(x), ', ..' if len(t.a) > 4 else '')


class Cx(object):
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im


class Fn(object):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


# reals: python floats and words
def isn(x):
    return isinstance(x, (int, float))


def radd(a, b):
    if isn(a) and isn(b):
        return float(a) + float(b)
    if isn(a) and a == 0:
        return b
    if isn(b) and b == 0:
        return a
    if isinstance(a, T) and a.op == 'neg' and a.a[0] is b or isinstance(b, T) and b.op == 'neg' and b.a[0] is a:
        return 0.0
    return mk('+', a, b)


def rneg(a):
    if isn(a):
        return -float(a)
    return a.a[0] if a.op == 'neg' else mk('neg', a)


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    if isn(a) and isn(b):
        return float(a) * float(b)
    if isn(b):
        a, b = b, a
    if isn(a):
        if a == 0:
            return 0.0
        if a == 1:
            return b
        if a == -1:
            return rneg(b)
    return mk('*', a, b)


def rdiv(a, b):
    if isn(a) and isn(b):
        return float(a) / float(b) if b else float('inf')
    if isn(b) and b == 1:
        return a
    if isn(a) and a == 0:
        return 0.0
    if isn(b) and b:
        if a.op == '*' and isn(a.a[0]):
            return rmul(float(a.a[0]) / b, a.a[1])
        return rmul(1.0 / b, a) if b in (2, 4, 0.5) else mk('/', a, b)
    return mk('/', a, b)


def cx(v):
    return v if isinstance(v, Cx) else Cx(v, 0.0)


# ---------------------------------------------------- integers of known size
def bytes_of(v, n):
    if isinstance(v, int):
        v &= (1 << (8 * n)) - 1
        return [(v >> (8 * i)) & 255 for i in range(n)]
    if isinstance(v, float):
        return list(struct.pack('<d' if n == 8 else '<f', v))
    if isinstance(v, T):
        if v.op == 'cat' and len(v.a) >= n:
            return list(v.a[:n])
        if v.op == 'cat':
            return list(v.a) + [0] * (n - len(v.a))
        return [mk('byte', v, i, n) for i in range(n)]
    raise Undecided('bytes of a pointer')


def from_bytes(bs, flt=False):
    if all(isinstance(b, int) for b in bs):
        if flt:
            return struct.unpack('<d' if len(bs) == 8 else '<f', bytes(bs))[0]
        return sum(b << (8 * i) for i, b in enumerate(bs))
    b = bs[0]
    if isinstance(b, T) and b.op == 'byte' and b.a[1] == 0:
        v, n = b.a[0], b.a[2]
        if n <= len(bs) and all(isinstance(x, T) and x.op == 'byte' and x.a[0] is v and x.a[1] == i and x.a[2] == n
                                for i, x in enumerate(bs[:n])) and all(x == 0 for x in bs[n:]):
            return v
    if len(bs) == 1:
        return bs[0]
    return mk('cat', *bs)


# A sum is known by its fingerprint; its terms are kept aside, in a dictionary
# that sums growing from one another share (the first n items belong to each).
_AUX = {}
_RND = {}
_rnd = random.Random(20171)


def reset():
    """forgets every word (those made before may not be used any more)"""
    for x in (_TAB, _AUX, _RND):
        x.clear()


def rnd(t):
    r = _RND.get(t)
    if r is None:
        r = _RND[t] = _rnd.getrandbits(128)
    return r


_M128 = (1 << 128) - 1


def lin(v, w=None):
    """(terms (word, coefficient), constant) modulo 2^(8w)"""
    if isinstance(v, int):
        return (), v
    if v.op == 'sum' and not (w is not None and v.a[0] < w):
        d, n = _AUX[v]
        return (list(d.items()) if len(d) == n else list(itertools.islice(d.items(), n))), v.a[2]
    return ((v, 1),), 0


def width(v):
    """the bytes an integer word takes, when they are known"""
    if isinstance(v, int):
        return 0
    if v.op == 'sum':
        return v.a[0]
    if v.op in ('shl', 'shr', 'rot'):
        return v.a[2]
    if v.op == 'word':
        return v.a[1]
    if v.op == 'xor':
        ws = [width(x) for x in v.a[0]]
        return None if None in ws else max(ws)
    return None


def mksum(n, d, c, fp=None, m=None):
    if not d:
        return c
    if c == 0 and len(d) == 1 and m is None:
        (t, k), = d.items()
        if k == 1:
            return t
    if fp is None:
        fp = sum(rnd(t) * (2 * k + 1) for t, k in d.items()) & _M128
    v = mk('sum', n, fp, c)
    if v not in _AUX:
        _AUX[v] = (d, len(d))
    return v


def ladd(a, b, n, s=1):
    M = 1 << (8 * n)
    size = lambda v: 0 if isinstance(v, int) else _AUX[v][1] if v.op == 'sum' and v.a[0] >= n else 1
    if s == 1 and size(b) > size(a):
        a, b = b, a
    if isinstance(a, T) and a.op == 'sum' and a.a[0] == n:
        d, k = _AUX[a]
        if len(d) == k:
            y, cy = lin(b, n)
            if not any(t in d for t, _ in y):
                fp = a.a[1]
                for t, q in y:
                    q = q * s % M
                    if q:
                        d[t] = q
                        fp += rnd(t) * (2 * q + 1)
                return mksum(n, d, (a.a[2] + s * cy) % M, fp & _M128, True)
    (x, c), (y, d) = lin(a, n), lin(b, n)
    if len(y) > len(x) and s == 1:
        x, y = y, x
    r = dict(x)
    for t, k in y:
        z = (r.get(t, 0) + s * k) % M
        if z:
            r[t] = z
        else:
            r.pop(t, None)
    return mksum(n, r, (c + s * d) % M)


def lxor(a, b, n):
    def xs(v):
        if isinstance(v, int):
            return (), v
        return (v.a[0], v.a[1]) if v.op == 'xor' else ((v,), 0)
    (x, c), (y, d) = xs(a), xs(b)
    r = dict.fromkeys(x)
    for t in y:
        if t in r:
            del r[t]
        else:
            r[t] = None
    c ^= d
    if not r:
        return c
    if len(r) == 1 and c == 0:
        return next(iter(r))
    return mk('xor', tuple(sorted(r, key=lambda z: z.id)), c)


def iop(o, a, b, n, sg):
    """integer arithmetic on n bytes with at least one word"""
    if o == '+':
        return ladd(a, b, n)
    if o == '-':
        return ladd(a, b, n, -1)
    if o == '^':
        return lxor(a, b, n)
    if o in ('<<', '>>') and isinstance(b, int):
        if b == 0:
            return a
        if b >= 8 * n:
            return a if b == 8 * n else 0     # the shift count is taken modulo the width by the machine, either is folded by the |
        if b % 8 == 0:
            bs, k = bytes_of(a, n), b // 8
            return from_bytes([0] * k + bs[:n - k] if o == '<<' else bs[k:] + [0] * k)
        return mk('shl' if o == '<<' else 'shr', a, b, n)
    if o == '&' and (isinstance(a, int) or isinstance(b, int)):
        w, m = (a, b) if isinstance(b, int) else (b, a)
        m &= (1 << (8 * n)) - 1
        ms = bytes_of(m, n)
        if all(x in (0, 255) for x in ms):
            return from_bytes([x if y else 0 for x, y in zip(bytes_of(w, n), ms)])
        return mk('and', w, m)
    if o == '|':
        if a is b:
            return a
        if a == 0 or b == 0:
            return b if a == 0 else a
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and isinstance(y, T) and x.op == 'shl' and y.op == 'shr' and x.a[0] is y.a[0] and x.a[1] + y.a[1] == 8 * n:
                return mk('rot', x.a[0], x.a[1], n)
        if all(not isinstance(z, T) or z.op not in ('shl', 'shr', 'sum', 'xor') for z in (a, b)):
            x, y = bytes_of(a, n), bytes_of(b, n)
            if all(p == 0 or q == 0 for p, q in zip(x, y)):
                bs = [q if p == 0 else p for p, q in zip(x, y)]
                # a rotation by whole bytes
                v = from_bytes(bs)
                if isinstance(v, T) and v.op == 'cat' and all(isinstance(z, T) and z.op == 'byte' and z.a[0] is bs[0].a[0] and z.a[2] == n for z in bs):
                    k = bs[0].a[1]
                    if all(z.a[1] == (k + i) % n for i, z in enumerate(bs)):
                        return mk('rot', bs[0].a[0], 8 * (n - k), n)
                return v
        return mk('or', *sorted((a, b), key=lambda z: z.id if isinstance(z, T) else -1))
    if o == '*' and (isinstance(a, int) or isinstance(b, int)):
        w, m = (a, b) if isinstance(b, int) else (b, a)
        r, c = lin(w, n)
        M = 1 << (8 * n)
        d = {t: k * m % M for t, k in r}
        d = {t: k for t, k in d.items() if k}
        return mksum(n, d, c * m % M)
    if o in ('==', '!='):
        if a is b:
            return int(o == '==')
        return mk('cmp', o, a, b)
    if o in ('<', '>', '<=', '>='):
        if a is b:
            return int('=' in o)
        if sg:
            a, b = [mk('signed', x, n) if isinstance(x, T) and width(x) == n else x for x in (a, b)]
        return mk('cmp', o, a, b)
    return mk('i' + o, a, b)


# ------------------------------------------------------------------- memory
class Region(object):
    __slots__ = ('name', 'n', 'cells', 'live', 'heap', 'pos', 'err', 'zero')

    def __init__(self, name, n, heap=False):
        self.name, self.n, self.cells, self.live, self.heap = name, n, {}, True, heap
        self.pos = 0
        self.zero = False


class Ptr(object):
    __slots__ = ('r', 'off', 't')

    def __init__(self, r, off, t):
        self.r, self.off, self.t = r, off, t


def isflt(t):
    return t.k in ('flt', 'float', 'real', 'double')


def kindof(t):
    k = t.k
    if k in ('int', 'enum', 'bool'):
        return 'i'
    if k == 'cplx':
        return 'c'
    if isflt(t):
        return 'f'
    if k == 'ptr' or k == 'fn':
        return 'p'
    if k == 'arr':
        return 'a'
    if k == 'rec':
        return 'r'
    return k or '?'


BRK, CONT = 'brk', 'cont'


class Machine(object):
    def __init__(self, prog, hooks=None, maxsteps=200000000):
        self.p = prog
        self.hooks = dict(LIBC)
        self.hooks.update(hooks or {})
        self.glob = {}
        self.statics = {}
        self.fcache = {}
        self.line = self.file = None
        self.depth = 0
        self.funs = set()
        self.strs = {}
        self.log = []
        self.tok = None
        self.decide = None
        self.heap = []
        self.files = {}
        self.std = Region('standard stream', None)

    # ----------------------------------------------------------- raw memory
    def bad(self, what):
        raise Outside(what, self.line, self.file)

    def chk(self, r, off, n):
        if not r.live:
            self.bad('%s is used after it was released' % r.name)
        if off < 0 or r.n is not None and off + n > r.n:
            self.bad('access at byte %d..%d of %s, which has %s bytes' % (off, off + n - 1, r.name, r.n))

    def ld(self, r, off, n, flt=False):
        c = r.cells.get(off)
        if c is not None and c[1] == n:
            v = c[0]
            if flt:
                if v.__class__ is int:
                    return from_bytes(bytes_of(v, n), True)
            elif v.__class__ is float:
                return from_bytes(bytes_of(v, n))
            return v
        # assemble
        bs = []
        i = off
        while i < off + n:
            c = r.cells.get(i)
            if c is not None:
                k = min(c[1], off + n - i)
                bs += bytes_of(c[0], c[1])[:k]
                i += k
                continue
            for d in range(1, 8):
                c = r.cells.get(i - d)
                if c is not None:
                    if c[1] > d:
                        k = min(c[1] - d, off + n - i)
                        bs += bytes_of(c[0], c[1])[d:d + k]
                        i += k
                    else:
                        c = None
                    break
            if c is None:
                if not r.zero:
                    bs.append(mk('uninit', r.name))
                else:
                    bs.append(0)
                i += 1
        if all(isinstance(b, T) and b.op == 'uninit' for b in bs):
            return bs[0]
        return from_bytes(bs, flt)

    def st(self, r, off, n, v):
        cells = r.cells
        c = cells.get(off)
        if c is not None and c[1] == n:
            cells[off] = (v, n)
            return
        self.clear(r, off, n)
        cells[off] = (v, n)

    def clear(self, r, off, n):
        """makes room: cells that straddle the range are split into bytes"""
        cells = r.cells
        for d in range(1, 8):
            c = cells.get(off - d)
            if c is not None:
                if c[1] > d:
                    for i, b in enumerate(bytes_of(c[0], c[1])):
                        cells[off - d + i] = (b, 1)
                break
        if n > 4 * len(cells) + 64:
            for i in [i for i in cells if off <= i < off + n]:
                c = cells.pop(i)
                if i + c[1] > off + n:
                    for j, b in enumerate(bytes_of(c[0], c[1])):
                        if i + j >= off + n:
                            cells[i + j] = (b, 1)
            return
        i = off
        while i < off + n:
            c = cells.pop(i, None)
            if c is not None and i + c[1] > off + n:
                for j, b in enumerate(bytes_of(c[0], c[1])):
                    if i + j >= off + n:
                        cells[i + j] = (b, 1)
            i += c[1] if c is not None else 1

    def get_range(self, r, off, n):
        """[(relative offset, value, size)]"""
        out = []
        i = off
        cells = r.cells
        while i < off + n:
            c = cells.get(i)
            if c is None:
                d = 1
                while d < 8 and i == off:
                    c = cells.get(i - d)
                    if c is not None:
                        break
                    d += 1
                if i == off and c is not None and c[1] > d:
                    bs = bytes_of(c[0], c[1])[d:]
                    for j, b in enumerate(bs[:off + n - i]):
                        out.append((i - off + j, b, 1))
                    i += len(bs)
                    continue
                if r.zero:
                    out.append((i - off, 0, 1))
                i += 1
                continue
            if i + c[1] > off + n:
                for j, b in enumerate(bytes_of(c[0], c[1])[:off + n - i]):
                    out.append((i - off + j, b, 1))
            else:
                out.append((i - off, c[0], c[1]))
            i += c[1]
        return out

    def put_range(self, r, off, n, items):
        self.clear(r, off, n)
        for o, v, s in items:
            r.cells[off + o] = (v, s)

    def copy(self, rd, od, rs, os_, n):
        if n <= 0:
            return
        self.chk(rd, od, n)
        self.chk(rs, os_, n)
        self.put_range(rd, od, n, self.get_range(rs, os_, n))

    def load(self, r, off, t):
        k = kindof(t)
        if k == 'a':
            return Ptr(r, off, t)
        if k == 'r':
            return Ptr(r, off, t)
        n = t.sz
        self.chk(r, off, n)
        if k == 'c':
            h = n // 2
            return Cx(self.ld(r, off, h, True), self.ld(r, off + h, h, True))
        v = self.ld(r, off, n, k == 'f')
        if k == 'i':
            if v.__class__ is int and t.sg and v >> (8 * n - 1) == 1:
                v -= 1 << (8 * n)
            elif v.__class__ is int and not t.sg and v < 0:
                v += 1 << (8 * n)
        elif k == 'p':
            if isinstance(v, Ptr):
                return Ptr(v.r, v.off, t)
        return v

    def store(self, r, off, t, v):
        k = kindof(t)
        n = t.sz
        if k == 'r' or k == 'a':
            if not isinstance(v, Ptr):
                raise Undecided('aggregate value')
            return self.copy(r, off, v.r, v.off, n)
        self.chk(r, off, n)
        if k == 'c':
            v = cx(v)
            h = n // 2
            self.st(r, off, h, v.re)
            self.st(r, off + h, h, v.im)
        else:
            self.st(r, off, n, self.conv(v, t))

    def conv(self, v, t):
        k = kindof(t)
        if k == 'i':
            if v.__class__ is int:
                n = t.sz or 4
                if t.k == 'bool':
                    return int(bool(v))
                if t.sg:
                    m = 1 << (8 * n - 1)
                    if -m <= v < m:
                        return v
                    v &= (m << 1) - 1
                    return v - (m << 1) if v & m else v
                if 0 <= v:
                    return v if v >> (8 * n) == 0 else v & ((1 << (8 * n)) - 1)
                return v & ((1 << (8 * n)) - 1)
            if v.__class__ is float:
                return int(v)
            if isinstance(v, T):
                if v.op == 'sum' and v.a[0] > (t.sz or 4):
                    M = 1 << (8 * t.sz)
                    return mksum(t.sz, {x: c % M for x, c in lin(v)[0] if c % M}, v.a[2] % M)
                if v.op == 'cat' and len(v.a) > (t.sz or 4):
                    return from_bytes(v.a[:t.sz])
                if t.sz and t.sz < 8:
                    w = width(v)
                    if w is not None and w > t.sz:
                        return from_bytes(bytes_of(v, w)[:t.sz])
                return v
            if isinstance(v, Ptr):
                return v
            raise Undecided('conversion to an integer')
        if k == 'f':
            if v.__class__ is int:
                return float(v)
            if isinstance(v, Cx):
                return v.re
            if v.__class__ is float and t.sz == 4:
                return struct.unpack('<f', struct.pack('<f', v))[0]
            if isinstance(v, T) and t.sz == 4 and self.single is not None:
                return self.single(v)
            return v
        if k == 'c':
            return cx(float(v) if v.__class__ is int else v)
        if k == 'p':
            if isinstance(v, Ptr):
                return v if v.t is t else Ptr(v.r, v.off, t)
            return v
        return v

    single = None

    # ------------------------------------------------------------- globals
    def gvar(self, vid):
        r = self.glob.get(vid)
        if r is None:
            v = self.p.vars.get(vid)
            if v is None:
                raise Undecided('unknown object')
            r = self.glob[vid] = Region(v.name, v.type.sz)
            r.zero = True
            if v.name in ('stdout', 'stderr', 'stdin'):
                r.cells[0] = (Ptr(self.std, 0, v.type), 8)
            elif v.init is not None:
                self.initv(r, 0, v.type, v.init, {})
        return r

    def gname(self, name):
        for k, v in self.p.globals.items():
            if v.name == name:
                return self.gvar(k)
        raise Undecided('no object %s' % name)

    def field(self, rec, name):
        fs = self.p.records.get(rec)
        for f in fs or ():
            if f[0] == name:
                return f
        raise Undecided('no member %s' % name)

    def string(self, s, t=None):
        r = self.strs.get(s)
        if r is None:
            bs = s.encode('latin-1', 'replace') if isinstance(s, str) else s
            r = self.strs[s] = Region('string literal', len(bs) + 1)
            for i, b in enumerate(bs + b'\0'):
                r.cells[i] = (b, 1)
        return Ptr(r, 0, t)

    # ---------------------------------------------------------- functions
    def code(self, F):
        c = self.fcache.get(F.key)
        if c is None:
            c = self.fcache[F.key] = Comp(self, F).run()
        return c

    def call(self, F, args):
        c = self.code(F)
        self.depth += 1
        if self.depth > 60:
            raise Undecided('recursion')
        self.funs.add(F.name)
        env = {}
        for i, v in enumerate(F.params):
            a = args[i]
            t = v.type
            if t.k == 'rec':
                r = env[v.id] = Region(v.name, t.sz)
                if not isinstance(a, Ptr):
                    raise Undecided('aggregate argument')
                self.copy(r, 0, a.r, a.off, t.sz)
            elif v.id in c.inreg:
                env[v.id] = self.conv(a, t) if t.k != 'arr' else a
            else:
                r = env[v.id] = Region(v.name, t.sz if t.k != 'arr' else 8)
                if t.k == 'arr':
                    r.cells[0] = (a, 8)
                elif kindof(t) == 'p':
                    r.cells[0] = (a, 8)
                else:
                    self.store(r, 0, t, a)
        sv = self.file, self.line
        self.file = F.file
        s = c.body(env)
        self.file, self.line = sv
        self.depth -= 1
        v = s[1] if s.__class__ is tuple else None
        if v is not None and F.ret is not None and F.ret.s != 'void' and F.ret.k != 'rec':
            v = self.conv(v, F.ret)
        if isinstance(v, Ptr) and F.ret is not None and F.ret.k == 'rec':
            r = Region('value of %s' % F.name, F.ret.sz)
            self.copy(r, 0, v.r, v.off, F.ret.sz)
            v = Ptr(r, 0, F.ret)
        for x in env.values():
            if x.__class__ is Region:
                x.live = False
        return v

    def callname(self, name, args):
        return self.call(self.p.func(name), args)

    def truth(self, v):
        if v.__class__ is int or v.__class__ is float:
            return v != 0
        if isinstance(v, (Ptr, Fn)):
            return True
        if isinstance(v, Cx) and isn(v.re) and isn(v.im):
            return v.re != 0 or v.im != 0
        if isinstance(v, T) and self.decide is not None:
            b = self.decide(v)
            if b is not None:
                return b
        raise Undecided('condition on %s at line %s of %s' % (show(v) if isinstance(v, T) else v, self.line, self.file))

    def alloc(self, name, n, t=None, heap=True):
        r = Region(name, n, heap)
        if heap:
            self.heap.append(r)
        return Ptr(r, 0, t)


class Comp(object):
    """compiles the statements of one function to closures"""

    def __init__(self, m, F):
        self.m, self.F = m, F
        addr = set()
        for n in walk(F.body):
            if n.k == 'un' and n.o == '&' or n.k == 'un' and 'real' in (n.o or '') or n.k == 'un' and 'imag' in (n.o or ''):
                x = n.e
                while x is not None and x.k in ('cast', 'const', 'paren'):
                    x = x.e
                if x is not None and x.k == 'ref':
                    addr.add(x.d)
        self.inreg = set()
        for v in list(F.locals.values()) + list(F.params):
            if v.id not in addr and not v.isglobal and not v.static and kindof(v.type) in 'ifpc' and v.vla is None:
                self.inreg.add(v.id)
            elif v.isparam and v.type.k == 'arr' and v.id not in addr:
                self.inreg.add(v.id)
            elif v.isparam and v.type.k == 'rec':
                pass

    def run(self):
        self.body = self.S(self.F.body)
        return self

    # ------------------------------------------------------------ statements
    def S(self, s):
        m = self.m
        if s is None or s.k == 'null':
            return lambda env: None
        k = s.k
        line = s.l
        if k == 'block':
            ss = [self.S(x) for x in s.b if x is not None]
            labels = {x.n: i for i, x in enumerate([x for x in s.b if x is not None]) if x.k == 'label'}
            if len(ss) == 1 and not labels:
                return ss[0]

            def f(env):
                for g in ss:
                    r = g(env)
                    if r is not None:
                        return r

            def fl(env):
                i = 0
                while i < len(ss):
                    r = ss[i](env)
                    if r is not None:
                        if r.__class__ is tuple and r[0] == 'goto' and r[1] in labels:
                            i = labels[r[1]]
                            continue
                        return r
                    i += 1
            return fl if labels else f
        if k == 'decl':
            return self.decl(s)
        if k == 'if':
            c, a, b = self.E(s.c), self.S(s.a), self.S(s.b)
            truth = m.truth

            def f(env):
                m.line = line
                v = c(env)
                if (v if v.__class__ is int else truth(v)):
                    return a(env)
                return b(env)
            return f
        if k in ('for', 'while', 'do'):
            init = self.S(s.init) if s.init is not None else None
            c = self.E(s.c) if s.c is not None else None
            inc = self.E(s.inc) if s.inc is not None else None
            b = self.S(s.b)
            do = k == 'do'
            truth = m.truth

            def f(env):
                if init is not None:
                    init(env)
                first = do
                n = 0
                while True:
                    if not first and c is not None:
                        m.line = line
                        v = c(env)
                        if not (v if v.__class__ is int else truth(v)):
                            return None
                    first = False
                    r = b(env)
                    if r is not None and r is not CONT:
                        return None if r is BRK else r
                    if inc is not None:
                        inc(env)
                    n += 1
                    if n > 3000000:
                        raise Undecided('a loop does not end')
            return f
        if k == 'return':
            if s.e is None:
                return lambda env: ('ret', None)
            e = self.E(s.e)

            def f(env):
                m.line = line
                return ('ret', e(env))
            return f
        if k == 'break':
            return lambda env: BRK
        if k == 'continue':
            return lambda env: CONT
        if k == 'goto':
            return lambda env: ('goto', s.n)
        if k in ('case', 'default', 'label'):
            return self.S(s.b)
        if k == 'omp':
            d = (s.dir or '')
            if d == 'barrier' or s.b is None:
                return lambda env: None
            return self.S(s.b)
        if k == 'switch':
            c = self.E(s.c if s.c is not None else s.e)
            body = s.b.b if s.b is not None and s.b.k == 'block' else [s.b]
            body = [x for x in body if x is not None]
            start, dflt = {}, None
            for i, x in enumerate(body):
                while x is not None and x.k in ('case', 'default'):
                    if x.k == 'case':
                        v = cval(x.v) if isinstance(x.v, core.Node) else x.v
                        start.setdefault(v, i)
                    else:
                        dflt = i
                    x = x.b
            ss = [self.S(x) for x in body]

            def f(env):
                m.line = line
                v = c(env)
                if not isinstance(v, int):
                    raise Undecided('switch on %s' % show(v))
                i = start.get(v, dflt)
                if i is None:
                    return None
                for g in ss[i:]:
                    r = g(env)
                    if r is not None:
                        return None if r is BRK else r
            return f
        e = self.E(s)

        def f(env):
            m.line = line or m.line
            e(env)
        return f

    def decl(self, s):
        m = self.m
        fs = []
        for v in s.v:
            if v.isglobal and not v.static:
                continue
            if v.static:
                fs.append(self.sdecl(v))
            elif v.id in self.inreg:
                if v.init is None:
                    fs.append(lambda env, i=v.id, n=v.name: env.__setitem__(i, mk('uninit', n)))
                else:
                    e = self.E(v.init) if v.init.k != 'init' else self.E(v.init.es[0])
                    fs.append(lambda env, i=v.id, e=e, t=v.type: env.__setitem__(i, m.conv(e(env), t)))
            else:
                fs.append(self.mdecl(v))
        line = s.l

        def f(env):
            m.line = line
            for g in fs:
                g(env)
        return fs[0] if len(fs) == 1 else f

    def sdecl(self, v):
        m = self.m

        def f(env):
            if v.id not in m.statics:
                r = m.statics[v.id] = Region(v.name, v.type.sz)
                r.zero = True
                if v.init is not None:
                    m.initc(self, r, 0, v.type, v.init, env)
            env[v.id] = m.statics[v.id]
        f({})
        return f

    def mdecl(self, v):
        m = self.m
        t = v.type
        vla = self.E(v.vla) if v.vla is not None else None
        size = t.sz if vla is None else None
        ini = self.init(v.init, t) if v.init is not None else None

        def f(env):
            n = size
            if vla is not None:
                c = vla(env)
                if not isinstance(c, int):
                    raise Undecided('array of unknown length')
                n = c * self.esize(t, env)
            r = env[v.id] = Region(v.name, n)
            if ini is not None:
                ini(env, r, 0)
        return f

    def esize(self, t, env):
        e = t.e
        if e.sz:
            return e.sz
        raise Undecided('array of unknown length')

    def init(self, e, t):
        """closure(env, region, off)"""
        m = self.m
        k = kindof(t)
        if e.k == 'zero' or e.k is None:
            return lambda env, r, o: m.zero_fill(r, o, t)
        if e.k == 'init':
            es = e.es or []
            if k == 'a':
                w = t.e.sz
                if len(es) == 1 and es[0] is not None and es[0].k == 'str' and t.e.sz == 1:
                    return self.init(es[0], t)
                subs = [(i * w, self.init(x, t.e)) for i, x in enumerate(es) if x is not None and x.k not in ('zero',)]
            elif k == 'r':
                fl = m.p.records.get(t.r)
                subs = [(f[2], self.init(x, f[1])) for f, x in zip(fl, es) if x is not None]
            else:
                if len(es) == 1:
                    return self.init(es[0], t)
                raise Undecided('initialiser')

            def f(env, r, o):
                m.zero_fill(r, o, t)
                for d, g in subs:
                    g(env, r, o + d)
            return f
        if e.k == 'str' and k == 'a':
            s = (e.v or '').encode('latin-1', 'replace')

            def f(env, r, o):
                for i in range(t.sz):
                    r.cells[o + i] = ((s[i] if i < len(s) else 0), 1)
            return f
        g = self.E(e)
        return lambda env, r, o: m.store(r, o, t, g(env))

    # ---------------------------------------------------------- expressions
    def L(self, e):
        """closure -> (region, offset)"""
        m = self.m
        k = e.k
        if k == 'ref':
            d = e.d
            v = m.p.vars.get(d)
            if v is None:
                raise Undecided('object %s' % e.n)
            if v.static and not v.isglobal:
                def f(env):
                    return m.statics[d], 0
                return f
            if v.isglobal or d in m.p.globals:
                def f(env):
                    return (m.glob.get(d) or m.gvar(d)), 0
                return f

            def f(env):
                return env[d], 0
            return f
        if k == 'idx':
            a, i = self.E(e.a), self.E(e.i)
            w = e.t.sz
            if e.a.t is not None and e.a.t.k == 'int':
                a, i = i, a

            def f(env):
                p, x = a(env), i(env)
                if p.__class__ is not Ptr or x.__class__ is not int:
                    m.badptr(p, x)
                return p.r, p.off + x * w
            return f
        if k == 'un' and e.o == '*':
            a = self.E(e.e)

            def f(env):
                p = a(env)
                if p.__class__ is not Ptr:
                    m.badptr(p, 0)
                return p.r, p.off
            return f
        if k == 'un' and ('real' in e.o or 'imag' in e.o):
            a = self.L(e.e)
            h = (e.t.sz or 8) if 'imag' in e.o else 0

            def f(env):
                r, o = a(env)
                return r, o + h
            return f
        if k in ('cast', 'const', 'paren'):
            return self.L(e.e)
        if k == 'mem':
            rt = e.e.t.e if e.arrow else e.e.t
            off = m.field(e.r or rt.r, e.n)[2]
            if e.arrow:
                a = self.E(e.e)

                def f(env):
                    p = a(env)
                    if p.__class__ is not Ptr:
                        m.badptr(p, 0)
                    return p.r, p.off + off
                return f
            a = self.L(e.e) if e.e.k != 'call' else self.callL(e.e)

            def f(env):
                r, o = a(env)
                return r, o + off
            return f
        if k == 'clit':
            ini = self.init(e.e, e.t)

            def f(env):
                r = Region('compound literal', e.t.sz)
                ini(env, r, 0)
                return r, 0
            return f
        if k == 'call':
            return self.callL(e)
        raise Undecided('lvalue %s' % k)

    def callL(self, e):
        g = self.E(e)

        def f(env):
            p = g(env)
            if not isinstance(p, Ptr):
                raise Undecided('aggregate value')
            return p.r, p.off
        return f

    def E(self, e):
        m = self.m
        k = e.k
        if k == 'int':
            v = e.v
            return lambda env: v
        if isinstance(e.cv, int) and k not in ('asg', 'call') and (e.t is None or e.t.k in ('int', 'enum', 'bool')):
            v = e.cv
            return lambda env: v
        if k == 'flt':
            v = float(e.v)
            return lambda env: v
        if k == 'str':
            p = m.string(e.v or '', e.t)
            return lambda env: p
        if k == 'ref':
            if e.fn:
                v = Fn(e.fn)
                return lambda env: v
            if e.d in self.inreg:
                d = e.d

                def f(env):
                    return env[d]
                return f
            v = m.p.vars.get(e.d)
            if v is not None and v.isparam and v.type.k == 'arr':
                d = e.d

                def f(env):
                    return env[d].cells[0][0]
                return f
        if k in ('ref', 'idx', 'mem', 'clit') or k == 'un' and e.o == '*':
            if k == 'un' and e.t is not None and e.t.k == 'fn':
                return self.E(e.e)
            g = self.L(e)
            t = e.t
            load = m.load
            line = e.l

            def f(env):
                r, o = g(env)
                return load(r, o, t)
            return f
        h = getattr(self, 'e_' + k, None)
        if h is None:
            raise Undecided('expression %s' % k)
        return h(e)

    def e_const(self, e):
        return self.E(e.e)

    e_paren = e_const

    def e_zero(self, e):
        return lambda env: 0

    def e_init(self, e):
        es = [self.E(x) for x in e.es or []]
        if kindof(e.t) == 'c' and len(es) == 2:
            return lambda env: Cx(es[0](env), es[1](env))
        if len(es) == 1:
            return es[0]
        raise Undecided('initialiser')

    def e_imag(self, e):
        v = Cx(0.0, float(e.e.v))
        return lambda env: v

    def e_sizeof(self, e):
        if isinstance(e.cv, int):
            return lambda env: e.cv
        if e.at is not None and e.at.sz:
            return lambda env: e.at.sz
        raise Undecided('sizeof')

    def e_cast(self, e):
        g = self.E(e.e)
        t = e.t
        m = self.m
        if t.k == 'void' or t.s == 'void':
            return g
        if e.ck in ('ArrayToPointerDecay', 'FunctionToPointerDecay'):
            return g
        return lambda env: m.conv(g(env), t)

    def e_stmtexpr(self, e):
        b = e.b.b
        ss = [self.S(x) for x in b[:-1]]
        g = self.E(b[-1])

        def f(env):
            for x in ss:
                x(env)
            return g(env)
        return f

    def e_cond(self, e):
        c, a, b = self.E(e.c), self.E(e.a), self.E(e.b)
        m = self.m
        return lambda env: a(env) if m.truth(c(env)) else b(env)

    def e_un(self, e):
        o = e.o
        m = self.m
        if o in ('p++', 'p--', 'q++', 'q--'):
            d = 1 if '+' in o else -1
            pre = o[0] == 'p'
            t = e.e.t
            w = t.e.sz if t.k == 'ptr' else 1
            if e.e.k == 'ref' and e.e.d in self.inreg:
                i = e.e.d

                def f(env):
                    v = env[i]
                    if v.__class__ is int:
                        x = v + d
                        if x < 0 and not t.sg:
                            x = m.conv(x, t)
                    elif v.__class__ is Ptr:
                        x = Ptr(v.r, v.off + d * w, v.t)
                    else:
                        x = m.arith('+', v, d, t)
                    env[i] = x
                    return x if pre else v
                return f
            g = self.L(e.e)

            def f(env):
                r, off = g(env)
                v = m.load(r, off, t)
                x = Ptr(v.r, v.off + d * w, v.t) if isinstance(v, Ptr) else m.arith('+', v, d, t)
                m.store(r, off, t, x)
                return x if pre else v
            return f
        if o == '&':
            x = e.e
            if x.k == 'ref' and x.fn:
                return self.E(x)
            g = self.L(x)
            t = e.t

            def f(env):
                r, off = g(env)
                return Ptr(r, off, t)
            return f
        g = self.E(e.e)
        t = e.t
        if o == '-':
            def f(env):
                v = g(env)
                if v.__class__ is int:
                    return m.conv(-v, t)
                if isinstance(v, Cx):
                    return Cx(rneg(v.re), rneg(v.im))
                if isinstance(v, T) and t.k in ('int', 'enum'):
                    return iop('-', 0, v, t.sz, t.sg)
                return rneg(v)
            return f
        if o in ('+', '__extension__'):
            return g
        if o == '!':
            return lambda env: int(not m.truth(g(env)))
        if o == '~':
            def f(env):
                v = g(env)
                if isinstance(v, Cx):
                    return Cx(v.re, rneg(v.im))
                if isinstance(v, int):
                    return m.conv(~v, t)
                return mk('not', v)
            return f
        if 'real' in o:
            return lambda env: cx(g(env)).re
        if 'imag' in o:
            return lambda env: cx(g(env)).im
        raise Undecided('operator %s' % o)

    def e_bin(self, e):
        o = e.o
        m = self.m
        a, b = self.E(e.a), self.E(e.b)
        if o == ',':
            def f(env):
                a(env)
                return b(env)
            return f
        if o == '&&':
            return lambda env: int(m.truth(a(env)) and m.truth(b(env)))
        if o == '||':
            return lambda env: int(m.truth(a(env)) or m.truth(b(env)))
        t = e.t
        # comparisons are made at the type of the operands
        ot = t
        if o in ('<', '>', '<=', '>=', '==', '!='):
            ot = e.a.t if e.a.t is not None else t
        ar = m.arith
        if t.k == 'int' and o in ('+', '-', '*', '<', '>', '<=', '>=', '==', '!=') and ot.k in ('int', 'enum', 'bool'):
            sz = 8 * (t.sz or 4)
            sg = t.sg
            fast = FAST[o]
            cmp_ = o in ('<', '>', '<=', '>=', '==', '!=')

            def f(env):
                x, y = a(env), b(env)
                if x.__class__ is int and y.__class__ is int:
                    r = fast(x, y)
                    if cmp_:
                        return int(r)
                    if r < 0 and not sg or r >> (sz - 1):
                        return m.conv(r, t)
                    return r
                return ar(o, x, y, ot)
            return f
        return lambda env: ar(o, a(env), b(env), ot)

    def e_asg(self, e):
        m = self.m
        t = e.a.t
        b = self.E(e.b)
        o = e.o
        conv = m.conv
        line = e.l
        reg = e.a.k == 'ref' and e.a.d in self.inreg
        ct = e.ct if e.ct is not None and o != '=' else t
        if o != '=':
            op = o[:-1]
            # the operation is made at the wider of the two operand types
            bt = e.b.t
            if t.k == 'int' and bt is not None and bt.k == 'int' and op not in ('<<', '>>'):
                if (bt.sz or 0) > t.sz:
                    ct = bt
            if bt is not None and kindof(bt) in 'fc' and kindof(t) == 'i':
                ct = bt
        if reg:
            i = e.a.d
            if o == '=':
                def f(env):
                    v = env[i] = conv(b(env), t)
                    return v
                return f

            def f(env):
                v = env[i] = conv(m.arith(op, env[i], b(env), ct), t)
                return v
            return f
        g = self.L(e.a)
        if o == '=':
            if t.k == 'rec':
                def f(env):
                    v = b(env)
                    r, off = g(env)
                    m.store(r, off, t, v)
                    return Ptr(r, off, t)
                return f

            def f(env):
                v = conv(b(env), t)
                r, off = g(env)
                m.line = line or m.line
                m.store(r, off, t, v)
                return v
            return f

        def f(env):
            v = b(env)
            r, off = g(env)
            v = conv(m.arith(op, m.load(r, off, t), v, ct), t)
            m.store(r, off, t, v)
            return v
        return f

    def e_call(self, e):
        m = self.m
        args = [self.E(a) for a in e.args]
        line = e.l
        file = self.F.file
        if not e.fn:
            g = self.E(e.fe)

            def f(env):
                v = g(env)
                if not isinstance(v, Fn):
                    raise Undecided('indirect call')
                return m.callfn(v.n, [a(env) for a in args], e)
            return f
        name = e.fn
        short = name.split('@')[0]
        h = m.hooks.get(short)
        if h is not None:
            def f(env):
                a = [x(env) for x in args]
                m.line = line
                return h(m, a, e)
            return f
        F = m.p.funcs.get(name) or m.p.funcs.get(short)
        if F is not None:
            def f(env):
                a = [x(env) for x in args]
                m.line = line
                return m.call(F, a)
            return f

        def f(env):
            raise Undecided('call of %s' % short)
        return f


FAST = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
        '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
        '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def _arith(self, o, a, b, t):
    ca, cb = a.__class__, b.__class__
    if ca is int and cb is int:
        if o in FAST:
            r = FAST[o](a, b)
            return int(r) if o in ('<', '>', '<=', '>=', '==', '!=') else self.conv(r, t) if t.k in ('int', 'enum') else r
        if o == '/' or o == '%':
            if b == 0:
                self.bad('division by zero')
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return q if o == '/' else a - q * b
        if o == '<<':
            return self.conv(a << (b % (8 * t.sz)), t)
        if o == '>>':
            return a >> (b % (8 * t.sz))
        return {'&': a & b, '|': a | b, '^': a ^ b}[o]
    if ca is Ptr or cb is Ptr:
        if o in ('==', '!='):
            if ca is Ptr and cb is Ptr:
                return int((a.r is b.r and a.off == b.off) == (o == '=='))
            return int(o == '!=')
        if o == '-' and ca is Ptr and cb is Ptr:
            w = a.t.e.sz if a.t is not None and a.t.e is not None else 1
            return (a.off - b.off) // (w or 1)
        if o in ('<', '>', '<=', '>=') and ca is Ptr and cb is Ptr and a.r is b.r:
            return int(FAST[o](a.off, b.off))
        if cb is Ptr and o == '+':
            a, b, ca, cb = b, a, cb, ca
        if cb is int and o in ('+', '-'):
            w = self.psize(a.t, t)
            return Ptr(a.r, a.off + (b if o == '+' else -b) * w, a.t)
        raise Undecided('pointer arithmetic')
    if ca is Fn or cb is Fn:
        if o in ('==', '!='):
            return int((ca is Fn and cb is Fn and a.n == b.n) == (o == '=='))
        raise Undecided('function pointer')
    if ca is Cx or cb is Cx or t.k == 'cplx':
        if o in ('+', '-'):
            x, y = cx(a), cx(b)
            f = radd if o == '+' else rsub
            return Cx(f(x.re, y.re), f(x.im, y.im))
        if o == '*':
            if ca is not Cx:
                return Cx(rmul(a, b.re), rmul(a, b.im)) if cb is Cx else Cx(rmul(a, b), 0.0)
            if cb is not Cx:
                return Cx(rmul(a.re, b), rmul(a.im, b))
            return Cx(rsub(rmul(a.re, b.re), rmul(a.im, b.im)), radd(rmul(a.re, b.im), rmul(a.im, b.re)))
        if o == '/':
            if cb is not Cx or b.im == 0:
                d = b if cb is not Cx else b.re
                x = cx(a)
                return Cx(rdiv(x.re, d), rdiv(x.im, d))
            n = radd(rmul(b.re, b.re), rmul(b.im, b.im))
            x = cx(a)
            y = Cx(radd(rmul(x.re, b.re), rmul(x.im, b.im)), rsub(rmul(x.im, b.re), rmul(x.re, b.im)))
            return Cx(rdiv(y.re, n), rdiv(y.im, n))
        raise Undecided('complex operation %s' % o)
    if (t.k in ('int', 'enum', 'bool')) and not (ca is float or cb is float):
        if ca is T and a.op == 'uninit' or cb is T and b.op == 'uninit':
            raise Undecided('arithmetic on the uninitialised %s' % (a if ca is T and a.op == 'uninit' else b).a[0])
        return iop(o, a, b, t.sz or 4, t.sg)
    if o == '+':
        return radd(a, b)
    if o == '-':
        return rsub(a, b)
    if o == '*':
        return rmul(a, b)
    if o == '/':
        return rdiv(a, b)
    if isn(a) and isn(b):
        return int(FAST[o](float(a), float(b)))
    if a is b:
        return int('=' in o and o != '!=')
    return mk('cmp', o, a, b)


def _psize(self, pt, t):
    for x in (pt, t):
        if x is not None and x.k in ('ptr', 'arr') and x.e is not None:
            if x.e.k == 'void' or x.e.s == 'void' or not x.e.sz:
                return 1
            return x.e.sz
    return 1


def _badptr(self, p, i):
    if p == 0 and isinstance(p, int):
        self.bad('a null pointer is dereferenced')
    if isinstance(p, T) and p.op == 'uninit':
        self.bad('%s is used before it is set' % p.a[0])
    raise Undecided('pointer or index not known at line %s of %s' % (self.line, self.file))


def _zero_fill(self, r, o, t):
    n = t.sz
    self.chk(r, o, n)
    k = kindof(t)
    if k in 'ifp':
        r.cells[o] = (0 if k != 'f' else 0.0, n)
    elif k == 'c':
        r.cells[o] = (0.0, n // 2)
        r.cells[o + n // 2] = (0.0, n // 2)
    elif k == 'a':
        for i in range(t.n or 0):
            self.zero_fill(r, o + i * t.e.sz, t.e)
    elif k == 'r':
        for f in self.p.records.get(t.r) or ():
            self.zero_fill(r, o + f[2], f[1])


def _initc(self, comp, r, o, t, e, env):
    comp.init(e, t)(env, r, o)


class _F(object):
    body = None
    locals = {}
    params = ()
    file = None
    key = ''


def _initv(self, r, o, t, e, env):
    c = Comp.__new__(Comp)
    c.m, c.F, c.inreg = self, _F, set()
    c.init(e, t)(env, r, o)


def _callfn(self, name, args, e):
    h = self.hooks.get(name.split('@')[0])
    if h is not None:
        return h(self, args, e)
    F = self.p.funcs.get(name) or self.p.funcs.get(name.split('@')[0])
    if F is None:
        raise Undecided('call of %s' % name)
    return self.call(F, args)


Machine.arith = _arith
Machine.psize = _psize
Machine.badptr = _badptr
Machine.zero_fill = _zero_fill
Machine.initc = _initc
Machine.initv = _initv
Machine.callfn = _callfn


# --------------------------------------------------------------- the C library
SPACE = (32, 9, 10, 11, 12, 13)


def cstr(m, p, limit=None):
    """the cells of a string: integers and words"""
    if not isinstance(p, Ptr):
        m.badptr(p, 0)
    out = []
    i = p.off
    while limit is None or len(out) < limit:
        m.chk(p.r, i, 1)
        v = m.ld(p.r, i, 1)
        if isinstance(v, T) and v.op == 'uninit':
            m.bad('a character of %s is read before it is set' % p.r.name)
        if v == 0:
            break
        if isinstance(v, int):
            v &= 255
        out.append(v)
        i += 1
    return out


def pystr(m, p):
    return ''.join(chr(c) if isinstance(c, int) else '?' for c in cstr(m, p))


def puts(m, p, cs, nul=True):
    if not isinstance(p, Ptr):
        m.badptr(p, 0)
    n = len(cs) + (1 if nul else 0)
    m.chk(p.r, p.off, n)
    m.clear(p.r, p.off, n)
    for i, c in enumerate(cs):
        p.r.cells[p.off + i] = (c, 1)
    if nul:
        p.r.cells[p.off + len(cs)] = (0, 1)


def fmt(m, f, args):
    """the characters printf writes; a word is one opaque character"""
    f = cstr(m, f)
    out, i, a = [], 0, list(args)
    while i < len(f):
        c = f[i]
        if c != 37:
            out.append(c)
            i += 1
            continue
        j = i + 1
        if f[j] == 37:
            out.append(37)
            i = j + 1
            continue
        while chr(f[j]) not in 'diouxXeEfgGscp':
            if f[j] == 42:
                raise Undecided('format')
            j += 1
        spec, cv = ''.join(map(chr, f[i:j + 1])), chr(f[j])
        i = j + 1
        if not a:
            m.bad('a conversion has no argument')
        v = a.pop(0)
        if isinstance(v, T) and v.op == 'uninit':
            m.bad('%s is printed before it is set' % v.a[0])
        if cv == 's':
            out += cstr(m, v)
        elif cv == 'c' and isinstance(v, int):
            out.append(v & 255)
        elif isinstance(v, T) or isinstance(v, Ptr):
            out.append(mk('fmt', spec, v if isinstance(v, T) else 0))
        else:
            s = spec
            for x in ('ll', 'l', 'z', 'h', 'j'):
                s = s.replace(x, '')
            if cv in 'diouxX':
                if not isinstance(v, int):
                    out.append(mk('fmt', spec, v))
                    continue
                if cv == 'u':
                    s = s[:-1] + 'd'
                if cv in 'uxXo' and v < 0:
                    v &= (1 << (64 if 'l' in spec or 'z' in spec else 32)) - 1
                elif cv in 'uxXo' and 'l' not in spec and 'z' not in spec:
                    v &= 0xffffffff
                if cv == 'd' and 'l' not in spec and 'z' not in spec:
                    v &= 0xffffffff
                    v = v - (1 << 32) if v >> 31 else v
            elif isinstance(v, int):
                v = float(v)
            out += [ord(x) for x in s % v]
    return out


def _fprintf(m, a, e):
    p = a[0]
    s = fmt(m, a[1], a[2:])
    if isinstance(p, Ptr) and p.r is m.std or not isinstance(p, Ptr):
        if not isinstance(p, Ptr):
            m.badptr(p, 0)
        m.log.append(s)
        return len(s)
    emit(m, p, [(i, c, 1) for i, c in enumerate(s)], len(s))
    return len(s)


def _printf(m, a, e):
    m.log.append(fmt(m, a[0], a[1:]))
    return 0


def _sprintf(m, a, e):
    s = fmt(m, a[1], a[2:])
    puts(m, a[0], s)
    return len(s)


def _snprintf(m, a, e):
    s = fmt(m, a[2], a[3:])
    puts(m, a[0], s[:a[1] - 1])
    return len(s)


def stream(m, p):
    if not isinstance(p, Ptr):
        m.badptr(p, 0)
    if not p.r.live:
        m.bad('the stream %s is used after it was closed' % p.r.name)
    c = p.r.cells.get(-1)
    return c[0] if c is not None else p.r


def emit(m, p, items, n):
    h, d = p.r, stream(m, p)
    m.clear(d, h.pos, n)
    for o, v, s in items:
        d.cells[h.pos + o] = (v, s)
    h.pos += n
    d.n = max(d.n or 0, h.pos)


def _fwrite(m, a, e):
    q, sz, n, p = a
    if not isinstance(q, Ptr):
        m.badptr(q, 0)
    k = sz * n
    m.chk(q.r, q.off, k)
    emit(m, p, m.get_range(q.r, q.off, k), k)
    return n


def _fread(m, a, e):
    q, sz, n, p = a
    h, d = p.r, stream(m, p)
    if not isinstance(q, Ptr):
        m.badptr(q, 0)
    got = min(n, max(0, ((d.n or 0) - h.pos)) // sz) if sz else 0
    k = got * sz
    if k:
        m.chk(q.r, q.off, sz * n)
        m.put_range(q.r, q.off, k, m.get_range(d, h.pos, k))
    h.pos += k
    if got < n:
        h.pos = max(h.pos, d.n or 0)
    return got


def _fseek(m, a, e):
    h, d = a[0].r, stream(m, a[0])
    base = {0: 0, 1: h.pos, 2: d.n or 0}.get(a[2])
    if base is None:
        raise Undecided('fseek')
    h.pos = base + a[1]
    return 0


def _fgets(m, a, e):
    q, n, p = a
    h, d = p.r, stream(m, p)
    out = []
    while len(out) < n - 1 and h.pos < (d.n or 0):
        c = m.ld(d, h.pos, 1)
        out.append(c)
        h.pos += 1
        if c == 10:
            break
    if not out:
        return 0
    puts(m, q, out)
    return q


def openfile(m, name, t=None):
    """a handle on the named file"""
    d = m.files.get(name)
    if d is None:
        return 0
    h = Region('file %s' % name, None)
    h.cells[-1] = (d, 0)
    h.pos = 0
    m.opened.append(h)
    return Ptr(h, 0, t)


Machine.opened = None


def _fopen(m, a, e):
    if m.opened is None:
        m.opened = []
    name, mode = pystr(m, a[0]), pystr(m, a[1])
    if 'w' in mode:
        m.files[name] = Region('contents of %s' % name, 0)
    return openfile(m, name, e.t)


def _fclose(m, a, e):
    stream(m, a[0])
    if a[0].r is not m.std:
        a[0].r.live = False
    return 0


def _malloc(m, a, e):
    n = a[0]
    if not isinstance(n, int):
        raise Undecided('allocation size')
    return m.alloc('the memory allocated at line %s' % e.l, n, e.t)


def _calloc(m, a, e):
    p = m.alloc('the memory allocated at line %s' % e.l, a[0] * a[1], e.t)
    p.r.zero = True
    return p


def _realloc(m, a, e):
    p = m.alloc('the memory allocated at line %s' % e.l, a[1], e.t)
    q = a[0]
    if isinstance(q, Ptr):
        m.copy(p.r, 0, q.r, q.off, min(a[1], q.r.n))
        q.r.live = False
    return p


def _free(m, a, e):
    p = a[0]
    if isinstance(p, int) and p == 0:
        return 0
    if not isinstance(p, Ptr):
        m.badptr(p, 0)
    if not p.r.live:
        m.bad('%s is released twice' % p.r.name)
    if p.off or not p.r.heap:
        m.bad('%s is not something that was allocated' % p.r.name)
    p.r.live = False
    return 0


def _memcpy(m, a, e):
    if not isinstance(a[2], int):
        raise Undecided('memcpy')
    for p in a[:2]:
        if not isinstance(p, Ptr):
            m.badptr(p, 0)
    m.copy(a[0].r, a[0].off, a[1].r, a[1].off, a[2])
    return a[0]


def _memset(m, a, e):
    p, c, n = a
    if not isinstance(p, Ptr):
        m.badptr(p, 0)
    m.chk(p.r, p.off, n)
    m.clear(p.r, p.off, n)
    for i in range(n):
        p.r.cells[p.off + i] = (c & 255, 1)
    return p


def _strlen(m, a, e):
    return len(cstr(m, a[0]))


def _cmp(m, x, y):
    for p, q in zip(x + [0], y + [0]):
        if p is q or p == q:
            continue
        if isinstance(p, T) or isinstance(q, T):
            return 1
        return -1 if p < q else 1
    return 0


def _strcmp(m, a, e):
    return _cmp(m, cstr(m, a[0]), cstr(m, a[1]))


def _strncmp(m, a, e):
    return _cmp(m, cstr(m, a[0], a[2]), cstr(m, a[1], a[2]))


def _strcpy(m, a, e):
    puts(m, a[0], cstr(m, a[1]))
    return a[0]


def _strncpy(m, a, e):
    s = cstr(m, a[1], a[2])
    puts(m, a[0], s + [0] * (a[2] - len(s)), False)
    return a[0]


def _strcat(m, a, e):
    s = cstr(m, a[0])
    puts(m, Ptr(a[0].r, a[0].off + len(s), None), cstr(m, a[1]))
    return a[0]


def _index(m, a, e):
    s = cstr(m, a[0])
    if a[1] == 0:
        return Ptr(a[0].r, a[0].off + len(s), e.t)
    for i, c in enumerate(s):
        if isinstance(c, int) and c == (a[1] & 255):
            return Ptr(a[0].r, a[0].off + i, e.t)
    return 0


def _strstr(m, a, e):
    s, u = cstr(m, a[0]), cstr(m, a[1])
    for i in range(len(s) - len(u) + 1):
        if s[i:i + len(u)] == u:
            return Ptr(a[0].r, a[0].off + i, e.t)
    return 0


def _strspn(m, a, e):
    s, u = cstr(m, a[0]), set(cstr(m, a[1]))
    n = 0
    while n < len(s) and s[n] in u:
        n += 1
    return n


def _strtok(m, a, e):
    d = set(cstr(m, a[1]))
    p = a[0]
    if not isinstance(p, Ptr):
        p = m.tok
        if p is None:
            return 0
    s = cstr(m, p)
    i = 0
    while i < len(s) and s[i] in d:
        i += 1
    if i == len(s):
        m.tok = None
        return 0
    j = i
    while j < len(s) and s[j] not in d:
        j += 1
    r = Ptr(p.r, p.off + i, e.t)
    if j < len(s):
        m.store1(p, j, 0)
        m.tok = Ptr(p.r, p.off + j + 1, e.t)
    else:
        m.tok = Ptr(p.r, p.off + j, e.t)
    return r


def _store1(self, p, i, v):
    self.chk(p.r, p.off + i, 1)
    self.st(p.r, p.off + i, 1, v)


Machine.store1 = _store1


def number(s, base, flt=False):
    """(value, characters used) or None"""
    i = 0
    while i < len(s) and s[i] in SPACE:
        i += 1
    if i < len(s) and isinstance(s[i], T):
        t = s[i]
        if t.op != 'fmt':
            return None
        cv = t.a[0][-1]
        ok = cv in 'eEfgG' if flt else (cv in 'xX' if base == 16 else cv in 'diu')
        if ok and not (i + 1 < len(s) and isinstance(s[i + 1], int) and chr(s[i + 1]).isalnum()):
            return t.a[1], i + 1
        return mk('misread', t), i + 1
    txt = ''.join(chr(c) if isinstance(c, int) else '\1' for c in s[i:])
    import re
    mt = re.match(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)' if flt else
                  (r'[+-]?(0[xX])?[0-9a-fA-F]+' if base == 16 else r'[+-]?\d+'), txt)
    if not mt:
        return None
    w = mt.group(0)
    return (float(w) if flt else int(w, base)), i + len(w)


def _sscanf(m, a, e):
    s, f = cstr(m, a[0]), pystr(m, a[1]).strip()
    import re
    mt = re.match(r'^%(l|ll|z|h|L)?([diuxXfgeE])$', f)
    if not mt:
        if f == '%s':
            i = 0
            while i < len(s) and s[i] in SPACE:
                i += 1
            j = i
            while j < len(s) and s[j] not in SPACE:
                j += 1
            if i == j:
                return -1
            puts(m, a[2], s[i:j])
            return 1
        raise Undecided('sscanf format %s' % f)
    cv = mt.group(2)
    flt = cv in 'fgeE'
    r = number(s, 16 if cv in 'xX' else 10, flt)
    if r is None:
        return 0 if any(c not in SPACE for c in s) else -1
    q = a[2]
    n = {'l': 8, 'll': 8, 'z': 8, 'h': 2}.get(mt.group(1), 4)
    m.chk(q.r, q.off, n)
    v = r[0]
    if isinstance(v, int):
        v &= (1 << (8 * n)) - 1
    if isinstance(v, float) and n == 4:
        v = struct.unpack('<f', struct.pack('<f', v))[0]
    m.st(q.r, q.off, n, v)
    return 1


def _fscanf(m, a, e):
    """conversions %s, %Ns, %d-like and literal text"""
    import re
    h, d = a[0].r, stream(m, a[0])
    f, q, done = pystr(m, a[1]), list(a[2:]), 0

    def peek():
        return m.ld(d, h.pos, 1) if h.pos < (d.n or 0) else None
    i = 0
    while i < len(f):
        if f[i].isspace():
            while peek() in SPACE:
                h.pos += 1
            i += 1
            continue
        if f[i] != '%':
            if peek() != ord(f[i]):
                return done if done or peek() is not None else -1
            h.pos += 1
            i += 1
            continue
        mt = re.match(r'%(\d*)(ll|l|z|h|L|)([sdiuxXeEfgG])', f[i:])
        if not mt:
            raise Undecided('fscanf format %s' % f)
        i += mt.end()
        while peek() in SPACE:
            h.pos += 1
        if peek() is None:
            return done or -1
        cs = []
        while peek() is not None and peek() not in SPACE and (not mt.group(1) or len(cs) < int(mt.group(1))):
            cs.append(peek())
            h.pos += 1
        p = q.pop(0)
        if mt.group(3) == 's':
            puts(m, p, cs)
        else:
            flt = mt.group(3) in 'eEfgG'
            r = number(cs, 16 if mt.group(3) in 'xX' else 10, flt)
            if r is None:
                return done
            if r[1] != len(cs):
                h.pos -= len(cs) - r[1]
            n = {'l': 8, 'll': 8, 'z': 8, 'h': 2}.get(mt.group(2), 4)
            v = r[0] & ((1 << 8 * n) - 1) if isinstance(r[0], int) else r[0]
            if isinstance(v, float) and n == 4:
                v = struct.unpack('<f', struct.pack('<f', v))[0]
            m.chk(p.r, p.off, n)
            m.st(p.r, p.off, n, v)
        done += 1
    return done


def _strcasecmp(m, a, e):
    x, y = [[ord(chr(c).lower()) if isinstance(c, int) else c for c in cstr(m, p)] for p in a[:2]]
    return _cmp(m, x, y)


def _pow(m, a, e):
    x, y = a
    if isn(x) and isn(y):
        try:
            return float(x) ** float(y)
        except (ValueError, OverflowError, ZeroDivisionError):
            return float('inf')
    return mk('pow', x, y)


def _strto(flt, uns=False):
    def f(m, a, e):
        s = cstr(m, a[0])
        base = 10 if flt or len(a) < 3 else (a[2] or 10)
        r = number(s, base, flt)
        if len(a) > 1 and isinstance(a[1], Ptr):
            m.store(a[1].r, a[1].off, a[1].t.e if a[1].t is not None and a[1].t.e is not None else e.t,
                    Ptr(a[0].r, a[0].off + (r[1] if r else 0), a[0].t))
        if r is None:
            return 0.0 if flt else 0
        if isinstance(r[0], int) and not -(1 << 63) <= r[0] < (1 << 64 if uns else 1 << 63) or isinstance(r[0], float) and r[0] in (float('inf'), -float('inf')):
            x = _errno(m, [], e).r
            m.st(x, 0, 4, 34)
            if not flt:
                return (1 << 64) - 1 if uns else (1 << 63) - 1 if r[0] > 0 else -(1 << 63)
        return r[0] if isinstance(r[0], T) else m.conv(r[0], e.t)
    return f


def _bswap(n):
    def f(m, a, e):
        return from_bytes(list(reversed(bytes_of(a[0], n))))
    return f


def _exit(m, a, e):
    raise Exited(str(a[0]) if a else '')


def _real(f):
    return lambda m, a, e: f(cx(a[0]))


def _fabs(m, a, e):
    v = a[0]
    if isn(v):
        return abs(float(v))
    return mk('fabs', v)


def _unary(name):
    import math

    def f(m, a, e):
        v = a[0]
        if isn(v):
            try:
                return getattr(math, name)(float(v))
            except ValueError:
                return float('nan')
        return mk(name, v)
    return f


def _getenv(m, a, e):
    return m.string('user', e.t)


def _errno(m, a, e):
    r = m.statics.get('errno')
    if r is None:
        r = m.statics['errno'] = Region('errno', 4)
        r.zero = True
    return Ptr(r, 0, e.t)


LIBC = {
    'printf': _printf, 'fprintf': _fprintf, 'sprintf': _sprintf, 'snprintf': _snprintf, 'puts': lambda m, a, e: 0,
    'fwrite': _fwrite, 'fread': _fread, 'fseek': _fseek, 'fgets': _fgets, 'fopen': _fopen, 'fclose': _fclose,
    'fflush': lambda m, a, e: 0, 'rewind': lambda m, a, e: _fseek(m, [a[0], 0, 0], e), 'ftell': lambda m, a, e: a[0].r.pos,
    'feof': lambda m, a, e: int(a[0].r.pos >= (stream(m, a[0]).n or 0)),
    'malloc': _malloc, 'calloc': _calloc, 'realloc': _realloc, 'free': _free,
    'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset, '__builtin_memcpy': _memcpy, '__builtin_memset': _memset,
    'strlen': _strlen, 'strcmp': _strcmp, 'strncmp': _strncmp, 'strcpy': _strcpy, 'strncpy': _strncpy, 'strcat': _strcat,
    'index': _index, 'strchr': _index, 'strstr': _strstr, 'strspn': _strspn, 'strtok': _strtok,
    'atoi': _strto(False), 'atof': _strto(True), 'atol': _strto(False),
    'strtol': _strto(False), 'strtoul': _strto(False, True), 'strtoull': _strto(False, True), 'strtoll': _strto(False), 'strtod': _strto(True), 'sscanf': _sscanf,
    'fscanf': _fscanf, '__isoc99_fscanf': _fscanf, 'pow': _pow, 'exp10': lambda m, a, e: _pow(m, [10.0, a[0]], e),
    'strcasecmp': _strcasecmp, 'fputs': lambda m, a, e: _fprintf(m, [a[1], m.string('%s'), a[0]], e),
    '__builtin_bswap16': _bswap(2), '__builtin_bswap32': _bswap(4), '__builtin_bswap64': _bswap(8),
    'exit': _exit, 'abort': _exit, 'getenv': _getenv, '__errno_location': _errno,
    'creal': _real(lambda z: z.re), 'cimag': _real(lambda z: z.im), 'conj': _real(lambda z: Cx(z.re, rneg(z.im))),
    'crealf': _real(lambda z: z.re), 'cimagf': _real(lambda z: z.im), 'conjf': _real(lambda z: Cx(z.re, rneg(z.im))),
    'fabs': _fabs, 'fabsf': _fabs, 'sqrt': _unary('sqrt'), 'cos': _unary('cos'), 'sin': _unary('sin'), 'log': _unary('log'), 'exp': _unary('exp'), 'ferror': lambda m, a, e: 0,
    'omp_get_thread_num': lambda m, a, e: 0, 'omp_get_num_threads': lambda m, a, e: 1,
    'omp_get_max_threads': lambda m, a, e: 1,
}
