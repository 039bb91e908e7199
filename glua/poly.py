"""Integer polynomials over named atoms, and site indices.

A site index is  base + LCU*time-offset  together with a displacement vector
(one polynomial per direction) collected from neighbor[]/back[] look-ups."""

ATOMS = {}        # name -> Atom


class Atom(object):
    __slots__ = ('name', 'kind', 'lo', 'hi', 'tt', 'seq', 'parity', 'src')
    COUNT = [0]

    def __init__(self, name, kind, lo=None, hi=None, tt=False):
        self.name = name
        self.kind = kind          # 'loop','param','opaque','geom','tid','ph'
        self.lo, self.hi = lo, hi
        self.tt = tt
        self.src = None
        Atom.COUNT[0] += 1
        self.seq = Atom.COUNT[0]


def atom(name, kind, lo=None, hi=None, tt=False):
    a = ATOMS.get(name)
    if a is None:
        a = ATOMS[name] = Atom(name, kind, lo, hi, tt)
    else:
        a.lo, a.hi = (lo if lo is not None else a.lo), (hi if hi is not None else a.hi)
        a.tt = a.tt or tt
    return a


SPATIAL = [()]


def mono(k):
    k = tuple(sorted(k))
    sp = SPATIAL[0]
    if len(k) >= len(sp) > 0 and all(x in k for x in sp):
        k = list(k)
        for x in sp:
            k.remove(x)
        k = tuple(sorted(k + ['LCU']))
    return k


class Poly(object):
    __slots__ = ('m', '_h')

    def __init__(self, m):
        self.m = m
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return self is o or self.m == o.m

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if not o.m:
            return self
        if not self.m:
            return o
        m = dict(self.m)
        for k, v in o.m.items():
            n = m.get(k, 0) + v
            if n:
                m[k] = n
            else:
                m.pop(k, None)
        return Poly(m)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        if not o.m:
            return self
        return self + (-o)

    def __mul__(self, o):
        m = {}
        for k, v in self.m.items():
            for l, w in o.m.items():
                kk = mono(k + l)
                n = m.get(kk, 0) + v * w
                if n:
                    m[kk] = n
                else:
                    m.pop(kk, None)
        return Poly(m)

    @property
    def const(self):
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def atoms(self):
        s = set()
        for k in self.m:
            s.update(k)
        return s

    def has(self, a):
        for k in self.m:
            if a in k:
                return True
        return False

    def subst(self, a, p):
        if not self.has(a):
            return self
        r = ZERO
        for k, v in self.m.items():
            n = k.count(a)
            if n == 0:
                r = r + Poly({k: v})
            else:
                q = Poly({tuple(x for x in k if x != a): v})
                for _ in range(n):
                    q = q * p
                r = r + q
        return r

    def split(self, a):
        """(coefficient polynomial of a, rest); a occurs at most linearly, else None"""
        c, r = {}, {}
        for k, v in self.m.items():
            n = k.count(a)
            if n == 0:
                r[k] = v
            elif n == 1:
                kk = list(k)
                kk.remove(a)
                c[tuple(kk)] = v
            else:
                return None
        return Poly(c), Poly(r)

    def __repr__(self):
        if not self.m:
            return '0'
        out = []
        for k, v in sorted(self.m.items()):
            t = '*'.join(x.split('#')[0] for x in k)
            if not k:
                out.append('%+d' % v)
            elif v == 1:
                out.append('+' + t)
            elif v == -1:
                out.append('-' + t)
            else:
                out.append('%+d*%s' % (v, t))
        s = ''.join(out)
        return s[1:] if s[0] == '+' else s


ZERO = Poly({})
ONE = Poly({(): 1})


def C(n):
    return Poly({(): n}) if n else ZERO


def A(name):
    return Poly({(name,): 1})


def _signed(p):
    """+1 if every coefficient >=0, -1 if every one <=0, else 0 (atoms are >=0)"""
    if all(v >= 0 for v in p.m.values()):
        return 1
    if all(v <= 0 for v in p.m.values()):
        return -1
    return 0


def lower(p, depth=0):
    """a polynomial in geometry/parameter atoms that p is >= to, or None"""
    if depth > 12:
        return None
    la = [ATOMS[a] for a in p.atoms() if a in ATOMS and ATOMS[a].kind == 'loop']
    if not la:
        return p
    a = max(la, key=lambda x: x.seq)
    s = p.split(a.name)
    if s is None:
        return None
    c, r = s
    cl = c
    # sign of the coefficient
    sg = sign_of(c)
    if sg is None:
        return None
    if sg >= 0:
        if a.lo is None:
            return None
        return lower(r + c * a.lo, depth + 1)
    if a.hi is None:
        return None
    return lower(r + c * (a.hi - ONE), depth + 1)


def sign_of(c):
    if nonneg(c):
        return 1
    if nonneg(-c):
        return -1
    return None


def nonneg(p):
    """provably p >= 0 for every value of its atoms"""
    if not p.m:
        return True
    if p.const is not None:
        return p.const >= 0
    q = lower(p)
    if q is None:
        return False
    # geometry atoms: dims >= 2, Lcu >= 1, thread count >= 1, others >= 0
    for a in list(q.atoms()):
        A_ = ATOMS.get(a)
        if A_ is None or A_.kind == 'opaque' or A_.kind == 'ph':
            return False
        if a.startswith('L') and a[1:].isdigit():
            q = q.subst(a, A(a) + C(2))
        elif a == 'LCU' or a == 'NTH':
            q = q.subst(a, A(a) + ONE)
    return all(v >= 0 for v in q.m.values())


def leq(a, b):
    return nonneg(b - a)


def less(a, b):
    return nonneg(b - a - ONE)
