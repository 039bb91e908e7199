"""Abstract interpretation of the matrix kernels in the domain of polynomials.

Every scalar that is stored in memory or in a variable is abstracted by a pair of
polynomials (real part, imaginary part) over the entries of the argument
matrices, or by TOP.  Loops with constant bounds are unrolled, the two sides of
a branch on an unknown value are both followed and joined (equal -> kept,
different -> TOP), quotients, roots and other functions of unknown values are
uninterpreted symbols, hash-consed on their argument.  Two kernels are equal in
this domain only if they compute the same polynomial in exact arithmetic."""
import math
from . import core
from .core import strip, cval, walk

TOP = None
STEPS = 4000000


class Undecided(Exception):
    """a construct outside the domain"""


class Outside(Exception):
    """an access outside the object"""

    def __init__(self, line, what, file=None):
        Exception.__init__(self, what)
        self.line, self.file = line, file


# ------------------------------------------------------------- polynomials
SYM = {}
NAMES = []
KEYS = {}


def sym(name):
    i = SYM.get(name)
    if i is None:
        i = SYM[name] = len(NAMES)
        NAMES.append(name)
    return i


def pvar(name):
    return {(sym(name),): 1.0}


def pconst(c):
    return {(): float(c)} if c else {}


def padd(a, b, s=1.0):
    if a is None or b is None:
        return None
    if not b:
        return a
    if not a and s == 1.0:
        return b
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0.0) + s * c
        if abs(v) < 1e-11:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pmul(a, b):
    if a is not None and not a or b is not None and not b:
        return {}
    if a is None or b is None:
        return None
    if len(a) == 1 and () in a:
        k = a[()]
        return {m: c * k for m, c in b.items()} if k != 1.0 else b
    if len(b) == 1 and () in b:
        return pmul(b, a)
    if len(a) * len(b) > 400000:
        return None
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)) if m and n else (m or n)
            v = r.get(k, 0.0) + c * d
            r[k] = v
    for k in [k for k, v in r.items() if abs(v) < 1e-11]:
        del r[k]
    return r


def pscale(a, k):
    if a is None:
        return None
    return {m: c * k for m, c in a.items()} if k else {}


def pneg(a):
    return pscale(a, -1.0)


def pkey(a):
    return tuple(sorted((m, round(c, 9)) for m, c in a.items()))


def pfun(name, a):
    """an uninterpreted function of a polynomial"""
    if a is None:
        return None
    return {(sym((name, pkey(a))),): 1.0}


def pnum(a):
    """the number a constant polynomial is, or None"""
    if a is None:
        return None
    if not a:
        return 0.0
    if len(a) == 1 and () in a:
        return a[()]
    return None


def peq(a, b):
    if a is None or b is None:
        return False
    for m in set(a) | set(b):
        x, y = a.get(m, 0.0), b.get(m, 0.0)
        if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)):
            return False
    return True


def pinv(a):
    k = pnum(a)
    if k is not None:
        if k == 0:
            return None
        return pconst(1.0 / k)
    return pfun('inv', a)


class V(object):
    """a floating value: real and imaginary part (or the two lanes of a vector)"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im=()):
        self.re = re
        self.im = {} if im == () else im


def vadd(a, b, s=1.0):
    return V(padd(a.re, b.re, s), padd(a.im, b.im, s))


def vmul(a, b):
    return V(padd(pmul(a.re, b.re), pmul(a.im, b.im), -1.0), padd(pmul(a.re, b.im), pmul(a.im, b.re)))


def vconj(a):
    return V(a.re, pneg(a.im))


def vdiv(a, b):
    if b.im == {}:
        i = pinv(b.re)
        return V(pmul(a.re, i), pmul(a.im, i))
    if b.re is None or b.im is None:
        return V(None, None)
    n = padd(pmul(b.re, b.re), pmul(b.im, b.im))
    i = pinv(n)
    w = vmul(a, vconj(b))
    return V(pmul(w.re, i), pmul(w.im, i))


def veq(a, b):
    return peq(a.re, b.re) and peq(a.im, b.im)


def num(x):
    if isinstance(x, V):
        return x
    if isinstance(x, (int, float)):
        return V(pconst(x))
    raise Undecided('value')


def pjoin(a, b):
    return a if a is b or (a is not None and b is not None and peq(a, b)) else None


# ------------------------------------------------------------------ memory
class Region(object):
    __slots__ = ('name', 'n', 'cells', 'unit', 'live', 'const')

    def __init__(self, name, n, unit, cells=None):
        self.name, self.n, self.unit = name, n, unit
        self.cells = cells if cells is not None else {}
        self.live = True


class Ptr(object):
    """offset counted in units of the region (its scalar type)"""
    __slots__ = ('r', 'off', 't')

    def __init__(self, r, off, t):
        self.r, self.off, self.t = r, off, t


class Unknown(object):
    """an integer, pointer or aggregate nothing is known about"""
    pass


UNK = Unknown()


class Cmp(Unknown):
    """the truth of a comparison between two known polynomials"""

    def __init__(self, o, a, b):
        self.o, self.a, self.b = o, a, b


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}


def taylor(p, y, k):
    """the polynomials y becomes when sin(p)/p is replaced by its series"""
    fs, fi = pfun('sin', p), pinv(p)
    a, b = next(iter(fs))[0], next(iter(fi), (None,))
    b = b[0] if b else None
    if b is None or fi[(b,)] != 1.0:
        return
    n, c, term, ser = 0, 1.0, pconst(1), pconst(1)
    pp = pmul(p, p)
    while n <= 12:
        if k ** (n + 2) < 1e-9 * math.factorial(n + 3):
            r = {}
            for m, v in y.items():
                if a in m and b in m:
                    m = list(m)
                    m.remove(a)
                    m.remove(b)
                    r = padd(r, pmul({tuple(m): v}, ser))
                else:
                    r = padd(r, {m: v})
            yield r
        n += 2
        term = pscale(pmul(term, pp), -1.0 / (n * (n + 1)))
        ser = padd(ser, term)


def select(c, x, y):
    """the value that is x when the comparison c holds and y otherwise"""
    if x is y or x is not None and y is not None and peq(x, y):
        return x
    if not isinstance(c, Cmp) or x is None or y is None:
        return None
    o, a, b = c.o, c.a, c.b
    if pnum(a) is not None:
        o, a, b = FLIP[o], b, a
    k = pnum(b)
    if k is not None and 0 < k < 1 and len(a) == 1:
        (m, v), = a.items()
        nm = NAMES[m[0]] if len(m) == 1 and v == 1.0 else None
        if isinstance(nm, tuple) and nm[0] == 'abs':
            s, l = (x, y) if o in ('<', '<=') else (y, x)
            # a series below the threshold stands for the function above it
            p = {q: w for q, w in nm[1]}
            for t in taylor(p, l, k):
                if peq(s, t):
                    return l
    cx, cy = pnum(x), pnum(y)
    d = padd(a, b, -1.0)
    if o in ('>', '>='):
        d, o = pneg(d), '<'
    elif o == '<=':
        o = '<'
    if o == '<' and cx is not None and cy is not None and cx == -cy:
        # sign of -d
        return pscale(pfun('sgn', d), cy)
    if o == '!=':
        o, x, y = '==', y, x
    return {(sym(('ite', o, pkey(d), pkey(x), pkey(y))),): 1.0}


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


def bare(t):
    return t.s.replace('const', '').replace('restrict', '').replace('__', '').strip()


def isvec(t):
    return t is not None and t.k == 'vec'


def iscplx(t):
    return t is not None and t.k == 'cplx'


def isflt(t):
    return t is not None and t.k in ('float', 'flt', 'real', 'double')


class Machine(object):
    def __init__(self, prog, opaque=None):
        self.p = prog
        self.steps = 0
        self.depth = 0
        self.funs = set()
        self.opaque = opaque or {}
        self.reads = set()
        self.symb = 0
        self.line = None
        self.file = None
        self.body = None
        self.tiny = None    # how a comparison with the smallest number is decided

    # sizes in scalar units
    def width(self, t):
        """number of scalar cells a value of type t takes"""
        if t is None:
            raise Undecided('type')
        if t.k == 'arr':
            return t.n * self.width(t.e)
        if isvec(t) or iscplx(t):
            return 2
        if t.k == 'rec':
            return sum(self.width(f[1]) for f in self.fields(t))
        return 1

    def fields(self, t):
        fs = self.p.records.get(t.r)
        if not fs:
            raise Undecided('record %s' % t.s)
        return fs

    def elem(self, t):
        if t.k in ('ptr', 'arr'):
            return t.e
        raise Undecided('pointer type')

    def check(self, p, w):
        r = p.r
        if not r.live:
            raise Outside(self.line, '%s is used after it went away' % r.name, self.file)
        if p.off < 0 or r.n is not None and p.off + w > r.n:
            raise Outside(self.line, 'element %s of %s (%s cells)' % (p.off, r.name, r.n), self.file)

    def loadp(self, p, t):
        if not isinstance(p, Ptr):
            return self.unkval(t)
        if t.k == 'arr':
            return Ptr(p.r, p.off, t)
        w = self.width(t)
        self.check(p, w)
        c = p.r.cells
        if w == 2:
            a, b = c.get(p.off, TOP), c.get(p.off + 1, TOP)
            if isinstance(a, (int, Ptr, Unknown)) or isinstance(b, (int, Ptr, Unknown)):
                return V(None, None)
            return V(a, b)
        v = c.get(p.off, TOP)
        if t.k in ('int', 'enum', 'bool') or t.isptr:
            return v if isinstance(v, (int, Ptr)) else UNK
        if isinstance(v, int):
            return V(pconst(v))
        if isinstance(v, (Ptr, Unknown)):
            return V(None)
        return V(v)

    def unkval(self, t):
        if t is None or t.k in ('int', 'enum', 'bool', 'ptr', 'arr', 'rec'):
            return UNK
        return V(None, None if (isvec(t) or iscplx(t)) else {})

    def storep(self, p, t, v):
        if not isinstance(p, Ptr):
            raise Undecided('store through an unknown pointer')
        w = self.width(t)
        self.check(p, w)
        c = p.r.cells
        if w == 2:
            v = num(v)
            c[p.off], c[p.off + 1] = v.re, v.im
        elif t.k in ('int', 'enum', 'bool') or t.isptr:
            c[p.off] = v if not isinstance(v, V) else UNK
        else:
            c[p.off] = num(v).re

    # ------------------------------------------------------------ functions
    def call(self, F, args):
        if self.depth > 12:
            raise Undecided('recursion')
        self.funs.add(F.name.split('@')[0])
        env = {}
        for v, a in zip(F.params, args):
            r = Region(v.name, 1 if not (iscplx(v.type) or isvec(v.type)) else 2, 1)
            env[v.id] = r
            t = v.type
            if t.k == 'rec':
                r.n = self.width(t)
                if isinstance(a, Ptr):
                    self.check(a, r.n)
                    r.cells = {i: a.r.cells[a.off + i] for i in range(r.n) if a.off + i in a.r.cells}
                continue
            if t.k == 'arr':
                t = None
                r.cells[0] = a if isinstance(a, (Ptr, Unknown)) else UNK
            else:
                self.storep(Ptr(r, 0, None), t, self.convert(a, t))
        self.depth += 1
        sv = self.file, self.line, self.body
        self.file, self.body = F.file, F.body
        try:
            self.stmt(F.body, env)
            rv = None
        except _Ret as e:
            rv = e.v
        finally:
            self.depth -= 1
            self.file, self.line, self.body = sv
        if rv is not None and F.ret is not None:
            rv = self.convert(rv, F.ret)
        for r in env.values():
            r.live = False
        return rv

    def convert(self, v, t):
        if t is None:
            return v
        if isvec(t):
            return v if isinstance(v, V) else V(None, None)
        if iscplx(t):
            return num(v) if isinstance(v, (V, int, float)) else V(None, None)
        if t.isptr or t.k == 'arr':
            if isinstance(v, Ptr):
                return Ptr(v.r, v.off, t)
            return v if v == 0 or isinstance(v, Unknown) else UNK
        if t.k in ('int', 'enum', 'bool'):
            if isinstance(v, V):
                k = pnum(v.re)
                return UNK if k is None else int(k)
            if isinstance(v, int) and t.sg == 0 and v < 0 and t.sz:
                return v % (1 << (8 * t.sz))
            return v
        if isinstance(v, (int, float)):
            return V(pconst(v))
        if isinstance(v, V):
            return V(v.re)
        return V(None)

    # ----------------------------------------------------------- statements
    def tick(self, n):
        self.steps += 1
        if n.l:
            self.line = n.l
        if self.steps > STEPS:
            raise Undecided('too many steps')

    def stmt(self, s, env):
        if s is None:
            return
        self.tick(s)
        k = s.k
        if k == 'block':
            for i, x in enumerate(s.b):
                if x is not None and x.k == 'if' and i + 1 < len(s.b) and any(
                        y.k == 'return' for z in (x.a, x.b) if z is not None for y in walk(z)):
                    # an early return: the rest of the block belongs to the other side
                    self.tick(x)
                    c = self.expr(x.c, env)
                    b = self.truth(c)
                    rest = s.b[i + 1:]
                    if b is None:
                        return self.fork([x.a] + rest, [x.b] + rest, env, c, s is self.body)
                    self.stmt(x.a if b else x.b, env)
                    continue
                self.stmt(x, env)
        elif k == 'decl':
            for v in s.v:
                if v.isglobal:
                    continue
                t = v.type
                n = None
                if t.k == 'arr' and t.n is None or v.vla is not None:
                    n = self.expr(v.vla, env) if v.vla is not None else None
                    if not isinstance(n, int):
                        raise Undecided('array of unknown length')
                    n *= self.width(t.e)
                else:
                    n = self.width(t)
                r = env[v.id] = Region(v.name, n, 1)
                if v.init is not None:
                    self.init(Ptr(r, 0, t), t, v.init, env)
        elif k == 'if':
            c = self.expr(s.c, env)
            b = self.truth(c)
            if b is None:
                self.fork(s.a, s.b, env, c)
            elif b:
                self.stmt(s.a, env)
            else:
                self.stmt(s.b, env)
        elif k in ('for', 'while', 'do'):
            self.loop(s, env)
        elif k == 'return':
            raise _Ret(self.expr(s.e, env) if s.e is not None else 0)
        elif k == 'break':
            raise _Brk()
        elif k == 'continue':
            raise _Cont()
        elif k == 'null':
            pass
        elif k in ('switch', 'goto', 'label', 'case', 'default', 'omp'):
            if k == 'switch':
                return self.switch(s, env)
            if k in ('case', 'default', 'label'):
                return self.stmt(s.b, env)
            raise Undecided(k)
        else:
            self.expr(s, env)

    def switch(self, s, env):
        c = self.expr(s.e if s.e is not None else s.c, env)
        if not isinstance(c, int):
            raise Undecided('switch')
        body = s.b.b if s.b is not None and s.b.k == 'block' else [s.b]
        on = False
        try:
            for want in (True, False):
                for x in body:
                    y = x
                    while not on and y is not None and y.k in ('case', 'default'):
                        if y.k == 'case' and cval(y.v if isinstance(y.v, core.Node) else y.e) == c:
                            on = True
                        elif y.k == 'default' and not want:
                            on = True
                        else:
                            y = y.b
                    if on:
                        self.stmt(x, env)
                if on:
                    break
        except _Brk:
            pass

    def init(self, p, t, e, env):
        if e.k == 'init':
            es = e.es or []
            if t.k != 'arr':
                if len(es) == 1:
                    return self.storep(p, t, self.convert(self.expr(es[0], env), t))
                raise Undecided('initialiser')
            w = self.width(t.e)
            for i in range(p.off, p.off + self.width(t)):
                p.r.cells[i] = 0 if t.e.k in ('int', 'enum') else {}
            for i, x in enumerate(es):
                if x.k == 'zero' or x.k is None:
                    continue
                self.init(Ptr(p.r, p.off + i * w, t.e), t.e, x, env)
            return
        self.storep(p, t, self.convert(self.expr(e, env), t))

    def loop(self, s, env):
        if s.k == 'for' and s.init is not None:
            self.stmt(s.init, env)
        first = s.k == 'do'
        while True:
            if not first and s.c is not None:
                b = self.truth(self.expr(s.c, env))
                if b is None:
                    raise Undecided('loop bound')
                if not b:
                    break
            first = False
            self.tick(s)
            try:
                self.stmt(s.b, env)
            except _Brk:
                break
            except _Cont:
                pass
            if s.k == 'for' and s.inc is not None:
                self.expr(s.inc, env)

    def regions(self, env):
        out, todo = {}, [r for r in env.values() if isinstance(r, Region)] + list(self.roots)
        while todo:
            r = todo.pop()
            if id(r) in out:
                continue
            out[id(r)] = r
            for v in r.cells.values():
                if isinstance(v, Ptr):
                    todo.append(v.r)
        return out

    roots = ()

    def fork(self, a, b, env, c=None, end=False):
        regs = self.regions(env)
        self.roots = tuple(self.roots)
        save = {k: dict(r.cells) for k, r in regs.items()}
        outs = []
        for side in (a, b):
            for k, r in regs.items():
                r.cells = dict(save[k])
            e2 = dict(env)
            ex = None
            try:
                for x in side if isinstance(side, list) else [side]:
                    self.stmt(x, e2)
            except (_Ret, _Brk, _Cont) as x:
                ex = x
            outs.append(({k: r.cells for k, r in regs.items()}, ex))
        (ca, xa), (cb, xb) = outs
        if end and xa is None and isinstance(xb, _Ret):
            xa = xb
        if end and xb is None and isinstance(xa, _Ret):
            xb = xa
        if (type(xa) is not type(xb)):
            raise Undecided('a branch on an unknown value leaves the construct')
        for k, r in regs.items():
            u, v = ca[k], cb[k]
            m = {}
            for i in set(u) & set(v):
                x, y = u.get(i), v.get(i)
                if x is y:
                    m[i] = x
                elif isinstance(x, dict) and isinstance(y, dict):
                    m[i] = select(c, x, y)
                elif isinstance(x, int) and isinstance(y, int) and x == y:
                    m[i] = x
                elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r and x.off == y.off:
                    m[i] = x
                elif isinstance(x, (dict, type(None))) and isinstance(y, (dict, type(None))):
                    m[i] = None
                else:
                    m[i] = UNK
            r.cells = m
        if isinstance(xa, _Ret):
            if isinstance(xa.v, V) and isinstance(xb.v, V):
                raise _Ret(V(select(c, xa.v.re, xb.v.re), select(c, xa.v.im, xb.v.im)))
            raise _Ret(xa.v if isinstance(xa.v, int) and isinstance(xb.v, int) and xa.v == xb.v else UNK)
        if xa is not None:
            raise xa

    # ---------------------------------------------------------- expressions
    def truth(self, v):
        if isinstance(v, (int, float)):
            return bool(v)
        if isinstance(v, Ptr):
            return True
        if isinstance(v, V):
            k = pnum(v.re) if v.im == {} else None
            return None if k is None else bool(k)
        return None

    def lval(self, e, env):
        """(pointer, type) of an lvalue"""
        k = e.k
        if k == 'ref':
            r = env.get(e.d)
            if r is None:
                r = self.globalvar(e)
            if r is UNK:
                return UNK, e.t
            v = self.p.vars.get(e.d)
            t = v.type if v is not None else e.t
            if v is not None and v.isparam and t.k == 'arr':
                return Ptr(r, 0, e.t), e.t
            return Ptr(r, 0, t), t
        if k == 'idx':
            p = self.expr(e.a, env)
            i = self.expr(e.i, env)
            if isinstance(i, (Ptr, Unknown)) and isinstance(p, int):
                p, i = i, p
            return self.padd(p, i, e.t), e.t
        if k == 'un' and e.o == '*':
            p = self.expr(e.e, env)
            return (Ptr(p.r, p.off, e.t) if isinstance(p, Ptr) else UNK), e.t
        if k == 'un' and e.o in ('__real', '__imag', '__real__', '__imag__'):
            p, t = self.lval(e.e, env)
            if isinstance(p, Ptr):
                return Ptr(p.r, p.off + (1 if 'imag' in e.o else 0), e.t), e.t
            return UNK, e.t
        if k in ('cast', 'const'):
            return self.lval(e.e, env)
        if k == 'mem':
            return self.member(e, env)
        raise Undecided('lvalue %s' % k)

    def member(self, e, env):
        b = self.expr(e.e, env) if e.arrow else self.lval(e.e, env)[0]
        if not isinstance(b, Ptr):
            return UNK, e.t
        rt = e.e.t.e if e.arrow else e.e.t
        off = 0
        for f in self.fields(rt):
            if f[0] == e.n:
                return Ptr(b.r, b.off + off, f[1]), f[1]
            off += self.width(f[1])
        raise Undecided('member %s' % e.n)

    def padd(self, p, i, t):
        if not isinstance(p, Ptr):
            return UNK
        if not isinstance(i, int):
            raise Undecided('index')
        return Ptr(p.r, p.off + i * self.width(t), t)

    def globalvar(self, e):
        g = self.globals_.get(e.d) if hasattr(self, 'globals_') else None
        if g is None:
            if not hasattr(self, 'globals_'):
                self.globals_ = {}
            v = self.p.vars.get(e.d)
            if v is None:
                g = UNK
            else:
                try:
                    g = Region(v.name, self.width(v.type), 1)
                    if v.init is not None and v.type.k != 'rec' and (v.type.c or v.static or v.type.k == 'arr'):
                        self.init(Ptr(g, 0, v.type), v.type, v.init, {})
                except Undecided:
                    g = UNK
            self.globals_[e.d] = g
        return g

    def expr(self, e, env):
        k = e.k
        if k == 'int':
            return e.v
        if e.cv is not None and k not in ('asg',) and isinstance(e.cv, int) and not (e.t and (iscplx(e.t) or isvec(e.t))) \
                and (e.t is None or e.t.k in ('int', 'enum', 'bool')):
            return e.cv if k != 'cast' or not isinstance(e.e, core.Node) or e.e.k == 'int' else self._cast(e, env)
        if k == 'flt':
            return V(pconst(float(e.v)))
        if k in ('ref', 'idx', 'mem') or k == 'un' and e.o == '*':
            if k == 'ref' and e.fn:
                return UNK
            if k == 'ref' and e.t is not None and e.t.k == 'enum' and e.cv is not None:
                return e.cv
            p, t = self.lval(e, env)
            if t is not None and t.k == 'arr':
                return Ptr(p.r, p.off, t) if isinstance(p, Ptr) else UNK
            if t is not None and t.k == 'rec':
                return UNK
            return self.loadp(p, t)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Undecided('expression %s' % k)
        return m(e, env)

    def e_const(self, e, env):
        return self.expr(e.e, env)

    def e_paren(self, e, env):
        return self.expr(e.e, env)

    def e_stmtexpr(self, e, env):
        b = e.b.b
        for x in b[:-1]:
            self.stmt(x, env)
        return self.expr(b[-1], env)

    def e_clit(self, e, env):
        return self.expr(e.e, env)

    def e_zero(self, e, env):
        return 0

    def e_init(self, e, env):
        es = e.es or []
        if isvec(e.t) or iscplx(e.t):
            x = [num(self.expr(y, env)) for y in es]
            if len(x) == 2:
                return V(x[0].re, x[1].re)
        raise Undecided('initialiser')

    def e_sizeof(self, e, env):
        return e.cv if e.cv is not None else (e.v if isinstance(e.v, int) else UNK)

    def e_str(self, e, env):
        return UNK

    def e_imag(self, e, env):
        return V({}, pconst(float(e.e.v)))

    def _cast(self, e, env):
        return self.e_cast(e, env)

    def e_cast(self, e, env):
        v = self.expr(e.e, env)
        return self.convert(v, e.t)

    def e_cond(self, e, env):
        c = self.expr(e.c, env)
        b = self.truth(c)
        if b is None:
            x, y = self.expr(e.a, env), self.expr(e.b, env)
            if isinstance(x, V) or isinstance(y, V):
                x, y = num(x), num(y)
                return V(select(c, x.re, y.re), select(c, x.im, y.im))
            return x if isinstance(x, int) and x == y else UNK
        return self.expr(e.a if b else e.b, env)

    def e_un(self, e, env):
        o = e.o
        if o in ('p++', 'p--', 'q++', 'q--'):
            p, t = self.lval(e.e, env)
            v = self.loadp(p, t)
            d = 1 if '+' in o else -1
            if isinstance(v, int):
                w = v + d
            elif isinstance(v, Ptr):
                w = Ptr(v.r, v.off + d * self.width(t.e), t)
            elif isinstance(v, V):
                w = vadd(v, num(d))
            else:
                w = UNK
            self.storep(p, t, w)
            return w if o[0] == 'p' else v
        if o == '&':
            p, t = self.lval(e.e, env)
            return Ptr(p.r, p.off, e.t) if isinstance(p, Ptr) else UNK
        v = self.expr(e.e, env)
        if o == '+':
            return v
        if o == '-':
            if isinstance(v, V):
                return V(pneg(v.re), pneg(v.im))
            return -v if isinstance(v, int) else UNK
        if o == '!':
            b = self.truth(v)
            return UNK if b is None else int(not b)
        if o == '~':
            if isinstance(v, V):
                return vconj(v)
            return ~v if isinstance(v, int) else UNK
        if 'real' in o:
            v = num(v)
            return V(v.re)
        if 'imag' in o:
            v = num(v)
            return V(v.im)
        if o == '__extension__':
            return v
        raise Undecided('operator %s' % o)

    def e_bin(self, e, env):
        o = e.o
        if o == ',':
            self.expr(e.a, env)
            return self.expr(e.b, env)
        if o in ('&&', '||'):
            b = self.truth(self.expr(e.a, env))
            if b is not None and (not b if o == '&&' else b):
                return int(b)
            c = self.truth(self.expr(e.b, env))
            if b is None or c is None:
                return UNK if not (c is not None and (not c if o == '&&' else c)) else int(c)
            return int(c)
        return self.arith(o, self.expr(e.a, env), self.expr(e.b, env), e)

    def arith(self, o, a, b, e):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if o in ('+', '-') and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.r, a.off + (b if o == '+' else -b) * self.width(a.t.e), a.t)
            if o == '+' and isinstance(a, int):
                return Ptr(b.r, b.off + a * self.width(b.t.e), b.t)
            if o in ('==', '!='):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                    return int((a.off == b.off) == (o == '=='))
                if 0 in (a, b):
                    return int(o == '!=')
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                if o in ('+', '-'):
                    raise Undecided('index')
            return UNK
        if isinstance(a, int) and isinstance(b, int):
            u = e.t is not None and e.t.k in ('int', 'enum', 'bool') and e.t.sg == 0 and e.t.sz
            r = self.iarith(o, a, b)
            return r % (1 << (8 * e.t.sz)) if u and isinstance(r, int) and o in ('+', '-', '*', '<<') else r
        if isinstance(a, V) or isinstance(b, V):
            if isinstance(a, Unknown):
                a = V(None)
            if isinstance(b, Unknown):
                b = V(None)
            a, b = num(a), num(b)
            if isvec(e.t) and o in ('*', '/', '+', '-'):
                if o == '*':
                    return V(pmul(a.re, b.re), pmul(a.im, b.im))
                if o == '/':
                    return V(pmul(a.re, pinv(b.re)), pmul(a.im, pinv(b.im)))
            if o == '+':
                return vadd(a, b)
            if o == '-':
                return vadd(a, b, -1.0)
            if o == '*':
                return vmul(a, b)
            if o == '/':
                return vdiv(a, b)
            x, y = pnum(a.re), pnum(b.re)
            if x is not None and y is not None and a.im == {} and b.im == {}:
                return self.iarith(o, x, y)
            if o in FLIP and a.im == {} and b.im == {} and a.re is not None and b.re is not None:
                if self.tiny is not None and o in ('<', '<=') and y is not None and 0 <= y <= 1e-30 and (y or o == '<=') \
                        and len(a.re) > 1:
                    return int(self.tiny)
                return Cmp(o, a.re, b.re)
            return UNK
        return UNK

    def iarith(self, o, a, b):
        try:
            if o == '+':
                return a + b
            if o == '-':
                return a - b
            if o == '*':
                return a * b
            if o == '/':
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            if o == '%':
                return int(math.fmod(a, b))
            if o == '<<':
                return a << b
            if o == '>>':
                return a >> b
            if o == '&':
                return a & b
            if o == '|':
                return a | b
            if o == '^':
                return a ^ b
            return int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[o])
        except (ZeroDivisionError, KeyError, TypeError):
            return UNK

    def e_asg(self, e, env):
        if e.a.t is not None and e.a.t.k == 'rec':
            return UNK
        b = self.expr(e.b, env)
        p, t = self.lval(e.a, env)
        if e.o != '=':
            a = self.loadp(p, t)
            r = self.arith(e.o[:-1], a, b, e.a)
        else:
            r = b
        r = self.convert(r, t)
        self.storep(p, t, r)
        return r

    # ---------------------------------------------------------------- calls
    def e_call(self, e, env):
        fn = e.fn.split('@')[0] if e.fn else None
        if fn is None:
            raise Undecided('indirect call')
        args = [self.expr(a, env) for a in e.args]
        if fn in self.opaque:
            return self.opaque[fn](self, args, e)
        m = INTR.get(fn)
        if m is not None:
            return m(self, args, e)
        F = self.p.funcs.get(e.fn)
        if F is None:
            F = self.p.funcs.get(fn)
        if F is None:
            if e.t is not None and e.t.s != 'void' and not any(isinstance(a, Ptr) for a in args):
                return self.unkval(e.t)
            if fn in ('printf', 'fprintf', 'puts', 'free', 'abort', 'exit'):
                return UNK
            raise Undecided('call of %s' % fn)
        return self.call(F, args)


def _v(f):
    return lambda m, a, e: f(*[num(x) for x in a])


def _fun(name):
    def g(m, a, e):
        x = num(a[0])
        k = pnum(x.re)
        if k is not None and x.im == {}:
            try:
                return V(pconst(getattr(math, name)(k)))
            except (AttributeError, ValueError):
                pass
        return V(pfun(name, x.re))
    return g


def _abs(m, a, e):
    x = num(a[0])
    k = pnum(x.re)
    if k is not None:
        return V(pconst(abs(k)))
    return V(pfun('abs', x.re))


def _cfun(name):
    def g(m, a, e):
        x = num(a[0])
        if x.re is None or x.im is None:
            return V(None, None)
        k = (name, pkey(x.re), pkey(x.im))
        return V({(sym(k + ('r',)),): 1.0}, {(sym(k + ('i',)),): 1.0})
    return g


def _carg(m, a, e):
    x = num(a[0])
    if x.re is None or x.im is None:
        return V(None)
    return V({(sym(('carg', pkey(x.re), pkey(x.im))),): 1.0})


def _cabs(m, a, e):
    x = num(a[0])
    return V(pfun('sqrt', padd(pmul(x.re, x.re), pmul(x.im, x.im))))


def _pow(m, a, e):
    x, y = num(a[0]), num(a[1])
    k = pnum(y.re)
    if k is not None and k == int(k) and 0 <= k <= 8:
        r = V(pconst(1))
        for _ in range(int(k)):
            r = vmul(r, x)
        return r
    return V(None)


def _mem(name):
    def g(m, a, e):
        n = a[-1]
        p = a[0]
        if not isinstance(p, Ptr) or not isinstance(n, int):
            raise Undecided(name)
        # bytes -> cells: the scalar of the pointed-to type
        t = strip(e.args[0]).t
        el = t.e if t is not None and t.k in ('ptr', 'arr') else None
        while el is not None and el.k == 'arr':
            el = el.e
        if el is None or not el.sz:
            raise Undecided(name)
        w = m.width(el)
        cells = n * w // el.sz
        if name == 'memset':
            if a[1] != 0:
                raise Undecided('memset')
            m.check(p, cells)
            for i in range(cells):
                p.r.cells[p.off + i] = {} if el.k not in ('int', 'enum') else 0
        else:
            q = a[1]
            if not isinstance(q, Ptr):
                raise Undecided(name)
            m.check(p, cells)
            m.check(q, cells)
            tmp = [q.r.cells.get(q.off + i) for i in range(cells)]
            for i in range(cells):
                p.r.cells[p.off + i] = tmp[i]
        return p
    return g


def _shuf(m, a, e):
    x, y, k = num(a[0]), num(a[1]), a[2]
    if not isinstance(k, int):
        raise Undecided('shuffle')
    return V(x.im if k & 1 else x.re, y.im if k & 2 else y.re)


def _storeu(m, a, e):
    m.storep2(a[0], num(a[1]))


def _st(m, p, v):
    if not isinstance(p, Ptr):
        raise Undecided('store')
    m.check(p, 2)
    p.r.cells[p.off], p.r.cells[p.off + 1] = v.re, v.im


def _st1(m, a, e):
    if not isinstance(a[0], Ptr):
        raise Undecided('store')
    m.check(a[0], 1)
    a[0].r.cells[a[0].off] = num(a[1]).re


def _ld(m, p):
    if not isinstance(p, Ptr):
        return V(None, None)
    m.check(p, 2)
    f = lambda v: v if isinstance(v, dict) else None
    return V(f(p.r.cells.get(p.off)), f(p.r.cells.get(p.off + 1)))


def _one(m, p):
    m.check(p, 1)
    v = p.r.cells.get(p.off)
    return V(v if isinstance(v, dict) else None)


def _dup(m, p):
    v = _one(m, p)
    return V(v.re, v.re)


def _xor(m, a, e):
    # only sign flips: a lane of the mask is -0.0 or 0.0
    x = num(a[0])
    s = signs(e.args[1])
    y = x
    if s is None:
        s = signs(e.args[0])
        y = num(a[1])
    if s is None:
        return V(None, None)
    return V(pneg(y.re) if s[0] else y.re, pneg(y.im) if s[1] else y.im)


def _isneg0(e):
    while e.k in ('cast', 'const', 'paren'):
        e = e.e
    if e.k == 'un' and e.o == '-':
        x = e.e
        while x.k in ('cast', 'const', 'paren'):
            x = x.e
        if x.k in ('flt', 'int') and float(x.v) == 0:
            return True
    if e.k in ('flt', 'int') and float(e.v) == 0:
        return False
    return None


def signs(e):
    while e.k in ('cast', 'const', 'paren'):
        e = e.e
    if e.k == 'call' and e.fn:
        f = e.fn.split('@')[0]
        s = [_isneg0(a) for a in e.args]
        if None in s:
            return None
        if f == '_mm_set1_pd':
            return s[0], s[0]
        if f == '_mm_set_pd':
            return s[1], s[0]
        if f == '_mm_setr_pd':
            return s[0], s[1]
    return None


def _alloc(m, a, e):
    m.nalloc = getattr(m, 'nalloc', 0) + 1
    return Ptr(Region('allocated at line %s' % e.l, None, 1), 0, e.t)


def _sincos(m, a, e):
    x = num(a[0])
    for p, n in ((a[1], 'sin'), (a[2], 'cos')):
        if not isinstance(p, Ptr):
            raise Undecided('sincos')
        m.storep(p, p.t.e if p.t.isptr else p.t, V(pfun(n, x.re)))
    return UNK


INTR = {
    'sincos': _sincos,
    'malloc': _alloc, 'calloc': _alloc,
    'creal': _v(lambda a: V(a.re)), 'cimag': _v(lambda a: V(a.im)), 'conj': _v(vconj),
    'crealf': _v(lambda a: V(a.re)), 'cimagf': _v(lambda a: V(a.im)), 'conjf': _v(vconj),
    'fabs': _abs, 'fabsf': _abs, 'cabs': _cabs, 'cabsf': _cabs, 'carg': _carg, 'pow': _pow,
    'memset': _mem('memset'), 'memcpy': _mem('memcpy'),
    '_mm_add_pd': _v(vadd), '_mm_sub_pd': _v(lambda a, b: vadd(a, b, -1.0)),
    '_mm_mul_pd': _v(lambda a, b: V(pmul(a.re, b.re), pmul(a.im, b.im))),
    '_mm_div_pd': _v(lambda a, b: V(pmul(a.re, pinv(b.re)), pmul(a.im, pinv(b.im)))),
    '_mm_sqrt_pd': _v(lambda a: V(pfun('sqrt', a.re), pfun('sqrt', a.im))),
    '_mm_addsub_pd': _v(lambda a, b: V(padd(a.re, b.re, -1.0), padd(a.im, b.im))),
    '_mm_fmadd_pd': _v(lambda a, b, c: V(padd(pmul(a.re, b.re), c.re), padd(pmul(a.im, b.im), c.im))),
    '_mm_fmsub_pd': _v(lambda a, b, c: V(padd(pmul(a.re, b.re), c.re, -1.0), padd(pmul(a.im, b.im), c.im, -1.0))),
    '_mm_fmaddsub_pd': _v(lambda a, b, c: V(padd(pmul(a.re, b.re), c.re, -1.0), padd(pmul(a.im, b.im), c.im))),
    '_mm_fnmadd_pd': _v(lambda a, b, c: V(padd(c.re, pmul(a.re, b.re), -1.0), padd(c.im, pmul(a.im, b.im), -1.0))),
    '_mm_hadd_pd': _v(lambda a, b: V(padd(a.re, a.im), padd(b.re, b.im))),
    '_mm_hsub_pd': _v(lambda a, b: V(padd(a.re, a.im, -1.0), padd(b.re, b.im, -1.0))),
    '_mm_movedup_pd': _v(lambda a: V(a.re, a.re)),
    '_mm_unpacklo_pd': _v(lambda a, b: V(a.re, b.re)), '_mm_unpackhi_pd': _v(lambda a, b: V(a.im, b.im)),
    '_mm_move_sd': _v(lambda a, b: V(b.re, a.im)),
    '_mm_setzero_pd': lambda m, a, e: V({}, {}),
    '_mm_set1_pd': _v(lambda a: V(a.re, a.re)), '_mm_set_pd': _v(lambda a, b: V(b.re, a.re)),
    '_mm_setr_pd': _v(lambda a, b: V(a.re, b.re)), '_mm_set_sd': _v(lambda a: V(a.re, {})),
    '_mm_cvtsd_f64': _v(lambda a: V(a.re)),
    '_mm_loadu_pd': lambda m, a, e: _ld(m, a[0]), '_mm_load_pd': lambda m, a, e: _ld(m, a[0]),
    '_mm_storeu_pd': lambda m, a, e: _st(m, a[0], num(a[1])), '_mm_store_pd': lambda m, a, e: _st(m, a[0], num(a[1])),
    '_mm_store_sd': _st1, '_mm_storel_pd': _st1, '_mm_loaddup_pd': lambda m, a, e: _dup(m, a[0]),
    '_mm_load_sd': lambda m, a, e: _one(m, a[0]), '_mm_load1_pd': lambda m, a, e: _dup(m, a[0]),
    '_mm_xor_pd': _xor, '__builtin_ia32_shufpd': _shuf, '_mm_shuffle_pd': _shuf,
    '_mm_add_sd': _v(lambda a, b: V(padd(a.re, b.re), a.im)), '_mm_sub_sd': _v(lambda a, b: V(padd(a.re, b.re, -1.0), a.im)),
    '_mm_mul_sd': _v(lambda a, b: V(pmul(a.re, b.re), a.im)),
}
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'neq'):
    INTR['_mm_ucomi%s_sd' % _n] = INTR['_mm_comi%s_sd' % _n] = lambda m, a, e: UNK
for _n in ('sqrt', 'sin', 'cos', 'exp', 'log', 'acos', 'asin', 'atan', 'sqrtf', 'tan'):
    INTR[_n] = _fun(_n)
for _n in ('csqrt', 'cexp', 'clog', 'cpow'):
    INTR[_n] = _cfun(_n)
