"""Identity of two polynomials in entries and traces of words of links.

Two abstract values of the word domain are polynomials over symbols that are
themselves polynomials of the entries of the (special unitary) link matrices. They
are compared by evaluating both at generic points of SU(N) (Schwartz-Zippel); a
polynomial that vanishes at every point drawn is the zero polynomial on the group."""
import os
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import hashlib
import numpy as np
from .polyval import NAMES, sym, Undecided
from .wordval import ELEMS


class Point(object):
    def __init__(self, n, seed):
        self.n, self.seed = n, seed
        self.mats, self.words, self.vals = {}, {}, {}

    def rng(self, key):
        h = hashlib.sha256(repr((self.seed, key)).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], 'little'))

    def letter(self, l):
        key = l[:-1]
        m = self.mats.get(key)
        if m is None and l[0] == 'F' and l[1] == 'elems':
            m = np.array([self.poly(v.re)[0] + 1j * self.poly(v.im)[0] for v in ELEMS[l[2]]]).reshape(self.n, self.n)
            self.mats[key] = m
        if m is None:
            r = self.rng(key)
            m = r.normal(size=(self.n, self.n)) + 1j * r.normal(size=(self.n, self.n))
            if l[0] in 'UG':
                q, t = np.linalg.qr(m)
                m = q * (np.diag(t) / abs(np.diag(t)))
                m = m / np.linalg.det(m) ** (1.0 / self.n)
            elif l[3]:
                m = (m + m.conj().T) / 2
                if l[3] == 2:
                    m = m - np.eye(self.n) * np.trace(m) / self.n
            self.mats[key] = m
        return m.conj().T if l[-1] and not (l[0] == 'F' and l[3]) else m

    def word(self, w):
        m = self.words.get(w)
        if m is None:
            m = np.eye(self.n, dtype=complex)
            for l in w:
                m = m @ self.letter(l)
            self.words[w] = m
        return m

    def sym(self, s):
        v = self.vals.get(s)
        if v is not None:
            return v
        nm = NAMES[s]
        k = nm[0] if isinstance(nm, tuple) else None
        if k == 't':
            z = np.trace(self.word(nm[1]))
            v = z.real if nm[2] == 're' else z.imag
        elif k == 'e':
            z = self.word(nm[1])[nm[2], nm[3]]
            v = z.real if nm[4] == 're' else z.imag
        elif k == '1/':
            v = 1.0 / self.sym(sym(nm[1]))
        elif k == 'inv' and isinstance(nm[1], tuple):
            v = 1.0 / self.poly(dict(nm[1]))[0]
        elif k == 'sqrt' and isinstance(nm[1], tuple):
            v = abs(self.poly(dict(nm[1]))[0]) ** 0.5
        else:
            v = self.rng(('s', nm)).uniform(0.5, 1.5)
        self.vals[s] = v
        return v

    def poly(self, p):
        t = a = 0.0
        for m, c in p.items():
            for s in m:
                c *= self.sym(s)
            t += c
            a += abs(c)
        return t, a

    def words_sum(self, w):
        t = np.zeros((self.n, self.n), dtype=complex)
        a = 0.0
        for l, c in w.items():
            if c.re is None or c.im is None:
                raise Undecided('an unknown coefficient')
            z = self.poly(c.re)[0] + 1j * self.poly(c.im)[0]
            t = t + z * self.word(l)
            a += abs(z) * np.abs(self.word(l)).max()
        return t, a


_points = {}


def points(n):
    if n not in _points:
        _points[n] = [Point(n, s) for s in (1, 2)]
    return _points[n]


def equal(a, b, n):
    for pt in points(n):
        x, ax = pt.poly(a)
        y, ay = pt.poly(b)
        if abs(x - y) > 1e-8 * (ax + ay + 1e-12):
            return False
    return True


def wequal(a, b, n):
    for pt in points(n):
        x, ax = pt.words_sum(a)
        y, ay = pt.words_sum(b)
        if np.abs(x - y).max() > 1e-8 * (ax + ay + 1e-12):
            return False
    return True


def fit(a, parts, n):
    """real coefficients with a = sum of coefficient * part at a generic point, (None, ...) if there are none"""
    pt = points(n)[0]
    x, ax = pt.words_sum(a)
    m = np.array([pt.words_sum(p)[0].ravel() for p in parts]).T
    c = np.linalg.lstsq(np.vstack([m.real, m.imag]), np.concatenate([x.ravel().real, x.ravel().imag]), rcond=None)[0]
    if np.abs(m @ c - x.ravel()).max() > 1e-8 * (ax + 1e-12):
        return [None] * len(parts)
    return [float(z) for z in c]
