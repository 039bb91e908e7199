"""Failure-token dataflow.  Along every path of every function the analysis
tracks which calls have failed so far and the abstract values of scalar
variables; a path that leaves a function with a failure behind it must return
a value the caller can tell from success.  Callee behaviour comes from
summaries computed bottom-up over the call graph."""
from .core import Node, cval, walk, text, strip, AnalysisError
from .cfg import CFG

TOP = None
FAIL = ('c', -1)
MAXSTATES = 60000


def norm(k):
    if k >= 2 ** 63:
        k -= 2 ** 64
    return -1 if k == 2 ** 32 - 1 else k


def vne(v, k):
    """is v certainly different from k?"""
    if v is None:
        return None
    if v[0] == 'c':
        return v[1] != k
    if v[0] == 'ne' and k in v[1]:
        return True
    return None


def mayeq(a, b):
    if a is None or b is None:
        return True
    if a[0] == 'c' and b[0] == 'c':
        return a[1] == b[1]
    if a[0] == 'c' and b[0] == 'ne':
        return a[1] not in b[1]
    if a[0] == 'ne' and b[0] == 'c':
        return b[1] not in a[1]
    return True


class State(object):
    __slots__ = ('env', 'pend', 'key')

    def __init__(self, env, pend):
        self.env, self.pend = env, pend
        self.key = (frozenset(env.items()), pend)

    def set(self, k, v):
        env = dict(self.env)
        if v is None:
            env.pop(k, None)
        else:
            env[k] = v
        return State(env, self.pend)

    def fail(self, o):
        return State(self.env, self.pend | frozenset((o,)))


class Summary(object):
    __slots__ = ('outs', 'handled')

    def __init__(self):
        self.outs = set()    # (value, failed)


# external calls that can fail: name -> (failing value, successful value)
SHORT, FULL = ('short',), ('full',)
EXTERN_IO = {'fopen': (('c', 0), ('ne', frozenset((0,)))),
             'fread': (SHORT, FULL),
             'fflush': (('ne', frozenset((0,))), ('c', 0)),
             'fseek': (('ne', frozenset((0,))), ('c', 0))}
EXTERN_ALLOC = {'malloc': (('c', 0), ('ne', frozenset((0,)))),
                'calloc': (('c', 0), ('ne', frozenset((0,)))),
                'realloc': (('c', 0), ('ne', frozenset((0,)))),
                'fftw_malloc': (('c', 0), ('ne', frozenset((0,)))),
                'fftwf_malloc': (('c', 0), ('ne', frozenset((0,)))),
                'posix_memalign': (('ne', frozenset((0,))), ('c', 0))}


WTOK = ('write', 0, 'w')
STREAM = {'fwrite': (3, (SHORT, FULL)),
          'fprintf': (0, (('c', -1), ('ne', frozenset((-1,))))), 'fputs': (1, (('c', -1), ('ne', frozenset((-1,))))),
          'fputc': (1, (('c', -1), ('ne', frozenset((-1,)))))}


class Analyzer(object):

    def __init__(self, prog, externs, accepted, opaque=()):
        """externs: fallible external functions; accepted: predicate
        (function name, callee name) -> reason or None: failures of the callee
        this function legitimately absorbs"""
        self.prog, self.externs, self.accepted = prog, externs, accepted
        self.blind = set()
        self.refined = lambda F, le, k, S: S
        self.tolerate = lambda F, o, rv: None
        self.opaque = set(opaque)
        self.sums = {}
        self.reports = []     # (func, origin, exitnode, retval, trace)
        self.stats = dict(functions=0, fallible_call_sites=set(), failing_exits=0, states=0, accepted=set(),
                          branches=0, writes=set(), closes=set())
        self.streams = True
        self._modes = {}
        self.taken = {}
        for f in prog.funcs.values():
            called = set()
            for n in walk(f.body):
                if n.k == 'ref' and n.fn:
                    self.taken.setdefault(n.t.s.replace('*', ''), set()).add(n.fn)
        self.nctx = {}
        self.stack, self.low = [], []
        self.graph()

    # --------------------------------------------------------------- streams
    @staticmethod
    def isstream(a):
        t = strip(a).t
        return t is not None and t.k == 'ptr' and t.e is not None and 'FILE' in t.e.s

    def modes(self, F, x):
        """the modes with which the stream x was opened in F"""
        d = self.openmodes(F)
        return d.get(text(x), ())

    def openmodes(self, F):
        d = self._modes.get(F.key)
        if d is None:
            d = self._modes[F.key] = {}
            for n in walk(F.body):
                prs = []
                if n.k == 'asg':
                    prs.append((text(strip(n.a)), n.b))
                elif n.k == 'decl':
                    prs += [(v.name, v.init) for v in n.v if v.init is not None]
                for nm, rhs in prs:
                    r = strip(rhs)
                    if r.k == 'call' and r.fn == 'fopen':
                        m = strip(r.args[1])
                        d.setdefault(nm, set()).add((m.v or "") if m.k == "str" else "w")
        return d

    def owner(self, F):
        return any(set(m) & set('wa+') for ms in self.openmodes(F).values() for m in ms)

    # ------------------------------------------------------------ call graph
    def targets(self, call):
        if call.fn:
            return [call.fn]
        t = call.fe.t
        while t.k == 'ptr':
            t = t.e
        res = []
        for f in sorted(set(x for s in self.taken.values() for x in s)):
            F = self.prog.funcs.get(f)
            if F is not None and len(F.params) == len(call.args) and (t.ret is None or F.ret.s == t.ret.s):
                if t.ps is None or [p.type.s for p in F.params] == [p.s for p in t.ps]:
                    res.append(f)
        return res

    def graph(self):
        self.edges = {}
        for k, f in self.prog.funcs.items():
            e = set()
            for n in walk(f.body):
                if n.k == 'call':
                    e.update(t for t in self.targets(n) if t in self.prog.funcs)
            self.edges[k] = e

    def order(self):
        """callees first (Tarjan); returns list of SCCs"""
        index, low, on, st, out = {}, {}, set(), [], []
        ctr = [0]

        def go(v):
            work = [(v, iter(sorted(self.edges[v])))]
            index[v] = low[v] = ctr[0]
            ctr[0] += 1
            st.append(v)
            on.add(v)
            while work:
                x, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = ctr[0]
                        ctr[0] += 1
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(sorted(self.edges[w]))))
                        adv = True
                        break
                    elif w in on:
                        low[x] = min(low[x], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == index[x]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == x:
                            break
                    out.append(c)
        for v in sorted(self.edges):
            if v not in index:
                go(v)
        return out

    def run(self):
        called = set(t for es in self.edges.values() for t in es)
        roots = [k for k in sorted(self.prog.funcs) if k == 'main' or k not in called]
        self.reached = set()
        for k in roots:
            self.summary(k, ())
        # functions only reached through a call that never happens with a
        # feasible state (or only from a cycle)
        for k in sorted(self.prog.funcs):
            if k not in self.reached:
                self.summary(k, ())
        return self

    def summary(self, key, ctx):
        """ctx: ((param index, constant), ...)"""
        F = self.prog.funcs[key]
        sm = self.sums.get((key, ctx))
        if sm is not None:
            if (key, ctx) in self.stack:
                # a cycle: everything above is provisional until its head is stable
                i = self.stack.index((key, ctx))
                self.low[-1] = min(self.low[-1], i)
            return sm
        n = self.nctx.get(key, 0)
        if ctx and n >= 40:
            return self.summary(key, ())
        self.nctx[key] = n + 1
        sm = self.sums[(key, ctx)] = Summary()
        self.reached.add(key)
        save = (self.__dict__.get('cur'), self.__dict__.get('rel'), self.__dict__.get('curctx'))
        me = len(self.stack)
        self.stack.append((key, ctx))
        while True:
            self.low.append(me + 1)
            was = set(sm.outs)
            self.function(F, ctx, sm)
            low = self.low.pop()
            if low > me or sm.outs == was:
                break
        self.stack.pop()
        if low < me:
            # part of a cycle whose head is below: provisional
            del self.sums[(key, ctx)]
            if self.low:
                self.low[-1] = min(self.low[-1], low)
        self.cur, self.rel, self.curctx = save
        return sm

    # -------------------------------------------------------- expressions
    def lkey(self, e):
        """tracked location of an lvalue, or None"""
        e = strip(e)
        if e is None:
            return None
        if e.k == 'ref' and not e.fn:
            return e.d
        if e.k == 'mem':
            b = self.lkey(e.e)
            if b is None:
                return None
            return ('m', b, e.n)
        if e.k == 'un' and e.o == '*':
            b = self.lkey(e.e)
            return None if b is None else ('m', b, '*')
        return None

    def kill(self, S, k):
        env = dict(S.env)
        ch = False
        for q in list(env):
            x = q
            while True:
                if x == k:
                    del env[q]
                    ch = True
                    break
                if isinstance(x, tuple):
                    x = x[1]
                else:
                    break
        return State(env, S.pend) if ch else S

    def assign(self, S, lv, v):
        k = self.lkey(lv)
        if k is None:
            return S
        S = self.kill(S, k)
        if k not in self.rel and not (isinstance(k, tuple)):
            return S
        if v is not None:
            S = S.set(k, v)
        return S

    def ev(self, e, S):
        """list of (value, state)"""
        if e is None:
            return [(TOP, S)]
        k = e.k
        if k == 'int':
            return [(('c', norm(e.v)), S)]
        if k == 'ref':
            if e.fn:
                return [(('ne', frozenset((0,))), S)]
            return [(S.env.get(e.d), S)]
        c = cval(e)
        if c is not None:
            return [(('c', norm(c)), S)]
        if k in ('cast', 'const'):
            return self.ev(e.e, S)
        if k == 'call':
            return self.call(e, S)
        if k == 'asg':
            out = []
            for v, s in self.ev(e.b, S):
                for _, s1 in self.evl(e.a, s):
                    if e.o != '=':
                        old = None
                        lk = self.lkey(e.a)
                        if lk is not None:
                            old = s1.env.get(lk)
                        nv = TOP
                        if e.o in ('|=', '+='):
                            if old == ('c', 0):
                                nv = v
                            elif v == ('c', 0):
                                nv = old
                            elif e.o == '|=' and (vne(v, 0) or vne(old, 0)):
                                nv = ('ne', frozenset((0,)))
                            elif e.o == '+=' and old is not None and v is not None and old[0] == 'c' and v[0] == 'c' and old[1] * v[1] > 0:
                                nv = ('c', old[1]) if abs(old[1]) >= 1 else TOP   # saturate
                        v = nv
                    out.append((v, self.assign(s1, e.a, TOP if id(e) in self.blind else v)))
            return out
        if k == 'un':
            o = e.o
            if o in ('p++', 'p--', 'q++', 'q--'):
                out = []
                for v, s in self.ev(e.e, S):
                    lk = self.lkey(e.e)
                    s2 = self.assign(s, e.e, None)
                    if v is not None and v[0] == 'c' and o[1:] == '++' and v[1] >= 0 and lk is not None and v[1] < 1:
                        # 0 -> positive; saturates at "not zero"
                        s2 = self.assign(s2, e.e, ('ne', frozenset((0,))))
                    elif v is not None and v[0] == 'ne' and 0 in v[1] and o[1:] == '++':
                        s2 = self.assign(s2, e.e, v)
                    out.append((TOP if o[0] == 'p' else v, s2))
                return out
            out = []
            for v, s in self.ev(e.e, S):
                if o == '!':
                    r = vne(v, 0)
                    v = TOP if r is None else ('c', 0 if r else 1)
                    if v is None and isinstance(v, tuple):
                        pass
                elif o == '-' and v is not None and v[0] == 'c':
                    v = ('c', norm(-v[1]))
                elif o == '&':
                    v = ('ne', frozenset((0,)))
                elif o == '*':
                    lk = self.lkey(e)
                    v = s.env.get(lk) if lk is not None else TOP
                elif o == '+':
                    pass
                else:
                    v = TOP
                out.append((v, s))
            return out
        if k == 'mem':
            out = []
            lk = self.lkey(e)
            for _, s in self.ev(e.e, S):
                out.append((s.env.get(lk) if lk is not None else TOP, s))
            return out
        if k == 'bin':
            if e.o in ('&&', '||'):
                out = []
                for v, s in self.ev(e.a, S):
                    a = self.truth(v)
                    if e.o == '&&':
                        if a is not True:
                            out.append((('c', 0), s))
                        if a is not False:
                            out += self.ev(e.b, s)
                    else:
                        if a is not False:
                            out.append((('c', 1), s))
                        if a is not True:
                            out += self.ev(e.b, s)
                return out
            out = []
            for a, s in self.ev(e.a, S):
                for b, s2 in self.ev(e.b, s):
                    r = self.compare(e.o, a, b)
                    if r is not None:
                        out.append((('c', int(r)), s2))
                    elif e.o == '|':
                        out.append((('ne', frozenset((0,))) if vne(a, 0) or vne(b, 0) else TOP, s2))
                    else:
                        out.append((TOP, s2))
            return out
        if k == 'cond':
            out = []
            for v, s in self.branch(e.c, S):
                out += self.ev(e.a if v else e.b, s)
            return out
        if k == 'idx':
            out = []
            for _, s in self.ev(e.a, S):
                for _, s2 in self.ev(e.i, s):
                    out.append((TOP, s2))
            return out
        # evaluate children for their effects
        out = [S]
        for ch in (e.es or e.ch or ([e.e] if isinstance(e.e, Node) else [])):
            out = [s2 for s in out for _, s2 in self.ev(ch, s)]
        return [(TOP, s) for s in out]

    def evl(self, e, S):
        """effects of evaluating an lvalue's subexpressions"""
        x = strip(e)
        if x.k == 'ref':
            return [(TOP, S)]
        if x.k == 'un' and x.o == '*':
            return self.ev(x.e, S)
        if x.k == 'mem':
            return self.evl(x.e, S)
        return self.ev(x, S)

    def truth(self, v):
        if v is None or v == SHORT or v == FULL:
            return None
        r = vne(v, 0)
        return r

    def compare(self, o, a, b):
        for x, y, oo in ((a, b, o), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o))):
            if x == SHORT and y is not None and y == ('c', 0) and oo in ('==', '!=', '>', '<='):
                return None
            if x in (SHORT, FULL):
                sh = x == SHORT
                if oo == '==':
                    return not sh
                if oo == '!=':
                    return sh
                if oo == '<':
                    return sh
                if oo == '>=':
                    return not sh
                return None
        if o in ('==', '!='):
            if a is not None and b is not None:
                if a[0] == 'c' and b[0] == 'c':
                    r = a[1] == b[1]
                elif not mayeq(a, b):
                    r = False
                else:
                    return None
                return r if o == '==' else not r
            return None
        if a is not None and b is not None and a[0] == 'c' and b[0] == 'c' and o in ('<', '>', '<=', '>='):
            return {'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[o]
        return None

    def branch(self, c, S):
        """list of (bool, refined state) for condition c"""
        c0 = c
        while c.k in ('cast', 'const') and c.e is not None:
            c = c.e
        if c.k == 'un' and c.o == '!':
            return [(not b, s) for b, s in self.branch(c.e, S)]
        if c.k == 'bin' and c.o in ('&&', '||'):
            out = []
            for b, s in self.branch(c.a, S):
                if (c.o == '&&') == b:
                    out += self.branch(c.b, s)
                else:
                    out.append((b, s))
            return out
        out = []
        if c.k == 'bin' and c.o in ('==', '!=', '<', '>', '<=', '>='):
            for a, s in self.ev(c.a, S):
                for b, s2 in self.ev(c.b, s):
                    r = self.compare(c.o, a, b)
                    if r is not None:
                        out.append((r, s2))
                        continue
                    for want in (True, False):
                        s3 = s2
                        eq = (c.o == '==') == want if c.o in ('==', '!=') else None
                        for le, ov, mv in ((c.a, b, a), (c.b, a, b)):
                            x = strip(le)
                            if x.k == 'asg' and x.o == '=':
                                x = strip(x.a)
                            lk = self.lkey(x)
                            if lk is None or (lk not in self.rel and not isinstance(lk, tuple)):
                                continue
                            if ov is None or ov[0] != 'c':
                                continue
                            kk = ov[1]
                            if mv in (SHORT, FULL):
                                continue
                            if eq is True:
                                s3 = self.refined(self.cur, x, kk, s3.set(lk, ('c', kk)))
                            elif eq is False:
                                ns = mv[1] if mv is not None and mv[0] == 'ne' else frozenset()
                                s3 = s3.set(lk, ('ne', ns | frozenset((kk,))))
                        out.append((want, s3))
            return out
        for v, s in self.ev(c0, S):
            t = self.truth(v)
            if t is not None:
                out.append((t, s))
                continue
            x = c
            if x.k == 'asg' and x.o == '=':
                x = strip(x.a)
            lk = self.lkey(x)
            tr = (lk in self.rel or isinstance(lk, tuple)) if lk is not None else False
            out.append((True, s.set(lk, ('ne', frozenset((0,)))) if tr else s))
            out.append((False, s.set(lk, ('c', 0)) if tr else s))
        return out

    def call(self, e, S):
        states = [S]
        if e.fe is not None:
            states = [s2 for s in states for _, s2 in self.ev(e.fe, s)]
        states = [(s, ()) for s in states]
        for a in e.args:
            nxt = []
            for s, av in states:
                for v, s2 in self.ev(a, s):
                    nxt.append((s2, av + (v,)))
            states = nxt
        out = []
        ts = self.targets(e)
        name = e.fn.split('@')[0] if e.fn else text(e.fe)
        site = (name, e.l)
        for s, av in states:
            # out-parameters
            outs = []
            for a in e.args:
                x = strip(a)
                if x.k == 'un' and x.o == '&':
                    lk = self.lkey(x.e)
                    if lk is not None:
                        s = self.kill(s, lk)
                        outs.append(lk)
                else:
                    # a pointer passed on: what it points to may change
                    lk = self.lkey(x)
                    if lk is not None and x.t is not None and x.t.k == 'ptr' and not (x.t.e is not None and x.t.e.c):
                        env = {q: v for q, v in s.env.items() if not (isinstance(q, tuple) and self.under(q, lk))}
                        if len(env) != len(s.env):
                            s = State(env, s.pend)
            done = False
            for t in ts:
                if self.streams and t in STREAM:
                    ix, (fv, ov) = STREAM[t]
                    x = strip(e.args[ix])
                    done = True
                    if x.k == 'ref' and x.n in ('stdout', 'stderr'):
                        out.append((TOP, s))
                        continue
                    self.stats['writes'].add((self.cur.key, e.l))
                    out.append((ov if t == 'fwrite' else TOP, s))
                    out.append((fv if t == 'fwrite' else TOP, s.fail(WTOK)))
                elif self.streams and t == 'ferror':
                    done = True
                    if WTOK in s.pend:
                        out.append((('ne', frozenset((0,))), State(s.env, s.pend - {WTOK} | {site})))
                    else:
                        out.append((('c', 0), s))
                elif self.streams and t == 'fclose':
                    done = True
                    md = self.modes(self.cur, strip(e.args[0]))
                    if md and all(not set(m) & set('wa+') for m in md):
                        out.append((('c', 0), s))
                    else:
                        self.stats['closes'].add((self.cur.key, e.l))
                        out.append((('c', 0), s))
                        out.append((('c', -1), s.fail(site)))
                elif t in self.externs:
                    fv, ov = self.externs[t]
                    if fv == SHORT and len(e.args) > 2:
                        cnt = cval(e.args[2])
                        if cnt is not None:
                            ov = ('c', norm(cnt))
                            fv = ('c', 0) if cnt == 1 else ('ne', frozenset((norm(cnt),)))
                    self.stats['fallible_call_sites'].add((self.cur.key, e.l, name))
                    out.append((ov, s))
                    why = self.accepted(self.cur, name, e)
                    if why:
                        self.stats['accepted'].add((self.cur.key, name))
                        out.append((fv, s))
                    else:
                        out.append((fv, s.fail(site)))
                    done = True
                elif t in self.prog.funcs and t not in self.opaque:
                    # drop what is known about globals
                    TF = self.prog.funcs[t]
                    ctx = tuple((i, v[1]) for i, v in enumerate(av) if v is not None and v[0] == 'c'
                                and i < len(TF.params) and TF.params[i].type.k in ('int', 'enum', 'bool'))
                    s00 = s
                    if WTOK in s.pend and any(self.isstream(a) for a in e.args):
                        ctx = ((-1, 1),) + ctx
                        s = State(s.env, s.pend - {WTOK})
                    sm = self.summary(t, ctx)
                    done = True
                    if sm.outs and any(f for _, f, _ in sm.outs):
                        self.stats['fallible_call_sites'].add((self.cur.key, e.l, name))
                    for v, f, ovs in sorted(sm.outs, key=repr):
                        s1 = s
                        for i, val in ovs:
                            if i < len(e.args):
                                x = strip(e.args[i])
                                if x.k == 'un' and x.o == '&':
                                    s1 = self.assign(s1, x.e, val)
                        if f:
                            why = self.accepted(self.cur, t.split('@')[0], e)
                            if why:
                                self.stats['accepted'].add((self.cur.key, t))
                                out.append((v, s1))
                            elif f == 'w':
                                out.append((v, s1.fail(WTOK)))
                            else:
                                out.append((v, s1.fail(site)))
                        else:
                            out.append((v, s1))
                    s = s00
            if not done:
                out.append((TOP, s))
        # dedupe
        seen = {}
        for v, s in out:
            seen[(v, s.key)] = (v, s)
        return list(seen.values())

    @staticmethod
    def under(q, lk):
        q = q[1]
        while True:
            if q == lk:
                return True
            if isinstance(q, tuple):
                q = q[1]
            else:
                return False

    # -------------------------------------------------------- functions
    def relevant(self, F):
        """variables whose value can matter: compared, switched on, returned
        or tested, and assigned something other than arithmetic"""
        rel = set()

        def refs(e):
            for n in walk(e):
                if n.k == 'ref' and not n.fn and n.t is not None and n.t.k in ('int', 'ptr', 'enum', 'bool'):
                    rel.add(n.d)
        for n in walk(F.body):
            if n.k in ('if', 'while', 'do', 'for', 'cond') and isinstance(n.c, Node):
                refs(n.c)
            elif n.k == 'switch':
                refs(n.c)
            elif n.k == 'return' and n.e is not None:
                refs(n.e)
        # values flowing into relevant variables
        ch = True
        while ch:
            ch = False
            for n in walk(F.body):
                pairs = []
                if n.k == 'asg':
                    a = strip(n.a)
                    if a.k == 'ref' and a.d in rel:
                        pairs.append(n.b)
                elif n.k == 'decl':
                    for v in n.v:
                        if v.id in rel and v.init is not None:
                            pairs.append(v.init)
                for p in pairs:
                    m = len(rel)
                    refs(p)
                    ch = ch or len(rel) != m
        # the values a loop counter takes in its loop do not matter, but a
        # counter that also receives the result of a call stays tracked
        called = set()
        for n in walk(F.body):
            if n.k == 'asg' and strip(n.a).k == 'ref' and any(m.k == 'call' for m in walk(n.b)):
                called.add(strip(n.a).d)
            elif n.k == 'decl':
                for v in n.v:
                    if v.init is not None and any(m.k == 'call' for m in walk(v.init)):
                        called.add(v.id)
        for n in walk(F.body):
            if n.k == 'for' and n.inc is not None:
                cs = set()
                for m in walk(n.inc):
                    if m.k == 'un' and m.o in ('p++', 'q++', 'p--', 'q--'):
                        x = strip(m.e)
                        if x.k == 'ref':
                            cs.add(x.d)
                            self.blind.add(id(m))
                    if m.k == 'asg' and strip(m.a).k == 'ref':
                        cs.add(strip(m.a).d)
                        self.blind.add(id(m))
                for m in (walk(n.init) if n.init is not None else ()):
                    if m.k == 'asg':
                        self.blind.add(id(m))
                rel -= cs - called
        return rel

    def function(self, F, ctx, sm):
        self.cur = F
        self.curctx = ctx
        self.stats['functions'] += 1
        g = F.__dict__.get('_cfg')
        if g is None:
            g = CFG(F)
            F._cfg = g
        self.rel = self.relevant(F)
        start = State({F.params[i].id: ('c', c) for i, c in ctx if i >= 0 and F.params[i].id in self.rel},
                      frozenset([WTOK] if (-1, 1) in ctx else ()))
        seen = {g.entry.i: {start.key: (start, None)}}
        work = [(g.entry, start)]
        exits = []
        total = 0
        while work:
            n, S = work.pop()
            for lab, m, S2, rv in self.step(n, S):
                if m is g.exit:
                    exits.append((rv, S2, n, S))
                    continue
                d = seen.setdefault(m.i, {})
                if S2.key in d:
                    continue
                d[S2.key] = (S2, (n, S))
                total += 1
                if total > MAXSTATES:
                    raise AnalysisError('state explosion in %s (%s)' % (F.name, self.prog.cfg))
                work.append((m, S2))
        self.stats['states'] += total
        self.summarise(F, exits, seen, sm)

    def step(self, n, S):
        k = n.kind
        res = []
        if k in ('entry', 'nop', 'omp+', 'omp-'):
            st = [S]
            if k == 'omp+':
                for c in n.n.cl:
                    pass
            for l, m in n.succ:
                for s in st:
                    res.append((l, m, s, None))
        elif k == 'expr':
            for v, s in self.ev(n.n, S):
                for l, m in n.succ:
                    res.append((l, m, s, None))
        elif k == 'decl':
            v = n.n
            s0 = self.kill(S, v.id)
            if v.init is not None:
                for val, s in self.ev(v.init, s0):
                    if val is not None and v.id in self.rel:
                        s = s.set(v.id, val)
                    for l, m in n.succ:
                        res.append((l, m, s, None))
            else:
                for l, m in n.succ:
                    res.append((l, m, s0, None))
        elif k == 'branch':
            cv = cval(n.n)
            if cv is not None:
                for l, m in n.succ:
                    res.append((l, m, S, None))
                return res
            self.stats['branches'] += 1
            for b, s in self.branch(n.n, S):
                for l, m in n.succ:
                    if l is b:
                        res.append((l, m, s, None))
        elif k == 'switch':
            for v, s in self.ev(n.n.c, S):
                lk = self.lkey(strip(n.n.c))
                for l, m in n.succ:
                    if l[0] == 'case':
                        if mayeq(v, ('c', norm(l[1]))):
                            s2 = s
                            if lk is not None and (lk in self.rel or isinstance(lk, tuple)):
                                s2 = self.refined(self.cur, strip(n.n.c), norm(l[1]), s.set(lk, ('c', norm(l[1]))))
                            res.append((l, m, s2, None))
                    else:
                        if v is not None and v[0] == 'c' and v[1] in [norm(x) for x in l[1]]:
                            continue
                        res.append((l, m, s, None))
        elif k == 'ret':
            if n.n is not None and n.n.e is not None:
                for v, s in self.ev(n.n.e, S):
                    res.append((None, n.succ[0][1], s, v))
            else:
                res.append((None, n.succ[0][1], S, 'void'))
        elif k == 'noreturn':
            pass
        return res

    def isfailval(self, F, v):
        if v is None or v == 'void':
            return False
        if F.ret.k == 'ptr':
            return v == ('c', 0)
        if F.name == 'main':
            return bool(vne(v, 0))
        return v == FAIL

    def summarise(self, F, exits, seen, sm):
        ok = [rv for rv, S, n, S0 in exits if not S.pend and not self.isfailval(F, rv)]
        stars = [(i, ('m', p.id, '*')) for i, p in enumerate(F.params) if p.type.k == 'ptr' and p.type.e is not None and p.type.e.k == 'ptr']
        for rv, S, n, S0 in exits:
            ovs = tuple((i, S.env[k]) for i, k in stars if k in S.env)
            if not S.pend:
                sm.outs.add((rv if rv != 'void' else None, self.isfailval(F, rv) and F.name != 'main', ovs))
                continue
            if S.pend == {WTOK}:
                # only failed writes, which the stream itself remembers until
                # whoever opened it closes it
                if not self.owner(F):
                    sm.outs.add((rv if rv != 'void' else None, 'w', ovs))
                elif self.isfailval(F, rv):
                    sm.outs.add((rv, True, ovs))
                else:
                    sm.outs.add((rv if rv != 'void' else None, False, ovs))
                    if F.name == 'main' or not self.tolerate(F, WTOK, rv):
                        self.reports.append((F, WTOK, n, rv, self.trace(seen, n, S0)))
                continue
            if F.ret.k == 'enum' and F.ret.s == 'GLU_bool':
                # a predicate answers a question, it does not report
                self.stats['accepted'].add((F.key, 'predicate'))
                sm.outs.add((rv, False, ovs))
                continue
            self.stats['failing_exits'] += 1
            good = self.isfailval(F, rv)
            if not good and rv != 'void' and rv is not None and rv not in (SHORT, FULL):
                if not any(mayeq(rv, o) for o in ok if o != 'void'):
                    good = True
            if rv in (SHORT, FULL):
                good = rv == SHORT
            if good:
                sm.outs.add((rv, True, ovs))
            else:
                sm.outs.add((rv if rv != 'void' else None, False, ovs))
                for o in S.pend:
                    if len(o) == 3:
                        continue
                    if self.tolerate(F, o, rv):
                        self.stats['accepted'].add((F.key, o[0]))
                        continue
                    self.reports.append((F, o, n, rv, self.trace(seen, n, S0)))

    def trace(self, seen, n, S):
        path = []
        while True:
            if n.line is not None and n.kind in ('expr', 'decl', 'branch', 'ret', 'switch'):
                path.append(n.line)
            p = seen.get(n.i, {}).get(S.key)
            if p is None or p[1] is None:
                break
            n, S = p[1]
        path.reverse()
        out = []
        for x in path:
            if not out or out[-1] != x:
                out.append(x)
        return out
