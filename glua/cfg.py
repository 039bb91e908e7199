"""Control flow graphs over the dumped AST.  Short-circuit conditions are
lowered to branches; OpenMP constructs become enter/exit markers around their
body.  Node kinds: expr, decl, branch, switch, ret, omp+, omp-, nop."""
from .core import cval

NORETURN = ('exit', 'abort', '_exit', '__assert_fail')


class CNode(object):
    __slots__ = ('i', 'kind', 'n', 'succ', 'line', 'pred')

    def __init__(self, i, kind, n, line):
        self.i, self.kind, self.n, self.line = i, kind, n, line
        self.succ = []      # (label, node): label None | True | False | ('case', v) | ('default', vs)
        self.pred = []

    def __repr__(self):
        return '%d:%s@%s' % (self.i, self.kind, self.line)


class CFG(object):
    def __init__(self, func):
        self.func = func
        self.nodes = []
        self.labels = {}
        self.gotos = []
        self.exit = self.new('exit', None, func.endline)
        self.entry = self.new('entry', None, func.line)
        end = self.stmt(func.body, [(self.entry, None)], None, None, None)
        r = self.new('ret', None, func.endline)
        self.link(end, r)
        r.succ.append((None, self.exit))
        for n, name in self.gotos:
            if name in self.labels:
                n.succ.append((None, self.labels[name]))
        seen = set()
        st = [self.entry]
        while st:
            x = st.pop()
            if x.i in seen:
                continue
            seen.add(x.i)
            st.extend(s for _, s in x.succ)
        self.live = seen
        for x in self.nodes:
            if x.i in seen:
                for l, s in x.succ:
                    s.pred.append((l, x))

    def new(self, kind, n, line=None):
        c = CNode(len(self.nodes), kind, n, line if line is not None else (n.l if n is not None else None))
        self.nodes.append(c)
        return c

    @staticmethod
    def link(ins, node):
        for x, l in ins:
            x.succ.append((l, node))

    def simple(self, kind, n, ins):
        c = self.new(kind, n)
        self.link(ins, c)
        return [(c, None)]

    def cond(self, e, ins):
        """-> (true dangling, false dangling)"""
        x = e
        while x.k == 'cast' and x.ck in ('IntegralToBoolean',) or x.k == 'const':
            x = x.e
        if x.k == 'un' and x.o == '!':
            t, f = self.cond(x.e, ins)
            return f, t
        if x.k == 'bin' and x.o == '&&':
            t, f = self.cond(x.a, ins)
            t2, f2 = self.cond(x.b, t)
            return t2, f + f2
        if x.k == 'bin' and x.o == '||':
            t, f = self.cond(x.a, ins)
            t2, f2 = self.cond(x.b, f)
            return t + t2, f2
        v = cval(x)
        c = self.new('branch', x)
        self.link(ins, c)
        if v is not None:
            return ([(c, None)], []) if v else ([], [(c, None)])
        return [(c, True)], [(c, False)]

    def stmt(self, s, ins, brk, cont, sw):
        if s is None:
            return ins
        k = s.k
        if k == 'block':
            for x in s.b:
                ins = self.stmt(x, ins, brk, cont, sw)
            return ins
        if k == 'decl':
            for v in s.v:
                c = self.new('decl', v, v.line)
                self.link(ins, c)
                ins = [(c, None)]
            return ins
        if k == 'null':
            return ins
        if k == 'if':
            t, f = self.cond(s.c, ins)
            a = self.stmt(s.a, t, brk, cont, sw)
            b = self.stmt(s.b, f, brk, cont, sw) if s.b is not None else f
            return a + b
        if k == 'while':
            h = self.new('nop', s)
            self.link(ins, h)
            t, f = self.cond(s.c, [(h, None)])
            b = []
            out = self.stmt(s.b, t, b, [h], sw)
            self.link(out, h)
            return f + b
        if k == 'do':
            h = self.new('nop', s)
            self.link(ins, h)
            c = self.new('nop', s)
            b = []
            out = self.stmt(s.b, [(h, None)], b, [c], sw)
            self.link(out, c)
            t, f = self.cond(s.c, [(c, None)])
            self.link(t, h)
            return f + b
        if k == 'for':
            if s.init is not None:
                ins = self.stmt(s.init, ins, brk, cont, sw)
            h = self.new('nop', s)
            self.link(ins, h)
            if s.c is not None:
                t, f = self.cond(s.c, [(h, None)])
            else:
                t, f = [(h, None)], []
            inc = self.new('expr', s.inc) if s.inc is not None else self.new('nop', s)
            b = []
            out = self.stmt(s.b, t, b, [inc], sw)
            self.link(out, inc)
            inc.succ.append((None, h))
            return f + b
        if k == 'switch':
            c = self.new('switch', s)
            self.link(ins, c)
            b = []
            cases = {'node': c, 'vals': [], 'default': None}
            out = self.stmt(s.b, [], b, cont, cases)
            if cases['default'] is None:
                b.append((c, ('default', tuple(cases['vals']))))
            else:
                c.succ.append((('default', tuple(cases['vals'])), cases['default']))
            return out + b
        if k in ('case', 'default'):
            n = self.new('nop', s)
            self.link(ins, n)
            if k == 'case':
                v = cval(s.__dict__['v'])
                sw['vals'].append(v)
                sw['node'].succ.append((('case', v), n))
            else:
                sw['default'] = n
            return self.stmt(s.b, [(n, None)], brk, cont, sw)
        if k == 'break':
            if brk is not None:
                brk.extend(ins)
            return []
        if k == 'continue':
            self.link(ins, cont[0])
            return []
        if k == 'return':
            r = self.new('ret', s)
            self.link(ins, r)
            r.succ.append((None, self.exit))
            return []
        if k == 'goto':
            g = self.new('nop', s)
            self.link(ins, g)
            self.gotos.append((g, s.n))
            return []
        if k == 'label':
            n = self.new('nop', s)
            self.link(ins, n)
            self.labels[s.n] = n
            return self.stmt(s.b, [(n, None)], brk, cont, sw)
        if k == 'omp':
            a = self.new('omp+', s)
            self.link(ins, a)
            if s.b is None:
                return [(a, None)]
            out = self.stmt(s.b, [(a, None)], brk, cont, sw)
            if 'master' in s.dir or s.dir in ('single', 'critical') and s.dir != 'critical':
                out = out + [(a, None)] if False else out
            z = self.new('omp-', s, s.le)
            self.link(out, z)
            return [(z, None)]
        # expression statement
        c = self.new('expr', s)
        self.link(ins, c)
        x = s
        while x.k == 'cast':
            x = x.e
        if x.k == 'call' and x.fn in NORETURN:
            r = self.new('noreturn', s)
            c.succ.append((None, r))
            return []
        return [(c, None)]
