"""Runs the field engine (absint + matmodel) over every function of the program
that handles a gauge field, in several build configurations, and collects the
alarms and the coverage."""
import hashlib, os, re, signal, time, traceback
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from . import absint, core, matmodel

_P = {}
LIMIT = 400          # seconds one entry may take


class TooLong(Exception):
    pass


def _digest(n, h):
    if isinstance(n, core.Node):
        D = n.__dict__
        for k in sorted(D):
            if k in ('l', 'f', 'd', 'at'):
                continue
            v = D[k]
            if isinstance(v, core.Type):
                h.update(('%s=%s;' % (k, re.sub(r'\d+', '#', v.s))).encode())
            elif k == 'v' and isinstance(v, int):
                continue        # NC, ND and what is computed from them
            else:
                h.update(k.encode())
                _digest(v, h)
    elif isinstance(n, (list, tuple)):
        h.update(b'[')
        for x in n:
            _digest(x, h)
        h.update(b']')
    elif isinstance(n, core.Var):
        h.update(('%s:%s' % (n.name, re.sub(r'\d+', '#', n.type.s) if n.type else '')).encode())
        if n.init is not None:
            _digest(n.init, h)
    else:
        h.update(repr(n).encode())


def digests(p):
    out = {}
    for k, f in p.funcs.items():
        h = hashlib.sha1()
        for v in f.params:
            _digest(v, h)
        _digest(f.body, h)
        out[k] = h.hexdigest()
    return out


def callmap(p):
    out = {}
    for k, f in p.funcs.items():
        s = set()
        for n in core.walk(f.body):
            fn = n.fn if n.k in ('call', 'ref') else None
            if fn:
                s.add(fn)
        out[k] = s
    # functions named in initialised tables
    g = set()
    for v in p.globals.values():
        if v.init is not None:
            for n in core.walk(v.init):
                if n.k == 'ref' and n.fn:
                    g.add(n.fn)
    return out, g


def closure(cm, roots):
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(cm.get(x, ()))
    return seen


def fieldfuncs(p):
    return {k for k, f in p.funcs.items() if any(v.type.k == 'ptr' and v.type.e.r == 'site' for v in f.params)}


def plan(p):
    """entry functions: those that take a gauge field and are not called by another one, or are called by one that
    takes none; only code main can reach"""
    cm, g = callmap(p)
    if 'main' not in p.funcs:
        raise core.AnalysisError('main has vanished (config %s)' % p.cfg)
    live = closure(cm, {'main'} | g)
    G = fieldfuncs(p) & live
    called = set()
    for k in G:
        called |= (cm.get(k, set()) & G) - {k}
    for k in live - G:
        called -= cm.get(k, set())
    E = G - called
    # parallel code that no field function leads to
    got = closure(cm, E)
    E |= {k for k in live - got if k in p.funcs and any(n.k.startswith('omp') for n in core.walk(p.funcs[k].body))}
    return sorted(E), G, cm, live


def _one(a):
    cfg, f, sig, budget = a
    p = _P[cfg]
    it = absint.Interp(p)
    it.budget0 = budget
    matmodel.build(it)
    t = time.time()
    err = None

    def bell(*x):
        raise TooLong()
    signal.signal(signal.SIGALRM, bell)
    signal.alarm(LIMIT)
    try:
        it.run(f, sig=sig)
    except TooLong:
        err = 'time limit'
    except Exception:
        err = traceback.format_exc()[-1200:]
    finally:
        signal.alarm(0)
    q = []
    for (k, s) in getattr(it, 'queue', {}):
        q.append((k, s))
    return (cfg, f, sig, list(it.alarms.values()), dict(it.count), {k: list(v) for k, v in it.sites.items()},
            q, set(it.visited), dict(it.unmodelled), err, time.time() - t)


def run(cfgs, full=('nc3',), only=None, tier='quick'):
    """cfgs: configurations in order; those not in full are restricted to the entries that reach code which
    differs from the first one.  only: optional predicate on (program, entry function)."""
    progs, plans = {}, {}
    for c in cfgs:
        p = core.load(c)
        _P[c] = p
        progs[c] = p
        plans[c] = plan(p)
    base = cfgs[0]
    if tier == 'thorough':
        full = cfgs
    dig = {base: digests(progs[base])}
    res = dict(alarms=[], count={}, sites={}, visited={}, unmodelled={}, errors=[], entries=0, perconfig={}, times=[])

    def wanted(c, f):
        if only is not None and not only(progs[c], f):
            return False
        if c in full:
            return True
        if c not in dig:
            dig[c] = digests(progs[c])
        cm = plans[c][2]
        return any(dig[c].get(x) != dig[base].get(x) for x in closure(cm, [f]) if x in dig[c])
    # long entries first
    with ProcessPoolExecutor(8) as ex:
        pend, done, tries = set(), set(), {}

        def push(c, f, sig):
            k = (c, f, sig)
            if k in done or not wanted(c, f):
                return
            done.add(k)
            # the first argument combination of a function is followed furthest
            n = tries[(c, f)] = tries.get((c, f), 0) + 1
            b = 40000000 if tier == 'thorough' else 8000000 if n <= 2 and c == base else 3000000
            if progs[c].funcs[f].file.startswith('src/Cuts/') and tier != 'thorough':
                b = 3000000
            pend.add(ex.submit(_one, k + (b,)))
        for c in cfgs:
            for f in sorted(plans[c][0], key=lambda f: (not f.startswith('hb_'), f)):
                push(c, f, None)
        while pend:
            d, rest = wait(pend, return_when=FIRST_COMPLETED)
            pend.clear()
            pend.update(rest)
            for fu in d:
                cfg, f, sig, al, cnt, sites, q, vis, un, err, dt = fu.result()
                res['entries'] += 1
                res['perconfig'][cfg] = res['perconfig'].get(cfg, 0) + 1
                res['times'].append((dt, cfg, f, sig))
                for a in al:
                    a['cfg'] = cfg
                    res['alarms'].append(a)
                for k, v in cnt.items():
                    res['count'][k] = res['count'].get(k, 0) + v
                for k, v in sites.items():
                    res['sites'].setdefault(k, set()).update(v)
                res['visited'].setdefault(cfg, set()).update(vis)
                for k, v in un.items():
                    res['unmodelled'].setdefault(k, v)
                if err:
                    res['errors'].append((cfg, f, err))
                for k, s in q:
                    push(cfg, k, s)
    res['unvisited'] = {c: sorted(f for f in plans[c][1] - res['visited'].get(c, set()) if wanted(c, f)) for c in cfgs}
    res['fieldfuncs'] = len(plans[base][1])
    res['progs'] = progs
    res['plans'] = plans
    if len(res['errors']) > 2:
        raise core.AnalysisError('the field engine failed on %d entries, first %s' % (len(res['errors']), res['errors'][0]))
    return res


def clean(msg):
    """message text without run-dependent atom numbers, for keys"""
    return re.sub(r'\d{3,}(\.\d+)*', '#', msg)


MATRIX = ('product-type', 'sum-type', 'open-loop', 'link-store', 'uninit', 'bounds')


def in_cuts(p, f):
    return p.funcs[f].file.startswith('src/Cuts/')


def check(res, rules, tier, quick=('nc3', 'nc3opts2', 'nc5nd3'), thorough=('nc3', 'nc2', 'nc5nd3', 'nc3opts', 'nc3opts2', 'nc4'),
          only=None, keep=None, floors=(), covkeys=()):
    """run the engine and turn the alarms of the given rules into violations"""
    cfgs = list(thorough if tier == 'thorough' else quick)
    r = run(cfgs, tier=tier, only=only)
    groups = {}
    for a in r['alarms']:
        if a['rule'] not in rules or (keep is not None and not keep(r, a)):
            continue
        groups.setdefault((a['rule'], a['file'], a['line'], a['function']), []).append(a)
    for (rule, file, line, fn), al in sorted(groups.items()):
        a = al[0]
        key = '%s|%s|%s' % (file, fn, clean(a['msg']))
        tr = ['reached through %s' % ' > '.join(a['path'])] if a['path'] else []
        if a['choices']:
            tr.append('with %s' % ', '.join('%s=%s' % x for x in sorted(a['choices'].items())))
        tr.append('configurations: %s' % ', '.join(sorted(set(x['cfg'] for x in al))))
        res.add(rule, key, '%s:%d' % (file, line), '%s: %s' % (fn, a['msg']), tr)
    n = {k: len(v) for k, v in r['sites'].items()}
    for k, lo in floors:
        have = n.get(k, 0) if k != 'functions' else len(r['visited'][cfgs[0]])
        if have < lo:
            raise core.AnalysisError('only %d %s were analysed (at least %d expected)' % (have, k, lo))
    cov = dict(configurations=cfgs, entries=r['entries'], entries_per_configuration=r['perconfig'],
               field_functions=r['fieldfuncs'],
               functions_inlined=len(set().union(*r['visited'].values())),
               seconds_cpu=round(sum(x[0] for x in r['times']), 1))
    for k in covkeys:
        cov[k.replace(' ', '_') + '_sites'] = n.get(k, 0)
        cov[k.replace(' ', '_')] = r['count'].get(k, 0)
    cov['not_followed_to_the_end'] = sorted(set(k for k, v in r['unmodelled'].items() if k.startswith(('budget:', 'choices:'))))
    cov['entries_with_errors'] = [e[:2] for e in r['errors']]
    cov['field_functions_not_visited'] = {c: v for c, v in r['unvisited'].items() if v}
    res.coverage = cov
    return r
