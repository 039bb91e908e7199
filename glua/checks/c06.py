"""C06: failures reach the exit status.  Failure-token dataflow over every
function of the program in several build configurations (glua/failure.py)."""
from concurrent.futures import ProcessPoolExecutor
from .. import core, failure
from ..common import Result
from ..core import walk, strip

QUICK = ['nc3', 'nc2', 'nc5nd3', 'nc3opts', 'nc3opts2', 'nc3single', 'nc4gsl']
THOROUGH = QUICK + ['nc4', 'nc8', 'nc3nosse']

# a probe that is expected to fail: a cache file is looked for and computed
# when it is not there (builds with NOT_CONDOR_MODE only)
CACHE_DIRS = ('/Local/Moments/', '/Local/Wisdom/')
# answers, not failures: callee -> reason
ANSWERS = {
    'scaleset': 'the flow ended before the reference scale was reached: a physics result, reported on stdout',
    'gauge_topological_meas_th': 'answers whether the topological charge has converged yet',
    'nape_reunit': 'numerical fallback: the caller reunitarises another way',
    'brute_force_log': 'numerical method of one matrix: the caller keeps the last iterate',
    'inverse': 'singular matrix inside an iterative numerical method',
    'get_posit': 'position -1 is stored and get_triplet rejects it',
}
OPTIONAL_TAGS = {'get_string': ('ENSEMBLE_LABEL', 'ENSEMBLE_ID'), 'setint': ('CONFNO',)}


def strings(e):
    return [n.v for n in walk(e) if n.k == 'str']


def cachefn(F):
    r = F.__dict__.get('_cache')
    if r is None:
        r = False
        for n in walk(F.body):
            if n.k == 'str' and n.v and any(d in n.v for d in CACHE_DIRS):
                r = True
        F._cache = r
    return r


def firstopen(F, e):
    ls = [n for n in walk(F.body) if n.k == 'call' and n.fn == 'fopen']
    return bool(ls) and ls[0] is e


def accepted(F, callee, e):
    if callee in ANSWERS:
        return ANSWERS[callee]
    if callee in OPTIONAL_TAGS:
        s = [x for a in e.args for x in strings(a)]
        if any(t in x for t in OPTIONAL_TAGS[callee] for x in s):
            return 'optional entry'
    if cachefn(F):
        if callee == 'fopen' and firstopen(F, e):
            return 'cache probe: the data is computed if the file is not there'
        if F.ret.k == 'void' or F.ret.s == 'void':
            return 'cache write: the data is in memory already'
    return None


SPECIAL = ('UNIT_GAUGE', 'RANDOM_CONFIG', 'INSTANTON')


def analyse(cfg):
    prog = core.load(cfg)
    A = failure.Analyzer(prog, dict(failure.EXTERN_IO, fgets=(('c', 0), ('ne', frozenset((0,)))),
                                    sscanf=(('c', 0), ('c', 1))), accepted)
    special = set(prog.enumconst[c][1] for c in SPECIAL if c in prog.enumconst)
    if len(special) != 3:
        raise core.AnalysisError('header kinds without a file have vanished (config %s)' % cfg)

    def refined(F, le, k, S):
        # a configuration that is generated needs no file to exist
        t = le.t
        if t is not None and t.s.replace('const', '').strip() == 'header_mode' and k in special \
                and any(o[0] == 'fopen' for o in S.pend):
            return failure.State(S.env, frozenset(o for o in S.pend if o[0] != 'fopen'))
        return S
    A.refined = refined

    def reaches(k, goal, seen):
        if k == goal:
            return True
        if k in seen:
            return False
        seen.add(k)
        return any(reaches(t, goal, seen) for t in A.edges.get(k, ()))

    def restart(F, o):
        # an unusable RNG state file starts a new sequence, with a warning
        return (o[0] in ('fopen', 'get_header', 'get_size_t', 'get_string') and 'RNG' in ' '.join(
            n.v or '' for n in walk(F.body) if n.k == 'str')
            and F.ret.k == 'int' and reaches(F.key, 'initialise_par_rng', set()))
    A.tolerate = lambda F, o, rv: (restart(F, o) and 'unusable RNG state: a new sequence, with a warning'
                                   or cachefn(F) and rv == 'void' and 'cache write: the data is in memory already'
                                   or F.name.split('@')[0] == 'parse_SCIDAC_hdr' and rv == ('c', 1)
                                   and 'the end of the records is an answer (GLU_EOF)')
    A.run()
    out = {}
    for F, o, n, rv, tr in A.reports:
        k = (F.file, F.name, o[0] if o != failure.WTOK else 'stream write')
        v = 'success (void)' if rv == 'void' else 'a value that does not tell failure' if rv is None else str(rv[1] if len(rv) > 1 else rv)
        if k not in out:
            out[k] = (o[1] or F.line, n.line, v, tr[-12:])
    st = A.stats
    m = prog.funcs.get('main')
    if m is None or ('main', ()) not in A.sums:
        raise core.AnalysisError('main was not analysed (config %s)' % cfg)
    stat = {k: (len(v) if isinstance(v, set) else v) for k, v in st.items()}
    return cfg, out, stat, sorted(st['accepted'])


def run(tier, seed):
    res = Result()
    core.dumper_path()
    cfgs = THOROUGH if tier == 'thorough' else QUICK
    with ProcessPoolExecutor(min(8, len(cfgs))) as ex:
        outs = list(ex.map(analyse, cfgs))
    seen = {}
    tot = {}
    acc = set()
    for cfg, out, stat, ac in outs:
        if stat['fallible_call_sites'] < 150 or stat['writes'] < 25 or stat['closes'] < 2 or stat['failing_exits'] < 150:
            raise core.AnalysisError('only %s obligations found in configuration %s' % (stat, cfg))
        for k, v in stat.items():
            tot[k] = tot.get(k, 0) + v
        acc.update('%s in %s' % (b, a) for a, b in ac)
        for k, v in out.items():
            seen.setdefault(k, (v, []))[1].append(cfg)
    for (f, fn, o), ((ol, el, v, tr), cs) in sorted(seen.items()):
        res.add('failure-dropped', '%s|%s|%s' % (f, fn, o), '%s:%d' % (f, ol),
                '%s: after %s failed, the function can leave (line %s) with %s [configurations: %s]'
                % (fn, o, el, v, ' '.join(cs)), ['lines of the path: %s' % ' '.join(map(str, tr))])
    res.coverage = dict(configurations=len(cfgs), functions=tot['functions'], fallible_call_sites=tot['fallible_call_sites'],
                        stream_writes=tot['writes'], stream_closes=tot['closes'], failing_exits=tot['failing_exits'],
                        states=tot['states'], branches=tot['branches'],
                        explanation='Every path of every function is followed with the set of calls that failed on it and '
                        'the abstract values of the scalars; callees are summarised per constant arguments. Rule '
                        'failure-dropped: a path that leaves a function with a failure behind it returns a value the caller '
                        'can tell from success; for main, a nonzero exit status. Failures: fopen, fread, fgets, sscanf, '
                        'fflush, fseek, every write to and close of an output stream, and every function whose summary '
                        'returns failure. Each accepted absorption is listed in samples.',
                        samples=sorted(acc)[:60])
    res.assumptions = ['output on stdout and stderr is not part of the result',
                       'predicates (GLU_bool) answer a question and do not report']
    return res
