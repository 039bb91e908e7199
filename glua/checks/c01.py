"""C01: every documented build configuration compiles and links."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .. import core, configs
from ..common import Result

WARN = ['-Wno-everything', '-Werror=implicit-function-declaration', '-Werror=int-conversion',
        '-Werror=incompatible-pointer-types', '-Werror=return-type', '-Werror=implicit-int',
        '-Werror=incompatible-function-pointer-types']
# external libraries the documented build links: -lm, OpenMP, FFTW, GSL, LAPACKE
LIBS = ('omp_', 'fftw_', 'fftwf_', 'gsl_', 'LAPACKE_')


def norm(t):
    """qualifiers do not change how a call is made"""
    for q in ('__restrict', 'restrict', 'const', 'volatile'):
        t = re.sub(r'\b%s\b' % q, '', t)
    return re.sub(r'\s+', '', t)


def run(tier, seed):
    res = Result()
    srcs = core.built_sources()
    tool = core.dumper_path('glucheck')
    known = set()
    for ax, vals in configs.AXES:
        for n, d in vals:
            known.update(d)
    known.update(configs.BASE)
    missing = [m for m in configs.option_macros() if m not in known and m not in ('HAVE_LAPACKE_H',)]
    cfgs = configs.each_option()
    if tier == 'quick':
        # every option once, the number of colours varying from option to option
        by = {}
        for c in cfgs:
            k = tuple((a, b) for a, b in c.items() if a != 'NC')
            by.setdefault(k, []).append(c)
        pick = []
        for i, k in enumerate(sorted(by)):
            row = by[k]
            if not k:
                pick += row
            elif k[0][0] in ('vector', 'single', 'nblock', 'fftw', 'nstoch'):
                pick += row[:4]
            else:
                pick += [row[0], row[1 + i % (len(row) - 1)]]
        cfgs = pick
        pw = configs.pairwise()[:16]
    else:
        pw = configs.pairwise()
    for m in missing:
        cfgs.append({'extra': m})
    cfgs = cfgs + pw
    tmp = tempfile.mkdtemp(prefix='gluc01')
    base = [x for x in core.compile_flags('@CFG@', core.REPO) if x not in ('-w',) and not x.startswith('-Wno-error')]

    def one(ix):
        c = cfgs[ix]
        d = configs.defines(c)
        if 'extra' in c:
            d[c['extra']] = ''
        cd = os.path.join(tmp, str(ix))
        configs.write(cd, d)
        fl = [x.replace('@CFG@', cd) for x in base]
        if c.get('omp') == 'no':
            fl = [x for x in fl if x != '-fopenmp']
        o = os.path.join(cd, 'o.json')
        r = subprocess.run([tool, o] + srcs + ['--'] + fl + WARN, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(o):
            raise core.AnalysisError('front end failed on configuration %s: %s' % (c, r.stdout.decode()[-500:]))
        with open(o) as fh:
            return json.load(fh)
    try:
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, range(len(cfgs))))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    units = refs = 0
    seen = {}
    for c, o in zip(cfgs, outs):
        name = ','.join('%s=%s' % x for x in sorted(c.items()))
        units += len(srcs)
        bad = set(e['unit'] for e in o['errors'])
        for e in o['errors']:
            rel = os.path.relpath(e['f'], core.REPO) if e['f'].startswith('/') else e['f']
            k = ('does-not-compile', '%s|%s' % (rel, e['m'].split(';')[0]))
            seen.setdefault(k, ('%s:%d' % (rel, e['l']), e['m'], []))[2].append(name)
        df = {}
        for u in o['units']:
            for s, (t, l) in u['def'].items():
                df.setdefault(s, []).append((u['f'], t, l))
        for s, ds in df.items():
            if len(ds) > 1:
                rel = [os.path.relpath(x[0], core.REPO) for x in ds]
                k = ('defined-twice', s)
                seen.setdefault(k, ('%s:%d' % (rel[0], ds[0][2]), '%s is defined in %s' % (s, ' and '.join(rel)), []))[2].append(name)
        for u in o['units']:
            rel = os.path.relpath(u['f'], core.REPO)
            for s, (t, l) in u['ref'].items():
                refs += 1
                if s in df:
                    if norm(df[s][0][1]) != norm(t) and '(' in t and not t.endswith('()'):
                        k = ('declared-with-another-type', '%s|%s' % (rel, s))
                        seen.setdefault(k, ('%s:%d' % (rel, l), '%s is used as %s but defined as %s in %s' % (
                            s, t, df[s][0][1], os.path.relpath(df[s][0][0], core.REPO)), []))[2].append(name)
                    continue
                if s.startswith(LIBS):
                    continue
                if bad:
                    continue   # the definition may be lost with the unit that failed
                k = ('undefined-symbol', '%s|%s' % (rel, s))
                seen.setdefault(k, ('%s:%d' % (rel, l), 'reference to %s, which no source defines' % s, []))[2].append(name)
    for (rule, key), (where, msg, cs) in sorted(seen.items()):
        res.add(rule, key, where, '%s [in %d configurations, first: %s]' % (msg, len(cs), cs[0]))
    if units < 3000 or refs < 50000:
        raise core.AnalysisError('only %d units and %d references were analysed' % (units, refs))
    res.coverage = dict(configurations=len(cfgs), pairwise_rows=len(pw), units_type_checked=units,
                        external_references_resolved=refs, options=len(configs.AXES),
                        explanation='Type-checks every source listed in src/Makefile.am with the clang front end under '
                        'generated config.h files (each documented option value at each number of colours, plus covering-array '
                        'rows that combine options) and resolves every external reference against the definitions of the same '
                        'configuration. Rules: does-not-compile, undefined-symbol, defined-twice, declared-with-another-type.',
                        samples=[','.join('%s=%s' % x for x in sorted(c.items())) for c in cfgs[-3:]])
    res.assumptions = ['clang 18 accepts what the documented compiler (gcc) accepts for these sources',
                       'LAPACKE is not installed here: the lapacke option is not analysed']
    return res
