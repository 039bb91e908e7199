"""Build configurations: the values every documented configure option can take,
and generation of the config.h a configure run with those options writes."""
import os, re, itertools
from . import core

BASE = dict(HAVE_COMPLEX_H='1', HAVE_FFTW3_H='', HAVE_IMMINTRIN_H='1', HAVE_INTTYPES_H='1',
            HAVE_LIMITS_H='1', HAVE_MATH_H='1', HAVE_OMP_H='1', HAVE_STDINT_H='1', HAVE_STDIO_H='1',
            HAVE_STDLIB_H='1', HAVE_STRINGS_H='1', HAVE_STRING_H='1', HAVE_SYS_STAT_H='1',
            HAVE_SYS_TIME_H='1', HAVE_SYS_TYPES_H='1', HAVE_TIME_H='1', HAVE_UNISTD_H='1',
            HAVE_PREFIX='"/nonexistent"', PACKAGE='"glu"', PACKAGE_BUGREPORT='"x"',
            PACKAGE_NAME='"GLU"', PACKAGE_STRING='"GLU 1.1"', PACKAGE_TARNAME='"glu"',
            PACKAGE_URL='""', PACKAGE_VERSION='"1.1"', PROJ_GRACEY='0', VERSION='"1.1"')

# one axis per documented option; the first value is the default
AXES = [
    ('NC', [('3', {}), ('2', dict(NC='2')), ('4', dict(NC='4')), ('5', dict(NC='5')), ('8', dict(NC='8'))]),
    ('ND', [('4', {}), ('3', dict(ND='3')), ('5', dict(ND='5')), ('2', dict(ND='2'))]),
    ('single', [('no', {}), ('yes', dict(SINGLE_PREC=''))]),
    ('vector', [('sse', {}), ('none', dict(HAVE_IMMINTRIN_H=None))]),
    ('fftw', [('yes', {}), ('no', dict(HAVE_FFTW3_H=None)), ('omp', dict(OMP_FFTW=''))]),
    ('gsl', [('no', {}), ('yes', dict(HAVE_GSL='', HAVE_GSL_GSL_EIGEN_H='1'))]),
    ('rng', [('default', {}), ('KISS', dict(KISS_RNG='')), ('MWC1038', dict(MWC_1038_RNG='')),
             ('MWC4096', dict(MWC_4096_RNG='')), ('XOR', dict(XOR_1024_RNG='')),
             ('WELL', dict(WELL_512_RNG='')), ('GSL', dict(GSL_RNG='', HAVE_GSL='', HAVE_GSL_GSL_EIGEN_H='1'))]),
    ('staple', [('none', {}), ('SYMANZIK', dict(SYMANZIK='')), ('IWASAKI', dict(IWASAKI='')),
                ('DBW2', dict(DBW2='')), ('C0C1', dict(IWA_WEIGHT1='1.5', IWA_WEIGHT2='-0.1')),
                ('over', dict(SYMANZIK='', epsilon='0.3'))]),
    ('verbiage', [('no', {}), ('yes', dict(verbose=''))]),
    ('ascii', [('no', {}), ('yes', dict(ASCII_CHECK=''))]),
    ('givens', [('no', {}), ('yes', dict(GIVENS_APE=''))]),
    ('fmunu', [('default', {}), ('plaquette', dict(PLAQUETTE_FMUNU='')), ('improved', dict(CLOVER_IMPROVE='')),
               ('improved_k5', dict(CLOVER_IMPROVE='', k5='0.1'))]),
    ('top', [('none', {}), ('5', dict(TOP_VALUE='5'))]),
    ('luxury', [('none', {}), ('20', dict(LUXURY_GAUGE='20'))]),
    ('nblock', [('none', {}), ('1', dict(NBLOCK='1'))]),
    ('wflow', [('none', {}), ('time_only', dict(WFLOW_TIME_ONLY='')), ('stop', dict(WFLOW_TIME_STOP='2')),
               ('stop_start', dict(WFLOW_TIME_STOP='2', WFLOW_MEAS_START='1'))]),
    ('gfix', [('CG', {}), ('SD', dict(GLU_GFIX_SD='')), ('OR', dict(OVERRELAXED_GF=''))]),
    ('obc', [('no', {}), ('yes', dict(OBC_HACK=''))]),
    ('nstoch', [('all', {}), ('2', dict(NSTOCH='2'))]),
    ('exp', [('approx', {}), ('exact', dict(exp_exact=''))]),
    ('condor', [('yes', {}), ('not', dict(NOT_CONDOR_MODE=''))]),
    ('gracey', [('0', {}), ('1', dict(PROJ_GRACEY='1')), ('4', dict(PROJ_GRACEY='4')), ('-1', dict(PROJ_GRACEY='-1'))]),
    ('bgq', [('no', {}), ('yes', dict(GLU_BGQ=''))]),
    ('omp', [('yes', {}), ('no', dict(HAVE_OMP_H=None))]),
]


def option_macros(repo=None):
    """the macros configure.ac can define, from its AC_DEFINE calls"""
    s = open(os.path.join(repo or core.REPO, 'configure.ac')).read()
    return sorted(set(re.findall(r'AC_DEFINE(?:_UNQUOTED)?\(\s*\[(\w+)\]', s)))


def defines(choice):
    d = dict(BASE)
    for ax, vals in AXES:
        want = choice.get(ax, vals[0][0])
        for n, m in vals:
            if n == want:
                d.update(m)
    return d


def write(dirname, d):
    os.makedirs(dirname, exist_ok=True)
    with open(os.path.join(dirname, 'config.h'), 'w') as fh:
        for k in sorted(d):
            if d[k] is not None:
                fh.write('#define %s %s\n' % (k, d[k]))


def each_option():
    """default build and every single deviation, for each number of colours"""
    nc = AXES[0][1]
    out = []
    for n, _ in nc:
        out.append({'NC': n})
        for ax, vals in AXES[1:]:
            for v, _ in vals[1:]:
                out.append({'NC': n, ax: v})
    return out


def pairwise(skip=(('bgq', 'yes'),), maxn=200):
    """greedy covering array: every pair of option values of two axes meets"""
    axes = [(a, [v for v, _ in vals if (a, v) not in skip]) for a, vals in AXES]
    axes = [(a, v) for a, v in axes if len(v) > 1]
    need = set()
    for (i, (a, va)), (j, (b, vb)) in itertools.combinations(list(enumerate(axes)), 2):
        for x in va:
            for y in vb:
                need.add((i, x, j, y))
    rows = []
    order = sorted(range(len(axes)), key=lambda i: -len(axes[i][1]))
    while need and len(rows) < maxn:
        row = {}
        # seed with one uncovered pair
        i, x, j, y = min(need)
        row[i], row[j] = x, y
        for k in order:
            if k in row:
                continue
            best, bv = -1, None
            for v in axes[k][1]:
                c = 0
                for m, w in row.items():
                    p = (k, v, m, w) if k < m else (m, w, k, v)
                    if p in need:
                        c += 1
                if c > best:
                    best, bv = c, v
            row[k] = bv
        for i, j in itertools.combinations(sorted(row), 2):
            need.discard((i, row[i], j, row[j]))
        rows.append({axes[k][0]: v for k, v in row.items()})
    return rows
