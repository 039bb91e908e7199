"""C10: the input file selects exactly the documented run.

get_input_data is interpreted (glua/wordmem.py) on input files in which every
number is an opaque word; the structures it fills are compared with a table of
the documented options.  main is interpreted with the calculations replaced by
recorders, and the calls it makes are compared with the documented ones."""
import math, random, re
from concurrent.futures import ProcessPoolExecutor
from .. import core, wordmem as wm
from ..wordmem import T, Cx, Ptr, Region, Machine, mk, Undecided, Outside, Exited, show
from ..common import Result
from .c08 import Fail, latt
from .c09 import evaluate

QUICK = ['nc3', 'nc2', 'nc4', 'nc5nd3']
THOROUGH = QUICK + ['nc8', 'nc3opts', 'nc3opts2', 'nc3single', 'nc5nosse', 'nc4gsl']

# option -> (field, {value: constant}, constant of every other value or None when it is refused)
ENUMS = {
    'MODE': ('mode', dict(GAUGE_FIXING='MODE_GF', CUTTING='MODE_CUTS', SMEARING='MODE_SMEARING', SUNCxU1='MODE_CROSS_U1',
                          HEATBATH='MODE_HEATBATH'), 'MODE_REWRITE'),
    'HEADER': ('head', dict(NERSC='NERSC_HEADER', HIREP='HIREP_HEADER', CERN='CERN_HEADER', MILC='MILC_HEADER', SCIDAC='SCIDAC_HEADER',
                            LIME='LIME_HEADER', ILDG_SCIDAC='ILDG_SCIDAC_HEADER', ILDG_BQCD='ILDG_BQCD_HEADER', JLQCD='JLQCD_HEADER',
                            RANDOM='RANDOM_CONFIG', UNIT='UNIT_GAUGE', INSTANTON='INSTANTON'), None),
    'RANDOM_TRANSFORM': ('rtrans', dict(YES='GLU_TRUE', NO='GLU_FALSE'), 'GLU_FALSE'),
    'GFTYPE': ('GFINFO.type', dict(AXIALT='GLU_AXIALT_FIX', COULOMB='GLU_COULOMB_FIX', COULOMB_RESIDUAL='GLU_COULOMB_RESIDUAL_FIX',
                                   LANDAU='GLU_LANDAU_FIX', MAG='GLU_MAG_FIX'), 'DEFAULT_NOFIX'),
    'CUTTYPE': ('CUTINFO.dir', dict(EXCEPTIONAL='EXCEPTIONAL', NON_EXCEPTIONAL='NONEXCEPTIONAL', FIELDS='FIELDS',
                                    SMEARED_GLUONS='SMEARED_GLUONS', INSTANTANEOUS_GLUONS='INSTANTANEOUS_GLUONS',
                                    CONFIGSPACE_GLUONS='CONFIGSPACE_GLUONS', GLUON_PROPS='GLUON_PROPS', STATIC_POTENTIAL='STATIC_POTENTIAL',
                                    TOPOLOGICAL_CORRELATOR='TOPOLOGICAL_CORRELATOR', TOPOLOGICAL_SUSCEPTIBILITY='TOPOLOGICAL_SUSCEPTIBILITY',
                                    TOPOLOGICAL_MOMENTS='TOPOLOGICAL_MOMENTS'), 'GLU_NOCUTS'),
    'FIELD_DEFINITION': ('CUTINFO.definition', dict(LOG='LOG_DEF', LOGARITHMIC='LOG_DEF', LINEAR='LINEAR_DEF'), 'LINEAR_DEF'),
    'MOM_CUT': ('CUTINFO.type', dict(HYPERCUBIC_CUT='HYPERCUBIC_CUT', SPHERICAL_CUT='PSQ_CUT', CYLINDER_CUT='CYLINDER_CUT',
                                     CONICAL_CUT='CYLINDER_AND_CONICAL_CUT'), 'PSQ_CUT'),
    'SMEARTYPE': ('SMINFO.type', dict(APE='SM_APE', STOUT='SM_STOUT', LOG='SM_LOG', HYP='SM_HYP', HEX='SM_HEX', HYL='SM_HYL',
                                      WFLOW_LOG='SM_WFLOW_LOG', WFLOW_STOUT='SM_WFLOW_STOUT', ADAPTWFLOW_LOG='SM_ADAPTWFLOW_LOG',
                                      ADAPTWFLOW_STOUT='SM_ADAPTWFLOW_STOUT'), 'SM_NOSMEARING'),
    'DIRECTION': ('SMINFO.dir', dict(SPATIAL='SPATIAL_LINKS_ONLY', ALL='ALL_DIRECTIONS'), 'ALL_DIRECTIONS'),
    'U1_MEAS': ('U1INFO.meas', dict(U1_RECTANGLE='U1_RECTANGLE', U1_TOPOLOGICAL='U1_TOPOLOGICAL', U1_PLAQUETTE='U1_PLAQUETTE'), 'U1_PLAQUETTE'),
    'STORAGE': ('storage', dict(NERSC_SMALL='OUTPUT_SMALL', NERSC_GAUGE='OUTPUT_GAUGE', NERSC_NCxNC='OUTPUT_NCxNC', HIREP='OUTPUT_HIREP',
                                MILC='OUTPUT_MILC', SCIDAC='OUTPUT_SCIDAC', ILDG='OUTPUT_ILDG', CERN='OUTPUT_CERN'), None),
}
GENERATED = ('RANDOM_CONFIG', 'UNIT_GAUGE', 'INSTANTON', 'JLQCD_HEADER')
NEWRUN = ('RANDOM_CONFIG', 'UNIT_GAUGE')
INTS = {'ITERS': 'HBINFO.iterations', 'MEASURE': 'HBINFO.Nmeasure', 'OVER_ITERS': 'HBINFO.Nor', 'SAVE': 'HBINFO.Nsave',
        'MAX_T': 'CUTINFO.max_t', 'MAXMOM': 'CUTINFO.max_mom', 'ANGLE': 'CUTINFO.angle', 'MAX_ITERS': 'GFINFO.max_iters',
        'SMITERS': 'SMINFO.smiters'}
DBLS = {'BETA': 'HBINFO.beta', 'CYL_WIDTH': 'CUTINFO.cyl_width', 'U1_ALPHA': 'U1INFO.alpha', 'U1_CHARGE': 'U1INFO.charge',
        'GF_TUNE': 'Latt.gf_alpha'}
STRS = {'OUTPUT': 'CUTINFO.where', 'CONFIG_INFO': 'output_details'}
# values of the library's interface that are macros
MACROS = dict(GLU_FAILURE=-1, GLU_SUCCESS=0, GLU_FORWARD=1)


class Ctx(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.p = core.load(cfg)
        self.machines = 0
        s = open('%s/configs/%s/config.h' % (core.VERIF, cfg)).read()
        self.orelax = bool(re.search(r'^\s*#define\s+OVERRELAXED_GF\b', s, re.M))
        m = Machine(self.p)
        r, fs = latt(m)
        self.ND = fs['dims'][1].sz // 8
        self.NC = int(re.search(r'^\s*#define\s+THE_NCOLOR\s+(\d+)', s, re.M).group(1)) if 'THE_NCOLOR' in s else None
        if self.NC is None:
            mm = re.search(r'nc(\d)', cfg)
            self.NC = int(mm.group(1))

    def const(self, n):
        if n in MACROS and n not in self.p.enumconst:
            return MACROS[n]
        if n not in self.p.enumconst:
            raise Undecided('no enumerator %s' % n)
        return self.p.enumconst[n][1]

    def func(self, n):
        F = self.p.funcs.get(n)
        if F is None:
            F = [G for k, G in self.p.funcs.items() if k.split('@')[0] == n][0]
        return F

    def fail(self, what, fn='get_input_data'):
        try:
            F = self.func(fn)
        except IndexError:
            F = None
        raise Fail(what, F.line if F is not None else None, F.file if F is not None else None)


# ---------------------------------------------------------------- input files
def base(C, **kw):
    """(option, value): a value is text or ('d'|'g', word)"""
    t = [('MODE', 'GAUGE_FIXING'), ('HEADER', 'UNIT')]
    t += [('DIM_%d' % i, ('d', 8)) for i in range(C.ND)]
    t += [('CONFNO', ('d', 8)), ('RANDOM_TRANSFORM', 'NO'), ('SEED', ('d', 4)), ('GFTYPE', 'LANDAU'), ('GF_TUNE', ('g', 8)), ('ACCURACY', ('g', 8)),
          ('MAX_ITERS', ('d', 8)), ('CUTTYPE', 'EXCEPTIONAL'), ('FIELD_DEFINITION', 'LINEAR'), ('MOM_CUT', 'CYLINDER_CUT'), ('MAX_T', ('d', 8)),
          ('MAXMOM', ('d', 8)), ('CYL_WIDTH', ('g', 8)), ('ANGLE', ('d', 8)), ('OUTPUT', './out'), ('SMEARTYPE', 'APE'), ('DIRECTION', 'ALL'),
          ('SMITERS', ('d', 8))]
    t += [('ALPHA%d' % (i + 1), ('g', 8)) for i in range(C.ND - 1)]
    t += [('U1_MEAS', 'U1_RECTANGLE'), ('U1_ALPHA', ('g', 8)), ('U1_CHARGE', ('g', 8)), ('CONFIG_INFO', 'some_details'), ('STORAGE', 'NERSC_NCxNC'),
          ('BETA', ('g', 8)), ('ITERS', ('d', 8)), ('MEASURE', ('d', 8)), ('OVER_ITERS', ('d', 8)), ('SAVE', ('d', 8)), ('THERM', ('d', 8))]
    out = []
    for k, v in t:
        if isinstance(v, tuple):
            v = (v[0], mk('word', k, v[1]))
        v = kw.get(k, v)
        if v is not None:
            out.append((k, v))
    return out


def text(opts, indent=True):
    cs = []
    for i, (k, v) in enumerate(opts):
        if indent and i % 2:
            cs += [32, 9]
        cs += [ord(c) for c in k + ' = ']
        if isinstance(v, str):
            cs += [ord(c) for c in v]
        else:
            cs.append(mk('fmt', '%' + v[0], v[1]))
        cs.append(10)
    return cs


def fileof(cs):
    r = Region('the input file', len(cs))
    for i, c in enumerate(cs):
        r.cells[i] = (c, 1)
    return r


def scalars(m, r, off, rec, pre, out):
    for f in m.p.records[rec]:
        n, t, o = f[0], f[1], f[2]
        if t.k == 'rec':
            scalars(m, r, off + o, t.r, pre + n + '.', out)
        elif t.k == 'arr':
            e = t.e
            if e.sz == 1:
                cs = []
                for i in range(t.sz):
                    c = m.ld(r, off + o + i, 1)
                    if c == 0 or isinstance(c, T):
                        break
                    cs.append(c)
                out[pre + n] = ''.join(map(chr, cs))
            elif e.k != 'rec':
                for i in range(t.sz // e.sz):
                    out['%s%s[%d]' % (pre, n, i)] = m.load(r, off + o + i * e.sz, e)
        elif wm.kindof(t) in 'if':
            out[pre + n] = m.load(r, off + o, t)


def parse(C, cs):
    """(status, fields)"""
    C.machines += 1
    m = Machine(C.p)
    m.opened = []
    m.decide = lambda t: None
    m.files['in'] = fileof(cs)
    rec = [f for f in C.p.records['infile_data']]
    sz = max(f[2] + f[1].sz for f in rec)
    r = Region('the input data', sz + 8)
    F = C.func('get_input_data')
    st = m.call(F, [Ptr(r, 0, F.params[0].type), m.string('in')])
    out = {}
    scalars(m, r, 0, 'infile_data', '', out)
    L, fs = latt(m)
    lo = {}
    scalars(m, L, 0, [v.type.r for v in C.p.globals.values() if v.name == 'Latt'][0], 'Latt.', lo)
    out.update(lo)
    for h in m.opened:
        if h.live:
            C.fail('the input file is left open')
    return st, out, m


def logtext(m):
    return ''.join(''.join(chr(c) if isinstance(c, int) else '?' for c in s) for s in m.log)


def expected(C, opts):
    """field -> value, for a complete input file"""
    o = dict(opts)
    e = {}
    for k, (f, vals, other) in ENUMS.items():
        if k in o:
            n = vals.get(o[k], other)
            if n is None:
                return None
            e[f] = C.const(n)
        elif k == 'RANDOM_TRANSFORM':
            e[f] = C.const('GLU_FALSE')
    if o['MODE'] == 'SUNCxU1' and o['STORAGE'] in ('NERSC_SMALL', 'NERSC_GAUGE') or C.NC > 3 and o['STORAGE'] == 'NERSC_SMALL':
        e['storage'] = C.const('OUTPUT_NCxNC')
    for k, f in list(INTS.items()) + list(DBLS.items()):
        if isinstance(o[k], tuple):
            e[f] = o[k][1]
    for k, f in STRS.items():
        e[f] = o[k]
    for i in range(C.ND - 1):
        e['Latt.sm_alpha[%d]' % i] = o['ALPHA%d' % (i + 1)][1]
    e['Latt.Seed[0]'] = o['SEED'][1]
    head = ENUMS['HEADER'][1][o['HEADER']]
    e['Latt.head'] = e['head']
    if head in GENERATED:
        for i in range(C.ND):
            e['Latt.dims[%d]' % i] = o['DIM_%d' % i][1]
    if head in NEWRUN:
        e['Latt.flow'] = 0
        e['HBINFO.therm'] = o['THERM'][1]
        e['HBINFO.continuation'] = C.const('GLU_FALSE')
    else:
        if 'CONFNO' in o:
            e['Latt.flow'] = o['CONFNO'][1]
        e['HBINFO.therm'] = 0
        e['HBINFO.continuation'] = C.const('GLU_TRUE')
    if o['CUTTYPE'] not in ENUMS['CUTTYPE'][1]:
        for f in list(e):
            if f.startswith('CUTINFO.') and f != 'CUTINFO.dir':
                del e[f]
    return e


OPT = {}
for _k, (_f, _v, _o) in ENUMS.items():
    OPT[_f] = _k
for _d in (INTS, DBLS, STRS):
    for _k, _f in _d.items():
        OPT[_f] = _k


def compare(C, opts, what):
    st, got, m = parse(C, text(opts))
    want = expected(C, opts)
    bad = C.const('GLU_FAILURE')
    if want is None:
        if st != bad:
            C.fail('%s is accepted' % what)
        return 1
    if st == bad:
        C.fail('%s is refused' % what)
    n = 0
    for f, v in sorted(want.items()):
        g = got.get(f)
        if f not in got:
            raise Undecided('no member %s' % f)
        if g is not v and g != v:
            C.fail('%s: %s becomes %s, it should be %s (option %s)' % (what, f, show(g) if isinstance(g, T) else repr(g),
                                                                    show(v) if isinstance(v, T) else repr(v), OPT.get(f, f)))
        n += 1
    acc = got.get('GFINFO.accuracy')
    w = dict(opts)['ACCURACY'][1]
    if not isinstance(acc, T):
        C.fail('%s: the accuracy is %r whatever ACCURACY is' % (what, acc))
    for x in (3.0, 7.5, 14.0):
        g = evaluate([acc], {'ACCURACY': x})[0]
        if abs(g - 10.0 ** -x) > 1e-9 * 10.0 ** -x:
            C.fail('%s: ACCURACY = %g gives a stopping accuracy of %g' % (what, x, g))
    return n


def ob_base(C):
    """every number, text and dimension goes where it belongs, in any order of the lines"""
    b = base(C)
    n = compare(C, b, 'the example input')
    n += compare(C, b[::-1], 'the example input with its lines reversed')
    n += compare(C, b[7:] + b[:7], 'the example input with its lines rotated')
    return n


def ob_values(C):
    """every documented value of every option, and values that are not documented"""
    n = 0
    for k, (f, vals, other) in sorted(ENUMS.items()):
        vs = list(vals) + ['XYZZY']
        for v in vals:
            vs += [v + 'X', v[:-1], v.lower() if v.lower() != v else v + '_']
        seen = set()
        for v in vs:
            if v in seen or not v or (v not in vals and k == 'STORAGE' and v == ''):
                continue
            seen.add(v)
            n += compare(C, base(C, **{k: v}), '%s = %s' % (k, v))
    for h in ENUMS['HEADER'][1]:
        n += compare(C, base(C, HEADER=h, MODE='HEATBATH'), 'MODE = HEATBATH with HEADER = %s' % h)
    for s in ENUMS['STORAGE'][1]:
        for mode in list(ENUMS['MODE'][1]) + ['XYZZY']:
            n += compare(C, base(C, STORAGE=s, MODE=mode), 'MODE = %s with STORAGE = %s' % (mode, s))
    return n


OPTIONAL = ('RANDOM_TRANSFORM', 'CONFNO')


def ob_missing(C):
    """an option that is missing or no number stops the run"""
    n, bad = 0, C.const('GLU_FAILURE')
    for head in ('UNIT', 'NERSC'):
        b = base(C, HEADER=head)
        for k, v in b:
            if k in OPTIONAL and (k != 'CONFNO' or head == 'NERSC') or head == 'NERSC' and k.startswith('DIM_'):
                n += compare(C, [x for x in b if x[0] != k], 'HEADER = %s without %s' % (head, k)) if k != 'CONFNO' else 0
                continue
            st, got, m = parse(C, text([x for x in b if x[0] != k]))
            if st != bad:
                C.fail('an input file without %s is accepted' % k)
            st, got, m = parse(C, text([x if x[0] != k else (k + 'X', x[1]) for x in b]))
            if st != bad:
                C.fail('an input file with %sX for %s is accepted' % (k, k))
            if isinstance(v, tuple):
                st, got, m = parse(C, text([x if x[0] != k else (k, 'abc') for x in b]))
                if st != bad:
                    C.fail('%s = abc is accepted' % k)
                if k != 'SEED':
                    big = '9' * 30 if v[0] == 'd' else '1e999'
                    st, got, m = parse(C, text([x if x[0] != k else (k, big) for x in b]))
                    if st != bad:
                        C.fail('%s = %s is accepted' % (k, big))
                n += 2
            n += 2
    C.machines += 1
    m = Machine(C.p)
    m.opened = []
    F = C.func('get_input_data')
    r = Region('the input data', 4096)
    if m.call(F, [Ptr(r, 0, F.params[0].type), m.string('nothing')]) != bad:
        C.fail('a missing input file is accepted')
    return n + 1


def ob_limits(C):
    """long texts and long files stay within their buffers"""
    b = base(C)
    bad = C.const('GLU_FAILURE')
    n = 0
    for k in ('OUTPUT', 'CONFIG_INFO', 'MODE', 'XTRA', 'Y' * 70):
        for L in (62, 63):
            t = [x for x in b if x[0] != k] + [(k, 'a' * L)]
            st, got, m = parse(C, text(t))
            if k in STRS and got[STRS[k]] != 'a' * L:
                C.fail('%s of %d characters is not kept' % (k, L))
            n += 1
        for L in (64, 65, 70):
            want = expected(C, b)
            st, got, m = parse(C, text([x for x in b if x[0] != k] + [(k, 'a' * L)]))
            for f, v in want.items():
                if f != STRS.get(k) and f != (ENUMS[k][0] if k in ENUMS else None) and got[f] is not v and got[f] != v:
                    C.fail('a value of %d characters for %s changes %s' % (L, k, f))
            n += 1
    for k in range(64 - len(b) - 3, 64 - len(b)):
        st, got, m = parse(C, text(b + [('EXTRA%d' % i, 'x') for i in range(k)]))
        n += 1
    st, got, m = parse(C, text([('EXTRA%d' % i, 'x') for i in range(80)] + b))
    if st != bad:
        C.fail('an input file whose options do not fit is accepted')
    return n + 1



def say(C, arg):
    C.machines += 1
    m = Machine(C.p)
    m.opened = []
    F = C.func('GLU_helps_those_who_help_themselves')
    m.call(F, [m.string(arg)])
    return logtext(m)


def ob_help(C):
    """what the program's own help names is what the reader knows"""
    n = 0
    s = say(C, '--help=nonsense')
    mt = re.search(r'available options are:(.*?)\*', s, re.S)
    topics = re.findall(r'[A-Z][A-Za-z0-9_]+', mt.group(1)) if mt else []
    if not topics:
        raise Undecided('the list of help topics')
    known = set(ENUMS) | set(INTS) | set(DBLS) | set(STRS) | {'SEED', 'CONFNO', 'THERM', 'ACCURACY', 'DIM', 'ALPHA'}
    for t in topics:
        if t not in known:
            C.fail('help lists the option %s, which the reader does not look for' % t, 'GLU_helps_those_who_help_themselves')
        h = say(C, '--help=' + t)
        if 'Unrecognised' in h:
            C.fail('help lists the option %s but does not describe it' % t, 'GLU_helps_those_who_help_themselves')
        n += 1
        if t in ENUMS:
            vs = re.findall(r'^(?:%s)?\s*=\s*([A-Za-z][A-Za-z0-9_]*)\s+-' % t, h, re.M)
            if not vs:
                raise Undecided('the values help gives for %s' % t)
            for v in vs:
                if v not in ENUMS[t][1]:
                    C.fail('help describes %s = %s, which the reader does not know' % (t, v), 'GLU_helps_those_who_help_themselves')
                n += 1
    return n


AUTO = dict(LANDAU=('GAUGE_FIXING', 'GFTYPE', 'LANDAU'), COULOMB=('GAUGE_FIXING', 'GFTYPE', 'COULOMB'), HEATBATH=('HEATBATH', None, None),
            STATIC_POTENTIAL=('CUTTING', 'CUTTYPE', 'STATIC_POTENTIAL'), SUNCxU1=('SUNCxU1', None, None), WFLOW=('SMEARING', 'SMEARTYPE', 'WFLOW_STOUT'),
            TOPOLOGICAL_SUSCEPTIBILITY=('CUTTING', 'CUTTYPE', 'TOPOLOGICAL_SUSCEPTIBILITY'))


def ob_autoin(C):
    """the example files the program writes are accepted and select what they are for"""
    n, bad = 0, C.const('GLU_FAILURE')
    for a, (mode, k, v) in sorted(AUTO.items()):
        s = say(C, '--autoin=' + a)
        if 'Unrecognised' in s:
            C.fail('--autoin=%s is not known' % a, 'GLU_helps_those_who_help_themselves')
        st, got, m = parse(C, [ord(c) for c in s])
        if st == bad:
            C.fail('the file written by --autoin=%s is refused' % a, 'GLU_helps_those_who_help_themselves')
        if got['mode'] != C.const(ENUMS['MODE'][1][mode]) or k and got[ENUMS[k][0]] != C.const(ENUMS[k][1][v]):
            C.fail('the file written by --autoin=%s selects another calculation' % a, 'GLU_helps_those_who_help_themselves')
        n += 1
    return n


# ------------------------------------------------------------------- dispatch
NUM = {'SMITERS': 17, 'MAX_ITERS': 650, 'MAX_T': 7, 'MAXMOM': 40, 'ANGLE': 60, 'ITERS': 1500, 'MEASURE': 5, 'OVER_ITERS': 4, 'SAVE': 25, 'THERM': 150,
       'CONFNO': 321, 'SEED': 99}
LEAVES = ['random_gtrans', 'gauge', 'hb_update', 'suNC_cross_u1', 'write_configuration', 'Landau', 'Coulomb', 'OrLandau', 'OrCoulomb', 'residual_fix',
          'mag', 'axial_gauge', 'smear3D', 'smear4D', 'HYPSLsmear3D', 'HYPSLsmear4D_expensive', 'HYsmearND', 'flow_RK3', 'flow_adaptive_RK3',
          'cuts_spatial', 'cuts_struct_configspace', 'cuts_struct_smeared', 'cuts_struct_smeared_Lcondition', 'Coul_staticpot', 'compute_Qsusc_step',
          'cuts_struct']
QUIET = {'gauge'}


class Run(object):
    def __init__(self, C, opts, out=True, fail=(), mem=0, nofile=False, argc=None):
        C.machines += 1
        self.C = C
        m = self.m = Machine(C.p)
        m.opened = []
        m.decide = lambda t: None
        m.files['in'] = fileof(text(opts))
        self.trace = []
        bad, ok = C.const('GLU_FAILURE'), C.const('GLU_SUCCESS')
        self.lat = Ptr(Region('the gauge field', 64, True), 0, None)
        self.freed = 0
        for n in LEAVES:
            m.hooks[n] = self.leaf(n, bad if n in fail else ok)
        m.hooks['read_file'] = self.read('read_file' in fail)

        def free(mm, a, e):
            self.freed += 1
            return 0
        m.hooks['free_lat'] = free
        for n in ('attach_GLU', 'unstick_GLU', 'start_timer', 'print_time', 'free_par_rng', 'free_latt', 'init_latt'):
            m.hooks[n] = lambda mm, a, e: 0
        for n in ('have_memory_hyp', 'have_memory_wf'):
            m.hooks[n] = lambda mm, a, e: mem
        m.hooks['have_memory_Cgf'] = lambda mm, a, e: mem
        for n in ('t_links', 's_links', 'links', 'av_plaquette', 'all_links', 'all_plaquettes'):
            m.hooks[n] = lambda mm, a, e: 0.0
        argv = ['./GLU', '-i', 'in' if not nofile else 'none', '-c', 'conf'] + (['-o', 'outfile'] if out else [])
        argv = argv[:argc]
        r = Region('argv', 8 * len(argv) + 8)
        r.cells[8 * len(argv)] = (0, 8)
        F = C.func('main')
        for i, s in enumerate(argv):
            r.cells[8 * i] = (m.string(s, F.params[1].type.e), 8)
        self.status = m.call(F, [len(argv), Ptr(r, 0, F.params[1].type)])

    def decode(self, t, a):
        m = self.m
        if isinstance(a, Ptr):
            if a.r is self.lat.r:
                return 'lat'
            if t.k == 'rec':
                out = {}
                scalars(m, a.r, a.off, t.r, '', out)
                return out
            if t.k in ('ptr', 'arr') and t.e is not None and t.e.sz == 1:
                return wm.pystr(m, a)
            return 'ptr'
        return a

    def leaf(self, n, ret):
        def f(m, a, e):
            F = self.C.func(n)
            self.trace.append((n, [self.decode(v.type, x) for v, x in zip(F.params, a)]))
            return ret
        return f

    def read(self, fails):
        def f(m, a, e):
            self.trace.append(('read_file', [wm.pystr(m, a[1])]))
            if isinstance(a[0], Ptr):
                m.clear(a[0].r, a[0].off, m.p.func('read_file').params[0].type.e.sz)
            return 0 if fails else self.lat
        return f


def nums(C, **kw):
    d = {k: str(v) for k, v in NUM.items()}
    for i in range(C.ND):
        d['DIM_%d' % i] = '4'
    d.update(CYL_WIDTH='2.5', ACCURACY='14', GF_TUNE='0.0625', U1_ALPHA='0.125', U1_CHARGE='-1.5', BETA='6.25')
    for i in range(C.ND - 1):
        d['ALPHA%d' % (i + 1)] = str(0.5 / (i + 1))
    d.update(kw)
    return base(C, **d)


def subset(got, want):
    """the first of the wanted values that differs"""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return 'another argument'
        for k, v in want.items():
            if got.get(k) != v and not (isinstance(v, float) and isinstance(got.get(k), float) and abs(got[k] - v) <= 1e-9 * abs(v)):
                return '%s is %s instead of %s' % (k, got.get(k), v)
        return None
    if isinstance(want, float) and isinstance(got, (int, float)):
        return None if abs(got - want) <= 1e-6 * abs(want) + 1e-300 else '%s instead of %s' % (got, want)
    if want is ANY or got == want:
        return None
    return '%s instead of %s' % (got, want)


ANY = object()


def check(C, R, calls, what, status=True, fn='main'):
    """calls: list of alternatives, each a list of (name, args)"""
    got = [x for x in R.trace]
    good = C.const('GLU_SUCCESS')
    first = None
    for alt in calls:
        msg = None
        if [g[0] for g in got] != [w[0] for w in alt]:
            msg = 'calls %s, it should call %s' % (', '.join(g[0] for g in got) or 'nothing', ', '.join(w[0] for w in alt) or 'nothing')
        else:
            for (n, ga), (_, wa) in zip(got, alt):
                for i, (g, w) in enumerate(zip(ga, wa)):
                    d = subset(g, w)
                    if d:
                        msg = 'argument %d of %s: %s' % (i + 1, n, d)
                        break
                if msg:
                    break
        if msg is None:
            first = None
            break
        first = first or msg
    if first:
        C.fail('%s: %s' % (what, first), fn)
    if status is True and R.status != good:
        C.fail('%s: the program ends with status %s' % (what, R.status), fn)
    if status is False and R.status == good:
        C.fail('%s: the program ends with success' % what, fn)
    return 1


def expected_nums(C, opts):
    o = dict(opts)
    fake = [(k, v) for k, v in base(C, **{k: v for k, v in o.items() if k in ENUMS or k in STRS})]
    e = expected(C, fake)
    for k, f in INTS.items():
        e[f] = int(o[k])
    for k, f in DBLS.items():
        e[f] = float(o[k])
    e['GFINFO.accuracy'] = 1e-14
    if e['HBINFO.therm'] != 0:
        e['HBINFO.therm'] = int(o['THERM'])
    if o['CUTTYPE'] not in ENUMS['CUTTYPE'][1]:
        for f in list(e):
            if f.startswith('CUTINFO.') and f != 'CUTINFO.dir':
                del e[f]
    return e


def gf_leaf(C, typ, e):
    acc, it, al = e['GFINFO.accuracy'], e['GFINFO.max_iters'], e['Latt.gf_alpha']
    if C.orelax:
        L, Co = ('OrLandau', ['lat', ANY, it, acc, al]), ('OrCoulomb', ['lat', ANY, it, acc, al])
    else:
        L, Co = ('Landau', ['lat', acc, it, 'conf']), ('Coulomb', ['lat', acc, it])
    return dict(LANDAU=[L], COULOMB=[Co], COULOMB_RESIDUAL=[Co, ('residual_fix', ['lat'])], MAG=[('mag', ['lat'])],
                AXIALT=[('axial_gauge', ['lat', C.ND - 1])]).get(typ, [])


def ob_modes(C):
    """each mode reads the field, does its calculation and writes the result"""
    n = 0
    for out in (True, False):
        for rt in ('YES', 'NO'):
            for mode in list(ENUMS['MODE'][1]) + ['XYZZY']:
                for stor in ('NERSC_GAUGE', 'ILDG'):
                    opts = nums(C, MODE=mode, RANDOM_TRANSFORM=rt, STORAGE=stor, SMEARTYPE='STOUT')
                    e = expected_nums(C, opts)
                    sub = lambda p: {k[len(p) + 1:]: v for k, v in e.items() if k.startswith(p + '.')}
                    R = Run(C, opts, out=out)
                    w = [('read_file', ['conf'])]
                    if rt == 'YES' and mode not in ('CUTTING', 'HEATBATH'):
                        w.append(('random_gtrans', ['lat']))
                    tail = [('write_configuration', ['lat', 'outfile', e['storage'], 'some_details'])] if out else []
                    body = {'GAUGE_FIXING': gf_leaf(C, 'LANDAU', e), 'CUTTING': [('cuts_struct', ['lat', sub('CUTINFO')])],
                            'SMEARING': [('smear4D', ['lat', 17, C.const('SM_STOUT')])], 'SUNCxU1': [('suNC_cross_u1', ['lat', sub('U1INFO')])],
                            'HEATBATH': [('hb_update', ['lat', sub('HBINFO'), 'conf', e['storage'], 'some_details'])]}.get(mode, [('gauge', ['lat'])])
                    if mode in ('CUTTING', 'HEATBATH'):
                        tail = []
                    n += check(C, R, [w + body + tail], 'MODE = %s, RANDOM_TRANSFORM = %s, STORAGE = %s%s' % (mode, rt, stor, '' if out else ', no -o'),
                               status=True)
                    if R.freed != 1:
                        C.fail('MODE = %s: the gauge field is released %d times' % (mode, R.freed), 'main')
    return n


def ob_failures(C):
    """a stage that fails stops the run, nothing is written"""
    n = 0
    for k in (1, 3, 4, 6):
        R = Run(C, nums(C, MODE='SMEARING'), argc=k)
        n += check(C, R, [[]], 'a command line of %d words' % (k - 1), status=None)
    stage = dict(GAUGE_FIXING='OrLandau' if C.orelax else 'Landau', SMEARING='smear4D', SUNCxU1='suNC_cross_u1', CUTTING='cuts_struct', HEATBATH='hb_update')
    for mode in list(ENUMS['MODE'][1]) + ['XYZZY']:
        opts = nums(C, MODE=mode, RANDOM_TRANSFORM='YES', SMEARTYPE='STOUT')
        R = Run(C, opts, nofile=True)
        n += check(C, R, [[]], 'a missing input file', status=False)
        R = Run(C, opts, fail=('read_file',))
        n += check(C, R, [[('read_file', ['conf'])]], 'MODE = %s and a configuration that cannot be read' % mode, status=False)
        for f in [stage.get(mode), None if mode in ('CUTTING', 'HEATBATH') else 'random_gtrans']:
            if f is None:
                continue
            R = Run(C, opts, fail=(f,))
            if R.status == C.const('GLU_SUCCESS'):
                C.fail('MODE = %s: %s fails and the program ends with success' % (mode, f), 'main')
            if any(x[0] == 'write_configuration' for x in R.trace):
                C.fail('MODE = %s: a configuration is written after %s failed' % (mode, f), 'main')
            n += 2
        if mode not in ('CUTTING', 'HEATBATH'):
            R = Run(C, opts, fail=('write_configuration',))
            if R.status == C.const('GLU_SUCCESS'):
                C.fail('MODE = %s: the configuration cannot be written and the program ends with success' % mode, 'main')
            n += 1
    return n


def ob_fixing(C):
    n = 0
    for typ in list(ENUMS['GFTYPE'][1]) + ['XYZZY']:
        opts = nums(C, MODE='GAUGE_FIXING', GFTYPE=typ)
        e = expected_nums(C, opts)
        R = Run(C, opts)
        n += check(C, R, [[('read_file', ['conf'])] + gf_leaf(C, typ, e) + [('write_configuration', ['lat', 'outfile', e['storage'], 'some_details'])]],
                   'GFTYPE = %s' % typ, fn='GF_wrap')
    return n


def ob_smearing(C):
    n = 0
    fwd = C.const('GLU_FORWARD')
    base3 = dict(APE='SM_APE', STOUT='SM_STOUT', LOG='SM_LOG', HYP='SM_APE', HEX='SM_STOUT', HYL='SM_LOG')
    for typ in list(ENUMS['SMEARTYPE'][1]) + ['XYZZY']:
        for d in ('SPATIAL', 'ALL'):
            for it in ('17', '1', '0'):
                for mem in (C.const('FAST'), C.const('MODERATE')) + ((C.const('SLOW'),) if typ in ('HYP', 'HEX', 'HYL') else ()):
                    opts = nums(C, MODE='SMEARING', SMEARTYPE=typ, DIRECTION=d, SMITERS=it)
                    e = expected_nums(C, opts)
                    k = int(it)
                    if typ == 'XYZZY' or k == 0:
                        alts = [[]]
                    elif typ in ('APE', 'STOUT', 'LOG'):
                        g = C.const(base3[typ])
                        alts = [[('smear3D' if d == 'SPATIAL' else 'smear4D', ['lat', k, g])]]
                    elif typ in base3:
                        g = C.const(base3[typ])
                        alts = [[('HYsmearND', ['lat', k, g, e['SMINFO.dir']])]]
                        if C.ND == 4:
                            alts.insert(0, [('HYPSLsmear3D' if d == 'SPATIAL' else 'HYPSLsmear4D_expensive', ['lat', k, g])])
                    else:
                        g = C.const('SM_' + typ.split('_')[1])
                        alts = [[('flow_adaptive_RK3' if typ.startswith('ADAPT') else 'flow_RK3', ['lat', k, fwd, g])]]
                    R = Run(C, opts, out=False, mem=mem)
                    n += check(C, R, [[('read_file', ['conf'])] + a for a in alts], 'SMEARTYPE = %s, DIRECTION = %s, SMITERS = %s' % (typ, d, it),
                               fn='SM_wrap_struct')
    return n


CUTS = dict(EXCEPTIONAL='cuts_struct', NON_EXCEPTIONAL='cuts_struct', FIELDS='cuts_struct', GLUON_PROPS='cuts_struct', SMEARED_GLUONS='cuts_struct_smeared',
            INSTANTANEOUS_GLUONS='cuts_spatial', CONFIGSPACE_GLUONS='cuts_struct_configspace', STATIC_POTENTIAL='Coul_staticpot',
            TOPOLOGICAL_CORRELATOR='compute_Qsusc_step', TOPOLOGICAL_SUSCEPTIBILITY='compute_Qsusc_step', TOPOLOGICAL_MOMENTS='compute_Qsusc_step')


def ob_cutting(C):
    n = 0
    for typ in list(ENUMS['CUTTYPE'][1]) + ['XYZZY']:
        for fd in ('LOG', 'LINEAR'):
            opts = nums(C, MODE='CUTTING', CUTTYPE=typ, FIELD_DEFINITION=fd, SMEARTYPE='HYL', DIRECTION='SPATIAL')
            e = expected_nums(C, opts)
            sub = lambda p: {k[len(p) + 1:]: v for k, v in e.items() if k.startswith(p + '.')}
            w = [(CUTS[typ], ['lat', sub('CUTINFO'), sub('SMINFO')])] if typ in CUTS else []
            R = Run(C, opts, out=False)
            n += check(C, R, [[('read_file', ['conf'])] + w], 'CUTTYPE = %s' % typ, status=True if typ in CUTS else None, fn='cuts_wrap_struct')
    return n


OBS = [('base', ob_base), ('values', ob_values), ('missing', ob_missing), ('limits', ob_limits), ('help', ob_help), ('autoin', ob_autoin),
       ('modes', ob_modes), ('failures', ob_failures), ('fixing', ob_fixing), ('smearing', ob_smearing), ('cutting', ob_cutting)]


def analyse(job):
    cfg, names = job
    C = Ctx(cfg)
    res, und, bad, n = 0, [], [], 0
    for name, f in OBS:
        if names and name not in names:
            continue
        wm.reset()
        try:
            n += f(C)
            res += 1
        except (Fail, Outside) as e:
            bad.append((name, e.file, e.line, str(e)))
        except Undecided as e:
            und.append((name, str(e)))
        except Exited:
            bad.append((name, None, None, 'the program is left by exit()'))
        except RecursionError:
            und.append((name, 'recursion'))
    return cfg, res, und, bad, n, C.machines


def run(tier, seed):
    res = Result()
    core.dumper_path()
    cfgs = THOROUGH if tier == 'thorough' else QUICK
    jobs = [(c, g) for c in cfgs for g in (['values', 'base'], ['missing', 'limits', 'help', 'autoin', 'fixing'], ['modes', 'failures', 'smearing', 'cutting'])]
    with ProcessPoolExecutor(8) as ex:
        outs = list(ex.map(analyse, jobs))
    tot = num = runs = 0
    und, seen = [], {}
    for cfg, n, u, bad, k, mc in outs:
        tot += n + len(u) + len(bad)
        num += k
        runs += mc
        und += [(cfg,) + x for x in u]
        for name, file, line, msg in bad:
            seen.setdefault((name, file, msg), (line, []))[1].append(cfg)
    if len(und) > tot // 2:
        raise core.AnalysisError('%d of %d obligations are undecided: %s' % (len(und), tot, und[:3]))
    for (name, file, msg), (line, cs) in sorted(seen.items(), key=str):
        file = file or 'src/IO/input_reader.c'
        res.add(name, '%s|%s' % (name, file), '%s:%s' % (file, line or 0), '%s [configurations: %s]' % (msg, ' '.join(sorted(set(cs)))))
    res.coverage = dict(configurations=len(cfgs), obligations=tot, decided=tot - len(und), undecided=len(und), comparisons=num, interpreted_runs=runs,
                        explanation='get_input_data is interpreted on input files whose numbers are opaque words, main on input files with given numbers '
                        'and the calculations replaced by recorders. Rules: base (every option reaches its field, in any order of lines), values (every '
                        'documented value, and values near it, of every option), missing (absent or unreadable options refuse the file), limits, help '
                        '(documented values are those read), autoin, modes/fixing/smearing/cutting (the calculation called and its arguments), failures.',
                        samples=['%s %s: %s' % x for x in und[:20]])
    res.assumptions = ['numbers are decimal text that strtol/strtod/sscanf accept', 'the calculations themselves are the subject of other properties']
    return res
