# The single table properties.jsonl and MANIFEST.json are generated from
# (python3 tools/genmeta.py).  check: None -> not claimed, with a reason.
P = []


def prop(id, title, statement, over, quant, why, files, mech, check=None, reason=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, check=check, reason=reason, state=state))


prop('C01', 'Every documented build configuration compiles and links',
     'Every build the documented configure options can select (number of colours and dimensions, precision, checksum '
     'and random generator choice, vectorised or plain kernels, with or without the FFT library, each option on its own '
     'and combined with the others) type-checks without undeclared names, undeclared functions or incompatible pointer '
     'arguments. In each of them every function or object that is referenced is defined exactly once, with the type it '
     'was declared with.',
     ['configurations'], 'all values of every configure option, alone and combined, on all compiled sources',
     'The tests build five configurations of the defaults; the option space has more than a hundred single settings and '
     'code under the others is never compiled.',
     ['configure.ac', 'src/Makefile.am', 'src/Headers/Mainfile.h', 'src/Headers/MMUL.h', 'src/IO/writers.c'],
     [{'name': 'conditional compilation on the option macros', 'where': 'configure.ac, src/Headers/Mainfile.h'}],
     check=dict(technique='whole-program type check and symbol resolution (clang front end) over the generated option matrix',
                level='other',
                level_note='Decides compile and link correctness for each generated configuration from the source alone; '
                'the combinations are a covering array, not all of them. Trusts clang to accept what gcc accepts.'))

prop('C06', 'A failed operation is never reported as success',
     'Whenever an operation a run depends on fails - opening, reading, seeking, writing or closing a file, a short read or '
     'write, a value in an input file or header that cannot be parsed, a stage (transform, smearing, gauge fixing, '
     'measurement, update, output) that returns failure - every function between that operation and main returns something '
     'its caller can tell from success, and the program ends with a nonzero exit status. This holds on every path, in every '
     'build configuration. Only documented fallbacks are exempt: generated fields need no input file, an unusable generator '
     'state starts a new sequence with a warning, caches are recomputed, optional header entries may be missing.',
     ['inputs', 'fault_sequences', 'configurations'], 'every path of every function, with any fallible call on it failing',
     'A unit test would have to inject each failure at each of several hundred call sites; the tests call no I/O at all.',
     ['src/Run/Mainfile.c', 'src/Wrappers/GLUlib_wrap.c', 'src/IO/read_config.c', 'src/IO/readers.c', 'src/IO/writers.c',
      'src/IO/input_reader.c', 'src/Cuts/cuts.c', 'src/Update/KPHB.c', 'src/Utils/par_rng.c'],
     [{'name': 'GLU_FAILURE / GLU_SUCCESS return codes', 'where': 'src/Headers/GLU_enum.h and every caller'},
      {'name': 'exit status', 'where': 'src/Run/Mainfile.c'}],
     check=dict(technique='interprocedural failure-token dataflow over control-flow graphs of the resolved program',
                level='other',
                level_note='Path-sensitive over constants; correlated non-constant conditions are over-approximated. Failures '
                'are those of the modelled externals; wrong values that are not flagged by any call are out of scope.'))

prop('C02', 'Products, sums and traces of gauge links follow lattice paths',
     'Wherever gauge links, their daggers, or matrices built from them (staples, clover leaves, partial products, smeared '
     'links, gauge-rotated links) are multiplied, each factor starts at the lattice site where the one before it ends; '
     'matrices that are added start at one site and end at one site; a traced, logarithm- or exponential-mapped matrix is a '
     'closed loop; what is stored in the link at site x in direction mu leads from x to x+mu; no matrix is used before it is '
     'assigned; and no link direction is outside 0..ND-1. So smearing, flow, heat bath, measurements of plaquettes, '
     'topological charge and Polyakov loops are gauge covariant on every lattice. The momentum-space fields of src/Cuts '
     'are not part of this.',
     ['inputs', 'configurations'],
     'every site, direction and lattice size; all branches over smearing type, direction count and build option',
     'A test would need a gauge transformation of every observable in every build; the present tests check primitives only.',
     ['src/Smear/staples.c', 'src/Smear/smear.c', 'src/Smear/ND_generic_HYP.c', 'src/Smear/HYP.c', 'src/Smear/4D_fast.c',
      'src/Smear/wflowfuncs.c', 'src/Field/clover.c', 'src/Field/plaqs_links.c', 'src/Field/POLY.c', 'src/Gfix/gtrans.c',
      'src/Update/hb.c', 'src/Update/relax.c'],
     [{'name': 'site/neighbour tables and link matrices', 'where': 'struct site, src/Geometry/geometry.c'}],
     check=dict(technique='abstract interpretation with a site-to-site type system for colour matrices',
                level='other',
                level_note='Every matrix operand is typed by symbolic start and end site; operands the analysis cannot type '
                '(counted in the evidence) are accepted. The neighbour tables and matrix primitives are trusted here.'))

prop('C03', 'Threads never access the same memory unordered when one of them writes',
     'In every parallel region, between two synchronisation points, two threads never touch the same element of a shared '
     'array, link field, reduction buffer or variable when one of the accesses is a write, unless both are in one critical '
     'section or only one thread executes them. Results therefore do not depend on the schedule. The site colouring '
     'computed for the rectangle-improved heat bath is taken as given.',
     ['schedules', 'inputs', 'configurations'], 'all thread counts, schedules and lattice sizes',
     'A race shows up in rare interleavings only; the tests use one thread or compare nothing across schedules.',
     ['src/Update/hb.c', 'src/Update/relax.c', 'src/Smear/smear.c', 'src/Smear/wflowfuncs.c', 'src/Gfix/CFACG.c',
      'src/Gfix/FACG.c', 'src/Gfix/line_search.c', 'src/Field/clover.c', 'src/Field/plaqs_links.c', 'src/Cuts/config_gluons.c'],
     [{'name': 'OpenMP parallel regions, worksharing loops, barriers, single and master constructs', 'where': 'all of src'}],
     check=dict(technique='phase-based static race detection (symbolic access indices between barriers, interprocedural)',
                level='other',
                level_note='Indices are compared symbolically; within one worksharing loop, elements picked by unknown index '
                'tables are assumed distinct for distinct iterations.'))

prop('C04', 'All threads of a team meet the same barriers and worksharing loops',
     'No barrier, worksharing loop or single construct is reached by only some threads of a team: none lies under a '
     'condition, loop exit, jump or early return decided by a value that differs between threads, nor inside another '
     'worksharing, single, master or critical construct, in any function called from a parallel region. So no parallel '
     'run can deadlock or mismatch its loops.',
     ['schedules', 'inputs', 'configurations'], 'all thread counts, schedules and data-dependent branches',
     'A mismatch needs particular data (a failed allocation, an iteration that converges for one thread only) to hang.',
     ['src/Gfix/CFACG.c', 'src/Gfix/FACG.c', 'src/Smear/wflow.c', 'src/Smear/adaptive_flow.c', 'src/Smear/smear.c',
      'src/Update/KPHB.c', 'src/Field/plaqs_links.c'],
     [{'name': 'orphaned worksharing constructs called from parallel regions', 'where': 'src/Smear, src/Gfix, src/Update'}],
     check=dict(technique='interprocedural thread-divergence dataflow over parallel regions',
                level='other',
                level_note='Values are divergent when they derive from the thread number, from what a thread collected in its '
                'share of a worksharing loop, or from memory another thread may be writing.'))

prop('C05', 'Colour-matrix primitives compute their documented algebra in every build',
     'In every build (each number of colours, single or double precision, vectorised or plain) the colour-matrix primitives '
     'compute what they are documented to: products with and without daggers, sums, traces, determinants, projections to the '
     '(anti)hermitian traceless part, packing and unpacking of hermitian matrices, the SU(2) and SU(3) exponential, SU(2) '
     'subgroup extraction and rotation, gauge rotation of a link, the APE, stout and log smearing projections, the divergence '
     'in the gauge condition, and contractions with the structure constants. Results are fully assigned on every path, inputs '
     'are left unchanged, and no call passes a result that is also an operand the primitive still reads. Shortcuts valid only '
     'for special unitary arguments may be used where arguments are special unitary.',
     ['inputs', 'configurations'], 'all matrix entries, every supported number of colours analysed, every precision and vector variant',
     'Tests sample a few matrices in the default vectorised build; plain, single-precision and other-NC variants are separate code.',
     ['src/Matrix_Ops/U_Nops.c', 'src/Matrix_Ops/MMUL/MMUL.c', 'src/Matrix_Ops/MMUL/MMUL_SSE.c', 'src/Matrix_Ops/MMUL/MMUL_dag.c',
      'src/Matrix_Ops/trace_abc.c', 'src/Matrix_Ops/exactQ.c', 'src/Matrix_Ops/expMat.c', 'src/Matrix_Ops/lie_mats.c',
      'src/Update/SU2_rotate.c', 'src/Gfix/gtrans.c', 'src/Gfix/lin_derivs.c', 'src/Smear/projectors.c'],
     [{'name': 'matrix kernels selected by macro per build', 'where': 'src/Headers/MMUL.h, src/Matrix_Ops'}],
     check=dict(technique='abstract interpretation in the domain of polynomials over the matrix entries, compared with the definition',
                level='proof',
                level_note='Exact arithmetic, loops with constant bounds. Determinants and cofactors for NC<=3, exponentials for '
                'NC<=3, triple traces for NC<=4; roots and trigonometric functions are uninterpreted symbols.'))

prop('C07', 'Measured and gauge-fixed quantities equal their lattice definition',
     'For every gauge field (special unitary links), lattice size, number of colours and dimensions, and build option: staple '
     'sums, space-like, time-like and average plaquettes with their normalisation, link averages, Polyakov loops, the clover '
     'field strength with its improvement weights and the topological charge built from it equal their textbook definition '
     'as functions of the links at each site. A gauge transformation replaces every link U_mu(x) by g(x) U_mu(x) g(x+mu)^dagger; the '
     'gauge-fixing functionals, line searches and exponentiated gradient steps act on and measure exactly the transformed links.',
     ['inputs', 'configurations'], 'every gauge field, site, direction, and analysed build',
     'Tests compare a handful of primitives on random matrices; no test evaluates an observable or gauge-fixing step against its '
     'definition, and none does so for other NC, ND or clover options.',
     ['src/Smear/staples.c', 'src/Field/plaqs_links.c', 'src/Field/POLY.c', 'src/Field/clover.c', 'src/Gfix/gtrans.c',
      'src/Gfix/gftests.c', 'src/Gfix/line_search.c', 'src/Gfix/Landau.c', 'src/Gfix/Coulomb.c', 'src/Gfix/CG.c'],
     [{'name': 'sums over sites of traces of link products', 'where': 'src/Field, src/Smear/staples.c'},
      {'name': 'gauge rotation of links', 'where': 'src/Gfix/gtrans.c'}],
     check=dict(technique='abstract interpretation in the domain of polynomials of words in links at a symbolic site, compared with the definition',
                level='proof',
                level_note='Exact arithmetic; matrix primitives are taken as defined (C05). Equality of words that differ in form is decided by '
                'polynomial identity testing. Functions that cannot be interpreted are counted as undecided and accepted.'))

prop('C08', 'Configurations read back as they were written',
     'For every gauge field and lattice, in every supported output format (NERSC small/gauge/NCxNC, MILC, SCIDAC, ILDG, HiRep, CERN), '
     'precision, number of colours and dimensions: the file written has the documented header, data layout, endianness, '
     'plaquette/trace and checksum values, and reading it back, by the whole-field or the memory-saving path, gives every link '
     'on the same site and direction. Every supported input variant (single/double precision, big/little endian, LIME, BQCD, JLQCD) is read '
     'the same; truncated files and files whose checksums or measured values disagree are rejected; an existing '
     'configuration is never overwritten, and no buffer is read or written outside its bounds while doing so.',
     ['inputs', 'configurations'], 'every field content, format, precision, byte order, reader and writer path of the analysed builds',
     'Tests write and read only a few formats in one precision, on one path; round trips that permute data consistently in writer and reader, '
     'or other NC and ND, are never compared with the format definitions.',
     ['src/IO/writers.c', 'src/IO/readers.c', 'src/IO/write_headers.c', 'src/IO/read_headers.c', 'src/IO/Scidac.c', 'src/IO/XML_info.c',
      'src/IO/HIREP.c', 'src/IO/CERN.c', 'src/IO/chklat_stuff.c', 'src/Wrappers/GLUlib_wrap.c', 'src/Utils/GLU_bswap.c'],
     [{'name': 'configuration writers', 'where': 'src/IO/writers.c: write_lat and the routines it calls'},
      {'name': 'configuration readers', 'where': 'src/IO/readers.c: get_config_SUNC, src/IO/HIREP.c, src/IO/CERN.c'},
      {'name': 'checksums', 'where': 'src/IO/readers.c, src/IO/writers.c: check_sums, compute_checksum'}],
     check=dict(technique='abstract interpretation of writer, file and reader over uninterpreted words, compared with the format definitions',
                level='other',
                level_note='Field values are uninterpreted, so every field is covered; lattice extents are fixed and small. Reunitarisation is '
                'taken as the identity on SU(N). Obligations that cannot be interpreted are counted as undecided and accepted.'))

prop('C09', 'Random streams are reproducible, one per thread, and resume from a saved state',
     'For every seed and number of threads: each thread draws from its own generator, seeded differently from every other thread '
     'by a function of the input-file seed (or of the entropy pool without one), and its numbers depend on no other thread; the numbers are '
     'those of the published generator selected at configure time (KISS, MWC 1038, CMWC 4096, XOR 1024*, WELL 512) and lie in [0,1]; the '
     'Gaussian deviates are the documented transformation of them; a saved generator state, read back, continues with exactly the '
     'numbers that would have followed, is not seeded over by later initialisations, and states of another thread count or that end early are not used as if valid.',
     ['inputs', 'histories', 'configurations'], 'every seed, history of draws and saved state, for each generator',
     'No test draws from the generators, saves or restores their state; a stream that repeats early or resumes wrongly looks random.',
     ['src/Utils/par_rng.c', 'src/Utils/par_KISS.c', 'src/Utils/par_MWC_1038.c', 'src/Utils/par_MWC_4096.c', 'src/Utils/par_XOR_1024.c',
      'src/Utils/par_WELL_512.c'],
     [{'name': 'stream initialisation and state files', 'where': 'src/Utils/par_rng.c'},
      {'name': 'generator steps', 'where': 'src/Utils/par_*.c'}],
     check=dict(technique='abstract interpretation over opaque seed words; value graphs of the draws compared with each other and with the published recurrences',
                level='other',
                level_note='Resume, isolation and seeding hold for all seeds (graph equality); the recurrences are compared by evaluating value graphs '
                'at sampled seeds over enough draws to pass through every table wrap. Warm-up draws are assumed equal for all threads.'))

prop('C10', 'The input file selects exactly the documented run',
     'For every input file: each option of the input file, wherever its line stands, sets exactly the quantity it is documented for, with the '
     'documented values selecting the documented mode, header, output format, gauge, cut, field definition, smearing and measurement, '
     'undocumented values taking the documented default, and no other option changing; a missing option, a number that cannot be read or is out of '
     'range, or a file that does not fit stops the run, and long texts stay within their buffers. Each mode then reads the '
     'configuration, transforms it if asked, performs the selected calculation once with exactly the given parameters, and writes the '
     'result in the selected format only if every stage succeeded. Help texts and generated example files name options the reader accepts.',
     ['inputs', 'configurations'], 'every option and value, with numbers of any value, in any order of lines',
     'No test reads an input file; an option that sets another field, or a calculation run with the parameters of another, gives a run that '
     'ends normally with results of something that was not asked for.',
     ['src/IO/input_reader.c', 'src/IO/input_help.c', 'src/Run/Mainfile.c', 'src/Wrappers/GLUlib_wrap.c', 'src/Wrappers/SM_wrap.c',
      'src/Wrappers/GF_wrap.c', 'src/Wrappers/CUT_wrap.c'],
     [{'name': 'input file parser', 'where': 'src/IO/input_reader.c: get_input_data'},
      {'name': 'dispatch', 'where': 'src/Run/Mainfile.c, src/Wrappers'}],
     check=dict(technique='abstract interpretation of the parser over opaque numbers and of the dispatch with recorded calculations, compared with the option table',
                level='other',
                level_note='Numbers of the input file are opaque, so each rule holds for all of them; one option is varied at a time, with the documented '
                'interactions (mode and storage, header and heatbath) in full. What the calculations compute is the subject of other properties.'))

prop('C11', 'Smearing and flow steps equal their definition',
     'For every gauge field: n iterations of APE, STOUT or LOG smearing, in all directions or spatially, replace at each iteration every link of '
     'those directions at every site by the projection of its weighted sum with the staples of the previous iteration\'s field (APE), by '
     'exp(i alpha H) U with H the traceless Hermitian part of staples times link dagger (STOUT) or the sum of the logarithms of the plaquettes (LOG), '
     'with weight sm_alpha/((ND-1)(ND-2)); HYP, HEX and HYL nest these over the restricted hypercube with weights sm_alpha[k]/((ND-1-k)(ND-2)); all '
     'other links and the order and memory layout of the traversal do not matter, so the fast and the memory-saving variants give the same field. '
     'The Wilson flow, fixed and adaptive, fast and memory-saving, advances the field by third-order Runge-Kutta steps whose lengths add up to the '
     'flow time it reports, with plaquette, energy and charge reported for the field at that time, ends at the stopping time when it reaches it, and '
     'rejected trial steps leave no trace. No smearing or zero iterations leave the field unchanged.',
     ['inputs', 'configurations', 'histories'], 'every gauge field, smearing type, direction and memory setting, with and without improved staples',
     'The tests smear small fields and look at a trace or a plaquette at loose tolerance; updating links in place too early, at the time '
     'boundary, or with a staple of the wrong level changes the result slightly and plausibly.',
     ['src/Smear/smear.c', 'src/Smear/4D_fast.c', 'src/Smear/HYP.c', 'src/Smear/ND_generic_HYP.c', 'src/Smear/projectors.c', 'src/Smear/staples.c',
      'src/Smear/wflow.c', 'src/Smear/wflowfuncs.c', 'src/Smear/adaptive_flow.c', 'src/Wrappers/SM_wrap.c'],
     [{'name': 'smearing and flow driver', 'where': 'src/Wrappers/SM_wrap.c: SM_wrap_struct'},
      {'name': 'Runge-Kutta step', 'where': 'src/Smear/wflowfuncs.c'}],
     check=dict(technique='abstract interpretation of the smearing and flow drivers over opaque link matrices, compared with the definition by identity testing',
                level='other',
                level_note='Links are opaque, so each comparison is of functions of the field; lattices have fixed small extents, and two iterations or steps '
                'are followed. The matrix primitives and the improved staple are the subject of C05 and C07.'))
