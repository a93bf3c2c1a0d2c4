"""Registry: which harness binaries decide which property."""
STD = 'c++17'
BASEFLAGS = ['-O2', '-pthread']
DEF = ['XAD_USE_STRONG_INLINE', 'XAD_ALLOW_INT_CONVERSION']
REUSE = DEF + ['XAD_TAPE_REUSE_SLOTS']
CK = 'XAD_VERIF_CHUNK_SIZE=%d'

TRUST = ['the reference model in the harness (a few dozen lines of plain arithmetic)',
         'tape storage chunks shrunk through the XAD_VERIF_CHUNK_SIZE hook',
         'compiled with clang 18 -O2; the XAD_TAPE_REUSE_SLOTS variants have assertions off as in the shipped configuration']
CHECKS = {}
NOT_APPLICABLE = {}
HOOK_COMMITS = ['6744e1e']


def tapebins(name, src, defs=(), chunk=4, **kw):
    """the two shipped configurations: default (assertions on) and slot reuse (assertions off)"""
    return [dict(name=name + '-default', src=src, cfg=DEF, defs=[CK % chunk] + list(defs), **kw),
            dict(name=name + '-reuse', src=src, cfg=REUSE, defs=[CK % chunk, 'NDEBUG'] + list(defs), **kw)]


CHECKS['C01'] = dict(
    level='model_checking', technique='bounded exhaustive program enumeration on the real tape vs exact reference model',
    explain='every straight-line program of the listed alphabets and lengths is executed on the real tape and on an exact integer '
            'polynomial model; states are distinct model states, each execution is a model trace replayed on the implementation',
    note='All programs over 3 variables from a 51-operation alphabet up to length 2-3, and from smaller alphabets up to length 5 '
         '(6 thorough), both slot-reuse configurations, double and float; exact comparison. Longer programs and other operations are not covered.',
    assumptions=TRUST,
    bins=tapebins('c01', 'programs.cpp') + tapebins('c01f', 'programs.cpp', defs=['REAL=float', 'LIGHT'], chunk=5))
CHECKS['C02'] = dict(
    level='model_checking', technique='bounded exhaustive program enumeration on forward-mode types vs exact reference model',
    explain='every straight-line program of the listed alphabets and lengths is executed on forward-mode variables and on an exact '
            'polynomial model; the "both" spaces also run it on reverse-mode variables and compare',
    note='All programs over 3 variables from a 51-operation alphabet up to length 3 (and smaller alphabets up to length 5-6), several '
         'seed directions, double and float; exact comparison.',
    assumptions=TRUST,
    bins=[dict(name='c02', src='programs.cpp', cfg=DEF, defs=[CK % 4, 'HARNESS_FWD']),
          dict(name='c02f', src='programs.cpp', cfg=DEF, defs=[CK % 4, 'HARNESS_FWD', 'REAL=float', 'LIGHT'])])

ASAN = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-pthread']
SANNOTE = ' The smaller spaces are also explored in an address and undefined-behaviour sanitizer build.'


def sanbins(name, src, defs=(), chunk=4):
    return [dict(name=name + '-asan', src=src, cfg=DEF, defs=[CK % chunk, 'LIGHT'] + list(defs), flags=ASAN),
            dict(name=name + '-asan-reuse', src=src, cfg=REUSE, defs=[CK % chunk, 'NDEBUG', 'LIGHT'] + list(defs), flags=ASAN)]


CHECKS['C03'] = dict(
    level='model_checking', technique='bounded exhaustive life-cycle enumeration on the real tape (stateful for slot reuse)',
    explain='every history of creating, registering, copying, moving, swapping, overwriting and destroying variables and starting recordings '
            'within the bounds is executed on the real tape; after every operation slot disjointness, counts and peak bounds are checked; '
            'the merged spaces prune histories that reach an already visited slot state',
    note='Up to 9 variables and 24 create/destroy operations (states merged by live slots, free ranges, last freed slots), up to 13 unmerged, '
         'every destruction order of up to 9 variables, all slot-affecting operations up to length 4-6; both slot configurations.',
    assumptions=TRUST, bins=tapebins('c03', 'slots.cpp'))
CHECKS['C04'] = dict(
    level='model_checking', technique='bounded exhaustive session enumeration on the real tape vs statement-list model',
    explain='every sequence of recording, seeding, rolling back, clearing, reading, destroying and new recordings within the bounds is executed '
            'on the real tape and on a statement-list model; every derivative is compared after every rollback and read',
    note='22-operation session alphabet up to length 6 (7 thorough), smaller alphabets up to length 9, all chunk alignments at length 4, both '
         'slot configurations. Variables that hold a pending adjoint, or that the recording reads as inputs, are not destroyed by the sessions.' + SANNOTE,
    assumptions=TRUST, bins=tapebins('c04', 'session.cpp') + sanbins('c04', 'session.cpp'))
CHECKS['C05'] = dict(
    level='model_checking', technique='bounded exhaustive session enumeration on the real tape vs statement-list model',
    explain='every sequence of statements, position marks, rollbacks to a mark, resets to a mark and partial clears within the bounds is '
            'executed on the real tape and on a statement-list model, followed by a staged and a full rollback of the remaining recording',
    note='18-operation alphabet up to length 7 (8 thorough), smaller alphabets up to length 9, all chunk alignments at length 3-5, up to 3 marks; '
         'variables registered after a position are destroyed on reset as documented.' + SANNOTE,
    assumptions=TRUST, bins=tapebins('c05', 'partial.cpp') + sanbins('c05', 'partial.cpp'))
CHECKS['C06'] = dict(
    level='model_checking', technique='bounded exhaustive enumeration of checkpoint layouts on the real tape vs fully recorded model',
    explain='every layout of recorded, nested, analytic and doubly nested segments between ordinary statements and destructions within the '
            'bounds, every seed choice and staged rollback is executed on the real tape; derivatives, callback order and the adjoints each '
            'callback sees are compared with the model of the fully recorded computation',
    note='4 segment kinds in 7 forms plus 7 ordinary operations, layouts up to length 4 (5 thorough), smaller alphabets up to length 7, '
         'nesting up to depth 2; nested recordings are used from callbacks only, inputs registered before the nested recording.' + SANNOTE,
    assumptions=TRUST, bins=tapebins('c06', 'checkpoint.cpp') + sanbins('c06', 'checkpoint.cpp'))
CHECKS['C07'] = dict(
    level='model_checking', technique='bounded exhaustive operation sequences on the real container vs growable array',
    explain='every sequence of container operations with every size argument within the bounds is executed on the real ChunkContainer and '
            'on std::vector; after every operation all elements, sizes, iterators and the set of storage locations holding live elements are compared',
    note='Chunk sizes 1-4, a trivial and a lifetime-tracking element type, two containers; all operations and sizes up to 2N+1 to length 4 '
         '(5 thorough), the tape\'s operations to length 6 (7), growth to length 8 (9). append() takes at most one chunk at a time (asserted '
         'precondition); moved-from containers are destroyed, cleared or assigned to.' + SANNOTE,
    assumptions=TRUST[:1],
    bins=[dict(name='c07', src='container.cpp', tape=False),
          dict(name='c07-asan', src='container.cpp', defs=['LIGHT'], flags=ASAN, tape=False)])
CHECKS['C14'] = dict(
    level='model_checking', technique='bounded exhaustive session enumeration, moved tape in lockstep with the unmoved one',
    explain='every session within the bounds is executed on the real tape unmoved and with each kind of move at each point; every value, '
            'derivative, size, slot, exception, activation state and callback release observed has to be the same',
    note='20-operation session alphabet (recording, partial rollback, checkpoints, owned callbacks, activation, clearing) to length 4 (5 thorough), '
         'smaller alphabets to 5 and 6; 8 kinds of move (construction, assignment over fresh, busy and active tapes, swap, there and back). '
         'Moves inside a rollback callback are excluded; a moved-from tape is destroyed or assigned to.' + SANNOTE,
    assumptions=TRUST + ['the unmoved session is the oracle; its correctness is what C01-C06 decide'],
    bins=tapebins('c14', 'moves.cpp') + sanbins('c14', 'moves.cpp'))
CHECKS['C12'] = dict(
    level='model_checking', technique='bounded exhaustive activation state machine on real tapes vs reference state machine',
    explain='every sequence of creating, activating, deactivating, destroying and using several tapes within the bounds is executed on real '
            'tapes and on a model state machine; activation, exceptions, counts, values and derivatives of every tape are compared after every step',
    note='3 tapes to length 6 (7 thorough), 2 tapes to length 7 (8), with recordings of their own to length 5-7, 2 tapes of each of two scalar '
         'types to length 5. Variables of a tape are destroyed while it is active or while none is.' + SANNOTE,
    assumptions=TRUST, bins=tapebins('c12', 'activation.cpp') + sanbins('c12', 'activation.cpp'))
CHECKS['C17'] = dict(
    level='model_checking', technique='bounded exhaustive program enumeration on the real tape vs occurrence-count model',
    explain='every program within the bounds runs without a tape, with inactive tapes, and with none, one or other input registered; after every '
            'operation the statements and operations added, registration, counts and values are compared with the model',
    note='All programs over 3 variables from a 51-operation alphabet to length 2 (3 thorough), 12 operations to length 4, 7 operations to length 4 (5).',
    assumptions=TRUST, bins=tapebins('c17', 'passive.cpp'))
CHECKS['C18'] = dict(
    level='model_checking', technique='bounded exhaustive session enumeration with ownership-tracking callbacks',
    explain='every sequence of pushing, popping, inserting, rolling back, resetting, clearing, moving and destroying on two tapes within the '
            'bounds is executed on real tapes with callbacks that record their destruction and invocation',
    note='18-operation alphabet to length 6 (7 thorough), 9 ownership operations to length 7 (8).' + SANNOTE,
    assumptions=TRUST, bins=tapebins('c18', 'callbacks.cpp') + sanbins('c18', 'callbacks.cpp'))
CHECKS['C19'] = dict(
    level='model_checking', technique='bounded exhaustive enumeration of recording cycles on the real tape vs counting model',
    explain='every cycle body within the bounds is run 5 times with each kind of restart on the real tape; statements, operations, variables and '
            'positions are compared with a counting model after every step, and all sizes and memory across cycles',
    note='15-16 operation cycle bodies to length 6 (7 thorough), 8-9 operations to length 8 (9); restart by new recording, position reset or '
         'clear-all. Without slot reuse the temporaries of a cycle are destroyed in reverse order of creation.' + SANNOTE,
    assumptions=TRUST, bins=tapebins('c19', 'sizes.cpp') + sanbins('c19', 'sizes.cpp'))
CHECKS['C15'] = dict(
    level='model_checking', technique='bounded exhaustive session enumeration with misuse probes at every point',
    explain='every session within the bounds is executed on the real tape; at every point, and inside every rollback callback, every misuse call is '
            'made: it has to raise exactly the documented exception where the model says it is a misuse and succeed elsewhere, and the session '
            'continued after the probes has to observe exactly what it observes without them',
    note='24-28 misuse probes at every point of sessions over a 20-operation alphabet to length 4 (5 thorough), smaller alphabets to length 5-6. '
         'Re-activating the active tape may throw or not; const derivative access on uninitialised derivatives is checked with assertions only. '
         'Wrong matrix shapes are checked by C11.' + SANNOTE,
    assumptions=TRUST + ['the session without probes is the oracle for "changes nothing"'],
    bins=tapebins('c15', 'errors.cpp') + sanbins('c15', 'errors.cpp'))

CHECKS['C11'] = dict(
    level='model_checking', technique='bounded exhaustive enumeration of vector functions, shapes, call forms and tape states on the real helpers vs exact polynomial matrices',
    explain='every vector function of the listed families is passed to every form of the Jacobian and Hessian helpers in every tape state; each matrix '
            'element is compared with the exact derivative of an integer polynomial model; matrices of every wrong shape must be rejected; inputs, '
            'active tape and later calls are compared with the expected state',
    note='Functions of 1-4 inputs and 1-4 outputs from several families (sparse, repeated, passive, argument-modifying), forward, reverse and mixed modes, '
         'returned matrices and caller-provided rows of several container types, with a tape passed, active, or none; double and float.' + SANNOTE,
    assumptions=TRUST,
    bins=tapebins('c11', 'jacobian.cpp') + [dict(name='c11f', src='jacobian.cpp', cfg=DEF, defs=[CK % 4, 'REAL=float'])] + sanbins('c11', 'jacobian.cpp'))
CHECKS['C16'] = dict(
    level='model_checking', technique='bounded exhaustive enumeration of (operation, operand forms, complex lattice) and of short programs on the real types vs extended-precision std::complex and closed-form derivatives',
    explain='every complex function and operator, in every pair of operand kinds (complex or real, active or passive, variable or expression, integers), '
            'is executed in forward and reverse mode on every point of a complex lattice; values are compared with std::complex in extended precision, '
            'derivatives with the closed form; short programs of compound assignments and operations are compared with an exact integer model',
    note='16 holomorphic functions on a 19x19 lattice (all quadrants, both sides of the cuts, magnitudes 1e-12 to 1e8, signed zeros), binary operators in 17 '
         'operand-kind pairs, pow in 19, compound assignments including operands that alias, programs to length 2 over the full alphabet and 3 over a part '
         '(3 over the full alphabet thorough); double and float. Tolerances follow the conditioning; poles, and derivatives at branch points, excluded.',
    assumptions=TRUST + ['std::complex<long double> of the C library is accurate (functions), the closed-form derivatives in the harness are right'],
    bins=tapebins('c16', 'complex.cpp') + [dict(name='c16f', src='complex.cpp', cfg=DEF, defs=[CK % 4, 'REAL=float', 'LIGHT'])])
WRAP = ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=aligned_alloc,--wrap=posix_memalign,--wrap=free']
CHECKS['C20'] = dict(
    level='fault_enumeration',
    rule='every session within the bounds x every fault point of it (allocations counted on a run without faults; throw points in callbacks and functions) x '
         'every way of recovering; distinct: by session results, fault and operation in which it strikes; non-trivial: the fault did strike',
    technique='exhaustive single and double fault injection (every allocation, every user throw point) over all bounded sessions on the real code',
    explain='every session within the bounds is run once without faults and then once for every allocation made to fail (alone, or with all later ones), '
            'and for every point in callbacks and functions where the user may throw, with each way of recovering; a state is a (session, fault, place of '
            'failure); afterwards a fixed session must observe exactly what it observes on a new tape and no memory or callback may be left',
    note='10-operation sessions to length 3 (4 thorough), 7 operations to length 4 (5), on double and (to length 3-4) AReal and FReal tapes; pairs of faults for sessions to '
         'length 1 (2); Jacobian and Hessian with 1-3 inputs. Allocation failures inside noexcept moves of tapes (where the language terminates the '
         'program) are not in scope.' + SANNOTE,
    assumptions=TRUST + ['allocations go through operator new or the malloc family'],
    bins=tapebins('c20', 'faults.cpp', ldflags=WRAP) + [dict(b, ldflags=WRAP) for b in sanbins('c20', 'faults.cpp')])

TSI = dict(flags=['-O1', '-pthread', '-Xclang', '-fsanitize=thread'],  # instrumentation only; the run-time is lib/race.hpp
           ldflags=['-Wl,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--export-dynamic'])
CHECKS['C13'] = dict(
    level='model_checking', technique='exhaustive interleaving of real threads under a controlled scheduler, with happens-before conflict detection on every memory access (partial-order reduction below the operation level)',
    explain='every tuple of per-thread scripts within the bounds is run in real threads under every interleaving of their operations; each thread must '
            'observe what it observes alone; all memory accesses inside the operations are recorded (compiler instrumentation, own run-time) and no two '
            'unordered ones of different threads may conflict, so that the explored schedule stands for all interleavings of the accesses as well; a state '
            'is a prefix of a schedule of a tuple of scripts',
    note='2 threads x 3 operations (4-5 thorough) and 3 threads x 2 (3) in every interleaving; every pair of 23 operations, covering all functions, nested '
         'types, Jacobians, exceptions, streams, in three orders, as the first of a process, and in threads without tape; both slot configurations. Code '
         'inside the standard library is not instrumented.',
    assumptions=TRUST + ['memory accesses inside libstdc++ and libc are free of races'],
    bins=tapebins('c13', 'threads.cpp', **TSI)[:1] + [dict(b, defs=b['defs'] + ['LIGHT']) for b in tapebins('c13', 'threads.cpp', **TSI)[1:]])

# C21: builds of the library; rows of an orthogonal array, so that every pair of options occurs in every combination
def variant(name, bits, opt='-O0', std='-std=c++17', chunk=4, extra=()):
    reuse, noinline, noint, ndebug, notl, gcc, o = bits
    cfg = (['XAD_TAPE_REUSE_SLOTS'] if reuse else []) + ([] if noinline else ['XAD_USE_STRONG_INLINE']) + \
        ([] if noint else ['XAD_ALLOW_INT_CONVERSION']) + (['XAD_NO_THREADLOCAL'] if notl else [])
    return dict(name='c21-' + name, src='variant.cpp', cfg=cfg, comp='gcc' if gcc else 'clang',
                defs=([CK % chunk] if chunk else []) + (['NDEBUG'] if ndebug else []) + ['XV_NAME="%s"' % name],
                flags=['-fPIC', '-fvisibility=hidden', std, opt if o else '-O2'] + (['-fno-gnu-unique'] if gcc else []) + list(extra),
                ldflags=['-shared', '-Wl,-Bsymbolic'])


OA = ['0000000', '0001111', '0110011', '0111100', '1010101', '1011010', '1100110', '1101001']
OPTS = ['reuse', 'no-inline', 'no-int', 'no-assert', 'no-threadlocal', 'gcc', 'O']


def variants():
    r = []
    for k, row in enumerate(OA):
        b = [c == '1' for c in row]
        opt, std = ('-O0', '-O3', '-O1', '-O0')[k % 4], ('-std=c++17', '-std=c++20')[k % 2]
        n = '+'.join([o if o != 'O' else opt[1:] for o, x in zip(OPTS, b) if x] + [std[5:]])
        r.append(variant(n, b, opt, std))
    return r


CHECKS['C21'] = dict(
    level='model_checking', technique='exhaustive enumeration of programs and sessions x an orthogonal array of builds, differential on the real library',
    explain='every program and session within the bounds is run by every build of the library (build options x compilers x optimisation levels x language '
            'versions; every pair of options in every combination) loaded side by side; all observations must agree with those of the default build; a state '
            'is a program, a transition its execution in one more build',
    note='8 builds: slot reuse, forced inlining, integer conversions, assertions, thread-local tapes, gcc/clang, -O0..-O3, C++17/20, pairwise. All programs '
         'of length 2 (3) over the 51-operation alphabet, sessions of 21 operations up to length 5 (6), sequences of 23 operations over the rest of the library '
         'up to length 2 (4), every function on a 12x12 lattice. Memory use, slot numbers and reuse statistics are not compared.',
    assumptions=TRUST,
    bins=[dict(name='c21', src='options.cpp', tape=False, ldflags=['-ldl'], libs=variants())])

CHECKS['C08'] = dict(
    level='model_checking', technique='bounded exhaustive enumeration of (function, operand form, mode, context, argument lattice) on the real types vs an exact analytic model',
    explain='every mathematical function and operator, in every listed operand form, evaluation mode and consuming context, is executed on every '
            'point (pair of points) of the argument lattices; the derivative must equal the analytic one, evaluated in extended precision, within the '
            'rounding and conditioning error; a transition is one call executed on the real types',
    note='42 unary functions x 2 forms, all binary functions x 20 operand form pairs, reverse and forward mode, 6 consuming contexts, double and '
         'float; arguments from lattices with 5 (16 thorough) mantissa bits and the special points; not all arguments. Piecewise functions are '
         'checked off their jumps, plus the documented values at ties.',
    assumptions=TRUST,
    bins=[dict(name='c08%s-%d' % (f, k), src='mathder.cpp', cfg=DEF, defs=[CK % 4, 'PART=%d' % k] + (['REAL=float'] if f else []))
          for f in ('', 'f') for k in range(4)])

CHECKS['C09'] = dict(
    level='model_checking', technique='bounded exhaustive enumeration of (function, operand form, type, argument lattice incl. special values) on the real types vs plain arithmetic',
    explain='every function, operator, comparison, classification, conversion and stream helper, in every listed operand form and kind of variable, is '
            'executed on every point (pair) of the value lattices and compared bit for bit with the operation on plain numbers',
    note='All functions x 21 operand forms x 8 kinds of variables (forward, recorded, unregistered, without tape, four second-order nestings), double and '
         'float; values: zeros, subnormals, infinities, NaN, extremes and lattices over every binary exponent (2 mantissa bits, 7-12 thorough). Values '
         'of mixed-type operands to 2 units of rounding, smooth_* and degree conversions to 6.',
    assumptions=TRUST,
    bins=[dict(name='c09%s-%d' % (f, k), src='mathval.cpp', cfg=DEF, defs=[CK % 4, 'PART=%d' % k] + (['REAL=float'] if f else []))
          for f in ('', 'f') for k in range(4)] +
         [dict(name='c09n%d-%d' % (n, k), src='mathval.cpp', cfg=DEF, defs=[CK % 4, 'PART=%d' % k, 'NEST=%d' % n]) for n in (0, 1) for k in (0, 1)] +
         [dict(name='c09h' + f, src='helpers.cpp', cfg=DEF, defs=[CK % 4] + (['REAL=float'] if f else [])) for f in ('', 'f')])

NOSTRONG = ['XAD_ALLOW_INT_CONVERSION']
N2, N3 = ('FF', 'AF', 'FA', 'AA'), ('FFF', 'AFF', 'FAF', 'FFA', 'AAF', 'AFA', 'FAA', 'AAA')
CHECKS['C10'] = dict(
    level='model_checking', technique='bounded exhaustive program and argument enumeration in every nesting of forward and adjoint types vs exact Taylor polynomials',
    explain='every straight-line program of the listed alphabets, and every function in every argument form and consuming context on the point lattices, is '
            'executed on the real nested types; every derivative component of order 0 to 3 (every direction or index at every level) is compared with the '
            'Taylor polynomial of the program; a transition is one statement or call executed on the real types',
    note='All 4 second-order and all 8 third-order nestings, 2 inputs, directions fixed per forward level. Programs: 51 operations to length 2 (3 thorough, '
         'top order), products to length 4 (5); exact. Functions: 51 unary and 21 binary in 4-5 argument forms, within rounding; moderate arguments off the '
         'kinks. Second order also in float and with slot reuse. Compiled without forced inlining (the compiler needs over 20 GB at third order otherwise).',
    assumptions=TRUST,
    bins=[dict(name='c10-' + n, src='higher.cpp', cfg=NOSTRONG, defs=[CK % 4, 'NESTING=' + n], flags=['-O1', '-pthread']) for n in N2] +
         [dict(name='c10-' + n, src='higher.cpp', cfg=NOSTRONG, defs=[CK % 4, 'NESTING=' + n, 'THIRD'], flags=['-O1', '-pthread']) for n in N3] +
         [dict(name='c10f-' + n, src='higher.cpp', cfg=NOSTRONG, defs=[CK % 4, 'NESTING=' + n, 'FEW', 'REAL=float'], flags=['-O1', '-pthread'], thorough_only=n in ('AF', 'FA'))
          for n in N2] +
         [dict(name='c10r-' + n, src='higher.cpp', cfg=NOSTRONG + ['XAD_TAPE_REUSE_SLOTS'], defs=[CK % 4, 'NDEBUG', 'LIGHT', 'FEW', 'NESTING=' + n],
               flags=['-O1', '-pthread'], thorough_only=n != 'AA') for n in ('AF', 'FA', 'AA')])
