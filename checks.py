# What each check runs: build variants x harnesses x amounts of work.
B = ['-DBINARY_OUTPUT']; M = ['-DMONTGOMERY_OUTPUT']; A = ['-DUSE_ASM']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-g1']
WRAP = ['-Wl,--wrap=__gmpn_' + f for f in 'copyi copyd zero cmp add_n sub_n add sub add_1 sub_1 mul_1 addmul_1 submul_1 mul_n sqr mul tdiv_qr rshift lshift set_str gcdext'.split()]
VARIANTS = {
    'REL':   dict(cxx='g++', flags=['-O2', '-DNDEBUG'] + B + M + A),                      # the shipped configuration
    'SAN':   dict(cxx='g++', flags=['-O1', '-D_GLIBCXX_ASSERTIONS'] + ASAN + B + M + A, san=True),   # ASan+UBSan, assertions on
    'PORT':  dict(cxx='g++', flags=['-O2', '-DNDEBUG'] + B + M),                          # portable code path
    'PORTA': dict(cxx='g++', flags=['-O2'] + B + M),                                      # portable, assertions on
    'PSAN':  dict(cxx='g++', flags=['-O1'] + ASAN + B + M, san=True),                     # portable under sanitizers
    'CLANG': dict(cxx='clang++', flags=['-O2', '-DNDEBUG'] + B + M + A),
    'TXT':   dict(cxx='g++', flags=['-O2', '-DNDEBUG'] + A),                              # text output, plain integers
    'TXTM':  dict(cxx='g++', flags=['-O2', '-DNDEBUG'] + M + A),                          # text output, internal form
    'BINN':  dict(cxx='g++', flags=['-O2', '-DNDEBUG'] + B + A),                          # binary output, plain integers
    'NOCMP': dict(cxx='g++', flags=['-O2', '-DNDEBUG', '-DNO_PT_COMPRESSION'] + B + M + A),
    'TXTNC': dict(cxx='g++', flags=['-O2', '-DNDEBUG', '-DNO_PT_COMPRESSION'] + A),
    'SANT': dict(cxx='g++', flags=['-O1', '-D_GLIBCXX_ASSERTIONS'] + ASAN + A, san=True),        # text output under sanitizers
    'MIX':   dict(cxx='g++', flags=['-O2', '-DNDEBUG', '-DUSE_MIXED_ADDITION'] + B + M + A),      # bucket method with mixed additions
    'LOWMEM': dict(cxx='g++', flags=['-O2', '-DNDEBUG', '-DLOWMEM'] + B + M + A),
    'TXTMNC': dict(cxx='g++', flags=['-O2', '-DNDEBUG', '-DNO_PT_COMPRESSION'] + M + A),
    'BINNNC': dict(cxx='g++', flags=['-O2', '-DNDEBUG', '-DNO_PT_COMPRESSION'] + B + A),
    'TSANP': dict(cxx='clang++', flags=['-O1', '-g1', '-fsanitize=thread'] + B + M, hflags=['-DGMP_WRAP'], link=WRAP, san=True, tsan=True),        # portable code: every limb access visible
    'TSAN':  dict(cxx='clang++', flags=['-O1', '-g1', '-fsanitize=thread'] + B + M + A, hflags=['-DGMP_WRAP'], link=WRAP, san=True, tsan=True),
    'MC':    dict(cxx='g++', flags=['-O2', '-DNDEBUG', '-fopenmp', '-DMULTICORE'] + B + M + A),     # the parallel configuration
    'MCSAN': dict(cxx='g++', flags=['-O1', '-fopenmp', '-DMULTICORE', '-D_GLIBCXX_ASSERTIONS'] + ASAN + B + M + A, san=True),
    # clang + ThreadSanitizer over our own implementation of the OpenMP entry points (h/omp_shim.hpp): no libomp here
    'MCT':   dict(cxx='clang++', flags=['-O1', '-g1', '-fsanitize=thread', '-DMULTICORE'] + B + M, cflags=['-fopenmp'], hflags=['-DOMP_SHIM', '-DGMP_WRAP'], link=WRAP, san=True, tsan=True),
    'PROF':  dict(cxx='g++', flags=['-O2', '-DNDEBUG', '-DPROFILE_OP_COUNTS'] + B + M + A),           # operation counters
    'PROFSAN': dict(cxx='g++', flags=['-O1', '-D_GLIBCXX_ASSERTIONS', '-DPROFILE_OP_COUNTS'] + ASAN + B + M + A, san=True),
    # configurations for B01: every option on and off, with both compilers, from -O0 to -O3
    'B0':    dict(cxx='g++', flags=['-O0', '-g1', '-DDEBUG', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC'] + B + M + A),
    'B1':    dict(cxx='g++', flags=['-O1', '-DLOWMEM', '-DDEBUG']),
    'B2':    dict(cxx='clang++', flags=['-O3', '-DNDEBUG', '-DNO_PT_COMPRESSION', '-DUSE_MIXED_ADDITION'] + B + M + A),
    'B3':    dict(cxx='clang++', flags=['-O1', '-DDEBUG', '-DPROFILE_OP_COUNTS', '-DLOWMEM'] + M),
    'B4':    dict(cxx='g++', flags=['-O2', '-fopenmp', '-DMULTICORE', '-DUSE_MIXED_ADDITION', '-DLOWMEM'] + B + A),
    'B5':    dict(cxx='g++', flags=['-O3', '-DNDEBUG', '-march=native', '-mtune=native', '-fopenmp', '-DMULTICORE', '-DNO_PT_COMPRESSION', '-DPROFILE_OP_COUNTS'] + M),
    'B6':    dict(cxx='clang++', flags=['-O0', '-D_GLIBCXX_DEBUG', '-DNO_PT_COMPRESSION'] + A),
    'CSAN':  dict(cxx='clang++', flags=['-O1', '-D_GLIBCXX_ASSERTIONS'] + ASAN + B + M + A, san=True),
    'DBG':   dict(cxx='g++', flags=['-O1', '-g1', '-DDEBUG', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC'] + B + M),   # checked containers and iterators
    'VGR':   dict(cxx='g++', flags=['-O1', '-g1'] + B + M + A),                            # run under valgrind memcheck
    'LTO':   dict(cxx='g++', flags=['-O3', '-DNDEBUG', '-march=native', '-mtune=native', '-flto'] + B + M + A),
}
def J(variant, harness, quick, thorough=None, **k):
    d = dict(variant=variant, harness=harness, quick=quick, **k)
    if thorough is not None: d['thorough'] = thorough
    return d
RULES = {'*': 'operands from boundary patterns (values and internal representations), source literals, related pairs and noise; a case is non-trivial when no operand is zero/identity; distinct = distinct (oracle class, operands) hashes over all processes, counted up to 1e6 per process'}
def F(h, q, extra=()): return dict(jobs=[J('REL', h, q, q * 12, shards=3), J('PORT', h, max(1, q // 2), q * 5, shards=1), J('SAN', h, max(1, q // 12), q), J('CLANG', h, max(1, q // 2), q * 5)] + list(extra))
OUTS = ['REL', 'TXT', 'TXTM', 'BINN', 'NOCMP', 'TXTNC', 'TXTMNC', 'BINNNC']   # the eight output configurations
CHECKS = {
    'F01': dict(jobs=[J('REL', 'f01', 12, 150, shards=4), J('PORT', 'f01', 6, 60, shards=2), J('SAN', 'f01', 1, 10), J('CLANG', 'f01', 5, 50)]),
    'F02': dict(jobs=[J('REL', 'f02', 20, 250, shards=2), J('PORT', 'f02', 10, 100), J('SAN', 'f02', 2, 20), J('TXT', 'f02', 10, 100), J('BINN', 'f02', 10, 100)]),
    'F03': F('f03', 8),
    'F04': F('f04', 4),
    'F05': F('f05', 4),
    'F06': F('f06', 20),
    'F07': dict(jobs=[J('REL', 'f07', 8, 120, shards=3), J('SAN', 'f07', 1, 15), J('CLANG', 'f07', 6, 60)]),
    'F08': dict(jobs=[J('REL', 'f08', 1, 1), J('PORT', 'f08', 1, 1), J('SAN', 'f08', 1, 1), J('TXT', 'f08', 1, 1)]),
    'U01': dict(jobs=[J('REL', 'u01', 40, 600, shards=2), J('PORT', 'u01', 15, 150), J('SAN', 'u01', 6, 60), J('CLANG', 'u01', 15, 150)]),
    'U02': dict(jobs=[J('REL', 'u02', 30, 600, shards=2), J('SAN', 'u02', 10, 100), J('CLANG', 'u02', 20, 200)]),
    'U03': dict(jobs=[J('REL', 'u03', 30, 600, shards=2), J('SAN', 'u03', 5, 60), J('CLANG', 'u03', 20, 200)]),
    'G01': dict(jobs=[J('REL', 'g01', 6, 80, shards=4), J('PORT', 'g01', 4, 50), J('SAN', 'g01', 1, 8), J('CLANG', 'g01', 5, 60)]),
    'G02': dict(jobs=[J('REL', 'g02', 8, 100, shards=3), J('PORT', 'g02', 5, 60), J('SAN', 'g02', 1, 8), J('CLANG', 'g02', 5, 60)]),
    'M01': dict(jobs=[J('REL', 'm01', 5, 60, shards=3), J('PORT', 'm01', 3, 40), J('SAN', 'm01', 1, 6), J('CLANG', 'm01', 4, 50)]),
    'M02': dict(jobs=[J('REL', 'm02', 4, 50, shards=3), J('PORT', 'm02', 2, 20), J('SAN', 'm02', 1, 4), J('CLANG', 'm02', 3, 30), J('MIX', 'm02', 3, 30)]),
    'M03': dict(jobs=[J('REL', 'm03', 3, 30, shards=3), J('PORT', 'm03', 2, 15), J('SAN', 'm03', 1, 3), J('CLANG', 'm03', 2, 20), J('MIX', 'm03', 2, 20), J('LOWMEM', 'm03', 2, 20)]),
    'P01': dict(jobs=[J('REL', 'p01', 14, 250, shards=3), J('PORT', 'p01', 8, 100), J('SAN', 'p01', 1, 12), J('CLANG', 'p01', 10, 120)]),
    'P02': dict(jobs=[J('REL', 'p02', 3, 50, shards=3), J('PORT', 'p02', 2, 25), J('SAN', 'p02', 1, 4), J('CLANG', 'p02', 2, 25)]),
    'S01': dict(jobs=[J(v, 's01', 6, 80) for v in OUTS] + [J(v, 's01', 1, 6) for v in ('SAN', 'SANT')]),
    'S02': dict(jobs=[J(v, 's02', 8, 100) for v in OUTS] + [J(v, 's02', 1, 6) for v in ('SAN', 'SANT')]),
    'S03': dict(required=['SAN', 'VGR'], jobs=[J(v, 's03', 4, 80, hang=10) for v in OUTS] + [J(v, 's03', 1, 8, hang=40) for v in ('SAN', 'SANT')] + [J('VGR', 's03', 4, 40, arg='small%d' % k, wrap='valgrind', hang=60, wall=600, cost=3) for k in range(3)]),
    'R01': dict(jobs=[J('REL', 'r01', 1, 12, shards=2), J('PORT', 'r01', 1, 8), J('SAN', 'r01', 1, 2), J('CLANG', 'r01', 1, 8)]),
    'R02': dict(jobs=[J('REL', 'r02', 20, 400, shards=2), J('PORT', 'r02', 10, 100), J('SAN', 'r02', 2, 20), J('CLANG', 'r02', 10, 100)]),
    'C01': dict(width=4, required=['REL', 'TSANP'], jobs=[J('TSANP', 'c01', 3, 60, wall=400, deadlock=True, cost=9), J('TSANP', 'c01', 2, 30, arg='profile', wall=400, deadlock=True, cost=8), J('TSAN', 'c01', 2, 30, wall=400, deadlock=True, cost=7)] + [J('REL', 'c01', 30, 800, shards=2, wall=400, deadlock=True, cost=3)],
        assumptions=['ThreadSanitizer reports every unsynchronised access pair it observes (inline assembly is covered by running the portable code path as well)', 'expected results come from separate single-threaded processes']),
    'C02': dict(width=4, required=['MC', 'MCT'], jobs=[J('MCT', 'c02', 1, 20, arg='small', wall=400, deadlock=True, cost=9), J('MCT', 'c02', 2, 30, arg='profile', wall=400, deadlock=True, cost=8)] + [J('MC', 'c02', 6, 120, shards=3, wall=400, deadlock=True, cost=5), J('MCSAN', 'c02', 1, 12, wall=400, deadlock=True, cost=6),
            J('MC', 'm02', 2, 25, env={'OMP_NUM_THREADS': '3'}, cost=3), J('MC', 'm03', 2, 20, env={'OMP_NUM_THREADS': '8'}, cost=3)],
        assumptions=['ThreadSanitizer reports every unsynchronised access pair it observes; the OpenMP runtime under it is h/omp_shim.hpp (forks, joins, static and dynamic schedules, reductions, barriers)', 'GMP integer arithmetic and the reference model in h/ref.hpp are right']),
    'I01': dict(jobs=[J('REL', 'i01', 6, 120, shards=3), J('PORT', 'i01', 4, 60), J('TXT', 'i01', 4, 60), J('SAN', 'i01', 1, 10, cost=5)],
        assumptions=['expected behaviour of a curve comes from processes that initialise that curve alone, once']),
    'O01': dict(required=['REL', 'PROF'], jobs=[J('PROF', 'o01', 3, 50, shards=2), J('REL', 'o01', 2, 30), J('PROFSAN', 'o01', 1, 6), J('MC', 'o01', 2, 20, env={'OMP_NUM_THREADS': '4'})],
        assumptions=['operation counters are only meaningful in single-threaded use (they are plain integers); composite operations may use any number of smaller ones']),
    'B01': dict(build_is_property=True, jobs=[J(v, 'b01', 1, 4, align=True, tshards=4, wall=600, cost=9 if v in ('B0', 'B6') else 1) for v in ('B0', 'B6', 'LTO', 'REL', 'B1', 'B2', 'B3', 'B4', 'B5')],
        assumptions=['the nine configurations built stand for the combinations of options; bn128 cannot be built here (its dependency is not in the tree)', 'the build is driven directly with the compiler options CMakeLists.txt documents; CMake itself is not run']),
    'Z01': dict(required=['SAN', 'VGR'], jobs=[J('SAN', 'z01', 1, 6, tshards=3, cost=9), J('PSAN', 'z01', 1, 6, cost=9), J('CSAN', 'z01', 0, 6, cost=9), J('SANT', 'z01', 0, 4, cost=8), J('PROFSAN', 'z01', 0, 4, cost=8), J('DBG', 'z01', 2, 20, cost=7), J('VGR', 'z01', 6, 100)]
            + [J('VGR', 'z01', 1, 3, arg='vg%d' % g, wrap='valgrind', hang=800, wall=800, cost=6 if g == 1 else 4) for g in range(7)],
        assumptions=['the operations of the registry (h/ops.hpp, h/z01.cpp) with their documented preconditions stand for legal use', 'memcheck covers uninitialised values; ASan and UBSan cover the rest', 'assembly blocks are covered by running the portable code as well']),
}
# id -> (technique, level note); defaults in tools/mkmanifest.py
_D = 'runtime monitoring: online differential monitor against an independent reference model over GMP integers; hostile seeded inputs and a dictionary of literals in the source; '
_N = 'Held on every execution driven (counts by oracle class and variant in the evidence file). The oracle is an independent model, so a deviation on a driven input is seen whatever the code looks like; inputs not driven are not covered. Assumes GMP and the reference model are right.'
TECH = {
    'F01': (_D + 'canonical-form assertion on the limbs after each operation; optimised assembly, portable, clang and ASan/UBSan builds', ''),
    'F02': (_D + 'acceptance oracle for out-of-range encodings; plain and Montgomery output builds, ASan/UBSan', ''),
    'F03': (_D + 'towers as schoolbook polynomial quotients; ASan/UBSan', ''),
    'F04': (_D + 'Frobenius and cyclotomic maps by definition in the model', ''),
    'F05': (_D + 'square-and-multiply in the model, verification of returned roots, CPU-time watchdog for non-termination', ''),
    'F06': (_D + 'bit-serial carry-less arithmetic, carry-less-multiply and portable builds, ASan/UBSan', ''),
    'F07': (_D + 'guard words around each object catch writes outside it; ASan/UBSan', ''),
    'F08': ('runtime monitoring: hooked-state assertions on every published parameter after initialisation (defining equations, published standards, primality, subgroup orders), evaluated with an independent GMP model', 'All constants are finitely many and are all checked; group-order facts are checked on driven points. Assumes GMP and the published values are right.'),
    'G01': (_D + 'affine group law over the model field for all operator pairs, representations and related points; on-curve assertion on results', ''),
    'G02': (_D + 'curve equation, definitions of the normal forms and of the maps', ''),
    'R01': ('runtime monitoring with fault injection at the entropy source: scripted bytes (all-zero, all-one, rejection chains, values at the modulus), validity assertions, collision oracle, counting statistics over recorded samples', 'Statistical bounds lie far outside chance and the entropy is seeded, so verdicts are reproducible. Distribution defects smaller than the bounds are not seen.'),
    'R02': ('runtime monitoring: differential monitor against the definition computed with another SHA-512; the same calls repeated across threads and processes', ''),
    'S01': ('runtime monitoring: round-trip, byte-identity and representation-independence oracles over recorded streams in eight output configurations; ASan/UBSan', ''),
    'S02': ('runtime monitoring: trace checker over streams of mixed values (byte positions, values and stream state after each read), eight output configurations', ''),
    'S03': ('runtime monitoring with fault injection: streams that end, throw or come in pieces at chosen bytes, for every serialisable type in eight output configurations; stream state, values before the cut and termination are checked; ASan/UBSan and valgrind memcheck', ''),
    'C01': ('runtime monitoring: ThreadSanitizer (clang, with GMP entry points wrapped so that limb accesses are visible) under barrier-aligned stress of the whole interface; results compared with single-threaded processes; deadlock watchdog', 'Holds for the interleavings run; the happens-before detector reports a race whenever both accesses are executed, whatever their order. Inline assembly is invisible to it, so the portable code runs as well.'),
    'C02': ('runtime monitoring: ThreadSanitizer over a substitute OpenMP runtime (fork, join, schedules, reductions, barriers), differential oracle against the reference model for every team size and chunking; deadlock watchdog', 'Holds for the schedules run; races are reported by happens-before, not by outcome.'),
    'I01': ('runtime monitoring: recorded histories of initialisation and use in fresh processes, compared with processes that initialise one curve once; parameters re-dumped after each step', ''),
    'O01': ('runtime monitoring: monitor of counters and of the printed profile against own counts of operations and own clock, profiling on, off and inhibited; results compared with unprofiled ones', 'Only primitive counts are compared. Multithreaded counting is not claimed.'),
    'B01': ('runtime monitoring: the same seeded workload run in nine build configurations and two compilers, recorded results compared across configurations; a build failure is a violation', 'Nine configurations stand for the combinations; CMake itself is not run; bn128 cannot be built here.'),
    'Z01': ('runtime monitoring with sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, checked containers and assertions, valgrind memcheck under edge-case and random-sequence workloads over the whole interface', 'Holds on the executions driven. Detects what the sanitizers detect, at the granularity they have.'),
}
for _i in CHECKS:
    _t = TECH.get(_i, (_D + 'ASan/UBSan variant', ''))
    TECH[_i] = (_t[0], _t[1] or _N)
