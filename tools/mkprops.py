#!/usr/bin/env python3
# regenerates properties.jsonl (kept so that statements are edited in one place)
import json, os
A='libff/algebra/'; PB=A+'fields/prime_base/'; PE=A+'fields/prime_extension/'; BF=A+'fields/binary/'; FU=A+'field_utils/'; CV=A+'curves/'; SM=A+'scalar_multiplication/'; CM='libff/common/'
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("F01","Prime-field arithmetic is exact modulo p and always canonical",
  "For every pair of elements of every supported prime field (scalar and base fields of all curves, any limb count), addition, subtraction, negation, multiplication, squaring and inversion return exactly the residue of the integer operation modulo p. Results are always fully reduced, so equal values compare equal and have one representation; this holds for in-place and aliased forms and for both the hand-written assembly and the portable code path.",
  ["inputs","configurations"],"all operand pairs (including 0, 1, p-1, carries at every limb, both plain and internal-form boundary values), all prime fields, 3/4/5-limb assembly and generic limb counts, assembly on/off",
  "Tests use uniformly random elements, which almost never reach carry/reduction boundary cases, compare the library only with itself, and never run the portable path or other limb counts.",
  [PB+'fp.hpp',PB+'fp.tcc',FU+'fp_aux.tcc'],
  [("Montgomery product with conditional final subtraction",PB+"fp.tcc: mul_reduce"),("add/sub/neg with conditional correction",PB+"fp.tcc: operator+=, operator-=, operator-"),("hand-written x86-64 kernels",FU+"fp_aux.tcc"),("extended-gcd inversion",PB+"fp.tcc: invert")],
  ["element value after every public operation"],[{"name":"mont_repr","meaning":"internal representation, must be < modulus","where":PB+"fp.hpp"}])
p("F02","Prime-field conversions preserve the integer value",
  "Constructing a prime-field element from a machine integer (signed or unsigned, including negative and extreme values), a big integer or a decimal string yields exactly that integer modulo p, and reading it back as a big integer, as its low machine word or as 64-bit words returns the canonical value. Importing words inverts exporting them in prime, extension and binary fields (words hold plain integers, or the internal form in builds configured so) and reports success exactly when the imported value is below the modulus; the element is then valid and equal to that value.",
  ["inputs","configurations"],"all integers representable in each source type, all prime fields, all output-format configurations",
  "Tests convert a handful of small constants and random in-range elements; negative, extreme and out-of-range inputs are not covered.",
  [PB+'fp.tcc',FU+'bigint.tcc'],
  [("constructors and set_ulong",PB+"fp.tcc: Fp_model(...)"),("as_bigint/as_ulong via Montgomery reduction by one",PB+"fp.tcc: as_bigint"),("to_words/from_words",PB+"fp.tcc")])
p("F03","Extension-field towers implement true field arithmetic",
  "For every supported extension field (quadratic, cubic, quartic, sextic in both towers, and twelfth degree), addition, subtraction, negation, multiplication, every squaring variant, multiplication by a scalar from a subfield, multiplication by the non-residue and inversion agree with polynomial arithmetic modulo the defining polynomials of the tower. This holds for all operands including zero, elements with zero coefficients, subfield elements and aliased operands.",
  ["inputs"],"all elements of every extension field instantiated by the curves",
  "Tests check ring axioms on random elements with the library's own operations, never against an independent model and never on degenerate coefficient patterns.",
  [PE+f for f in ('fp2.tcc','fp3.tcc','fp4.tcc','fp6_2over3.tcc','fp6_3over2.tcc','fp12_2over3over2.tcc')],
  [("Karatsuba/complex/Chung-Hasan formulas",PE+"*.tcc: operator*, squared*"),("norm-based inversion",PE+"*.tcc: inverse"),("non_residue constants",CV+"*/*_fields.cpp")])
p("F04","Frobenius, unitary and sparse tower operations match their definitions",
  "Applying the Frobenius map with any power equals raising to the corresponding power of the characteristic in every prime and extension field. For elements of norm one or of the cyclotomic subgroup, the unitary inverse, the cyclotomic squaring and the cyclotomic exponentiation equal the general inverse, square and power; and each sparse multiplication equals the full product with the sparse element it stands for.",
  ["inputs"],"all elements (respectively all cyclotomic-subgroup elements), all Frobenius powers including those above the extension degree, all exponents",
  "Tests check Frobenius for powers 0..9 on random elements and a few squarings; cyclotomic shortcuts are valid only on a subgroup random elements never hit except by construction.",
  [PE+f for f in ('fp2.tcc','fp3.tcc','fp4.tcc','fp6_2over3.tcc','fp6_3over2.tcc','fp12_2over3over2.tcc')]+[CV+'alt_bn128/alt_bn128_fields.cpp',CV+'bls12_381/bls12_381_fields.cpp'],
  [("Frobenius coefficient tables",CV+"*/*_fields.cpp: Frobenius_coeffs_*"),("Frobenius_map with power reduction",PE+"*.tcc"),("cyclotomic_squared / cyclotomic_exp",PE+"fp4.tcc, fp6_2over3.tcc, fp12_2over3over2.tcc"),("mul_by_024/045, mul_by_023/2345",PE+"fp12..., fp4, fp6_2over3")])
p("F05","Exponentiation and square roots are exact in every field",
  "Raising an element of any supported field to any unsigned exponent, given as a machine integer, a big integer of any width, a list of words or a scalar-field element, equals repeated multiplication, with the zeroth power being one. For every square the square-root operation returns an element whose square is that input, in every prime, extension and binary field, including the roots of zero and one.",
  ["inputs"],"all bases, all exponents (0, 1, all-ones, single bits, exponents larger than the group order), all squares",
  "Tests use a few small exponents and square roots of squares of random elements; boundary exponents, word-list exponents and elements of high 2-power order are not reached.",
  [FU+'algorithms.tcc',PB+'fp.tcc',PE+'fp2.tcc',BF+'gf64.cpp',BF+'gf128.cpp'],
  [("square-and-multiply",FU+"algorithms.tcc: power"),("Tonelli-Shanks",FU+"algorithms.tcc: tonelli_shanks_sqrt"),("nqr_to_t, t, s constants",CV+"*/*_fields.cpp"),("Frobenius-orbit square root",BF+"gf*.cpp: sqrt")])
p("F06","Binary fields implement GF(2^n) polynomial arithmetic exactly",
  "In each binary field (32 to 256 bits), addition is bitwise exclusive-or and multiplication, squaring, inversion and square root equal carry-less polynomial arithmetic modulo the documented irreducible polynomial, for every pair of elements including zero, one and aliased operands. The result is the same whether the processor's carry-less multiply instructions or the portable code is used.",
  ["inputs","configurations"],"all element pairs, all five fields, assembly on/off; the designated generator generates the multiplicative group",
  "Tests check axioms on random elements and one fixed vector or two per field; sparse/high-bit patterns that exercise the reduction folding are not covered and the portable path is never built.",
  [BF+f for f in ('gf32.cpp','gf64.cpp','gf128.cpp','gf192.cpp','gf256.cpp')],
  [("carry-less multiply and reduction",BF+"gf*.cpp: operator*="),("addition-chain inverse",BF+"gf*.cpp: inverse"),("multiplicative_generator",BF+"gf*.cpp")])
p("F07","Big integers behave as fixed-width unsigned integers",
  "A big integer built from a machine word, decimal string or arbitrary-precision integer that fits holds exactly that value, and comparison, bit tests at any position, bit length, parity, zero test, clearing and conversion back agree with the mathematical integer. Randomising fills the full width.",
  ["inputs"],"all values of every width 1..24 limbs, bit positions below and beyond the width",
  "Existing tests touch bigints only indirectly through fields and with a few values.",
  [FU+'bigint.hpp',FU+'bigint.tcc'],
  [("GMP mpn wrappers",FU+"bigint.tcc"),("num_bits/test_bit limb indexing",FU+"bigint.tcc")])
p("F08","Published field and curve parameters are mathematically consistent",
  "After initialisation, every field's derived constants (bit size, two-adicity, odd part, Euler exponent, Montgomery constants, non-residue, generator, root of unity, Frobenius tables) and every curve's constants (coefficients, generators, orders, cofactors, twist, loop counts and final-exponent pieces, window tables) satisfy their defining equations with respect to the declared moduli. The declared moduli are prime and equal the standard values for each named curve, and the group generators lie on their curves and have exactly the declared prime order.",
  ["configurations","inputs"],"every constant of every supported curve and field, independently recomputed",
  "Tests exercise constants only through random sampling of dependent operations; rarely used constants and strengthened claims (non-residuosity, generator orders, standard values) are never checked.",
  [CV+c+'/'+c+'_'+s for c in ('alt_bn128','bls12_381','edwards') for s in ('fields.cpp','init.cpp')]+[CV+'mnt/mnt4/mnt4_init.cpp',CV+'mnt/mnt6/mnt6_init.cpp',CV+'mnt/mnt4/mnt4_fields.cpp',CV+'mnt/mnt6/mnt6_fields.cpp',CV+'mnt/mnt46_common.cpp'],
  [("hard-coded constant blocks",CV+"*/*_fields.cpp"),("curve constant blocks",CV+"*/*_init.cpp")])
p("U01","Field-vector utilities are exact inverses and exact maps",
  "Batch inversion inverts every element; packing bits or integers into field elements and unpacking them returns the original sequence with the documented chunking; bit-vector/element conversions give the little-endian binary expansion. The root-of-unity lookup returns an element of exactly the requested power-of-two order or raises an error when none exists, and the size, coset-shift and word-extraction helpers agree with the field's definition.",
  ["inputs"],"all vector lengths and values, chunk sizes up to the capacity, all requested orders up to and beyond the two-adicity",
  "Tests cover a few lengths and one field; lengths not divisible by the chunk size, maximal chunks, order limits and large orders are not covered.",
  [FU+'field_utils.hpp',FU+'field_utils.tcc'],
  [("Montgomery batch inversion",FU+"field_utils.tcc: batch_invert"),("packing loops",FU+"field_utils.tcc: pack_*"),("get_root_of_unity",FU+"field_utils.tcc")])
p("U02","Integer and bit utilities return the documented values",
  "The power-of-two, logarithm, two's-complement, bit-reversal, ceiling-division, bit-list and formatting helpers return the documented mathematical value on their whole documented domain, and bit-vector text serialisation round-trips.",
  ["inputs"],"all machine integers in the documented domains (including 0, 1, word-size boundaries, negative operands); outside: power-of-two rounding of 0 or above 2^63, logarithm of 0, word sizes above 64, formatted strings beyond 255 characters",
  "Tests check a few small values each.",
  [CM+'utils.cpp',CM+'utils.hpp',CM+'utils.tcc'],
  [("utility functions",CM+"utils.cpp"),("random_element_* templates",CM+"utils.tcc")])
p("U03","The complex-number domain type follows complex arithmetic",
  "The floating-point domain type used for testing FFT code performs complex addition, subtraction, negation, multiplication, squaring, inversion and exponentiation, compares with its documented tolerance, orders consistently, and returns exact roots of unity of the requested order up to that tolerance.",
  ["inputs"],"moderate-magnitude complex operands, all exponents up to a few thousand, all root orders",
  "The test suite does not exercise this type beyond compilation.",
  [CM+'double.cpp',CM+'double.hpp',FU+'field_utils.tcc'],
  [("std::complex wrappers",CM+"double.cpp"),("get_root_of_unity for Double",FU+"field_utils.tcc")])
p("G01","Curve points form an abelian group under the exposed operations",
  "For every supported curve and both source groups, addition, mixed addition, doubling, negation, subtraction and equality compute the group law of the underlying elliptic curve on every pair of group elements, including the identity, equal points, opposite points, points outside the prime-order subgroup and the same point in different projective representations (on the Edwards curve: every point its inverted coordinates can represent, which excludes those of order 2 and 4). Results depend only on the points and never on their representation, and the point produced is always on the curve.",
  ["inputs"],"all pairs of points x all projective representations, 5 curves x 2 groups",
  "Tests use random subgroup points in fresh representations; exceptional cases (P=Q in different coordinates, P=-Q, identity in non-canonical form) are sampled only on a few fixed cases, against the library itself.",
  [CV+'alt_bn128/alt_bn128_g1.cpp',CV+'alt_bn128/alt_bn128_g2.cpp',CV+'bls12_381/bls12_381_g1.cpp',CV+'bls12_381/bls12_381_g2.cpp',CV+'mnt/mnt4/mnt4_g1.cpp',CV+'mnt/mnt4/mnt4_g2.cpp',CV+'mnt/mnt6/mnt6_g1.cpp',CV+'mnt/mnt6/mnt6_g2.cpp',CV+'edwards/edwards_g1.cpp',CV+'edwards/edwards_g2.cpp'],
  [("operator+, add, mixed_add, dbl, operator-",CV+"*/*_g1.cpp, *_g2.cpp"),("cross-multiplied equality",CV+"*: operator==")])
p("G02","Membership tests, coordinate changes and cofactor maps are correct",
  "The well-formedness test accepts exactly the coordinate triples that satisfy the curve equation. Conversion to affine or special form, individually or in batch, preserves the point and yields the normalised form; cofactor multiplication equals multiplication by the published cofactor and lands in the prime-order subgroup; and the Frobenius-type map on the second group acts on coordinates as the field Frobenius transported through the twist.",
  ["inputs"],"all points on and off the curve, in and out of the subgroup, in any projective representation, batches with identities in any position",
  "Tests only check positive cases on random valid points; off-curve points, points outside the subgroup and batches mixing identities are not tried.",
  [CV+'alt_bn128/alt_bn128_g2.cpp',CV+'bls12_381/bls12_381_g1.cpp',CV+'bls12_381/bls12_381_g2.cpp',CV+'mnt/mnt4/mnt4_g2.cpp',CV+'mnt/mnt6/mnt6_g2.cpp',CV+'edwards/edwards_g2.cpp',CV+'curve_utils.tcc'],
  [("is_well_formed",CV+"*/*_g?.cpp"),("to_affine_coordinates / to_special / batch_to_special_all_non_zeros",CV+"*/*_g?.cpp"),("mul_by_cofactor, mul_by_q",CV+"*/*_g?.cpp")])
p("M01","Scalar multiplication computes repeated addition by every method",
  "Multiplying a group element by any scalar, given as a big integer of any width (including one machine word) or scalar-field element, equals adding the element to itself that many times, for plain multiplication and for every windowed signed-digit variant and window size. The signed-digit recoding always reconstructs the scalar with non-adjacent digits that are zero or odd and within the window bound, and multiplication by zero or of the identity gives the identity.",
  ["inputs"],"all scalars (0, 1, r-1, r, r+1, 2^k±1, all-ones, > order), all group elements including the identity and points outside the subgroup (Edwards: prime-order subgroup), window sizes 1..15, all groups",
  "Tests use random scalars and default windows; boundary scalars and non-default windows are not reached.",
  [SM+'wnaf.hpp',SM+'wnaf.tcc',CV+'curve_utils.tcc'],
  [("find_wnaf, fixed_window_wnaf_exp, opt_window_wnaf_exp",SM+"wnaf.tcc"),("scalar_mul",CV+"curve_utils.tcc"),("wnaf_window_table",CV+"*/*_init.cpp")])
p("M02","Multi-exponentiation equals the sum of scalar multiples for every method",
  "For every list of group elements and equally long list of scalars (including empty, one-element, duplicated, zero and maximal scalars and identity points), every multi-exponentiation method, with and without the zero/one filtering and for any positive number of chunks, returns the sum of the individual scalar multiples. Inner products of scalar lists equal the sum of pairwise products.",
  ["inputs","configurations"],"all lengths incl. around power-of-two and method-specific thresholds, all scalar patterns, all chunk counts, four methods, all groups, mixed-addition on/off",
  "Tests compare methods with each other only in a profiling program that is not part of the suite, on uniformly random scalars.",
  [SM+'multiexp.hpp',SM+'multiexp.tcc'],
  [("naive, plain, Bos-Coster heap, bucket method",SM+"multiexp.tcc: multi_exp_inner"),("chunk partition",SM+"multiexp.tcc: multi_exp"),("0/1 filtering",SM+"multiexp.tcc: multi_exp_with_mixed_addition")])
p("M03","Fixed-base windowed exponentiation equals direct multiplication",
  "For every base, window size and declared scalar size (any scalar that fits it), a precomputed window table used with any scalar of that size gives the same result as direct scalar multiplication; batch forms return one correct result per scalar in order, and the coefficient form multiplies each scalar by the coefficient. The recommended window size is positive and normalisation of a batch into special form leaves every element's value unchanged.",
  ["inputs"],"all scalars up to the declared size, window sizes 1..17 including those not dividing the scalar size, all vector lengths, all groups",
  "The suite has no test of these routines.",
  [SM+'multiexp.tcc'],
  [("get_window_table/windowed_exp",SM+"multiexp.tcc"),("batch_exp, batch_exp_with_coeff, batch_to_special",SM+"multiexp.tcc"),("get_exp_window_size",SM+"multiexp.tcc")])
p("P01","Pairings are bilinear, non-degenerate and map into the order-r group",
  "For every supported curve, the reduced pairing of a multiple of a first-group element and a multiple of a second-group element equals the pairing of the elements raised to the product of the multipliers, and is additive in each argument separately. Values have order dividing the group order, pairing the generators does not give one, and the result does not depend on the projective representation of the inputs.",
  ["inputs"],"all subgroup points in all representations, all scalar multipliers, 5 curves",
  "Tests check one random relation per curve from fresh points.",
  [CV+'alt_bn128/alt_bn128_pairing.cpp',CV+'bls12_381/bls12_381_pairing.cpp',CV+'mnt/mnt4/mnt4_pairing.cpp',CV+'mnt/mnt6/mnt6_pairing.cpp',CV+'edwards/edwards_pairing.cpp'],
  [("Miller loops",CV+"*/*_pairing.cpp"),("final exponentiation",CV+"*/*_pairing.cpp"),("line functions on the twist",CV+"*/*_pairing.cpp")])
p("P02","All pairing entry points and decompositions agree with one pairing function",
  "The pairing value computed directly equals final exponentiation of the Miller loop over precomputed inputs, the double Miller loop equals the product of two single ones after final exponentiation, and the affine variants and the generic curve-parameter interface return the same values; precomputed data compare equal exactly when computed from equal points. The final exponentiation equals raising to (q^k-1)/r times the curve's published fixed factor, is multiplicative, and the pairing agrees with the value obtained from an independently computed Miller function and the mathematical definition.",
  ["inputs"],"all point pairs incl. repeated and opposite pairs, all nonzero full-field elements for the final exponentiation, 5 curves",
  "Tests check one double-Miller relation per curve.",
  [CV+'alt_bn128/alt_bn128_pairing.cpp',CV+'bls12_381/bls12_381_pairing.cpp',CV+'mnt/mnt4/mnt4_pairing.cpp',CV+'mnt/mnt6/mnt6_pairing.cpp',CV+'edwards/edwards_pairing.cpp',CV+'public_params.hpp'],
  [("double_ate_miller_loop",CV+"*/*_pairing.cpp"),("final_exponentiation first/last chunk",CV+"*/*_pairing.cpp"),("*_pp wrappers",CV+"*/*_pp.cpp")])
p("S01","Serialising and deserialising any value returns the same value",
  "For every field element, curve point (compressed or not, identity included), big integer, precomputed pairing data, boolean, vector, set and map, reading back what was written yields an equal value, and writing it again yields identical bytes, in every output configuration (binary/text, internal/plain integers, compressed/uncompressed). The written form does not depend on the projective representation of a point.",
  ["inputs","configurations"],"all values, all representations, all 8 output configurations",
  "Tests round-trip about ten random values in the default configuration only.",
  [CM+'serialization.tcc',PB+'fp.tcc',FU+'bigint.tcc',CV+'alt_bn128/alt_bn128_g1.cpp',CV+'alt_bn128/alt_bn128_g2.cpp',CV+'bls12_381/bls12_381_g2.cpp',CV+'mnt/mnt4/mnt4_g2.cpp',CV+'mnt/mnt6/mnt6_g2.cpp',CV+'edwards/edwards_g2.cpp',CV+'edwards/edwards_g1.cpp'],
  [("operator<< / operator>>",CV+"*, "+A+"fields/*"),("point compression via y parity",CV+"*/*_g?.cpp"),("container templates",CM+"serialization.tcc")])
p("S02","Serialised streams are self-delimiting and composable",
  "When any sequence of values of mixed types is written to one stream with the library's separators, reading the same types back in order recovers every value, consumes exactly the bytes each value wrote, leaves the stream usable, and needs nothing beyond them. Collections may be empty or nested, and reading over an existing object fully replaces its old contents.",
  ["histories","configurations"],"all sequences of writes and matching reads, empty and nested collections, pre-populated targets, all output configurations",
  "Tests read single values or a simple list with a fresh stream and target in the default configuration.",
  [CM+'serialization.hpp',CM+'serialization.tcc',FU+'bigint.tcc',CV+'alt_bn128/alt_bn128_pairing.cpp',CV+'mnt/mnt4/mnt4_pairing.cpp'],
  [("OUTPUT_NEWLINE/OUTPUT_SEPARATOR conventions",CM+"serialization.hpp"),("consume_* helpers",CM+"serialization.tcc")])
p("S03","Interrupted streams are reported and never misread",
  "If a stream ends or fails at any byte before a serialised value (field element, point, big integer, collection, precomputed pairing data) is complete, reading it returns promptly and leaves the stream in a failed state, or throws when the stream is set to throw; it never hangs, crashes or computes with indeterminate memory. Values completed before the cut are recovered exactly, further reads keep failing, data arriving in small pieces is read like data arriving at once, and a failing output device leaves a failed stream and a prefix of the encoding. (A number cut between its digits at the very end of a text stream is a shorter number and cannot be told apart.)",
  ["crash_points","fault_sequences","configurations"],"every cut position in every serialised type and short sequences of them, end of stream, read and write errors, exceptions on and off, all eight output configurations",
  "Tests only read complete values from complete streams.",
  [CM+'serialization.tcc',FU+'bigint.tcc',CV+'alt_bn128/alt_bn128_g1.cpp',CV+'bls12_381/bls12_381_g2.cpp',CV+'mnt/mnt6/mnt6_g2.cpp',CV+'mnt/mnt4/mnt4_pairing.cpp',CV+'edwards/edwards_g2.cpp'],
  [("readers of compressed points",CV+"*/*_g?.cpp: operator>>"),("element counts of collections",CM+"serialization.tcc, "+CV+"*/*_pairing.cpp"),("digit strings",FU+"bigint.tcc: operator>>")])
p("R01","Random sampling yields valid, fully ranged, well-distributed elements",
  "Random field elements, big integers and curve points are always canonical members of their domain (points lie in the prime-order subgroup) whatever bytes the entropy source supplies, and every value can occur with approximately equal frequency. Successive samples depend on fresh entropy, and the constrained samplers never return an excluded value.",
  ["inputs","fault_sequences"],"all entropy streams, including adversarial ones (all zeros, all ones, values at and above the modulus, long rejection runs)",
  "Tests can only look at a few outputs of the system entropy source; out-of-range draws happen with negligible probability.",
  [PB+'fp.tcc',FU+'bigint.tcc',BF+'gf64.cpp',BF+'gf256.cpp',CM+'utils.tcc'],
  [("rejection sampling with top-bit masking",PB+"fp.tcc: randomize"),("random_device limb fill",FU+"bigint.tcc: randomize"),("libsodium fill",BF+"gf*.cpp: randomize")])
p("R02","The hash-based generator is a deterministic uniform map into the field",
  "The indexed hash-based generator returns for every index and prime field the same element on every call, process and thread, equal to the documented SHA-512-based expansion with rejection of out-of-range values, and always a canonical element. Distinct indices give distinct elements in practice.",
  ["inputs"],"all 64-bit indices, all prime fields",
  "Tests check only that repeated calls coincide for a few indices.",
  [CM+'rng.hpp',CM+'rng.tcc'],
  [("SHA512_rng",CM+"rng.tcc")])
p("C01","Concurrent use of initialised parameters and values is race-free",
  "Once a curve's parameters are initialised, any number of threads may concurrently run field, group, pairing, multi-exponentiation, serialisation and hashing operations on their own or shared read-only values without data races, crashes or results differing from sequential execution.",
  ["schedules"],"all interleavings of read-only operations on shared values and private writes, 2..16 threads",
  "The test suite is single threaded.",
  [CV+'alt_bn128/alt_bn128_pairing.cpp',CV+'mnt/mnt4/mnt4_pairing.cpp',CM+'profiling.cpp',SM+'multiexp.tcc',PB+'fp.tcc'],
  [("immutable static parameters after init",CV+"*/*_init.cpp"),("global profiling state",CM+"profiling.cpp")],
  None,[{"name":"profiling block state","meaning":"global counters, indentation and timestamps updated by pairings","where":CM+"profiling.cpp"}])
p("C02","Multicore builds give the sequential results without races",
  "In the multi-threaded build, multi-exponentiation, batch exponentiation and batch normalisation return exactly the results of the single-threaded build for every thread count, chunk count and input length, and their worker threads never access shared data without synchronisation.",
  ["schedules","configurations"],"thread counts 1..16, chunk counts below/equal/above the length, all interleavings of worker threads",
  "The test suite is built without multi-threading.",
  [SM+'multiexp.tcc',SM+'multiexp.hpp',CM+'profiling.cpp'],
  [("#pragma omp parallel for over chunks",SM+"multiexp.tcc: multi_exp, batch_exp"),("per-chunk partial results",SM+"multiexp.tcc")])
p("I01","Parameter initialisation is repeatable and curves coexist",
  "Initialising a curve's parameters any number of times, in any order relative to other curves and interleaved with their use, leaves every curve's constants, generators and results the same as initialising it alone once. Values created before a re-initialisation remain valid.",
  ["histories"],"all sequences of initialisations and uses over five curves, in one process",
  "Each test program initialises a fixed set of curves once in one order.",
  [CV+'alt_bn128/alt_bn128_init.cpp',CV+'bls12_381/bls12_381_init.cpp',CV+'mnt/mnt4/mnt4_init.cpp',CV+'mnt/mnt6/mnt6_init.cpp',CV+'edwards/edwards_init.cpp',CV+'alt_bn128/alt_bn128_fields.cpp'],
  [("init_*_params / init_*_fields",CV+"*/*_init.cpp, *_fields.cpp"),("wnaf/fixed-base tables cleared before refill",CV+"*/*_init.cpp")])
p("O01","Profiling never changes results and its counts match the work observed",
  "Enabling, disabling or inhibiting profiling, counters and operation counting never changes any computed value; nested and recursive blocks balance, inhibited profiling prints nothing, and reported invocation counts, indentation and operation counts equal the operations actually performed.",
  ["histories","configurations"],"all well-nested block histories, with counters/profiling inhibited or not, op counting on/off",
  "The suite never checks profiling output and never builds with operation counting.",
  [CM+'profiling.hpp',CM+'profiling.cpp',PB+'fp.tcc',BF+'gf64.hpp'],
  [("enter_block/leave_block",CM+"profiling.cpp"),("op counters under PROFILE_OP_COUNTS",A+"fields/**")])
p("B01","Every documented build configuration builds and computes the same values",
  "Each documented combination of build options (assembly, Montgomery output, binary output, point compression, low memory, multicore, mixed addition, debug, profiling counters, performance flags) compiles, links and yields identical mathematical results for every operation; options may change only speed, memory and the serialised format they document.",
  ["configurations","inputs"],"all documented option values, both installed compilers, optimisation levels",
  "CI builds and tests one configuration; other preprocessor branches are never executed.",
  ["CMakeLists.txt","libff/CMakeLists.txt",PB+'fp.tcc',SM+'multiexp.tcc',FU+'fp_aux.tcc',FU+'field_utils.tcc',CM+'profiling.cpp'],
  [("preprocessor-selected implementations",PB+"fp.tcc, "+SM+"multiexp.tcc, "+BF+"*.cpp"),("build options","CMakeLists.txt")])
p("Z01","Valid use never triggers undefined behaviour or memory errors",
  "No sequence of library calls with arguments inside their documented domains causes an out-of-bounds or use-after-free access, use of indeterminate memory, leak of owned memory, integer or shift undefined behaviour, failed internal assertion, uncaught exception or non-termination.",
  ["inputs","histories"],"all valid call sequences over the whole public API, boundary sizes and empty containers included",
  "The suite runs without sanitizers and with assertions compiled out, on mid-range inputs.",
  [PB+'fp.tcc',FU+'bigint.tcc',FU+'field_utils.tcc',SM+'multiexp.tcc',SM+'wnaf.tcc',CM+'serialization.tcc',CM+'utils.cpp',CM+'profiling.cpp'],
  [("bounds and asserts throughout","libff/**"),("inline assembly operand constraints",FU+"fp_aux.tcc, "+PB+"fp.tcc")])
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(d+'/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80, x['title']
        f.write(json.dumps(x)+'\n')
for x in P:
    for fl in x['anchors']['files']:
        assert os.path.exists('/repo/'+fl), fl
print(len(P))
