"""The single table properties.jsonl and MANIFEST.json are generated from (tools/gen.py)."""
ALLBITS = 'Every bit pattern of every operand (zeros, infinities, NaNs with arbitrary payload bits, all normals)'
WHY = 'Tests sample operands and a few formats; a wrong carry, rounding or special case can hide in one operand pair out of 2^60 or in one template width, and the library is only correct if every pair of every width is.'
NOTES = 'Every check compiles the current headers of /repo to LLVM IR (clang -O1), executes the instantiations symbolically, and lets a SAT solver decide equality with an independent reference semantics for all bit patterns; undecided obligations are listed in the evidence as uncovered, and counterexamples are replayed on natively compiled code before they are reported.'
TRUST = 'Bounded: the listed template widths only, all bit patterns of each. Trusted: clang lowering to IR, the symbolic executor (cross-checked by replay and selfcheck.py), the reference semantics, and the SAT solver.'
E, C = 'inputs', 'configurations'
PROPS = []
def P(id, title, statement, quant, mech, level, why=WHY, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, mech=mech, level=level, why=why, **k))
FL = 'fp_flopoco.hpp'

P('C01', 'Addition is correctly rounded for all operands, including special values',
  'The default addition of two numbers of one floating-point format returns the exact sum rounded to nearest, ties to even, for every pair of operands. Results below the smallest normal become zero, results beyond the largest become infinity, and zeros, infinities and NaNs combine as in IEEE arithmetic (opposite infinities give NaN, x + (-x) gives +0, -0 only for -0 + -0).',
  ALLBITS + ', for exponent widths 4..12 and fraction widths 1..52 in the listed grid.',
  [('add / add_dual', 'fp_flopoco_add_dual_v1.hpp'), ('alias for the default adder', 'fp_flopoco_primitives.hpp'), ('number container', FL)],
  'Equality with an independently written correctly rounded adder, whole operand space of each listed format.')
P('C02', 'Every single-path adder variant is correctly rounded, incl. mixed widths',
  'Each alternative adder (the five single-path generations) returns, for every pair of operands, the exact sum rounded to nearest even with the same special-value results as the default adder. Variants that accept operands and a result of different fraction widths round the exact sum of the two operands to the result format once.',
  ALLBITS + ', for each variant over the format combinations its interface accepts (exponent widths from 4 up; the listed grid).',
  [('add_single v1', 'fp_flopoco_add_single_v1.hpp'), ('add_single v2', 'fp_flopoco_add_single_v2.hpp'), ('add_single v3', 'fp_flopoco_add_single_v3.hpp'), ('add_single v4', 'fp_flopoco_add_single_v4.hpp'), ('add_single v5', 'fp_flopoco_add_single_v5.hpp')],
  'Equality with the reference adder for every variant and listed width combination.')
P('C03', 'Multiplication is correctly rounded, and exact at full result width',
  'Multiplying two numbers (whose fraction widths may differ from each other and from the result) returns the exact product rounded to nearest, ties to even, for every pair of operands; when the result fraction has at least the sum of the operand fraction widths plus one bits, no rounding happens at all. Products below the normal range give a signed zero, above it a signed infinity, zero times infinity and NaN operands give NaN.',
  ALLBITS + ', for the listed combinations of operand and result fraction widths.',
  [('mul', 'fp_flopoco_mul_v1.hpp'), ('alias', 'fp_flopoco_primitives.hpp')],
  'Equality with the reference multiplier for each listed width combination.')
P('C04', 'Both division algorithms are correctly rounded for all operands',
  'Dividing two numbers returns the exact quotient rounded to nearest for every pair of operands, in both implementations of division. x/0 is a signed infinity, 0/0 and infinity/infinity are NaN, x/infinity is a signed zero, quotients below the normal range give zero and above it infinity.',
  ALLBITS + ', for the listed formats; the second algorithm also with different operand and result fraction widths.',
  [('div v1', 'fp_flopoco_div_v1.hpp'), ('div v2', 'fp_flopoco_div_v2.hpp'), ('alias', 'fp_flopoco_primitives.hpp')],
  'Equality with the exact rounded quotient for all operands of each listed format: narrow formats directly, wide ones by induction over the remainders of the real code, every step decided by the solver.')
P('C05', 'The reciprocal by digit recurrence is correctly rounded',
  'The reciprocal operation returns 1/y rounded to nearest for every y, with 1/0 a signed infinity, 1/infinity a signed zero, NaN for NaN, and zero or infinity when the reciprocal leaves the normal range.',
  ALLBITS + ', for the listed formats.',
  [('inv', 'fp_flopoco_inv_v1.hpp'), ('alias', 'fp_flopoco_primitives.hpp')],
  'Equality with the reference division 1/y for all y of each listed format.')
P('C06', 'The table-and-Newton reciprocal is faithful (one of the two neighbours)',
  'The faithful reciprocal returns, for every y, one of the two representable numbers next to the exact 1/y (the exact value when it is representable), also when argument and result have different fraction widths. Sign and special values follow the reciprocal: 1/0 is a signed infinity, 1/infinity a signed zero, NaN stays NaN, and a reciprocal below the normal range is a signed zero.',
  ALLBITS + ', for the listed argument/result format pairs.',
  [('inv_table_newton, inv_direct, seed tables, Newton iterations', 'fp_flopoco_inv_nr.hpp'), ('alias inv_faithful', 'fp_flopoco_primitives.hpp')],
  'Faithfulness inequality decided for all arguments of each listed format.')
P('C07', 'Negation and conversion-with-sign change only what they promise',
  'Negation flips the sign of every number, zero and infinity, leaves exponent and fraction alone, and maps NaN to NaN. Negating into another format negates the converted value.',
  ALLBITS + ', for the listed formats.',
  [('neg', 'fp_flopoco_neg_v1.hpp'), ('convert', 'fp_flopoco_convert.hpp'), ('conversion', 'fp_convert.hpp')],
  'Equality with the reference for all operands of each listed format.')
P('C08', 'Conversion between formats rounds to nearest even, with correct range handling',
  'Converting a number to another exponent and/or fraction width returns the number of the destination format nearest to it (ties to even), and exactly the same value whenever it is representable. Values that leave the destination range become signed zero or signed infinity, and zero, infinity and NaN keep their class and sign.',
  ALLBITS + ', for the listed pairs of source and destination formats.',
  [('convert', 'fp_convert.hpp'), ('free function convert', 'fp_flopoco_convert.hpp')],
  'Equality with the reference conversion for each listed pair of formats.')
P('C09', 'Promotion to a wider format preserves the value exactly',
  'Promoting a number to a format with at least as wide exponent and fraction (between and within the internal and the IEEE container) keeps value, sign and class, for every input. IEEE subnormals count as zero.',
  ALLBITS + ', for the listed pairs of formats.',
  [('promote', 'fp_promote.hpp')],
  'Equality with the reference widening for each listed pair of formats.')
P('C10', 'IEEE bit patterns convert to the internal format and back without loss',
  'Reading an IEEE bit pattern yields the number it denotes (subnormals flushed to a zero of the same sign), and writing an internal number yields an IEEE pattern of the same value, sign and class. Reading back a written pattern gives the same number whenever the exponent is inside the IEEE normal range.',
  'Every IEEE bit pattern and every internal bit pattern of the listed formats.',
  [('container and bit conversions', FL), ('IEEE container', 'fp_ieee.hpp'), ('policy conversions', 'policy_ieee_on_flopoco.hpp')],
  'Equality with the reference decode/encode for each listed format.')
P('C11', 'Comparisons implement the IEEE order for every pair of operands',
  'Less, less-or-equal, greater, greater-or-equal, equal and not-equal agree with the numeric order of the operands: infinities are ordered at the ends and equal to themselves whatever their payload bits, +0 equals -0, and every ordered comparison with a NaN is false. This holds also for operands of different formats.',
  ALLBITS + ', pairs of operands in the listed formats.',
  [('less_than, equal, ...', 'fp_flopoco_ordering.hpp'), ('operators', FL)],
  'Equality with the reference order for each listed format pair.')
P('C12', 'Next-up, next-down and the one-step tolerance are exact neighbours',
  'The next representable number above (below) x is strictly above (below) x with nothing in between, for every x including the smallest and largest magnitudes and zero. The one-step tolerance test accepts exactly the pairs that are equal or adjacent.',
  ALLBITS + ', in the listed formats.',
  [('nextup, nextdown, within_1ulp', FL)],
  'Adjacency decided on the ordered key of each listed format.')
P('C13', 'Classification predicates and special-value constants of the internal format',
  'Each number is classified as exactly one of zero, normal, infinity, NaN, and sign, finiteness and the derived predicates agree with that class. The constants (zeros, infinities, NaN, largest, smallest normal, one) denote exactly the values they name.',
  ALLBITS + ', in the listed formats.',
  [('predicates and constants', FL)],
  'Equality with the reference classification for each listed format.')
P('C14', 'The identity comparison distinguishes exactly the different numbers',
  'The identity test accepts two numbers exactly when they have the same class and, where it matters, the same sign, exponent and fraction; don\'t-care payload bits of zeros, infinities and NaNs play no part.',
  ALLBITS + ', pairs of operands in the listed formats.',
  [('equals', FL)],
  'Equality with the reference identity for each listed format.')
P('C15', 'Fixed-width integer arithmetic is exact modulo the width, for every width',
  'Addition, subtraction, multiplication, bitwise operations, shifts, comparisons, increments and reductions of fixed-width unsigned integers return the mathematical result modulo 2^W (or the full product and sum where the result is wider), for all operands, also across the 32- and 64-bit storage boundaries.',
  'All operand values, for every width 1..128 (products up to the listed widths).',
  [('operators', 'fw_uint.hpp'), ('masked storage backend', 'fw_uint_on_masked_uint.hpp')],
  'Equality with bit-vector semantics for every width 1..128.')
P('C16', 'Slicing, concatenation, padding, resizing and table lookup move bits exactly',
  'Taking, dropping, concatenating, padding, resizing, zero-extending and selecting bits of fixed-width integers return exactly the bits named, for all values and positions. Selection chains pick the first true alternative and table lookups return the entry addressed.',
  'All operand values, for the listed widths and positions.',
  [('take_*, drop_*, concat, *pad_*, resize, select, lut', 'fw_uint.hpp'), ('masked storage backend', 'fw_uint_on_masked_uint.hpp')],
  'Equality with bit-vector slicing for each listed width/position.')
P('C17', 'Normalising shifters and rounding primitives compute what they name',
  'The leading-zero normalisers return the input shifted left by its number of leading zeros together with that count, and the zero indicator exactly for zero. The signed fixed-point helpers of the reciprocal (product, subtraction, truncation, scaling, rounding) return the exact value they name for all operands.',
  'All operand values, for the listed widths.',
  [('LZOCShifter', 'fp_flopoco_add_single_v1.hpp'), ('LZOCShifter', 'fp_flopoco_add_single_v2.hpp'), ('LZOCShifterCLZ', 'fp_flopoco_add_single_v3.hpp'), ('LZOCShifter', 'fp_flopoco_add_single_v4.hpp'), ('dual path shifters', 'fp_flopoco_add_dual_v1.hpp'), ('fixed-point helpers', 'fp_flopoco_inv_nr.hpp')],
  'Equality with bit-vector reference for each listed width.')
P('C18', 'Bit-heap compression preserves the weighted sum of everything added',
  'Whatever words have been put on a bit heap - merged, shifted to their weights, padded, in any order and shape - compressing and collapsing it returns their exact weighted sum modulo 2^W, and no single compression step changes it.',
  'All values of the added terms, for the listed heap shapes.',
  [('bit_heap', 'bit_heap.hpp')],
  'Equality with the reference sum for each listed heap shape.')
P('C19', 'Row-heap compression preserves the sum of the rows',
  'Adding rows to a row heap, merging heaps and compressing them down to a single row returns the sum of all rows modulo 2^W.',
  'All row values, for the listed depths and widths.',
  [('row_heap', 'row_heap.hpp')],
  'Equality with the reference sum for each listed shape.')
P('C20', 'Multiplication through the bit heap is the exact product',
  'The multiplier built from partial products on a bit heap returns the exact product of its two operands, for every tile size, all operand widths and all operand values.',
  'All operand values, for the listed operand widths.',
  [('bit_heap_mul', 'bit_heap_mul.hpp'), ('bit_heap', 'bit_heap.hpp')],
  'Equality with the exact product for each listed width pair.')
P('C21', 'The LUT-optimised generator step is the linear map of its matrix',
  'One step of the LUT-optimised random generator maps every state to the exclusive-or of exactly the state bits its documented seeded construction connects to each output bit, so the step is a linear map over bits.',
  'All states, for the listed generator parameters.',
  [('lut_opt step', 'lut_opt.hpp')],
  'Equality with the matrix-vector product for each listed generator.')
P('C22', 'Fused multiply-add is the product and sum with the documented roundings',
  'The multiply-add operation forms the exact product of its first two operands, adds the third operand with one rounding to nearest even at the intermediate fraction width, and rounds that once to the result format. Special values behave as for multiplication followed by addition.',
  ALLBITS + ', in the listed formats.',
  [('fma', 'fp_flopoco_fma.hpp')],
  'Equality with the composed reference for each listed format.')
P('C23', 'Two-term positive dot product rounds the exact result down',
  'For positive normal operands the two-term dot product returns the exact a0*b0 + a1*b1 rounded towards zero to the result format; results beyond the range become infinity and below the range zero.',
  'All positive normal operands, in the listed formats.',
  [('dot2_pos_rndd', 'fp_flopoco_dot2_pos_rndd.hpp')],
  'Equality with the exact truncated dot product for each listed format.')
P('C24', 'Four-term positive dot product rounds the exact result down',
  'For positive normal operands the four-term dot product returns the exact a0*b0 + a1*b1 + a2*b2 + a3*b3 rounded towards zero to the result format; results beyond the range become infinity and below the range zero.',
  'All positive normal operands, in the listed formats.',
  [('dot4_pos_rndd', 'fp_flopoco_dot4_pos_rndd.hpp')],
  'Equality with the exact truncated dot product for each listed format.')
P('C25', 'The flopoco policy performs the operations its interface names',
  'Through the internal-format policy value type, addition, multiplication, division, their in-place forms and the six comparison operators return the correctly rounded (exact) result for all operands, and the numeric limits denote the numbers they name. A native float converts to the number it denotes (subnormals to zero), and a number converts to the native float of its value.',
  ALLBITS + ', in the listed formats.',
  [('fp_flopoco policy', 'policy_flopoco.hpp')],
  'Equality with the reference operation for each policy function and listed format.')
P('C26', 'The IEEE-on-flopoco policy computes IEEE results with subnormals flushed',
  'Through the IEEE policy value type, addition, multiplication, division and comparisons take and return IEEE bit patterns and yield the IEEE round-to-nearest-even result with subnormal inputs read as zero and underflow returned as a signed zero (never a subnormal pattern). The numeric limits denote the numbers they name and the exponent range of the IEEE format.',
  'All IEEE bit patterns of the listed formats.',
  [('policy', 'policy_ieee_on_flopoco.hpp'), ('IEEE container', 'fp_ieee.hpp')],
  'Equality with the reference operation for each policy function and listed format.')
P('C27', 'Software floating point agrees with IEEE arithmetic',
  'The software floating-point policies for single and double precision return the IEEE round-to-nearest-even sum, product and quotient bit for bit, subnormals included, and comparisons follow the IEEE order; a NaN result is any quiet NaN.',
  'All operand bit patterns for sums, products and comparisons; for quotients all special operands and the operand classes listed in the evidence.',
  [('policy', 'policy_softfloat.hpp'), ('inlined softfloat', 'softfloat/softfloat_inline.hpp')],
  'Equality with the reference operation.')
P('C28', 'Conversion from and to native double keeps the value',
  'Constructing a number from a native double gives the double truncated to the format with its sign and class kept, and reading a number as a double returns exactly its value whenever a double can hold it, for negative numbers as for positive ones.',
  'All doubles and all bit patterns of the listed formats.',
  [('constructors and to_double', FL)],
  'Equality with the reference conversion for each listed format.')
P('C29', 'No operator aborts, runs into undefined behaviour or reads out of bounds',
  'For every operand bit pattern, every arithmetic, comparison and conversion operation returns: no assertion fails, no signed overflow, oversized shift, division by zero, uninitialised or out-of-bounds access happens.',
  ALLBITS + ', in the listed formats.',
  [('internal format', FL), ('default adder', 'fp_flopoco_add_dual_v1.hpp'), ('multiplier', 'fp_flopoco_mul_v1.hpp'), ('divider', 'fp_flopoco_div_v1.hpp'), ('storage backend', 'fw_uint_on_masked_uint.hpp')],
  'Reachability of every abort and undefined operation decided for each listed instantiation.', tech='SAT-decided unreachability of aborts and undefined operations')
P('C30', 'Algebraic laws: commutativity, neutral elements, sign symmetry',
  'For all operands addition and multiplication are commutative, x+0, x*1 and x/1 return x, x-x is zero, x*(-1) is the negation of x, negating both operands negates a sum and leaves a product unchanged, and division by a power of two agrees with multiplication by its reciprocal.',
  ALLBITS + ', in the listed formats.',
  [('adder', 'fp_flopoco_add_dual_v1.hpp'), ('multiplier', 'fp_flopoco_mul_v1.hpp'), ('divider', 'fp_flopoco_div_v1.hpp'), ('negation', 'fp_flopoco_neg_v1.hpp')],
  'Self-composition of the real code: both sides are executed symbolically and compared.')
P('C31', 'IEEE container: classification, equality and constants follow IEEE 754',
  'The IEEE container classifies every bit pattern as IEEE 754 does (zero, subnormal, normal, infinity, quiet and signalling NaN), compares containers as specified, and its constants denote the values they name.',
  'All bit patterns of the listed formats.',
  [('fp_ieee', 'fp_ieee.hpp')],
  'Equality with the reference classification for each listed format.')
