_VN_NOTE = ('Both sides are value-numbered over symbolic operands with partitioned comparisons; equality is syntactic after normalisation, so it is sound for '
            'every input, and bodies outside the domain are reported as undecided rather than guessed. ')

P('Q01', 'Comparison, min/max and sign operators agree with their definition on all values',
  'For every numeric scalar type, the equality, ordering, minimum, maximum, absolute value and sign operators return the documented result for every pair of arguments, including NaN, infinities and the extreme integers: '
  'an ordering or equality with NaN is absent/false, minimum and maximum of a NaN and anything is NaN, and none of them has undefined behaviour.',
  ['inputs'], 'all pairs of int32, int64, float and double values',
  'The unit tests compare a few dozen pairs per operator.',
  ['arolla/qexpr/operators/bool/comparison.h', 'arolla/qexpr/operators/math/math.h'],
  [('comparison functors', 'arolla/qexpr/operators/bool/comparison.h'), ('min/max/abs/sign functors', 'arolla/qexpr/operators/math/math.h')],
  technique='value numbering with order-relation partitioning of operator bodies against their definitions',
  note=_VN_NOTE + 'The sign of zero and NaN payloads are not distinguished.')

P('Q02', 'Integer arithmetic operators wrap or saturate as documented, never undefined',
  'Integer addition, subtraction, multiplication, negation and absolute value wrap modulo the width for every pair of arguments; floor division and modulus round toward minus infinity, '
  'report an error for a zero divisor and give a defined result for the minimum divided by -1. No integer operator has undefined behaviour on any input.',
  ['inputs'], 'all pairs of int32 and int64 (uint64) values',
  'Signed overflow at one specific pair of extremes passes every sampled test and only misbehaves at some optimisation levels.',
  ['arolla/qexpr/operators/math/arithmetic.h', 'arolla/qexpr/operators/math/math.h'],
  [('wrapping arithmetic', 'arolla/qexpr/operators/math/arithmetic.h: AddOp, SubtractOp, MultiplyOp, NegOp'), ('floor division', 'arolla/qexpr/operators/math/arithmetic.h: FloorDivOp, ModOp')],
  technique='value numbering in a modular polynomial domain with intervals',
  note=_VN_NOTE + 'The definitions are in tu/operators.cc.')

P('Q03', 'Floating-point operators apply the documented function at the argument precision',
  'Every floating-point math operator computes the function it is named for, on its arguments in order and at the precision of its argument type (a double is never routed through a float function), '
  'and handles the NaN, zero-divisor and infinite cases its documentation names.',
  ['inputs'], 'all float and double arguments',
  'Loss of precision or a wrong branch for one special operand stays inside the tolerance or outside the samples of the tests.',
  ['arolla/qexpr/operators/math/math.h', 'arolla/qexpr/operators/math/arithmetic.h'],
  [('math functors', 'arolla/qexpr/operators/math/math.h'), ('division and modulus', 'arolla/qexpr/operators/math/arithmetic.h')],
  technique='value numbering over width-tagged uninterpreted IEEE operations',
  note=_VN_NOTE + 'Accuracy of the C library functions is out of scope.')

P('Q04', 'Optional values and three-valued logic propagate presence as documented',
  'An optional value is present exactly when built from a value; comparisons of optionals treat two missing values as equal and never look at the value of a missing one; presence operators '
  '(has, not, and, or, where, and their lazy variants), ternary and/or/not/if and the lifting of functions to optional arguments yield exactly the documented presence and value for every combination of present and missing arguments.',
  ['inputs'], 'all values and all combinations of present and missing arguments',
  'The value slot of a missing optional is arbitrary; tests build missing optionals with a zero there, so a result that leaks it looks right.',
  ['arolla/memory/optional_value.h', 'arolla/qexpr/operators/core/logic_operators.h', 'arolla/qexpr/operators/bool/logic.h', 'arolla/qexpr/operators/core/cast_operator.h'],
  [('optional value', 'arolla/memory/optional_value.h: OptionalValue'), ('presence operators', 'arolla/qexpr/operators/core/logic_operators.h'), ('ternary logic', 'arolla/qexpr/operators/bool/logic.h')],
  technique='value numbering with presence partitioning of operator bodies against their definitions',
  note=_VN_NOTE + 'Instantiated for float, int64, bool and unit payloads.')

P('Q05', 'Numeric casts convert exactly or fail, never with undefined behaviour',
  'Casting between numeric types yields the C++ conversion of the value when it is representable in the destination and an error otherwise: a NaN, an infinity or an out-of-range number is never converted to an integer type, '
  'and the range test is exact at the boundaries for every pair of source and destination type.',
  ['inputs'], 'all values of int32, int64, uint64, float, double and bool',
  'An off-by-one-ulp bound is wrong for one single value of billions, and converting it is undefined behaviour that usually looks right.',
  ['arolla/qexpr/operators/core/cast_operator.h'],
  [('range-checked casts', 'arolla/qexpr/operators/core/cast_operator.h: CastOp')],
  technique='value numbering with exact floating-point interval bounds against the definition',
  note=_VN_NOTE)

P('Q06', 'Bitwise operators equal the machine operations on all bits',
  'Bitwise and, or, xor, invert and the population count of int32 and int64 operands give the two\'s-complement result for every operand, with the count taken over exactly the operand\'s width.',
  ['inputs'], 'all pairs of int32 and int64 values',
  'A count through a wider or narrower type agrees on every non-negative sample.',
  ['arolla/qexpr/operators/bitwise/bitwise.h'],
  [('bitwise functors', 'arolla/qexpr/operators/bitwise/bitwise.h')],
  technique='value numbering with canonical truth tables of bitwise terms',
  note=_VN_NOTE)

P('Q07', 'Inverse distribution functions accept exactly their documented domain',
  'The inverse Student-t, Beta and normal distribution operators return an error for every probability outside [0, 1] (NaN included) and for every distribution parameter that is not a positive finite number, and otherwise evaluate '
  'the quantile of the named distribution with its parameters in order at the given probability, at the argument precision.',
  ['inputs'], 'all float and double arguments',
  'The numeric library is called with errors ignored, so an argument that slips through gives a silent garbage result; tests check a few bad values per parameter.',
  ['arolla/qexpr/operators/math_extra/cdf.h'],
  [('argument validation', 'arolla/qexpr/operators/math_extra/cdf.h')],
  technique='value numbering with exact boundary partitioning against the definition',
  note=_VN_NOTE + 'The accuracy of the library\'s quantile functions is out of scope.')
