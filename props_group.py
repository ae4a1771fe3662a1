from registry import prop, na
ED = 'src/group/edwards25519/'
TECHG = 'abstract interpretation of rustc MIR: polynomials modulo the prime, intervals and bit layouts, constant-trip loops unrolled'
NOTE = ('Sound up to the models of the standard library in engine/unroll.py: every path of the analysed functions is followed on abstract numbers (exact polynomials over the unknown limbs or bytes, with intervals and bit layouts); '
        'what cannot be followed is reported. Upper layers use the meaning of a lower layer only after that meaning has been established by another obligation. ')


def p(id, title, st, over, qt, why, files, mech, rule, note='', floor=1, technique=TECHG):
    prop(id, title, st, over, qt, why, files, mech, 'group', rule, NOTE + note, floor=floor, technique=technique)


p('G01', 'Point encoding is the compressed form; decoding checks the curve',
  'A point encodes as the 32-byte little-endian affine y coordinate with the sign of x in the top bit. '
  'Decoding accepts exactly the 32-byte strings for which the curve equation has a solution x, gives the point with that y and the requested sign of x, and never panics or accepts another length. '
  'Two points are equal, and hash alike, exactly when their encodings agree.',
  ['inputs'], 'all points and all byte strings', 'tests decode a handful of encodings',
  [ED + 'ge.rs', ED + 'point.rs'], [('element codec', 'ExtendedGroupElement::write_bytes, set_bytes'), ('point codec, equality', 'Point::marshal_binary, unmarshal_binary, eq, hash')],
  'Coordinates are polynomials over the prime field; every combination of the zero and sign tests of the decoder is followed, and the accepted x is checked against the curve equation under the tests passed.', floor=12)
p('G02', 'Curve constants are the Ed25519 parameters',
  'The curve parameter and its double, the square root of -1, the base point, the group orders and cofactor (as integers and as scalars), the neutral element and the list of small-order points have exactly the values Ed25519 prescribes.',
  ['programs'], 'every entry of every constant', 'a wrong digit in a rarely used constant shows only for special points',
  [ED + 'constants.rs'], [('constants', 'PRIME .. NULL_POINT, SQRT_M1, D, D2, BASEEXT, WEAK_KEYS')],
  'The compile-time values are decoded from the compiler output and compared with values computed from the definition of the curve.', floor=10)
p('G03', 'Secret operands do not influence control flow or addresses',
  'Field and scalar arithmetic (with inversion), conditional selection, the table look-ups, point addition, subtraction, negation, encoding, and default scalar multiplication of the base point or a given point execute no branch, memory index or division that depends on the value of an operand. '
  'The same holds for comparing two scalars.',
  ['inputs', 'programs'], 'all operand values', 'timing differences do not show in test results',
  [ED + 'fe.rs', ED + 'scalar.rs', ED + 'ge.rs', ED + 'point.rs'], [('limb layer', 'fe_*, sc_*'), ('curve layer', 'ge_scalar_mult, ge_scalar_mult_base, select_*'), ('types', 'Scalar, Point')],
  'All numbers of the operands carry a taint that every operation propagates; a branch, bounds check, index or division it reaches is reported. Decided on MIR, before the optimiser; the variable-time routine, reachable only through a flag nobody sets, integers of arbitrary modulus and conversions from integers are outside.',
  floor=43, technique='taint (information-flow) analysis on rustc MIR with constant-trip loops unrolled')
p('G04', 'Scalar arithmetic is exact modulo the group order',
  'Adding, subtracting, multiplying, multiply-adding, negating, inverting and dividing scalars gives the canonical representative of the exact result modulo the group order, for all 32-byte operands, reduced or not. '
  'No intermediate value overflows its machine type.',
  ['inputs'], 'all pairs and triples of 32-byte strings', 'carry errors occur for a vanishing fraction of operands',
  [ED + 'scalar.rs'], [('limb arithmetic', 'sc_mul_add, sc_mul, sc_add, sc_sub'), ('scalar type', 'Scalar::add, mul, sub, neg, inv, div, zero, one')],
  'The limbs are kept as exact polynomials over the input bytes in which carries are quotient atoms; the output value minus the expected polynomial must vanish modulo the order, and the final packing must show it lies below the order.', floor=34)
p('G05', 'Field arithmetic is exact modulo 2^255-19',
  'Adding, subtracting, negating, multiplying, squaring, inverting and exponentiating field elements gives the exact result modulo 2^255-19 for all limbs in the documented range, within the range the next operation needs, without overflow. '
  'Encoding gives the unique reduced value, decoding the low 255 bits, and the sign and zero tests read the encoding.',
  ['inputs'], 'all limb values within the documented bounds', 'carry errors occur for a vanishing fraction of operands',
  [ED + 'fe.rs'], [('limb arithmetic', 'fe_mul, fe_square, fe_square2, fe_add, fe_sub, fe_neg, fe_c_move'), ('codec', 'fe_from_bytes, fe_to_bytes'), ('chains', 'fe_invert, fe_pow22523')],
  'As for scalars; the addition chains are followed on monomials whose exponent must come out as the prescribed power.', floor=32)
p('G06', 'Point operations and scalar multiplication follow the group law',
  'Adding, subtracting, negating and doubling points, in every internal representation, follow the complete Edwards addition law with denominators that cannot vanish, and keep the coordinates in the range later formulas need. '
  'Multiplying a point, or the base point through its precomputed table, by any 32-byte scalar gives exactly that multiple; zero gives the neutral element, and scalars at or above 2^255 act modulo the group order.',
  ['inputs'], 'all points and all 32-byte scalars', 'tests multiply a few points; digit and carry errors hit single scalars',
  [ED + 'ge.rs', ED + 'point.rs', ED + 'constants.rs'], [('formulas', 'CompletedGroupElement::add, sub, mixed_add, ExtendedGroupElement::double'), ('tables', 'select_cached, select_pre_computed, BASE'), ('multiplication', 'ge_scalar_mult, ge_scalar_mult_base, Point::mul')],
  'Formulas are compared with the addition law as rational functions modulo the curve equation; all 32 x 17 table look-ups are evaluated against independently computed multiples; the digits of a symbolic scalar must recombine to it.', floor=196)
p('G07', 'Modular integers stay reduced, congruent and of fixed length',
  'For every modulus of at least 2, the results of adding, subtracting, multiplying, negating, inverting, dividing, exponentiating, drawing, and setting from integers or byte strings lie between 0 and the modulus minus 1, carry the modulus of the operand, and are congruent to the exact result. '
  'Encodings have the byte length of the modulus in the chosen byte order, and decoding accepts exactly strings of that length that encode a number below the modulus, leaving the value alone otherwise.',
  ['inputs'], 'all moduli, operands and byte strings', 'tests use two moduli and small operands',
  ['src/group/integer_field/integer.rs'], [('arithmetic', 'Int::add, sub, mul, neg, inv, div, exp, set_int64'), ('codec', 'Int::marshal_binary, unmarshal_binary, set_bytes, little_endian, big_endian')],
  'The modulus is a symbol and intervals are linear in it; remainders are atoms with a remembered congruence. The codec is decided for eight moduli (the group order, 2^255-19, 65537, 65536, 257, 256, 255, 2). Inverting a non-invertible value, square roots, Jacobi symbols and parsing from text are outside.', floor=171)
p('G08', 'Random and embedding points lie in the prime-order group',
  'Picking a random point gives the cofactor multiple of a decoded random string, never the neutral element; embedding data gives a point of the prime-order subgroup whose encoding holds the data length in the first byte and as much data as fits behind it, with all other bytes drawn anew on every attempt. '
  'Reading the data back returns exactly the announced bytes and refuses a length that cannot occur.',
  ['inputs'], 'all random strings and data of up to 40 bytes', 'an unlucky draw occurs with negligible probability in a test',
  [ED + 'point.rs'], [('picking', 'Point::pick, embed'), ('reading back', 'Point::data')],
  'Points are formal linear combinations of the decoded point; the outcomes of decoding and of the comparisons with the neutral element are branched over for up to three attempts; the length byte is split into its 256 values.', floor=9)
p('G09', 'Canonicality and small-order checks are exact',
  'The canonicality check of a point accepts exactly the 32-byte strings whose low 255 bits are below 2^255-19, that of a scalar exactly those below the group order, whatever the receiver. '
  'The small-order check holds exactly for the points whose order divides the cofactor.',
  ['inputs'], 'all byte strings of any length and all points', 'the boundary values are a handful among 2^256',
  [ED + 'point.rs', ED + 'scalar.rs'], [('canonical', 'Point::is_canonical, Scalar::is_canonical'), ('small order', 'Point::has_small_order')],
  'The strings are partitioned into boxes at the bytes of the boundary values (computed from the curve equation); every box must be decided by interval arithmetic.', floor=10)
p('G10', 'Scalar encodings and conversions are canonical',
  'Scalars encode as their 32-byte canonical little-endian representative, decode from exactly 32 bytes, and are set from 64-bit integers, byte strings and random streams to the canonical representative of the same value modulo the group order. '
  'Equality compares all 32 bytes. '
  'The writer and reader forms of scalars and points move exactly one encoding, report every failure of the stream or codec, and agree with the announced lengths.',
  ['inputs', 'fault_sequences'], 'all values, byte strings and stream failures', 'tests use small values',
  [ED + 'scalar.rs', 'src/group/internal/marshalling/marshal.rs'], [('conversions', 'Scalar::set_int64, set_bytes, pick, marshal_binary, unmarshal_binary'), ('stream forms', 'marshal_to, unmarshal_from, unmarshal_from_random')],
  'Byte strings of lengths 1, 16, 31, 32, 33 and 64 are followed; the stream forms branch over every failure.', floor=22)
