LN = 'Holds for every value of the symbolic inputs within the stated bounds (evidence lists them); trusts the executor (cross-checked by engine/selftest.py and by native replay), Z3, clang\'s lowering to IR and the model of GMP by its documented semantics. '
prop('C01', 'Prime field operations compute exact arithmetic modulo p',
 'Every operation on elements of a prime field (set, add, subtract, multiply, square, negate, double, halve, invert, divide, multiply by an integer, exponentiate) yields the element whose integer value is the mathematically exact result modulo p, whichever of the library\'s field implementations is used, also when the result overwrites an operand. The value read back is always the canonical residue in [0, p).',
 ['inputs', 'configurations'], 'all operand values including zero, all implementations, moduli of one to eight limbs, all operand aliasings',
 'Tests use a few random elements; carry propagation, zero flags and modular wrap-around fail only for rare operands (e.g. a double carry out of the top limb).',
 ['arith/naivefp.c', 'arith/fastfp.c', 'arith/fasterfp.c', 'arith/montfp.c', 'arith/fp.c'],
 [('limb arithmetic with conditional subtraction', 'arith/fasterfp.c, arith/montfp.c'), ('zero flag of an element', 'arith/montfp.c, arith/fasterfp.c')],
 LN + 'Montgomery multiplication with a full top limb at 128 bits is searched for counterexamples but not closed in the quick tier.')
prop('C10', 'The pairing is bilinear and non-degenerate for every parameter type',
 'For parameters of every supported type, e(aP, bQ) = e(P, Q)^(ab) for all scalars a and b including zero, some pair of points has a value of full order r, and the value depends only on the group elements and not on which coset representative stands for them. The co-Diffie-Hellman test accepts exactly the quadruples (g, g^x, h, h^±x).',
 ['inputs', 'configurations'], 'all pairs of multiples of a generator pair, all parameter types (A, A1, D, E, F, G, I), several parameter sets per type',
 'Tests evaluate a couple of random scalars on the shipped parameters; exceptional points inside the Miller loop and rare scalars are not reached.',
 ['ecc/a_param.c', 'ecc/d_param.c', 'ecc/e_param.c', 'ecc/f_param.c', 'ecc/g_param.c', 'ecc/eta_T_3.c', 'ecc/pairing.c', 'ecc/curve.c', 'arith/fieldquadratic.c', 'arith/poly.c', 'include/pbc_pairing.h'],
 [('Miller loop and final exponentiation', 'ecc/*_param.c'), ('early return for identities', 'include/pbc_pairing.h')],
 LN + 'Parameters are small (r up to 65); the same code runs at cryptographic sizes, whose limb arithmetic is C01\'s subject.')
prop('C11', 'A preprocessed pairing equals the ordinary pairing',
 'Preprocessing a point and then applying the preprocessed data to a second point yields exactly the pairing of the two points, for every pair of points including an identity as the second, any number of times, without reading or writing outside its storage.',
 ['inputs', 'configurations', 'histories'], 'all pairs of multiples of a generator pair, all parameter types, repeated application',
 'Tests preprocess one random point on the shipped parameters, whose orders have few set bits.',
 ['ecc/a_param.c', 'ecc/d_param.c', 'ecc/e_param.c', 'ecc/f_param.c', 'ecc/g_param.c', 'ecc/pairing.c', 'include/pbc_pairing.h'],
 [('stored line coefficients', 'pp_init/pp_apply in ecc/a_param.c, d_param.c, g_param.c')], LN + 'Small parameters as in C10.')
prop('C12', 'A product of pairings equals the product of the single pairings',
 'Computing a product of several pairings in one call gives the product of the individual pairings, for every choice of inputs, including inputs that contain identities.',
 ['inputs', 'configurations'], 'all pairs of multiples of a generator pair combined with fixed pairs, one and two factors, identities in any position',
 'Tests use random points only, on a few parameter sets.',
 ['ecc/a_param.c', 'ecc/d_param.c', 'ecc/g_param.c', 'ecc/pairing.c', 'include/pbc_pairing.h', 'ecc/curve.c'],
 [('simultaneous Miller loops', 'prod_pairings in ecc/a_param.c, d_param.c, g_param.c'), ('simultaneous point doubling and addition', 'ecc/curve.c')], LN + 'Small parameters as in C10.')
prop('C13', 'Every selectable pairing algorithm computes the same pairing',
 'Selecting a different algorithm for a pairing (projective or affine Miller loop, elliptic nets) changes only the speed: pairing values and preprocessed pairing values are the same for every pair of points.',
 ['inputs', 'configurations'], 'all pairs of multiples of a generator pair, all selectable methods of every type',
 'Tests exercise the alternative methods on random points of a few types and never those of others.',
 ['ecc/a_param.c', 'ecc/d_param.c', 'ecc/e_param.c', 'ecc/g_param.c'],
 [('method selection', 'option_set in ecc/*_param.c'), ('elliptic nets', 'ecc/a_param.c, ecc/e_param.c, ecc/g_param.c')], LN + 'Small parameters as in C10.')
prop('C08', 'Elliptic curve points obey the group law for all points, exceptional included',
 'Adding, subtracting, doubling, negating, comparing, and multiplying points by integers on an elliptic curve gives the point of the chord-and-tangent group law for every pair of points, including the identity, a point and itself, a point and its negative, and points of order two; results may overwrite operands. Batch doubling and batch addition of several points agree with the single operations for every combination.',
 ['inputs', 'configurations'], 'all pairs of points of several small curves (with and without a, with points of order two and three, prime and composite order), all operand aliasings',
 'Tests add random points; coincidences of points have negligible probability at cryptographic size.',
 ['ecc/curve.c', 'ecc/singular.c', 'include/pbc_field.h'],
 [('chord and tangent formulas with case analysis', 'curve_mul, curve_double, double_no_check in ecc/curve.c'), ('simultaneous inversion', 'multi_add, multi_double in ecc/curve.c')], LN + 'Curves over fields of at most 31 elements.')
prop('C09', 'Every exponentiation routine agrees with repeated multiplication',
 'Raising to a non-negative integer power or multiplying a group element by a non-negative integer gives the n-fold product, for every exponent size and value including zero and exponents beyond the group order, in every algebraic structure (prime fields, extension fields, curve groups, pairing target group). Simultaneous two- and three-base powers, powers with ring-element exponents, and powers from a preprocessed base give the same element, also when the result overwrites a base.',
 ['inputs', 'configurations', 'histories'], 'exponents of four sizes (10 to 492 bits) in families of up to 1024 values, all structures, all routines, aliasing',
 'Tests raise a few random elements to random powers smaller than the order.',
 ['arith/field.c', 'arith/montfp.c', 'arith/fasterfp.c', 'arith/naivefp.c', 'ecc/curve.c', 'ecc/pairing.c', 'include/pbc_field.h'],
 [('sliding window exponentiation', 'arith/field.c'), ('base table', 'element_build_base_table, element_pow_base_table in arith/field.c'), ('simultaneous exponentiation', 'element_pow2_mpz, element_pow3_mpz in arith/field.c')], LN + 'Bases of small order (up to 76).')
prop('C06', 'Extension fields compute exact polynomial arithmetic modulo their polynomial',
 'In every extension field (quadratic extensions by a square root of -1 or of any nonresidue, extensions of any degree by an irreducible polynomial, and towers of these) the operations add, subtract, negate, double, multiply, square, multiply by an integer or a base field element, invert, compare and test for zero and one give the element that polynomial arithmetic modulo the defining polynomial over the base field gives, also when the result overwrites an operand. Elements keep canonical coordinates.',
 ['inputs', 'configurations'], 'all coordinate values over a 160-bit prime for ring operations, all elements of small fields for inversion, eleven kinds of extensions and towers, all aliasings',
 'Tests use random elements of a few extensions; Karatsuba and reduction cross terms that vanish, zero coordinates and aliasing are hit by chance only.',
 ['arith/fieldquadratic.c', 'arith/poly.c', 'arith/fp.c', 'arith/field.c'],
 [('special multiplication for degrees 2, 3 and 6', 'arith/poly.c'), ('Karatsuba formulas for quadratic extensions', 'arith/fieldquadratic.c')], LN + 'Inversion is decided over all elements of fields of up to a few hundred elements.')
prop('C03', 'Byte encodings of elements round-trip exactly',
 'Writing an element to bytes and reading it back gives the same element and the announced number of bytes, in prime fields, extension fields, curve groups (the identity included) and all groups of a pairing; writing uses exactly the announced length and touches nothing beyond it. Reading arbitrary bytes of the right length as a field element gives a well-formed element, congruent to the big-endian value the bytes represent.',
 ['inputs', 'configurations'], 'all element values of prime fields of one to eight limbs, all coordinates of extensions, all points of small curves, all byte strings read as field elements',
 'Tests encode a few random elements of the shipped curves; leading zero bytes, values not below the modulus and the identity do not come up.',
 ['arith/naivefp.c', 'arith/montfp.c', 'arith/fasterfp.c', 'arith/fastfp.c', 'arith/fieldquadratic.c', 'arith/poly.c', 'ecc/curve.c', 'ecc/pairing.c', 'include/pbc_field.h'],
 [('fixed-length big-endian integers', 'to_bytes/from_bytes of arith/*fp.c'), ('pair of coordinates', 'curve_to_bytes, curve_from_bytes in ecc/curve.c')], LN + 'Curves over fields of at most 31 elements; parameters of small order.')
prop('C04', 'Compressed and x-only point encodings recover the right point',
 'For every point of a curve except the identity, the compressed encoding decodes to exactly that point, and the x-only encoding decodes to that point or its negative, with the announced number of bytes. Decoding a compressed or x-only encoding whose x-coordinate belongs to no point of the curve never yields a point off the curve: the result is the identity.',
 ['inputs', 'configurations'], 'all points and all x-coordinates of several small curves, in two field implementations, and all points of small pairing groups over prime and extension fields',
 'Tests decompress random points only and never feed an x-coordinate without a point.',
 ['ecc/curve.c', 'include/pbc_curve.h', 'arith/fieldquadratic.c', 'arith/poly.c', 'arith/field.c'],
 [('point from x-coordinate and sign bit', 'element_to_bytes_compressed, element_from_bytes_compressed, element_from_bytes_x_only, point_from_x in ecc/curve.c'), ('sign of an element', 'sign in arith/*.c')], LN + 'Curves over fields of at most 31 elements.')
prop('C15', 'Hashing to an element is deterministic, well-formed and in the right group',
 'Mapping a byte string to an element depends only on the bytes and the structure: every prime field implementation gives the same element (the documented expansion of the bytes, halved until below the modulus), and repeating the call, or setting up the same parameters again with a different random source, gives the same element. The result is a canonical field element or a point on the curve, in the subgroup of order r for the first and the target group of a pairing and for the second where it is a subgroup of that order; hashes to the target group are not all one element.',
 ['inputs', 'configurations', 'histories'], 'byte strings of several lengths with all byte values symbolic (fields) or one varying byte (groups), all parameter types',
 'Tests hash a couple of fixed strings.',
 ['arith/fp.c', 'arith/field.c', 'arith/naivefp.c', 'arith/montfp.c', 'arith/fasterfp.c', 'ecc/curve.c', 'arith/fieldquadratic.c', 'arith/poly.c'],
 [('bytes to integers below a limit', 'pbc_mpz_from_hash in arith/field.c'), ('try successive x-coordinates', 'curve_from_hash in ecc/curve.c')], LN + 'On a few tiny curves the search for an x-coordinate does not terminate for some strings; these are outside the bounds.')
prop('C16', 'Random elements come from the random source, in range and in the group',
 'A random element of a prime field is exactly the number below the modulus its random source produced; a random point lies on the curve, and random elements of the first and the target group of a pairing lie in the subgroup of order r. A file of random bytes yields the first value below the limit, and a source that runs dry yields no made-up value.',
 ['inputs', 'configurations', 'fault_sequences'], 'all outputs of the random source, all file contents of several lengths including short reads, all parameter types, all field implementations',
 'Tests draw random elements and cannot see the source; short reads never happen in them.',
 ['arith/random.c', 'arith/naivefp.c', 'arith/montfp.c', 'arith/fasterfp.c', 'ecc/curve.c', 'include/pbc_random.h'],
 [('rejection sampling from a file', 'arith/random.c'), ('cofactor multiplication', 'curve_random_solvefory in ecc/curve.c')], LN + 'Group elements: the first draw of the source is arbitrary, later ones come from a fixed sequence.')
prop('C17', 'Discrete logarithms found are correct',
 'For every h in the group generated by g, of prime or composite order, brute force and Pollard rho return an x with g^x = h.',
 ['inputs', 'configurations'], 'all h in groups of orders 5 to 33 (points and pairing values), several random walks',
 'Tests solve one instance per method.',
 ['arith/dlog.c', 'misc/darray.c'], [('snapshots of a random walk', 'arith/dlog.c')], LN + 'Orders up to 33, three fixed random sequences.')
prop('C18', 'Quadratic residuosity and square roots are exact in every field',
 'In every finite field of odd characteristic, an element is reported a square exactly when it has a square root, and the square root computed for a square squares to it; the root may overwrite the operand. In curve groups, an element is a square exactly when it is twice a point.',
 ['inputs', 'configurations'], 'all elements of small fields: prime fields of all implementations with p - 1 of varying 2-adicity, quadratic and polynomial extensions and towers; all points of curves of odd and even order',
 'Tests take square roots of a few random squares; zero, base field elements inside an extension and fields of high 2-adicity are not covered.',
 ['arith/field.c', 'arith/fieldquadratic.c', 'arith/poly.c', 'arith/montfp.c', 'arith/fasterfp.c', 'arith/naivefp.c', 'ecc/curve.c'],
 [('Tonelli-Shanks', 'element_tonelli in arith/field.c'), ('square root by halving the norm', 'fq_sqrt, fi_sqrt in arith/fieldquadratic.c'), ('Cantor-Zassenhaus root finding', 'polymod_sqrt in arith/poly.c')], LN + 'Fields of up to a few hundred elements.')
prop('C05', 'Text conversions of elements are exact and never overrun a buffer',
 'Printing an element gives the documented text (decimal integers, bracketed coordinates, O for the identity), returns its full length and never writes beyond the given buffer size, which may be any size including zero; formatted output with embedded elements obeys the same rules. Reading the printed text gives the same element back, and reading any other text returns how many characters were consumed, takes exactly the digits of the requested base, and never yields an element outside its field or a point off its curve.',
 ['inputs', 'configurations'], 'all element values of small prime fields in all implementations, coordinates of six kinds of extensions, all points of small curves, every character at a position of a text, bases 10, 16 and 36, all buffer sizes, ten formats',
 'Tests print and read back one or two elements in base 10 with ample buffers.',
 ['arith/naivefp.c', 'arith/fastfp.c', 'arith/fasterfp.c', 'arith/montfp.c', 'arith/fieldquadratic.c', 'arith/poly.c', 'ecc/curve.c', 'arith/field.c', 'misc/extend_printf.c', 'arith/fp.c'],
 [('digit scanner', 'pbc_mpz_set_str in arith/field.c'), ('clipped concatenation of partial texts', 'snprint of arith/fieldquadratic.c, arith/poly.c, ecc/curve.c'), ('format scanner', 'element_vfprintf, element_vsnprintf in arith/field.c')], LN + 'Element texts of up to about 40 characters; one free character at a time.')
prop('C07', 'Polynomial rings, irreducibility, root finding and trial division are exact',
 'Polynomials over a prime field are added, subtracted, multiplied, negated, scaled, encoded and compared exactly, with the degree always that of the highest nonzero coefficient, also when the result overwrites an operand. The irreducibility test accepts exactly the irreducible polynomials, root finding finds a root exactly when one exists, and trial division reports prime factors with their multiplicities whose product is the number.',
 ['inputs', 'configurations'], 'all polynomials with up to four coefficients per operand over fields of 3, 5 and 7 elements; all monic polynomials of degree up to 5 (irreducibility) and 4 (roots); all numbers of three ranges for trial division, with and without limit and early stop',
 'Tests factor or multiply single polynomials; cancelling leading coefficients and repeated or missing roots do not come up.',
 ['arith/poly.c', 'arith/field.c', 'misc/utils.c', 'arith/dlog.c', 'ecc/param.c'],
 [('leading coefficient normalisation', 'poly_remove_leading_zeroes in arith/poly.c'), ('distinct-degree gcd', 'poly_is_irred, poly_findroot in arith/poly.c')], LN + 'Degrees and fields are small.')
prop('C14', 'Parameter text is accepted exactly when complete, and printed faithfully',
 'Pairing parameters given as text or as a length-bounded buffer are accepted exactly when they name a supported type and give every parameter of that type as a well-formed number, whatever the order, white space, comments and additional entries, and a later entry of the same name replaces an earlier one; malformed input is reported by the return value, and nothing outside the buffer is read. Printing accepted parameters gives text with exactly the values read, which is accepted again and prints the same.',
 ['inputs', 'configurations'], 'parameter texts of all seven types with an arbitrary character at any position, and buffers cut off at any position',
 'Tests only load the shipped well-formed parameter files.',
 ['ecc/param.c', 'misc/symtab.c', 'ecc/a_param.c', 'ecc/d_param.c', 'ecc/e_param.c', 'ecc/f_param.c', 'ecc/g_param.c', 'ecc/eta_T_3.c', 'misc/memory.c'],
 [('tokenizer with end of buffer', 'read_word in ecc/param.c'), ('symbol table', 'misc/symtab.c'), ('lookup of required entries', 'lookup_mpz, lookup_int in ecc/param.c')], LN + 'One free character per text; texts of up to 122 characters.')
prop('C20', 'The ring of integers and integer lists compute exactly and round-trip',
 'Elements of the ring of integers add, subtract, multiply, negate, double, halve (when even), compare, divide (when divisible), and are recognised as squares exactly as integers do, for either sign and any size, also when the result overwrites an operand, and their byte encoding reads back to the same integer without being modified. Lists of integers (as used for polynomials and coordinates typed by a user) combine componentwise or as polynomials in the same exact way.',
 ['inputs'], 'all integers of up to 130 bits with either sign for arithmetic, all integers of thirteen bit lengths up to 160 for encodings, lists of up to three 40-bit integers',
 'Tests do not exercise these rings with negative or multi-limb values.',
 ['arith/z.c', 'arith/multiz.c'],
 [('integers with sign', 'arith/z.c'), ('trees of integers', 'arith/multiz.c')], LN)
prop('C22', 'Ternary fields and the curve over them compute exactly',
 'In the fields of characteristic three (polynomials modulo a trinomial, of any number of machine words, and the extensions of degree two, three and six over them) add, subtract, negate, double, halve, multiply, square, cube, invert, multiply by an integer, take square roots, compare and convert to and from bytes give the exact result, also when the result overwrites an operand. Points of the supersingular curve over such a field add, double, negate, compare and are multiplied by integers (of either sign) by the group law for every pair of points, the identity, equal, opposite and order-two points included.',
 ['inputs', 'configurations'], 'all elements for degrees 3, 5 and 7; all coefficient values at positions around word boundaries for degrees 63, 64, 97, 127 and 128; extensions with all values of a pair of coordinates; all pairs of points of cyclic groups of order 14 and 31',
 'Tests run a few random elements of one field; coefficients at word boundaries, degrees that fill a word and coincidences of points do not come up.',
 ['arith/ternary_extension_field.c', 'ecc/eta_T_3.c'],
 [('two bit planes per element', 'arith/ternary_extension_field.c'), ('inversion with a variable word length', 'gf3m_invert in arith/ternary_extension_field.c'), ('chord and tangent formulas', 'point_add in ecc/eta_T_3.c')], LN)
prop('C23', 'Curve construction and the complex-multiplication search are exact',
 'A curve built from a j-invariant other than 0 and 1728 has that j-invariant, its quadratic twist has the complementary number of points, and the number of points over an extension computed from the trace is the true one. Every parameter set the search for MNT and Freeman curves reports satisfies its defining relations: the field size and the subgroup order are prime, the order divides the number of points, the discriminant matches the trace, the embedding degree is the announced one, the order is within the requested bit limit, and the search returns what the caller asked it to stop with.',
 ['inputs', 'configurations'], 'all such j-invariants and all coefficients over small prime fields, all traces of fields of several sizes with extension degrees up to 6, discriminants of a set of ranges with several bit limits',
 'Tests never check what the search returns, nor twists, nor the limit on the size.',
 ['ecc/curve.c', 'ecc/mnt.c', 'include/pbc_mnt.h', 'include/pbc_curve.h', 'arith/field.c'],
 [('curve equations from j', 'field_init_curve_j, field_init_curve_with_map, twist in ecc/curve.c'), ('Pell equation', 'ecc/mnt.c'), ('trace recurrence', 'pbc_mpz_trace_n in ecc/curve.c')], LN + 'Discriminants are enumerated one path each; field sizes of curves up to 31.')
prop('C24', 'Generated pairing parameters are valid and usable',
 'Whatever the random source yields, generated parameters of types A, A1, E and F satisfy the relations their type documents (prime field size, prime group order of the requested length, cofactor and exponents that match), are accepted as parameters, and give a non-degenerate pairing with generators of the announced order.',
 ['inputs', 'configurations'], 'the first outputs of the random source, several lengths from 4 to 12 bits',
 'Tests load shipped parameters and never generate any.',
 ['ecc/a_param.c', 'ecc/e_param.c', 'ecc/f_param.c', 'arith/random.c'],
 [('Solinas prime search', 'pbc_param_init_a_gen, pbc_param_init_e_gen'), ('BN curve search', 'pbc_param_init_f_gen')], LN + 'Lengths are tiny; generation of types D and G uses floating point arithmetic and is outside.')
prop('C19', 'The groups of a pairing and its exponent ring obey their laws',
 'In both source groups, the target group and the exponent ring of a pairing of any type, adding, subtracting, negating, doubling, multiplying, dividing, inverting, squaring, copying, comparing, and multiplying or raising by integers of either sign and by elements of the exponent ring act as in a cyclic group whose order is the announced one, for every pair of elements, the identity included. In groups the additive and the multiplicative notation denote the same operation, results may overwrite operands, and an element of the target group printed as text reads back as the same element.',
 ['inputs', 'configurations'], 'all pairs of multiples of a generator in all groups of all parameter types but I, all scalars modulo r and machine integers from -20 to 20',
 'Tests combine a few random elements in a few of the operations; small and negative integers, identities and overwritten operands do not come up in all groups.',
 ['ecc/pairing.c', 'ecc/curve.c', 'arith/field.c', 'include/pbc_field.h', 'include/pbc_pairing.h'],
 [('roots of unity as a group', 'mulg_* in ecc/pairing.c'), ('points as a group', 'ecc/curve.c'), ('generic operations', 'generic_* in arith/field.c')], LN + 'Small parameters as in C10; in the second group of types D, F and G equality is that of cosets. Halving in groups is outside.')
