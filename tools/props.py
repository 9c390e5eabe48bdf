I = "src/interval_arithmetic.rs"
P = "src/polynomial.rs"
A = "src/algebraic_numbers.rs"
def p(id, title, statement, text, why, files, mech, **k):
    return dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, **k)

PROPS = [
p("I01", "Interval construction, conversion and union never lose a member",
  "Building a dyadic interval from ratios, integers or bounds yields an interval that contains the given values and is the tightest one at the requested precision, and reversed bounds are refused. Reading its bounds, changing its precision, floor, ceil and union return exactly the mathematically right bounds: no member of the input set is ever lost and nothing beyond outward rounding is added. Every setter leaves a well-formed interval with the bound it was asked for.",
  "every rational or integer bound pair and every pair of precisions", "The tests use a few literal intervals; outward rounding errors show up only for particular signs and remainders.",
  [I], [("outward rounding of both bounds", I + ": convert_log2_denom_floor / convert_log2_denom_ceil"), ("set union as min/max of bounds", I + ": interval_union")]),
p("I02", "Interval addition, subtraction and negation are exact",
  "Adding, subtracting or negating dyadic intervals gives exactly the set of all sums, differences or negations of their members, at the finer of the two precisions. Adding or subtracting an integer is exact too, and a ratio is enclosed as tightly as the interval's precision allows. All owned, borrowed and assigning forms agree.",
  "every pair of intervals (any bounds, precisions up to the bound) and every integer or ratio operand", "Tests sample one operand pair per form.",
  [I], [("operands brought to a common denominator", I + ": do_op_assign, do_add_assign, do_sub_assign")]),
p("I03", "Interval multiplication, squaring and absolute value enclose all results",
  "The product of two intervals contains the product of every pair of members, and the square and absolute value contain those of every member, with each bound rounded outwards by less than one unit of the result's precision. Products with integers and ratios obey the same rule. All operator forms agree.",
  "every pair of intervals of any sign pattern, every scalar", "Sign-case analysis and rounding directions depend on all four bound signs and remainders.",
  [I], [("minimum and maximum over the four bound products, rounded outwards", I + ": do_mul_assign, square_assign, abs_assign")]),
p("I04", "Interval reciprocal and division enclose all results or refuse zero",
  "The reciprocal of an interval and the quotient of two intervals contain the result for every choice of members, rounded outwards within the documented precision. An interval that contains zero is refused as divisor: checked forms return nothing and leave the operand usable, plain forms panic. All operator forms, including exact division and scalars, agree.",
  "every interval and every divisor interval or scalar", "Boundary cases (a bound exactly zero, negative divisors) are not sampled together with rounding remainders.",
  [I], [("reciprocal by outward-rounded division of bounds", I + ": checked_recip, do_checked_div_assign")]),
p("I05", "Interval square root and AGM enclose the true values",
  "The square root of an interval with a non-negative lower bound is the tightest dyadic enclosure of the square roots of its members, and a negative lower bound is refused. The arithmetic-geometric mean of two non-negative intervals encloses the true mean, and the cached square root of two encloses it at every requested precision in any request order.",
  "every interval within the precision bound; every history of precision requests", "Rounding of inexact roots and cache reuse depend on values and request order.",
  [I], [("integer square root with floor / ceil", I + ": do_sqrt"), ("precision cache", I + ": ConstantCache")], over=["inputs", "histories"]),
p("I06", "Interval powers enclose every power of every member",
  "Raising an interval to an integer power yields an interval that contains that power of every member; exponent zero gives one, exponent one the interval itself, and a negative exponent is refused exactly when the interval contains zero.",
  "every interval and exponent within the bounds", "Odd and even powers of intervals across zero need separate rounding directions.",
  [I], [("repeated interval multiplication with parity cases", I + ": Pow for DyadicFractionInterval")]),
p("I07", "Interval logarithm and exponential enclose the true values",
  "The logarithm and exponential of an interval enclose the true value for every member, and the cached logarithm of two encloses it at every requested precision, never panicking for inputs in the domain. The logarithm refuses exactly the intervals that reach zero or below.",
  "every point and interval of the listed domain, decided against rational enclosures of the true series", "A series cut one term too early errs only for particular inputs and precisions.",
  [I], [("series with explicit error term", I + ": log_core, exp"), ("cached constant", I + ": natural_log_of_2")],
  note="Inputs of the transcendental functions are split into single values by the solver; the claim is for the listed finite domain."),
p("I08", "Cached constants do not depend on earlier or concurrent requests",
  "The square root of two and the natural logarithm of two, asked for at a given precision, come back with exactly that precision, enclose the constant and are as narrow as a fresh computation would make them, whatever precisions were asked for before in the process and whatever other callers ask for while one of them is still computing. No history or interleaving of requests loses precision, returns another constant's bounds or panics.",
  "every constant, every history of requests and every interleaving of callers within the bounds", "A cache entry of the wrong precision is served only after a particular order of requests, or when two callers compute at once; each test asks in a fresh order of its own.",
  [I], [("precision cache filled without holding the lock", I + ": ConstantCache::get, read_cache, fill_cache, write_cache")], over=["inputs", "histories", "schedules"],
  note="A guarded hook gives the harness a cache of its own, so that the constant is symbolic and other callers can run at the point where one computes; the stand-in for lazy_static gives every path fresh statics."),
p("P01", "Polynomial construction, normal form, access and norms",
  "However a polynomial is built, it represents exactly the given coefficients, drops zero leading terms, and two polynomials are equal precisely when they have the same coefficients, whatever common divisor they were built with. Degree, coefficient access, iteration in both directions, conversion back to coefficients and the maximum and Manhattan norms agree with those coefficients.",
  "every coefficient list within the length bound (integers unbounded), over integers, rationals, modular integers and nested polynomials", "Normal forms with shared divisors break only for particular gcds.",
  [P], [("canonical common divisor and trimmed elements", P + ": normalize, reduce_divisor")]),
p("P02", "Polynomial addition, subtraction and negation are exact",
  "Adding, subtracting or negating polynomials gives the coefficient-wise result in normal form, over integers, rationals, modular integers and nested polynomials, also when leading terms cancel or lengths differ. Adding or subtracting a single coefficient changes only the constant term. All owned, borrowed, assigning and checked forms agree.",
  "every pair of polynomials within the length bound", "Cancellation and common divisors are combinations the tests do not sample.",
  [P, "src/polynomial/add_sub.rs"], [("common denominator multipliers", P + ": add_sub_assign, add_sub_assign_single")]),
p("P03", "Polynomial multiplication and powers are exact",
  "Multiplying polynomials, or a polynomial by a coefficient, gives the exact product in normal form over integers, rationals, modular integers and nested polynomials. Raising to a non-negative power equals repeated multiplication. All operator forms agree.",
  "every pair of polynomials and every exponent within the bounds", "Tests fix the operands.",
  [P], [("schoolbook product", P + ": Mul for Polynomial"), ("square and multiply", P + ": checked_pow")]),
p("P04", "Polynomial evaluation and derivative are exact",
  "Evaluating a polynomial at a point gives the exact sum of its terms, over integers, rationals and modular integers, and evaluating at an interval encloses the value at every member. The derivative multiplies each coefficient by its power and shifts it down, in normal form, also where a multiple vanishes modulo the characteristic.",
  "every polynomial within the length bound and every point", "Tests fix polynomial and point.",
  [P], [("Horner evaluation", P + ": eval_generic"), ("term-wise derivative", P + ": convert_to_derivative")]),
p("P05", "Polynomial division returns the unique quotient and remainder",
  "Division with remainder over a field satisfies dividend = quotient * divisor + remainder with a remainder of lower degree; pseudo-division satisfies the same with the power of the leading coefficient it reports; exact division succeeds precisely when the remainder is zero and a refusal leaves the operand unchanged. Division by zero is refused. A modular power equals the remainder of the plain power for every exponent.",
  "every dividend and divisor within the bounds", "The tests divide a handful of fixed polynomials and never check refusals.",
  [P], [("element pseudo-division loop", P + ": element_pseudo_div_rem"), ("exactness test", P + ": checked_exact_div")]),
p("P06", "Polynomial gcd, extended gcd and lcm",
  "The greatest common divisor of two polynomials over the rationals or a prime field divides both and is divisible by every common factor; the extended form returns cofactors with gcd = x * lhs + y * rhs; the least common multiple is a multiple of both and, with the gcd, multiplies to the product up to a unit. Zero operands are handled.",
  "every pair of polynomials within the bounds", "Degenerate remainder sequences (degree gaps, zero operands, contents) are rare inputs.",
  [P], [("subresultant remainder sequence", P + ": subresultant_gcd"), ("extended Euclid", P + ": extended_gcd")]),
p("P07", "Resultant equals the Sylvester determinant",
  "The resultant of two polynomials equals the determinant of their Sylvester matrix, sign included, over integers, rationals and polynomial coefficients, and is zero exactly when they share a root or one of them is zero. The subresultant gcd is an associate of the true gcd.",
  "every pair of polynomials within the degree bounds", "Sign and power corrections matter only for particular degree drops.",
  [P], [("subresultant recursion with exact division", P + ": recursive_resultant, nonzero_resultant")]),
p("P08", "Content, primitive part, monic and reduced forms",
  "A polynomial equals its content times its primitive part; the content carries the sign of the leading coefficient, and the primitive part has integer coefficients without a common factor and a positive leading one. The reduced form of a polynomial over a field is monic, over the integers it is the primitive part, and dividing by the reducing factor gives it. Zero has content and reducing factor zero and stays zero in every form.",
  "every polynomial within the bounds over integers, rationals and prime fields", "Sign and denominator corrections matter only for particular coefficient gcds.",
  [P], [("content as signed gcd of the coefficients", P + ": nonzero_content, primitive_part"), ("reducing factor per coefficient kind", P + ": PolynomialReducingFactorSupported")]),
p("P09", "Sturm sequences count distinct real roots",
  "For a polynomial over the rationals or integers, the difference in sign changes of its Sturm sequence between two points that are not roots is exactly the number of distinct real roots between them, with multiple roots counted once. The primitive Sturm sequence has the same signs everywhere and primitive integer members.",
  "every polynomial built from the listed factors and every half-integer end point; sequence structure for symbolic coefficients", "A wrong sign in a remainder shows only for particular degree patterns.",
  [P], [("negated remainder sequence", P + ": into_generic_sturm_sequence")]),
p("P10", "Square-free factorization separates multiplicities",
  "Square-free factorization of a rational polynomial returns the constant factor and, for each multiplicity, the primitive square-free product of the factors of exactly that multiplicity, so that the constant times the product of powers is the input. The square-free test answers yes exactly for polynomials without a repeated factor, over the rationals and over prime fields, where derivatives may vanish.",
  "every product of the listed factors and every polynomial within the coefficient bounds", "Which gcd steps happen depends on the multiplicity pattern.",
  [P], [("Yun's algorithm", P + ": square_free_factorization_using_yuns_algorithm"), ("gcd with the derivative", P + ": is_square_free")]),
p("P11", "Factoring over the integers is complete",
  "Factoring an integer polynomial returns a constant, which is its content with the sign of the leading coefficient, and distinct irreducible primitive factors of positive degree with their multiplicities, whose product is the input. The factors found do not depend on the random numbers drawn, and zero factors into the constant zero.",
  "every product of the listed irreducible factors, every polynomial within the degree and coefficient bounds, every outcome of the first random draws", "Which modular splittings, liftings and recombinations happen depends on the polynomial and on chance.",
  ["src/polynomial/factorization_over_integers.rs", "src/polynomial/distinct_degree_factorization.rs", "src/polynomial/same_degree_factorization.rs"],
  [("modular factorization, Hensel lifting and subset recombination", "src/polynomial/factorization_over_integers.rs: factor_square_free_polynomial_with_rng, hensel_lift_step"), ("random splitting", "src/polynomial/same_degree_factorization.rs: same_degree_factorization")], over=["inputs", "schedules"],
  note="Most inputs are split into single polynomials by the solver (the code converts coefficients to machine integers); the claim is for the listed finite domain plus symbolic roots and contents."),
p("R01", "Rational real algebraic numbers behave exactly like rationals",
  "A real algebraic number built from any integer or ratio type has exactly that value, in lowest terms with an interval around it, and converts back to it. On rational values every operation (sum, difference, product, quotient, remainder, reciprocal, integer power, negation, absolute value, comparison, floor, ceil, trunc, fract, binary logarithm) gives the exact rational result, with fract always self minus floor, and division by zero is refused.",
  "every numerator (unbounded) with denominators within the bound", "Sign and lowest-term corrections matter only for particular numerators; tests sample a few.",
  [A], [("degree-one polynomials and the rational shortcuts", A + ": From, to_rational, add_assign, mul_assign, checked_recip, checked_pow_impl")]),
p("R02", "Sign, rounding and binary logarithm of real algebraic numbers",
  "The sign, absolute value, floor, ceil, trunc, fract and the floor and ceil of the binary logarithm of a real algebraic number are those of its true value, whatever isolating interval represents it, even a wide one that contains zero or other integers or touches other bounds. Results are well-formed numbers, and logarithms of values not above zero are refused.",
  "each listed number with every isolating interval within the bounds (bounds symbolic)", "How often the interval must shrink and which Sturm counts are used depends on the interval, which tests fix.",
  [A], [("interval shrinking until the answer is unique", A + ": IntervalShrinker::shrink, into_integer_floor, do_checked_floor_ceil_log2"), ("Sturm counts around zero", A + ": cmp_with_zero")],
  note="Numbers come from a list of 26 (degree up to 4); their intervals vary symbolically."),
p("R03", "Sums, differences and negations of real algebraic numbers are exact",
  "The sum, difference and negation of real algebraic numbers have exactly the true value: a primitive irreducible polynomial with positive leading coefficient that has the value as a root, and an interval with exactly one root in it. This holds for sums that become rational, for conjugates of one another, and whatever isolating intervals the operands have. All owned, borrowed and assigning forms agree.",
  "every pair of the listed numbers with every isolating interval within the bounds", "Which root of the resultant is selected depends on intervals and near-coincidences the tests do not sample.",
  [A], [("root selection among the factors of a resultant", A + ": RootSelector::select_root, add_assign")],
  note="Numbers come from a list of 26 (degree up to 4), intervals are chosen by the solver within the bounds."),
p("R04", "Products, quotients and remainders of real algebraic numbers are exact",
  "The product, reciprocal, quotient and remainder of real algebraic numbers have exactly the true value, as a well-formed number with an irreducible primitive polynomial and an isolating interval. The remainder is self minus trunc(self / divisor) times the divisor, and zero exactly for integer multiples. Division by zero is refused by the checked forms, leaving the operand, and panics in the plain ones. All forms agree.",
  "every pair of the listed numbers with every isolating interval within the bounds", "Intervals that contain zero or several roots of the reversed polynomial need particular operands.",
  [A], [("root selection among the factors of a resultant", A + ": RootSelector::select_root, mul_assign"), ("zero removed from the interval before inversion", A + ": remove_zero_from_interval, checked_recip")],
  note="Numbers come from a list of 26 (degree up to 4), intervals are chosen by the solver within the bounds."),
p("R05", "Rational powers of real algebraic numbers",
  "Raising a real algebraic number to a rational exponent gives exactly the true real power as a well-formed number: the positive root for a positive base, the signed power for a negative base and an integer exponent. Zero to a positive exponent is zero, and the powers with no real value or no definite one (zero to an exponent not above zero, a negative base with a non-integer exponent) are refused. Every exponent type and the plain and checked forms agree.",
  "every listed base and exponent within the bounds with every isolating interval; exponents of any size for bases 0, 1 and -1", "Selecting the right root among conjugates depends on base, exponent and interval together.",
  [A], [("root selection with a logarithm / exponential enclosure", A + ": checked_pow_impl, PowRootSelector")],
  note="Numbers come from a list of 26 (degree up to 4), intervals are chosen by the solver within the bounds."),
p("R06", "Real algebraic numbers are totally ordered by value",
  "Comparing two real algebraic numbers gives the order of their true values, and equality holds exactly for equal values whatever polynomials' roots and intervals they were given as. All comparison operators, sorting and the positive difference agree with it, for conjugates and for numbers that agree to many digits alike.",
  "every pair of the listed numbers and close approximations with every isolating interval within the bounds", "Near-equal values need more interval shrinking than the tests exercise.",
  [A], [("sign of the difference", A + ": Ord::cmp, PartialEq::eq, abs_sub")],
  note="Numbers come from a list of 26 (degree up to 4) and continued-fraction convergents, intervals are chosen by the solver within the bounds."),
p("M01", "Modular integers are always reduced; sums, differences, products exact",
  "A modular integer holds a value from zero up to, not including, its modulus, congruent to the number it was made from, for every integer type it is made from or stored in. Sums, differences, negations and products are the residues of the true results, with no overflow in any primitive type, and all owned, borrowed, assigning and checked forms agree. Operands with different moduli are refused: the checked forms give nothing and the plain ones panic. Static moduli report their value, prime base and exponent.",
  "every big-integer value for the listed moduli, every modulus for sums and differences, every value and modulus of the primitive types up to 64 bits", "Overflow and boundary residues appear only for operands near the ends of a type.",
  ["src/mod_int.rs"], [("widened machine arithmetic", "src/mod_int.rs: impl_int_modulus"), ("modulus comparison before each operation", "src/mod_int.rs: has_matching_moduli")]),
p("M02", "Modular inverses, division and powers",
  "A modular integer has an inverse exactly when its value and the modulus have no common factor; the inverse is reduced and multiplies with it to one. Division multiplies by the inverse, is refused exactly when there is none (checked forms give nothing, plain ones panic) and a refusal leaves the operand unchanged. A power equals repeated multiplication, reduced, for every exponent including zero and for the modulus one.",
  "every operand value with the moduli within the bound; every exponent within the bound", "Which moduli share a factor with a value, and exponents of zero, are corner cases.",
  ["src/mod_int.rs", "src/traits.rs"], [("extended Euclid", "src/mod_int.rs: checked_inverse"), ("square and multiply", "src/mod_int.rs: pow_modular_reduce")]),
p("T01", "Greatest common divisors, least common multiples and Bezout coefficients",
  "For integers of every type and for rationals, the gcd divides both operands and is a multiple of every common divisor, the lcm is a multiple of both, and their product is the product of the operands up to sign. The extended form returns coefficients (integers for rationals) with gcd = x * a + y * b. Zero operands are handled and the single and combined forms agree.",
  "every pair of operands within the bounds", "Zeros, signs and non-coprime denominators are combinations the tests do not sample.",
  ["src/traits.rs"], [("Euclid on cross-multiplied numerators", "src/traits.rs: GCD for Ratio, ExtendedGCD for Ratio")]),
p("T02", "Binary logarithms, trailing zeros and exact division of integers",
  "floor_log2 and ceil_log2 of a positive integer are the exact rounded binary logarithms, and none is given at or below zero; trailing_zeros is the exact power of two in a nonzero integer of either sign. Exact division gives the quotient precisely when the divisor is not zero, nothing remains and the result fits the type; otherwise the checked forms refuse and leave the operand, and the plain ones panic. This holds for big integers, rationals and every primitive type at all values.",
  "every big integer within the bit bound, every value of the primitive types, every dividend", "Powers of two, minimum values and word boundaries are single inputs among very many.",
  ["src/traits.rs"], [("bit counts", "src/traits.rs: impl_prim_trailing_zeros_and_log2, CeilLog2 for BigInt"), ("binary search of the shift", "src/traits.rs: TrailingZeros for BigUint"), ("remainder test", "src/traits.rs: impl_exact_div_for_int")]),
p("U01", "Prime tests, prime neighbours and signs",
  "is_prime_u32 answers yes exactly for primes; the next and previous prime functions return the nearest prime above or below, and none exactly when no such prime exists in the type, also for 0, 1, negative values and at the top of the range. The sign of a number is positive, negative or, for zero, none; sign operators follow their Boolean meaning with negative below positive.",
  "every value below the bound, every square and neighbouring product of 16-bit primes, listed large values; signs of every integer", "A missing table entry shows only for squares and products of that prime.",
  ["src/util.rs"], [("trial division by the table of 16-bit primes", "src/util.rs: is_prime_u32, PRIMES_THAT_FIT_IN_U16"), ("odd steps", "src/util.rs: next_prime_u32, prev_prime_u32")],
  note="Machine integers: bit-precise for values below the bound, split into listed values above."),
p("P12", "Coefficient rings behave as rings with exact common divisors",
  "Through PolynomialCoefficient, integers, rationals, residues and polynomials agree with their arithmetic: zero and one tests, setters and constructors give the ring's zero and one; negation, multiples by a machine integer and powers of element, divisor and coefficient are exact; splitting coefficients into elements over a common divisor keeps every value with the least positive divisor, reducing it leaves nothing in common, and every result is in normal form.",
  "every integer, every rational, residue and inner polynomial within the bounds; every multiplier and exponent within the bounds", "These operations run under every polynomial but tests reach only a few of their branches; a wrong default method shows only for rare exponents or shapes.",
  [P, "src/mod_int.rs"], [("default methods and instances", P + ": trait PolynomialCoefficient and its impls"), ("residues", "src/mod_int.rs: PolynomialCoefficient for ModularInteger")]),
p("D01", "Printed forms, hashes and machine-number conversions are faithful",
  "A polynomial prints its exact coefficients, lowest power first, as c0 + c1*X + c2*X^2 (zero as 0, nested coefficients in parentheses, variables X, Y, Z, A to W, then two letters, no name twice); factors print as (p)^k, intervals as [a / 2^k, b / 2^k], residues as mod_int(v, m); debug forms of intervals and numbers show their exact fields. Equal values feed the same data to a hasher, number data is equal exactly for equal polynomial and interval. A polynomial converts to a machine number exactly when it is constant and fits, and back to the same constant.",
  "every coefficient, bound and residue (integers unbounded), lengths and precisions within the bounds", "Tests print literals only; equality of hashes and conversion limits are not tested.",
  [P, I, A, "src/mod_int.rs"], [("Display", P + ": Display for Polynomial, get_variable_name"), ("hash and equality", A + ": Hash and PartialEq for RealAlgebraicNumberData"), ("conversions", P + ": impl_from_primitive_fn, impl_to_primitive_fn")],
  note="The digits of an integer are num-bigint's own; the engine prints each integer as a token that stays symbolic and compares text and values."),
p("L01", "Lattice bases: orthogonalization and LLL reduction",
  "Gram-Schmidt orthogonalization subtracts from each vector exactly its projections on the ones before, also when some are zero or dependent. LLL reduction of linearly independent integer vectors ends and returns a basis of the same lattice (the same volume, every vector an integer combination of the given ones) that is size-reduced and satisfies the Lovasz condition for the given delta, three quarters by default.",
  "every basis of the listed families", "The tests reduce two fixed bases; a stale orthogonal vector or a wrong rounding shows only for particular exchanges.",
  ["src/lattice.rs", "src/array2d.rs"], [("column-wise projections", "src/lattice.rs: gram_schmidt_calculate_column"), ("invalidation of orthogonal vectors", "src/lattice.rs: LLLState"), ("reduction loop", "src/lattice.rs: lll_reduce_with_delta")],
  note="The module is private; a guarded hook (algebraics::verif::Grid) gives access. Entries are split into single values by the solver, except one of planar bases, which stays symbolic."),
p("L02", "Two-dimensional arrays index, slice and iterate their own elements",
  "A two-dimensional array keeps its elements in column-major order: reading, writing and exchanging touch exactly the addressed elements, a slice (also of a slice, also an empty one at any end) has exactly the elements of its ranges in order, writing through it changes exactly those, iteration from both ends in any interleaving yields each element once, and positions or ranges outside are refused.",
  "every element value; every size, range and interleaving within the bounds", "The tests iterate one 2 x 3 array and never slice.",
  ["src/array2d.rs"], [("stride arithmetic", "src/array2d.rs: do_slice, get_index_unchecked"), ("two-ended positions", "src/array2d.rs: Positions")],
  note="The module is private; a guarded hook (algebraics::verif::Grid) gives access."),
p("Y01", "Python class gives the exact results of the Rust operations",
  "From Python, RealAlgebraicNumber objects and plain integers mix in +, -, *, / and ** on either side, in the written order, with the exact result; the six comparisons agree with the real order; negation, abs, math.trunc, floor and ceil, recip, to_integer, to_rational, minimal_polynomial, degree, is_rational, is_integer, floor_log2 and ceil_log2 report exact facts; division by zero and impossible powers raise an exception instead of returning a value.",
  "every integer for unary operations and for the constructor; every pair of small rationals, and listed irrational operands, for binary ones", "No test calls the Python methods at all: a swapped operand in a reflected operator compiles and passes.",
  ["src/python.rs"], [("operator slots, forward and reflected", "src/python.rs: __add__ .. __rpow__, arithmetic_helper, try_arithmetic_helper"), ("comparison", "src/python.rs: __richcmp__")],
  note="The interpreter is replaced by a stand-in for pyo3 that models argument extraction, NotImplemented and reflected operators."),
]
NA = []
HOOKS = {"guard": "cfg(algebraics_verif)", "enable": "RUSTFLAGS=--cfg algebraics_verif (check.py passes it for harnesses with the header line //! cfg: algebraics_verif)", "source_commits": ["3216b8be3d3751900dcb6828a3d8122d15def045", "7bba082e26f1ed6dcc47f1f794d489bb246c08d5"]}
