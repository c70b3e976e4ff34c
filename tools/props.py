"""the properties, in one place; tools/mk.py writes properties.jsonl and MANIFEST.json"""

ABS = "abstract interpretation of the type-checked MIR: trace partitioning over affine index facts, contents as generating functions in ring normal form, loops closed by inferred invariants"
NOTE = ("Every implementation is analysed on arbitrary operands and every outcome partition must meet the specification; "
        "assumes coefficients obey the commutative-ring laws exactly (no overflow of N, no float rounding), trusts rustc's MIR, the driver, "
        "the models of core/alloc/num functions and the abstract interpreter. An obligation the analysis cannot close is reported UNDECIDED in the evidence and raises no alarm.")


def P(id, title, statement, over, qtext, why, files, mech, technique=ABS, note=NOTE, level="proof"):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, technique=technique, note=note, level=level)


D = "src/polynomial/"
POL = [D + x for x in ("polynomial.rs", "sparsepolynomial.rs", "monomial.rs", "binomial.rs", "trinomial.rs", "array_polynomial.rs", "poly_math.rs")]

PROPS = [
    P("C01", "Addition, subtraction and negation are exact coefficient by coefficient",
      "For any two polynomials of any supported pair of representations, every form of a + b, a - b, -a, a += b and a -= b yields a polynomial whose coefficient at every degree is the sum, difference or negation of the operands' coefficients at that degree, whatever their lengths, leading zeros, gaps or cancellations. No such operation panics, and an operand taken by reference keeps its value.",
      ["inputs"], "all operand pairs (any length, any stored zeros, any coefficient ring values), all operator forms and representations",
      "the tests evaluate a few fixed operand pairs per operator; alignment errors show only for particular length relations, cancellations or stored zeros",
      POL, [("operator impls and vec_sub_w_scale/term helpers", D + "*.rs")]),
    P("C02", "Multiplication and powers are exact convolutions",
      "For any two polynomials of any supported pair of representations, every form of a * b and a *= b yields the polynomial whose coefficient at degree k is the sum of all products of coefficients whose degrees add up to k; a zero operand gives zero. Raising to a power n yields self multiplied by itself n times, with the constant 1 for n = 0.",
      ["inputs"], "all operand pairs of all representations, all exponents",
      "the tests multiply a few fixed pairs and raise to a few fixed exponents; index errors depend on lengths, gaps and the binary shape of the exponent",
      POL, [("Mul/MulAssign impls, borrow_mul, pow", D + "*.rs")]),
    P("C03", "Scalar multiplication and division act on every coefficient",
      "Multiplying or dividing a polynomial of any representation by a scalar multiplies or divides each coefficient by that scalar using the coefficient type's own operation, and moves no coefficient to another degree. This holds for the value and the assigning forms alike.",
      ["inputs"], "all polynomials of all representations, all scalars",
      "a handful of fixed coefficients are tested; a term skipped at one end or for one representation is invisible to them",
      POL, [("Mul<N>, MulAssign<N>, Div<N>, DivAssign<N> impls", D + "*.rs")]),
    P("C04", "Shifts multiply or divide by a power of x",
      "Shifting a polynomial left by n multiplies it by x^n; shifting right by n divides it by x^n and drops the terms whose degree would become negative. A negative shift is the opposite shift by the absolute amount, for every representation and every shift amount of the accepted type, including the extreme ones, and for the value and assigning forms alike.",
      ["inputs"], "all polynomials of all representations, all shift amounts including i32::MIN and amounts larger than the degree",
      "the tests shift a few polynomials by one or two fixed small amounts; amounts beyond the length, negative amounts and stored leading zeros are not covered",
      POL, [("Shl/Shr/ShlAssign/ShrAssign impls", D + "*.rs")]),
    P("C05", "Evaluation computes the value of the polynomial at the point",
      "Evaluating a polynomial of any representation at a point returns the sum over all degrees of coefficient times point to the power of the degree, in the coefficient type's arithmetic. Evaluation never panics for lack of terms and does not change the polynomial.",
      ["inputs"], "all polynomials of all representations, all points",
      "the tests evaluate a few polynomials at a few points, often where different exponents give the same value",
      POL, [("Evaluable impls and the power helpers", D + "*.rs")]),
    P("C06", "Differentiation is exact for every representation",
      "The derivative of a polynomial has at degree n-1 exactly n times the original coefficient at degree n, for every degree present, and no other terms; the derivative of a constant or of zero is zero. The only failure is the documented panic when a degree cannot be represented in the coefficient type.",
      ["inputs"], "all polynomials of all representations, all degrees",
      "a few fixed polynomials are differentiated; degree bookkeeping errors depend on gaps, stored zeros and representation changes",
      [D + "derivative.rs"] + POL, [("Derivable impls", D + "*.rs")]),
    P("C07", "Integration, definite integrals and constants of integration are exact",
      "The antiderivative has at degree n+1 the original coefficient at degree n divided by n+1, and constant term zero; evaluating an integral between two points gives the antiderivative at the end minus at the start; choosing a constant of integration adds exactly that constant. The integral object is not changed by these observations.",
      ["inputs"], "all polynomials of all representations, all bounds and constants",
      "a few fixed integrals are tested; degree bookkeeping and constant placement errors depend on gaps and representation",
      [D + "integral.rs"] + POL, [("Integrable impls, Integral::eval, Integral::replace_c", D + "*.rs")]),
    P("C08", "Division with remainder is exact, ends, and rejects the zero divisor",
      "For every dividend a and non-zero divisor b, div_mod returns (q, r) with a = q*b + r where nothing of r can be divided any further: the degree of r is below that of b, or (for types whose division rounds) the quotient of the leading coefficients is zero. Every round of the elimination lowers the degree, so division ends. floor_div and % and %= return exactly the quotient and the remainder of div_mod. The zero divisor panics, and nothing else does.",
      ["inputs"], "all dividends and divisors of every length, degree and zero pattern, dense and sparse, over every coefficient type with (x - (x/y) y)/y = 0 for y non-zero (machine integers, exact fields); progress for every type",
      "tests divide a handful of fixed polynomials; the failing inputs are relations between leading zeros, degrees and inexact quotients",
      [D + "polynomial.rs", D + "sparsepolynomial.rs"], [("div_mod, floor_div, Rem, RemAssign, vec_sub_w_scale, first_term", D + "polynomial.rs"), ("div_mod, Rem, RemAssign, map_sub_w_scale", D + "sparsepolynomial.rs")],
      technique=ABS + "; the elimination loop by an inferred leading-term invariant (remainder zero above a falling degree, remainder + divisor * quotient conserved)"),
    P("C09", "Observers report the polynomial's actual terms",
      "For every representation, degree() is the highest degree with a non-zero coefficient (NegInf exactly for the zero polynomial), is_zero() agrees with it, term_with_degree(d) returns the coefficient at d or ZeroTerm when it is zero or absent, and terms_as_vec() and ordered_term_iter() list exactly the non-zero terms, each once, in strictly descending degree. zero() and set_to_zero() give the zero polynomial. Stored leading zeros, explicit zero entries and capacity never show.",
      ["inputs"], "all values of all representations (any stored zeros), all queried degrees",
      "tests query a few values without redundant zeros; the answers depend on stored zeros, chunk boundaries and which key comes first",
      POL + [D + "traits.rs", "src/terms.rs"], [("SizedPolynomial impls, ordered_term_iter, first_nonzero_index, degree helpers", D + "*.rs")]),
    P("C10", "Equality is equality of polynomials",
      "Two values of the same representation compare equal exactly when they have the same coefficient at every degree, independent of stored leading zeros, explicit zero entries, or (for the zero polynomial) any leftover degree. Comparison never panics.",
      ["inputs"], "all pairs of values of each representation, including ones with redundant stored zeros",
      "tests compare a few canonical values; wrong answers need one particular redundant representation",
      POL, [("PartialEq impls", D + "*.rs")]),
    P("C11", "Construction, conversion and trimming preserve every coefficient",
      "new, From<Vec>, from_terms, add_term and the conversions between coefficient types build the polynomial with exactly the given coefficients at the given degrees (later terms of equal degree add up), and trimming or widening changes no coefficient. None of them panics on any list, including empty ones and zero coefficients.",
      ["inputs"], "all argument lists of all lengths and degrees, all implemented conversion pairs",
      "tests build a few fixed lists; duplicates, zero coefficients, leading zeros and the many macro-generated conversions are sampled at most once",
      POL + ["src/macros.rs"], [("new, trim, from_terms, add_term, From impls, upcast!", D + "*.rs")]),
    P("C12", "try_add_term and try_sub_term are exact or leave the value alone",
      "When try_add_term(c, d) or try_sub_term(c, d) returns Ok, exactly c x^d has been added or subtracted and nothing else changed; when it returns Err the value is unchanged and the error names the violated constraint: a degree outside a fixed-size type, a second term in a monomial, or subtraction from nothing for a type that cannot negate. Free-size types accept every added term.",
      ["inputs"], "all values of all representations, all coefficients and degrees, negatable and non-negatable coefficient types",
      "tests try a few terms per type; failures and partial effects depend on the degree's relation to the stored terms",
      POL + ["src/err.rs"], [("MutablePolynomial impls", D + "*.rs")]),
    P("C13", "The accumulation helpers and macros compute exact results across representations",
      "add_poly, sub_poly and mul_poly_vec, and the exported poly_add!, poly_sub! and poly_mul! in both the returning and the sink form, leave in the sink (or return) exactly sink plus, minus or times the operands whenever they report success, for every mixture of representations; the operands are unchanged and free-size sinks never report an error for negatable types.",
      ["inputs"], "all operand values over the instantiated pairs of representations and sinks",
      "tests use one or two operand pairs per macro; aliasing of the sink with its own terms and early errors need particular term patterns",
      [D + "poly_math.rs"] + POL, [("add_poly, sub_poly, mul_poly_vec, poly_add!, poly_sub!, poly_mul!", D + "poly_math.rs")]),
    P("C14", "The numeric traits answer exactly for every value of every primitive type",
      "For every primitive type and every value: is_negative_one is true exactly for -1, is_positive exactly for values above zero, can_negate exactly for signed and float types; abs is the magnitude for every value whose magnitude is representable; upow(x, n) is x to the n; float cbrt and abs_sqrt are the cube root and the square root of the magnitude; try_from_usize_cont and try_from_usize_exact return the argument exactly whenever they return Ok, the continuous form only inside the range where every smaller integer is exact, and integer targets are rejected only when the type cannot hold the value.",
      ["inputs"], "all values of all 14 primitive types, all usize arguments",
      "these are per-type tables of macro instantiations: tests touch three or four entries, and the failures sit at range ends (2^24+1, usize::MAX, MIN)",
      ["src/numerics.rs"], [("IsNegativeOne, IsPositive, CanNegate, Abs, PowUsize, AbsSqrt, Cbrt, TryFromUsizeContinuous, TryFromUsizeExact impls", "src/numerics.rs")]),
    P("C15", "Display writes exactly the value, canonically and in falling degree",
      "For every monomial, binomial, trinomial, dense and sparse polynomial, the text Display writes denotes exactly that polynomial: one term per non-zero coefficient and no other, in strictly falling degree, joined by ' + ' or ' - ' with the sign written once, coefficient one omitted before x (minus one as a leading '-'), exponents 0 and 1 not written, and '0' for zero; stored zero coefficients change nothing and no write panics for a coefficient whose magnitude the type can represent. An antiderivative (Integral) is written as its polynomial followed by ' + C', the zero one as 'C' alone.",
      ["inputs"], "all coefficient values and all numbers and positions of terms",
      "a handful of literal strings is tested; wrong output needs a particular combination of sign, unit coefficient, degree 0/1 and gaps between terms",
      ["src/strings.rs", "src/numerics.rs", D + "integral.rs"] + POL, [("write_leading_term, write_trailing_term, fmt_poly!, ordered_term_iter", "src/strings.rs")]),
    P("C16", "Parsing accepts exactly well-formed text and gives exactly its value",
      "A term is read as: an optional number, then optionally x and then optionally an exponent (with or without ^ in front); spaces, commas and underscores are ignored. The coefficient is the number written (a missing number is one, a sign alone is plus or minus one), the degree is the exponent written, one for a bare x, zero without x. Anything else - a second x or ^, ^ without x or without a degree, any other character, a number or exponent its type cannot parse - is refused with the error naming what is wrong. Parsing a polynomial cuts the text before every + or - after its start, reads every piece as a term, and returns the sum of the terms, refusing exactly when a term is malformed, a term does not fit the type, or the text is empty, each with the error that names it (a term that does not fit: the error of try_add_term itself). No text makes parsing panic.",
      ["inputs"], "all texts of all lengths over all characters, for Term and all five polynomial types with FromStr",
      "tests parse about a dozen well-formed strings and a few malformed ones; the space of texts is unbounded and the parser is a state machine whose wrong transitions need a particular sequence of characters",
      ["src/terms.rs", "src/strings.rs", "src/err.rs"], [("Term::from_str, TermTokenizer", "src/terms.rs"), ("poly_from_str!", "src/strings.rs")],
      technique="abstract interpretation of MIR: fixpoint of the reading loop over (program state, history of characters), judged by the grammar"),
    P("C17", "Roots, discriminants and factors of degree at most two are exact",
      "For every polynomial of degree at most two, in exact arithmetic: InfiniteRoots is reported exactly for zero and NoRoots exactly for a non-zero constant; a linear polynomial has the one root -c/b; a quadratic with discriminant b^2 - 4ac not negative has its two real roots, the larger first, otherwise its two conjugate complex roots, and they satisfy the polynomial (sum -b/a, product c/a). discriminant() is b^2 - 4ac; complex_factors and real_factors multiply back to the polynomial, and real factors are refused exactly when there are none. A power of x has only the root zero. None of these panics.",
      ["inputs"], "all coefficient values, including zero leading coefficients and negative leading coefficients; binomials, trinomials, fixed-size arrays, monomials, dense polynomials with up to three coefficients and sparse ones with terms among degrees 0 to 2",
      "tests solve a few quadratics with small integer roots and positive leading coefficient; the wrong branch needs a sign, zero or discriminant pattern they do not have",
      [D + "find_roots.rs", D + "trinomial.rs", D + "binomial.rs", D + "monomial.rs", D + "array_polynomial.rs"], [("trinomial_roots, find_roots_special, discriminant_trinomial; roots, root, discriminant, complex_factors, real_factors", D + "*.rs")]),
    P("C18", "Roots of cubics are the roots of the cubic",
      "For every cubic a x^3 + b x^2 + c x + d with a non-zero and at least one more term, in exact arithmetic: the answer is ManyRealRoots with three numbers or ManyComplexRoots with one real number and a conjugate pair; the three answers add up to -b/a, their pairwise products to c/a and their product to -d/a, so they are exactly the roots with multiplicity. Three distinct real roots are reported as real. The coefficients reach the closed form unpermuted for every pattern of missing terms, dense or sparse, and nothing panics.",
      ["inputs"], "all coefficient values and all patterns of absent terms; the external classification find_roots_cubic may answer one, two or three roots and is trusted for the three-root case",
      "the tests solve three or four cubics with small integer roots; swapped coefficients or signs vanish when a term is missing, a root is zero or repeated",
      [D + "find_roots.rs", D + "polynomial.rs", D + "sparsepolynomial.rs"], [("cubic_roots (Cardano), find_roots_special, roots()", D + "find_roots.rs")],
      technique=ABS + "; Cardano's identities decided in the field tower Q(coefficients)(k, u, v) with k^2 = D, u^3 = q+k, v^3 = q-k, uv = s; external classification answered by symbols",
      note=NOTE.replace("An obligation", "Floating-point accuracy is out of scope; the external crate `roots` is trusted for three distinct real roots. An obligation")),
    P("C19", "The search for roots of degree four and more loses, invents and repeats nothing",
      "For every polynomial of degree four or more with at least two terms, whatever real roots the numeric search returns round by round: every root found is listed once, either as found or as the nearest whole number, the latter exactly when the polynomial is closer to zero there; after every round the search is asked about exactly the monic quotient of the polynomial by all roots found so far; it goes on until a round finds nothing or no factor is left. The answer is NoRoots when nothing was found, ManyRealRoots when as many roots were found as the degree, OnlyRealRoots otherwise. Failed brackets are ignored and nothing panics.",
      ["inputs"], "all coefficient values over enumerated patterns of present terms for degrees 4 and 5 and selected degrees up to 33, all answers of the external search in enumerated numbers of roots per round (0 to 4 roots in 1 to 4 rounds, with failed brackets), the roots themselves arbitrary",
      "the outcome depends on how many roots each round finds, on multiplicities and on which coefficients are absent; the tests run four or five polynomials with integer roots",
      [D + "find_roots.rs", D + "polynomial.rs", D + "sparsepolynomial.rs"], [("find_roots, div, normalize, roots()", D + "find_roots.rs")],
      technique=ABS + "; the external search is answered by scripts of symbolic roots and every question it is asked is compared with the exact quotient",
      note=NOTE.replace("Every implementation is analysed on arbitrary operands", "Degree, pattern of terms and number of roots per round are enumerated, values are arbitrary").replace("An obligation", "Accuracy and completeness of the external Sturm search are trusted. An obligation"), level="other"),
]

NA = []
