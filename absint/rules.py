"""one-line statement of the rule each check applies (goes into the evidence)"""
RULES = {
    "C01": "every Add/Sub/Neg/AddAssign/SubAssign impl on polynomial types is abstractly interpreted on arbitrary operands; on every outcome partition the generating function of the result (or receiver) must equal the sum/difference/negation of the operands' generating functions, by-reference operands are unchanged and no partition panics",
    "C02": "as C01 with the Cauchy product for every Mul/MulAssign/borrow_mul between polynomials; powers by induction on the exponent over the product contract, plus the base cases one by one",
    "C03": "every Mul/Div(/Assign) of a polynomial by a scalar: the result's generating function is the operand's with each coefficient multiplied / divided (N's own division) by the scalar",
    "C04": "every Shl/Shr(/Assign): the result's generating function is the operand's times X^n, or the operand's window from degree n up divided by X^n; negative amounts swap the two; all i32 amounts",
    "C05": "every Evaluable::eval: the returned ring value equals the operand's generating function with the point substituted for X",
    "C06": "every Derivable::derivative: the result's generating function is the term-wise derivative; the only panicking partitions are those where a degree conversion failed",
    "C07": "every Integrable::integral: term-wise antiderivative with zero constant; Integral::eval = difference of two evaluations; replace_c adds the constant; the integral is unchanged",
    "C08": "div_mod, floor_div, Rem, RemAssign of both free-size types: q*b + r = a on every returning partition, remainder irreducible, panic only for b = 0; the elimination loop needs an inductive leading-term invariant with a falling degree at every back edge",
    "C09": "every SizedPolynomial method, ordered_term_iter, as_term and Term::new: degree = NegInf iff the generating function is zero, else nothing above and a non-zero coefficient at it; listed terms non-zero, strictly descending, summing to the operand; is_zero iff zero; zero()/set_to_zero() denote 0",
    "C10": "every PartialEq between polynomials: partitions answering true have equal generating functions, partitions answering false have a degree where they differ",
    "C11": "every new/trim/from_terms/add_term/From: the generating function of the result is that of the arguments; all upcast conversions one by one",
    "C12": "every try_add_term/try_sub_term: Ok partitions add/subtract exactly c*X^d; Err partitions leave the receiver's generating function and satisfy the error's own condition",
    "C13": "witness module instantiating add_poly/sub_poly/mul_poly_vec and the exported macros at 15 pairs of representations plus three-operand forms, analysed like any other function: Ok (or returning) partitions hold the exact sum/difference/product",
    "C14": "every impl of the numeric traits, one by one: interval/linear partitions of the argument with the value returned on each; Ok partitions of the conversions entail equality with the argument (a float cast is exact up to its mantissa or must be shown to come back unchanged), Err partitions entail unrepresentability",
    "C15": "the formatter is a trace of literals, coefficients and degrees (loops over terms become repetition events); the trace is read back with the grammar of polynomial text and its denotation compared with the value's generating function, canonicity and falling degrees proved per partition",
    "C17": "results are rational functions of the coefficients and of s = sqrt|D| per partition of coefficient signs and zeros; denominators cleared and s^2 replaced by |D|, Vieta's identities are polynomial identities U + V s = 0; discriminant, factors and degenerate cases likewise",
    "C16": "the text is a history: every character read forks into exact classes and is appended; the reading loop is run to a fixpoint over (live program state, history), unbounded words being first character + named rest, consistently in history and buffers; every returning partition is judged by the grammar of its history (value, degree, error named). Polynomial parsers: byte positions are symbols, Term::from_str is called exactly on the pieces between signs, the accumulated value equals the sum of the terms returned",
    "C18": "cubic_roots, find_roots_special and both public roots() per pattern of terms; the three answers must satisfy Vieta's identities in the tower of k, u, v; a violation additionally needs a concrete cubic (high-precision witness) on which every formula of the path holds and the identity fails",
    "C19": "both public roots() per pattern of terms and script of answers of the external search; variant, listed roots, rounding choice and every question asked compared with the exact quotient; a violation additionally needs a concrete polynomial on which every formula of the path holds",
}
