FLD = INC + "components/algebra/fields/plonk/"
NNF = FLD + "non_native/"
TINY = ("exhaustive enumeration, on the real component over a tiny field, of every input and of every witness content by a complete backtracking search, "
        "against a reference function")
TINYNOTE = (SHIM + "The components are templates over the field and are instantiated with fields small enough to enumerate; that the constraints have the same shape "
            "in the 255-bit fields is an assumption. ")

prop("F01", "Field arithmetic components accept exactly the right result",
     "For addition, subtraction, multiplication (also by a constant), division, division-or-zero, interpolation, exponentiation and square root: for every input the table filled in "
     "satisfies the component's own constraints and carries the right result, and no other content of its cells satisfies them with another result. "
     "The component stays within the rows, columns, gates and constants it announces, wherever it is placed.",
     ["inputs", "configurations"], "every input over tiny fields, every content of the component's witness cells, several placements",
     "The tests try a few honest inputs; a missing or weakened constraint accepts them all and only fails for a dishonest witness.",
     [FLD + x + ".hpp" for x in ("addition", "subtraction", "multiplication", "multiplication_by_constant", "division", "division_or_zero", "exponentiation", "sqrt",
                                 "linear_interpolation", "quadratic_interpolation")],
     [("gate constraints of each component", FLD), ("zero divisor cases", FLD + "division_or_zero.hpp")],
     TINY, TINYNOTE + "The exponent bits of the square root are pinned to the honest ones in the search (they are covered by the exponentiation). " + BOUND)
prop("F02", "Boolean and equality components accept exactly the right flag",
     "For logic_and_flag, logic_or_flag, equality_flag and the logic not/and/or/xor/nand/nor components: the flag accepted for an input is exactly the defined one, whatever the "
     "prover puts in the component's cells, and the honest table is accepted.",
     ["inputs", "configurations"], "every input over tiny fields, every content of the component's witness cells, several placements and column counts",
     "A flag that a prover can choose freely passes every honest test.",
     [FLD + "logic_and_flag.hpp", FLD + "logic_or_flag.hpp", NNF + "equality_flag.hpp", NNF + "logic_ops.hpp"],
     [("inverse witnesses forcing zero tests", FLD + "logic_and_flag.hpp"), ("boolean gates", NNF + "logic_ops.hpp")],
     TINY, TINYNOTE + BOUND)
prop("F03", "Range checks and bit conversions accept exactly the right bits",
     "A range check accepts a number exactly when it fits in the bits; decomposition, composition and constant shifts accept exactly the bits of the number, in the order asked for, "
     "and reject numbers that do not fit or entries that are not bits.",
     ["inputs", "configurations"], "every number of a tiny field or a boundary grid in a 17-bit one, every bit size, order, shift and column count in the bound, every witness content",
     "Soundness of the chunking at uneven sizes and column counts cannot be seen on honest inputs.",
     [FLD + "range_check.hpp", FLD + "bit_shift_constant.hpp", NNF + "bit_composition.hpp", NNF + "bit_decomposition.hpp", NNF + "detail/bit_builder_component.hpp"],
     [("chunk layout and padding bits", NNF + "detail/bit_builder_component.hpp"), ("first chunk bounds", FLD + "range_check.hpp")],
     TINY, TINYNOTE + BOUND)
prop("F04", "Comparisons and integer division accept exactly the right result",
     "The checked, unchecked and flag comparisons accept a pair or yield a flag exactly as the integers compare, in all modes; division with remainder accepts exactly quotient and "
     "remainder and rejects a zero divisor; operands that do not fit in the announced bits are rejected where the component checks them.",
     ["inputs", "configurations"], "every pair of operands over a tiny field, every mode, bit size and column count in the bound, every witness content",
     "A comparison that also accepts some wrong pairs passes every honest test.",
     [NNF + "comparison_checked.hpp", NNF + "comparison_unchecked.hpp", NNF + "comparison_flag.hpp", NNF + "division_remainder.hpp"],
     [("chunked difference and its bounds", NNF + "comparison_checked.hpp"), ("per-chunk flags", NNF + "comparison_flag.hpp"), ("range of the remainder", NNF + "division_remainder.hpp")],
     TINY, TINYNOTE + "Known finding: comparison_checked does not check the range of the operands when the comparison is true. " + BOUND)
FLX = INC + "components/systems/snark/plonk/flexible/"
PLH = INC + "components/systems/snark/plonk/placeholder/"
prop("F05", "Array components of the verifier accept exactly the right arrays",
     "Element-wise sums and products, swaps, swaps of arrays of pairs and linear interpolation of FRI values accept, for arrays of any size in any announced number of columns, exactly the "
     "right results, whatever else the prover puts in the component's cells.",
     ["inputs", "configurations"], "every array length and column count in the bound, every value of any one element, every witness content, two placements",
     "Layouts differ for every combination of length and column count; the tests try a few.",
     [FLX + "additions.hpp", FLX + "multiplications.hpp", FLX + "swap.hpp", PLH + "fri_array_swap.hpp", PLH + "fri_lin_inter.hpp"],
     [("blocks per row and the last, partly filled row", FLX + "additions.hpp"), ("gate of the swap", PLH + "fri_array_swap.hpp")],
     TINY, TINYNOTE + "The control bit of the array swap is taken to be a bit and the point of the interpolation not zero, as their users ensure. " + BOUND)
prop("F06", "Powers, polynomials and domain positions are accepted exactly when right",
     "Polynomial evaluation, raising to a constant power, the position of an element in the FRI domain and the FRI cosets of a challenge accept exactly the right result for every degree, "
     "exponent, number of steps and announced number of columns; an element outside of the domain is rejected.",
     ["inputs", "configurations"], "every degree, exponent and step count in the bound, every field element, every witness content, two placements",
     "Edge cases are single exponents or degrees that exactly fill a row, and starting cells no gate constrains.",
     [FLX + "pow_factor.hpp", FLX + "constant_pow.hpp", FLX + "x_index.hpp", PLH + "fri_cosets.hpp"],
     [("exponent decomposition and row filling", FLX + "constant_pow.hpp"), ("initial values of chained cells", FLX + "x_index.hpp"), ("comparison with the modulus", PLH + "fri_cosets.hpp")],
     TINY, TINYNOTE + "The bits given to the position component are taken to be bits. " + BOUND)
prop("F07", "Argument verifiers compute the argument polynomials exactly",
     "The permutation, gate and lookup argument verifiers and the products, sums and folded gates they consist of accept exactly the values of the argument's polynomials for their inputs, "
     "for every number of columns, gates, constraints and tables.",
     ["inputs", "configurations"], "every announced column count, list of gate sizes and table shapes in the bound, every value of any one input, every witness content, two placements",
     "Each column count has another layout with other gates; one wrong gate or copy makes the verifier accept forged arguments or reject right ones.",
     [PLH + "detail/f1_loop.hpp", PLH + "detail/f3_loop.hpp", PLH + "detail/gate_component.hpp", PLH + "permutation_argument_verifier.hpp", PLH + "gate_argument_verifier.hpp",
      PLH + "lookup_argument_verifier.hpp"],
     [("one gate per column shift", PLH + "detail/f3_loop.hpp"), ("alternating challenges per row", PLH + "permutation_argument_verifier.hpp"),
      ("result cells located by hand", PLH + "lookup_argument_verifier.hpp")],
     TINY, TINYNOTE + "Known finding: the permutation argument of a single column. " + BOUND)
prop("F08", "In-circuit expressions and final polynomial checks evaluate correctly",
     "An expression evaluated through batched components has the value of the expression, for every expression and assignment of its variables, and no other content of the table "
     "satisfies the circuit; the final polynomial check accepts exactly the right values at the points and their negations.",
     ["inputs"], "every expression of bounded size over a set of terms, several inputs, circuit or assignment first; polynomials of degree up to 4 at up to 3 points",
     "Sharing of equal batched operations and the order of generation interact; tests evaluate one expression.",
     [PLH + "detail/expression_evaluation_component.hpp", INC + "components/systems/snark/plonk/verifier/final_polynomial_check.hpp"],
     [("visitor over terms, powers and operations", PLH + "detail/expression_evaluation_component.hpp"), ("signs at the negated point", INC + "components/systems/snark/plonk/verifier/final_polynomial_check.hpp")],
     TINY, TINYNOTE + BOUND)
