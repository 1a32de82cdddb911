PASTA = INC + "components/algebra/curves/pasta/plonk/"
prop("E01", "Addition of points in a circuit gives exactly the group's sum",
     "For any two points of a curve like pallas or vesta, equal, opposite or at infinity included, the table filled in by unified_addition is accepted and holds their sum; no table with another sum is accepted for them.",
     ["inputs", "prover behaviours"], "all pairs of points of such curves over small fields; every content of all other cells",
     "Doubling, opposite points and infinity are separate cases of the formulas that random points never meet, and honest tables say nothing about soundness.",
     [PASTA + "unified_addition.hpp"],
     [("slope, inverse and infinity cells", PASTA + "unified_addition.hpp")],
     "exhaustive enumeration of all pairs of points of small curves; for each a complete search over the contents of all cells of the real circuit, against textbook addition",
     SHIM + BOUND)
prop("E02", "Scalar multiplication in a circuit gives exactly the multiple of the point",
     "For a point T of pallas or vesta and a scalar b, the table filled in by curve_element_variable_base_scalar_mul is accepted and holds (2b + 2^255 + 1)T, the scalar encoding of the component; "
     "no table with another result is accepted, and none at all for scalars from the group order on.",
     ["inputs", "prover behaviours"], "scalars around zero, every power of two and the order, halves that make the encoded scalar small, several points and infinity; every content of all other cells",
     "Scalars near the order, points equal to an intermediate sum and unbound cells are beyond random tests of honest tables.",
     [PASTA + "variable_base_scalar_mul.hpp", PASTA + "unified_addition.hpp"],
     [("double-and-add rows", PASTA + "variable_base_scalar_mul.hpp"), ("range check of the scalar", PASTA + "variable_base_scalar_mul.hpp")],
     "exhaustive enumeration of boundary scalars and points; for each a complete search over the contents of all cells of the real circuit, against textbook scalar multiplication",
     SHIM + "Two known findings are reported: the multiple of the point at infinity, and special scalars of vesta. " + BOUND)
prop("E03", "A challenge of 128 bits becomes exactly the scalar of the endomorphism",
     "For every challenge below 2^128 the table filled in by endo_scalar is accepted and holds the scalar that the challenge's bits encode by means of the curve's endomorphism; "
     "no table with another result is accepted, and none at all for larger challenges.",
     ["inputs", "prover behaviours"], "challenges with one or two bits set or cleared, around every power of two, with every bounded content of one row, and too large ones; every content of all other cells",
     "The tests fill in two honest tables; a free accumulator or a wrong step for one of the four pairs of bits in one position passes them.",
     [PASTA + "endo_scalar.hpp"],
     [("accumulators of n, a and b", PASTA + "endo_scalar.hpp"), ("polynomials of two bits", PASTA + "endo_scalar.hpp")],
     "exhaustive enumeration of boundary challenges; for each a complete search over the contents of all cells of the real circuit, against the definition",
     SHIM + BOUND)
