NN = INC + "components/algebra/fields/plonk/non_native/"
ASSUMED = ("Chunks and carries are taken to be within the bits they are laid out for: the components contain no constraint for it. ")
prop("N01", "Arithmetic of a foreign field in a circuit gives exactly that field's result",
     "For operands of the field of curve25519 given as four limbs each, the tables filled in for addition, subtraction and multiplication are accepted and hold the limbs of the result reduced by that field's "
     "modulus, wherever the component is placed; with chunks and carries in their ranges no table with another result is accepted.",
     ["inputs", "prover behaviours"], "all ordered pairs of operands at the edges of limbs and moduli; for each about a hundred claimed results off by multiples of either modulus or in one limb; every content of the other cells",
     "Tests use a few random operands, which hardly ever borrow in the lowest limb or come near the modulus, and only honest tables.",
     [NN + "addition.hpp", NN + "subtraction.hpp", NN + "multiplication.hpp", NN + "range.hpp"],
     [("carry of the lowest limb", NN + "subtraction.hpp"), ("quotient bit", NN + "addition.hpp"), ("product modulo 2^198 and modulo the circuit's field", NN + "multiplication.hpp"), ("range check of the result", NN + "range.hpp")],
     "exhaustive enumeration of boundary operands and claimed results; for each a complete search over the contents of all cells of the real circuit, against big integers",
     SHIM + ASSUMED + BOUND)
prop("N02", "Range check and reduction accept exactly the canonical representative",
     "A value of four limbs passes the range check exactly when it is less than the modulus of curve25519, and the reduction of eight 64-bit words gives their value modulo the order of the curve; "
     "with chunks in their ranges no other value passes and no other remainder is accepted.",
     ["inputs", "prover behaviours"], "values made of empty, full and nearly full chunks; words of zeros and ones and values next to multiples of the order; claimed remainders off by multiples of the order and of the circuit's modulus; every content of the other cells",
     "Only 19 of 2^255 values fit in the limbs without being in the field.",
     [NN + "range.hpp", NN + "reduction.hpp"],
     [("sum of full chunks", NN + "range.hpp"), ("congruences modulo 2^69 and the circuit's field", NN + "reduction.hpp")],
     "exhaustive enumeration of boundary values and claimed remainders; for each a complete search over the contents of all cells of the real circuit, against big integers",
     SHIM + ASSUMED + "Two known findings are reported: flags that are not constrained. " + BOUND)
