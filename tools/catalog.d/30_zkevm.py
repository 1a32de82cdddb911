ZK = INC + "zkevm/"
OPS = ZK + "operations/"
prop("Z01", "zkEVM words and the stack behave as 256-bit values",
     "A word is split into chunks of 16 and parts of 64 bits that put together give the word again, whatever the word; arithmetic on words is modulo 2^256, and the stack returns "
     "words last in, first out.",
     ["inputs", "histories"], "every 16-bit chunk in every position, all pairs of boundary words, every history of pushes and pops up to the bound",
     "Chunks at the ends of a word and carries across parts are met by few test words.",
     [ZK + "zkevm_word.hpp", ZK + "stack.hpp"],
     [("conversion to chunks", ZK + "zkevm_word.hpp"), ("stack", ZK + "stack.hpp")],
     "exhaustive enumeration of words by chunk and of stack histories on the real code, against big integers and a list",
     SHIM + BOUND)
prop("Z02", "The state selector selects exactly the given option",
     "For any number of options and any index, the table of the state selector is accepted exactly when the index is one of the options, and then option_constraint is one for that option and zero for all others; "
     "the index is the cell given as input.",
     ["inputs", "configurations"], "1 to 24 options, every index of a field of 97 elements, every content of the selector's columns",
     "A selector that may select two options, or another one than asked for, satisfies the honest tests.",
     [ZK + "state_selector.hpp"],
     [("constraints on pairs and parity", ZK + "state_selector.hpp"), ("copy constraint of the index", ZK + "state_selector.hpp")],
     "complete search over the contents of all witness cells of the real circuit over a small field, for every index, against the definition of a selector",
     TINYNOTE + SHIM + BOUND)
prop("Z03", "State transitions of the zkEVM allow exactly the announced next values",
     "The constraints generated for a transition accept a next state exactly when every variable keeps its value, moves by the given amount, takes the given value, moves by its default or is free, as announced; "
     "a frozen state keeps every variable, and assigning a state writes every variable to its own column of the row only.",
     ["inputs", "configurations"], "every combination of transition kinds and amounts of the four variables, and next values around the present and given ones",
     "Opcodes so far use only the frozen transition; the others are unused until somebody relies on them.",
     [ZK + "state.hpp"],
     [("generate_transition_constraints", ZK + "state.hpp"), ("assign_state", ZK + "state.hpp")],
     "exhaustive enumeration of transitions and successor states, evaluating the real constraints, against the meaning of the kinds",
     SHIM + BOUND)
prop("Z04", "zkEVM opcodes compute the EVM result and accept no other",
     "For any two words, the table filled in for ISZERO, ADD, SUB, MUL and DIV holds the result the EVM defines, is accepted in a program of these opcodes and leaves the stack as it was; "
     "and no table with the same operands and 16-bit chunks but another result is accepted.",
     ["inputs", "prover behaviours"], "all pairs of boundary words; from the honest table, every deviation of a cell to a set of values repaired in up to two further cells; for division, other quotients with everything else made to fit",
     "A carry that is not bounded or a constraint on the wrong row shows only for a prover that deviates, or in programs that mix opcodes.",
     [ZK + "zkevm_circuit.hpp", OPS + "iszero.hpp", OPS + "add_sub.hpp", OPS + "mul.hpp", OPS + "div.hpp"],
     [("carries of additions", OPS + "add_sub.hpp"), ("carries of products", OPS + "mul.hpp"), ("quotient, remainder and division by zero", OPS + "div.hpp"),
      ("rows of an opcode", ZK + "zkevm_circuit.hpp")],
     "bounded exhaustive exploration of tables: all operand pairs, and from each honest table all bounded deviations of a prover, on the real circuit, against 256-bit arithmetic",
     SHIM + "Range checks of the chunks are left to the memory argument, as the code says. " + BOUND)
prop("Z05", "A zkEVM table is accepted only as a sequence of whole opcodes",
     "A table is accepted exactly when its rows are a sequence of opcodes, each starting on the row after the previous one, of that opcode's number of rows, counting the rows left down to zero in both the state and the row "
     "selector, with the same opcode and an unchanged state throughout.",
     ["traces"], "every labelling of up to seven rows with opcode, rows left, selected row, start flag and changed state",
     "A prover that restarts an opcode early or skips its last row avoids its constraints; honest tests never do.",
     [ZK + "zkevm_circuit.hpp", ZK + "state.hpp", ZK + "state_selector.hpp"],
     [("generic transition constraints", ZK + "zkevm_circuit.hpp"), ("height of the opcode", ZK + "zkevm_circuit.hpp")],
     "exhaustive exploration of labelled row sequences, evaluating the real constraints, against an automaton of whole opcodes",
     SHIM + BOUND)
prop("Z06", "The bytecode circuit tells opcodes from pushed data",
     "For contracts whose headers give their lengths and whose opcodes exist, the table filled in is accepted and marks exactly the bytes not pushed as opcodes, with their index, the length left and the running combination of the bytes; "
     "no other content is accepted for those bytes, and none at all for a contract with another length or an unassigned opcode.",
     ["inputs", "configurations"], "every division of up to six rows into contracts, bytes out of a palette of opcodes with and without pushed data, every wrong length, every single byte, the longest pushes; every content of the other cells",
     "Data marked as code is only accepted for byte sequences chosen for it.",
     [ZK + "bytecode.hpp", ZK + "zkevm_opcodes.hpp"],
     [("constraints on push_size and is_opcode", ZK + "bytecode.hpp"), ("lookups", ZK + "bytecode.hpp"), ("bytecode_table_tester", ZK + "bytecode.hpp")],
     "complete search over the contents of the table for every bytecode of the bounded space on the real circuit over a small field, against a reference parser",
     TINYNOTE + SHIM + "Tags and values are taken from the bytecodes: their copy constraints are still missing, as the code says, and so is the lookup of the hash. " + BOUND)
