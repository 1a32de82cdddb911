MAN = INC + "manifest.hpp"
REAL = "The real header is compiled unchanged; the reference model is a plain set computed in the harness. "
ASSUME = "Trusts the compiler, the reference model and the stated bounds; nothing is claimed for larger parameters."

prop("M01", "A witness-amount description denotes one set of amounts, whoever asks",
     "Every description of admissible witness amounts (one number, an arithmetic progression, an explicit set) denotes one set: acceptance of an "
     "amount, enumeration, satisfiability and the largest amount all agree on it. Enumeration is increasing, without repetition, and terminates; "
     "a non-strict check accepts an amount exactly when something admissible is not larger than it.",
     ["inputs", "configurations"], "every single amount, every progression (start, end, step) and every set of amounts",
     "The tests look at a handful of descriptions and mostly at one view of each; disagreements between two views appear only for particular "
     "start/end/step combinations.",
     [MAN], [("per-kind acceptance, iteration, satisfiability and maximum", MAN)],
     "exhaustive enumeration of bounded descriptions on the real code against a set model",
     REAL + "Every progression with start, end, step inside the bound and every subset of a small interval is built and every observation compared. " + ASSUME)
prop("M02", "Intersecting two amount descriptions yields exactly the common amounts",
     "The intersection of two descriptions of admissible witness amounts admits exactly the amounts both admit, is unsatisfiable exactly when there "
     "are none, and does not depend on the kinds or the order of the operands. It also holds for results of earlier intersections.",
     ["inputs", "histories"], "every ordered pair of descriptions of any kind, and every chain of two intersections",
     "Nine kind pairs times step/offset relations: the tests pick a few progressions that happen to be aligned.",
     [MAN], [("kind-by-kind dispatch of the intersection", MAN)],
     "exhaustive enumeration of operand pairs and chains on the real code against a set model",
     REAL + "All ordered pairs over about 920 descriptions plus 250 wide ones, and all chains of two operations over a smaller alphabet. " + ASSUME)
prop("M03", "Merging amount descriptions never admits too small an amount",
     "The merged requirement of two components admits only amounts that one of them admits and that are not below the smallest amount of either, keeps "
     "every amount both admit, and its largest amount is the larger of the two. It is independent of the order of the operands, and is unsatisfiable "
     "exactly when one of them is.",
     ["inputs", "histories"], "every ordered pair of descriptions of any kind, and every chain of merges followed by an intersection",
     "A wrong merge only shows for particular combinations of kinds, offsets and steps; the tests check a few.",
     [MAN], [("kind-by-kind dispatch of the merge", MAN)],
     "exhaustive enumeration of operand pairs and chains on the real code against a set model",
     REAL + "All ordered pairs and all short chains over the bounded alphabet. " + ASSUME)
prop("M04", "Removing amounts from a description removes exactly those amounts",
     "Subtracting a set of amounts from a description leaves exactly the amounts that were not removed, in every view of the result, and the "
     "operand unchanged.",
     ["inputs", "histories"], "every description in the bound and every set of amounts to remove, including repeated removals",
     "The result kind depends on where the removed amounts lie; the tests only remove a few amounts.",
     [MAN], [("subtraction per kind", MAN)],
     "exhaustive enumeration of descriptions and removed sets on the real code against a set model",
     REAL + "All subsets of a small interval are removed from every description, also twice in a row. " + ASSUME)
prop("M05", "Component and compiler requirements combine consistently",
     "A requirement combining witness amounts, constants and lookup tables is satisfiable, intersected, merged and checked exactly as its parts are: "
     "intersection with a compiler's limits keeps precisely the amounts the compiler can provide, and a component asking for lookups or a constant "
     "column is rejected by a compiler that has none. Changing the compiler's witness limit admits every amount up to and including the limit.",
     ["inputs", "configurations"], "every combination of witness description, constant requirement, lookup requirement and compiler limit in the bound",
     "The tests construct a handful of requirements; the interplay of three independent parts is not enumerated.",
     [MAN], [("component requirement and compiler requirement algebra", MAN)],
     "exhaustive enumeration of combined requirements on the real code against a reference model",
     REAL + "All combinations of the three parts over a bounded alphabet. " + ASSUME)
prop("M06", "Merged gate requirements count every distinct gate once",
     "The number of gates announced for a composition of components counts each distinct kind of gate exactly once, however the composition is "
     "nested, ordered or repeated.",
     ["inputs", "histories"], "every composition tree up to the bound over a small alphabet of gate kinds with equal and unequal parameters",
     "The tests merge a few requirements; deduplication depends on the ordering of heterogeneous entries, which only shows for particular mixes.",
     [MAN], [("ordered set of gate descriptions with type-then-parameter comparison", MAN)],
     "exhaustive enumeration of composition trees on the real code against a set model",
     REAL + "All sequences and groupings of merges up to the bound. " + ASSUME)
prop("H01", "Distributing tasks places every task and stays within 11/9 of the best load",
     "Every task is given to exactly one existing agent, nothing is invented, and the busiest agent's load is at most 11/9 of the smallest possible "
     "one, for any list of task sizes, including empty and zero-sized ones.",
     ["inputs"], "every multiset of task sizes in the bound, every number of agents, several task numberings and input orders",
     "The existing test compares a few instances with a brute force; the ratio and completeness depend on the binary search and on the placement order.",
     [INC + "detail/huang_lu.hpp"], [("threshold search and first-fit placement", INC + "detail/huang_lu.hpp")],
     "exhaustive enumeration of bounded scheduling instances on the real code against an exact optimum",
     "The real header is compiled unchanged; the optimum is computed exactly by dynamic programming in the harness. " + ASSUME)
prop("L01", "Lookup table files load exactly or are refused",
     "A lookup table text with a row count and that many rows of hexadecimal values loads to exactly those values, for every length of value the field "
     "can hold; a text with a missing row or value, an extra value, foreign characters or no count is refused without an exception. Of several "
     "candidate files the first one that exists and is well formed is used.",
     ["inputs", "configurations"], "every row text over a small alphabet, every truncation, every value length, every combination of candidate files",
     "No test reads a table file at all except through a proof of a whole hash.",
     [INC + "detail/lookup_table_loaders.hpp"], [("row grammar, header parsing and candidate search", INC + "detail/lookup_table_loaders.hpp")],
     "exhaustive enumeration of bounded table texts and file sets on the real parser against a reference parser",
     "The real header is compiled unchanged, with a field whose elements are plain big integers; files are written in a scratch directory. " + ASSUME)
prop("L02", "The embedded SHA-2 split tables hold exactly the right rows",
     "Each embedded table pairs a byte with every sparse image that has the byte's bits as digit parities: no image is repeated or wrong, every image "
     "that a 32-bit word can produce in a SHA-256 round is present, and the table for the base-7 rounds holds nothing else. The rows are the same "
     "whatever the size of the field, and unknown table names are refused.",
     ["inputs", "configurations"], "every row of both tables, every 32-bit word's images, several field sizes",
     "A single wrong constant among more than a hundred thousand only matters for particular hash inputs.",
     [INC + "detail/lookup_table_loaders.hpp", INC + "detail/lookup_table_precomputes.hpp"],
     [("embedded precomputed rows and their decoding", INC + "detail/lookup_table_precomputes.hpp")],
     "exhaustive enumeration of all table rows and of all reachable sparse images",
     "The real tables and loader are compiled unchanged; reachable images are enumerated over all relevant bits of a word. "
     "Trusts the compiler and the FIPS 180-4 rotation amounts written in the harness.")
SPLIT = INC + "components/hashes/sha2/plonk/detail/split_functions.hpp"
prop("S01", "Splitting a word gives its chunks and their sparse images",
     "Splitting the bits of a word into consecutive chunks yields the binary value of every chunk, the last chunk holding the most significant bits, and "
     "the value of the same bits read as digits in the requested base.",
     ["inputs", "configurations"], "every word and every division into chunks in the bound, several bases, and the 32/64-bit layouts used by SHA-2",
     "Only reached through whole hash components, which are not run on chosen words.",
     [SPLIT], [("chunk-by-chunk accumulation", SPLIT)],
     "exhaustive enumeration of words and layouts on the real code against positional arithmetic",
     "The real header is compiled unchanged over plain big integers. " + ASSUME)
prop("S02", "Reading a sparse sum back gives the right xor, majority or choice bits",
     "Decoding a number from its digits yields, chunk by chunk, the digits' parity, majority or choice bits and the digits themselves; so encoding three "
     "words, adding them with the prescribed weights and decoding gives exactly their xor, majority and choice.",
     ["inputs", "configurations"], "every digit vector and division in the bound, every triple of short words, and the 32/64-digit layouts used by SHA-2",
     "Only reached through whole hash components; a wrong digit-to-bit table entry needs a particular combination of three bits.",
     [SPLIT], [("digit extraction with cached powers and digit-to-bit tables", SPLIT)],
     "exhaustive enumeration of digit vectors and word triples on the real code against positional arithmetic",
     "The real header is compiled unchanged over plain big integers. " + ASSUME)
prop("P01", "The compile-time power equals repeated multiplication",
     "Raising a value to a non-negative power gives the product of that many copies, in any multiplicative structure and at compile time as well as at "
     "run time.",
     ["inputs"], "every base and exponent in the bound over machine words, a small ring and wide integers",
     "Used only inside curve components that no fast test reaches.",
     ["include/nil/detail/static_pow.hpp"], [("square-and-multiply loop", "include/nil/detail/static_pow.hpp")],
     "exhaustive enumeration of bases and exponents on the real code against repeated multiplication",
     "The real header is compiled unchanged. " + ASSUME)
prop("O01", "Opcodes and their bytes and names correspond one to one, as the EVM defines them",
     "Every EVM opcode byte decodes to the opcode of that name, the opcode encodes back to the same byte and prints its own name, and no other byte "
     "decodes. The reported number of opcodes is the number of defined bytes.",
     ["inputs"], "all byte values, all opcodes and all pairs of opcodes",
     "The tests touch a handful of opcodes; a swapped or duplicated entry is only visible for that entry.",
     [INC + "zkevm/zkevm_opcodes.hpp"], [("two-way opcode map and name switch", INC + "zkevm/zkevm_opcodes.hpp")],
     "exhaustive enumeration of all byte values on the real tables against the EVM specification",
     "The real header is compiled unchanged; trusts the specification table typed into the harness (Cancun).")
