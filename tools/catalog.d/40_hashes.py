POS = INC + "components/hashes/poseidon/plonk/"
FLEX = INC + "components/systems/snark/plonk/flexible/poseidon.hpp"
prop("K01", "The poseidon circuits accept exactly the output of the permutation",
     "For every state, the table filled in by the fixed and by the flexible poseidon component is accepted and holds the poseidon permutation of the state, for every supported number of witness columns and wherever "
     "the component is placed; no table with another output is accepted for it.",
     ["inputs", "prover behaviours"], "states of zeros, ones, largest elements and powers of two, both fields, every supported number of columns, several placements; every content of all other cells",
     "A wrong round constant or a missing constraint of one round leaves the honest outputs of the few tested states right or lets provers choose hashes freely.",
     [POS + "poseidon.hpp", POS + "poseidon_constants.hpp", FLEX],
     [("rounds of the fixed component", POS + "poseidon.hpp"), ("matrix and round constants", POS + "poseidon_constants.hpp"), ("rows and selectors for any number of columns", FLEX)],
     "exhaustive enumeration of bounded states and layouts; for each a complete search over the contents of all cells of the real circuit, against a reference permutation with its own constants",
     SHIM + BOUND)
SHA = INC + "components/hashes/sha2/plonk/"
SHATOOLS = SHA + "detail/split_functions.hpp"
prop("K02", "The SHA-256 compression circuit accepts exactly the compressed state",
     "For every state and message block of 32-bit words, the table filled in by sha256_process is accepted and holds the state that the compression function of SHA-256 gives, wherever the component is placed. "
     "No table with another resulting state is accepted for them, provided that the sparse forms of the first b, c, f and g are right.",
     ["inputs", "prover behaviours"], "states and blocks of zeros, ones, alternating bits, the initial state and single bits, two placements; every content of all other cells of the 770 rows",
     "The circuit splits every word into chunks that are looked up in tables; one chunk, carry or copied cell that is not tied leaves all honest hashes right and lets a prover forge any other.",
     [SHA + "sha256_process.hpp", SHATOOLS, INC + "lookup_library.hpp"],
     [("message schedule, rounds and final sums", SHA + "sha256_process.hpp"), ("sparse forms of words", SHATOOLS), ("lookup tables of SHA-256", INC + "lookup_library.hpp")],
     "exhaustive enumeration of bounded inputs and placements; for each a complete search over the contents of all cells of the real circuit with its lookup tables, against a reference whose constants are computed",
     SHIM + BOUND + "The sparse forms of the first b, c, f and g are assumed to be right: nothing ties them to the state (known finding).")
prop("K03", "The SHA-256 circuit accepts exactly the hash of 64 bytes",
     "For every message of 64 bytes, given as four numbers of 128 bits, the table filled in by the sha256 component is accepted and its two results are the halves of the SHA-256 hash of the message. "
     "The decomposition component it begins with gives the eight words of two numbers. No table with other results is accepted, provided that the chunks of the decomposition have 16 bits.",
     ["inputs", "prover behaviours"], "single bits, zeros, ones, alternating and mixed bits, two placements; every content of all other cells",
     "The padding, the order of the words and the packing of the hash are wired by hand; a part that is not connected to the rest leaves honest hashes right and every other hash provable.",
     [SHA + "sha256.hpp", SHA + "decomposition.hpp", SHA + "sha256_process.hpp"],
     [("two compressions, padding and packing", SHA + "sha256.hpp"), ("words of the message", SHA + "decomposition.hpp")],
     "exhaustive enumeration of bounded inputs and placements; for each a complete search over the contents of all cells of the real circuit with its lookup tables, against a reference whose constants are computed",
     SHIM + BOUND + "The chunks of the decomposition are assumed to have 16 bits: nothing limits them (known finding); and the sparse forms as in K02.")
prop("K04", "The SHA-512 circuits accept the hash and tie every cell they use",
     "For every state and message block of 64-bit words, the table filled in by sha512_process is accepted and holds the state that the compression function of SHA-512 gives; for every two points and number given "
     "in limbs of 66 bits, the table filled in by the sha512 component is accepted and holds the SHA-512 hash of their bits behind each other; wherever the components are placed. No cell in use can be given another content alone.",
     ["inputs", "placements"], "zeros, ones, alternating bits, the initial state, and single bits set or cleared; two placements; every change of a single cell by one",
     "The limbs are cut into 77 chunks of different sizes and put together again as words by hand; a wrong width or order only shows for numbers with the right bits, and the existing test compares no result.",
     [SHA + "sha512.hpp", SHA + "sha512_process.hpp", SHATOOLS],
     [("words of the message, padding and two compressions", SHA + "sha512.hpp"), ("message schedule, rounds and final sums", SHA + "sha512_process.hpp")],
     "exhaustive enumeration of bounded inputs, placements and changes of single cells on the real circuits, against a reference whose constants are computed",
     SHIM + BOUND + "That no other result is accepted at all is not claimed: the circuits have no range checks and no lookups (see DESIGN.md).")
