ANN = INC + "component.hpp"
prop("G01", "Components refuse configurations they do not support",
     "Creating a component succeeds exactly when the columns and constants it is given fit its announced manifest and its numbers of bits and mode are supported; "
     "otherwise an assertion is raised rather than a circuit produced.",
     ["configurations"], "every component in the list, every number of witness columns around the announced ones, with and without constants, every number of bits 0 to 130 and mode of the bit and comparison components",
     "A circuit laid out in too few columns silently overlaps itself; tests only construct supported configurations.",
     [ANN, INC + "manifest.hpp", NNF + "detail/bit_builder_component.hpp", NNF + "comparison_checked.hpp", NNF + "comparison_flag.hpp", NNF + "comparison_unchecked.hpp", FLD + "range_check.hpp"],
     [("check of the manifest in the constructor", ANN), ("assertions on bits and modes", NNF)],
     "exhaustive enumeration of component configurations, constructing the real component in each, against its announcement and a reference predicate",
     SHIM + "Unsupported configurations are recognised by the assertion handler. " + BOUND)
prop("G02", "Announced columns, rows and gates do not depend on what was asked before",
     "The manifest, the rows and the gates a component announces for a configuration are the same whatever other configurations were announced or built earlier in the process.",
     ["histories", "configurations"], "every ordered pair of configurations of each component in the list, and the whole list in both orders",
     "A value kept from the first call is right in a test that makes one call per process.",
     [FLD + "range_check.hpp", NNF + "comparison_checked.hpp", NNF + "comparison_flag.hpp", FLX + "pow_factor.hpp", PLH + "fri_cosets.hpp", PLH + "fri_array_swap.hpp", INC + "manifest.hpp"],
     [("function-local statics in get_manifest and get_gate_manifest", INC + "components/")],
     "exhaustive enumeration of histories of announcements on the real components, each compared with the announcement made alone in a fresh process",
     SHIM + BOUND)
prop("G03", "Merged gate announcements cover the gates of a composition",
     "For any two component configurations built in one circuit, the number of gates the circuit contains never exceeds the number of gates of the merged gate manifests, and a "
     "configuration merged with itself needs the gates only once.",
     ["configurations"], "every ordered pair of the listed configurations of all components",
     "The order used to recognise equal gates is hand-written per component; two configurations must meet for a wrong order to show.",
     [INC + "manifest.hpp", NNF + "equality_flag.hpp", NNF + "division_remainder.hpp", NNF + "comparison_checked.hpp", NNF + "detail/bit_builder_component.hpp", FLX + "additions.hpp", FLX + "multiplications.hpp",
      FLX + "x_index.hpp", FLX + "constant_pow.hpp", FLX + "poseidon.hpp", FLX + "pow_factor.hpp", PLH + "fri_array_swap.hpp", INC + "zkevm/state_selector.hpp"],
     [("operator< of each gate_manifest_type", INC + "components/"), ("gate_manifest::merge_with", INC + "manifest.hpp")],
     "exhaustive enumeration of pairs of component configurations, building both in one real circuit, against the merged announcement",
     SHIM + BOUND)
