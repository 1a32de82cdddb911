ASG = INC + "blueprint/plonk/assignment.hpp"
CIR = INC + "blueprint/plonk/circuit.hpp"
GID = INC + "gate_id.hpp"
LIB = INC + "lookup_library.hpp"
SAT = INC + "utils/satisfiability_check.hpp"
CON = INC + "utils/connectedness_check.hpp"
SHIM = ("The real headers are compiled unchanged against a stand-in for the unavailable crypto3 library (shim/), which is part of the trusted base "
        "together with the compiler and the reference model. ")
BOUND = "Nothing is claimed beyond the stated bounds."

prop("C01", "The assignment table keeps every value put in it, and only those",
     "Whatever sequence of writes, selector activations, column fills, batched values and private values is made, every cell reads back the last value "
     "written to it, every other cell reads as empty, sizes cover exactly the rows written, and the exported table shows the same cells.",
     ["histories"], "every sequence of operations up to the bound over an alphabet of writes to all kinds of columns",
     "The tests fill tables once through components and never look at untouched cells, sizes or the exported text after mixed histories.",
     [ASG], [("cell access that grows columns on demand, selector activation, export", ASG)],
     "exhaustive enumeration of operation sequences on the real code against a map model",
     SHIM + "All sequences of four operations (five in the thorough tier); every observation compared after each. " + BOUND)
prop("C02", "The satisfiability verdict is exactly whether every constraint holds",
     "A circuit and table are declared satisfied exactly when every gate constraint holds on every row its selector is active, every lookup on an active row "
     "is in its table, and both ends of every copy constraint are equal. No cell, row, gate, lookup or copy constraint is left out or counted twice.",
     ["inputs", "configurations"], "every table content over a field of three elements for a set of circuits covering all kinds of constraints, rotations and tables",
     "Tests only use the verdict to decide other things: a verdict that skips a row or a gate makes all of them pass vacuously.",
     [SAT], [("evaluation of gates, lookups, dynamic lookups and copy constraints", SAT)],
     "exhaustive enumeration of table contents on the real code against an independent evaluator",
     SHIM + "Every content of every cell a constraint can see, on and off selectors, static and dynamic lookup tables. Sub-tables are assumed to span all rows of their table. " + BOUND)
prop("C03", "Gates are shared exactly when they are the same gate",
     "Adding a gate or lookup gate returns the selector of an earlier one if and only if it states the same constraints; otherwise it gets a selector of its own "
     "and is stored. How it was passed in (alone, as a list) and what was added in between make no difference.",
     ["inputs", "histories"], "every sequence of additions up to the bound over an alphabet of constraints, lookups, rotations, tables and ways of passing them",
     "A false match silently drops a constraint from the circuit and everything still verifies; the tests add a handful of gates.",
     [CIR, GID], [("gate identifiers computed by evaluation at random points", GID), ("selector maps", CIR)],
     "exhaustive enumeration of addition histories on the real code against a normal-form model",
     SHIM + "Constraints are compared in expanded normal form; a 61-bit field keeps accidental collisions of the evaluation points out of reach. " + BOUND)
prop("C04", "Every copy constraint between different cells is kept",
     "Every copy constraint added between two different table cells is kept, in order, with its two ends; only constraints of a cell with itself or with private "
     "storage are dropped.",
     ["inputs", "histories"], "every pair of variables over all column kinds, and every sequence of additions in the bound",
     "A dropped copy constraint disconnects components without any visible failure on honest tables.",
     [CIR], [("filtering in copy constraint addition", CIR)],
     "exhaustive enumeration of variable pairs and histories on the real code",
     SHIM + BOUND)
prop("C05", "Batched constants end up in the constant columns and stay connected",
     "After batched constants are placed, every cell copied from a batched constant is connected to a constant cell holding that value, nothing that was already in the "
     "constant columns is overwritten, and a constant requested several times is placed consistently.",
     ["inputs", "histories"], "every history of constant requests, existing constant contents and start rows in the bound",
     "The tests use components with few constants and do not look at the cells that were there before.",
     [ASG], [("placement of batched constants and rewriting of copy constraints", ASG)],
     "exhaustive enumeration of request histories on the real code against a reference model",
     SHIM + BOUND)
prop("C08", "The connectedness verdict is exactly graph connectivity",
     "The check that a component's inputs and outputs are joined by its constraints answers yes exactly when, in the graph whose edges are shared gates, lookups and copy "
     "constraints, everything that has to be connected is connected.",
     ["inputs", "configurations"], "every small circuit in the bound: gates, lookups, copy constraints, constants and rotations over a small table",
     "Tests call it only on correct components, so a check that always answers yes would pass.",
     [CON], [("zones of cells, union by gates and copy constraints", CON)],
     "exhaustive enumeration of small circuits on the real code against a graph model",
     SHIM + BOUND)

BAT = INC + "component_batch.hpp"
APX = INC + "blueprint/plonk/assignment_proxy.hpp"
CPX = INC + "blueprint/plonk/circuit_proxy.hpp"
prop("C06", "Batched components compute what the same components compute unbatched",
     "Components requested through a batch give, once the batches are finalized, exactly the results of separate components for their inputs, whatever the wiring between "
     "batched results, later calls and batched constants and in whichever order circuit and assignment were requested. Every accepted table holds those results, and no "
     "two calls share cells.",
     ["inputs", "histories", "configurations"], "every program of calls in the bound, every wiring of operands, three orders of generation, several table widths",
     "The tests batch a few independent calls with one width and never search for tables the batch wrongly accepts.",
     [BAT, ASG], [("batch collection, result placeholders, finalization", BAT), ("replacement of batched variables in copy constraints", ASG)],
     "exhaustive enumeration of call programs on the real code with complete search over all witness contents",
     SHIM + "The witness search enumerates every content of the cells that could change a result. " + BOUND)
prop("C07", "Users sharing a table and circuit through proxies see and export their own part",
     "Through a proxy every user reads and writes the shared table and circuit, and each proxy's record of used rows, gates, lookups, copy constraints and selectors "
     "is exactly what that user did. The exported part and the verdict for one user cover exactly their own part.",
     ["histories"], "every history of operations of two users in the bound, on the table and on the circuit",
     "The record decides what is exported for each prover; a missing entry drops constraints from a proof silently. No test uses two proxies.",
     [APX, CPX, SAT], [("row, selector and lookup bookkeeping, export", APX), ("used gates and copy constraints", CPX), ("verdict on proxies", SAT)],
     "exhaustive enumeration of interleaved histories on the real code against a model of who did what",
     SHIM + "Two users, all interleavings up to five operations (six in the thorough tier). " + BOUND)
prop("C11", "The built-in lookup tables contain exactly the relation they stand for",
     "Every built-in lookup table and each of its sub-tables holds exactly the rows of the function it is named after (exclusive or, sparse forms, majority, choice, byte "
     "range, opcodes), and has the columns and rows it announces.",
     ["inputs"], "every row of every built-in table",
     "A wrong or missing row makes honest proofs fail or false ones pass for that input only; tests touch a few rows.",
     [LIB], [("table generators", LIB)],
     "exhaustive enumeration of all table rows from the real code against the defining functions",
     SHIM + "All rows are compared, about six million. " + BOUND)
prop("C12", "Every reserved lookup table is provided with its own content",
     "Whatever order tables and sub-tables are reserved, defined and looked up in, every reserved name has one index of its own, tables that were not reserved are not "
     "provided, and the definition found under a name is the one of that table.",
     ["histories"], "every history of reservations, definitions and look-ups in the bound",
     "Tests reserve once in one order; indices and dynamic definitions depend on the history.",
     [LIB, CIR], [("reservation of static and dynamic tables, index assignment", LIB), ("forwarding", CIR)],
     "exhaustive enumeration of reservation histories on the real code against a set model",
     SHIM + BOUND)

STR = INC + "component_stretcher.hpp"
MOV = INC + "utils/gate_mover.hpp"
prop("C09", "A stretched component demands the same of its cells as the original",
     "A component stretched over fewer columns and more rows demands the same of its inputs, constants and cells as the original component: under an injective map of cells, the same constraints on the same rows, the same "
     "copy constraints and the same values and results. It uses exactly the rows it announces.",
     ["configurations", "inputs"], "every layout in the bound of gates with rotations, constants, copy constraints, inputs and results over up to four rows, and every stretching factor",
     "A gate or copy constraint that gets lost or reads a neighbouring cell leaves honest tables satisfied.",
     [STR], [("splitting of gates over rows, zones and copy constraints", STR)],
     "exhaustive enumeration of component layouts on the real code against the constraints of the original component",
     SHIM + "Components with lookup gates are outside of the bound: the stretcher does not handle them. " + BOUND)
prop("C10", "Moving an expression to other cells changes nothing but the cells",
     "An expression, constraint or gate moved by a map of variables is the polynomial obtained by replacing each variable by its image, whatever its form.",
     ["inputs"], "every small expression (sums, products, powers, coefficients, nested) under each of a set of maps",
     "Nested powers and products of sums hardly occur in the tests.",
     [MOV], [("recursion over expressions", MOV)],
     "exhaustive enumeration of expressions on the real code against substitution in the expanded polynomial",
     SHIM + BOUND)
