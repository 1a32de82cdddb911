// K01: the Poseidon permutation in a fixed and in any number of columns.
#include <vsolve.hpp>

#include <nil/blueprint/components/hashes/poseidon/plonk/poseidon.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/poseidon.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>

namespace {
    namespace bc = nil::blueprint::components;
    namespace fields = nil::crypto3::algebra::fields;
    typedef vp::big::integer integer;
    typedef vp::big::number number;

#include "poseidon_constants.inc"

    template<typename F>
    struct reference;
    template<>
    struct reference<fields::pallas_base_field> {
        static const char *name() { return "pallas"; }
        static const char *const *constants() { return PALLAS_CONSTANTS; }
        // the first element of the permutation of zeros, as published with the hash of the empty input
        static const char *zeros() { return "0x2fadbe2852044d028597455bc2abbd1bc873af205dfabb8a304600f3e09eeba8"; }
        static const char *modulus() { return "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001"; }
    };
    template<>
    struct reference<fields::vesta_base_field> {
        static const char *name() { return "vesta"; }
        static const char *const *constants() { return VESTA_CONSTANTS; }
        static const char *zeros() { return "0x3a3374a061464ec0aac7e0ff04346926c579d542f9d205a670ce4c18c004e5c1"; }
        static const char *modulus() { return "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"; }
    };

    typedef std::array<integer, 3> state;

    template<typename F>
    state permuted(state s) {
        static const integer p(reference<F>::modulus());
        static const std::vector<integer> c = [] {
            std::vector<integer> r;
            for (int i = 0; i < 174; i++) r.push_back(integer(reference<F>::constants()[i]));
            return r;
        }();
        for (int round = 0; round < 55; round++) {
            state q, n;
            for (int j = 0; j < 3; j++) {
                integer square = s[j] * s[j] % p;
                q[j] = square * square % p * square % p * s[j] % p;
            }
            for (int j = 0; j < 3; j++) n[j] = (c[3 * j] * q[0] + c[3 * j + 1] * q[1] + c[3 * j + 2] * q[2] + c[9 + 3 * round + j]) % p;
            s = n;
        }
        return s;
    }

    template<typename F>
    typename F::value_type to_value(const integer &v) {
        typename F::integral_type r = 0;
        for (int i = 3; i >= 0; i--) r = (r << 64) + typename F::integral_type(static_cast<std::uint64_t>((v >> (64 * i)) & 0xffffffffffffffffull));
        return typename F::value_type(r);
    }

    struct placement {
        const char *name;
        std::size_t first, spare, start;
        bool reversed;
    };
    const std::vector<placement> PLACEMENTS = {{"at the start of the table", 0, 0, 0, false}, {"in reversed columns after one, from row 3, after two other selectors", 1, 1, 3, true}};

    template<typename F, typename C>
    void explore(const std::string &name, std::size_t columns, const placement &at, const std::vector<state> &inputs, std::size_t deviating) {
        typedef vp::types<F> T;
        typedef typename T::var var;
        static const integer p(reference<F>::modulus());
        std::ostringstream where;
        where << name << " over " << reference<F>::name() << " in " << columns << " columns " << at.name;
        VH_CASE(where.str());
        std::vector<std::uint32_t> own;
        for (std::size_t i = 0; i < columns; i++) own.push_back(at.first + (at.reversed ? columns - 1 - i : i));
        const std::size_t width = at.first + columns + at.spare;
        C component(own, std::array<std::uint32_t, 0>(), std::array<std::uint32_t, 0>());
        typename T::circuit bp;
        typename T::assignment as(width, 1, 1, 70);
        typename C::input_type input;
        for (std::size_t i = 0; i < 3; i++) {
            input.input_state[i] = T::pub(0, i);
            as.public_input(0, i) = 0u;
        }
        if (at.start) {
            bp.get_dynamic_lookup_table_selector();
            bp.get_dynamic_lookup_table_selector();
        }
        vh::quiet q;
        auto result = bc::generate_circuit(component, bp, as, input, at.start);
        VH_CHECK(bp.num_gates() == C::get_gate_manifest(columns).get_gates_amount(), "gates", bp.num_gates() << " gates are not what is announced");
        VH_CHECK(C::get_rows_amount(columns) == component.rows_amount, "rows", "announces different numbers of rows");
        for (std::size_t c = 0; c < as.selectors_amount(); c++) {
            for (std::size_t r = 0; r < as.selector_column_size(c); r++) {
                VH_CHECK(as.selector(c, r).is_zero() || (r >= at.start && r < at.start + component.rows_amount), "rows", "enables a gate on row " << r << " outside of its own");
            }
        }
        vp::big::system<F> system(bp, as);
        std::vector<std::uint32_t> out;
        for (auto &v : result.output_state) out.push_back(system.find(system.cell(v, 0)));
        {
            auto in_vars = input.all_vars(), out_vars = result.all_vars();
            VH_CHECK(in_vars.size() == 3 && out_vars.size() == 3, "variables", "does not list its inputs and results");
            for (std::size_t i = 0; i < 3; i++) {
                VH_CHECK(in_vars[i].get() == input.input_state[i] && out_vars[i].get() == result.output_state[i], "variables", "lists other inputs or results");
            }
        }
        vp::big::solver<F> solver(system);
        system.load(as);
        const std::vector<bool> given = system.fixed;
        for (std::size_t n = 0; n < inputs.size(); n++) {
            auto &in = inputs[n];
            std::ostringstream what;
            what << where.str() << " of " << std::hex << in[0] << " " << in[1] << " " << in[2];
            VH_CASE(what.str());
            state want = permuted<F>(in);
            typename T::assignment table(width, 1, 1, 70);
            for (std::size_t i = 0; i < 3; i++) table.public_input(0, i) = to_value<F>(in[i]);
            auto filled = bc::generate_assignments(component, table, input, at.start);
            for (std::size_t i = 0; i < 3; i++) {
                VH_CHECK(filled.output_state[i] == result.output_state[i], "result-place", "circuit and assignment name different results");
                VH_CHECK(nil::blueprint::var_value(table, filled.output_state[i]) == to_value<F>(want[i]), "wrong-result", "element " << i << " of the result is wrong");
            }
            for (std::size_t c = 0; c < width; c++) {
                VH_CHECK(table.witness_column_size(c) <= (std::count(own.begin(), own.end(), c) ? at.start + component.rows_amount : 0), "rows", "writes to column " << c << " row " << table.witness_column_size(c) - 1);
            }
            bool same = system.load(table);
            std::string why = system.violated(system.honest);
            VH_CHECK(same && why.empty(), "honest-rejected", "the table filled in is rejected: " << (same ? why : "copy constraint"));
            vh::count_traces(1);
            const std::vector<number> honest = system.honest;
            auto start = [&](std::vector<number> &content, std::vector<bool> &known) {
                content.assign(system.places.size(), number {});
                known = given;
                for (std::size_t i = 0; i < system.places.size(); i++) {
                    if (system.places[i].type != var::column_type::public_input) continue;
                    std::uint32_t c = system.find(i);
                    content[c] = solver.to_number(in[system.places[i].row]);
                    known[c] = true;
                }
            };
            std::vector<number> content;
            std::vector<bool> known;
            bool any = false, wrong = false;
            solver.found = [&](const std::vector<number> &v, const std::vector<bool> &k) {
                any = true;
                for (std::size_t i = 0; i < 3; i++) wrong = wrong || !k[out[i]] || v[out[i]] != solver.to_number(want[i]);
            };
            auto decide = [&]() {
                any = wrong = false;
                std::uint64_t before = solver.steps;
                solver.solve(content, known);
                vh::count_transitions(solver.steps - before);
                vh::count_states(1);
                if (solver.stuck && !wrong) vh::left_out();
                VH_CHECK(!wrong, "wrong-accepted", "a table with another result is accepted");
            };
            start(content, known);
            decide();
            VH_CHECK(any, "search-misses", "the search does not find the accepted table");
            if (n >= deviating) continue;
            // a prover chooses some of the cells of a constraint at will
            std::set<std::set<std::uint32_t>> tried;
            for (std::size_t k = 0; k < system.constraints.size(); k++) {
                std::vector<std::uint32_t> cells;
                for (auto c : system.constraints[k].cells) {
                    c = system.find(c);
                    if (!std::count(cells.begin(), cells.end(), c)) cells.push_back(c);
                }
                for (std::uint32_t mask = 1; mask < (1u << cells.size()); mask++) {
                    if (__builtin_popcount(mask) > 3) continue;
                    std::set<std::uint32_t> chosen;
                    start(content, known);
                    for (std::size_t i = 0; i < cells.size(); i++) {
                        if (!(mask >> i & 1)) continue;
                        if (known[cells[i]]) {
                            chosen.clear();
                            break;
                        }
                        chosen.insert(cells[i]);
                    }
                    if (chosen.empty() || !tried.insert(chosen).second) continue;
                    for (auto c : chosen) {
                        content[c] = solver.math.add(honest[c], solver.math.one);
                        known[c] = true;
                    }
                    VH_CASE(what.str() << ", deviating in " << chosen.size() << " cells of constraint " << k);
                    decide();
                    VH_CHECK(!any, "other-state-accepted", "a table with another state after a round is accepted");
                }
            }
        }
        vh::sample(where.str());
    }

    template<typename F>
    void both() {
        typedef nil::crypto3::zk::snark::plonk_constraint_system<F> A;
        static const integer p(reference<F>::modulus());
        VH_CHECK(permuted<F>({0, 0, 0})[0] == integer(reference<F>::zeros()), "reference", "the reference is not the published permutation");
        const std::vector<integer> edges = {integer(0), integer(1), integer(p - 1), integer(2), integer((integer(1) << 254) - 1) % p};
        std::vector<state> all, some;
        for (auto &a : edges) {
            for (auto &b : edges) {
                for (auto &c : edges) {
                    all.push_back({a, b, c});
                    if (a < b && b != c) some.push_back({a, b, c});
                }
            }
        }
        const bool more = vh::thorough();
        vh::parallel(PLACEMENTS.size() * 56, [&](std::size_t job) {
            auto &at = PLACEMENTS[job % 2];
            std::size_t k = job / 2;
            if (k == 0) {
                explore<F, bc::poseidon<A, F>>("poseidon", 15, at, all, more ? 5 : 2);
            } else {
                explore<F, bc::flexible_poseidon<A, F>>("flexible poseidon", 3 * k, at, more ? all : some, more ? 2 : at.start && std::is_same<F, fields::pallas_base_field>::value);
            }
        });
    }

    void hash() {
        vh::cfg().bounds = std::string("both fields, 15 columns and every multiple of 3 columns up to 165, two placements, ") + (vh::thorough() ? "all" : "some") +
                           " triples of 0, 1, 2, -1 and 2^254-1; every table is decided by following the constraints from the inputs; and after every choice of up to three cells of a constraint deviating by one" + (vh::thorough() ? " from two states" : " (over vesta in 15 columns only)");
        vh::cfg().assumptions.push_back("the dependency is replaced by the stand-in of /verif/shim");
        vh::cfg().assumptions.push_back("the constants of the reference are those of the tree when the check was written; for pallas they give the published hash of the empty input");
        both<fields::pallas_base_field>();
        both<fields::vesta_base_field>();
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"K01", hash}});
}
