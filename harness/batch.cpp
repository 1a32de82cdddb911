// C06: component batching.
#include <vcomponent.hpp>

#include <nil/blueprint/component_batch.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/swap.hpp>

namespace {
    namespace bc = nil::blueprint::components;
    typedef vp::small_field<97> F;
    typedef vp::types<F> T;
    typedef T::var var;
    typedef vp::snark::plonk_constraint_system<F> AT;
    typedef nil::blueprint::basic_non_native_policy<F> policy;
    typedef bc::multiplication<AT, F, policy> multiplication;
    typedef bc::addition<AT, F, policy> addition;
    typedef bc::flexible_swap<AT, F> swap;

    constexpr std::uint64_t P = 97, CONSTANT = 5;

    // One call; operands are public inputs (0, 1), a batched constant (2) or earlier results (3, ...).
    struct call {
        enum kind_type { MUL, ADD, SWAP, PLAIN_ADD } kind;
        std::size_t x, y;
    };
    const char *NAMES[] = {"batched multiplication", "batched addition", "batched swap", "addition"};
    enum mode_type { ASSIGNMENT_ONLY, CIRCUIT_FIRST, ASSIGNMENT_FIRST };
    const char *MODES[] = {"assignment only", "all circuits, then all assignments", "all assignments, then all circuits"};

    std::size_t results_of(const call &c) {
        return c.kind == call::SWAP ? 2 : 1;
    }

    struct setting {
        std::size_t width, start_row, plain_row;
    };

    void run(const std::vector<call> &calls, mode_type mode, const setting &at, const std::vector<std::uint64_t> &pub) {
        VH_CASE([&] {
            std::ostringstream os;
            for (auto &c : calls) os << NAMES[c.kind] << " of " << c.x << " and " << c.y << "; ";
            os << MODES[mode] << ", " << at.width << " columns, batches from row " << at.start_row << ", inputs " << pub[0] << " " << pub[1];
            return os.str();
        }());
        T::circuit bp;
        T::assignment as(at.width, 1, 1, 10);
        std::vector<var> vars;
        std::vector<std::uint64_t> wanted;
        for (std::size_t i = 0; i < pub.size(); i++) {
            as.public_input(0, i) = pub[i];
            if (i == 2) continue;    // the bit of the swaps
            vars.push_back(T::pub(0, i));
            wanted.push_back(pub[i]);
        }
        vars.push_back(as.add_batch_constant_variable(CONSTANT));
        wanted.push_back(CONSTANT);
        auto perform = [&](bool circuit, bool assignment, bool first) {
            std::size_t next = 3, row = at.plain_row;
            for (auto &c : calls) {
                std::vector<var> out;
                var x = vars[c.x], y = vars[c.y];
                switch (c.kind) {
                    case call::MUL:
                        if (circuit) out = {as.add_input_to_batch_circuit<multiplication>({x, y}).output};
                        if (assignment) out = {as.add_input_to_batch_assignment<multiplication>({x, y}).output};
                        break;
                    case call::ADD:
                        if (circuit) out = {as.add_input_to_batch_circuit<addition>({x, y}).output};
                        if (assignment) out = {as.add_input_to_batch_assignment<addition>({x, y}).output};
                        break;
                    case call::SWAP: {
                        swap::input_type in;
                        in.inp = {T::pub(0, 2), x, y};
                        if (circuit) {
                            auto r = as.add_input_to_batch_circuit<swap>(in);
                            out = {r.output[0], r.output[1]};
                        }
                        if (assignment) {
                            auto r = as.add_input_to_batch_assignment<swap>(in);
                            out = {r.output[0], r.output[1]};
                        }
                        break;
                    }
                    case call::PLAIN_ADD: {
                        std::vector<std::uint32_t> w = {0, 1, 2}, none;
                        addition component(w, none, none);
                        addition::input_type in = {x, y};
                        if (circuit || mode == ASSIGNMENT_ONLY) out = {generate_circuit(component, bp, as, in, row).output};
                        if (assignment) out = {generate_assignments(component, as, in, row).output};
                        row++;
                        break;
                    }
                }
                for (std::size_t i = 0; i < out.size(); i++) {
                    if (first) {
                        vars.push_back(out[i]);
                    } else {
                        VH_CHECK(vars[next + i] == out[i], "results-differ", "circuit and assignment get different results for the same call");
                    }
                    if (assignment) {
                        std::uint64_t a = wanted[c.x], b = wanted[c.y];
                        std::uint64_t want = c.kind == call::MUL ? a * b % P : c.kind == call::SWAP ? ((pub[2] ^ i) ? b : a) : (a + b) % P;
                        wanted.push_back(want);
                        VH_CHECK(vp::small(var_value(as, out[i])) == want, "early-value",
                                 "the result is " << vp::small(var_value(as, out[i])) << " instead of " << want << " before the batches are placed");
                    }
                }
                next += out.size();
                vh::count_transitions();
            }
            return row;
        };
        std::size_t plain_end;
        switch (mode) {
            case ASSIGNMENT_ONLY:
                plain_end = perform(false, true, true);
                break;
            case CIRCUIT_FIRST:
                perform(true, false, true);
                plain_end = perform(false, true, false);
                break;
            default:
                perform(false, true, true);
                plain_end = perform(true, false, false);
        }
        std::size_t end = as.finalize_component_batches(bp, at.start_row);
        as.finalize_constant_batches(bp, 0);
        // space: what fits next to each other goes into one row
        std::map<int, std::set<std::vector<std::string>>> different;
        std::size_t most_rows = 0, instances = 0;
        for (auto &c : calls) {
            if (c.kind == call::PLAIN_ADD) continue;
            auto name = [&](std::size_t i) { return std::to_string(vars[i].index) + "/" + std::to_string(vars[i].rotation) + "/" + std::to_string(vars[i].type); };
            different[c.kind].insert({name(c.x), name(c.y)});
        }
        for (auto &d : different) {
            std::size_t size = d.first == call::SWAP ? 5 : 3, fit = at.width / size;
            most_rows += (d.second.size() + fit - 1) / fit;
            instances += d.second.size();
        }
        VH_CHECK(end == at.start_row + most_rows, "rows", "takes " << end - at.start_row << " rows instead of " << most_rows << " for " << instances << " instances");
        for (std::size_t c = 0; c < at.width; c++) {
            VH_CHECK(as.witness_column_size(c) <= std::max(end, plain_end), "rows", "writes to row " << as.witness_column_size(c) - 1);
        }
        auto &map = as.get_batch_variable_map();
        for (std::size_t i = 3; i < vars.size(); i++) {
            auto &v = vars[i];
            auto it = map.find(v);
            if (it != map.end()) v = it->second;
            VH_CHECK(v.index < 100, "unplaced", "a result has no place in the table");
        }
        for (std::size_t i = 0; i < vars.size(); i++) {
            VH_CHECK(vp::small(var_value(as, vars[i])) == wanted[i], "value",
                     "value " << i << " is " << vp::small(var_value(as, vars[i])) << " instead of " << wanted[i]);
        }
        // accepted, and no other content is
        vp::system<F> sys(bp, as);
        std::vector<std::size_t> cells;
        for (std::size_t i = 3; i < vars.size(); i++) cells.push_back(sys.cell(vars[i], 0));
        sys.finish();
        for (auto &c : cells) c = sys.find(c);
        vp::values fixed;
        std::string why;
        VH_CHECK(sys.load(as, true, fixed, why) && sys.satisfied(fixed, why), "rejected", "the table does not satisfy the circuit: " << why);
        bool accepted;
        {
            vh::quiet q;
            accepted = nil::blueprint::is_satisfied<F>(bp, as);
        }
        VH_CHECK(accepted, "rejected", "the table is rejected");
        vh::count_traces();
        VH_CHECK(sys.load(as, false, fixed, why), "constants", why);
        vp::system<F>::search search {sys,
                                      [&](const vp::values &v) {
                                          for (std::size_t i = 0; i < cells.size(); i++) {
                                              if (v[cells[i]] == vp::system<F>::NONE || v[cells[i]] != wanted[i + 3]) return true;
                                          }
                                          return false;
                                      },
                                      [&](const vp::values &) {
                                          VH_CHECK(false, "unsound", "some table with other results satisfies the circuit");
                                          return false;
                                      }};
        search.go(fixed);
        vh::count("search_steps", search.nodes);
        vh::count_states();
    }

    void programs(std::vector<call> &calls, std::size_t values, std::size_t left, const std::vector<call::kind_type> &kinds, const std::vector<setting> &settings,
                  const std::vector<std::vector<std::uint64_t>> &inputs) {
        if (!calls.empty()) {
            for (auto mode : {ASSIGNMENT_ONLY, CIRCUIT_FIRST, ASSIGNMENT_FIRST}) {
                for (auto &at : settings) {
                    for (auto &in : inputs) run(calls, mode, at, in);
                }
            }
        }
        if (!left) return;
        for (auto kind : kinds) {
            for (std::size_t x = 0; x < values; x++) {
                for (std::size_t y = 0; y < values; y++) {
                    calls.push_back({kind, x, y});
                    programs(calls, values + results_of(calls.back()), left - 1, kinds, settings, inputs);
                    calls.pop_back();
                }
            }
        }
    }

    void c06() {
        vh::declare("search_steps");
        vh::cfg().bounds =
            "every program of batched and plain calls whose operands are two inputs, a batched constant and earlier results, in three orders of "
            "circuit and assignment generation: up to 3 calls of multiplication, addition and plain addition in 3 and 7 columns, up to 2 calls of "
            "those and swap in 5, 9 and 11 columns for four inputs" +
            std::string(vh::thorough() ? ", up to 4 calls of multiplication and addition in 7 columns" : "");
        auto all = [&](std::vector<call::kind_type> kinds, std::size_t length, std::vector<setting> settings,
                       std::vector<std::vector<std::uint64_t>> inputs) {
            vh::parallel(kinds.size() * 9, [&](std::size_t i) {
                std::vector<call> calls = {{kinds[i / 9], i % 9 / 3, i % 3}};
                programs(calls, 3 + results_of(calls[0]), length - 1, kinds, settings, inputs);
            });
        };
        all({call::MUL, call::ADD, call::PLAIN_ADD}, 3, {{3, 4, 0}, {7, 0, 5}}, {{2, 3, 0}});
        all({call::MUL, call::ADD, call::SWAP, call::PLAIN_ADD}, 2, {{5, 4, 0}, {9, 3, 0}, {11, 0, 3}},
            {{2, 3, 0}, {2, 3, 1}, {0, 1, 0}, {5, 5, 1}});
        if (vh::thorough()) all({call::MUL, call::ADD}, 4, {{7, 0, 9}}, {{2, 3, 0}});
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"C06", c06}});
}
