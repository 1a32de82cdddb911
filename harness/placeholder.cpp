// F07: the argument verifiers of the in-circuit proof verifier.
#include <vcomponent.hpp>

#include <nil/blueprint/utils/satisfiability_check.hpp>

#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f1_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/gate_component.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/permutation_argument_verifier.hpp>

namespace {
    namespace bc = nil::blueprint::components;
    using vp::placement;
    using vp::values;
    typedef boost::optional<values> expected;
    const std::uint64_t P = 257;
    typedef vp::small_field<P> F;
    typedef vp::snark::plonk_constraint_system<F> AT;
    typedef std::vector<vp::types<F>::var> V;

    const std::vector<placement> PLACES = {{0, 0, 0, false}, {3, 2, 1, true}};

    // Splits a flat input into the parts of a component's input.
    template<typename T>
    struct reader {
        const std::vector<T> &from;
        std::size_t at = 0;
        explicit reader(const std::vector<T> &f) : from(f) {
        }
        T one() {
            return from.at(at++);
        }
        std::vector<T> many(std::size_t n) {
            at += n;
            return std::vector<T>(from.begin() + (at - n), from.begin() + at);
        }
        std::array<T, 2> two() {
            T a = one(), b = one();
            return {a, b};
        }
    };

    std::uint64_t minus(std::uint64_t a, std::uint64_t b) {
        return (a + P - b) % P;
    }

    std::string in_columns(std::size_t width) {
        return " in " + std::to_string(width) + " columns";
    }

    std::vector<values> inputs(std::size_t n) {
        return vp::around(vp::distinct(n, P), P, 1);
    }

    std::uint64_t product(std::uint64_t beta, std::uint64_t gamma, const values &s, const values &t) {
        std::uint64_t r = 1;
        for (std::size_t i = 0; i < s.size(); i++) r = r * (((1 + beta) * gamma + s[i] + beta * t[i]) % P) % P;
        return r;
    }

    std::uint64_t folded(std::uint64_t theta, const values &c, std::uint64_t q) {
        std::uint64_t r = 0;
        for (std::size_t i = c.size(); i-- > 0;) r = (r * theta + c[i]) % P;
        return r * q % P;
    }

    std::uint64_t differences(const values &a, const values &s, const values &t) {
        std::uint64_t r = 0;
        for (std::size_t i = 0; i < s.size(); i++) r = (r + minus(s[i], t[i]) * a[i]) % P;
        return r;
    }

    void products(std::size_t m, std::size_t width) {
        typedef bc::detail::f1_loop<AT> C;
        auto s = vp::describe<F, C>("product of " + std::to_string(m) + " terms" + in_columns(width), width, m);
        s.input = [m](const V &v) {
            reader<V::value_type> r(v);
            C::input_type in;
            in.beta = r.one(), in.gamma = r.one(), in.s = r.many(m), in.t = r.many(m);
            return in;
        };
        s.expected = [m](const values &v) -> expected {
            reader<std::uint64_t> r(v);
            auto beta = r.one(), gamma = r.one();
            auto s = r.many(m), t = r.many(m);
            return values {product(beta, gamma, s, t)};
        };
        vp::sweep(s, inputs(2 + 2 * m), PLACES);
    }

    void sums(std::size_t m, std::size_t width) {
        typedef bc::detail::f3_loop<AT> C;
        auto s = vp::describe<F, C>("sum of " + std::to_string(m) + " differences" + in_columns(width), width, m);
        s.input = [m](const V &v) {
            reader<V::value_type> r(v);
            C::input_type in;
            in.alphas = r.many(m), in.s = r.many(m), in.t = r.many(m);
            return in;
        };
        s.expected = [m](const values &v) -> expected {
            reader<std::uint64_t> r(v);
            auto a = r.many(m), s = r.many(m), t = r.many(m);
            return values {differences(a, s, t)};
        };
        vp::sweep(s, inputs(3 * m), PLACES);
    }

    void gates(std::size_t d, std::size_t width) {
        typedef bc::detail::gate_component<AT> C;
        auto s = vp::describe<F, C>("gate of " + std::to_string(d + 1) + " constraints" + in_columns(width), width, d);
        s.input = [d](const V &v) {
            reader<V::value_type> r(v);
            C::input_type in;
            in.theta = r.one(), in.constraints = r.many(d + 1), in.selector = r.one();
            return in;
        };
        s.expected = [d](const values &v) -> expected {
            reader<std::uint64_t> r(v);
            auto theta = r.one();
            auto c = r.many(d + 1);
            return values {folded(theta, c, r.one())};
        };
        vp::sweep(s, inputs(d + 3), PLACES);
    }

    void permutations(std::size_t m) {
        typedef bc::permutation_verifier<AT> C;
        auto s = vp::describe<F, C>("permutation argument of " + std::to_string(m) + " columns", 6, m);
        s.input = [m](const V &v) {
            reader<V::value_type> r(v);
            C::input_type in;
            in.f = r.many(m), in.Se = r.many(m), in.Ssigma = r.many(m);
            in.L0 = r.one(), in.V = r.one(), in.V_zeta = r.one(), in.q_last = r.one(), in.q_pad = r.one();
            in.thetas = r.two();
            return in;
        };
        s.expected = [m](const values &v) -> expected {
            reader<std::uint64_t> r(v);
            auto f = r.many(m), e = r.many(m), sigma = r.many(m);
            auto L0 = r.one(), V = r.one(), Vz = r.one(), last = r.one(), pad = r.one();
            auto theta = r.two();
            std::uint64_t fe = 1, fs = 1;
            for (std::size_t i = 0; i < m; i++) {
                fe = fe * ((f[i] + theta[0] * e[i] + theta[1]) % P) % P;
                fs = fs * ((f[i] + theta[0] * sigma[i] + theta[1]) % P) % P;
            }
            return values {L0 * minus(1, V) % P, minus(1, (last + pad) % P) * minus(Vz * fs % P, V * fe % P) % P,
                           last * minus(V * V % P, V) % P};
        };
        vp::sweep(s, inputs(3 * m + 7), PLACES);
    }

    // The gates of the permutation argument take the second challenge from the row of the second column.
    void single_column() {
        typedef bc::permutation_verifier<AT> C;
        vp::types<F>::circuit bp;
        vp::types<F>::assignment as(6, 1, 1, 8);
        V v;
        for (std::size_t i = 0; i < 10; i++) {
            as.public_input(0, i) = i + 2;
            v.push_back(vp::types<F>::pub(0, i));
        }
        C component(std::vector<std::uint32_t> {0, 1, 2, 3, 4, 5}, std::vector<std::uint32_t> {}, std::vector<std::uint32_t> {}, 1);
        C::input_type in {{v[0]}, {v[1]}, {v[2]}, v[3], v[4], v[5], v[6], v[7], {v[8], v[9]}};
        VH_CASE("permutation argument of one column on row 1");
        generate_circuit(component, bp, as, in, 1);
        generate_assignments(component, as, in, 1);
        bool held = false;
        {
            vh::quiet q;
            held = nil::blueprint::is_satisfied<F>(bp, as);
        }
        VH_CHECK(held, "single-column-permutation", "the assigned table does not satisfy the circuit");
        vh::count_states(1);
        vh::count_transitions(2);
        vh::count_traces(1);
    }

    void gate_arguments(std::vector<std::size_t> sizes, std::size_t width) {
        typedef bc::basic_constraints_verifier<AT> C;
        std::string name = "gate argument of";
        for (auto n : sizes) name += " " + std::to_string(n);
        auto s = vp::describe<F, C>(name + in_columns(width), width, sizes);
        std::size_t total = std::accumulate(sizes.begin(), sizes.end(), std::size_t(0));
        s.input = [sizes, total](const V &v) {
            reader<V::value_type> r(v);
            C::input_type in;
            in.theta = r.one(), in.constraints = r.many(total), in.selectors = r.many(sizes.size());
            return in;
        };
        s.expected = [sizes, total](const values &v) -> expected {
            reader<std::uint64_t> r(v);
            auto theta = r.one();
            auto c = r.many(total), q = r.many(sizes.size());
            std::size_t at = 0;
            for (std::size_t i = 0; i < sizes.size(); i++) {
                for (std::size_t j = 0; j < sizes[i]; j++, at++) c[at] = c[at] * q[i] % P;
            }
            return values {folded(theta, c, 1)};
        };
        vp::sweep(s, inputs(1 + total + sizes.size()), PLACES);
    }

    struct lookups {
        std::vector<std::size_t> constraints;    // of each gate
        std::vector<std::size_t> widths;         // of each constraint of all gates
        std::vector<std::size_t> options;        // of each table
        std::vector<std::size_t> columns;        // of each table
    };

    void lookup_arguments(const lookups &l, std::size_t width) {
        typedef bc::lookup_verifier<AT> C;
        std::string name = "lookup argument of gates";
        for (auto n : l.constraints) name += " " + std::to_string(n);
        name += " with inputs";
        for (auto n : l.widths) name += " " + std::to_string(n);
        name += " and tables";
        for (std::size_t i = 0; i < l.options.size(); i++) name += " " + std::to_string(l.options[i]) + "x" + std::to_string(l.columns[i]);
        lookups k = l;
        auto s = vp::describe<F, C>(name + in_columns(width), width, k.constraints.size(), k.constraints, k.widths, k.options.size(), k.options, k.columns);
        std::size_t gates = l.constraints.size(), constraints = l.widths.size(), tables = l.options.size(), values_of_tables = 0, options = 0;
        std::size_t ins = std::accumulate(l.widths.begin(), l.widths.end(), std::size_t(0));
        for (std::size_t i = 0; i < tables; i++) options += l.options[i], values_of_tables += l.options[i] * l.columns[i];
        std::size_t m = constraints + options;
        auto fill = [=](auto &in, auto &r) {
            in.theta = r.one(), in.beta = r.one(), in.gamma = r.one(), in.alphas = r.many(m - 1);
            in.V_L_values = r.two(), in.q_last = r.two(), in.q_blind = r.two(), in.L0 = r.one();
            in.lookup_gate_selectors = r.many(gates), in.lookup_gate_constraints_table_ids = r.many(constraints);
            in.lookup_gate_constraints_lookup_inputs = r.many(ins);
            in.lookup_table_selectors = r.many(tables), in.lookup_table_lookup_options = r.many(values_of_tables);
            in.shifted_lookup_table_selectors = r.many(tables), in.shifted_lookup_table_lookup_options = r.many(values_of_tables);
            in.sorted = r.many(3 * m - 1);
        };
        s.input = [fill](const V &v) {
            reader<V::value_type> r(v);
            C::input_type in;
            fill(in, r);
            return in;
        };
        s.expected = [l, m, fill](const values &v) -> expected {
            struct {
                std::uint64_t theta, beta, gamma, L0;
                std::array<std::uint64_t, 2> V_L_values, q_last, q_blind;
                values alphas, lookup_gate_selectors, lookup_gate_constraints_table_ids, lookup_gate_constraints_lookup_inputs, lookup_table_selectors,
                    lookup_table_lookup_options, shifted_lookup_table_selectors, shifted_lookup_table_lookup_options, sorted;
            } in;
            reader<std::uint64_t> r(v);
            fill(in, r);
            std::uint64_t mask[2];
            for (int i = 0; i < 2; i++) mask[i] = minus(1, (in.q_last[i] + in.q_blind[i]) % P);
            values value, shifted, input;
            reader<std::uint64_t> now(in.lookup_table_lookup_options), next(in.shifted_lookup_table_lookup_options);
            for (std::size_t i = 0; i < l.options.size(); i++) {
                for (std::size_t j = 0; j < l.options[i]; j++) {
                    values a = now.many(l.columns[i]), b = next.many(l.columns[i]);
                    a.insert(a.begin(), i + 1), b.insert(b.begin(), i + 1);
                    value.push_back(mask[0] * folded(in.theta, a, in.lookup_table_selectors[i]) % P);
                    shifted.push_back(mask[1] * folded(in.theta, b, in.shifted_lookup_table_selectors[i]) % P);
                }
            }
            reader<std::uint64_t> inputs(in.lookup_gate_constraints_lookup_inputs);
            for (std::size_t g = 0; g < l.constraints.size(); g++) {
                for (std::size_t c = 0; c < l.constraints[g]; c++) {
                    std::size_t at = input.size();
                    values a = inputs.many(l.widths[at]);
                    a.insert(a.begin(), in.lookup_gate_constraints_table_ids[at]);
                    input.push_back(folded(in.theta, a, in.lookup_gate_selectors[g]));
                }
            }
            reader<std::uint64_t> sorted(in.sorted);
            values s0 = sorted.many(m), s1 = sorted.many(m), s2 = sorted.many(m - 1);
            std::uint64_t h = product(in.beta, in.gamma, s0, s1);
            std::uint64_t g = product(in.beta, in.gamma, input, input) * product(in.beta, in.gamma, value, shifted) % P;
            s0.erase(s0.begin());
            std::uint64_t V = in.V_L_values[0], next_V = in.V_L_values[1];
            return values {minus(1, V) * in.L0 % P, in.q_last[0] * minus(V * V % P, V) % P, mask[0] * minus(next_V * h % P, V * g % P) % P,
                           differences(in.alphas, s0, s2) * in.L0 % P};
        };
        vp::sweep(s, inputs(10 + m - 1 + gates + constraints + ins + 2 * tables + 2 * values_of_tables + 3 * m - 1), PLACES);
    }

    void f07() {
        vp::declare_counters();
        const bool more = vh::thorough();
        vh::cfg().bounds = "field of 257; products and sums of up to " + std::to_string(more ? 12 : 7) + " terms and gates of up to " +
                           std::to_string(more ? 17 : 10) + " constraints in every announced number of columns, permutations of 2 to " +
                           std::to_string(more ? 9 : 5) +
                           " columns, every list of up to three gates of up to three constraints, five lookup arguments of up to two gates and two tables in " +
                           "every announced number of columns; every value of any one input around distinct values of the others; two placements";
        for (std::size_t width = 4; width < 15; width++) {
            for (std::size_t m = 1; m <= (more ? 12 : 7); m++) products(m, width);
            for (std::size_t m = 1; m <= (more ? 12 : 7); m++) sums(m, width);
        }
        for (std::size_t width = 3; width < 15; width++) {
            for (std::size_t d = 1; d <= (more ? 16 : 9); d++) gates(d, width);
        }
        single_column();
        for (std::size_t m = 2; m <= (more ? 9 : 5); m++) permutations(m);
        for (std::size_t width = 3; width < 15; width++) {
            // every list of up to three gates of up to three constraints
            for (std::size_t n = 1; n <= 3; n++) {
                std::size_t total = n == 1 ? 3 : n == 2 ? 9 : 27;
                for (std::size_t x = 0; x < total; x++) {
                    std::vector<std::size_t> sizes;
                    for (std::size_t i = 0, y = x; i < n; i++, y /= 3) sizes.push_back(y % 3 + 1);
                    gate_arguments(sizes, width);
                }
            }
        }
        for (std::size_t width = 4; width < 15; width++) {
            lookup_arguments({{1}, {1}, {1}, {1}}, width);
            lookup_arguments({{2}, {1, 2}, {1}, {2}}, width);
            lookup_arguments({{1, 1}, {2, 1}, {2}, {1}}, width);
            lookup_arguments({{2, 1}, {1, 3, 2}, {1, 2}, {3, 1}}, width);
            lookup_arguments({{1}, {3}, {2, 1}, {1, 3}}, width);
        }
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"F07", f07}});
}
