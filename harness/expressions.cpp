// F08: expressions and polynomials evaluated by batched components.
#include <vcomponent.hpp>

#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/expression_evaluation_component.hpp>
#include <nil/blueprint/components/systems/snark/plonk/verifier/final_polynomial_check.hpp>

namespace {
    namespace bc = nil::blueprint::components;
    using vp::values;
    constexpr std::uint64_t P = 97;
    typedef vp::small_field<P> F;
    typedef vp::types<F> T;
    typedef T::var var;
    typedef T::constraint expression;
    typedef bc::plonk_expression_evaluation_component<F> evaluation;
    typedef bc::final_polynomial_check<vp::snark::plonk_constraint_system<F>> final_check;

    // An expression over the variables x and y with its value.
    struct sample {
        expression e;
        std::function<std::uint64_t(std::uint64_t, std::uint64_t)> f;
        std::string text;
    };

    const var X = T::w(0, 0), Y = T::w(1, -1);

    sample number(std::uint64_t c) {
        return {expression(F::value_type(c)), [c](std::uint64_t, std::uint64_t) { return c; }, std::to_string(c)};
    }
    // c x^a y^b as one term
    sample term(std::uint64_t c, std::size_t a, std::size_t b) {
        std::vector<var> vars(a, X);
        vars.insert(vars.end(), b, Y);
        return {expression(vp::math::term<var>(vars, F::value_type(c))),
                [=](std::uint64_t x, std::uint64_t y) {
                    std::uint64_t r = c;
                    for (std::size_t i = 0; i < a; i++) r = r * x % P;
                    for (std::size_t i = 0; i < b; i++) r = r * y % P;
                    return r;
                },
                std::to_string(c) + "x^" + std::to_string(a) + "y^" + std::to_string(b)};
    }
    sample raised(const sample &s, std::size_t n) {
        auto f = s.f;
        return {expression(vp::math::pow_operation<var>(s.e, n)),
                [=](std::uint64_t x, std::uint64_t y) {
                    std::uint64_t r = 1, v = f(x, y);
                    for (std::size_t i = 0; i < n; i++) r = r * v % P;
                    return r;
                },
                "(" + s.text + ")**" + std::to_string(n)};
    }
    sample joined(const sample &a, const sample &b, int op) {
        static const vp::math::ArithmeticOperator OPS[] = {vp::math::ArithmeticOperator::ADD, vp::math::ArithmeticOperator::SUB, vp::math::ArithmeticOperator::MULT};
        auto f = a.f, g = b.f;
        return {expression(vp::math::binary_arithmetic_operation<var>(a.e, b.e, OPS[op])),
                [=](std::uint64_t x, std::uint64_t y) {
                    std::uint64_t u = f(x, y), v = g(x, y);
                    return op == 0 ? (u + v) % P : op == 1 ? (u + P - v) % P : u * v % P;
                },
                "(" + a.text + ")" + "+-*"[op] + "(" + b.text + ")"};
    }

    struct placed {
        T::circuit bp;
        T::assignment as;
        std::vector<var> vars;
        placed(std::size_t width, const values &in) : as(width, 1, 1, 10) {
            for (std::size_t i = 0; i < in.size(); i++) {
                as.public_input(0, i) = in[i];
                vars.push_back(T::pub(0, i));
            }
        }
        var finish(std::size_t row, const var &result) {
            finish(row);
            auto &map = as.get_batch_variable_map();
            auto it = map.find(result);
            return it == map.end() ? result : it->second;
        }
        void finish(std::size_t row) {
            as.finalize_component_batches(bp, row);
            as.finalize_constant_batches(bp, 0);
        }
        bool accepted() {
            vh::quiet q;
            return nil::blueprint::is_satisfied<F>(bp, as);
        }
        // Is there a content of the witness cells that satisfies the circuit with another result?
        bool other(const boost::optional<std::pair<var, std::uint64_t>> &result) {
            vp::system<F> sys(bp, as);
            std::size_t cell = result ? sys.cell(result->first, 0) : 0;
            sys.finish();
            if (result) cell = sys.find(cell);
            values fixed;
            std::string why;
            if (!sys.load(as, false, fixed, why)) return false;
            bool found = false;
            vp::system<F>::search search {sys,
                                          [&](const values &v) { return !result || v[cell] == vp::system<F>::NONE || v[cell] != result->second; },
                                          [&](const values &) {
                                              found = true;
                                              return false;
                                          }};
            std::vector<std::size_t> all;
            for (std::size_t i = 0; i < fixed.size(); i++) {
                if (fixed[i] != vp::system<F>::NONE) all.push_back(i);
            }
            if (search.consistent(all, fixed)) search.go(fixed);
            vh::count_transitions(search.nodes + 1);
            vh::count("witness_searches_completed");
            return found;
        }
    };

    void evaluate(const sample &s, std::size_t width, bool circuit_first, std::uint64_t x, std::uint64_t y) {
        VH_CASE(s.text << " at x = " << x << ", y = " << y << " in " << width << " columns, " << (circuit_first ? "circuit" : "assignment") << " first");
        placed t(width, {x, y});
        evaluation component(std::vector<std::uint32_t> {0, 1, 2}, std::vector<std::uint32_t> {0}, std::vector<std::uint32_t> {}, s.e);
        evaluation::input_type in;
        in.variable_mapping[X] = t.vars[0];
        in.variable_mapping[Y] = t.vars[1];
        std::vector<var> results;
        for (int i = 0; i < 2; i++) {
            if ((i == 0) == circuit_first) {
                results.push_back(generate_circuit(component, t.bp, t.as, in, 0).output);
            } else {
                results.push_back(generate_assignments(component, t.as, in, 0).output);
            }
        }
        VH_CHECK(results[0] == results[1], "result-place", "the circuit and the assignment name different results");
        std::uint64_t want = s.f(x, y);
        var out = t.finish(3, results[0]);
        VH_CHECK(vp::small(var_value(t.as, out)) == want, "result", "the result is " << vp::small(var_value(t.as, out)) << " instead of " << want);
        VH_CHECK(t.accepted(), "incomplete", "the table filled in is rejected");
        vh::count_traces();
        // a batched constant is not a cell of the table by itself
        VH_CHECK(out.type == var::column_type::constant || !t.other(std::make_pair(out, want)), "unsound", "some table with another result satisfies the circuit");
        vh::count_states();
    }

    std::uint64_t horner(const values &c, std::uint64_t x) {
        std::uint64_t r = 0;
        for (auto a : c) r = (r * x + a) % P;
        return r;
    }

    // The values of a polynomial at points and their negations.
    void check_polynomial(std::size_t power, std::size_t points, const values &input, std::size_t wrong, std::uint64_t off) {
        values c(input.begin(), input.begin() + power + 1), s(input.begin() + power + 1, input.end()), in = input;
        for (auto x : s) {
            in.push_back(horner(c, x));
            in.push_back(horner(c, (P - x) % P));
        }
        if (wrong) in[in.size() - wrong] = (in[in.size() - wrong] + off) % P;
        VH_CASE([&] {
            std::string text = "polynomial of degree " + std::to_string(power) + " at " + std::to_string(points) + " points, inputs";
            for (auto x : in) text += " " + std::to_string(x);
            return text;
        }());
        placed t(6, in);
        final_check component(std::vector<std::uint32_t> {0, 1, 2}, std::vector<std::uint32_t> {0}, std::vector<std::uint32_t> {}, power, points);
        final_check::input_type i;
        auto at = t.vars.begin();
        i.coefficients.assign(at, at + power + 1);
        i.points.assign(at + power + 1, at + power + 1 + points);
        i.values.assign(at + power + 1 + points, t.vars.end());
        generate_circuit(component, t.bp, t.as, i, 0);
        generate_assignments(component, t.as, i, 0);
        t.finish(2);
        bool accepted = t.accepted();
        if (wrong) {
            VH_CHECK(!accepted, "accepted", "a wrong value is accepted");
            VH_CHECK(!t.other(boost::none), "unsound", "some table satisfies the circuit although a value is wrong");
        } else {
            VH_CHECK(accepted, "incomplete", "right values are rejected");
            vh::count_traces();
        }
        vh::count_states();
    }

    void f08() {
        vp::declare_counters();
        const bool more = vh::thorough();
        vh::cfg().bounds = std::string("field of 97; every expression with up to one operation (sum, difference, product, powers 1 to 9) over 11 terms with 12 pairs of "
                                       "inputs, with two operations over 5 terms with ") +
                           (more ? "12 pairs" : "3 pairs") + " and joining two such expressions with 3 pairs" +
                           ", circuit first and assignment first, in 3 and 7 columns; the check of polynomials of degree 0 to 4 at 1 to 3 points, every value of any "
                           "one coefficient or point, with right values and a wrong value in every position (every wrong value for the first inputs)";
        std::vector<sample> leaves = {term(1, 1, 0), term(1, 0, 1), number(0), number(5), term(3, 1, 1)};
        std::vector<sample> one = leaves;
        for (auto &s : {number(1), term(1, 2, 0), term(7, 1, 2), term(0, 1, 0), term(96, 0, 1), term(1, 1, 1)}) one.push_back(s);
        auto grow = [](const std::vector<sample> &a, const std::vector<sample> &b, std::size_t powers) {
            std::vector<sample> out;
            for (auto &x : a) {
                for (auto &y : b) {
                    for (int op = 0; op < 3; op++) out.push_back(joined(x, y, op));
                }
            }
            for (auto &x : a) {
                for (std::size_t n = 1; n <= powers; n++) out.push_back(raised(x, n));
            }
            return out;
        };
        std::vector<values> few = {{2, 3}, {0, 5}, {96, 96}}, pairs = few;
        for (auto &v : std::vector<values> {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {5, 5}, {96, 1}, {10, 77}, {48, 49}, {3, 0}}) pairs.push_back(v);
        std::vector<std::pair<sample, bool>> all;    // whether with all pairs
        for (auto &s : one) all.push_back({s, true});
        for (auto &s : grow(one, one, 9)) all.push_back({s, true});
        auto two = grow(leaves, leaves, 3);
        for (auto &s : grow(two, leaves, 2)) all.push_back({s, more});
        for (auto &s : grow(leaves, two, 0)) all.push_back({s, more});
        for (auto &s : grow(two, two, 0)) all.push_back({s, false});
        vh::parallel(all.size(), [&](std::size_t i) {
            for (auto &in : all[i].second ? pairs : few) {
                for (std::size_t width : {3, 7}) {
                    for (bool first : {false, true}) evaluate(all[i].first, width, first, in[0], in[1]);
                }
            }
        });
        for (std::size_t power = 0; power <= 4; power++) {
            for (std::size_t points = 1; points <= 3; points++) {
                auto inputs = vp::around(vp::distinct(power + 1 + points, P), P, 1);
                vh::parallel(inputs.size(), [&](std::size_t i) {
                    check_polynomial(power, points, inputs[i], 0, 0);
                    for (std::size_t wrong = 1; wrong <= 2 * points; wrong++) {
                        // every wrong value for the first inputs, one for all others
                        for (std::uint64_t off = 1; off < P; off++) {
                            if (i < (more ? 20 : 2) || off == 1) check_polynomial(power, points, inputs[i], wrong, off);
                        }
                    }
                });
            }
        }
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"F08", f08}});
}
