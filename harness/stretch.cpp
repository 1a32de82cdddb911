// C09: components stretched over more columns; C10: expressions moved to other variables.
#include <vplonk.hpp>

#include <nil/blueprint/component_stretcher.hpp>
#include <nil/blueprint/utils/gate_mover.hpp>

#include <array>
#include <functional>

namespace {
    constexpr std::uint64_t P = 2147483647;
    typedef vp::small_field<P> F;
    typedef vp::types<F> T;
    typedef T::var var;

    // The gates a layout can use, over the columns x and y and a constant column c.
    enum { SQUARE, NEXT, PREVIOUS, CONSTANT, CONSTANT_AFTER, CONSTANT_BEFORE, AROUND, KINDS };
    const char *KIND_NAMES[] = {"y=x^2", "x'=x+y", "y,=3x", "y=xc", "y=x+c'", "y=x-c,", "y'=x,+1"};
    T::constraint gate(std::size_t kind) {
        auto x = T::wr(0, 0), y = T::wr(1, 0);
        switch (kind) {
            case SQUARE:
                return y - vp::math::expression<var>(x).pow(2);
            case NEXT:
                return T::wr(0, 1) - (x + y);
            case PREVIOUS:
                return T::wr(1, -1) - F::value_type(3) * x;
            case CONSTANT:
                return y - x * T::kr(0, 0);
            case CONSTANT_AFTER:
                return y - (x + T::kr(0, 1));
            case CONSTANT_BEFORE:
                return y - (x - T::kr(0, -1));
            default:
                return T::wr(1, 1) - (T::wr(0, -1) + F::value_type::one());
        }
    }
    bool fits(std::size_t kind, std::size_t row, std::size_t rows) {
        bool before = kind == PREVIOUS || kind == CONSTANT_BEFORE || kind == AROUND;
        bool after = kind == NEXT || kind == CONSTANT_AFTER || kind == AROUND;
        return !(before && row == 0) && !(after && row + 1 == rows);
    }

    // x of a row copied from an input, a constant or y of a row.
    struct copy {
        std::size_t row;
        enum from_type { INPUT, CONSTANT_ROW, RESULT } from;
        std::size_t which, column = 0;
    };
    struct layout {
        std::size_t rows = 1;
        std::array<std::size_t, 2> kinds {};
        std::vector<unsigned> active;    // per row: a set of kinds
        std::vector<copy> copies;

        // the columns in which the constant of a row is used
        std::array<bool, 2> constants_of(std::size_t r) const {
            std::array<bool, 2> read {};
            for (std::size_t i = 0; i < rows; i++) {
                for (std::size_t k = 0; k < 2; k++) {
                    if (!(active[i] >> k & 1)) continue;
                    std::size_t kind = kinds[k];
                    read[0] = read[0] || (kind == CONSTANT && i == r) || (kind == CONSTANT_AFTER && i + 1 == r) || (kind == CONSTANT_BEFORE && i == r + 1);
                }
            }
            for (auto &x : copies) read[x.column] = read[x.column] || (x.from == copy::CONSTANT_ROW && x.which == r);
            return read;
        }
        std::string text() const {
            std::ostringstream os;
            os << rows << " rows";
            for (std::size_t r = 0; r < rows; r++) {
                for (std::size_t k = 0; k < 2; k++) {
                    if (active[r] >> k & 1) os << ", " << KIND_NAMES[kinds[k]] << " at row " << r;
                }
            }
            for (auto &c : copies) {
                os << ", x of row " << c.row << " is " << (c.from == copy::INPUT ? "input " : c.from == copy::RESULT ? "y of row " : "the constant of row ") << c.which << (c.column ? ", second column" : "");
            }
            return os.str();
        }
    };
    // Two constant columns.
    std::uint64_t constant_of(std::size_t row, std::size_t column) {
        return 1000 + 7 * row + column;
    }
}    // namespace

namespace nil {
    namespace blueprint {
        namespace components {
            struct layout_component {
                struct input_type {
                    std::array<var, 2> in;
                };
                struct result_type {
                    std::vector<var> cells;    // x and y of every row
                };
                layout what;
                std::size_t rows_amount;
                explicit layout_component(const layout &l) : what(l), rows_amount(l.rows) {
                }
                result_type result(std::size_t start) const {
                    result_type r;
                    for (std::size_t i = 0; i < what.rows; i++) {
                        r.cells.push_back(T::w(0, start + i));
                        r.cells.push_back(T::w(1, start + i));
                    }
                    return r;
                }
            };

            layout_component::result_type generate_circuit(const layout_component &c, T::circuit &bp, T::assignment &as,
                                                           const layout_component::input_type &in, const std::uint32_t start) {
                for (std::size_t k = 0; k < 2; k++) {
                    bool used = false;
                    for (auto a : c.what.active) used = used || (a >> k & 1);
                    if (!used) continue;
                    std::size_t selector = bp.add_gate({gate(c.what.kinds[k])});
                    for (std::size_t r = 0; r < c.what.rows; r++) {
                        if (c.what.active[r] >> k & 1) as.enable_selector(selector, start + r);
                    }
                }
                for (auto &x : c.what.copies) {
                    var from = x.from == copy::INPUT ? in.in[x.which] : x.from == copy::RESULT ? T::w(1, start + x.which) : T::k(x.column, start + x.which);
                    bp.add_copy_constraint({T::w(0, start + x.row), from});
                }
                for (std::size_t r = 0; r < c.what.rows; r++) {
                    auto read = c.what.constants_of(r);
                    for (std::size_t k = 0; k < 2; k++) {
                        if (read[k]) as.constant(k, start + r) = constant_of(r, k);
                    }
                }
                return c.result(start);
            }

            layout_component::result_type generate_assignments(const layout_component &c, T::assignment &as, const layout_component::input_type &in,
                                                               const std::uint32_t start) {
                auto a = var_value(as, in.in[0]), b = var_value(as, in.in[1]);
                for (std::size_t r = 0; r < c.what.rows; r++) {
                    auto read = c.what.constants_of(r);
                    for (std::size_t k = 0; k < 2; k++) {
                        auto value = a * 3u + b * 5u + 20u + 2 * r + k;
                        if (read[k] && start + r < as.constant_column_size(k)) value += as.constant(k, start + r);
                        as.witness(k, start + r) = value;
                    }
                }
                return c.result(start);
            }

            template<>
            class input_type_converter<layout_component> {
            public:
                static layout_component::input_type convert(const layout_component::input_type &in, const T::assignment &as, T::assignment &tmp) {
                    layout_component::input_type r;
                    for (std::size_t i = 0; i < 2; i++) {
                        tmp.public_input(0, i) = var_value(as, in.in[i]);
                        r.in[i] = T::pub(0, i);
                    }
                    return r;
                }
                static var deconvert_var(const layout_component::input_type &in, var v) {
                    return in.in[v.rotation];
                }
            };

            template<>
            class result_type_converter<layout_component> {
            public:
                static layout_component::result_type convert(const component_stretcher<F, layout_component> &s, const layout_component::result_type old,
                                                             const layout_component::input_type &in, std::size_t start) {
                    layout_component::result_type r;
                    for (auto &v : old.cells) r.cells.push_back(s.move_var(v, start + s.line_mapping[v.rotation], in));
                    return r;
                }
            };
        }    // namespace components
    }        // namespace blueprint
}    // namespace nil

namespace {
    namespace bc = nil::blueprint::components;
    typedef bc::layout_component component_type;
    typedef bc::component_stretcher<F, component_type> stretcher;
    typedef vp::polynomial<F> polynomial;

    // What a circuit demands of the cells of the component: polynomials that have to vanish, and groups of equal values.
    struct demands {
        std::set<polynomial> polynomials;
        std::map<var, std::set<var>> equal;

        void same(const var &a, const var &b) {
            std::set<var> all = {a, b};
            for (auto v : {a, b}) {
                auto it = equal.find(v);
                if (it != equal.end()) all.insert(it->second.begin(), it->second.end());
            }
            for (auto &v : all) equal[v] = all;
        }
    };
    var named_constant(const F::value_type &v) {
        return T::k(vp::small(v), 0);
    }
    polynomial substitute(const polynomial &p, const std::function<polynomial(const var &)> &of) {
        polynomial r;
        for (auto &t : p.terms) {
            polynomial m;
            m.add({}, t.second);
            for (auto &v : t.first) m = m * of(v);
            r = r + m;
        }
        return r;
    }
    polynomial just(const var &v) {
        polynomial r;
        r.add({v}, F::value_type::one());
        return r;
    }
    polynomial number(const F::value_type &v) {
        polynomial r;
        r.add({}, v);
        return r;
    }

    demands wanted(const layout &l) {
        demands d;
        for (std::size_t r = 0; r < l.rows; r++) {
            for (std::size_t k = 0; k < 2; k++) {
                if (!(l.active[r] >> k & 1)) continue;
                d.polynomials.insert(substitute(vp::expand<F>(gate(l.kinds[k])), [&](const var &v) {
                    std::size_t row = r + v.rotation;
                    return v.type == var::column_type::constant ? number(constant_of(row, v.index)) : just(T::w(v.index, row));
                }));
            }
        }
        for (auto &c : l.copies) {
            d.same(T::w(0, c.row), c.from == copy::INPUT ? T::pub(0, c.which) : c.from == copy::RESULT ? T::w(1, c.which) : named_constant(constant_of(c.which, c.column)));
        }
        return d;
    }

    struct setting {
        const char *name;
        std::size_t start;
        std::array<var, 2> in;
        bool assignments_first;
    };

    // The cells to which the cells of the component are moved.
    std::vector<var> stretched(const layout &l, const demands &want, std::size_t factor, const setting &at) {
        VH_CASE(l.text() << "; stretched " << factor << " times, " << at.name << ", from row " << at.start);
        T::circuit bp;
        T::assignment as(2 * factor, 1, 2, 8);
        for (std::size_t i = 0; i < 2; i++) {
            auto &v = at.in[i];
            if (v.type == var::column_type::witness) {
                as.witness(v.index, v.rotation) = 100 + i;
            } else {
                as.public_input(v.index, v.rotation) = 100 + i;
            }
        }
        component_type original(l);
        stretcher s(original, 2, 2 * factor);
        component_type::input_type in {at.in};
        component_type::result_type cells, again;
        if (at.assignments_first) again = bc::generate_assignments(s, as, in, at.start);
        cells = bc::generate_circuit(s, bp, as, in, at.start);
        if (!at.assignments_first) again = bc::generate_assignments(s, as, in, at.start);
        vh::count_traces(1);

        std::map<var, var> home;
        VH_CHECK(cells.cells.size() == 2 * l.rows, "stretched-result", "result with " << cells.cells.size() << " cells");
        for (std::size_t i = 0; i < 2 * l.rows; i++) {
            auto v = cells.cells[i];
            std::size_t row = i / 2, column = i % 2;
            VH_CHECK(v == again.cells[i], "stretched-result", "circuit and assignment name different results");
            VH_CHECK(v.type == var::column_type::witness && v.index < 2 * factor && std::size_t(v.rotation) >= at.start &&
                         std::size_t(v.rotation) < at.start + s.rows_amount,
                     "stretched-outside", "cell (" << column << ", " << row << ") is moved to column " << v.index << ", row " << v.rotation << ", announced rows "
                                                   << s.rows_amount);
            VH_CHECK(home.emplace(v, T::w(column, row)).second, "stretched-collision", "two cells are moved to column " << v.index << ", row " << v.rotation);
            bool there = std::size_t(v.rotation) < as.witness_column_size(v.index);
            VH_CHECK(there && as.witness(v.index, v.rotation) == F::value_type(3 * 100 + 5 * 101 + 20 + i + (l.constants_of(row)[column] ? constant_of(row, column) : 0)), "stretched-value",
                     "cell (" << column << ", " << row << ") does not hold the value computed for it");
            vh::count_transitions(1);
        }
        for (std::size_t i = 0; i < 2; i++) home.emplace(at.in[i], T::pub(0, i));

        demands got;
        auto name = [&](const var &v) {
            auto it = home.find(v);
            VH_CHECK(it != home.end(), "stretched-foreign", "a constraint reads column " << v.index << ", row " << v.rotation << " that belongs to no cell");
            return it->second;
        };
        auto constant = [&](const var &v) {
            bool there = v.rotation >= 0 && v.index < 2 && std::size_t(v.rotation) < as.constant_column_size(v.index);
            return there ? as.constant(v.index, v.rotation) : F::value_type::zero();
        };
        std::size_t rows = 0;
        for (auto &g : bp.gates()) {
            for (std::size_t r = 0; r < as.selector_column_size(g.selector_index); r++) {
                auto on = as.selector(g.selector_index, r);
                if (on == F::value_type::zero()) continue;
                rows = std::max(rows, r + 1);
                VH_CHECK(r >= at.start, "stretched-outside", "a gate is enabled in row " << r);
                for (auto &c : g.constraints) {
                    got.polynomials.insert(substitute(vp::expand<F>(c), [&](const var &v) {
                        if (v.type == var::column_type::constant) return number(constant(T::k(v.index, r + v.rotation)));
                        return just(name(T::w(v.index, r + v.rotation)));
                    }));
                    vh::count_transitions(1);
                }
            }
        }
        for (auto &c : bp.copy_constraints()) {
            auto of = [&](const var &v) {
                if (v.type != var::column_type::constant) return name(v);
                VH_CHECK(std::size_t(v.rotation) >= at.start, "stretched-outside", "a constant of row " << v.rotation << " is used");
                return named_constant(constant(v));
            };
            got.same(of(c.first), of(c.second));
            vh::count_transitions(1);
        }
        VH_CHECK(got.polynomials == want.polynomials, "stretched-gates",
                 "the gates demand " << got.polynomials.size() << " relations instead of the " << want.polynomials.size() << " of the component, or different ones");
        VH_CHECK(got.equal == want.equal, "stretched-copies", "the copy constraints connect other cells than those of the component");
        for (std::size_t c = 0; c < as.witnesses_amount(); c++) rows = std::max<std::size_t>(rows, as.witness_column_size(c));
        for (std::size_t c = 0; c < 2; c++) rows = std::max<std::size_t>(rows, as.constant_column_size(c));
        VH_CHECK(rows == at.start + s.rows_amount, "stretched-rows", rows - at.start << " rows are used, " << s.rows_amount << " announced");
        return cells.cells;
    }

    void stretching() {
        const std::vector<setting> settings = {
            {"inputs are the first public inputs", 0, {T::pub(0, 0), T::pub(0, 1)}, false},
            {"inputs are witness cells", 3, {T::w(1, 2), T::w(0, 1)}, true},
            {"inputs are later public inputs in reverse", 1, {T::pub(0, 3), T::pub(0, 2)}, false},
        };
        // rows, copy constraints at most
        std::vector<std::array<std::size_t, 2>> sizes = {{1, 3}, {2, 3}, {3, 1}, {4, 0}};
        if (vh::thorough()) sizes = {{1, 4}, {2, 4}, {3, 2}, {4, 1}};
        std::vector<layout> work;
        for (auto &size : sizes) {
            std::size_t rows = size[0];
            std::vector<copy> options;
            for (std::size_t r = 0; r < rows; r++) {
                for (std::size_t i = 0; i < 2; i++) options.push_back({r, copy::INPUT, i});
                for (std::size_t i = 0; i < rows; i++) options.push_back({r, copy::CONSTANT_ROW, i}), options.push_back({r, copy::CONSTANT_ROW, i, 1});
                for (std::size_t i = 0; i < rows; i++) options.push_back({r, copy::RESULT, i});
            }
            std::vector<std::vector<copy>> choices = {{}};
            std::function<void(std::size_t, std::vector<copy> &)> choose = [&](std::size_t from, std::vector<copy> &now) {
                if (now.size() == size[1]) return;
                for (std::size_t i = from; i < options.size(); i++) {
                    now.push_back(options[i]);
                    choices.push_back(now);
                    choose(i + 1, now);
                    now.pop_back();
                }
            };
            std::vector<copy> none;
            choose(0, none);
            if (rows == 3 && size[1] == 1) {
                // two constants
                for (std::size_t i = 0; i < 9; i++) {
                    for (std::size_t k = i + 1; k < 9; k++) choices.push_back({{i / 3, copy::CONSTANT_ROW, i % 3}, {k / 3, copy::CONSTANT_ROW, k % 3}});
                }
            }
            for (std::size_t a = 0; a < KINDS; a++) {
                for (std::size_t b = a + 1; b < KINDS; b++) {
                    layout l;
                    l.rows = rows;
                    l.kinds = {a, b};
                    l.active.assign(rows, 0);
                    for (std::size_t set = 0; set < (std::size_t(1) << 2 * rows); set++) {
                        bool good = true, first = false, second = false;
                        for (std::size_t r = 0; r < rows; r++) {
                            l.active[r] = set >> 2 * r & 3;
                            first = first || (l.active[r] & 1);
                            second = second || (l.active[r] & 2);
                            good = good && !((l.active[r] & 1) && !fits(a, r, rows)) && !((l.active[r] & 2) && !fits(b, r, rows));
                        }
                        // layouts with one kind of gate or none are met once
                        if (!second) good = good && (first ? b == a + 1 : a == 0 && b == 1);
                        if (!first && second) good = good && a == 0 && b + 1 == KINDS;
                        if (!good) continue;
                        for (auto &c : choices) {
                            l.copies = c;
                            work.push_back(l);
                        }
                    }
                }
            }
        }
        vh::declare("layouts");
        vh::cfg().bounds = std::string("every component of two witness columns, two constant columns and ") +
                             (vh::thorough() ? "1 or 2 rows with at most 4 copy constraints, 3 rows with at most 2, or 4 rows with at most 1" :
                                               "1 or 2 rows with at most 3 copy constraints, 3 rows with at most 1 or 2 with constants, or 4 rows without any") +
                             " (x of a row with an input, a constant of either column or y of a row), with at most two of seven gates reading neighbouring "
                             "rows, enabled in every set of rows; stretched 1 to rows + 1 times; three placements with public or witness inputs";
        vh::parallel(work.size(), [&](std::size_t i) {
            auto &l = work[i];
            demands want = wanted(l);
            std::set<std::vector<var>> tables;
            for (std::size_t factor = 1; factor <= l.rows + 1; factor++) {
                for (auto &at : settings) tables.insert(stretched(l, want, factor, at));
            }
            vh::count_states(tables.size());
            vh::count("layouts");
        });
    }

    // Every small expression over two witnesses and a constant.
    typedef vp::math::expression<var> expression;
    std::vector<expression> leaves(bool more) {
        const var X = T::wr(0, 0), Y = T::wr(1, -1), C = T::kr(0, 1);
        std::vector<expression> r;
        for (std::uint64_t c : {0, 1, 3}) r.push_back(vp::math::term<var>(std::vector<var>(), F::value_type(c)));
        std::vector<std::vector<var>> products = {{X}, {Y}, {C}, {X, Y}, {X, X}};
        if (more) products = {{X}, {Y}, {C}, {X, Y}, {X, X}, {Y, C}, {Y, X, C}};
        for (auto &p : products) {
            r.push_back(vp::math::term<var>(p, F::value_type::one()));
            r.push_back(vp::math::term<var>(p, -F::value_type(2)));
        }
        return r;
    }
    // Every expression made from a with one more operation.
    template<typename Use>
    void extend(const expression &a, const std::vector<expression> &others, const Use &use) {
        for (int n = 1; n <= 3; n++) use(expression(vp::math::pow_operation<var>(a, n)));
        for (auto &b : others) {
            for (auto op : {vp::math::ArithmeticOperator::ADD, vp::math::ArithmeticOperator::SUB, vp::math::ArithmeticOperator::MULT}) {
                use(expression(vp::math::binary_arithmetic_operation<var>(a, b, op)));
            }
        }
    }

    void moving() {
        struct mapping {
            const char *name;
            std::function<var(var)> to;
        };
        const std::vector<mapping> mappings = {
            {"nothing is moved", [](var v) { return v; }},
            {"columns shifted by three", [](var v) { return var(v.index + 3, v.rotation, v.relative, v.type); }},
            {"rows shifted by one", [](var v) { return var(v.index, v.rotation + 1, v.relative, v.type); }},
            {"the witnesses exchanged", [](var v) { return v == T::wr(0, 0) ? T::wr(1, -1) : v == T::wr(1, -1) ? T::wr(0, 0) : v; }},
            {"everything becomes one cell", [](var) { return T::wr(5, 0); }},
            {"the constant becomes a witness", [](var v) { return v.type == var::column_type::constant ? T::wr(2, v.rotation) : v; }},
            {"made absolute", [](var v) { return var(v.index, v.rotation + 10, false, v.type); }},
        };
        vh::cfg().bounds = std::string("every expression of at most two levels of sums, differences, products and powers up to the third over ") +
                           (vh::thorough() ? "17" : "13") + " terms in two witnesses and a constant; seven ways of moving the variables";
        auto few = leaves(vh::thorough());
        std::vector<expression> first = few;
        for (auto &a : few) extend(a, few, [&](const expression &e) { first.push_back(e); });
        vh::parallel(mappings.size() * first.size(), [&](std::size_t job) {
            auto &m = mappings[job % mappings.size()];
            std::set<polynomial> seen;
            auto judge = [&](const expression &e) {
                VH_CASE("expression " << e << ", " << m.name);
                nil::blueprint::gate_mover<F> mover(m.to);
                auto moved = vp::expand<F>(mover.visit(e));
                auto want = substitute(vp::expand<F>(e), [&](const var &v) { return just(m.to(v)); });
                VH_CHECK(moved == want, "moved", "the moved expression is another polynomial");
                seen.insert(want);
                vh::count_traces(1);
                vh::count_transitions(want.terms.size() + 1);
            };
            auto &a = first[job / mappings.size()];
            judge(a);
            extend(a, first, judge);
            vh::count_states(seen.size());
        });
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"C09", stretching}, {"C10", moving}});
}
