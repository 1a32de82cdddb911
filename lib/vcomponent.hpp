// Exploration of circuit components over small fields: for every input, the table the component fills in
// must satisfy its own constraints and hold the right result, and no other content of the witness columns
// may satisfy the constraints with a wrong result.
#pragma once

#include <vplonk.hpp>

#include <nil/blueprint/utils/satisfiability_check.hpp>

#include <boost/optional.hpp>

namespace vp {
    typedef std::vector<std::uint64_t> values;

    // The constraints of a circuit on a table, over the integers modulo a small prime.
    template<typename F>
    class system {
        typedef types<F> T;
        typedef typename T::var var;
        enum opcode : std::uint8_t { CONST, CELL, ADD, SUB, MUL, POW };
        struct op {
            opcode code;
            std::uint64_t arg;
        };
        typedef std::vector<op> program;

        struct compiler : boost::static_visitor<void> {
            system &s;
            program &out;
            long row;
            compiler(system &s, program &out, long row) : s(s), out(out), row(row) {
            }
            void operator()(const math::term<var> &t) const {
                out.push_back({CONST, small(t.get_coeff())});
                for (auto &v : t.get_vars()) {
                    out.push_back({CELL, s.cell(v, row)});
                    out.push_back({MUL, 0});
                }
            }
            void operator()(const math::pow_operation<var> &p) const {
                boost::apply_visitor(*this, p.get_expr().get_expr());
                out.push_back({POW, static_cast<std::uint64_t>(p.get_power())});
            }
            void operator()(const math::binary_arithmetic_operation<var> &b) const {
                boost::apply_visitor(*this, b.get_expr_left().get_expr());
                boost::apply_visitor(*this, b.get_expr_right().get_expr());
                out.push_back({b.get_op() == math::ArithmeticOperator::ADD ? ADD :
                               b.get_op() == math::ArithmeticOperator::SUB ? SUB :
                                                                             MUL,
                               0});
            }
        };

        struct place {
            int type;
            std::size_t column;
            long row;
            bool operator<(const place &o) const {
                return std::tie(type, column, row) < std::tie(o.type, o.column, o.row);
            }
        };

        std::map<place, std::size_t> ids;
        std::vector<place> places;
        std::vector<std::size_t> parent;

        std::size_t id(const place &p) {
            auto it = ids.find(p);
            if (it != ids.end()) {
                return it->second;
            }
            ids[p] = places.size();
            places.push_back(p);
            parent.push_back(parent.size());
            return places.size() - 1;
        }

    public:
        static constexpr std::uint64_t NONE = ~0ull;
        std::uint64_t p;

        struct constraint {
            program code;
            std::vector<std::size_t> cells;    // representatives, distinct
            std::vector<bool> linear;          // whether the constraint is linear in that cell
            std::string text;
        };
        struct lookup {
            std::vector<program> inputs;
            std::vector<std::size_t> cells;
            std::size_t table;
            std::string text;
        };
        std::vector<constraint> constraints;
        std::vector<lookup> lookups;
        std::vector<std::vector<values>> tables;
        std::vector<std::set<values>> table_sets;
        // The values a cell can take by the constraints on that cell alone (sorted); no entry: any.
        std::map<std::size_t, values> domain;
        std::vector<std::vector<std::size_t>> of_cell;    // cell -> constraints (lookups numbered after them)
        std::set<std::pair<long, std::size_t>> read_witnesses;    // (row, column) of every witness cell mentioned

        std::size_t cell(const var &v, long row) {
            place pl = {static_cast<int>(v.type), v.index, v.relative ? row + v.rotation : static_cast<long>(v.rotation)};
            if (v.type == var::column_type::witness) {
                read_witnesses.insert({pl.row, pl.column});
            }
            return id(pl);
        }
        boost::optional<std::pair<long, std::size_t>> witness_place(std::size_t i) const {
            if (places[i].type != static_cast<int>(var::column_type::witness)) return boost::none;
            return std::make_pair(places[i].row, static_cast<std::size_t>(places[i].column));
        }
        std::size_t find(std::size_t x) {
            while (parent[x] != x) {
                x = parent[x] = parent[parent[x]];
            }
            return x;
        }

        system(const typename T::circuit &bp, const typename T::assignment &as) : p(small(typename T::value(-1)) + 1) {
            std::map<std::size_t, std::size_t> table_index;
            for (auto &g : bp.gates()) {
                for (std::size_t row = 0; row < as.selector_column_size(g.selector_index); row++) {
                    if (as.selector(g.selector_index, row).is_zero()) {
                        continue;
                    }
                    for (std::size_t i = 0; i < g.constraints.size(); i++) {
                        constraint c;
                        c.text = "constraint " + std::to_string(i) + " behind selector " + std::to_string(g.selector_index) +
                                 " on row " + std::to_string(row);
                        boost::apply_visitor(compiler(*this, c.code, row), g.constraints[i].get_expr());
                        constraints.push_back(c);
                    }
                }
            }
            for (auto &g : bp.lookup_gates()) {
                for (std::size_t row = 0; row < as.selector_column_size(g.tag_index); row++) {
                    if (as.selector(g.tag_index, row).is_zero()) {
                        continue;
                    }
                    for (auto &l : g.constraints) {
                        lookup k;
                        k.text = "lookup behind selector " + std::to_string(g.tag_index) + " on row " + std::to_string(row);
                        for (auto &in : l.lookup_input) {
                            program code;
                            boost::apply_visitor(compiler(*this, code, row), in.get_expr());
                            k.inputs.push_back(code);
                        }
                        if (!table_index.count(l.table_id)) {
                            table_index[l.table_id] = tables.size();
                            auto name = bp.get_reserved_indices_right().at(l.table_id);
                            auto slash = name.find('/');
                            auto &definition = bp.get_reserved_tables().at(name.substr(0, slash));
                            auto &content = definition->get_table();
                            auto &columns = definition->subtables.at(name.substr(slash + 1)).column_indices;
                            std::vector<values> rows;
                            for (std::size_t r = 0; r < content[0].size(); r++) {
                                values v;
                                for (auto c : columns) {
                                    v.push_back(small(content[c][r]));
                                }
                                rows.push_back(v);
                            }
                            tables.push_back(rows);
                            table_sets.push_back(std::set<values>(rows.begin(), rows.end()));
                        }
                        k.table = table_index[l.table_id];
                        lookups.push_back(k);
                    }
                }
            }
            for (auto &c : bp.copy_constraints()) {
                std::size_t a = find(cell(c.first, 0)), b = find(cell(c.second, 0));
                parent[a] = b;
            }
        }

        // To be called once all cells of interest have been named.
        void finish() {
            for (std::uint64_t x = 0; x < p; x++) everything.push_back(x);
            of_cell.assign(places.size(), {});
            auto gather = [&](program &code, std::set<std::size_t> &cells) {
                for (auto &o : code) {
                    if (o.code == CELL) {
                        o.arg = find(o.arg);
                        cells.insert(o.arg);
                    }
                }
            };
            std::size_t n = 0;
            for (auto &c : constraints) {
                std::set<std::size_t> cells;
                gather(c.code, cells);
                c.cells.assign(cells.begin(), cells.end());
                for (auto x : c.cells) {
                    of_cell[x].push_back(n);
                    c.linear.push_back(degree(c.code, x) <= 1);
                }
                if (c.cells.size() == 1) {
                    values cell(places.size(), 0), roots;
                    for (std::uint64_t v = 0; v < p; v++) {
                        cell[c.cells[0]] = v;
                        if (run(c.code, cell) == 0) roots.push_back(v);
                    }
                    restrict(c.cells[0], roots);
                }
                n++;
            }
            for (auto &l : lookups) {
                std::set<std::size_t> cells;
                for (auto &code : l.inputs) gather(code, cells);
                l.cells.assign(cells.begin(), cells.end());
                for (auto x : l.cells) of_cell[x].push_back(n);
                if (l.inputs.size() == 1 && plain(l.inputs[0])) {
                    values possible;
                    for (auto &row : table_sets[l.table]) possible.push_back(row[0]);
                    restrict(l.inputs[0][1].arg, possible);
                }
                n++;
            }
            domain_of.assign(places.size(), &everything);
            for (auto &d : domain) domain_of[d.first] = &d.second;
        }

        static bool plain(const program &code) {
            return code.size() == 3 && code[0].code == CONST && code[0].arg == 1 && code[1].code == CELL;
        }
        values everything;
        std::vector<const values *> domain_of;
        const values &values_of(std::size_t cell) const {
            return *domain_of[cell];
        }
        std::size_t choices(std::size_t cell) const {
            return domain_of[cell]->size();
        }
        void restrict(std::size_t cell, const values &to) {
            auto it = domain.find(cell);
            if (it == domain.end()) {
                domain[cell] = to;
                return;
            }
            values both;
            std::set_intersection(it->second.begin(), it->second.end(), to.begin(), to.end(), std::back_inserter(both));
            it->second = both;
        }
        // An upper bound of the degree in one cell.
        static std::uint64_t degree(const program &code, std::size_t cell) {
            std::vector<std::uint64_t> stack;
            for (auto &o : code) {
                switch (o.code) {
                    case CONST:
                        stack.push_back(0);
                        break;
                    case CELL:
                        stack.push_back(o.arg == cell);
                        break;
                    case POW:
                        stack.back() *= o.arg;
                        break;
                    default: {
                        std::uint64_t r = stack.back();
                        stack.pop_back();
                        stack.back() = o.code == MUL ? stack.back() + r : std::max(stack.back(), r);
                    }
                }
            }
            return stack.back();
        }
        std::uint64_t inverse(std::uint64_t a) const {
            std::uint64_t r = 1;
            for (std::uint64_t e = p - 2; e; e >>= 1, a = a * a % p) {
                if (e & 1) r = r * a % p;
            }
            return r;
        }

        std::uint64_t run(const program &code, const values &cells) const {
            std::uint64_t stack[64];
            std::size_t n = 0;
            for (auto &o : code) {
                switch (o.code) {
                    case CONST:
                        stack[n++] = o.arg;
                        break;
                    case CELL:
                        stack[n++] = cells[o.arg];
                        break;
                    case ADD:
                        n--;
                        stack[n - 1] = (stack[n - 1] + stack[n]) % p;
                        break;
                    case SUB:
                        n--;
                        stack[n - 1] = (stack[n - 1] + p - stack[n]) % p;
                        break;
                    case MUL:
                        n--;
                        stack[n - 1] = stack[n - 1] * stack[n] % p;
                        break;
                    case POW: {
                        std::uint64_t b = stack[n - 1], r = 1;
                        for (std::uint64_t e = o.arg; e; e--) r = r * b % p;
                        stack[n - 1] = r;
                        break;
                    }
                }
                if (n >= 60) {
                    throw std::logic_error("constraint too deep");
                }
            }
            return stack[0];
        }

        std::size_t cells_amount() const {
            return places.size();
        }

        // What the table fixes: constants and selectors (a missing cell is zero) and, when asked for, the rest.
        // Returns false if two cells that are copies of each other differ.
        bool load(const typename T::assignment &as, bool witnesses, values &out, std::string &why) {
            out.assign(places.size(), NONE);
            for (std::size_t i = 0; i < places.size(); i++) {
                auto &pl = places[i];
                std::uint64_t v = 0;
                auto take = [&](const auto &column) {
                    if (pl.row >= 0 && pl.row < static_cast<long>(column.size())) v = small(column[pl.row]);
                };
                if (pl.type == static_cast<int>(var::column_type::witness)) {
                    if (!witnesses) continue;
                    take(as.witness(pl.column));
                } else if (pl.type == static_cast<int>(var::column_type::public_input)) {
                    take(as.public_input(pl.column));
                } else if (pl.type == static_cast<int>(var::column_type::constant)) {
                    take(as.constant(pl.column));
                } else {
                    take(as.selector(pl.column));
                }
                std::size_t r = find(i);
                if (out[r] != NONE && out[r] != v) {
                    why = "two cells that are copies of each other hold " + std::to_string(out[r]) + " and " + std::to_string(v);
                    return false;
                }
                out[r] = v;
            }
            return true;
        }

        bool satisfied(const values &cells, std::string &why) const {
            for (auto &c : constraints) {
                if (run(c.code, cells) != 0) {
                    why = c.text;
                    return false;
                }
            }
            for (auto &l : lookups) {
                values in;
                for (auto &code : l.inputs) in.push_back(run(code, cells));
                if (!table_sets[l.table].count(in)) {
                    why = l.text;
                    return false;
                }
            }
            return true;
        }

        // Complete search over all contents of the unknown cells. `wanted(cells)` cuts a branch by returning
        // false. Calls `found` for a content that satisfies everything; it returns false to stop.
        struct search {
            system &s;
            std::function<bool(const values &)> wanted;
            std::function<bool(const values &)> found;
            std::uint64_t nodes = 0, limit = NONE;
            bool stopped = false, exhausted = true;

            const std::vector<std::size_t> &cells_of(std::size_t n) const {
                return n < s.constraints.size() ? s.constraints[n].cells : s.lookups[n - s.constraints.size()].cells;
            }
            bool holds(std::size_t n, const values &v) const {
                if (n < s.constraints.size()) return s.run(s.constraints[n].code, v) == 0;
                auto &l = s.lookups[n - s.constraints.size()];
                values in;
                for (auto &code : l.inputs) in.push_back(s.run(code, v));
                return s.table_sets[l.table].count(in) > 0;
            }
            // After the cells `fresh` became known: do all constraints that are fully known hold?
            bool consistent(const std::vector<std::size_t> &fresh, const values &v) const {
                for (auto c : fresh) {
                    if (!consistent(c, v)) return false;
                }
                return true;
            }
            bool consistent(std::size_t c, const values &v) const {
                for (auto n : s.of_cell[c]) {
                    if (known(cells_of(n), v) && !holds(n, v)) return false;
                }
                return true;
            }
            bool known(const std::vector<std::size_t> &cells, const values &v) const {
                for (auto c : cells) {
                    if (v[c] == NONE) return false;
                }
                return true;
            }
            // The values of one cell that satisfy a constraint in which everything else is known.
            void allowed_values(std::size_t n, std::size_t i, values &v, values &out) const {
                out.clear();
                std::size_t c = cells_of(n)[i];
                if (n < s.constraints.size() && s.constraints[n].linear[i]) {
                    auto &code = s.constraints[n].code;
                    v[c] = 0;
                    std::uint64_t at0 = s.run(code, v);
                    v[c] = 1;
                    std::uint64_t slope = (s.run(code, v) + s.p - at0) % s.p;
                    if (slope) {
                        std::uint64_t x = (s.p - at0) % s.p * s.inverse(slope) % s.p;
                        auto &d = s.values_of(c);
                        if (std::binary_search(d.begin(), d.end(), x)) out.push_back(x);
                    } else if (!at0) {
                        out = s.values_of(c);
                    }
                } else {
                    for (auto x : s.values_of(c)) {
                        v[c] = x;
                        if (holds(n, v)) out.push_back(x);
                    }
                }
                v[c] = NONE;
            }
            void go(values &v) {
                if (stopped) return;
                if (++nodes > limit) {
                    stopped = true;
                    exhausted = false;
                    return;
                }
                if (!wanted(v)) return;
                // A cell that is the last unknown one of a constraint takes one of the values that satisfy it. The
                // next cell is one with at most one such value or, failing that, one of the constraint with the
                // fewest unknown cells among those that will determine all of theirs.
                std::size_t best = 0, best_unknown = 0, total = s.constraints.size() + s.lookups.size();
                double best_cost = 0;
                values allowed, best_allowed;
                for (std::size_t n = 0; n < total; n++) {
                    auto &cells = cells_of(n);
                    std::size_t u = 0, last = 0;
                    std::size_t wide = 0;
                    double cost = 1;
                    for (std::size_t i = 0; i < cells.size(); i++) {
                        if (v[cells[i]] != NONE) continue;
                        u++;
                        last = i;
                        cost *= s.choices(cells[i]);
                        wide += s.choices(cells[i]) > s.p / 2;
                    }
                    if (!u) continue;
                    // one cell that can hold about anything usually follows from the others, more do not
                    cost += 1e12 * u + (wide > 1 ? 1e15 * wide : 0);
                    if (u == 1 && cells.size() == 1 && n < s.constraints.size()) {
                        // already part of the domain, and no reason to prefer the cell
                        if (best_unknown) continue;
                        best = n;
                        best_unknown = 1;
                        best_cost = 1e300;
                        best_allowed = s.values_of(cells[0]);
                        continue;
                    }
                    if (u == 1) {
                        allowed_values(n, last, v, allowed);
                        if (allowed.empty()) return;
                        cost = allowed.size();
                    }
                    if (!best_unknown || cost < best_cost) {
                        best = n;
                        best_unknown = u;
                        best_cost = cost;
                        if (u == 1) best_allowed.swap(allowed);
                        if (u == 1 && cost == 1) break;
                    }
                }
                if (!best_unknown) {
                    if (!found(v)) stopped = true;
                    return;
                }
                if (best >= s.constraints.size() && best_unknown > 1) {
                    // try the rows of the table when the inputs are plain cells
                    auto &l = s.lookups[best - s.constraints.size()];
                    bool all_plain = true;
                    std::vector<std::size_t> cells;
                    for (auto &code : l.inputs) {
                        all_plain = all_plain && plain(code);
                        if (plain(code)) cells.push_back(code[1].arg);
                    }
                    if (all_plain && s.tables[l.table].size() < s.p * 4) {
                        for (auto &row : s.tables[l.table]) {
                            values w = v;
                            std::vector<std::size_t> fresh;
                            bool fits = true;
                            for (std::size_t i = 0; i < cells.size() && fits; i++) {
                                if (w[cells[i]] == NONE) {
                                    w[cells[i]] = row[i];
                                    fresh.push_back(cells[i]);
                                } else {
                                    fits = w[cells[i]] == row[i];
                                }
                            }
                            if (fits && consistent(fresh, w)) go(w);
                            if (stopped) return;
                        }
                        return;
                    }
                }
                auto &cells = cells_of(best);
                std::size_t i = cells.size();
                for (std::size_t k = 0; k < cells.size(); k++) {
                    if (v[cells[k]] == NONE && (i == cells.size() || s.choices(cells[k]) < s.choices(cells[i]))) i = k;
                }
                {
                    std::size_t c = cells[i];
                    auto attempt = [&](std::uint64_t x) {
                        v[c] = x;
                        if (consistent(c, v)) go(v);
                        return !stopped;
                    };
                    if (best_unknown > 1 && best_unknown < 1000) best_allowed = s.values_of(c);
                    for (auto x : best_allowed) {
                        if (!attempt(x)) break;
                    }
                    v[c] = NONE;
                    return;
                }
            }
        };
    };

    struct placement {
        std::size_t start_row, first_column, spare_columns;
        bool reversed;
    };

    // One component, described to the explorer.
    template<typename F, typename Component>
    struct subject {
        typedef types<F> T;
        typedef typename T::var var;
        std::string name;
        std::function<Component(const std::vector<std::uint32_t> &, const std::vector<std::uint32_t> &,
                                const std::vector<std::uint32_t> &)>
            make;
        std::size_t witnesses;
        std::function<typename Component::input_type(const std::vector<var> &)> input;
        // The result for these inputs; none if the constraints must not be satisfiable.
        std::function<boost::optional<values>(const values &)> expected;
        std::size_t gates;                    // announced by the component
        bool complete = true;                 // the table is filled in for every input that has a result
        std::uint64_t limit = 20000000;       // nodes of one search
        std::size_t constants = 1;
        std::size_t rows = 0;                 // announced by the component class, 0 if it is not asked
        // the name under which a content with a wrong result is reported
        std::function<std::string(const values &in)> unsound_key = nullptr;
        // witness cells (row from the start of the component, column) left as the component fills them in
        std::function<bool(long row, std::size_t column)> pinned = nullptr;
        // other results that are right as well
        std::function<bool(const values &in, const values &out)> also = nullptr;
        bool search = true;
    };

    namespace detail {
        // What a component class announces; some leave out parameters it does not depend on.
        template<typename C, typename P, typename... Ps>
        auto gates(int, std::size_t w, P p, Ps... ps) -> decltype(C::get_gate_manifest(w, p, ps...).get_gates_amount()) {
            return C::get_gate_manifest(w, p, ps...).get_gates_amount();
        }
        template<typename C, typename P, typename Q>
        auto gates(long, std::size_t w, P p, Q) -> decltype(C::get_gate_manifest(w, p).get_gates_amount()) {
            return C::get_gate_manifest(w, p).get_gates_amount();
        }
        template<typename C>
        auto gates(int, std::size_t w) -> decltype(C::get_gate_manifest(w).get_gates_amount()) {
            return C::get_gate_manifest(w).get_gates_amount();
        }
        template<typename C, typename P, typename... Ps>
        auto rows(int, std::size_t w, P p, Ps... ps) -> decltype(C::get_rows_amount(w, p, ps...)) {
            return C::get_rows_amount(w, p, ps...);
        }
        template<typename C, typename P, typename Q>
        auto rows(long, std::size_t w, P p, Q) -> decltype(C::get_rows_amount(w, p)) {
            return C::get_rows_amount(w, p);
        }
        template<typename C>
        auto rows(int, std::size_t w) -> decltype(C::get_rows_amount(w)) {
            return C::get_rows_amount(w);
        }
        template<typename C, typename... Ps>
        auto manifest(int, Ps... ps) -> decltype(C::get_manifest(ps...)) {
            return C::get_manifest(ps...);
        }
        template<typename C, typename... Ps>
        auto manifest(long, Ps...) -> decltype(C::get_manifest()) {
            return C::get_manifest();
        }
    }    // namespace detail

    // A component constructed with these parameters after the columns, and what its class announces for them.
    template<typename F, typename Component, typename... Params>
    subject<F, Component> describe(const std::string &name, std::size_t witnesses, Params... params) {
        typedef std::vector<std::uint32_t> columns;
        subject<F, Component> s;
        s.name = name;
        s.witnesses = witnesses;
        s.make = [=](const columns &w, const columns &c, const columns &p) mutable { return Component(w, c, p, params...); };
        s.gates = detail::gates<Component>(0, witnesses, params...);
        s.rows = detail::rows<Component>(0, witnesses, params...);
        s.constants = detail::manifest<Component>(0, params...).constant_required ==
                      nil::blueprint::manifest_constant_type(nil::blueprint::manifest_constant_type::type::REQUIRED);
        return s;
    }

    namespace detail {
        using namespace nil::blueprint::components;
        template<typename C, typename = void>
        struct announces_empty_rows : std::false_type { };
        template<typename C>
        struct announces_empty_rows<C, decltype(void(std::declval<const C &>().empty_rows_amount))> : std::true_type { };
        template<typename F, typename C>
        auto empty(const C &c, typename types<F>::assignment &as, const typename C::input_type &in, std::uint32_t row, int)
            -> decltype(boost::optional<typename C::result_type>(generate_empty_assignments(c, as, in, row))) {
            return generate_empty_assignments(c, as, in, row);
        }
        template<typename F, typename C>
        boost::optional<typename C::result_type> empty(const C &, typename types<F>::assignment &, const typename C::input_type &,
                                                       std::uint32_t, long) {
            return boost::none;
        }
    }    // namespace detail

    // The short form without constraints: the same results in at most the rows announced for it.
    template<typename F, typename Component>
    void explore_empty(const subject<F, Component> &s, const Component &component, const values &in, const values &want,
                       const placement &at) {
        typedef types<F> T;
        typename T::assignment as(at.first_column + s.witnesses + at.spare_columns, 1, std::max<std::size_t>(s.constants, 1), 100);
        std::vector<typename T::var> vars;
        for (std::size_t i = 0; i < in.size(); i++) {
            as.public_input(0, i) = in[i];
            vars.push_back(T::pub(0, i));
        }
        auto result = detail::empty<F>(component, as, s.input(vars), at.start_row, 0);
        if (!result) return;
        values got;
        for (auto v : result->all_vars()) got.push_back(small(nil::blueprint::var_value<F>(as, v.get())));
        if constexpr (detail::announces_empty_rows<Component>::value) {
            for (std::size_t c = 0; c < as.witnesses_amount(); c++) {
                VH_CHECK(as.witness_column_size(c) <= at.start_row + component.empty_rows_amount, "empty-rows",
                         "without the circuit it writes to row " << as.witness_column_size(c) - 1 << " but announces "
                                                                 << component.empty_rows_amount << " rows");
            }
        }
        VH_CHECK(got == want || (s.also && s.also(in, got)), "empty-result", "without the circuit the result is different");
        vh::count("tables_filled_in_without_circuit");
        vh::count_traces();
    }

    // One component in one placement: the circuit is generated once, before the inputs are known, and explored for
    // any number of inputs.
    template<typename F, typename Component>
    class explorer {
        typedef types<F> T;
        typedef typename T::var var;
        const subject<F, Component> &s;
        const placement at;
        std::size_t width;
        std::vector<std::uint32_t> columns;
        std::unique_ptr<Component> component;
        typename T::circuit bp;
        typename T::assignment fresh;
        std::unique_ptr<system<F>> sys;
        std::vector<var> vars;
        std::vector<var> result_vars;
        std::vector<std::size_t> result_cells;

        std::string describe_case(const values &in) const {
            std::ostringstream os;
            os << s.name << " of ";
            for (auto x : in) os << x << " ";
            os << "at row " << at.start_row << ", column " << at.first_column << (at.reversed ? " reversed" : "") << ", field of "
               << small(typename T::value(-1)) + 1;
            return os.str();
        }

    public:
        explorer(const subject<F, Component> &s, const placement &at, std::size_t inputs) :
            s(s), at(at), width(at.first_column + s.witnesses + at.spare_columns),
            fresh(width, 1, std::max<std::size_t>(s.constants, 1), 100) {
            using namespace nil::blueprint::components;
            VH_CASE(describe_case({}) << ", circuit");
            std::vector<std::uint32_t> constants, no_inputs;
            for (std::size_t i = 0; i < s.witnesses; i++) {
                columns.push_back(at.first_column + (at.reversed ? s.witnesses - 1 - i : i));
            }
            for (std::size_t i = 0; i < s.constants; i++) constants.push_back(i);
            component.reset(new Component(s.make(columns, constants, no_inputs)));
            if constexpr (nil::blueprint::use_lookups<Component>()) {
                for (auto &t : component->component_lookup_tables()) {
                    if (t.second == 1) {
                        bp.reserve_dynamic_table(t.first);
                    } else {
                        bp.reserve_table(t.first);
                    }
                }
            }
            for (std::size_t i = 0; i < inputs; i++) {
                fresh.public_input(0, i) = 0;
                vars.push_back(T::pub(0, i));
            }
            // elsewhere than at the start of a table, others have taken selectors before
            for (std::size_t i = 0; i < (at.start_row ? 3 : 0); i++) bp.get_dynamic_lookup_table_selector();
            VH_CHECK(!s.rows || s.rows == component->rows_amount, "rows",
                     "takes " << component->rows_amount << " rows, " << s.rows << " announced");
            auto circuit_result = generate_circuit(*component, bp, fresh, s.input(vars), at.start_row);
            sys.reset(new system<F>(bp, fresh));
            for (auto v : circuit_result.all_vars()) {
                result_vars.push_back(v.get());
                result_cells.push_back(sys->cell(v.get(), 0));
            }
            sys->finish();
            for (auto &c : result_cells) c = sys->find(c);
            VH_CHECK(bp.num_gates() + bp.num_lookup_gates() == s.gates, "gates",
                     bp.num_gates() + bp.num_lookup_gates() << " gates instead of the announced " << s.gates);
            for (auto &x : sys->read_witnesses) {
                VH_CHECK(x.first >= static_cast<long>(at.start_row) &&
                             x.first < static_cast<long>(at.start_row + component->rows_amount) &&
                             std::count(columns.begin(), columns.end(), x.second),
                         "foreign-cell", "constrains the witness cell of column " << x.second << " row " << x.first << ", which is not its own");
            }
            for (std::size_t c = 0; c < fresh.selectors_amount(); c++) {
                for (std::size_t r = 0; r < fresh.selector_column_size(c); r++) {
                    VH_CHECK(fresh.selector(c, r).is_zero() || (r >= at.start_row && r < at.start_row + component->rows_amount), "rows",
                             "enables a gate on row " << r << ", outside of its rows");
                }
            }
            vh::count("circuits");
        }

        void run(const values &in) {
            using namespace nil::blueprint::components;
            VH_CASE(describe_case(in));
            typename T::assignment as(fresh);
            for (std::size_t i = 0; i < in.size(); i++) as.public_input(0, i) = in[i];
            auto input = s.input(vars);
            auto want = s.expected(in);
            values fixed;
            std::string why;
            vh::count_states();
            if (want && s.complete) {
                auto result = generate_assignments(*component, as, input, at.start_row);
                auto ra = result.all_vars();
                VH_CHECK(ra.size() == result_vars.size() && ra.size() == want->size(), "results", "the number of results differs");
                values got;
                for (std::size_t i = 0; i < ra.size(); i++) {
                    VH_CHECK(ra[i].get() == result_vars[i], "result-place", "the circuit and the assignment name different result cells");
                    got.push_back(small(nil::blueprint::var_value<F>(as, ra[i].get())));
                }
                for (std::size_t i = 0; i < got.size(); i++) {
                    VH_CHECK(got == *want || (s.also && s.also(in, got)), "result",
                             "result " << i << " is " << got[i] << " instead of " << (*want)[i]);
                }
                for (std::size_t c = 0; c < width; c++) {
                    bool own = std::count(columns.begin(), columns.end(), c);
                    VH_CHECK(own || as.witness_column_size(c) == 0, "foreign-column", "writes to column " << c << ", which is not its own");
                    VH_CHECK(as.witness_column_size(c) <= at.start_row + component->rows_amount, "rows",
                             "writes to row " << as.witness_column_size(c) - 1 << " but announces " << component->rows_amount << " rows");
                    for (std::size_t r = 0; r < at.start_row && r < as.witness_column_size(c); r++) {
                        VH_CHECK(as.witness(c, r).is_zero(), "rows", "writes to row " << r << " before its first one");
                    }
                }
                VH_CHECK(sys->load(as, true, fixed, why) && sys->satisfied(fixed, why), "incomplete",
                         "the table it fills in does not satisfy its own constraints: " << why);
                bool accepted;
                {
                    vh::quiet q;
                    accepted = nil::blueprint::is_satisfied<F>(bp, as);
                }
                VH_CHECK(accepted, "incomplete", "the satisfiability check rejects the table it fills in");
                vh::count("tables_filled_in");
                vh::count_traces();
                explore_empty(s, *component, in, *want, at);
            }
            if (!s.search) return;
            values filled = fixed;
            VH_CHECK(sys->load(as, false, fixed, why), "constants", why);
            if (s.pinned && want && s.complete) {
                for (std::size_t i = 0; i < sys->cells_amount(); i++) {
                    auto at_cell = sys->witness_place(i);
                    if (at_cell && s.pinned(at_cell->first - static_cast<long>(at.start_row), at_cell->second)) {
                        fixed[sys->find(i)] = filled[sys->find(i)];
                    }
                }
            }
            typename system<F>::search search {*sys,
                                               [&](const values &v) {
                                                   // a content is of interest while its results are unknown or wrong
                                                   if (!want) return true;
                                                   values out;
                                                   for (auto c : result_cells) {
                                                       if (v[c] == system<F>::NONE) return true;
                                                       out.push_back(v[c]);
                                                   }
                                                   return out != *want && !(s.also && s.also(in, out));
                                               },
                                               nullptr};
            search.limit = s.limit;
            search.found = [&](const values &v) {
                std::string text;
                for (auto c : result_cells) text += (v[c] == system<F>::NONE ? std::string("anything") : std::to_string(v[c])) + " ";
                VH_CHECK(false, (s.unsound_key ? s.unsound_key(in) : "unsound"),
                         "some witness satisfies every constraint although " << (want ? "the result is " + text : "there must be none"));
                return false;
            };
            std::vector<std::size_t> all;
            for (std::size_t i = 0; i < fixed.size(); i++) {
                if (fixed[i] != system<F>::NONE) all.push_back(i);
            }
            if (search.consistent(all, fixed)) {
                search.go(fixed);
            }
            vh::count_transitions(search.nodes + 1);
            if (!search.exhausted) {
                vh::count("searches_cut_short");
                vh::left_out();
            } else {
                vh::count("witness_searches_completed");
            }
        }
    };

    inline void declare_counters() {
        for (auto name :
             {"circuits", "tables_filled_in", "tables_filled_in_without_circuit", "witness_searches_completed", "searches_cut_short"}) {
            vh::declare(name);
        }
    }

    // n values that differ from each other as far as the field allows, none of them 0 or 1 if that is possible.
    inline values distinct(std::size_t n, std::uint64_t p) {
        values r;
        for (std::size_t i = 0; i < n; i++) r.push_back(p > 4 ? 2 + i % (p - 3) : i % p);
        return r;
    }
    // Every vector over [0, p) that differs from the given one in at most `most` places.
    inline std::vector<values> around(const values &base, std::uint64_t p, std::size_t most) {
        std::set<values> all = {base}, last = all;
        for (std::size_t k = 0; k < most; k++) {
            std::set<values> next;
            for (auto v : last) {
                for (std::size_t i = 0; i < v.size(); i++) {
                    auto old = v[i];
                    for (v[i] = 0; v[i] < p; v[i]++) next.insert(v);
                    v[i] = old;
                }
            }
            all.insert(next.begin(), next.end());
            last = next;
        }
        return {all.begin(), all.end()};
    }

    // The given inputs in every placement, divided between the workers.
    template<typename F, typename Component, typename Input>
    void sweep_all(const subject<F, Component> &s, std::size_t total, Input input, const std::vector<placement> &places) {
        std::size_t parts = std::min<std::size_t>(total, std::max<std::size_t>(16, std::min<std::size_t>(total / 64, 256)));
        vh::parallel(parts, [&](std::size_t part) {
            for (auto &at : places) {
                explorer<F, Component> e(s, at, input(part).size());
                for (std::size_t x = part; x < total; x += parts) e.run(input(x));
            }
        });
    }
    // Every input over [0, top)^n.
    template<typename F, typename Component>
    void sweep(const subject<F, Component> &s, std::size_t n, std::uint64_t top, const std::vector<placement> &places) {
        std::size_t total = 1;
        for (std::size_t i = 0; i < n; i++) total *= top;
        sweep_all(s, total,
                  [&](std::size_t x) {
                      values in;
                      for (std::size_t i = 0; i < n; i++) {
                          in.push_back(x % top);
                          x /= top;
                      }
                      return in;
                  },
                  places);
    }
    template<typename F, typename Component>
    void sweep(const subject<F, Component> &s, const std::vector<values> &inputs, const std::vector<placement> &places) {
        sweep_all(s, inputs.size(), [&](std::size_t x) { return inputs[x]; }, places);
    }

}    // namespace vp
