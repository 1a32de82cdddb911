// Explores deviations from an honest table over a field too large to enumerate.
//
// A circuit and the table filled in for it are turned into polynomials over numbered cells, evaluated with an arithmetic of
// their own. From the honest content a prover may deviate in one cell to a given value, and repair every constraint that this
// violates by deviating in a further cell of it, up to a bounded number of cells: all such contents are visited, and those that
// are accepted are handed to a judge.
#pragma once

#include <vplonk.hpp>

#include <array>
#include <functional>

namespace vp {
    namespace big {
        typedef std::array<std::uint64_t, 4> number;
        typedef unsigned __int128 u128;

        // Montgomery arithmetic modulo a prime of at most 255 bits.
        template<typename F>
        struct arithmetic {
            typedef typename F::value_type value;
            number p {}, one {}, square {};
            std::uint64_t inverse = 0;

            arithmetic() {
                auto m = value::modulus_value();
                for (int i = 0; i < 4; i++) {
                    p[i] = static_cast<std::uint64_t>((m >> (64 * i)) & 0xffffffffffffffffull);
                }
                std::uint64_t x = 1;
                for (int i = 0; i < 6; i++) x *= 2 - p[0] * x;
                inverse = -x;
                number r {1, 0, 0, 0};
                for (int i = 0; i < 512; i++) {
                    r = add(r, r);
                    if (i == 255) one = r;
                }
                square = r;
            }
            static bool less(const number &a, const number &b) {
                for (int i = 3; i >= 0; i--) {
                    if (a[i] != b[i]) return a[i] < b[i];
                }
                return false;
            }
            static std::uint64_t subtract(number &a, const number &b) {
                std::uint64_t borrow = 0;
                for (int i = 0; i < 4; i++) {
                    u128 d = (u128)a[i] - b[i] - borrow;
                    a[i] = (std::uint64_t)d;
                    borrow = (std::uint64_t)(d >> 64) & 1;
                }
                return borrow;
            }
            number add(const number &a, const number &b) const {
                number r;
                std::uint64_t carry = 0;
                for (int i = 0; i < 4; i++) {
                    u128 s = (u128)a[i] + b[i] + carry;
                    r[i] = (std::uint64_t)s;
                    carry = (std::uint64_t)(s >> 64);
                }
                if (carry || !less(r, p)) subtract(r, p);
                return r;
            }
            number sub(const number &a, const number &b) const {
                number r = a;
                if (subtract(r, b)) {
                    std::uint64_t carry = 0;
                    for (int i = 0; i < 4; i++) {
                        u128 s = (u128)r[i] + p[i] + carry;
                        r[i] = (std::uint64_t)s;
                        carry = (std::uint64_t)(s >> 64);
                    }
                }
                return r;
            }
            number mul(const number &a, const number &b) const {
                std::uint64_t t[6] = {0, 0, 0, 0, 0, 0};
                for (int i = 0; i < 4; i++) {
                    u128 c = 0;
                    for (int j = 0; j < 4; j++) {
                        c += (u128)a[i] * b[j] + t[j];
                        t[j] = (std::uint64_t)c;
                        c >>= 64;
                    }
                    c += t[4];
                    t[4] = (std::uint64_t)c;
                    t[5] = (std::uint64_t)(c >> 64);
                    std::uint64_t m = t[0] * inverse;
                    c = (u128)m * p[0] + t[0];
                    c >>= 64;
                    for (int j = 1; j < 4; j++) {
                        c += (u128)m * p[j] + t[j];
                        t[j - 1] = (std::uint64_t)c;
                        c >>= 64;
                    }
                    c += t[4];
                    t[3] = (std::uint64_t)c;
                    t[4] = t[5] + (std::uint64_t)(c >> 64);
                }
                number r {t[0], t[1], t[2], t[3]};
                if (t[4] || !less(r, p)) subtract(r, p);
                return r;
            }
            number power(number x, std::uint64_t e) const {
                number r = one;
                for (; e; e >>= 1) {
                    if (e & 1) r = mul(r, x);
                    x = mul(x, x);
                }
                return r;
            }
            number inverted(number x) const {
                number e = p, r = one;
                e[0] -= 2;
                for (int i = 0; i < 256; i++) {
                    if (e[i / 64] >> (i % 64) & 1) r = mul(r, x);
                    x = mul(x, x);
                }
                return r;
            }
            number from(const value &v) const {
                number r;
                auto w = typename value::integral_type(v.data);
                for (int i = 0; i < 4; i++) {
                    r[i] = static_cast<std::uint64_t>((w >> (64 * i)) & 0xffffffffffffffffull);
                }
                return mul(r, square);
            }
            number from(std::uint64_t v) const {
                return mul(number {v, 0, 0, 0}, square);
            }
            // the representative
            number plain(const number &a) const {
                return mul(a, number {1, 0, 0, 0});
            }
            std::string str(const number &a) const {
                number x = plain(a), y = plain(sub(number {}, a));
                bool negative = less(y, x);
                if (negative) x = y;
                std::ostringstream os;
                os << (negative ? "-" : "") << "0x" << std::hex;
                int i = 3;
                while (i > 0 && !x[i]) i--;
                os << x[i];
                while (i-- > 0) os << std::setw(16) << std::setfill('0') << x[i];
                return os.str();
            }
        };

        template<typename F>
        struct system {
            typedef vp::types<F> T;
            typedef typename T::var var;
            enum kind_t { CONST, CELL, ADD, SUB, MUL, POW };
            struct node {
                kind_t kind;
                std::uint32_t a, b;
                number c;
            };
            struct place {
                typename var::column_type type;
                std::size_t column, row;
                bool operator<(const place &o) const {
                    return std::tie(type, column, row) < std::tie(o.type, o.column, o.row);
                }
            };
            struct constraint {
                std::uint32_t root;
                std::size_t gate, index, row;
                std::vector<std::uint32_t> cells;
                std::vector<std::uint32_t> bent;    // cells in which it may not be linear
            };
            struct lookup {
                std::vector<std::uint32_t> inputs;
                std::size_t table, gate, row;
                std::vector<std::uint32_t> cells;
            };

            arithmetic<F> math;
            std::vector<node> nodes;
            std::vector<place> places;
            std::map<place, std::uint32_t> ids;
            std::vector<std::uint32_t> parent;
            std::vector<constraint> constraints;
            std::vector<lookup> lookups;
            std::map<std::size_t, std::size_t> table_index;
            // the rows of a table, in order
            struct table : std::vector<std::vector<number>> {
                std::size_t count(const std::vector<number> &row) const {
                    return std::binary_search(this->begin(), this->end(), row);
                }
            };
            std::vector<table> tables;
            std::vector<std::vector<std::uint32_t>> of_cell, lookups_of_cell;
            std::vector<number> honest;
            std::vector<bool> fixed;

            std::uint32_t find(std::uint32_t x) {
                while (parent[x] != x) x = parent[x] = parent[parent[x]];
                return x;
            }
            std::uint32_t cell_at(const place &at) {
                auto it = ids.find(at);
                if (it != ids.end()) return it->second;
                std::uint32_t id = places.size();
                ids[at] = id;
                places.push_back(at);
                parent.push_back(id);
                if (!honest.empty()) {
                    // no constraint reads it
                    honest.push_back(number {});
                    fixed.push_back(false);
                    of_cell.push_back({});
                    lookups_of_cell.push_back({});
                    if (!value.empty()) value.push_back(number {});
                }
                return id;
            }
            std::uint32_t cell(const var &v, std::size_t row) {
                return cell_at(place {v.type, static_cast<std::size_t>(v.index),
                                      static_cast<std::size_t>(v.relative ? (std::int64_t)row + v.rotation : v.rotation)});
            }
            std::uint32_t witness(std::size_t column, std::size_t row) {
                return find(cell_at(place {var::column_type::witness, column, row}));
            }
            std::uint32_t push(kind_t k, std::uint32_t a = 0, std::uint32_t b = 0, const number &c = number {}) {
                nodes.push_back(node {k, a, b, c});
                return nodes.size() - 1;
            }
            struct parser : boost::static_visitor<std::uint32_t> {
                system &s;
                std::size_t row;
                parser(system &s_, std::size_t row_) : s(s_), row(row_) {
                }
                std::uint32_t operator()(const vp::math::term<var> &t) const {
                    std::uint32_t r = 0;
                    bool some = false;
                    if (t.get_coeff() != T::value::one() || t.get_vars().empty()) {
                        r = s.push(CONST, 0, 0, s.math.from(t.get_coeff()));
                        some = true;
                    }
                    for (auto &v : t.get_vars()) {
                        std::uint32_t x = s.push(CELL, s.cell(v, row));
                        r = some ? s.push(MUL, r, x) : x;
                        some = true;
                    }
                    return r;
                }
                std::uint32_t operator()(const vp::math::pow_operation<var> &o) const {
                    std::uint32_t x = boost::apply_visitor(*this, o.get_expr().get_expr());
                    return s.push(POW, x, o.get_power());
                }
                std::uint32_t operator()(const vp::math::binary_arithmetic_operation<var> &o) const {
                    std::uint32_t a = boost::apply_visitor(*this, o.get_expr_left().get_expr());
                    std::uint32_t b = boost::apply_visitor(*this, o.get_expr_right().get_expr());
                    using op = vp::math::ArithmeticOperator;
                    return s.push(o.get_op() == op::ADD ? ADD : o.get_op() == op::SUB ? SUB : MUL, a, b);
                }
            };
            number evaluate(std::uint32_t i, const std::vector<number> &value) const {
                const node &n = nodes[i];
                switch (n.kind) {
                    case CONST:
                        return n.c;
                    case CELL:
                        return value[n.a];
                    case ADD:
                        return math.add(evaluate(n.a, value), evaluate(n.b, value));
                    case SUB:
                        return math.sub(evaluate(n.a, value), evaluate(n.b, value));
                    case MUL: {
                        number l = evaluate(n.a, value);
                        if (l == number {}) return l;
                        return math.mul(l, evaluate(n.b, value));
                    }
                    default:
                        return math.power(evaluate(n.a, value), n.b);
                }
            }
            void cells_of(std::uint32_t i, std::set<std::uint32_t> &to) {
                node &n = nodes[i];
                if (n.kind == CELL) {
                    n.a = find(n.a);
                    to.insert(n.a);
                } else if (n.kind != CONST) {
                    cells_of(n.a, to);
                    if (n.kind != POW) cells_of(n.b, to);
                }
            }

            // The degree in every cell.
            std::map<std::uint32_t, std::size_t> degrees(std::uint32_t i) const {
                const node &n = nodes[i];
                std::map<std::uint32_t, std::size_t> r;
                if (n.kind == CELL) r[n.a] = 1;
                if (n.kind == CELL || n.kind == CONST) return r;
                r = degrees(n.a);
                if (n.kind == POW) {
                    for (auto &d : r) d.second *= n.b;
                    return r;
                }
                for (auto &d : degrees(n.b)) {
                    std::size_t &x = r[d.first];
                    x = n.kind == MUL ? x + d.second : std::max(x, d.second);
                }
                return r;
            }

            // All constraints of the circuit on the rows of the table where they are switched on, and the content of the table.
            system(const typename T::circuit &bp, const typename T::assignment &as, bool with_lookups = true) {
                for (auto &g : bp.gates()) {
                    for (std::size_t row = 0; row < as.selector_column_size(g.selector_index); row++) {
                        if (as.selector(g.selector_index, row).is_zero()) continue;
                        std::size_t n = 0;
                        for (auto &c : g.constraints) {
                            constraint k;
                            k.root = boost::apply_visitor(parser(*this, row), c.get_expr());
                            k.gate = g.selector_index;
                            k.index = n++;
                            k.row = row;
                            constraints.push_back(k);
                        }
                    }
                }
                if (with_lookups) {
                    for (auto &g : bp.lookup_gates()) {
                        for (std::size_t row = 0; row < as.selector_column_size(g.tag_index); row++) {
                            if (as.selector(g.tag_index, row).is_zero()) continue;
                            for (auto &l : g.constraints) {
                                lookup k;
                                for (auto &in : l.lookup_input) {
                                    k.inputs.push_back(boost::apply_visitor(parser(*this, row), in.get_expr()));
                                }
                                if (!table_index.count(l.table_id)) {
                                    table_index[l.table_id] = tables.size();
                                    auto name = bp.get_reserved_indices_right().at(l.table_id);
                                    auto slash = name.find('/');
                                    auto &definition = bp.get_reserved_tables().at(name.substr(0, slash));
                                    auto &content = definition->get_table();
                                    auto &columns = definition->subtables.at(name.substr(slash + 1)).column_indices;
                                    table rows;
                                    rows.reserve(content[0].size());
                                    for (std::size_t r = 0; r < content[0].size(); r++) {
                                        std::vector<number> v;
                                        v.reserve(columns.size());
                                        for (auto c : columns) v.push_back(math.from(content[c][r]));
                                        rows.push_back(v);
                                    }
                                    std::sort(rows.begin(), rows.end());
                                    rows.erase(std::unique(rows.begin(), rows.end()), rows.end());
                                    tables.push_back(std::move(rows));
                                }
                                k.table = table_index[l.table_id];
                                k.gate = g.tag_index;
                                k.row = row;
                                lookups.push_back(k);
                            }
                        }
                    }
                }
                for (auto &c : bp.copy_constraints()) {
                    std::uint32_t a = find(cell(c.first, 0)), b = find(cell(c.second, 0));
                    parent[a] = b;
                }
                for (auto &c : constraints) {
                    std::set<std::uint32_t> cells;
                    cells_of(c.root, cells);
                    c.cells.assign(cells.begin(), cells.end());
                    for (auto &d : degrees(c.root)) {
                        if (d.second > 1) c.bent.push_back(d.first);
                    }
                }
                for (auto &l : lookups) {
                    std::set<std::uint32_t> cells;
                    for (auto i : l.inputs) cells_of(i, cells);
                    l.cells.assign(cells.begin(), cells.end());
                }
                of_cell.assign(places.size(), {});
                lookups_of_cell.assign(places.size(), {});
                for (std::size_t i = 0; i < constraints.size(); i++) {
                    for (auto x : constraints[i].cells) of_cell[x].push_back(i);
                }
                for (std::size_t i = 0; i < lookups.size(); i++) {
                    for (auto x : lookups[i].cells) lookups_of_cell[x].push_back(i);
                }
                honest.assign(places.size(), number {});
                fixed.assign(places.size(), false);
                load(as);
            }
            number content(const typename T::assignment &as, const place &at) const {
                typedef typename var::column_type ct;
                auto get = [&](const auto &column) {
                    return at.row < column.size() ? math.from(column[at.row]) : number {};
                };
                switch (at.type) {
                    case ct::witness:
                        return get(as.witness(at.column));
                    case ct::constant:
                        return get(as.constant(at.column));
                    case ct::public_input:
                        return get(as.public_input(at.column));
                    default:
                        return get(as.selector(at.column));
                }
            }
            // Reads the content of the table; false if cells connected by copy constraints differ.
            bool load(const typename T::assignment &as) {
                bool equal = true;
                for (std::uint32_t i = 0; i < places.size(); i++) honest[i] = content(as, places[i]);
                for (std::uint32_t i = 0; i < places.size(); i++) {
                    std::uint32_t r = find(i);
                    if (honest[i] != honest[r]) equal = false;
                    if (places[i].type != var::column_type::witness) fixed[r] = true;
                }
                return equal;
            }
            bool holds(const lookup &l, const std::vector<number> &value) const {
                std::vector<number> in;
                for (auto i : l.inputs) in.push_back(evaluate(i, value));
                return tables[l.table].count(in);
            }
            // What is violated, or nothing.
            std::string violated(const std::vector<number> &value) const {
                for (auto &c : constraints) {
                    if (evaluate(c.root, value) != number {}) {
                        return "constraint " + std::to_string(c.index) + " of the gate behind selector " + std::to_string(c.gate) +
                               " on row " + std::to_string(c.row);
                    }
                }
                for (auto &l : lookups) {
                    if (!holds(l, value)) {
                        return "lookup behind selector " + std::to_string(l.gate) + " on row " + std::to_string(l.row);
                    }
                }
                return "";
            }
            std::string name(std::uint32_t cell) const {
                typedef typename var::column_type ct;
                auto &p = places[cell];
                std::ostringstream os;
                os << (p.type == ct::witness ? "witness " : p.type == ct::constant ? "constant " : p.type == ct::public_input ? "public " : "selector ")
                   << p.column << " row " << p.row;
                return os.str();
            }

            // ---------------------------------------------------------------------------------------- deviations
            std::vector<number> value;
            std::vector<std::uint32_t> moved;
            std::function<bool(std::uint32_t, const number &)> allowed;
            std::function<void()> judge;
            std::uint64_t visited = 0, accepted = 0;

            // Visits every accepted content that differs from the honest one in the given cell, has the given value there,
            // and in at most `depth` cells altogether.
            void deviate(std::uint32_t cell, const number &to, std::size_t depth) {
                if (value != honest) value = honest;
                moved.clear();
                if (fixed[cell] || to == honest[cell] || (allowed && !allowed(cell, to))) return;
                step(cell, to, depth, {});
            }
            std::string text() const {
                std::ostringstream os;
                for (auto c : moved) os << name(c) << " = " << math.str(value[c]) << " (was " << math.str(honest[c]) << "); ";
                return os.str();
            }

        private:
            typedef std::vector<std::uint32_t> list;

            // What is violated once the cell has been changed: only constraints of the cell may have changed their mind.
            // With `any`, stops at the first one.
            list reopened(const list &before, std::uint32_t cell, bool any) const {
                list r;
                for (auto i : before) {
                    if (evaluate(constraints[i].root, value) != number {}) {
                        r.push_back(i);
                        if (any) return r;
                    }
                }
                for (auto i : of_cell[cell]) {
                    if (std::find(before.begin(), before.end(), i) != before.end()) continue;
                    if (evaluate(constraints[i].root, value) != number {}) {
                        r.push_back(i);
                        if (any) return r;
                    }
                }
                return r;
            }
            void step(std::uint32_t cell, const number &to, std::size_t depth, const list &before) {
                value[cell] = to;
                moved.push_back(cell);
                visited++;
                repair(depth, reopened(before, cell, moved.size() >= depth));
                moved.pop_back();
                value[cell] = honest[cell];
            }
            void repair(std::size_t depth, const list &open) {
                if (open.empty()) {
                    for (auto m : moved) {
                        for (auto i : lookups_of_cell[m]) {
                            if (!holds(lookups[i], value)) return;
                        }
                    }
                    accepted++;
                    judge();
                    return;
                }
                if (moved.size() >= depth) return;
                // the one with the fewest cells leaves the fewest choices
                std::uint32_t first = open[0];
                for (auto i : open) {
                    if (constraints[i].cells.size() < constraints[first].cells.size()) first = i;
                }
                const constraint &c = constraints[first];
                list choices;
                for (auto x : c.cells) {
                    if (fixed[x] || std::find(moved.begin(), moved.end(), x) != moved.end()) continue;
                    if (moved.size() + 1 == depth) {
                        // the last cell has to be a cell of all of them
                        bool all = true;
                        for (auto i : open) {
                            all = all && (i == first || std::binary_search(constraints[i].cells.begin(), constraints[i].cells.end(), x));
                        }
                        if (!all) continue;
                    }
                    choices.push_back(x);
                }
                if (choices.empty()) return;
                // the values at which the constraint holds: the root where it is linear in the cell, and the usual values
                slopes(c.root);
                number now = results[c.root - lowest(c.root)];
                std::vector<number> slope, inverse;
                for (auto x : choices) {
                    auto it = partial.find(x);
                    slope.push_back(it == partial.end() ? number {} : it->second);
                }
                inverse = inverted(slope);
                std::vector<std::pair<std::uint32_t, number>> todo;
                for (std::size_t i = 0; i < choices.size(); i++) {
                    std::uint32_t x = choices[i];
                    std::set<number> candidates;
                    if (slope[i] != number {}) candidates.insert(math.sub(honest[x], math.mul(now, inverse[i])));
                    bool linear = std::find(c.bent.begin(), c.bent.end(), x) == c.bent.end();
                    if (!linear) {
                        candidates.insert(number {});
                        candidates.insert(math.one);
                    }
                    for (auto &v : candidates) {
                        if (v == honest[x] || (allowed && !allowed(x, v))) continue;
                        if (!linear) {
                            value[x] = v;
                            bool holds = evaluate(c.root, value) == number {};
                            value[x] = honest[x];
                            if (!holds) continue;
                        }
                        todo.push_back({x, v});
                    }
                }
                for (auto &t : todo) step(t.first, t.second, depth, open);
            }
            std::vector<number> inverted(const std::vector<number> &of) const {
                std::vector<number> r(of.size()), before(of.size());
                number all = math.one;
                for (std::size_t i = 0; i < of.size(); i++) {
                    before[i] = all;
                    if (of[i] != number {}) all = math.mul(all, of[i]);
                }
                all = math.inverted(all);
                for (std::size_t i = of.size(); i-- > 0;) {
                    if (of[i] == number {}) continue;
                    r[i] = math.mul(all, before[i]);
                    all = math.mul(all, of[i]);
                }
                return r;
            }
            // The nodes of an expression are numbered contiguously, operands first.
            std::uint32_t lowest(std::uint32_t root) const {
                while (nodes[root].kind != CONST && nodes[root].kind != CELL) root = nodes[root].a;
                return root;
            }
            std::vector<number> results, weights;
            std::map<std::uint32_t, number> partial;
            // The derivatives of an expression by all of its cells.
            void slopes(std::uint32_t root) {
                std::uint32_t low = lowest(root);
                results.assign(root - low + 1, number {});
                weights.assign(root - low + 1, number {});
                for (std::uint32_t i = low; i <= root; i++) {
                    const node &n = nodes[i];
                    number &r = results[i - low];
                    switch (n.kind) {
                        case CONST:
                            r = n.c;
                            break;
                        case CELL:
                            r = value[n.a];
                            break;
                        case ADD:
                            r = math.add(results[n.a - low], results[n.b - low]);
                            break;
                        case SUB:
                            r = math.sub(results[n.a - low], results[n.b - low]);
                            break;
                        case MUL:
                            r = math.mul(results[n.a - low], results[n.b - low]);
                            break;
                        default:
                            r = math.power(results[n.a - low], n.b);
                    }
                }
                partial.clear();
                weights[root - low] = math.one;
                for (std::uint32_t i = root + 1; i-- > low;) {
                    const node &n = nodes[i];
                    const number &w = weights[i - low];
                    if (w == number {}) continue;
                    switch (n.kind) {
                        case CONST:
                            break;
                        case CELL: {
                            number &d = partial[n.a];
                            d = math.add(d, w);
                            break;
                        }
                        case ADD:
                            weights[n.a - low] = math.add(weights[n.a - low], w);
                            weights[n.b - low] = math.add(weights[n.b - low], w);
                            break;
                        case SUB:
                            weights[n.a - low] = math.add(weights[n.a - low], w);
                            weights[n.b - low] = math.sub(weights[n.b - low], w);
                            break;
                        case MUL:
                            weights[n.a - low] = math.add(weights[n.a - low], math.mul(w, results[n.b - low]));
                            weights[n.b - low] = math.add(weights[n.b - low], math.mul(w, results[n.a - low]));
                            break;
                        default:
                            weights[n.a - low] = math.add(
                                weights[n.a - low],
                                math.mul(w, math.mul(math.from(std::uint64_t(n.b)), math.power(results[n.a - low], n.b - 1))));
                    }
                }
            }
        };
    }    // namespace big
}    // namespace vp
