// Decides, for a circuit over a large field in which some cells are known, which contents of the other cells are accepted.
//
// Every constraint is kept as a polynomial. Constraints that determine a cell are used to compute it; a linear constraint over
// several bounded cells whose coefficients form a number system determines all of their digits; where every constraint left has
// several solutions, those of one are followed one by one. Cells that are not asked about and no longer connected to any that is
// only need some content, for which a hint is tried first. If the constraints left over do not determine anything, a few contents
// are tried, and the search says that it has not decided the question unless one of them is accepted. If asked to, it first
// tries the contents next to an accepted one.
#pragma once

#include <vbig.hpp>

#include <boost/multiprecision/cpp_int.hpp>

namespace vp {
    namespace big {
        typedef boost::multiprecision::cpp_int integer;

        template<typename F>
        struct solver {
            typedef system<F> S;
            S &s;
            const arithmetic<F> &math;
            integer modulus;
            // bounds the cells are assumed to obey: at least zero and less than
            std::map<std::uint32_t, integer> below;
            // called with every solution found
            std::function<void(const std::vector<number> &, const std::vector<bool> &)> found;
            bool stuck = false;
            // set to end the search
            bool enough = false;
            std::uint64_t steps = 0;
            // steps after which a search is given up
            std::uint64_t limit = 3000000;
            // whether to try the contents next to the hint before searching
            bool beside = false;
            // the cells whose contents matter, all if there are none, and a content that may do for the others
            std::set<std::uint32_t> asked;
            std::vector<number> hint;

            explicit solver(S &s_) : s(s_), math(s_.math), rows(s_.tables) {
                modulus = to_integer_raw(math.p);
                for (auto &c : s.constraints) polynomials.push_back(expand(c.root));
                users.resize(s.places.size());
                for (std::uint32_t i = 0; i < polynomials.size(); i++) {
                    std::set<std::uint32_t> cells;
                    for (auto &t : polynomials[i]) cells.insert(t.first.begin(), t.first.end());
                    for (auto x : cells) users[x].push_back(i);
                }
                for (auto &l : s.lookups) {
                    search k;
                    k.table = l.table;
                    for (auto i : l.inputs) k.inputs.push_back(expand(i));
                    std::set<std::uint32_t> cells;
                    for (auto &in : k.inputs) {
                        for (auto &t : in) cells.insert(t.first.begin(), t.first.end());
                    }
                    for (auto x : cells) users[x].push_back(polynomials.size() + searches.size());
                    searches.push_back(k);
                }
                indices.resize(rows.size());
            }
            // Notes the bounds that follow from the constraints: cells that are one of the first few numbers, and sums of bounded
            // cells that do not exceed the modulus. The given cells are known.
            void derive_bounds(const std::vector<number> &content, const std::vector<bool> &given) {
                value = content;
                known = given;
                value.resize(s.places.size());
                known.resize(s.places.size(), false);
                bound_by_tables();
                std::size_t passes = 0;
                for (bool more = true; more && passes < 50; passes++) {
                    more = false;
                    for (auto &p : polynomials) {
                        polynomial r = residue(p);
                        std::set<std::uint32_t> cells;
                        std::size_t degree = 0;
                        for (auto &t : r) {
                            cells.insert(t.first.begin(), t.first.end());
                            degree = std::max(degree, t.first.size());
                        }
                        if (cells.size() == 1 && degree > 1) {
                            std::vector<number> all;
                            auto it = below.find(*cells.begin());
                            if ((it == below.end() || searches.size()) && roots(r, *cells.begin(), degree, all)) {
                                integer top = 0;
                                for (auto &v : all) top = std::max(top, to_integer(v));
                                if (it == below.end() || top + 1 < it->second) {
                                    below[*cells.begin()] = top + 1;
                                    more = true;
                                }
                            }
                            continue;
                        }
                        if (degree != 1) continue;
                        std::vector<std::uint32_t> open;
                        for (auto x : cells) {
                            if (!below.count(x)) open.push_back(x);
                        }
                        if (searches.size() && open.empty()) more = narrow(r, cells) || more;
                        if (open.size() != 1) continue;
                        number scale = math.sub(number {}, math.inverted(r.at({open[0]})));
                        integer top = 0;
                        for (auto &t : r) {
                            if (t.first.size() && t.first[0] == open[0]) continue;
                            top += to_integer(math.mul(t.second, scale)) * (t.first.empty() ? integer(1) : integer(below.at(t.first[0]) - 1));
                        }
                        if (top < modulus) {
                            below[open[0]] = top + 1;
                            more = true;
                        }
                    }
                    if (!more && searches.size()) more = narrow_by_tables();
                }
            }
            static integer to_integer_raw(const number &n) {
                integer r = 0;
                for (int i = 3; i >= 0; i--) r = (r << 64) + n[i];
                return r;
            }
            integer to_integer(const number &n) const {
                return to_integer_raw(math.plain(n));
            }
            number to_number(integer v) const {
                v %= modulus;
                if (v < 0) v += modulus;
                number n;
                for (int i = 0; i < 4; i++) n[i] = static_cast<std::uint64_t>((v >> (64 * i)) & 0xffffffffffffffffull);
                return math.mul(n, math.square);
            }
            // Completes the content, of which the known cells are given.
            void solve(const std::vector<number> &content, const std::vector<bool> &known_cells) {
                value = content;
                known = known_cells;
                value.resize(s.places.size());
                known.resize(s.places.size(), false);
                stuck = enough = false;
                last = steps + limit;
                for (auto &b : below) {
                    if (known[b.first] && to_integer(value[b.first]) >= b.second) return;
                }
                std::vector<std::uint32_t> open;
                for (std::uint32_t i = 0; i < polynomials.size() + searches.size(); i++) open.push_back(i);
                go(open, true);
            }

        private:
            typedef std::map<std::vector<std::uint32_t>, number> polynomial;
            typedef std::vector<std::pair<std::uint32_t, number>> choice;
            std::vector<polynomial> polynomials;
            struct search {
                std::size_t table;
                std::vector<polynomial> inputs;
            };
            std::vector<search> searches;
            const std::vector<typename S::table> &rows;
            // for a table and the columns known, the rows with given contents there
            std::vector<std::map<std::uint32_t, std::map<std::vector<number>, std::vector<std::uint32_t>>>> indices;
            std::vector<std::vector<std::uint32_t>> users;
            std::vector<number> value;
            std::vector<bool> known;
            std::uint64_t last = 0;

            // Narrows the bounds of the cells of a sum that is too small to exceed the modulus.
            bool narrow(const polynomial &r, const std::set<std::uint32_t> &cells) {
                auto constant = r.find({});
                for (auto unit : cells) {
                    number scale = math.inverted(r.at({unit}));
                    auto weight = [&](const number &c) {
                        integer w = to_integer(math.mul(c, scale));
                        return w > modulus / 2 ? integer(w - modulus) : w;
                    };
                    std::map<std::uint32_t, integer> weights;
                    integer add = 0, take = 0;
                    auto count = [&](const integer &w, const integer &most) { (w > 0 ? add : take) += (w > 0 ? w : integer(-w)) * most; };
                    for (auto x : cells) count(weights[x] = weight(r.at({x})), below.at(x) - 1);
                    if (constant != r.end()) count(weight(constant->second), 1);
                    if (add >= modulus || take >= modulus) continue;
                    bool more = false;
                    for (auto &w : weights) {
                        // at most what the others can make up for
                        integer top = w.second > 0 ? integer(take / w.second) : integer(add / -w.second);
                        if (top + 1 >= below.at(w.first)) continue;
                        below[w.first] = top + 1;
                        more = true;
                    }
                    return more;
                }
                return false;
            }
            // Narrows the bounds of cells looked up together.
            bool narrow_by_tables() {
                bool more = false;
                std::map<std::vector<integer>, std::vector<integer>> seen;
                for (auto &l : searches) {
                    std::vector<integer> key = {l.table};
                    bool plain = l.inputs.size() > 1;
                    for (auto &in : l.inputs) {
                        plain = plain && in.size() == 1 && in.begin()->first.size() == 1 && in.begin()->second == math.one;
                        if (!plain) break;
                        std::uint32_t x = in.begin()->first[0];
                        plain = !known[x] && below.count(x);
                        if (plain) key.push_back(below.at(x));
                    }
                    if (!plain) continue;
                    auto it = seen.find(key);
                    if (it == seen.end()) {
                        std::vector<integer> tops(l.inputs.size(), -1), row(l.inputs.size());
                        for (auto &content : rows[l.table]) {
                            bool fine = true;
                            for (std::size_t i = 0; i < row.size() && fine; i++) {
                                row[i] = to_integer(content[i]);
                                fine = row[i] < key[i + 1];
                            }
                            for (std::size_t i = 0; i < row.size() && fine; i++) tops[i] = std::max(tops[i], row[i]);
                        }
                        it = seen.emplace(key, tops).first;
                    }
                    for (std::size_t i = 0; i < l.inputs.size(); i++) {
                        integer &bound = below[l.inputs[i].begin()->first[0]];
                        if (it->second[i] + 1 >= bound) continue;
                        bound = it->second[i] + 1;
                        more = true;
                    }
                }
                return more;
            }
            // The cells that are looked up alone, times a constant, take values of those columns only.
            void bound_by_tables() {
                std::map<std::uint32_t, std::set<std::tuple<std::size_t, std::size_t, number>>> uses;
                for (auto &l : searches) {
                    for (std::size_t i = 0; i < l.inputs.size(); i++) {
                        if (l.inputs[i].size() != 1 || l.inputs[i].begin()->first.size() != 1) continue;
                        std::uint32_t x = l.inputs[i].begin()->first[0];
                        if (!known[x]) uses[x].insert(std::make_tuple(l.table, i, l.inputs[i].begin()->second));
                    }
                }
                std::map<std::set<std::tuple<std::size_t, std::size_t, number>>, integer> tops;
                std::map<std::pair<std::size_t, std::size_t>, std::vector<number>> columns;
                auto column = [&](std::size_t table, std::size_t i) -> const std::vector<number> & {
                    auto &c = columns[{table, i}];
                    if (c.empty()) {
                        for (auto &row : rows[table]) c.push_back(row[i]);
                        std::sort(c.begin(), c.end());
                        c.erase(std::unique(c.begin(), c.end()), c.end());
                    }
                    return c;
                };
                auto has = [](const std::vector<number> &c, const number &v) { return std::binary_search(c.begin(), c.end(), v); };
                for (auto &u : uses) {
                    auto it = tops.find(u.second);
                    if (it == tops.end()) {
                        auto &f = *u.second.begin();
                        number scale = math.inverted(std::get<2>(f));
                        integer top = -1;
                        for (auto &v : column(std::get<0>(f), std::get<1>(f))) {
                            number content = math.mul(v, scale);
                            bool all = true;
                            for (auto &o : u.second) all = all && has(column(std::get<0>(o), std::get<1>(o)), math.mul(content, std::get<2>(o)));
                            if (all) top = std::max(top, to_integer(content));
                        }
                        it = tops.emplace(u.second, top).first;
                    }
                    integer bound = it->second + 1;
                    if (!below.count(u.first) || bound < below[u.first]) below[u.first] = bound;
                }
            }
            // What a lookup leaves of its cells: the number of rows it may match, and those if they are few and determine cells.
            std::size_t matches(const search &l, bool &complete, std::vector<choice> &out) {
                std::uint32_t mask = 0;
                std::vector<number> key;
                std::vector<std::pair<std::size_t, std::pair<std::uint32_t, number>>> free;    // column, cell and inverted factor
                std::vector<std::pair<std::size_t, number>> offsets;
                complete = true;
                bool plain = true;
                for (std::size_t i = 0; i < l.inputs.size(); i++) {
                    polynomial r = residue(l.inputs[i]);
                    if (r.empty() || (r.size() == 1 && r.begin()->first.empty())) {
                        mask |= 1u << i;
                        key.push_back(r.empty() ? number {} : r.begin()->second);
                        continue;
                    }
                    complete = false;
                    if (r.size() == 1 && r.begin()->first.size() == 1) {
                        free.push_back({i, {r.begin()->first[0], math.inverted(r.begin()->second)}});
                    } else {
                        plain = false;
                    }
                }
                auto &index = indices[l.table][mask];
                if (index.empty()) {
                    for (std::uint32_t n = 0; n < rows[l.table].size(); n++) {
                        std::vector<number> k;
                        for (std::size_t i = 0; i < l.inputs.size(); i++) {
                            if (mask >> i & 1) k.push_back(rows[l.table][n][i]);
                        }
                        index[k].push_back(n);
                    }
                }
                auto it = index.find(key);
                if (it == index.end()) return 0;
                if (plain && !complete && it->second.size() <= 32) {
                    for (auto n : it->second) {
                        choice c;
                        bool good = true;
                        for (auto &f : free) {
                            number v = math.mul(rows[l.table][n][f.first], f.second.second);
                            good = good && fits(f.second.first, v);
                            c.push_back({f.second.first, v});
                        }
                        if (good) out.push_back(c);
                    }
                    return out.size();
                }
                return it->second.size();
            }
            std::set<std::uint32_t> unknown(std::uint32_t k) const {
                std::set<std::uint32_t> cells;
                auto take = [&](const polynomial &p) {
                    for (auto &t : p) {
                        for (auto x : t.first) {
                            if (!known[x]) cells.insert(x);
                        }
                    }
                };
                if (k < polynomials.size()) {
                    take(residue(polynomials[k]));
                } else {
                    for (auto &in : searches[k - polynomials.size()].inputs) take(in);
                }
                return cells;
            }
            void add(polynomial &p, const std::vector<std::uint32_t> &m, const number &c) const {
                auto it = p.emplace(m, number {}).first;
                it->second = math.add(it->second, c);
                if (it->second == number {}) p.erase(it);
            }
            polynomial product(const polynomial &a, const polynomial &b) const {
                polynomial r;
                for (auto &x : a) {
                    for (auto &y : b) {
                        auto m = x.first;
                        m.insert(m.end(), y.first.begin(), y.first.end());
                        std::sort(m.begin(), m.end());
                        add(r, m, math.mul(x.second, y.second));
                    }
                }
                return r;
            }
            polynomial expand(std::uint32_t i) const {
                auto &n = s.nodes[i];
                polynomial r;
                switch (n.kind) {
                    case S::CONST:
                        add(r, {}, n.c);
                        return r;
                    case S::CELL:
                        add(r, {n.a}, math.one);
                        return r;
                    case S::POW: {
                        polynomial base = expand(n.a);
                        add(r, {}, math.one);
                        for (std::uint32_t k = 0; k < n.b; k++) r = product(r, base);
                        return r;
                    }
                    case S::MUL:
                        return product(expand(n.a), expand(n.b));
                    default: {
                        r = expand(n.a);
                        for (auto &t : expand(n.b)) add(r, t.first, n.kind == S::ADD ? t.second : math.sub(number {}, t.second));
                        return r;
                    }
                }
            }
            // what is left of a constraint once the known cells have their values
            polynomial residue(const polynomial &p) const {
                polynomial r;
                for (auto &t : p) {
                    number c = t.second;
                    std::vector<std::uint32_t> m;
                    for (auto x : t.first) {
                        if (known[x]) {
                            c = math.mul(c, value[x]);
                        } else {
                            m.push_back(x);
                        }
                    }
                    if (c != number {}) add(r, m, c);
                }
                return r;
            }
            bool fits(std::uint32_t cell, const number &v) const {
                auto it = below.find(cell);
                return it == below.end() || to_integer(v) < it->second;
            }
            // All contents of the cells of a residue that satisfy it; false if they cannot be listed.
            bool choices(const polynomial &r, std::vector<choice> &out) const {
                std::set<std::uint32_t> cells;
                std::size_t degree = 0;
                for (auto &t : r) {
                    cells.insert(t.first.begin(), t.first.end());
                    degree = std::max(degree, t.first.size());
                }
                auto coefficient = [&](const std::vector<std::uint32_t> &m) {
                    auto it = r.find(m);
                    return it == r.end() ? number {} : it->second;
                };
                number constant = coefficient({});
                if (cells.size() == 1 && degree == 1) {
                    std::uint32_t x = *cells.begin();
                    number v = math.sub(number {}, math.mul(constant, math.inverted(coefficient({x}))));
                    if (fits(x, v)) out.push_back({{x, v}});
                    return true;
                }
                if (cells.size() == 1 && degree == 2) {
                    std::uint32_t x = *cells.begin();
                    number a = coefficient({x, x}), b = coefficient({x});
                    number sum = math.sub(number {}, math.mul(b, math.inverted(a)));
                    for (number root : {number {}, math.one}) {
                        if (math.add(math.mul(root, math.add(math.mul(a, root), b)), constant) != number {}) continue;
                        number other = math.sub(sum, root);
                        if (fits(x, root)) out.push_back({{x, root}});
                        if (other != root && fits(x, other)) out.push_back({{x, other}});
                        return true;
                    }
                    return false;
                }
                if (cells.size() == 1) {
                    std::vector<number> all;
                    if (!roots(r, *cells.begin(), degree, all)) return false;
                    for (auto &v : all) {
                        if (fits(*cells.begin(), v)) out.push_back({{*cells.begin(), v}});
                    }
                    return true;
                }
                if (degree != 1) return false;
                for (auto x : cells) {
                    if (!below.count(x)) return false;
                }
                for (auto unit : cells) {
                    number scale = math.inverted(coefficient({unit}));
                    struct digit {
                        std::uint32_t cell;
                        integer weight, bound;
                        bool flipped;
                    };
                    std::vector<digit> digits;
                    integer target = to_integer(math.sub(number {}, math.mul(constant, scale)));
                    for (auto x : cells) {
                        digit d {x, to_integer(math.mul(coefficient({x}), scale)), below.at(x), false};
                        if (d.weight > modulus / 2) {
                            // count down from the largest value instead
                            d.weight = modulus - d.weight;
                            d.flipped = true;
                            target += d.weight * (d.bound - 1);
                        }
                        digits.push_back(d);
                    }
                    std::sort(digits.begin(), digits.end(), [](const digit &a, const digit &b) { return a.weight < b.weight; });
                    integer largest = 0;
                    bool good = true;
                    for (auto &d : digits) {
                        good = good && d.weight > largest;
                        largest += d.weight * (d.bound - 1);
                    }
                    if (!good || largest / modulus > 16) continue;
                    target %= modulus;
                    for (integer t = target; t <= largest; t += modulus) {
                        integer rest = t;
                        choice c;
                        for (std::size_t i = digits.size(); i-- > 0;) {
                            integer v = rest / digits[i].weight;
                            if (v >= digits[i].bound) v = digits[i].bound - 1;
                            rest -= v * digits[i].weight;
                            if (digits[i].flipped) v = digits[i].bound - 1 - v;
                            c.push_back({digits[i].cell, to_number(v)});
                        }
                        if (rest == 0) out.push_back(c);
                    }
                    return true;
                }
                return false;
            }
            // Whether all roots of a polynomial in one cell are among the first numbers.
            bool roots(const polynomial &r, std::uint32_t x, std::size_t degree, std::vector<number> &all) const {
                if (degree > 32) return false;
                number v {};
                for (std::size_t k = 0; k < degree; k++, v = math.add(v, math.one)) {
                    number sum {};
                    for (auto &t : r) {
                        number term = t.second;
                        for (std::size_t i = 0; i < t.first.size(); i++) term = math.mul(term, v);
                        sum = math.add(sum, term);
                    }
                    if (sum == number {}) all.push_back(v);
                }
                return all.size() == degree;
            }
            // Follows the constraints that leave a single choice; false if one cannot be satisfied. Notes those with several choices.
            bool settle(std::set<std::uint32_t> &left, std::set<std::uint32_t> work, std::vector<std::uint32_t> &assigned, std::map<std::uint32_t, std::vector<choice>> &several) {
                while (!work.empty()) {
                    if (steps >= last) stuck = true;
                    if (enough || steps >= last) return false;
                    std::uint32_t k = *work.begin();
                    work.erase(work.begin());
                    steps++;
                    several.erase(k);
                    std::vector<choice> all;
                    if (k < polynomials.size()) {
                        polynomial r = residue(polynomials[k]);
                        if (r.empty()) {
                            left.erase(k);
                            continue;
                        }
                        if (r.size() == 1 && r.begin()->first.empty()) return false;
                        if (!choices(r, all)) continue;
                        if (all.empty()) return false;
                    } else {
                        bool complete;
                        if (!matches(searches[k - polynomials.size()], complete, all)) return false;
                        if (complete) left.erase(k);
                        if (all.empty()) continue;
                    }
                    if (all.size() > 1) {
                        several[k] = all;
                        continue;
                    }
                    left.erase(k);
                    for (auto &a : all[0]) {
                        value[a.first] = a.second;
                        known[a.first] = true;
                        assigned.push_back(a.first);
                        for (auto u : users[a.first]) {
                            if (left.count(u)) work.insert(u);
                        }
                    }
                }
                return true;
            }
            // Some digits that give a sum of bounded cells.
            bool digits(const polynomial &r, choice &out) const {
                std::set<std::uint32_t> cells;
                for (auto &t : r) {
                    if (t.first.size() > 1) return false;
                    cells.insert(t.first.begin(), t.first.end());
                }
                for (auto x : cells) {
                    if (!below.count(x)) return false;
                }
                auto constant = r.find({});
                for (auto unit : cells) {
                    number scale = math.inverted(r.at({unit}));
                    std::vector<std::pair<integer, std::uint32_t>> weights;
                    for (auto x : cells) weights.push_back({to_integer(math.mul(r.at({x}), scale)), x});
                    std::sort(weights.rbegin(), weights.rend());
                    integer rest = constant == r.end() ? integer(0) : to_integer(math.sub(number {}, math.mul(constant->second, scale)));
                    out.clear();
                    for (auto &w : weights) {
                        integer v = std::min<integer>(rest / w.first, below.at(w.second) - 1);
                        rest -= v * w.first;
                        out.push_back({w.second, to_number(v)});
                    }
                    if (rest == 0) return true;
                }
                return false;
            }
            // Goes along the accepted content, cell by cell, and tries other contents of each cell the ones before leave open, with the
            // later ones as accepted where they can be. Finds the cells that are not connected to anything without searching for them.
            void leave(std::set<std::uint32_t> left) {
                typedef std::map<std::uint32_t, std::vector<choice>> choices_t;
                std::vector<std::uint32_t> assigned, order(s.places.size());
                for (std::uint32_t i = 0; i < order.size(); i++) order[i] = i;
                std::sort(order.begin(), order.end(), [&](std::uint32_t a, std::uint32_t b) {
                    return std::make_tuple(s.places[a].row, s.places[a].column, a) < std::make_tuple(s.places[b].row, s.places[b].column, b);
                });
                auto put = [&](std::set<std::uint32_t> &rest, std::vector<std::uint32_t> &set, std::uint32_t x, const number &v) {
                    if (!fits(x, v)) return false;
                    value[x] = v;
                    known[x] = true;
                    set.push_back(x);
                    std::set<std::uint32_t> work;
                    for (auto u : users[x]) {
                        if (rest.count(u)) work.insert(u);
                    }
                    choices_t several;
                    return settle(rest, work, set, several);
                };
                auto needed = [&](const std::set<std::uint32_t> &rest, std::uint32_t x) {
                    if (known[x]) return false;
                    for (auto u : users[x]) {
                        if (rest.count(u)) return true;
                    }
                    return false;
                };
                std::size_t tries = 0;
                bool good = true;
                for (std::size_t i = 0; i < order.size() && good && !enough && tries < 400; i++) {
                    std::uint32_t x = order[i];
                    if (!needed(left, x)) continue;
                    // a little more or less, or as much as a step of another cell of the same sum
                    std::set<number> near = {math.one}, contents = {number {}, math.one};
                    for (auto u : users[x]) {
                        if (!left.count(u) || u >= polynomials.size()) continue;
                        polynomial r = residue(polynomials[u]);
                        auto own = r.find({x});
                        if (own == r.end()) continue;
                        number scale = math.inverted(own->second);
                        for (auto &t : r) {
                            if (t.first.size() == 1 && near.size() < 12) near.insert(math.mul(t.second, scale));
                        }
                    }
                    for (auto &n : near) {
                        contents.insert(math.add(hint[x], n));
                        contents.insert(math.sub(hint[x], n));
                    }
                    for (auto &v : contents) {
                        if (v == hint[x] || enough) continue;
                        tries++;
                        std::set<std::uint32_t> rest = left;
                        std::vector<std::uint32_t> set;
                        bool fine = put(rest, set, x, v);
                        for (std::size_t k = i + 1; k < order.size() && fine && !rest.empty(); k++) {
                            if (!needed(rest, order[k])) continue;
                            // as accepted, otherwise as a digit of a sum
                            std::vector<number> ways = {hint[order[k]]};
                            for (auto u : users[order[k]]) {
                                choice c;
                                if (!rest.count(u) || u >= polynomials.size() || !digits(residue(polynomials[u]), c)) continue;
                                for (auto &d : c) {
                                    if (d.first == order[k] && d.second != ways[0]) ways.push_back(d.second);
                                }
                            }
                            fine = false;
                            for (auto &w : ways) {
                                std::set<std::uint32_t> before = rest;
                                std::size_t size = set.size();
                                fine = put(rest, set, order[k], w);
                                if (fine) break;
                                for (; set.size() > size; set.pop_back()) known[set.back()] = false;
                                rest = before;
                            }
                        }
                        if (fine && rest.empty() && steps < last) found(value, known);
                        for (auto c : set) known[c] = false;
                    }
                    good = put(left, assigned, x, hint[x]);
                }
                for (auto c : assigned) known[c] = false;
            }
            std::size_t depth = 0;
            struct level {
                std::size_t &depth;
                explicit level(std::size_t &d) : depth(d) { depth++; }
                ~level() { depth--; }
            };
            void go(std::vector<std::uint32_t> open, bool first = false) {
                level here(depth);
                if (depth > 400) {
                    stuck = true;
                    return;
                }
                std::vector<std::uint32_t> assigned;
                auto undo = [&]() {
                    for (auto x : assigned) known[x] = false;
                };
                std::set<std::uint32_t> left(open.begin(), open.end());
                std::map<std::uint32_t, std::vector<choice>> several;
                if (!settle(left, left, assigned, several)) return undo();
                if (!asked.empty()) set_aside(left);
                if (first && beside && !left.empty() && !hint.empty()) {
                    leave(left);
                    // the search itself begins here
                    last = steps + limit;
                    stuck = false;
                }
                if (enough) return undo();
                const std::vector<choice> *branch = nullptr;
                std::uint32_t constraint = 0;
                for (auto &b : several) {
                    // the fewest choices, and among those that settle the most cells
                    if (left.count(b.first) && (!branch || std::make_pair(b.second.size(), branch->front().size()) <
                                                               std::make_pair(branch->size(), b.second.front().size()))) {
                        branch = &b.second;
                        constraint = b.first;
                    }
                }
                if (branch) {
                    left.erase(constraint);
                    open.assign(left.begin(), left.end());
                    for (auto &c : *branch) {
                        for (auto &a : c) {
                            value[a.first] = a.second;
                            known[a.first] = true;
                        }
                        go(open);
                        for (auto &a : c) known[a.first] = false;
                    }
                    return undo();
                }
                open.assign(left.begin(), left.end());
                while (drop(open)) {
                }
                if (open.empty()) {
                    found(value, known);
                } else if (guesses < 8) {
                    guess(open);
                } else {
                    stuck = true;
                }
                undo();
            }
            // Removes the constraints that are not connected to a cell asked about and that the hint satisfies.
            void set_aside(std::set<std::uint32_t> &left) {
                std::set<std::uint32_t> todo = left;
                while (!todo.empty()) {
                    std::set<std::uint32_t> part = {*todo.begin()}, cells;
                    std::vector<std::uint32_t> queue = {*todo.begin()};
                    todo.erase(todo.begin());
                    bool matters = false, fine = true;
                    while (!queue.empty()) {
                        std::uint32_t k = queue.back();
                        queue.pop_back();
                        auto at_hint = [&](const polynomial &of) {
                            number sum {};
                            for (auto &t : residue(of)) {
                                number term = t.second;
                                for (auto x : t.first) {
                                    term = math.mul(term, hint.empty() ? number {} : hint[x]);
                                    matters = matters || asked.count(x);
                                    if (!cells.insert(x).second) continue;
                                    fine = fine && fits(x, hint.empty() ? number {} : hint[x]);
                                    for (auto u : users[x]) {
                                        if (todo.erase(u)) {
                                            part.insert(u);
                                            queue.push_back(u);
                                        }
                                    }
                                }
                                sum = math.add(sum, term);
                            }
                            return sum;
                        };
                        if (k < polynomials.size()) {
                            fine = at_hint(polynomials[k]) == number {} && fine;
                        } else {
                            std::vector<number> in;
                            for (auto &i : searches[k - polynomials.size()].inputs) in.push_back(at_hint(i));
                            fine = s.tables[searches[k - polynomials.size()].table].count(in) && fine;
                        }
                    }
                    if (matters || !fine) continue;
                    for (auto k : part) left.erase(k);
                }
            }
            // A constraint that has an unbounded cell of its own, with a constant coefficient, can always be satisfied.
            bool drop(std::vector<std::uint32_t> &open) const {
                std::map<std::uint32_t, std::size_t> uses;
                std::vector<polynomial> rest;
                for (auto i : open) {
                    rest.push_back(i < polynomials.size() ? residue(polynomials[i]) : polynomial());
                    for (auto x : unknown(i)) uses[x]++;
                }
                for (std::size_t k = 0; k < open.size(); k++) {
                    if (open[k] >= polynomials.size()) {
                        // some row of the table matches, as nothing else asks for these cells
                        bool own = true;
                        for (auto x : unknown(open[k])) own = own && uses[x] == 1;
                        if (!own) continue;
                        open.erase(open.begin() + k);
                        return true;
                    }
                    std::map<std::uint32_t, std::size_t> terms;
                    for (auto &t : rest[k]) {
                        for (auto x : t.first) terms[x] += t.first.size() == 1 ? 1 : 2;
                    }
                    for (auto &x : terms) {
                        if (x.second == 1 && uses[x.first] == 1 && !below.count(x.first)) {
                            open.erase(open.begin() + k);
                            return true;
                        }
                    }
                }
                return false;
            }
            std::size_t guesses = 0;
            // The cells are not determined: a prover may choose. Success settles the question, failure does not.
            void guess(const std::vector<std::uint32_t> &open) {
                std::uint32_t x = *unknown(open[0]).rbegin();
                std::vector<number> tries = {number {}, math.one};
                auto it = below.find(x);
                if (it != below.end()) tries.push_back(to_number(it->second - 1));
                guesses++;
                known[x] = true;
                for (auto &v : tries) {
                    value[x] = v;
                    go(open);
                }
                known[x] = false;
                guesses--;
                stuck = true;
            }
        };
    }    // namespace big
}    // namespace vp
