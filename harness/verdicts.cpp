// C02: the verdict of the satisfiability check; C08: the verdict of the connectedness check.
#include <vplonk.hpp>

#include <nil/blueprint/utils/connectedness_check.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>

namespace {
    // ---------------------------------------------------------------- C02

    typedef vp::small_field<3> F3;
    typedef vp::types<F3> T;

    constexpr std::size_t ROWS = 3;

    // Everything a gate, lookup or copy constraint can read, as plain integers modulo 3.
    struct cells {
        unsigned w[2][ROWS], k[ROWS], pub;
    };

    struct plain_gate {
        std::string text;
        bool inner_only;    // reads the rows around it
        std::vector<T::constraint> constraints;
        std::function<bool(const cells &, std::size_t row)> holds;
    };

    struct plain_lookup {
        std::string text;
        std::vector<T::lookup_constraint> constraints;
        std::function<bool(const cells &, std::size_t row)> holds;
    };

    struct plain_copy {
        std::string text;
        T::copy constraint;
        std::function<bool(const cells &)> holds;
    };

    class three_rows : public vp::snark::lookup_table_definition<F3> {
    public:
        three_rows() : vp::snark::lookup_table_definition<F3>("three_rows") {
            this->subtables["full"] = {{0, 1}, 0, 2};
            this->subtables["first"] = {{0}, 0, 2};
            this->subtables["swapped"] = {{1, 0}, 0, 2};
        }
        void generate() override {
            this->_table = {{0u, 1u, 1u}, {1u, 2u, 0u}};
        }
        std::size_t get_columns_number() override {
            return 2;
        }
        std::size_t get_rows_number() override {
            return 3;
        }
    };
    const unsigned LISTED[3][2] = {{0, 1}, {1, 2}, {1, 0}};

    std::vector<plain_gate> all_gates() {
        typedef T::constraint C;
        auto a = T::wr(0, 0), b = T::wr(1, 0), k = T::kr(0, 0);
        auto sel0 = T::var(0, 0, true, T::var::column_type::selector);
        return {
            {"a-b", false, {C(a - b)}, [](const cells &x, std::size_t r) { return x.w[0][r] == x.w[1][r]; }},
            {"a*b-k", false, {C(a * b - k)}, [](const cells &x, std::size_t r) { return x.w[0][r] * x.w[1][r] % 3 == x.k[r]; }},
            {"a+a(next)-b(prev)",
             true,
             {C(a + T::wr(0, 1) - T::wr(1, -1))},
             [](const cells &x, std::size_t r) { return (x.w[0][r] + x.w[0][r + 1]) % 3 == x.w[1][r - 1]; }},
            {"(a^2+b-1)^2",
             false,
             {C((a.pow(2) + b - T::value(1)).pow(2))},
             [](const cells &x, std::size_t r) { return (x.w[0][r] * x.w[0][r] + x.w[1][r] + 2) % 3 == 0; }},
            {"a(a-1), b-k",
             false,
             {C(a * (a - T::value(1))), C(b - k)},
             [](const cells &x, std::size_t r) { return x.w[0][r] <= 1 && x.w[1][r] == x.k[r]; }},
            {"k(prev)-k(next), a",
             true,
             {C(T::kr(0, -1) - T::kr(0, 1)), C(a)},
             [](const cells &x, std::size_t r) { return x.k[r - 1] == x.k[r + 1] && x.w[0][r] == 0; }},
            {"b(1+b), 0", false, {C(b * (T::value(1) + b)), C(a - a)}, [](const cells &x, std::size_t r) { return x.w[1][r] != 1; }},
            {"2*sel-2", false, {C(T::value(2) * sel0 - T::value(2))}, [](const cells &, std::size_t) { return true; }},
        };
    }

    enum { FULL = 1, FIRST = 2, SWAPPED = 3, DYNAMIC = 4 };

    std::vector<plain_lookup> all_lookups() {
        typedef T::constraint C;
        typedef T::lookup_constraint L;
        auto a = T::wr(0, 0), b = T::wr(1, 0), k = T::kr(0, 0);
        auto listed = [](unsigned x, unsigned y) {
            for (auto &l : LISTED) {
                if (l[0] == x && l[1] == y) return true;
            }
            return false;
        };
        return {
            {"(a,b) in full", {L(FULL, {C(a), C(b)})}, [=](const cells &x, std::size_t r) { return listed(x.w[0][r], x.w[1][r]); }},
            {"(a,b) in swapped", {L(SWAPPED, {C(a), C(b)})}, [=](const cells &x, std::size_t r) { return listed(x.w[1][r], x.w[0][r]); }},
            {"(a+b) in first", {L(FIRST, {C(a + b)})}, [=](const cells &x, std::size_t r) { return (x.w[0][r] + x.w[1][r]) % 3 != 2; }},
            {"(a*k,b) in full and (b) in first",
             {L(FULL, {C(a * k), C(b)}), L(FIRST, {C(b)})},
             [=](const cells &x, std::size_t r) { return listed(x.w[0][r] * x.k[r] % 3, x.w[1][r]) && x.w[1][r] != 2; }},
        };
    }

    std::vector<plain_copy> all_copies() {
        return {
            {"a0=b2", {T::w(0, 0), T::w(1, 2)}, [](const cells &x) { return x.w[0][0] == x.w[1][2]; }},
            {"a1=pub", {T::w(0, 1), T::pub(0, 0)}, [](const cells &x) { return x.w[0][1] == x.pub; }},
            {"k1=b0", {T::k(0, 1), T::w(1, 0)}, [](const cells &x) { return x.k[1] == x.w[1][0]; }},
            {"pub=k2", {T::pub(0, 0), T::k(0, 2)}, [](const cells &x) { return x.pub == x.k[2]; }},
        };
    }

    struct selection {
        std::size_t which;
        unsigned rows;
    };

    // Calls f for every content of the table (constants and public input from 4 choices).
    void every_content(const std::function<void(const cells &)> &f) {
        static const unsigned constants[4][ROWS + 1] = {{0, 1, 2, 1}, {1, 1, 1, 0}, {2, 0, 2, 2}, {0, 0, 0, 0}};
        for (std::size_t i = 0; i < 4 * 729; i++) {
            cells x;
            std::size_t r = i / 4;
            for (std::size_t c = 0; c < 2; c++) {
                for (std::size_t row = 0; row < ROWS; row++) {
                    x.w[c][row] = r % 3;
                    r /= 3;
                }
            }
            for (std::size_t row = 0; row < ROWS; row++) x.k[row] = constants[i % 4][row];
            x.pub = constants[i % 4][ROWS];
            f(x);
        }
    }

    void fill(T::assignment &as, const cells &x) {
        for (std::size_t c = 0; c < 2; c++) {
            for (std::size_t row = 0; row < ROWS; row++) as.witness(c, row) = x.w[c][row];
        }
        for (std::size_t row = 0; row < ROWS; row++) as.constant(0, row) = x.k[row];
        as.public_input(0, 0) = x.pub;
    }

    struct scene {
        std::vector<selection> gates, lookups;
        std::vector<std::size_t> copies;
        int dynamic = 0;    // 0: none, 1: (a) in values of b, 2: (a,k) in (b,k) or (a,b)
        unsigned dynamic_rows = 0, table_rows = 0;
        bool odd_selector = false;    // selectors hold 2 instead of 1

        std::string text() const {
            std::ostringstream s;
            for (auto &g : gates) s << "gate " << all_gates()[g.which].text << " on rows mask " << g.rows << "; ";
            for (auto &l : lookups) s << "lookup " << all_lookups()[l.which].text << " on rows mask " << l.rows << "; ";
            for (auto &c : copies) s << "copy " << all_copies()[c].text << "; ";
            if (dynamic) s << "dynamic lookup kind " << dynamic << " on rows mask " << dynamic_rows << ", table on rows mask " << table_rows << "; ";
            if (odd_selector) s << "selectors hold 2; ";
            return s.str();
        }
    };

    struct built_scene {
        T::circuit bp;
        std::vector<std::pair<std::size_t, unsigned>> selectors;    // selector -> rows

        // what has to hold, in the order of the real circuit
        std::vector<std::function<bool(const cells &, const std::set<std::uint32_t> &rows)>> gates, lookups;
        std::vector<std::function<bool(const cells &)>> copies;
        std::size_t selectors_amount = 1;

        explicit built_scene(const scene &s) {
            static const auto G = all_gates();
            static const auto L = all_lookups();
            static const auto K = all_copies();
            std::size_t next = 0;
            auto on_rows = [](unsigned mask, auto holds) {
                return [=](const cells &x, const std::set<std::uint32_t> &rows) {
                    for (std::size_t r = 0; r < ROWS; r++) {
                        if ((mask >> r & 1) && rows.count(r) && !holds(x, r)) return false;
                    }
                    return true;
                };
            };
            for (auto &g : s.gates) {
                bp.add_gate(next, G[g.which].constraints);
                selectors.push_back({next++, g.rows});
                gates.push_back(on_rows(g.rows, G[g.which].holds));
            }
            if (!s.lookups.empty() || s.dynamic) {
                bp.register_lookup_table(std::make_shared<three_rows>());
                for (auto name : {"three_rows/full", "three_rows/first", "three_rows/swapped"}) bp.reserve_table(name);
            }
            for (auto &l : s.lookups) {
                bp.add_lookup_gate(next, L[l.which].constraints);
                selectors.push_back({next++, l.rows});
                lookups.push_back(on_rows(l.rows, L[l.which].holds));
            }
            if (s.dynamic) {
                typedef T::constraint C;
                bp.reserve_dynamic_table("values");
                std::size_t tag = next++;
                selectors.push_back({tag, s.table_rows});
                T::dynamic_table table(s.dynamic, tag);
                if (s.dynamic == 1) {
                    table.append_option({T::wr(1, 0)});
                } else {
                    table.append_option({T::wr(1, 0), T::kr(0, 0)});
                    table.append_option({T::wr(0, 0), T::wr(1, 0)});
                }
                bp.define_dynamic_table("values", table);
                for (int i = 0; i < 3; i++) bp.add_lookup_table(T::dynamic_table(1, 0));
                bp.add_lookup_table(table);
                std::vector<C> input = {C(T::wr(0, 0))};
                if (s.dynamic == 2) input.push_back(C(T::kr(0, 0)));
                bp.add_lookup_gate(next, std::vector<T::lookup_constraint> {T::lookup_constraint(DYNAMIC, input)});
                selectors.push_back({next++, s.dynamic_rows});
                int kind = s.dynamic;
                unsigned trows = s.table_rows;
                lookups.push_back(on_rows(s.dynamic_rows, [=](const cells &x, std::size_t r) {
                    for (std::size_t t = 0; t < ROWS; t++) {
                        if (!(trows >> t & 1)) continue;
                        if (kind == 1 && x.w[0][r] == x.w[1][t]) return true;
                        if (kind == 2 && x.w[0][r] == x.w[1][t] && x.k[r] == x.k[t]) return true;
                        if (kind == 2 && x.w[0][r] == x.w[0][t] && x.k[r] == x.w[1][t]) return true;
                    }
                    return false;
                }));
            }
            for (auto &c : s.copies) {
                bp.add_copy_constraint(K[c].constraint);
                copies.push_back(K[c].holds);
            }
            selectors_amount = std::max<std::size_t>(next, 1);
        }

        void enable(T::assignment &as, bool odd) const {
            for (auto &s : selectors) {
                for (std::size_t row = 0; row < ROWS; row++) {
                    if (s.second >> row & 1) {
                        as.enable_selector(s.first, row);
                        if (odd) as.selector(s.first, row) = 2;
                    }
                }
            }
        }
    };

    void check_scene(const scene &s) {
        built_scene b(s);
        std::set<std::uint32_t> rows = {0, 1, 2};
        const T::circuit &bp = b.bp;
        T::assignment as(2, 1, 1, b.selectors_amount);
        b.enable(as, s.odd_selector);
        every_content([&](const cells &x) {
            VH_CASE([&] {
                std::ostringstream t;
                t << s.text() << "a=" << x.w[0][0] << x.w[0][1] << x.w[0][2] << " b=" << x.w[1][0] << x.w[1][1] << x.w[1][2]
                  << " k=" << x.k[0] << x.k[1] << x.k[2] << " pub=" << x.pub;
                return t.str();
            }());
            fill(as, x);
            bool want = true;
            for (auto &g : b.gates) want = want && g(x, rows);
            for (auto &l : b.lookups) want = want && l(x, rows);
            for (auto &c : b.copies) want = want && c(x);
            bool got;
            {
                vh::quiet q;
                got = nil::blueprint::is_satisfied<F3>(bp, as);
            }
            VH_CHECK(got == want, want ? "rejected" : "accepted", (want ? "a satisfying" : "a violating") << " table is "
                                                                      << (got ? "accepted" : "rejected"));
            vh::count(want ? "satisfying_tables" : "violating_tables");
            vh::count_transitions(s.gates.size() + s.lookups.size() + s.copies.size() + (s.dynamic ? 1 : 0));
            vh::count_states();
            vh::count_traces();
        });
    }

    // The variant restricted to some of the gates, lookups, copy constraints and rows.
    void check_parts(const scene &s, std::size_t part, std::size_t parts) {
        built_scene b(s);
        const T::circuit &bp = b.bp;
        T::assignment as(2, 1, 1, b.selectors_amount);
        b.enable(as, false);
        std::size_t number = 0;
        auto subset = [](unsigned mask) {
            std::set<std::uint32_t> r;
            for (unsigned i = 0; i < 8; i++) {
                if (mask >> i & 1) r.insert(i);
            }
            return r;
        };
        every_content([&](const cells &x) {
            if (number++ % parts != part) return;    // the rest is done by the other workers
            fill(as, x);
            vh::count_states();
            for (unsigned g = 0; g < (1u << b.gates.size()); g++) {
                for (unsigned l = 0; l < (1u << b.lookups.size()); l++) {
                    for (unsigned c = 0; c < (1u << b.copies.size()); c++) {
                        for (unsigned r = 0; r < 8; r++) {
                            VH_CASE([&] {
                                std::ostringstream t;
                                t << s.text() << "a=" << x.w[0][0] << x.w[0][1] << x.w[0][2] << " b=" << x.w[1][0] << x.w[1][1]
                                  << x.w[1][2] << " k=" << x.k[0] << x.k[1] << x.k[2] << " pub=" << x.pub << ", only gates mask "
                                  << g << ", lookups mask " << l << ", copies mask " << c << ", rows mask " << r;
                                return t.str();
                            }());
                            auto rows = subset(r);
                            bool want = true;
                            for (auto i : subset(g)) want = want && b.gates[i](x, rows);
                            for (auto i : subset(l)) want = want && b.lookups[i](x, rows);
                            for (auto i : subset(c)) want = want && b.copies[i](x);
                            bool got;
                            {
                                vh::quiet q;
                                got = nil::blueprint::is_satisfied<F3>(bp, as, subset(g), subset(l), subset(c), rows);
                            }
                            VH_CHECK(got == want, want ? "part-rejected" : "part-accepted",
                                     "restricted to a part, a " << (want ? "satisfying" : "violating") << " table is "
                                                                << (got ? "accepted" : "rejected"));
                            vh::count_transitions(subset(g).size() + subset(l).size() + subset(c).size());
                            vh::count_traces();
                        }
                    }
                }
            }
        });
    }

    void satisfiability() {
        auto G = all_gates();
        std::vector<selection> gates, lookups;
        for (std::size_t g = 0; g < G.size(); g++) {
            for (unsigned rows : {1u, 2u, 4u, 5u, 7u}) {
                if (!G[g].inner_only || rows == 2) gates.push_back({g, rows});
            }
        }
        for (std::size_t l = 0; l < all_lookups().size(); l++) {
            for (unsigned rows : {1u, 4u, 6u, 7u}) lookups.push_back({l, rows});
        }
        std::vector<scene> scenes;
        auto add = [&](const std::function<void(scene &)> &f) {
            scene s;
            f(s);
            scenes.push_back(s);
        };
        scenes.push_back(scene());
        for (auto &g : gates) {
            for (bool odd : {false, true}) {
                if (odd && G[g.which].text == "2*sel-2") continue;
                add([&](scene &s) {
                    s.gates = {g};
                    s.odd_selector = odd;
                });
            }
            for (auto &h : gates) {
                // two gates, the selector of the first being read by the last kind only when it is on
                bool reads = G[h.which].text == "2*sel-2", first = G[g.which].text == "2*sel-2";
                if (first || (reads && (g.rows & h.rows) != h.rows)) continue;
                add([&](scene &s) { s.gates = {g, h}; });
            }
            if (G[g.which].text == "2*sel-2") continue;
            for (auto &l : lookups) {
                add([&](scene &s) {
                    s.gates = {g};
                    s.lookups = {l};
                });
            }
            for (std::size_t c = 0; c < all_copies().size(); c++) {
                add([&](scene &s) {
                    s.gates = {g};
                    s.copies = {c};
                });
            }
        }
        for (auto &l : lookups) {
            for (auto &m : lookups) {
                add([&](scene &s) { s.lookups = {l, m}; });
            }
            add([&](scene &s) {
                s.lookups = {l};
                s.odd_selector = true;
            });
            for (std::size_t c = 0; c < all_copies().size(); c++) {
                add([&](scene &s) {
                    s.lookups = {l};
                    s.copies = {c};
                });
            }
        }
        for (unsigned c = 1; c < 16; c++) {
            add([&](scene &s) {
                for (unsigned i = 0; i < 4; i++) {
                    if (c >> i & 1) s.copies.push_back(i);
                }
            });
        }
        for (int kind : {1, 2}) {
            for (unsigned rows = 0; rows < 8; rows++) {
                for (unsigned trows = 0; trows < 8; trows++) {
                    add([&](scene &s) {
                        s.dynamic = kind;
                        s.dynamic_rows = rows;
                        s.table_rows = trows;
                    });
                    add([&](scene &s) {
                        s.dynamic = kind;
                        s.dynamic_rows = rows;
                        s.table_rows = trows;
                        s.lookups = {{0, 2}};
                        s.gates = {{0, 1}};
                    });
                }
            }
        }
        vh::declare("satisfying_tables");
        vh::declare("violating_tables");
        std::vector<scene> parts;
        for (std::size_t g = 0; g + 2 < G.size(); g++) {
            scene s;
            s.gates = {{g, G[g].inner_only ? 2u : 3u}, {(g + 1) % 2, 6u}};
            s.lookups = {{g % 4, 5u}};
            s.copies = {g % 4, (g + 1) % 4};
            s.dynamic = 1 + g % 2;
            s.dynamic_rows = 3;
            s.table_rows = 6;
            parts.push_back(s);
        }
        vh::cfg().bounds = std::to_string(scenes.size()) +
                           " circuits of at most 2 gates (8 kinds), 2 lookups (4 kinds and dynamic tables) and 4 copy constraints over "
                           "the field of 3 elements; every content of 2 witness columns of 3 rows with 4 choices of constants and "
                           "public input; " +
                           std::to_string(parts.size()) + " circuits with every subset of their parts and rows";
        vh::parallel(scenes.size(), [&](std::size_t i) { check_scene(scenes[i]); });
        vh::parallel(parts.size() * 8, [&](std::size_t i) {
            check_parts(parts[i / 8], i % 8, 8);
        });
    }

    // ---------------------------------------------------------------- C08

    typedef vp::types<vp::small_field<97>> U;
    typedef U::field F97;
    typedef nil::blueprint::connectedness_check_type connectedness;

    struct cell {
        int kind;    // 0 witness, 1 constant, 2 public input
        std::size_t column, row;
        bool operator<(const cell &o) const {
            return std::tie(kind, column, row) < std::tie(o.kind, o.column, o.row);
        }
    };

    struct graph {
        std::map<cell, std::set<cell>> edges;
        void link(const cell &a, const cell &b) {
            edges[a].insert(b);
            edges[b].insert(a);
        }
        std::set<cell> reach(const cell &from) const {
            std::set<cell> seen = {from};
            std::vector<cell> todo = {from};
            while (!todo.empty()) {
                cell c = todo.back();
                todo.pop_back();
                auto it = edges.find(c);
                if (it == edges.end()) continue;
                for (auto &n : it->second) {
                    if (seen.insert(n).second) todo.push_back(n);
                }
            }
            return seen;
        }
    };

    cell cell_of(const U::var &v, long row) {
        int kind = v.type == U::var::column_type::witness ? 0 : v.type == U::var::column_type::constant ? 1 : 2;
        return {kind, v.index, static_cast<std::size_t>(v.relative ? row + v.rotation : v.rotation)};
    }

    void connectedness_verdict() {
        typedef U::constraint C;
        const std::size_t rows = 3;
        auto a = U::wr(0, 0), b = U::wr(1, 0), k = U::kr(0, 0), m = U::kr(1, 0);
        struct linker {
            std::string text;
            std::vector<U::var> vars;
            bool lookup;
            unsigned rows;
        };
        std::vector<linker> linkers = {
            {"none", {}, false, 0},
            {"a,b", {a, b}, false, 1},
            {"a,b", {a, b}, false, 5},
            {"a,b(next)", {a, U::wr(1, 1)}, false, 3},
            {"b,a(prev)", {b, U::wr(0, -1)}, false, 2},
            {"a,k", {a, k}, false, 3},
            {"b,m", {b, m}, false, 3},
            {"a,m(next)", {a, U::kr(1, 1)}, false, 1},
            {"a", {a}, false, 7},
            {"lookup a,b", {a, b}, true, 2},
            {"lookup b,m", {b, m}, true, 1},
            {"lookup a,b(next),k", {a, U::wr(1, 1), k}, true, 2},
        };
        for (std::size_t i = 0; i < linkers.size(); i++) {
            linkers[i].text += "@" + std::to_string(linkers[i].rows);
        }
        std::vector<U::var> nodes = {U::pub(0, 0), U::pub(0, 1), U::w(0, 0), U::w(1, 0), U::w(0, 1), U::w(1, 2), U::k(0, 0), U::k(1, 0)};
        std::vector<std::pair<std::size_t, std::size_t>> copies;
        for (std::size_t i = 0; i < nodes.size(); i++) {
            for (std::size_t j = i + 1; j < nodes.size(); j++) copies.push_back({i, j});
        }
        std::vector<std::vector<std::pair<std::size_t, std::size_t>>> copy_sets = {{}};
        for (std::size_t i = 0; i < copies.size(); i++) {
            copy_sets.push_back({copies[i]});
            for (std::size_t j = i + 1; j < copies.size(); j++) {
                copy_sets.push_back({copies[i], copies[j]});
                if (vh::thorough()) {
                    for (std::size_t l = j + 1; l < copies.size(); l++) copy_sets.push_back({copies[i], copies[j], copies[l]});
                }
            }
        }
        std::vector<std::vector<std::size_t>> outputs = {{2}, {3}, {5}, {3, 5}, {4, 3}};
        vh::cfg().bounds = "tables of 2 witness and 2 constant columns and 3 rows, at start rows 0 and 2; every pair of " +
                           std::to_string(linkers.size()) + " gates and lookups; every set of at most " +
                           (vh::thorough() ? "3" : "2") +
                           " copy constraints over 8 cells; 2 inputs, 5 choices of outputs; both strengths, with and without islands";
        vh::declare("connected");
        vh::declare("not_connected");
        vh::parallel(linkers.size() * linkers.size(), [&](std::size_t item) {
            for (std::size_t start : {0u, 2u}) {
                for (auto &set : copy_sets) {
                    std::vector<linker> used = {linkers[item / linkers.size()], linkers[item % linkers.size()]};
                    U::circuit bp;
                    U::assignment as(2, 1, 2, 4);
                    graph g;
                    std::size_t next = 0;
                    std::vector<std::set<cell>> constrained;
                    for (auto &l : used) {
                        if (l.vars.empty()) continue;
                        if (!l.lookup) {
                            C sum = C(l.vars[0]);
                            std::vector<C> cs = {sum};
                            for (std::size_t i = 1; i < l.vars.size(); i++) cs.push_back(C(l.vars[i]));
                            bp.add_gate(next, cs);
                        } else {
                            std::vector<C> in;
                            for (auto &v : l.vars) in.push_back(C(v));
                            bp.add_lookup_gate(next, std::vector<U::lookup_constraint> {U::lookup_constraint(1, in)});
                        }
                        // the selector is also on outside of the rows that are looked at
                        as.enable_selector(next, start + rows + 1);
                        for (std::size_t row = 0; row < rows; row++) {
                            if (!(l.rows >> row & 1)) continue;
                            as.enable_selector(next, start + row);
                            std::set<cell> together;
                            for (auto &v : l.vars) {
                                cell c = cell_of(v, start + row);
                                together.insert(c);
                                g.link(c, cell_of(l.vars[0], start + row));
                            }
                            constrained.push_back(together);
                        }
                        next++;
                    }
                    auto moved = [&](U::var v) {
                        if (v.type != U::var::column_type::public_input) v.rotation += start;
                        return v;
                    };
                    std::string text;
                    for (auto &c : set) {
                        auto u = moved(nodes[c.first]), v = moved(nodes[c.second]);
                        bp.add_copy_constraint({u, v});
                        g.link(cell_of(u, 0), cell_of(v, 0));
                        constrained.push_back({cell_of(u, 0), cell_of(v, 0)});
                        std::ostringstream s;
                        s << u << "=" << v << " ";
                        text += s.str();
                    }
                    vh::count_states();
                    for (auto &o : outputs) {
                        std::vector<U::var> in = {U::pub(0, 0), U::pub(0, 1)}, out;
                        for (auto i : o) out.push_back(moved(nodes[i]));
                        std::vector<std::reference_wrapper<U::var>> in_refs(in.begin(), in.end()), out_refs(out.begin(), out.end());
                        std::vector<std::set<cell>> from;
                        for (auto &v : in) from.push_back(g.reach(cell_of(v, 0)));
                        bool strong = from[0].count(cell_of(in[1], 0)) > 0, weak = true;
                        for (auto &v : out) {
                            strong = strong && from[0].count(cell_of(v, 0));
                            weak = weak && (from[0].count(cell_of(v, 0)) || from[1].count(cell_of(v, 0)));
                        }
                        for (auto &f : from) {
                            bool some = false;
                            for (auto &v : out) some = some || f.count(cell_of(v, 0));
                            weak = weak && some;
                        }
                        bool islands = false;
                        for (auto &t : constrained) {
                            for (auto &c : t) {
                                auto r = g.reach(c);
                                bool attached = false;
                                for (auto &v : in) attached = attached || r.count(cell_of(v, 0));
                                for (auto &v : out) attached = attached || r.count(cell_of(v, 0));
                                islands = islands || !attached;
                            }
                        }
                        for (int mode = 0; mode < 4; mode++) {
                            bool want = (mode & 1 ? strong : weak) && (mode & 2 ? !islands : true);
                            VH_CASE("start row " << start << ", " << used[0].text << ", " << used[1].text << ", copies " << text
                                                 << ", outputs " << out[0] << (out.size() > 1 ? " and another" : "") << ", mode " << mode);
                            connectedness type(mode & 1 ? connectedness::type::STRONG : connectedness::type::WEAK,
                                               mode & 2 ? connectedness::island_type::ISLANDS : connectedness::island_type::NONE);
                            bool got = nil::blueprint::check_connectedness<F97>(as, bp, in_refs, out_refs, start, rows, type);
                            VH_CHECK(got == want, want ? "false-alarm" : "missed",
                                     (mode & 1 ? "strong" : "weak") << " connectedness" << (mode & 2 ? " without islands" : "")
                                                                    << " is reported as " << got);
                            vh::count(want ? "connected" : "not_connected");
                            vh::count_transitions();
                        }
                        vh::count_traces();
                    }
                }
            }
        });
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"C02", satisfiability}, {"C08", connectedness_verdict}});
}
