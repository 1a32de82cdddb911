// C07: several users of one table and one circuit through proxies.
#include <vcomponent.hpp>

#include <nil/blueprint/blueprint/plonk/assignment_proxy.hpp>
#include <nil/blueprint/blueprint/plonk/circuit_proxy.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>

namespace {
    typedef vp::small_field<97> F;
    typedef vp::types<F> T;
    typedef T::var var;
    typedef nil::blueprint::assignment_proxy<T::system> table_proxy;
    typedef nil::blueprint::circuit_proxy<T::system> circuit_proxy;
    typedef std::set<std::uint32_t> rows;

    constexpr std::size_t W = 2, K = 1, S = 4, USERS = 2;

    // ---------------------------------------------------------------- what the users did

    struct user {
        rows used, selectors, gates, copies, lookups, tables;
    };
    struct world {
        std::map<std::pair<char, std::pair<std::size_t, std::size_t>>, unsigned> cells;    // only written ones
        std::map<std::size_t, unsigned> priv;
        std::size_t copies = 0;
        std::vector<std::string> gates, lookups, reserved, dynamic;
        std::map<std::string, std::size_t> selector_of, defined;
        std::size_t next_selector = 0;
        user users[USERS];

        unsigned at(char kind, std::size_t c, std::size_t r) const {
            auto it = cells.find({kind, {c, r}});
            return it == cells.end() ? 0 : it->second;
        }
        void put(char kind, std::size_t c, std::size_t r, unsigned v) {
            cells[{kind, {c, r}}] = v;
        }
        std::size_t size(char kind, std::size_t c) const {
            std::size_t n = 0;
            for (auto &x : cells) {
                if (x.first.first == kind && x.first.second.first == c) n = std::max(n, x.first.second.second + 1);
            }
            return n;
        }
    };
    struct stage {
        std::shared_ptr<T::assignment> table;
        std::shared_ptr<T::circuit> circuit;
        std::unique_ptr<table_proxy> tables[USERS];
        std::unique_ptr<circuit_proxy> circuits[USERS];
        stage() : table(new T::assignment(W, 1, K, S)), circuit(new T::circuit()) {
            for (std::size_t u = 0; u < USERS; u++) {
                tables[u].reset(new table_proxy(table, u));
                circuits[u].reset(new circuit_proxy(circuit, u));
            }
        }
    };
    struct operation {
        std::string name;
        std::function<bool(const world &)> legal;
        std::function<void(stage &, world &, std::size_t user, unsigned value)> run;
    };

    T::constraint gate_constraint(int which) {
        return which ? T::constraint(T::wr(0, 0) * T::wr(1, 0) - T::kr(0, 0)) : T::constraint(T::wr(0, 0) - T::wr(1, 0));
    }

    void select(T::assignment &t, world &w, std::size_t u, std::size_t c, std::size_t r) {
        t.enable_selector(c, r);
        w.put('s', c, r, 1);
        w.users[u].used.insert(r);
        w.users[u].selectors.insert(r);
    }

    std::vector<operation> table_operations() {
        auto always = [](const world &) { return true; };
        std::vector<operation> ops;
        auto cell = [&](char kind, std::size_t c, std::size_t r, bool counts, std::function<F::value_type &(T::assignment &)> get) {
            ops.push_back({std::string(1, kind) + std::to_string(c) + "[" + std::to_string(r) + "]", always,
                           [=](stage &s, world &w, std::size_t u, unsigned v) {
                               get(*s.tables[u]) = v;
                               w.put(kind, c, r, v);
                               if (counts) w.users[u].used.insert(r);
                           }});
        };
        cell('w', 0, 0, true, [](T::assignment &t) -> F::value_type & { return t.witness(0, 0); });
        cell('w', 1, 2, true, [](T::assignment &t) -> F::value_type & { return t.witness(1, 2); });
        cell('k', 0, 1, true, [](T::assignment &t) -> F::value_type & { return t.constant(0, 1); });
        cell('p', 0, 1, false, [](T::assignment &t) -> F::value_type & { return t.public_input(0, 1); });
        cell('h', 0, 0, false, [](T::assignment &t) -> F::value_type & { return t.shared(0, 0); });
        ops.push_back({"select 1[2]", always, [](stage &s, world &w, std::size_t u, unsigned) { select(*s.tables[u], w, u, 1, 2); }});
        ops.push_back({"select 0[0..2] by 2", always, [](stage &s, world &w, std::size_t u, unsigned) {
                           static_cast<T::assignment &>(*s.tables[u]).enable_selector(0, 0, 2, 2);
                           for (std::size_t r : {0, 2}) {
                               w.put('s', 0, r, 1);
                               w.users[u].used.insert(r);
                               w.users[u].selectors.insert(r);
                           }
                       }});
        ops.push_back({"selector 1[0]", always, [](stage &s, world &w, std::size_t u, unsigned) {
                           static_cast<T::assignment &>(*s.tables[u]).selector(1, 0) = 1;
                           w.put('s', 1, 0, 1);
                           w.users[u].used.insert(0);
                           w.users[u].selectors.insert(0);
                       }});
        ops.push_back({"private 1", always, [](stage &s, world &w, std::size_t u, unsigned v) {
                           static_cast<T::assignment &>(*s.tables[u]).private_storage(1) = v;
                           w.priv[1] = v;
                       }});
        ops.push_back({"look at w0[0]", [](const world &w) { return w.size('w', 0) > 0; },
                       [](stage &s, world &, std::size_t u, unsigned) {
                           const T::assignment &t = *s.tables[u];
                           t.witness(0, 0);
                       }});
        return ops;
    }

    template<typename Adder>
    void gate(stage &, world &w, std::size_t u, const std::string &name, Adder add) {
        std::size_t selector = add();
        if (!w.selector_of.count(name)) {
            w.selector_of[name] = w.next_selector++;
            w.gates.push_back(name);
        }
        VH_CHECK(selector == w.selector_of[name], "selector", "gate " << name << " gets selector " << selector << " instead of " << w.selector_of[name]);
        for (std::size_t i = 0; i < w.gates.size(); i++) {
            if (w.gates[i] == name) w.users[u].gates.insert(i);
        }
    }

    std::vector<operation> circuit_operations() {
        auto always = [](const world &) { return true; };
        std::vector<operation> ops;
        ops.push_back({"gate A", always, [](stage &s, world &w, std::size_t u, unsigned) {
                           T::circuit &c = *s.circuits[u];
                           gate(s, w, u, "A", [&] { return c.add_gate(gate_constraint(0)); });
                       }});
        ops.push_back({"gate B", always, [](stage &s, world &w, std::size_t u, unsigned) {
                           T::circuit &c = *s.circuits[u];
                           gate(s, w, u, "B", [&] { return c.add_gate(std::vector<T::constraint> {gate_constraint(1)}); });
                       }});
        ops.push_back({"gates A and B", always, [](stage &s, world &w, std::size_t u, unsigned) {
                           T::circuit &c = *s.circuits[u];
                           gate(s, w, u, "AB", [&] { return c.add_gate({gate_constraint(0), gate_constraint(1)}); });
                       }});
        ops.push_back({"gate B on the selector of A", [](const world &w) { return w.selector_of.count("A") > 0; },
                       [](stage &s, world &w, std::size_t u, unsigned) {
                           T::circuit &c = *s.circuits[u];
                           std::size_t at = w.selector_of["A"];
                           c.add_gate(at, {gate_constraint(1)});
                           w.gates.push_back("B on A");
                           w.users[u].gates.insert(w.gates.size() - 1);
                       }});
        ops.push_back({"copy", always, [](stage &s, world &w, std::size_t u, unsigned) {
                           static_cast<T::circuit &>(*s.circuits[u]).add_copy_constraint(T::copy(T::w(0, 0), T::w(1, 2)));
                           w.users[u].copies.insert(w.copies++);
                       }});
        ops.push_back({"copy to itself", always, [](stage &s, world &, std::size_t u, unsigned) {
                           static_cast<T::circuit &>(*s.circuits[u]).add_copy_constraint(T::copy(T::w(0, 0), T::w(0, 0)));
                       }});
        ops.push_back({"reserve xor", [](const world &) { return true; }, [](stage &s, world &w, std::size_t u, unsigned) {
                           static_cast<T::circuit &>(*s.circuits[u]).reserve_table("binary_xor_table/full");
                           auto it = std::find(w.reserved.begin(), w.reserved.end(), "binary_xor_table/full");
                           std::size_t at = it - w.reserved.begin();
                           if (it == w.reserved.end()) w.reserved.push_back("binary_xor_table/full");
                           w.users[u].tables.insert(at);
                       }});
        ops.push_back({"reserve dynamic", [](const world &w) { return !std::count(w.reserved.begin(), w.reserved.end(), "dyn"); },
                       [](stage &s, world &w, std::size_t u, unsigned) {
                           static_cast<T::circuit &>(*s.circuits[u]).reserve_dynamic_table("dyn");
                           w.users[u].tables.insert(w.reserved.size());
                           w.reserved.push_back("dyn");
                       }});
        ops.push_back({"define dynamic", [](const world &w) { return std::count(w.reserved.begin(), w.reserved.end(), "dyn") && !w.defined.count("dyn"); },
                       [](stage &s, world &w, std::size_t u, unsigned v) {
                           static_cast<T::circuit &>(*s.circuits[u]).define_dynamic_table("dyn", T::dynamic_table(2, v));
                           w.defined["dyn"] = v;
                       }});
        ops.push_back({"selector for a dynamic table", always, [](stage &s, world &w, std::size_t u, unsigned) {
                           std::size_t got = static_cast<T::circuit &>(*s.circuits[u]).get_dynamic_lookup_table_selector();
                           VH_CHECK(got == w.next_selector, "selector", "selector " << got << " is handed out instead of " << w.next_selector);
                           w.next_selector++;
                       }});
        ops.push_back({"lookup gate", [](const world &w) { return std::count(w.reserved.begin(), w.reserved.end(), "binary_xor_table/full") > 0; },
                       [](stage &s, world &w, std::size_t u, unsigned) {
                           T::circuit &c = *s.circuits[u];
                           T::lookup_constraint l;
                           l.table_id = c.get_reserved_indices().at("binary_xor_table/full");
                           l.lookup_input = {T::constraint(T::wr(0, 0)), T::constraint(T::wr(1, 0)), T::constraint(T::wr(1, 0))};
                           std::size_t got = c.add_lookup_gate(l);
                           if (!w.selector_of.count("L")) {
                               w.selector_of["L"] = w.next_selector++;
                               w.lookups.push_back("L");
                           }
                           VH_CHECK(got == w.selector_of["L"], "selector", "the lookup gate gets selector " << got);
                           w.users[u].lookups.insert(std::find(w.lookups.begin(), w.lookups.end(), "L") - w.lookups.begin());
                       }});
        ops.push_back({"lookup gate on the selector of A", [](const world &w) {
                           return w.selector_of.count("A") && std::count(w.reserved.begin(), w.reserved.end(), "binary_xor_table/full") > 0;
                       },
                       [](stage &s, world &w, std::size_t u, unsigned) {
                           T::circuit &c = *s.circuits[u];
                           T::lookup_constraint l;
                           l.table_id = c.get_reserved_indices().at("binary_xor_table/full");
                           l.lookup_input = {T::constraint(T::wr(1, 0)), T::constraint(T::wr(1, 0)), T::constraint(T::wr(0, 0))};
                           c.add_lookup_gate(w.selector_of["A"], {l});
                           w.lookups.push_back("L on A");
                           w.users[u].lookups.insert(w.lookups.size() - 1);
                       }});
        return ops;
    }

    std::string show(const rows &r) {
        std::string s = "{";
        for (auto x : r) s += " " + std::to_string(x);
        return s + " }";
    }

    void look_at_table(const T::assignment &t, const world &w, const std::string &who) {
        VH_CHECK(t.witnesses_amount() == W && t.constants_amount() == K && t.public_inputs_amount() == 1 && t.selectors_amount() == S, "amounts",
                 who << " shows the wrong number of columns");
        struct {
            char kind;
            std::size_t n;
        } kinds[] = {{'w', W}, {'k', K}, {'p', 1}, {'s', S}, {'h', 1}};
        for (auto &k : kinds) {
            for (std::size_t c = 0; c < k.n; c++) {
                std::size_t size = k.kind == 'w' ? t.witness_column_size(c) : k.kind == 'k' ? t.constant_column_size(c) :
                                   k.kind == 'p' ? t.public_input_column_size(c) : k.kind == 's' ? t.selector_column_size(c) : t.shared_column_size(c);
                VH_CHECK(size == w.size(k.kind, c), "size", who << " shows " << size << " rows in column " << k.kind << c);
                auto &column = k.kind == 'w' ? t.witness(c) : k.kind == 'k' ? t.constant(c) : k.kind == 'p' ? t.public_input(c) :
                               k.kind == 's' ? t.selector(static_cast<std::uint32_t>(c)) : t.shared(c);
                VH_CHECK(column.size() == size, "size", who << " shows a column " << k.kind << c << " of another size");
                for (std::size_t r = 0; r < size; r++) {
                    auto v = k.kind == 'w' ? t.witness(c, r) : k.kind == 'k' ? t.constant(c, r) : k.kind == 'p' ? t.public_input(c, r) :
                             k.kind == 's' ? t.selector(c, r) : t.shared(c, r);
                    VH_CHECK(vp::small(v) == w.at(k.kind, c, r) && column[r] == v, "cell",
                             who << " shows " << vp::small(v) << " in " << k.kind << c << "[" << r << "] instead of " << w.at(k.kind, c, r));
                }
            }
        }
        VH_CHECK(t.private_storage_size() == (w.priv.empty() ? 0 : w.priv.rbegin()->first + 1), "private", who << " shows another private storage");
        for (auto &x : w.priv) VH_CHECK(vp::small(t.private_storage(x.first)) == x.second, "private", who << " shows another private value");
    }

    // The exported text of one user: witnesses on the rows it used, everything else on all rows.
    void look_at_export(const table_proxy &t, const world &w, const user &m, const std::string &who) {
        std::ostringstream os;
        t.export_table(os);
        std::istringstream is(os.str());
        std::string line;
        std::vector<std::vector<std::string>> lines;
        while (std::getline(is, line)) {
            std::istringstream words(line);
            std::vector<std::string> l;
            for (std::string word; words >> word;) l.push_back(word);
            if (l.size() && l[0] == std::to_string(lines.size()) + ":") lines.push_back(l);
        }
        std::size_t rows = 0;
        for (std::size_t c = 0; c < W; c++) rows = std::max(rows, w.size('w', c));
        for (std::size_t c = 0; c < S; c++) rows = std::max(rows, w.size('s', c));
        rows = std::max({rows, w.size('k', 0), w.size('p', 0)});
        VH_CHECK(lines.size() == rows, "export", who << " exports " << lines.size() << " rows instead of " << rows);
        for (std::size_t r = 0; r < rows; r++) {
            std::vector<std::string> want = {std::to_string(r) + ":"};
            auto add = [&](char kind, std::size_t n, bool shown) {
                if (kind != 'w') want.push_back("|");
                for (std::size_t c = 0; c < n; c++) {
                    std::ostringstream v;
                    v << std::hex << (shown ? w.at(kind, c, r) : 0);
                    want.push_back(v.str());
                }
            };
            add('w', W, m.used.count(r));
            add('h', 1, true);
            add('p', 1, true);
            add('k', K, true);
            add('s', S, true);
            VH_CHECK(lines[r] == want, "export", who << " exports something else in row " << r << " of\n" << os.str());
        }
    }

    void look_at_circuit(const T::circuit &c, const world &w, const std::string &who) {
        VH_CHECK(c.num_gates() == w.gates.size() && c.gates().size() == w.gates.size(), "gates", who << " shows " << c.gates().size() << " gates");
        VH_CHECK(c.num_lookup_gates() == w.lookups.size() && c.lookup_gates().size() == w.lookups.size(), "lookup-gates",
                 who << " shows " << c.lookup_gates().size() << " lookup gates");
        VH_CHECK(c.copy_constraints().size() == w.copies, "copies", who << " shows " << c.copy_constraints().size() << " copy constraints");
        VH_CHECK(c.get_next_selector_index() == w.next_selector, "next-selector", who << " shows " << c.get_next_selector_index() << " as next selector");
        VH_CHECK(c.get_reserved_indices().size() == w.reserved.size(), "reserved", who << " shows " << c.get_reserved_indices().size() << " reserved tables");
        for (std::size_t i = 0; i < w.reserved.size(); i++) {
            VH_CHECK(c.get_reserved_indices().at(w.reserved[i]) == i + 1 && c.get_reserved_indices_right().at(i + 1) == w.reserved[i], "reserved",
                     who << " shows another index for " << w.reserved[i]);
        }
        bool dynamic = std::count(w.reserved.begin(), w.reserved.end(), "dyn");
        VH_CHECK(c.get_reserved_tables().size() == w.reserved.size() - dynamic, "reserved", who << " shows other static tables");
        VH_CHECK(c.get_reserved_dynamic_tables().size() == dynamic, "reserved", who << " shows other dynamic tables");
        if (dynamic) {
            auto &d = *c.get_reserved_dynamic_tables().at("dyn");
            VH_CHECK(d.is_defined() == (w.defined.count("dyn") > 0), "defined", who << " shows another state of the dynamic table");
            if (d.is_defined()) {
                VH_CHECK(d.lookup_table.tag_index == w.defined.at("dyn"), "defined", who << " shows another dynamic table");
                auto again = const_cast<T::circuit &>(c).get_dynamic_table_definition("dyn");
                VH_CHECK(again && again->is_defined() && again->lookup_table.tag_index == w.defined.at("dyn"), "defined", who << " shows another dynamic table");
            }
        }
    }

    void run(const std::vector<operation> &ops, const std::vector<std::size_t> &history, bool table) {
        stage s;
        world w;
        VH_CASE([&] {
            std::string text;
            for (auto h : history) text += "user " + std::to_string(h % USERS) + ": " + ops[h / USERS].name + "; ";
            return text;
        }());
        unsigned value = 3;
        for (auto h : history) {
            ops[h / USERS].run(s, w, h % USERS, ++value);
            vh::count_transitions();
        }
        for (std::size_t u = 0; u < USERS; u++) {
            std::string who = "user " + std::to_string(u);
            auto &m = w.users[u];
            if (table) {
                look_at_table(*s.tables[u], w, who);
                look_at_export(*s.tables[u], w, m, who);
                VH_CHECK(s.tables[u]->get_used_rows() == m.used, "used-rows", who << " used rows " << show(m.used) << " but is told " << show(s.tables[u]->get_used_rows()));
                VH_CHECK(s.tables[u]->get_used_selector_rows() == m.selectors, "used-selector-rows",
                         who << " used selector rows " << show(m.selectors) << " but is told " << show(s.tables[u]->get_used_selector_rows()));
            } else {
                look_at_circuit(*s.circuits[u], w, who);
                VH_CHECK(s.circuits[u]->get_used_gates() == m.gates, "used-gates", who << " used gates " << show(m.gates) << " but is told " << show(s.circuits[u]->get_used_gates()));
                VH_CHECK(s.circuits[u]->get_used_copy_constraints() == m.copies, "used-copies",
                         who << " used copy constraints " << show(m.copies) << " but is told " << show(s.circuits[u]->get_used_copy_constraints()));
                VH_CHECK(s.circuits[u]->get_used_lookup_gates() == m.lookups, "used-lookups",
                         who << " used lookup gates " << show(m.lookups) << " but is told " << show(s.circuits[u]->get_used_lookup_gates()));
                VH_CHECK(s.circuits[u]->get_used_lookup_tables() == m.tables, "used-tables",
                         who << " used tables " << show(m.tables) << " but is told " << show(s.circuits[u]->get_used_lookup_tables()));
            }
        }
        if (table) {
            look_at_table(*s.table, w, "the table");
        } else {
            look_at_circuit(*s.circuit, w, "the circuit");
        }
        vh::count_states();
        vh::count_traces();
    }

    // Runs every history; legality depends on the model, which is replayed by running.
    void histories(const std::vector<operation> &ops, std::vector<std::size_t> &h, std::size_t left, bool table) {
        run(ops, h, table);
        if (!left) return;
        for (std::size_t o = 0; o < ops.size(); o++) {
            stage s;
            world w;
            unsigned value = 3;
            for (auto x : h) ops[x / USERS].run(s, w, x % USERS, ++value);
            if (!ops[o].legal(w)) continue;
            for (std::size_t u = 0; u < USERS; u++) {
                h.push_back(o * USERS + u);
                histories(ops, h, left - 1, table);
                h.pop_back();
            }
        }
    }

    // ---------------------------------------------------------------- the verdict for one user

    // Each user has one row with a gate, a lookup gate and a copy constraint; every content of the four cells.
    void verdicts() {
        const unsigned V = 3;
        vh::parallel(V * V * V * V * 2, [&](std::size_t x) {
            bool shared_gate = x % 2;
            x /= 2;
            unsigned cells[4] = {unsigned(x % V), unsigned(x / V % V), unsigned(x / V / V % V), unsigned(x / V / V / V)};
            VH_CASE("cells " << cells[0] << " " << cells[1] << " | " << cells[2] << " " << cells[3] << (shared_gate ? ", same gate" : ", different gates"));
            for (unsigned kinds = 0; kinds < 64; kinds++) {    // for each user: gate, lookup gate, copy constraint
                stage s;
                for (std::size_t u = 0; u < USERS; u++) {
                    static_cast<T::circuit &>(*s.circuits[u]).reserve_table("binary_and_table/full");
                }
                bool want[2] = {true, true}, all = true;
                for (std::size_t u = 0; u < USERS; u++) {
                    T::circuit &c = *s.circuits[u];
                    T::assignment &t = *s.tables[u];
                    unsigned a = cells[2 * u], b = cells[2 * u + 1];
                    t.witness(0, u) = a;
                    t.witness(1, u) = b;
                    if (kinds >> (3 * u) & 1) {
                        bool product = u && !shared_gate;
                        T::constraint k = product ? T::constraint(T::wr(0, 0) * T::wr(1, 0)) : T::constraint(T::wr(0, 0) - T::wr(1, 0));
                        t.enable_selector(c.add_gate(k), u);
                        if (product ? a && b : a != b) want[u] = false;
                    }
                    if (kinds >> (3 * u) & 2) {
                        T::lookup_constraint l;
                        l.table_id = c.get_reserved_indices().at("binary_and_table/full");
                        l.lookup_input = {T::constraint(T::wr(0, 0)), T::constraint(T::wr(1, 0)), T::constraint(T::wr(1, 0))};
                        t.enable_selector(c.add_lookup_gate(l), u);
                        if (a > 1 || b > 1 || (a & b) != b) want[u] = false;
                    }
                    if (kinds >> (3 * u) & 4) {
                        c.add_copy_constraint(T::copy(T::w(0, u), T::w(1, 0)));
                        if (a != cells[1]) want[u] = false;
                    }
                    all = all && want[u];
                }
                vh::quiet q;
                bool got[2];
                for (std::size_t u = 0; u < USERS; u++) {
                    got[u] = nil::blueprint::is_satisfied<F>(*s.circuits[u], *s.tables[u]);
                }
                bool everything = nil::blueprint::is_satisfied<F>(*s.circuit, *s.table);
                for (std::size_t u = 0; u < USERS; u++) {
                    VH_CHECK(got[u] == want[u], "verdict",
                             "constraints " << kinds << ": the part of user " << u << " is declared " << (got[u] ? "satisfied" : "unsatisfied"));
                }
                VH_CHECK(everything == all, "verdict", "constraints " << kinds << ": the whole is declared " << (everything ? "satisfied" : "unsatisfied"));
                vh::count_states();
                vh::count_traces();
                vh::count_transitions(3);
            }
        });
    }

    void c07() {
        const std::size_t length = vh::thorough() ? 6 : 5;
        vh::cfg().bounds = "two users; every sequence of up to " + std::to_string(length) +
                           " operations of either on the table, and on the circuit; verdict for each user and for the whole over every content of four "
                           "cells, every choice of gate, lookup gate and copy constraint per user";
        auto all = [&](const std::vector<operation> &ops, bool table) {
            vh::parallel(ops.size() * USERS, [&](std::size_t i) {
                if (!ops[i / USERS].legal(world())) return;
                std::vector<std::size_t> h = {i};
                histories(ops, h, length - 1, table);
            });
        };
        all(table_operations(), true);
        all(circuit_operations(), false);
        verdicts();
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"C07", c07}});
}
