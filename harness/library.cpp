// C11: contents of the built-in lookup tables.
// C12: reservation of lookup tables.
#include <vplonk.hpp>

#include <nil/blueprint/zkevm/zkevm_opcodes.hpp>

namespace {
    typedef vp::small_field<2305843009213693951ull> F;    // holds every entry
    typedef vp::types<F> T;
    typedef nil::blueprint::lookup_library<F> library;
    typedef vp::snark::lookup_table_definition<F> definition;
    typedef std::vector<std::uint64_t> row;

    // ---------------------------------------------------------------- C11

    struct expectation {
        std::string name;
        std::size_t rows, columns;
        std::vector<std::pair<std::string, std::vector<std::size_t>>> subtables;
        std::function<std::string(const row &)> wrong;    // empty if the row belongs to the table
    };

    std::uint64_t digits_to(std::uint64_t x, std::uint64_t base, std::size_t digits, std::uint64_t to, const std::function<std::uint64_t(std::uint64_t)> &f) {
        std::uint64_t r = 0, weight = 1;
        for (std::size_t i = 0; i < digits; i++) {
            r += f(x % base) * weight;
            x /= base;
            weight *= to;
        }
        return x ? ~0ull : r;
    }
    std::string when(bool bad, const std::string &text) {
        return bad ? text : "";
    }
    std::string one(std::uint64_t want) {
        return "the other value should be " + std::to_string(want);
    }

    std::vector<expectation> expectations() {
        auto same = [](std::uint64_t d) { return d; };
        auto sparse = [=](std::uint64_t base) {
            return [=](const row &r) {
                std::uint64_t want = digits_to(r[0], 2, 14, base, same);
                return when(r[1] != want, one(want));
            };
        };
        auto reverse = [=](std::uint64_t base, std::function<std::uint64_t(std::uint64_t)> f) {
            return [=](const row &r) {
                std::uint64_t want = digits_to(r[1], base, 8, 2, f);
                return when(r[0] != want, one(want));
            };
        };
        auto parity = [](std::uint64_t d) { return d % 2; };
        auto majority = [](std::uint64_t d) { return std::uint64_t(d >= 2); };
        // the digit is e + 2 f + 3 g
        auto choice = [](std::uint64_t d) { return std::uint64_t(d == 3 || d >= 5); };
        return {
            {"chunk_16_bits", 65536, 1, {{"full", {0}}}, [](const row &r) { return when(r[0] >= 65536, "too large"); }},
            {"byte_range_table", 256, 1, {{"full", {0}}}, [](const row &r) { return when(r[0] >= 256, "too large"); }},
            {"binary_xor_table", 4, 3, {{"full", {0, 1, 2}}}, [](const row &r) { return when(r[0] > 1 || r[1] > 1 || r[2] != (r[0] ^ r[1]), "not a xor"); }},
            {"binary_and_table", 4, 3, {{"full", {0, 1, 2}}}, [](const row &r) { return when(r[0] > 1 || r[1] > 1 || r[2] != (r[0] & r[1]), "not an and"); }},
            {"sha256_sparse_base4", 16384, 2, {{"full", {0, 1}}, {"first_column", {0}}}, sparse(4)},
            {"sha256_sparse_base7", 16384, 2, {{"full", {0, 1}}, {"first_column", {0}}, {"second_column", {1}}}, sparse(7)},
            {"sha256_reverse_sparse_base4", 65536, 2, {{"full", {0, 1}}}, reverse(4, parity)},
            {"sha256_reverse_sparse_base7", 43904, 2, {{"full", {0, 1}}}, reverse(7, parity)},
            {"sha256_maj", 65536, 2, {{"full", {0, 1}}, {"first_column", {0}}}, reverse(4, majority)},
            {"sha256_ch", 5764801, 2, {{"full", {0, 1}}, {"first_column", {0}}}, reverse(7, choice)},
            {"zkevm_opcodes", 150, 3, {{"full", {0, 1, 2}}, {"opcodes_only", {0}}},
             [](const row &r) {
                 if (!r[2]) return when(r[0] || r[1], "the row for unselected rows is not zero");
                 static const std::set<std::uint64_t> ops = [] {
                     std::set<std::uint64_t> s;
                     auto add = [&](unsigned a, unsigned b) {
                         for (unsigned x = a; x <= b; x++) s.insert(x);
                     };
                     add(0x00, 0x0b), add(0x10, 0x1d), add(0x20, 0x20), add(0x30, 0x4a), add(0x50, 0xa4), add(0xf0, 0xf5);
                     add(0xfa, 0xfa), add(0xfd, 0xff);
                     return s;
                 }();
                 std::uint64_t push = r[0] >= 0x60 && r[0] <= 0x7f ? r[0] - 0x5f : 0;
                 return when(r[2] != 1 || !ops.count(r[0]) || r[1] != push, "not an opcode with the size of its immediate value");
             }},
        };
    }

    // The dimensions the definition announces, as long as it can be reached.
    struct opened : library {
        template<typename L>
        static definition *find(L &l, const std::string &name, decltype(&l.tables)) {
            auto it = l.tables.find(name);
            return it == l.tables.end() ? nullptr : it->second.get();
        }
        template<typename L>
        static definition *find(L &, const std::string &, ...) {
            return nullptr;
        }
    };

    void c11() {
        vh::cfg().bounds = "every row of every built-in table (about six million rows), every sub-table";
        auto all = expectations();
        vh::declare("tables"), vh::declare("subtables");
        vh::parallel(all.size(), [&](std::size_t i) {
            auto &e = all[i];
            library lib;
            for (auto &s : e.subtables) lib.reserve_table(e.name + "/" + s.first);
            auto &reserved = lib.get_reserved_tables();
            VH_CASE("table " << e.name);
            VH_CHECK(reserved.size() == 1 && reserved.count(e.name), "missing", "is not there");
            auto &table = reserved.at(e.name)->get_table();
            VH_CHECK(table.size() == e.columns, "columns", table.size() << " columns instead of " << e.columns);
            for (auto &c : table) {
                VH_CHECK(c.size() == e.rows, "rows", "a column of " << c.size() << " rows instead of " << e.rows);
            }
            opened direct;
            if (auto d = opened::find(direct, e.name, nullptr)) {
                VH_CHECK(d->get_columns_number() == e.columns && d->get_rows_number() == e.rows, "announced",
                         "announces " << d->get_columns_number() << " columns and " << d->get_rows_number() << " rows");
            }
            std::set<row> seen;
            for (std::size_t r = 0; r < e.rows; r++) {
                row x;
                for (auto &c : table) x.push_back(vp::small(c[r]));
                std::string wrong = e.wrong(x);
                VH_CHECK(wrong.empty(), "row", "row " << r << " starts with " << x[0] << ": " << wrong);
                VH_CHECK(seen.insert(x).second, "duplicate", "row " << r << " was there before");
                vh::count_states();
            }
            vh::count_transitions(e.rows * e.columns);
            vh::count_traces();
            vh::count("tables");
            auto &subs = reserved.at(e.name)->subtables;
            VH_CHECK(subs.size() == e.subtables.size(), "subtables", subs.size() << " sub-tables");
            for (auto &s : e.subtables) {
                VH_CHECK(subs.count(s.first), "subtables", "sub-table " << s.first << " is missing");
                auto &d = subs.at(s.first);
                VH_CHECK(d.column_indices == s.second, "subtable-columns", "sub-table " << s.first << " has the wrong columns");
                VH_CHECK(d.begin == 0 && d.end == e.rows - 1, "subtable-rows",
                         "sub-table " << s.first << " goes from row " << d.begin << " to row " << d.end);
                vh::count("subtables");
            }
        });
    }

    // ---------------------------------------------------------------- C12

    struct custom : definition {
        custom() : definition("custom") {
            this->subtables["full"] = {{0, 1}, 0, 1};
            this->subtables["second"] = {{1}, 0, 1};
        }
        void generate() override {
            this->_table = {{1u, 2u}, {3u, 5u}};
        }
        std::size_t get_columns_number() override {
            return 2;
        }
        std::size_t get_rows_number() override {
            return 2;
        }
    };

    const std::vector<std::string> STATIC = {"binary_xor_table/full", "zkevm_opcodes/opcodes_only", "zkevm_opcodes/full", "byte_range_table/full",
                                             "custom/full",           "custom/second"};
    const std::vector<std::string> DYNAMIC = {"first", "second_table"};

    // operations: reserve STATIC[i], reserve DYNAMIC[i], define DYNAMIC[i], look
    constexpr unsigned LOOK = 10, OPERATIONS = 11;

    std::string operation_name(unsigned op) {
        if (op < 6) return "reserve " + STATIC[op];
        if (op < 8) return "reserve " + DYNAMIC[op - 6];
        if (op < 10) return "define " + DYNAMIC[op - 8];
        return "look";
    }

    // legal: nothing is reserved after a look, nothing is defined twice or before it is reserved
    bool legal(const std::vector<unsigned> &history, unsigned op) {
        bool looked = std::count(history.begin(), history.end(), LOOK);
        if (op < 8) return !looked;
        if (op == LOOK) return !looked;
        return std::count(history.begin(), history.end(), op - 2) && !std::count(history.begin(), history.end(), op);
    }

    std::vector<std::vector<F::value_type>> content(const std::string &name) {
        static std::map<std::string, std::vector<std::vector<F::value_type>>> known;
        if (!known.count(name)) {
            if (name == "custom") {
                custom c;
                known[name] = c.get_table();
            } else {
                library lib;
                for (auto &s : STATIC) {
                    if (s.substr(0, s.find('/')) == name) lib.reserve_table(s);
                }
                known[name] = lib.get_reserved_tables().at(name)->get_table();
            }
        }
        return known[name];
    }

    void run_history(const std::vector<unsigned> &history) {
        T::circuit bp;
        VH_CASE([&] {
            std::string s;
            for (auto op : history) s += operation_name(op) + "; ";
            return s;
        }());
        bp.register_lookup_table(std::shared_ptr<definition>(new custom()));
        std::vector<std::string> order;
        std::map<std::string, std::size_t> defined;
        for (auto op : history) {
            vh::count_transitions();
            if (op < 8) {
                std::string name = op < 6 ? STATIC[op] : DYNAMIC[op - 6];
                if (op < 6) {
                    bp.reserve_table(name);
                } else {
                    bp.reserve_dynamic_table(name);
                }
                if (!std::count(order.begin(), order.end(), name)) order.push_back(name);
            } else if (op < 10) {
                vp::snark::plonk_lookup_table<F> t(3, 7 + op);
                bp.define_dynamic_table(DYNAMIC[op - 8], t);
                defined[DYNAMIC[op - 8]] = 7 + op;
            } else {
                bp.get_reserved_tables();
                bp.get_reserved_dynamic_tables();
            }
            auto &left = bp.get_reserved_indices();
            auto &right = bp.get_reserved_indices_right();
            VH_CHECK(left.size() == order.size() && right.size() == order.size(), "indices", left.size() << " indices for " << order.size() << " tables");
            for (std::size_t i = 0; i < order.size(); i++) {
                VH_CHECK(left.find(order[i]) != left.end() && left.at(order[i]) == i + 1, "index", order[i] << " does not have index " << i + 1);
                VH_CHECK(right.find(i + 1) != right.end() && right.at(i + 1) == order[i], "index", "index " << i + 1 << " is not " << order[i]);
            }
        }
        std::map<std::string, std::set<std::string>> want;
        std::set<std::string> want_dynamic;
        for (auto &name : order) {
            auto slash = name.find('/');
            if (slash == std::string::npos) {
                want_dynamic.insert(name);
            } else {
                want[name.substr(0, slash)].insert(name.substr(slash + 1));
            }
        }
        auto &tables = bp.get_reserved_tables();
        auto &dynamic = bp.get_reserved_dynamic_tables();
        VH_CHECK(tables.size() == want.size(), "tables", tables.size() << " tables are reserved instead of " << want.size());
        for (auto &w : want) {
            VH_CHECK(tables.count(w.first), "tables", w.first << " is not reserved");
            auto &t = *tables.at(w.first);
            VH_CHECK(t.subtables.size() == w.second.size(), "subtables", w.first << " has " << t.subtables.size() << " sub-tables");
            for (auto &s : w.second) {
                VH_CHECK(t.subtables.count(s), "subtables", w.first << " does not have sub-table " << s);
                auto &columns = t.subtables.at(s).column_indices;
                std::size_t n = s == "full" ? t.get_table().size() : 1;
                VH_CHECK(columns.size() == n && (n > 1 || columns[0] == (s == "second" ? 1 : 0)), "subtable-columns",
                         w.first << "/" << s << " has the wrong columns");
            }
            VH_CHECK(t.get_table() == content(w.first), "content", w.first << " has the wrong content");
        }
        VH_CHECK(dynamic.size() == want_dynamic.size(), "dynamic-tables",
                 dynamic.size() << " dynamic tables are reserved instead of " << want_dynamic.size());
        for (auto &name : want_dynamic) {
            VH_CHECK(dynamic.count(name), "dynamic-tables", name << " is not reserved");
            auto &d = *dynamic.at(name);
            bool is = d.is_defined();
            VH_CHECK(is == (defined.count(name) > 0), "definition", name << (is ? " is defined" : " is not defined"));
            if (is) {
                VH_CHECK(d.lookup_table.tag_index == defined[name] && d.lookup_table.columns_number == 3, "definition", name << " has another definition");
                auto again = bp.get_dynamic_table_definition(name);
                VH_CHECK(again && again->is_defined() && again->lookup_table.tag_index == defined[name], "definition",
                         name << " has another definition when asked for directly");
            }
        }
        vh::count_states();
        vh::count_traces();
    }

    void histories(std::vector<unsigned> &h, std::size_t left) {
        run_history(h);
        if (!left) return;
        for (unsigned op = 0; op < OPERATIONS; op++) {
            if (!legal(h, op)) continue;
            h.push_back(op);
            histories(h, left - 1);
            h.pop_back();
        }
    }

    void c12() {
        const std::size_t length = vh::thorough() ? 7 : 6;
        vh::cfg().bounds = "every history of up to " + std::to_string(length) +
                           " legal operations: reserving 4 built-in and 2 registered sub-tables and 2 dynamic tables, defining the dynamic tables, looking "
                           "at the reserved tables; repetitions included";
        for (auto &s : STATIC) content(s.substr(0, s.find('/')));
        vh::parallel(OPERATIONS * OPERATIONS, [&](std::size_t i) {
            std::vector<unsigned> h = {static_cast<unsigned>(i / OPERATIONS)};
            unsigned second = i % OPERATIONS;
            if (!legal({}, h[0])) return;
            if (second == 0) run_history(h);
            if (!legal(h, second)) return;
            h.push_back(second);
            histories(h, length - 2);
        });
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"C11", c11}, {"C12", c12}});
}
