// Z06: the bytecode circuit of the zkEVM.
#include <vcomponent.hpp>

#include <nil/blueprint/zkevm/bytecode.hpp>

namespace {
    typedef vp::small_field<257> F;
    typedef vp::types<F> T;
    typedef vp::snark::plonk_constraint_system<F> AT;
    typedef nil::blueprint::components::zkevm_bytecode<AT, F> bytecode;
    typedef nil::blueprint::components::zkevm_bytecode_table<AT, F> bytecode_table;
    typedef nil::blueprint::components::bytecode_table_tester<AT, F> tester;
    typedef vp::values values;
    typedef std::vector<values> contracts;    // every contract starts with its length

    const std::uint64_t CHALLENGE = 7;
    enum { TAG, INDEX, VALUE, IS_OPCODE, HASH_HI, HASH_LO, PUSH_SIZE, VALUE_RLC, LENGTH_LEFT, RLC_CHALLENGE };

    std::string text(const contracts &all) {
        std::ostringstream os;
        for (auto &c : all) {
            os << "[" << c[0] << ":";
            for (std::size_t i = 1; i < c.size(); i++) os << " " << std::hex << c[i] << std::dec;
            os << "] ";
        }
        return os.str();
    }

    bool assigned(std::uint64_t b) {
        return b <= 0x0b || (b >= 0x10 && b <= 0x1d) || b == 0x20 || (b >= 0x30 && b <= 0x4a) || (b >= 0x50 && b <= 0xa4) || (b >= 0xf0 && b <= 0xf5) ||
               b == 0xfa || b >= 0xfd;
    }
    // What the rows should hold.
    std::vector<values> reference(const contracts &all, std::size_t rows) {
        std::vector<values> r;
        for (std::size_t n = 0; n < all.size(); n++) {
            std::uint64_t rlc = 0, push = 0;
            for (std::size_t i = 0; i < all[n].size(); i++) {
                values row(10, 0);
                row[VALUE] = all[n][i];
                row[HASH_HI] = 100 + n;
                row[HASH_LO] = 200 + n;
                row[RLC_CHALLENGE] = CHALLENGE;
                row[LENGTH_LEFT] = (all[n][0] + 257 - i) % 257;
                if (i) {
                    bool opcode = push == 0;
                    rlc = (rlc * CHALLENGE + all[n][i]) % 257;
                    if (!opcode) {
                        push--;
                    } else if (all[n][i] >= 0x60 && all[n][i] <= 0x7f) {
                        push = all[n][i] - 0x5f;
                    }
                    row[TAG] = 1;
                    row[INDEX] = i - 1;
                    row[IS_OPCODE] = opcode;
                    row[PUSH_SIZE] = push;
                    row[VALUE_RLC] = rlc;
                }
                r.push_back(row);
            }
        }
        while (r.size() < rows) r.push_back(values(10, 0));
        return r;
    }

    struct variables {
        std::vector<std::vector<T::var>> bytes;
        std::vector<std::pair<T::var, T::var>> hashes;
        T::var challenge;
        variables(T::assignment &as, const contracts &all) {
            std::size_t n = 0;
            auto next = [&](std::uint64_t v) {
                as.public_input(0, n) = v;
                return T::pub(0, n++);
            };
            challenge = next(CHALLENGE);
            for (std::size_t i = 0; i < all.size(); i++) {
                bytes.push_back({});
                for (auto x : all[i]) bytes.back().push_back(next(x));
                auto high = next(100 + i);
                hashes.push_back({high, next(200 + i)});
            }
        }
    };

    // The circuit for a number of rows.
    struct explorer {
        std::size_t rows, start, first;
        bool reversed;
        std::vector<std::uint32_t> columns;
        T::circuit bp;
        T::assignment fresh;
        std::unique_ptr<bytecode> component;
        std::unique_ptr<vp::system<F>> sys;
        std::map<std::pair<std::size_t, int>, std::size_t> cells;    // (row, column) -> cell

        explorer(std::size_t rows, std::size_t start, std::size_t first, bool reversed) :
            rows(rows), start(start), first(first), reversed(reversed), fresh(first + 12, 1, 1, 30) {
            VH_CASE("circuit of " << rows << " rows from row " << start);
            for (std::uint32_t i = 0; i < 11; i++) columns.push_back(first + (reversed ? 10 - i : i));
            component.reset(new bytecode(columns, std::vector<std::uint32_t>(), std::vector<std::uint32_t>(), rows));
            for (auto &t : component->component_lookup_tables()) {
                if (t.second == 1) {
                    bp.reserve_dynamic_table(t.first);
                } else {
                    bp.reserve_table(t.first);
                }
            }
            bp.reserve_dynamic_table("zkevm_bytecode");
            variables v(fresh, {});
            using namespace nil::blueprint::components;
            generate_circuit(*component, bp, fresh, bytecode::input_type(v.bytes, v.hashes, v.challenge), start);
            VH_CHECK(bp.num_gates() + bp.num_lookup_gates() == bytecode::get_gate_manifest(11, rows).get_gates_amount(), "gates",
                     "there are not as many gates as announced");
            VH_CHECK(component->rows_amount == rows && bytecode::get_rows_amount(11, rows) == rows, "rows", "the number of rows differs");
            sys.reset(new vp::system<F>(bp, fresh));
            for (std::size_t r = 0; r <= rows + 1; r++) {
                for (int c = 0; c < 10; c++) cells[{r, c}] = sys->cell(T::w(columns[c], start + r - 1), 0);
            }
            sys->finish();
            for (auto &c : cells) c.second = sys->find(c.second);
            vh::count("circuits");
        }
        std::size_t at(std::size_t row, int column) const {
            return cells.at({row + 1, column});
        }
        // Bytes that are not opcodes of the EVM are not accepted in place of one.
        bool provable(const contracts &all) const {
            for (auto &row : reference(all, rows)) {
                if (row[IS_OPCODE] && !assigned(row[VALUE])) return false;
            }
            return true;
        }
        // Every content of the other cells for the given tags and values.
        void search(const contracts &all, bool proper) {
            auto want = reference(all, rows);
            values v;
            std::string why;
            T::assignment as(fresh);
            VH_CHECK(sys->load(as, false, v, why), "constants", why);
            for (int c = 0; c < 10; c++) {
                v[cells.at({0, c})] = 0;            // nothing before
                v[cells.at({rows + 1, c})] = 0;     // and a header after the table
            }
            for (std::size_t r = 0; r < rows; r++) {
                v[at(r, TAG)] = want[r][TAG];
                v[at(r, VALUE)] = want[r][VALUE];
                if (!want[r][TAG]) {
                    v[at(r, HASH_HI)] = want[r][HASH_HI];
                    v[at(r, HASH_LO)] = want[r][HASH_LO];
                    v[at(r, RLC_CHALLENGE)] = want[r][RLC_CHALLENGE];
                    // a header pushes nothing unless the contract is empty, when nobody asks
                    if (r + 1 == rows || !want[r + 1][TAG]) v[at(r, PUSH_SIZE)] = 0;
                }
            }
            std::uint64_t found = 0;
            typename vp::system<F>::search s {*sys, [](const values &) { return true; }, nullptr};
            s.found = [&](const values &x) {
                found++;
                VH_CHECK(proper, "malformed", "a contract is accepted that has another length or is no bytecode");
                for (std::size_t r = 0; r < rows; r++) {
                    for (int c = 0; c < 10; c++) {
                        VH_CHECK(x[at(r, c)] == want[r][c], "unsound",
                                 "row " << r << " column " << c << " may hold " << x[at(r, c)] << " instead of " << want[r][c]);
                    }
                }
                return true;
            };
            std::vector<std::size_t> known;
            for (std::size_t i = 0; i < v.size(); i++) {
                if (v[i] != vp::system<F>::NONE) known.push_back(i);
            }
            if (s.consistent(known, v)) s.go(v);
            vh::count_transitions(s.nodes + 1);
            vh::count_states();
            VH_CHECK(!proper || found == 1, "incomplete", "the only proper content is rejected");
        }
        // The table it fills in.
        void honest(const contracts &all) {
            auto want = reference(all, rows);
            T::assignment as(fresh);
            variables v(as, all);
            using namespace nil::blueprint::components;
            generate_assignments(*component, as, bytecode::input_type(v.bytes, v.hashes, v.challenge), start);
            for (std::size_t c = 0; c < as.witnesses_amount(); c++) {
                for (std::size_t r = 0; r < as.witness_column_size(c); r++) {
                    int own = -1;
                    for (int i = 0; i < 10; i++) {
                        if (columns[i] == c) own = i;
                    }
                    std::uint64_t expected = own >= 0 && r >= start && r < start + rows ? want[r - start][own] : 0;
                    VH_CHECK(vp::small(as.witness(c, r)) == expected, "filled-in",
                             "column " << c << " row " << r << " holds " << vp::small(as.witness(c, r)) << " instead of " << expected);
                }
            }
            values x;
            std::string why;
            VH_CHECK(sys->load(as, true, x, why), "constants", why);
            bool accepted = sys->satisfied(x, why);
            VH_CHECK(accepted == provable(all), accepted ? "malformed" : "incomplete",
                     "the table it fills in is " << (accepted ? "accepted" : "rejected: ") << why);
            vh::count_traces();
        }
    };

    // The component that looks rows of the table up: every row looked up has to be a row of the table.
    void explore_tester(std::size_t rows, std::size_t start) {
        VH_CASE("tester of " << rows << " rows from row " << start);
        contracts all = {{15}, {20}};
        for (std::size_t i = 0; i < 15; i++) all[0].push_back(i);
        for (std::size_t i = 0; i < 20; i++) all[1].push_back(i + 0x50);
        T::assignment as(14, 1, 1, 30);
        T::circuit bp;
        std::vector<std::uint32_t> columns;
        for (std::uint32_t i = 0; i < 12; i++) columns.push_back(i + 1);
        tester component(columns, std::vector<std::uint32_t>(), std::vector<std::uint32_t>(), rows);
        for (auto &t : component.component_lookup_tables()) {
            if (t.second == 1) {
                bp.reserve_dynamic_table(t.first);
            } else {
                bp.reserve_table(t.first);
            }
        }
        variables v(as, all);
        using namespace nil::blueprint::components;
        tester::input_type in(v.bytes, v.hashes);
        generate_circuit(component, bp, as, in, start);
        generate_assignments(component, as, in, start);
        VH_CHECK(bp.num_gates() + bp.num_lookup_gates() == tester::get_gate_manifest(12, rows).get_gates_amount(), "gates",
                 "there are not as many gates as announced");
        auto accepted = [&]() {
            auto &definition = bp.get_dynamic_table_definition("zkevm_bytecode")->lookup_table;
            std::set<values> content;
            for (std::size_t r = 0; r < as.selector_column_size(definition.tag_index); r++) {
                if (as.selector(definition.tag_index, r).is_zero()) continue;
                for (auto &option : definition.lookup_options) {
                    values row;
                    for (auto &c : option) {
                        T::var x = T::w(c.index, r + c.rotation);
                        row.push_back(r + c.rotation < as.witness_column_size(c.index) ? vp::small(as.witness(x.index, r + c.rotation)) : 0);
                    }
                    content.insert(row);
                }
            }
            std::size_t n = 0;
            bool holds = true;
            for (auto &g : bp.lookup_gates()) {
                for (std::size_t r = 0; r < as.selector_column_size(g.tag_index); r++) {
                    if (as.selector(g.tag_index, r).is_zero()) continue;
                    for (auto &l : g.constraints) {
                        n++;
                        values row;
                        for (auto &e : l.lookup_input) {
                            row.push_back(vp::small(vp::evaluate<F>(e, [&](const T::var &x) {
                                std::size_t at = r + x.rotation;
                                return at < as.witness_column_size(x.index) ? as.witness(x.index, at) : T::value(0);
                            })));
                        }
                        holds = holds && content.count(row);
                    }
                }
            }
            VH_CHECK(n == 3, "lookups", n << " rows are looked up instead of the one above, the one below and the one beside");
            vh::count_transitions();
            return holds;
        };
        VH_CHECK(accepted(), "tester", "the rows it looks up are not found");
        struct place {
            std::size_t row, column;
        };
        for (place at : {place {start, 6}, place {start + rows + 1, 6}, place {start + 1, 0}}) {
            for (std::size_t c = 0; c < 6; c++) {
                auto &cell = as.witness(columns[at.column + c], at.row);
                auto old = cell;
                cell = 250;
                VH_CHECK(!accepted(), "tester", "row " << at.row << " from column " << columns[at.column] << " need not be a row of the table");
                cell = old;
                vh::count_states();
            }
        }
        vh::count_traces();
    }

    void z06() {
        vh::declare("circuits");
        const std::size_t R = vh::thorough() ? 7 : 6;
        const values palette = vh::thorough() ? values {0x00, 0x5f, 0x60, 0x61, 0x62, 0x7f, 0x80, 0xff} : values {0x00, 0x5f, 0x60, 0x61, 0x7f, 0x80, 0xff};
        vh::cfg().bounds = "every division of up to " + std::to_string(R) + " rows into up to three contracts, bytes out of " + std::to_string(palette.size()) +
                           " values, right and wrong lengths; every single byte; over a field of 257 elements";
        vh::cfg().assumptions = {"the tags and values are those of the bytecodes (their copy constraints are still missing, as the code says), and a header follows the table"};
        // tags of R rows starting with a header
        std::vector<std::vector<std::size_t>> shapes;
        for (std::size_t rows = 1; rows <= R; rows++) {
            for (std::size_t bits = 0; bits < (1u << (rows - 1)); bits++) {
                std::vector<std::size_t> s = {1};
                for (std::size_t i = 0; i + 1 < rows; i++) {
                    if (bits >> i & 1) {
                        s.back()++;
                    } else {
                        s.push_back(1);
                    }
                }
                if (s.size() <= 3) shapes.push_back(s);
            }
        }
        struct job_t {
            std::vector<std::size_t> shape;
            std::size_t start, first;
            bool reversed;
        };
        std::vector<job_t> jobs;
        for (auto &s : shapes) jobs.push_back({s, 1 + jobs.size() % 3, jobs.size() % 2, jobs.size() % 5 == 2});
        std::reverse(jobs.begin(), jobs.end());
        const std::size_t parts = palette.size();
        vh::parallel(jobs.size() * parts, [&](std::size_t n) {
            auto &job = jobs[n / parts];
            std::size_t rows = 0, bytes = 0;
            for (auto s : job.shape) rows += s, bytes += s - 1;
            if (!bytes && n % parts) return;
            explorer e(rows, job.start, job.first, job.reversed);
            std::size_t total = 1;
            for (std::size_t i = 0; i < bytes; i++) total *= palette.size();
            for (std::size_t x = bytes ? n % parts : 0; x < total; x += parts) {
                std::size_t y = x;
                contracts all;
                for (auto s : job.shape) {
                    all.push_back({s - 1});
                    for (std::size_t i = 1; i < s; i++, y /= palette.size()) all.back().push_back(palette[y % palette.size()]);
                }
                VH_CASE(text(all));
                e.honest(all);
                e.search(all, e.provable(all));
                for (std::size_t k = 0; k < all.size(); k++) {
                    std::uint64_t right = all[k][0];
                    for (std::uint64_t wrong = 0; wrong <= R + 1; wrong++) {
                        if (wrong == right || right == 0) continue;
                        all[k][0] = wrong;
                        VH_CASE(text(all));
                        e.search(all, false);
                    }
                    all[k][0] = right;
                }
            }
            if (n % 50 == 11) vh::sample("all bytecodes of " + std::to_string(job.shape.size()) + " contracts in " + std::to_string(rows) + " rows");
        });
        // every byte as an opcode, and the bytes that follow it
        vh::parallel(256, [&](std::size_t b) {
            explorer e(7, 2, 1, b % 2);
            for (std::uint64_t next : {0x00, 0x60, 0xfe}) {
                contracts all = {{6, b, next, 0x5b, 0x00, 0x60, b}};
                VH_CASE(text(all));
                e.honest(all);
                e.search(all, e.provable(all));
            }
        });
        // the longest push
        explorer e(37, 1, 0, false);
        for (std::uint64_t b = 0x5e; b <= 0x81; b++) {
            contracts all = {{36, b}};
            for (std::size_t i = 0; i < 35; i++) all[0].push_back(0x7f);
            VH_CASE(text(all));
            e.honest(all);
            e.search(all, e.provable(all));
        }
        for (std::size_t rows : {37, 38, 41}) {
            for (std::size_t start : {0, 1, 4}) explore_tester(rows, start);
        }
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"Z06", z06}});
}
