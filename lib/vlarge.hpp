// Explores one component over a large field: what it announces, the table it fills in, and every table its constraints accept.
#pragma once

#include <vcomponent.hpp>
#include <vsolve.hpp>

namespace vp {
    namespace big {
        template<typename F>
        typename F::value_type to_value(integer v) {
            typename F::integral_type r = 0;
            for (int i = 7; i >= 0; i--) r = (r << 64) + typename F::integral_type(static_cast<std::uint64_t>((v >> (64 * i)) & 0xffffffffffffffffull));
            return typename F::value_type(r);
        }

        struct spot {
            const char *name;
            std::size_t first, spare, start;
            bool reversed;
        };
        inline const std::vector<spot> &spots() {
            static const std::vector<spot> all = {{"at the start of the table", 0, 0, 0, false},
                                                  {"in reversed columns after one, from row 3, after three other selectors", 1, 1, 3, true}};
            return all;
        }

        template<typename F, typename C>
        struct large {
            typedef vp::types<F> T;
            typedef typename T::var var;
            typedef std::vector<std::uint32_t> columns;
            std::string name;
            std::size_t witnesses, inputs;
            std::size_t constants = 1;
            std::function<C(const columns &, const columns &, const columns &)> make;
            std::function<typename C::input_type(const std::vector<var> &)> input;
            // the results; none if the constraints must not be satisfiable
            std::function<boost::optional<std::vector<integer>>(const std::vector<integer> &)> expected;
            std::size_t gates, rows;
            // the table is filled in for every input that has a result
            bool complete = true;
            // no table with another result is accepted; otherwise only the tables next to the one filled in are looked at, where
            // no cell (column and row of the component) may be changed alone, apart from the loose ones
            bool sound = true;
            std::function<bool(std::size_t, std::size_t)> loose = nullptr;
            // bounds the inputs are promised to obey
            std::vector<integer> below;
            // cells (column and row of the component) whose contents are promised
            struct promise {
                std::size_t column, row;
                integer content;
            };
            std::function<std::vector<promise>(const std::vector<integer> &)> promised = nullptr;
            // cells whose contents are promised to be less
            std::vector<promise> bounded;
            // names the violation for this input
            std::function<std::string(const std::vector<integer> &, const std::string &)> key = nullptr;
            // how many workers share the inputs
            std::size_t workers = 16;
            // for large circuits: steps after which a search is given up, which begins with the contents next to the table filled in
            std::uint64_t limit = 0;
            // whether these results are right as well
            std::function<bool(const std::vector<integer> &, const std::vector<integer> &)> also = nullptr;
        };

        template<typename F, typename C>
        class large_explorer {
            typedef vp::types<F> T;
            typedef typename T::var var;
            const large<F, C> &s;
            const spot at;
            const std::size_t width;
            std::vector<std::uint32_t> own;
            std::unique_ptr<C> component;
            typename T::circuit bp;
            typename T::assignment fresh;
            std::vector<var> vars;
            std::unique_ptr<system<F>> sys;
            std::unique_ptr<solver<F>> solve;
            std::vector<var> results;
            std::vector<std::uint32_t> out;
            std::vector<bool> given;
            std::vector<number> start;

            std::string describe(const std::vector<integer> &in) const {
                std::ostringstream os;
                os << s.name << " " << at.name << " of" << std::hex;
                for (auto &x : in) os << " 0x" << x;
                return os.str();
            }
            std::string key(const std::vector<integer> &in, const char *k) const {
                return s.key ? s.key(in, k) : k;
            }

            // What the component computes where it is not part of the circuit.
            void without_circuit(const std::vector<integer> &in, const std::vector<integer> &want) const {
                typename T::assignment table(width, 1, std::max<std::size_t>(s.constants, 1), 100);
                for (std::size_t i = 0; i < in.size(); i++) table.public_input(0, i) = to_value<F>(in[i]);
                auto filled = vp::detail::empty<F>(*component, table, s.input(vars), at.start, 0);
                if (!filled) return;
                std::vector<integer> got;
                for (auto v : filled->all_vars()) got.push_back(integer(nil::blueprint::var_value<F>(table, v.get()).data.number()));
                VH_CHECK(got == want || (s.also && s.also(in, got)), key(in, "empty-result"), "without the circuit the result is different");
                if constexpr (vp::detail::announces_empty_rows<C>::value) {
                    for (std::size_t c = 0; c < width; c++) {
                        VH_CHECK(table.witness_column_size(c) <= at.start + component->empty_rows_amount, "empty-rows", "without the circuit writes to more than " << component->empty_rows_amount << " rows");
                    }
                }
            }

            // Every table that differs from the accepted one in the content of a single cell.
            void alone(const std::vector<integer> &in) {
                for (std::size_t r = 0; r < s.rows; r++) {
                    for (std::size_t c = 0; c < s.witnesses; c++) {
                        if (s.loose(c, r)) continue;
                        std::uint32_t cell = sys->witness(own[c], at.start + r);
                        integer content = solve->to_integer(sys->honest[cell]);
                        bool accepted = false;
                        sys->judge = [&] { accepted = true; };
                        for (int step : {1, -1}) {
                            sys->deviate(cell, solve->to_number(content + step >= 0 ? integer(content + step) : integer(2)), 1);
                            vh::count_transitions();
                        }
                        VH_CHECK(!accepted, key(in, "free-cell"), "column " << c << " row " << r << " may be changed alone");
                    }
                }
            }

        public:
            large_explorer(const large<F, C> &s_, const spot &at_) :
                s(s_), at(at_), width(at.first + s.witnesses + at.spare), fresh(width, 1, std::max<std::size_t>(s.constants, 1), 100) {
                using namespace nil::blueprint::components;
                VH_CASE(s.name << " " << at.name << ", circuit");
                vh::quiet q;
                for (std::size_t i = 0; i < s.witnesses; i++) own.push_back(at.first + (at.reversed ? s.witnesses - 1 - i : i));
                std::vector<std::uint32_t> constants;
                for (std::size_t i = 0; i < s.constants; i++) constants.push_back(i);
                component.reset(new C(s.make(own, constants, {})));
                if constexpr (nil::blueprint::use_lookups<C>()) {
                    for (auto &t : component->component_lookup_tables()) bp.reserve_table(t.first);
                }
                for (std::size_t i = 0; i < s.inputs; i++) {
                    vars.push_back(T::pub(0, i));
                    fresh.public_input(0, i) = 0u;
                }
                for (std::size_t i = 0; i < (at.start ? 3 : 0); i++) bp.get_dynamic_lookup_table_selector();
                auto input = s.input(vars);
                auto listed = input.all_vars();
                VH_CHECK(listed.size() == s.inputs, "variables", "lists " << listed.size() << " inputs");
                for (std::size_t i = 0; i < s.inputs; i++) VH_CHECK(listed[i].get() == vars[i], "variables", "input " << i << " listed is another");
                auto result = generate_circuit(*component, bp, fresh, input, at.start);
                VH_CHECK(bp.num_gates() + bp.num_lookup_gates() == s.gates, "gates", bp.num_gates() + bp.num_lookup_gates() << " gates, " << s.gates << " announced");
                VH_CHECK(s.rows == component->rows_amount, "rows", "takes " << component->rows_amount << " rows, " << s.rows << " announced");
                for (std::size_t c = 0; c < fresh.selectors_amount(); c++) {
                    for (std::size_t r = 0; r < fresh.selector_column_size(c); r++) {
                        VH_CHECK(fresh.selector(c, r).is_zero() || (r >= at.start && r < at.start + s.rows), "rows", "enables a gate on row " << r << ", outside of its rows");
                    }
                }
                sys.reset(new system<F>(bp, fresh));
                for (auto v : result.all_vars()) {
                    results.push_back(v.get());
                    out.push_back(sys->find(sys->cell(v.get(), 0)));
                }
                for (auto &p : sys->places) {
                    VH_CHECK(p.type != var::column_type::witness || (p.row >= at.start && p.row < at.start + s.rows && std::count(own.begin(), own.end(), p.column)),
                             "foreign-cell", "constrains the witness cell of column " << p.column << " row " << p.row << ", which is not its own");
                }
                solve.reset(new solver<F>(*sys));
                if (s.limit) {
                    solve->limit = s.limit;
                    solve->beside = true;
                }
                sys->load(fresh);
                given = sys->fixed;
                start = sys->honest;
                for (std::size_t i = 0; i < sys->places.size(); i++) {
                    auto &p = sys->places[i];
                    if (p.type != var::column_type::public_input) continue;
                    given[sys->find(i)] = false;
                    if (p.row < s.below.size()) solve->below[sys->find(i)] = s.below[p.row];
                }
                for (auto &b : s.bounded) solve->below[sys->witness(own[b.column], at.start + b.row)] = b.content;
                solve->derive_bounds(start, given);
                solve->asked.insert(out.begin(), out.end());
                vh::count("circuits");
            }

            void run(const std::vector<integer> &in) {
                using namespace nil::blueprint::components;
                VH_CASE(describe(in));
                vh::quiet q;
                auto want = s.expected(in);
                vh::count_states();
                solve->hint.clear();
                if (want && s.complete) {
                    typename T::assignment table(fresh);
                    for (std::size_t i = 0; i < in.size(); i++) table.public_input(0, i) = to_value<F>(in[i]);
                    auto filled = generate_assignments(*component, table, s.input(vars), at.start);
                    auto listed = filled.all_vars();
                    VH_CHECK(listed.size() == results.size() && listed.size() == want->size(), "results", "the number of results differs");
                    std::vector<integer> got;
                    for (std::size_t i = 0; i < results.size(); i++) {
                        VH_CHECK(listed[i].get() == results[i], "result-place", "circuit and table name different cells for result " << i);
                        got.push_back(integer(nil::blueprint::var_value<F>(table, results[i]).data.number()));
                    }
                    if (got != *want && !(s.also && s.also(in, got))) {
                        std::ostringstream os;
                        os << std::hex << "the table says";
                        for (auto &x : got) os << " 0x" << x;
                        os << " instead of";
                        for (auto &x : *want) os << " 0x" << x;
                        VH_CHECK(false, key(in, "wrong-result"), os.str());
                        return;
                    }
                    for (std::size_t c = 0; c < width; c++) {
                        VH_CHECK(table.witness_column_size(c) <= (std::count(own.begin(), own.end(), c) ? at.start + s.rows : 0), "rows", "writes to column " << c << " row " << table.witness_column_size(c) - 1);
                    }
                    bool same = sys->load(table);
                    std::string why = same ? sys->violated(sys->honest) : "copy constraint";
                    VH_CHECK(why.empty(), key(in, "honest-rejected"), "the table filled in is rejected: " << why);
                    if (why.empty()) solve->hint = sys->honest;
                    without_circuit(in, *want);
                    vh::count_traces();
                }
                if (!s.sound) {
                    if (s.loose && !solve->hint.empty()) alone(in);
                    return;
                }
                std::vector<number> content = start;
                std::vector<bool> known = given;
                content.resize(sys->places.size());
                known.resize(sys->places.size());
                for (std::size_t i = 0; i < sys->places.size(); i++) {
                    if (sys->places[i].type != var::column_type::public_input) continue;
                    content[sys->find(i)] = solve->to_number(in[sys->places[i].row]);
                    known[sys->find(i)] = true;
                }
                if (s.promised) {
                    for (auto &p : s.promised(in)) {
                        std::uint32_t c = sys->witness(own[p.column], at.start + p.row);
                        content.resize(sys->places.size());
                        known.resize(sys->places.size());
                        content[c] = solve->to_number(p.content);
                        known[c] = true;
                    }
                }
                bool any = false, wrong = false;
                std::ostringstream other;
                solve->found = [&](const std::vector<number> &v, const std::vector<bool> &k) {
                    any = true;
                    if (wrong) return;
                    bool bad = !want;
                    std::vector<integer> got;
                    for (std::size_t i = 0; i < out.size(); i++) {
                        bad = bad || !k[out[i]] || v[out[i]] != solve->to_number((*want)[i]);
                        got.push_back(k[out[i]] ? solve->to_integer(v[out[i]]) : integer(-1));
                    }
                    if (!bad || (s.also && s.also(in, got))) return;
                    wrong = solve->enough = true;
                    other << std::hex;
                    for (auto &x : got) {
                        if (x < 0) {
                            other << " anything";
                        } else {
                            other << " 0x" << x;
                        }
                    }
                };
                std::uint64_t before = solve->steps;
                solve->solve(content, known);
                vh::count_transitions(solve->steps - before);
                if (solve->stuck && !wrong) vh::left_out();
                VH_CHECK(!wrong, key(in, want ? "wrong-accepted" : "invalid-accepted"), (want ? "a table with another result is accepted:" : "a table is accepted:") << other.str());
                VH_CHECK(any || !want || solve->hint.empty() || solve->stuck, "search-misses", "the search does not find the table filled in");
            }
        };

        // Every input in every spot, divided between the workers.
        template<typename F, typename C>
        void explore(const large<F, C> &s, const std::vector<std::vector<integer>> &inputs, const std::vector<spot> &at = spots()) {
            std::size_t parts = std::min<std::size_t>(inputs.size(), s.workers);
            vh::parallel(parts * at.size(), [&](std::size_t job) {
                large_explorer<F, C> e(s, at[job % at.size()]);
                for (std::size_t x = job / at.size(); x < inputs.size(); x += parts) e.run(inputs[x]);
            });
        }
    }    // namespace big
}    // namespace vp
