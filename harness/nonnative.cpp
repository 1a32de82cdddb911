// N01: arithmetic of the field of curve25519 in a circuit over the field of pallas; N02: range check and reduction.
#include <vsolve.hpp>

#include <nil/blueprint/components/algebra/fields/plonk/non_native/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/range.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/reduction.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/subtraction.hpp>
#include <nil/blueprint/utils/satisfiability_check.hpp>

namespace {
    namespace bc = nil::blueprint::components;
    typedef nil::crypto3::algebra::curves::pallas::base_field_type F;
    typedef vp::types<F> T;
    typedef T::var var;
    typedef vp::big::integer integer;
    typedef vp::big::number number;
    typedef F::integral_type native;

    const integer ONE = 1;
    const integer P25519 = (ONE << 255) - 19;
    const integer L25519 = (ONE << 252) + integer("0x14def9dea2f79cd65812631a5cf5d3ed");
    integer pallas() {
        static const integer r("0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001");
        return r;
    }
    native to_native(const integer &v) {
        native r = 0;
        for (int i = 3; i >= 0; i--) r = (r << 64) + native(static_cast<std::uint64_t>((v >> (64 * i)) & 0xffffffffffffffffull));
        return r;
    }
    integer from_native(const native &v) {
        integer r = 0;
        for (int i = 3; i >= 0; i--) r = (r << 64) + static_cast<std::uint64_t>((v >> (64 * i)) & 0xffffffffffffffffull);
        return r;
    }
    integer content(const T::assignment &as, const var &v) {
        return from_native(native(nil::blueprint::var_value(as, v).data));
    }
    std::vector<integer> limbs(const integer &v) {
        const integer mask = (ONE << 66) - 1;
        return {v & mask, (v >> 66) & mask, (v >> 132) & mask, v >> 198};
    }
    std::string hex(const integer &v) {
        std::ostringstream os;
        if (v < 0) {
            os << "-0x" << std::hex << integer(-v);
        } else {
            os << "0x" << std::hex << v;
        }
        return os.str();
    }

    struct placement {
        const char *name;
        std::size_t width, start;
        bool reversed;
        std::vector<std::uint32_t> columns() const {
            std::vector<std::uint32_t> r;
            for (std::uint32_t i = 0; i < 9; i++) r.push_back(reversed ? width - 1 - i : i);
            return r;
        }
    };
    const std::vector<placement> PLACEMENTS = {{"columns in order from row 0", 9, 0, false}, {"columns in reverse of eleven from row 5", 11, 5, true}};

    // A cell of the component: column and row; bits it may hold.
    struct range_of {
        std::size_t column, row, bits;
    };
    void range_rows(std::vector<range_of> &to, std::size_t row) {
        for (std::size_t i = 4; i < 8; i++) to.push_back({i, row, 22});
        for (std::size_t i = 0; i < 5; i++) to.push_back({i, row + 1, 22});
        to.push_back({5, row + 1, 21});
        to.push_back({6, row + 1, 21});
        to.push_back({7, row + 1, 15});
    }

    template<typename C>
    struct subject {
        std::string name;
        std::size_t inputs;
        // the assumed ranges
        std::vector<range_of> ranges;
        // rows of range checks in the component
        std::vector<std::size_t> checks;
        // the input type made of variables, the result as variables
        std::function<typename C::input_type(const std::vector<var> &)> input;
        std::function<std::vector<var>(const typename C::result_type &)> result;
        std::vector<std::size_t> widths;    // of the result, in bits
        integer modulus;
    };

    // One placement of a component whose inputs are public.
    template<typename C>
    struct placed {
        const subject<C> &what;
        const placement &at;
        T::circuit bp;
        T::assignment as;
        std::vector<var> in, out;
        typename C::input_type input;
        C component;
        boost::optional<vp::big::system<F>> system;
        boost::optional<vp::big::solver<F>> solver;
        std::vector<std::uint32_t> out_cells;
        std::vector<bool> given;
        std::vector<std::pair<std::uint32_t, std::uint32_t>> flags;    // flag and first chunk of the range checks

        placed(const subject<C> &s, const placement &p) : what(s), at(p), as(p.width, 1, 1, 20), component(p.columns(), std::array<std::uint32_t, 0>(), std::array<std::uint32_t, 0>()) {
            for (std::size_t i = 0; i < s.inputs; i++) in.push_back(T::pub(0, i));
            input = s.input(in);
            for (auto &v : in) as.public_input(0, v.rotation) = 0u;
            for (std::size_t i = 0; i < p.start; i++) bp.get_dynamic_lookup_table_selector();
            auto result = bc::generate_circuit(component, bp, as, input, p.start);
            out = s.result(result);
            auto same = [](const std::vector<var> &a, const std::vector<std::reference_wrapper<var>> &b) {
                bool r = a.size() == b.size();
                for (std::size_t i = 0; r && i < a.size(); i++) r = a[i] == b[i].get();
                return r;
            };
            VH_CHECK(same(in, input.all_vars()) && same(out, result.all_vars()), "variables", s.name << " lists other variables than its inputs and results");
            VH_CHECK(bp.num_gates() == C::get_gate_manifest(9).get_gates_amount(), "gates", s.name << " has " << bp.num_gates() << " gates but announces " << C::get_gate_manifest(9).get_gates_amount());
            VH_CHECK(C::get_rows_amount(9) == component.rows_amount, "rows", s.name << " announces two different numbers of rows");
            for (std::size_t c = 0; c < as.selectors_amount(); c++) {
                for (std::size_t r = 0; r < as.selector_column_size(c); r++) {
                    VH_CHECK(as.selector(c, r).is_zero() || (r >= p.start && r < p.start + component.rows_amount), "rows", s.name << " enables a gate on row " << r << " outside of its own");
                }
            }
            system.emplace(bp, as);
            for (auto &v : out) {
                out_cells.push_back(system->find(system->cell(v, 0)));
            }
            auto columns = p.columns();
            for (auto &r : s.ranges) system->witness(columns[r.column], p.start + r.row);
            for (auto r : s.checks) {
                flags.push_back({system->witness(columns[8], p.start + r + 1), system->witness(columns[4], p.start + r)});
            }
            solver.emplace(*system);
            for (auto &r : s.ranges) solver->below[system->witness(columns[r.column], p.start + r.row)] = ONE << r.bits;
            for (std::size_t i = 0; i < out_cells.size(); i++) solver->below[out_cells[i]] = ONE << s.widths[i];
            system->load(as);
            given = system->fixed;
        }

        // The table as filled in for the inputs.
        T::assignment filled(const std::vector<integer> &values, std::vector<integer> &results) const {
            T::assignment r(at.width, 1, 1, 20);
            for (std::size_t i = 0; i < values.size(); i++) r.public_input(0, i) = to_native(values[i]);
            auto out_vars = what.result(bc::generate_assignments(component, r, input, at.start));
            for (std::size_t i = 0; i < out_vars.size(); i++) {
                VH_CHECK(out_vars[i] == out[i], "result-place", what.name << ": circuit and assignment disagree about the result");
                results.push_back(content(r, out_vars[i]));
            }
            auto own = at.columns();
            for (std::size_t c = 0; c < at.width; c++) {
                VH_CHECK(r.witness_column_size(c) <= (std::count(own.begin(), own.end(), c) ? at.start + component.rows_amount : 0), "rows",
                         what.name << " writes to column " << c << " row " << r.witness_column_size(c) - 1 << ", which is not its own");
            }
            return r;
        }
        // Looks for accepted tables with the given inputs and result.
        bool accepts(const std::vector<integer> &values, const std::vector<integer> &result, bool assume_flags = true) {
            std::vector<number> start(system->places.size());
            std::vector<bool> known = given;
            for (std::size_t i = 0; i < system->places.size(); i++) {
                if (system->places[i].type == var::column_type::public_input) {
                    std::uint32_t c = system->find(i);
                    start[c] = solver->to_number(values[system->places[i].row]);
                    known[c] = true;
                }
            }
            for (std::size_t i = 0; i < out_cells.size(); i++) {
                number v = solver->to_number(result[i]);
                if (known[out_cells[i]] && start[out_cells[i]] != v) return false;
                start[out_cells[i]] = v;
                known[out_cells[i]] = true;
            }
            bool any = false;
            solver->found = [&](const std::vector<number> &v, const std::vector<bool> &known) {
                for (auto &f : flags) {
                    // the flag says that the first chunk is less than that of the modulus
                    bool set = !known[f.first] || v[f.first] == solver->math.one;
                    if (assume_flags && set && solver->to_integer(v[f.second]) >= (ONE << 22) - 19) {
                        if (!known[f.first]) continue;
                        return;
                    }
                }
                any = true;
            };
            std::uint64_t before = solver->steps;
            solver->solve(start, known);
            vh::count_transitions(solver->steps - before);
            vh::count_states(1);
            if (!any && solver->stuck) vh::left_out();
            return any;
        }
    };

    std::vector<integer> operands(bool more) {
        std::set<integer> r = {0, 1, 2, 18, 19, 20, (ONE << 22) - 1, ONE << 22, P25519 - 1, P25519 - 2, P25519 - 19, P25519 - 20, (P25519 - 1) / 2, (P25519 + 1) / 2, pallas() - 1, pallas(), pallas() + 1};
        for (int b : {66, 132, 198}) {
            for (int d : {-20, -19, -18, -1, 0, 1}) r.insert((ONE << b) + d);
            if (more) r.insert(P25519 - (ONE << b));
        }
        r.insert((ONE << 254) - 1);
        r.insert(ONE << 254);
        if (more) {
            for (int b = 1; b < 255; b += 21) r.insert(ONE << b), r.insert((ONE << b) - 1), r.insert(P25519 - (ONE << b));
            r.insert(((ONE << 132) - 1) << 66);
            r.insert(((ONE << 66) - 1) << 132);
        }
        return std::vector<integer>(r.begin(), r.end());
    }

    void assume() {
        vh::cfg().assumptions.push_back("the chunks of the range checks and the carries are within the bits they are laid out for: the components contain no constraint or lookup for it");
        vh::cfg().assumptions.push_back("the flag of a range check is one only if the first chunk is less than that of the modulus: the component contains no constraint for it (see N02)");
        vh::cfg().assumptions.push_back("limbs of operands are given, of 66, 66, 66 and 57 bits");
        vh::cfg().assumptions.push_back("the dependency is replaced by the stand-in of /verif/shim");
    }

    template<typename C>
    void arithmetic(const subject<C> &s, const std::function<integer(const integer &, const integer &)> &f) {
        auto values = operands(vh::thorough());
        vh::parallel(PLACEMENTS.size() * values.size(), [&](std::size_t job) {
            auto &at = PLACEMENTS[job / values.size()];
            auto &a = values[job % values.size()];
            VH_CASE(s.name << ", " << at.name);
            placed<C> p(s, at);
            for (auto &b : values) {
                VH_CASE(s.name << " of " << hex(a) << " and " << hex(b) << ", " << at.name);
                std::vector<integer> in = limbs(a), lb = limbs(b), out;
                in.insert(in.end(), lb.begin(), lb.end());
                integer want = f(a, b);
                auto table = p.filled(in, out);
                VH_CHECK(out == limbs(want), "wrong-result", s.name << " gives limbs " << hex(out[0]) << " " << hex(out[1]) << " " << hex(out[2]) << " " << hex(out[3]) << " instead of those of " << hex(want));
                bool same = p.system->load(table);
                std::string why = p.system->violated(p.system->honest);
                VH_CHECK(same && why.empty(), "honest-rejected", s.name << ": the table filled in is rejected: " << (same ? why : "copy constraint"));
                {
                    T::assignment e(at.width, 1, 1, 20);
                    for (std::size_t i = 0; i < in.size(); i++) e.public_input(0, i) = to_native(in[i]);
                    auto vars = s.result(bc::generate_empty_assignments(p.component, e, p.input, at.start));
                    std::vector<integer> got;
                    for (auto &v : vars) got.push_back(content(e, v));
                    VH_CHECK(got == limbs(want), "wrong-empty-result", s.name << ": empty assignments give another result");
                }
                vh::count_traces(1);
                VH_CHECK(p.accepts(in, limbs(want)), "search-misses", "the search does not find the table that is accepted");
                std::set<integer> claims;
                for (int i = -2; i <= 2; i++) {
                    for (int j = -2; j <= 2; j++) {
                        for (integer d : {integer(0), integer(1), integer(-1), integer(ONE << 66), integer(-(ONE << 66)), integer(ONE << 132), integer(-(ONE << 132)), integer(ONE << 198), integer(-(ONE << 198))}) {
                            integer r = want + i * P25519 + j * pallas() + d;
                            if (r >= 0 && r < (ONE << 255) && r != want) claims.insert(r);
                        }
                    }
                }
                for (integer r : {integer(0), integer(a), integer(b), integer((ONE << 255) - 1)}) {
                    if (r != want) claims.insert(r);
                }
                for (auto &r : claims) {
                    VH_CASE(s.name << " of " << hex(a) << " and " << hex(b) << " claimed to be " << hex(r) << ", " << at.name);
                    VH_CHECK(!p.accepts(in, limbs(r)), "wrong-accepted", s.name << ": a table with a result other than " << hex(want) << " is accepted");
                }
            }
            vh::sample([&] { return s.name + " of " + hex(a) + " with " + std::to_string(values.size()) + " operands"; }());
        });
    }

    template<typename C>
    subject<C> binary(const std::string &name, const std::vector<range_of> &ranges, const std::vector<std::size_t> &checks) {
        subject<C> s;
        s.name = name;
        s.inputs = 8;
        s.ranges = ranges;
        s.checks = checks;
        for (auto r : checks) range_rows(s.ranges, r);
        s.input = [](const std::vector<var> &v) {
            typename C::input_type r;
            for (std::size_t i = 0; i < 4; i++) {
                r.A[i] = v[i];
                r.B[i] = v[4 + i];
            }
            return r;
        };
        s.result = [](const typename C::result_type &r) { return std::vector<var>(r.output.begin(), r.output.end()); };
        s.widths = {66, 66, 66, 57};
        return s;
    }

    void field_operations() {
        vh::cfg().bounds = std::string("circuits over the field of pallas, operands of the field of curve25519: 0, 1, 2, 18 to 20, 2^22, the edges of the limbs, of half the modulus, of the modulus and of that of pallas") + (vh::thorough() ? ", powers of two every 21 bits and what the modulus lacks to them" : "") +
                           "; every ordered pair of them for addition, subtraction and multiplication, in two placements; claimed results: the true one, and those off by up to two moduli of either field and by one in any limb, 0, both operands and 2^255-1; for each claim every table within the assumed ranges is decided by propagation over the constraints (states are claims, transitions are steps of it)";
        assume();
        arithmetic<bc::plonk_ed25519_addition<F>>(binary<bc::plonk_ed25519_addition<F>>("addition", {{3, 0, 22}, {4, 0, 22}, {5, 0, 22}, {6, 0, 1}}, {2}),
                                                  [](const integer &a, const integer &b) { return integer((a + b) % P25519); });
        arithmetic<bc::plonk_ed25519_subtraction<F>>(binary<bc::plonk_ed25519_subtraction<F>>("subtraction", {{3, 0, 22}, {4, 0, 22}, {5, 0, 22}, {6, 0, 2}}, {2}),
                                                     [](const integer &a, const integer &b) { return integer((a + P25519 - b) % P25519); });
        auto product = binary<bc::plonk_ed25519_multiplication<F>>(
            "multiplication", {{0, 6, 22}, {1, 6, 22}, {2, 6, 22}, {3, 6, 4}, {4, 6, 22}, {5, 6, 22}, {6, 6, 22}, {7, 6, 9}, {8, 4, 66}, {0, 5, 66}, {1, 5, 66}, {2, 5, 57}}, {0, 2});
        arithmetic<bc::plonk_ed25519_multiplication<F>>(product, [](const integer &a, const integer &b) { return integer(a * b % P25519); });
    }

    // Places every table of a component with inputs only, and the verdict on it.
    void check_ranges() {
        typedef bc::plonk_ed25519_range<F> C;
        subject<C> s;
        s.name = "range check";
        s.inputs = 4;
        s.checks = {0};
        range_rows(s.ranges, 0);
        s.input = [](const std::vector<var> &v) {
            C::input_type r;
            for (std::size_t i = 0; i < 4; i++) r.input[i] = v[i];
            return r;
        };
        s.result = [](const C::result_type &) { return std::vector<var>(); };
        static const std::vector<std::size_t> bits = {22, 22, 22, 22, 22, 22, 22, 22, 22, 21, 21, 15};
        const std::size_t choices = vh::thorough() ? 3 : 2;
        std::vector<integer> first;
        for (integer v : {integer(0), integer(1), integer((ONE << 22) - 21), integer((ONE << 22) - 20), integer((ONE << 22) - 19), integer((ONE << 22) - 18), integer((ONE << 22) - 1)}) first.push_back(v);
        std::size_t tops = choices * choices * choices;
        vh::parallel(PLACEMENTS.size() * tops, [&](std::size_t job) {
            auto &at = PLACEMENTS[job / tops];
            VH_CASE(s.name << ", " << at.name);
            placed<C> p(s, at);
            std::vector<std::size_t> pick(11);
            std::size_t rest = job % tops;
            for (std::size_t i = 8; i < 11; i++) {
                pick[i] = rest % choices;
                rest /= choices;
            }
            auto one = [&](const integer &v) {
                VH_CASE(s.name << " of " << hex(v) << ", " << at.name);
                auto in = limbs(v);
                std::vector<integer> none;
                auto table = p.filled(in, none);
                bool same = p.system->load(table);
                std::string why = p.system->violated(p.system->honest);
                vh::count_traces(1);
                if (v < P25519) {
                    VH_CHECK(same && why.empty(), "honest-rejected", s.name << ": the table filled in is rejected: " << (same ? why : "copy constraint"));
                    VH_CHECK(p.accepts(in, {}), "search-misses", "the search does not find the table that is accepted");
                } else {
                    VH_CHECK(!same || !why.empty(), "out-of-range-filled", s.name << ": the table filled in is accepted");
                    VH_CHECK(!p.accepts(in, {}), "out-of-range-accepted", s.name << ": a table with a value that is not less than the modulus is accepted");
                    VH_CHECK(!p.accepts(in, {}, false), "first-chunk-flag-free", s.name << ": a table with a value that is not less than the modulus is accepted when the flag is claimed");
                }
            };
            for (;;) {
                integer high = 0;
                std::size_t shift = 22;
                for (std::size_t i = 0; i < 11; i++) {
                    integer top = (ONE << bits[i + 1]) - 1;
                    high += (pick[i] == 0 ? integer(0) : pick[i] == 1 ? top : integer(top - 1)) << shift;
                    shift += bits[i + 1];
                }
                for (auto &f : first) one(high + f);
                std::size_t i = 0;
                while (i < 8 && ++pick[i] == choices) pick[i++] = 0;
                if (i == 8) break;
            }
            if (job % tops == 0) {
                // every chunk short of its greatest by one or zero while the others are full
                std::size_t shift = 0;
                for (std::size_t i = 0; i < 12; i++) {
                    for (int d = 0; d < 24; d++) one((ONE << 255) - 1 - (integer(d) << shift));
                    shift += bits[i];
                }
                // limbs wider than they may be
                const std::vector<std::size_t> widths = {66, 66, 66, 57};
                for (std::size_t l = 0; l < 4; l++) {
                    for (integer v : {integer(ONE << widths[l]), integer((ONE << widths[l]) + 1), integer(ONE << (widths[l] + 1)), integer(pallas() - 1), integer((ONE << 254) - 1)}) {
                        for (integer others : {integer(0), integer(1)}) {
                            std::vector<integer> in(4, others), none;
                            in[l] = v;
                            VH_CASE(s.name << " of limb " << l << " " << hex(v) << " with others " << others << ", " << at.name);
                            VH_CHECK(!p.accepts(in, {}), "wide-limb-accepted", s.name << ": a limb beyond its width is accepted");
                        }
                    }
                }
                vh::sample("range check of values made of chunks that are 0, full or one short of it, " + std::string(at.name));
            }
        });
    }

    void reduce() {
        typedef bc::plonk_reduction<F> C;
        subject<C> s;
        s.name = "reduction";
        s.inputs = 8;
        s.ranges = {{0, 0, 20}, {1, 0, 20}, {2, 0, 20}, {3, 0, 20}, {4, 0, 20}, {5, 0, 20}, {6, 0, 20}, {7, 0, 20}, {8, 0, 20}, {0, 1, 20}, {1, 1, 20}, {2, 1, 20}, {3, 1, 13},
                    {0, 2, 20}, {1, 2, 20}, {2, 2, 20}, {3, 2, 7}, {4, 2, 22}, {5, 2, 22}, {6, 2, 22}, {7, 2, 12}};
        s.input = [](const std::vector<var> &v) {
            C::input_type r;
            for (std::size_t i = 0; i < 8; i++) r.k[i] = v[i];
            return r;
        };
        s.result = [](const C::result_type &r) { return std::vector<var>{r.output}; };
        s.widths = {253};
        // words are 0, 1 or all ones; beside that, edges of multiples of the order
        std::vector<std::vector<integer>> values;
        const std::vector<integer> words = {integer(0), integer((ONE << 64) - 1), integer(1)};
        const std::size_t choices = vh::thorough() ? 3 : 2;
        std::vector<std::size_t> pick(8);
        for (;;) {
            std::vector<integer> v;
            for (auto i : pick) v.push_back(words[i]);
            values.push_back(v);
            std::size_t i = 0;
            while (i < 8 && ++pick[i] == choices) pick[i++] = 0;
            if (i == 8) break;
        }
        std::set<integer> edges;
        for (integer m : {integer(1), integer(2), integer(3), integer(8), integer(ONE << 64), integer((ONE << 128) - 1), integer(pallas()), integer(((ONE << 512) - 1) / L25519)}) {
            for (int d : {-1, 0, 1}) edges.insert(m * L25519 + d);
        }
        for (int b : {253, 254, 255, 256, 320, 384, 448, 511}) {
            for (int d : {-1, 0, 1}) edges.insert((ONE << b) + d);
        }
        for (auto &e : edges) {
            std::vector<integer> v;
            for (int i = 0; i < 8; i++) v.push_back((e >> (64 * i)) & ((ONE << 64) - 1));
            values.push_back(v);
        }
        vh::parallel(PLACEMENTS.size() * 16, [&](std::size_t job) {
            auto &at = PLACEMENTS[job / 16];
            VH_CASE(s.name << ", " << at.name);
            placed<C> p(s, at);
            for (std::size_t n = job % 16; n < values.size(); n += 16) {
                auto &in = values[n];
                integer k = 0;
                for (int i = 7; i >= 0; i--) k = (k << 64) + in[i];
                VH_CASE(s.name << " of " << hex(k) << ", " << at.name);
                integer want = k % L25519;
                std::vector<integer> out;
                auto table = p.filled(in, out);
                VH_CHECK(out[0] == want, "wrong-result", s.name << " gives " << hex(out[0]) << " instead of " << hex(want));
                bool same = p.system->load(table);
                std::string why = p.system->violated(p.system->honest);
                VH_CHECK(same && why.empty(), "honest-rejected", s.name << ": the table filled in is rejected: " << (same ? why : "copy constraint"));
                vh::count_traces(1);
                VH_CHECK(p.accepts(in, {want}), "search-misses", "the search does not find the table that is accepted");
                std::set<integer> claims;
                for (int i = -2; i <= 2; i++) {
                    for (int j = -1; j <= 1; j++) {
                        for (integer d : {integer(0), integer(1), integer(-1), integer(ONE << 13), integer(-(ONE << 13)), integer(ONE << 69), integer(-(ONE << 69)), integer(ONE << 73), integer(-(ONE << 73)), integer(ONE << 252), integer(-(ONE << 252))}) {
                            integer r = want + i * L25519 + j * pallas() + d;
                            if (r >= 0 && r < (ONE << 253) && r != want) claims.insert(r);
                        }
                    }
                }
                for (integer r : {integer(0), integer(in[0]), integer((ONE << 253) - 1)}) {
                    if (r != want) claims.insert(r);
                }
                for (auto &r : claims) {
                    VH_CASE(s.name << " of " << hex(k) << " claimed to be " << hex(r) << ", " << at.name);
                    bool accepted = p.accepts(in, {r});
                    if ((r - want) % L25519 == 0) {
                        VH_CHECK(!accepted, "remainder-not-reduced", s.name << ": a remainder that is not less than the order is accepted");
                    } else {
                        VH_CHECK(!accepted, "wrong-accepted", s.name << ": a table with a result other than " << hex(want) << " is accepted");
                    }
                }
            }
            if (job % 16 == 0) vh::sample("reduction of words that are 0, 1 or all ones and of values next to multiples of the order, " + std::string(at.name));
        });
    }

    void range_and_reduction() {
        vh::cfg().bounds = std::string("circuits over the field of pallas in two placements; range check: values of chunks that are 0") + (vh::thorough() ? ", full or one short of it" : " or full") +
                           " with seven first chunks, values up to 23 short of full in any chunk, limbs wider than allowed; reduction: words that are 0" + (vh::thorough() ? ", 1" : "") +
                           " or all ones, and values next to multiples of the order and powers of two, with claims off by multiples of the order and of the modulus of pallas and by one in any part; for each claim every table within the assumed ranges is decided by propagation over the constraints (states are claims, transitions are steps of it)";
        assume();
        check_ranges();
        reduce();
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"N01", field_operations}, {"N02", range_and_reduction}});
}
