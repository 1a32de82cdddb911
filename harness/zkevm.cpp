// Z01: words and the stack. Z02: the state selector. Z03: state transitions. Z04: arithmetic opcodes. Z05: rows of opcodes.
#include <vcomponent.hpp>
#include <vbig.hpp>

#include <nil/crypto3/algebra/fields/pallas/base_field.hpp>

#include <nil/blueprint/zkevm/zkevm_circuit.hpp>

namespace {
    using namespace nil::blueprint;
    typedef boost::multiprecision::cpp_int integer;
    typedef zkevm_word_type word;

    integer power_of_two(unsigned n) {
        return integer(1) << n;
    }
    const integer WORD = power_of_two(256);

    word to_word(const integer &x) {
        word w(0);
        for (int i = 15; i >= 0; i--) {
            w = w * word(65536) + word(static_cast<unsigned>((x >> (16 * i)) & 0xffff));
        }
        return w;
    }
    unsigned chunk(const integer &x, std::size_t i) {
        return static_cast<unsigned>((x >> (16 * i)) & 0xffff);
    }
    integer part64(const integer &x, std::size_t i) {
        return (x >> (64 * i)) & (power_of_two(64) - 1);
    }
    std::string hex(const integer &x) {
        std::ostringstream os;
        os << "0x" << std::hex << x;
        return os.str();
    }

    // ---------------------------------------------------------------------------------------------------- Z01
    typedef nil::crypto3::algebra::fields::pallas_base_field big_field;

    void check_word(const integer &x) {
        word w = to_word(x);
        auto chunks = zkevm_word_to_field_element<big_field>(w);
        VH_CHECK(chunks.size() == 16, "chunks", chunks.size() << " chunks");
        for (std::size_t i = 0; i < 16; i++) {
            VH_CHECK(chunks[i] == big_field::value_type(chunk(x, i)), "chunk",
                     "chunk " << i << " of " << hex(x) << " is " << chunks[i].data << " instead of " << chunk(x, i));
        }
        vh::count_transitions(16);
    }
    void check_64(const integer &x) {
        big_field::value_type v(0);
        for (int i = 3; i >= 0; i--) v = v * big_field::value_type(65536) + big_field::value_type(chunk(x, i));
        auto chunks = chunk_64_to_16<big_field>(v);
        VH_CHECK(chunks.size() == 4, "chunks-64", chunks.size() << " chunks of a 64-bit number");
        for (std::size_t i = 0; i < 4; i++) {
            VH_CHECK(chunks[i] == big_field::value_type(chunk(x, i)), "chunk-64",
                     "chunk " << i << " of " << hex(x) << " is " << chunks[i].data << " instead of " << chunk(x, i));
        }
        vh::count_transitions(4);
    }

    void z01() {
        vh::cfg().bounds = vh::thorough() ?
            "every value of every chunk on three backgrounds; all stack histories of up to 9 operations over 3 words" :
            "every value of every chunk on backgrounds of zeros and ones; all stack histories of up to 7 operations over 3 words";
        const integer backgrounds[3] = {0, WORD - 1, (WORD - 1) / 3};
        const std::size_t used = vh::thorough() ? 3 : 2;
        vh::parallel(16 * 64, [&](std::size_t job) {
            std::size_t position = job / 64;
            for (unsigned v = job % 64 * 1024; v < job % 64 * 1024 + 1024; v++) {
                for (std::size_t b = 0; b < used; b++) {
                    VH_CASE("chunk " << position << " is " << v << " on background " << b);
                    integer x = backgrounds[b] - (integer(chunk(backgrounds[b], position)) << (16 * position)) + (integer(v) << (16 * position));
                    check_word(x);
                    if (position < 4) check_64(x & (power_of_two(64) - 1));
                    vh::count_states();
                }
            }
            vh::count_traces();
            if (job % 211 == 1) vh::sample("chunk " + std::to_string(position) + " takes 1024 values");
        });
        // histories of the stack: bottom first, explored depth first; a history never pops from an empty stack
        const std::vector<integer> words = {0, 1, WORD - 1};
        const std::size_t depth = vh::thorough() ? 9 : 7;
        struct operation {
            const char *name;
            std::size_t needs;
        };
        const std::vector<operation> operations = {{"push0", 0}, {"push1", 0}, {"push2", 0}, {"pop", 1}, {"top", 1}, {"swap", 2}, {"dup", 1}};
        const std::size_t N = operations.size();
        std::function<void(std::vector<std::size_t> &, zkevm_stack, std::vector<integer>)> go =
            [&](std::vector<std::size_t> &history, zkevm_stack stack, std::vector<integer> model) {
                vh::count_states();
                // everything on the stack, by popping it all
                zkevm_stack copy(stack);
                for (std::size_t i = model.size(); i-- > 0;) {
                    word got = copy.pop();
                    VH_CHECK(got == to_word(model[i]), "stack", "the word at depth " << model.size() - 1 - i << " is wrong");
                }
                vh::count_traces();
                if (history.size() == depth) return;
                for (std::size_t o = 0; o < N; o++) {
                    if (operations[o].needs > model.size()) continue;
                    history.push_back(o);
                    std::string text;
                    for (auto h : history) text += std::string(operations[h].name) + " ";
                    VH_CASE(text);
                    zkevm_stack s(stack);
                    std::vector<integer> m(model);
                    if (o < 3) {
                        s.push(to_word(words[o]));
                        m.push_back(words[o]);
                    } else if (o == 3) {
                        word got = s.pop();
                        VH_CHECK(got == to_word(m.back()), "stack-pop", "the popped word is wrong");
                        m.pop_back();
                    } else if (o == 4) {
                        word got = s.top();
                        VH_CHECK(got == to_word(m.back()), "stack-top", "the top word is wrong");
                    } else if (o == 5) {
                        s.swap();
                        std::swap(m[m.size() - 1], m[m.size() - 2]);
                    } else {
                        s.dup();
                        m.push_back(m.back());
                    }
                    vh::count_transitions();
                    go(history, s, m);
                    history.pop_back();
                }
            };
        vh::parallel(3 * N, [&](std::size_t job) {
            zkevm_stack s;
            std::vector<integer> m;
            s.push(to_word(words[job / N]));
            m.push_back(words[job / N]);
            std::vector<std::size_t> h = {job / N};
            // the second operation
            std::size_t o = job % N;
            if (operations[o].needs > m.size()) return;
            h.push_back(o);
            if (o < 3) {
                s.push(to_word(words[o]));
                m.push_back(words[o]);
            } else if (o == 3) {
                s.pop();
                m.pop_back();
            } else if (o == 4) {
                s.top();
            } else {
                s.dup();
                m.push_back(m.back());
            }
            go(h, s, m);
        });
    }

    // ---------------------------------------------------------------------------------------------------- Z02
    template<typename F>
    void explore_selector(std::size_t options, const vp::placement &at) {
        typedef vp::types<F> T;
        typedef components::state_selector<vp::snark::plonk_constraint_system<F>, F> selector;
        typedef typename selector::input_type input_type;
        const std::uint64_t p = F::value_type::small_modulus();
        const std::size_t width = (options + 1) / 2 + 2;
        std::vector<std::uint32_t> columns(width);
        for (std::size_t i = 0; i < width; i++) columns[i] = at.first_column + (at.reversed ? width - 1 - i : i);
        selector component(columns, std::array<std::uint32_t, 0> {}, std::array<std::uint32_t, 0> {}, options);
        typename T::circuit bp;
        typename T::assignment as(at.first_column + width + at.spare_columns, 1, 0, 10);
        typename T::var in = T::pub(0, 0);
        as.public_input(0, 0) = 0;
        input_type input {in};
        components::generate_circuit(component, bp, as, input, at.start_row);
        VH_CHECK(bp.gates().size() <= selector::get_gate_manifest(width, options).get_gates_amount(), "gates", "more gates than announced");
        std::vector<typename T::constraint> option;
        for (std::size_t i = 0; i < options; i++) option.push_back(component.option_constraint(i));
        for (std::uint64_t x = 0; x < p; x++) {
            VH_CASE("selector of " << options << " options at row " << at.start_row << " column " << at.first_column
                                   << (at.reversed ? " reversed" : "") << ", index " << x);
            as.public_input(0, 0) = x;
            vp::system<F> s(bp, as);
            std::map<std::uint32_t, std::size_t> cells;
            for (auto c : columns) cells[c] = s.cell(T::w(c, at.start_row), 0);
            s.finish();
            if (x < options) {
                components::generate_assignments(component, as, input, at.start_row);
                vp::values filled;
                std::string why;
                VH_CHECK(s.load(as, true, filled, why) && s.satisfied(filled, why), "rejected", "the table filled in is rejected: " << why);
                VH_CHECK(nil::blueprint::is_satisfied(bp, as), "rejected", "the table filled in is rejected by is_satisfied");
                vh::count_traces();
            }
            vp::values start;
            std::string why;
            s.load(as, false, start, why);
            std::size_t contents = 0;
            typename vp::system<F>::search search {s, [](const vp::values &) { return true; },
                                                   [&](const vp::values &v) {
                                                       contents++;
                                                       VH_CHECK(x < options, "accepted", "an index that is no option is accepted");
                                                       for (std::size_t i = 0; i < options; i++) {
                                                           auto value = vp::evaluate<F>(option[i], [&](const typename T::var &q) {
                                                               return typename F::value_type(v[s.find(cells.at(q.index))]);
                                                           });
                                                           VH_CHECK(value.is_zero() == (i != x), "option",
                                                                    "option " << i << " is " << (value.is_zero() ? "off" : "on"));
                                                       }
                                                       auto o = component.option_variable();
                                                       VH_CHECK(v[s.find(cells.at(o.index))] == x, "option-variable", "the option variable is not the index");
                                                       return true;
                                                   }};
            search.go(start);
            if (!search.exhausted) vh::left_out();
            VH_CHECK((contents > 0) == (x < options), "contents", contents << " contents accepted");
            vh::count_states();
            vh::count_transitions(search.nodes);
        }
    }
    void z02() {
        vh::cfg().bounds = "1 to 24 options, 3 placements, every index of a field of 97 elements, every content of the columns";
        const std::vector<vp::placement> places = {{0, 0, 0, false}, {1, 0, 1, false}, {3, 2, 1, true}};
        struct job {
            std::size_t options;
            vp::placement at;
        };
        std::vector<job> jobs;
        for (std::size_t o = 1; o <= 24; o++) {
            for (auto &at : places) jobs.push_back({o, at});
        }
        vh::parallel(jobs.size(), [&](std::size_t i) {
            explore_selector<vp::small_field<97>>(jobs[i].options, jobs[i].at);
            if (i % 17 == 3) vh::sample("selector of " + std::to_string(jobs[i].options) + " options, every index and content");
        });
    }

    // ---------------------------------------------------------------------------------------------------- Z03
    void z03() {
        vh::cfg().bounds = "every combination of transition kinds for the four state variables with amounts -2..3, every successor within distance 3 of each variable; "
                           "values at both ends of a field of 97 elements";
        typedef vp::small_field<97> F;
        typedef vp::types<F> T;
        typedef zkevm_state<F> state_type;
        typedef state_var<F> variable;
        const int p = 97;
        struct rule {
            transition_type::type kind;
            int amount;
        };
        std::vector<rule> rules = {{transition_type::DEFAULT, 0}, {transition_type::ANY, 0}, {transition_type::SAME_VALUE, 0}};
        for (int a = -2; a <= 3; a++) {
            rules.push_back({transition_type::DELTA, a});
            rules.push_back({transition_type::NEW_VALUE, a});
        }
        auto allowed = [&](std::size_t v, const rule &r, int from, int to) {
            auto same = [&](int x) { return ((x - to) % p + p) % p == 0; };
            switch (r.kind) {
                case transition_type::ANY:
                    return true;
                case transition_type::SAME_VALUE:
                    return same(from);
                case transition_type::DELTA:
                    return same(from + r.amount);
                case transition_type::NEW_VALUE:
                    return same(r.amount);
                default:
                    return same(v == 0 ? from + 1 : from);
            }
        };
        auto make = [&](const std::array<std::size_t, 4> &column) {
            state_type s;
            s.pc = variable(column[0], variable::column_type::witness, 0);
            s.stack_size = variable(column[1], variable::column_type::witness, 0);
            s.memory_size = variable(column[2], variable::column_type::witness, 0);
            s.curr_gas = variable(column[3], variable::column_type::witness, 0);
            return s;
        };
        const std::size_t R = rules.size();
        vh::parallel(R * R, [&](std::size_t job) {
            for (std::size_t k2 = 0; k2 < R; k2++) {
                for (std::size_t k3 = 0; k3 < R; k3++) {
                    const rule r[4] = {rules[job / R], rules[job % R], rules[k2], rules[k3]};
                    zkevm_state_transition t;
                    transition_type *of[4] = {&t.pc, &t.stack_size, &t.memory_size, &t.curr_gas};
                    for (int v = 0; v < 4; v++) {
                        of[v]->t = r[v].kind;
                        of[v]->value = r[v].amount;
                    }
                    VH_CASE("transition " << t);
                    auto s = make({2, 0, 3, 1});
                    const std::size_t column[4] = {2, 0, 3, 1};
                    auto constraints = generate_transition_constraints(s, t);
                    // one variable moves, the others take an allowed step; and all step by the same distance
                    const int from[4] = {96, 0, 5, 50};
                    auto judge = [&](const int *to) {
                        bool want = true;
                        for (int v = 0; v < 4; v++) want = want && allowed(v, r[v], from[v], to[v]);
                        bool got = true;
                        for (auto &c : constraints) {
                            auto value = vp::evaluate<F>(c, [&](const T::var &q) {
                                for (int v = 0; v < 4; v++) {
                                    if (column[v] == q.index && q.type == T::var::column_type::witness && q.relative) {
                                        if (q.rotation == 0) return F::value_type((from[v] % p + p) % p);
                                        if (q.rotation == 1) return F::value_type((to[v] % p + p) % p);
                                    }
                                }
                                VH_CHECK(false, "variable", "a constraint reads a cell that is no state variable of this or the next row");
                                return F::value_type(0);
                            });
                            got = got && value.is_zero();
                        }
                        VH_CHECK(got == want, got ? "accepted" : "rejected",
                                 "the step to " << to[0] << "," << to[1] << "," << to[2] << "," << to[3] << " from " << from[0] << "," << from[1] << ","
                                                << from[2] << "," << from[3] << " is " << (got ? "accepted" : "rejected"));
                        vh::count_transitions();
                    };
                    int step[4];
                    for (int v = 0; v < 4; v++) {
                        step[v] = r[v].kind == transition_type::DELTA ? from[v] + r[v].amount :
                                  r[v].kind == transition_type::NEW_VALUE ? r[v].amount :
                                  r[v].kind == transition_type::DEFAULT && v == 0 ? from[v] + 1 : from[v];
                    }
                    judge(step);
                    for (int v = 0; v < 4; v++) {
                        int to[4] = {step[0], step[1], step[2], step[3]};
                        for (int d = -3; d <= 3; d++) {
                            to[v] = from[v] + d;
                            judge(to);
                        }
                        for (int x = -3; x <= 3; x++) {
                            to[v] = x;
                            judge(to);
                        }
                    }
                    for (int d = -3; d <= 3; d++) {
                        int to[4] = {from[0] + d, from[1] + d, from[2] + d, from[3] + d};
                        judge(to);
                    }
                    vh::count_states();
                }
            }
            vh::count_traces();
            if (job % 41 == 3) vh::sample("all transitions with kinds " + std::to_string(job / R) + " and " + std::to_string(job % R) + " for the first two variables");
        });
        // freezing keeps every variable; a state is written to its own cells of its row only
        auto frozen = generate_frozen_state_transition();
        for (auto k : {frozen.pc, frozen.stack_size, frozen.memory_size, frozen.curr_gas}) {
            VH_CHECK(k.t == transition_type::SAME_VALUE, "frozen", "a frozen variable may change");
        }
        for (std::size_t row = 0; row < 4; row++) {
            for (std::size_t shift = 0; shift < 7; shift++) {
                VH_CASE("state written to row " << row << ", columns from " << shift);
                T::assignment as(8, 0, 0, 0);
                for (std::size_t c = 0; c < 8; c++) {
                    for (std::size_t i = 0; i < 5; i++) as.witness(c, i) = 90;
                }
                auto s = make({shift, (shift + 1) % 7, (shift + 2) % 7, (shift + 3) % 7});
                s.step_selection = variable((shift + 4) % 7, variable::column_type::witness, 0);
                s.rows_until_next_op = variable((shift + 5) % 7, variable::column_type::witness, 0);
                s.rows_until_next_op_inv = variable((shift + 6) % 7, variable::column_type::witness, 0);
                variable *all[7] = {&s.pc, &s.stack_size, &s.memory_size, &s.curr_gas, &s.step_selection, &s.rows_until_next_op, &s.rows_until_next_op_inv};
                for (int v = 0; v < 7; v++) all[v]->set_value(10 + v);
                s.assign_state(as, row);
                for (std::size_t c = 0; c < 8; c++) {
                    for (std::size_t i = 0; i < 5; i++) {
                        std::uint64_t want = i == row && c < 7 ? 10 + (c + 7 - shift) % 7 : 90;
                        VH_CHECK(vp::small(as.witness(c, i)) == want, "assigned", "column " << c << " row " << i << " holds " << vp::small(as.witness(c, i)));
                    }
                }
                vh::count_states();
                vh::count_transitions(7);
                vh::count_traces();
            }
        }
    }

    // ---------------------------------------------------------------------------------------------------- Z04
    typedef vp::types<big_field> B;
    typedef zkevm_circuit<big_field> machine_circuit;
    typedef vp::big::number number;

    struct opcode_info {
        const char *name;
        zkevm_opcode code;
        std::size_t height;
    };
    const std::vector<opcode_info> OPCODES = {{"ISZERO", zkevm_opcode::ISZERO, 1},
                                              {"ADD", zkevm_opcode::ADD, 3},
                                              {"SUB", zkevm_opcode::SUB, 3},
                                              {"MUL", zkevm_opcode::MUL, 3},
                                              {"DIV", zkevm_opcode::DIV, 4}};

    // A circuit and the table of a program.
    struct program {
        B::assignment as;
        B::circuit bp;
        zkevm_machine_interface machine;
        std::unique_ptr<machine_circuit> zk;
        std::size_t first_row = 0;

        program() : as(0, 0, 0, 0) {
            zk.reset(new machine_circuit(as, bp));
            first_row = zk->get_current_row();
        }
        // Returns the first row of the opcode.
        std::size_t run(const opcode_info &o) {
            std::size_t row = zk->get_current_row();
            zk->assign_opcode(o.code, machine);
            VH_CHECK(zk->get_current_row() == row + o.height, "height", o.name << " takes " << zk->get_current_row() - row << " rows");
            return row;
        }
        void finish() {
            zk->finalize_test();
        }
        std::size_t column(std::size_t i) const {
            return zk->get_opcode_cols()[i];
        }
    };

    // Which cells of an opcode hold 16-bit chunks, what they should hold, and which are the operands.
    struct layout {
        std::map<std::uint32_t, unsigned> result;    // cell -> chunk
        std::set<std::uint32_t> chunks;
    };

    integer expected_result(const opcode_info &o, const integer &a, const integer &b) {
        switch (o.code) {
            case zkevm_opcode::ISZERO:
                return a == 0 ? 1 : 0;
            case zkevm_opcode::ADD:
                return (a + b) % WORD;
            case zkevm_opcode::SUB:
                return (a + WORD - b) % WORD;
            case zkevm_opcode::MUL:
                return a * b % WORD;
            default:
                return b == 0 ? integer(0) : a / b;
        }
    }

    layout describe_opcode(vp::big::system<big_field> &s, const program &q, const opcode_info &o, std::size_t row, const integer &a, const integer &b) {
        layout l;
        auto at = [&](std::size_t i, std::size_t r) { return s.witness(q.column(i), row + r); };
        auto place = [&](std::size_t first, std::size_t r, const integer &x, bool operand) {
            for (std::size_t i = 0; i < 16; i++) {
                auto c = at(first + i, r);
                VH_CHECK(s.honest[c] == s.math.from(std::uint64_t(chunk(x, i))), operand ? "operand" : "result",
                         "chunk " << i << " on row " << r << " of the opcode is " << s.math.str(s.honest[c]) << " instead of " << chunk(x, i));
                l.chunks.insert(c);
                if (operand) {
                    s.fixed[c] = true;
                } else {
                    l.result[c] = chunk(x, i);
                }
            }
        };
        integer r = expected_result(o, a, b);
        auto more = [&](std::size_t from, std::size_t to, std::size_t rr) {
            for (std::size_t i = from; i < to; i++) l.chunks.insert(at(i, rr));
        };
        switch (o.code) {
            case zkevm_opcode::ISZERO:
                place(0, 0, a, true);
                place(16, 0, r, false);
                break;
            case zkevm_opcode::ADD:
                place(0, 0, a, true);
                place(0, 1, b, true);
                place(0, 2, r, false);
                break;
            case zkevm_opcode::SUB:
                place(0, 0, r, false);
                place(0, 1, b, true);
                place(0, 2, a, true);
                break;
            case zkevm_opcode::MUL:
                place(0, 0, a, true);
                place(0, 1, b, true);
                place(0, 2, r, false);
                more(16, 20, 0);
                more(16, 20, 1);
                break;
            default:
                place(0, 0, a, true);
                place(0, 1, b, true);
                place(0, 2, r, false);
                more(16, 20, 0);
                more(16, 20, 1);
                more(16, 32, 2);
        }
        return l;
    }

    std::vector<integer> word_grid() {
        std::vector<integer> r = {0, 1, 3, 0xffff, 0x10000, power_of_two(64) - 1, power_of_two(64), power_of_two(128) - 1, power_of_two(128),
                                  power_of_two(192) + 1, power_of_two(255), WORD - 1, (WORD - 1) / 3};
        if (vh::thorough()) {
            for (unsigned i : {16, 32, 48, 80, 112, 144, 176, 208, 240}) r.push_back(power_of_two(i) + (i % 32 ? 2 : -1));
            for (integer x : {integer(2), integer(7), integer(WORD / 7), integer(WORD - 2), integer(WORD - power_of_two(128))}) r.push_back(x);
        }
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }

    void explore_pair(const integer &a, const integer &b) {
        vh::quiet no_output;
        program q;
        const integer bottom = 12345;
        q.machine.stack.push(to_word(bottom));
        q.machine.stack.push(to_word(b));
        q.machine.stack.push(to_word(a));
        std::vector<std::size_t> rows;
        for (auto &o : OPCODES) {
            VH_CASE(o.name << " of " << hex(a) << " and " << hex(b));
            rows.push_back(q.run(o));
        }
        VH_CHECK(q.machine.stack.pop() == to_word(a), "stack", "the top of the stack was changed");
        VH_CHECK(q.machine.stack.pop() == to_word(b), "stack", "the second word of the stack was changed");
        VH_CHECK(q.machine.stack.pop() == to_word(bottom), "stack", "the rest of the stack was changed");
        q.finish();
        VH_CASE("opcodes on " << hex(a) << " and " << hex(b));
        vp::big::system<big_field> s(q.bp, q.as);
        VH_CHECK(s.load(q.as), "copies", "cells connected by copy constraints differ");
        std::string why = s.violated(s.honest);
        VH_CHECK(why.empty(), "rejected", "the table filled in is rejected: " << why);
        VH_CHECK(nil::blueprint::is_satisfied(q.bp, q.as), "rejected", "the table filled in is rejected by is_satisfied");
        vh::count_traces();
        // the opcodes are the program; nothing else is given
        for (std::size_t row = q.first_row; row <= q.zk->get_current_row(); row++) {
            s.fixed[s.witness(q.zk->get_state_selector_cols()[0], row)] = true;
        }
        for (std::size_t k = 0; k < OPCODES.size(); k++) {
            auto &o = OPCODES[k];
            VH_CASE(o.name << " of " << hex(a) << " and " << hex(b));
            std::vector<bool> before = s.fixed;
            layout l = describe_opcode(s, q, o, rows[k], a, b);
            s.allowed = [&](std::uint32_t c, const number &x) {
                if (!l.chunks.count(c)) return true;
                number y = s.math.plain(x);
                return !y[1] && !y[2] && !y[3] && y[0] < 65536;
            };
            std::uint64_t accepted = 0;
            auto judge = [&]() {
                accepted++;
                for (auto &r : l.result) {
                    if (s.value[r.first] == s.math.from(std::uint64_t(r.second))) continue;
                    std::string key = "unsound";
                    if (o.code == zkevm_opcode::DIV) {
                        // the integers the quotient and the remainder stand for now
                        integer quotient = 0, remainder = 0;
                        for (int i = 15; i >= 0; i--) {
                            quotient = quotient * 65536 + s.math.plain(s.value[s.witness(q.column(i), rows[k] + 2)])[0];
                            remainder = remainder * 65536 + s.math.plain(s.value[s.witness(q.column(16 + i), rows[k] + 2)])[0];
                        }
                        if (quotient * b + remainder == a && b != 0 && remainder > b) key = "remainder-too-large";
                    }
                    VH_CHECK(false, key, "another result is accepted: " << s.text());
                }
            };
            s.judge = judge;
            // every cell of the opcode and of the columns that steer it
            std::vector<number> common;
            for (std::uint64_t x : {0, 1, 2, 3, 65535}) common.push_back(s.math.from(x));
            common.push_back(s.math.sub(number {}, s.math.one));
            std::set<std::uint32_t> seeds;
            for (auto &c : s.constraints) {
                for (auto x : c.cells) {
                    auto &at = s.places[x];
                    if (at.type == B::var::column_type::witness && at.row >= rows[k] && at.row < rows[k] + o.height) seeds.insert(x);
                }
            }
            for (auto c : seeds) {
                std::set<number> values(common.begin(), common.end());
                number h = s.honest[c];
                values.insert(s.math.add(h, s.math.one));
                values.insert(s.math.sub(h, s.math.one));
                values.insert(s.math.add(h, s.math.from(std::uint64_t(65536))));
                if (b != 0) {
                    for (std::size_t i = 0; i < 16; i++) values.insert(s.math.add(h, s.math.from(std::uint64_t(chunk(b, i)))));
                }
                for (auto &v : values) s.deviate(c, v, 3);
            }
            vh::count_transitions(s.visited);
            s.visited = 0;
            vh::count_states();
            // other quotients, with everything else made to fit
            if (o.code == zkevm_opcode::DIV && b != 0) {
                std::set<integer> quotients;
                integer r = a / b;
                for (int d = -3; d <= 3; d++) quotients.insert(r + d);
                for (int m = 1; m <= 3; m++) {
                    for (int d = -1; d <= 1; d++) quotients.insert((a + m * WORD) / b + d);
                }
                for (std::size_t i = 0; i < 16; i++) {
                    quotients.insert(r + (integer(1) << (16 * i)));
                    quotients.insert(r - (integer(1) << (16 * i)));
                }
                quotients.insert(0);
                quotients.insert(WORD - 1);
                for (auto &other : quotients) {
                    if (other < 0 || other >= WORD || other == r) continue;
                    integer rest = (a + WORD * WORD - other * b) % WORD;
                    VH_CASE("DIV of " << hex(a) << " and " << hex(b) << ", quotient " << hex(other) << " and remainder " << hex(rest));
                    s.value = s.honest;
                    s.moved.clear();
                    auto put = [&](std::size_t i, std::size_t row, const integer &x) {
                        auto c = s.witness(q.column(i), rows[k] + row);
                        big_field::value_type v(0);
                        for (int j = 16; j >= 0; j--) v = v * big_field::value_type(65536) + big_field::value_type(chunk(x, j));
                        s.value[c] = s.math.from(v);
                        if (s.value[c] != s.honest[c]) s.moved.push_back(c);
                    };
                    auto product = [&](std::size_t i, std::size_t j) { return part64(other, i) * part64(b, j); };
                    integer low = product(0, 0) + part64(rest, 0) + ((product(0, 1) + product(1, 0) + part64(rest, 1)) << 64);
                    integer c12 = (low - (a & (power_of_two(128) - 1))) >> 128;
                    integer high = product(0, 2) + product(1, 1) + product(2, 0) + part64(rest, 2) + c12 +
                                   ((product(0, 3) + product(1, 2) + product(2, 1) + product(3, 0) + part64(rest, 3)) << 64);
                    integer c34 = (high - (a >> 128)) >> 128;
                    for (std::size_t i = 0; i < 16; i++) {
                        put(i, 2, chunk(other, i));
                        put(16 + i, 2, chunk(rest, i));
                    }
                    for (std::size_t i = 0; i < 4; i++) {
                        put(16 + i, 0, chunk(c12, i));
                        put(16 + i, 1, chunk(c34, i));
                    }
                    put(20, 0, c12 >> 64);
                    put(20, 1, c34 >> 64);
                    bool larger = false;
                    for (int i = 15; i >= 0; i--) {
                        number d = s.math.sub(s.math.from(std::uint64_t(chunk(b, i))), s.math.from(std::uint64_t(chunk(rest, i))));
                        larger = larger || d != number {};
                        put(i, 3, larger ? 1 : 0);
                        auto c = s.witness(q.column(16 + i), rows[k] + 3);
                        s.value[c] = d == number {} ? d : s.math.inverted(d);
                        if (s.value[c] != s.honest[c]) s.moved.push_back(c);
                    }
                    if (s.violated(s.value).empty()) judge();
                    vh::count_transitions();
                    vh::count("other quotients");
                }
            }
            vh::count("accepted deviations", accepted);
            s.fixed = before;
        }
    }
    void z04() {
        vh::declare("other quotients");
        vh::declare("accepted deviations");
        auto grid = word_grid();
        vh::cfg().bounds = "all pairs of " + std::to_string(grid.size()) + " boundary words; deviations of every cell of the opcode's rows to a set of values, with up to 2 further cells repairing constraints; for division also other quotients with everything else made to fit";
        vh::cfg().assumptions = {"the 16-bit chunks are range checked elsewhere, as the code announces", "over the base field of Pallas"};
        vh::parallel(grid.size() * grid.size(), [&](std::size_t i) {
            explore_pair(grid[i / grid.size()], grid[i % grid.size()]);
            if (i % 97 == 5) vh::sample("all opcodes on " + hex(grid[i / grid.size()]) + " and " + hex(grid[i % grid.size()]));
        });
    }

    // ---------------------------------------------------------------------------------------------------- Z05
    void z05() {
        vh::declare("accepted traces");
        const std::size_t R = vh::thorough() ? 8 : 7;
        vh::cfg().bounds = "all tables of up to " + std::to_string(R) + " rows in which every row is labelled with one of 5 opcodes, a number of rows left 0..3 of its own and "
                           "one for the row selector, a start flag and a changed or kept state; all words are zero";
        vh::cfg().assumptions = {"over the base field of Pallas", "the opcode column is not tied to a bytecode yet"};
        vh::quiet no_output;
        // what the columns hold for an opcode and for a number of rows left, learnt from an honest table
        program model;
        model.machine.stack.push(to_word(0));
        model.machine.stack.push(to_word(0));
        std::vector<std::pair<std::size_t, std::size_t>> rows;    // row, opcode
        for (std::size_t k = 0; k < OPCODES.size(); k++) {
            std::size_t r = model.run(OPCODES[k]);
            for (std::size_t i = 0; i < OPCODES[k].height; i++) rows.push_back({r + i, k});
        }
        model.finish();
        auto &state = model.zk->get_state();
        std::set<std::size_t> state_columns = {state.pc.selector, state.stack_size.selector, state.memory_size.selector, state.curr_gas.selector,
                                               state.rows_until_next_op.selector, state.rows_until_next_op_inv.selector, state.step_selection.selector};
        std::set<std::size_t> opcode_columns(model.zk->get_state_selector_cols().begin(), model.zk->get_state_selector_cols().end());
        std::set<std::size_t> data_columns(model.zk->get_opcode_cols().begin(), model.zk->get_opcode_cols().end());
        typedef std::map<std::size_t, big_field::value_type> content;
        std::vector<content> of_opcode(OPCODES.size()), of_left(4);
        for (auto &r : rows) {
            std::size_t left = static_cast<std::size_t>(model.as.witness(state.rows_until_next_op.selector, r.first).data);
            content o, l;
            for (std::size_t c = 0; c < model.as.witnesses_amount(); c++) {
                if (r.first >= model.as.witness(c).size()) continue;
                auto v = model.as.witness(c, r.first);
                if (opcode_columns.count(c)) {
                    o[c] = v;
                } else if (!state_columns.count(c) && !data_columns.count(c)) {
                    l[c] = v;
                }
            }
            VH_CHECK(left < 4, "rows-left", left << " rows left");
            of_opcode[r.second] = o;
            of_left[left] = l;
        }
        // a table of R rows that are all switched on
        program q;
        q.machine.stack.push(to_word(0));
        q.machine.stack.push(to_word(0));
        for (std::size_t i = 0; i < R; i++) q.run(OPCODES[0]);
        q.finish();
        struct label {
            std::size_t opcode, left, selected;
            bool start, changed;
        };
        std::vector<label> labels;
        for (std::size_t o = 0; o < OPCODES.size(); o++) {
            for (std::size_t l = 0; l < 4; l++) {
                for (std::size_t s = 0; s < 4; s++) {
                    for (int f = 0; f < 4; f++) labels.push_back({o, l, s, bool(f & 1), bool(f & 2)});
                }
            }
        }
        struct explorer {
            vp::big::system<big_field> s;
            program &q;
            std::vector<std::vector<std::size_t>> of_row;    // constraints by the last row they read
            std::size_t R;
            std::vector<label> trace;
            explorer(program &q_, std::size_t R_) : s(q_.bp, q_.as), q(q_), R(R_) {
                of_row.assign(R + 1, {});
                for (std::size_t i = 0; i < s.constraints.size(); i++) {
                    std::size_t last = q.first_row;
                    for (auto c : s.constraints[i].cells) {
                        if (s.places[c].type == B::var::column_type::witness) last = std::max(last, s.places[c].row);
                    }
                    of_row[std::min(last - q.first_row, R)].push_back(i);
                }
                s.value = s.honest;
            }
        };
        // Is the trace, up to this row, made of whole opcodes?
        auto proper = [&](const std::vector<label> &t) {
            for (std::size_t i = 0; i < t.size(); i++) {
                bool begins = i == 0 || t[i - 1].left == 0;
                if (t[i].start != begins || t[i].selected != t[i].left) return false;
                if (begins && t[i].left != OPCODES[t[i].opcode].height - 1) return false;
                if (!begins && (t[i].left + 1 != t[i - 1].left || t[i].opcode != t[i - 1].opcode || t[i].changed)) return false;
            }
            return true;
        };
        auto text = [&](const std::vector<label> &t) {
            std::ostringstream os;
            for (auto &l : t) {
                os << OPCODES[l.opcode].name << "/" << l.left << "/" << l.selected << (l.start ? "/start" : "") << (l.changed ? "/changed" : "") << " ";
            }
            return os.str();
        };
        vh::parallel(labels.size(), [&](std::size_t job) {
            explorer e(q, R);
            auto write = [&](std::size_t row, const label &l, bool last) {
                auto put = [&](std::size_t column, const big_field::value_type &v) {
                    e.s.value[e.s.witness(column, q.first_row + row)] = e.s.math.from(v);
                };
                auto known = [&](std::size_t column) {
                    return e.s.ids.count({B::var::column_type::witness, column, q.first_row + row}) > 0;
                };
                for (auto &c : of_opcode[l.opcode]) if (known(c.first)) put(c.first, c.second);
                for (auto &c : of_left[l.selected]) if (known(c.first)) put(c.first, c.second);
                for (auto c : data_columns) if (known(c)) put(c, 0);
                if (OPCODES[l.opcode].code == zkevm_opcode::ISZERO) put(q.column(16), 1);
                big_field::value_type left(l.left);
                if (last) left = big_field::value_type(e.trace.back().left) - 1;    // the row after the table goes on as it should
                put(state.rows_until_next_op.selector, left);
                put(state.rows_until_next_op_inv.selector, left.is_zero() ? left : left.inversed());
                put(state.step_selection.selector, l.start);
                std::uint64_t era = 0;
                for (auto &x : e.trace) era += x.changed;
                for (auto c : {state.pc.selector, state.stack_size.selector, state.memory_size.selector, state.curr_gas.selector}) put(c, 100 + era);
            };
            std::function<void(std::size_t)> go = [&](std::size_t row) {
                for (std::size_t i = row == 0 ? job : 0; i < (row == 0 ? job + 1 : labels.size()); i++) {
                    e.trace.push_back(labels[i]);
                    write(row, labels[i], false);
                    vh::count_transitions();
                    bool holds = true;
                    for (auto c : e.of_row[row]) {
                        if (e.s.evaluate(e.s.constraints[c].root, e.s.value) != number {}) {
                            holds = false;
                            break;
                        }
                    }
                    bool want = proper(e.trace);
                    if (!holds && want) {
                        VH_CASE(text(e.trace));
                        VH_CHECK(false, "rejected", "a proper trace is rejected");
                    }
                    if (holds) {
                        vh::count_states();
                        if (row + 1 < R) {
                            go(row + 1);
                        } else {
                            // nothing is asked of the row after the last one
                            label after = labels[i];
                            after.start = e.trace.back().left == 0;
                            write(R, after, true);
                            std::string why = e.s.violated(e.s.value);
                            VH_CASE(text(e.trace));
                            VH_CHECK(why.empty() == want, why.empty() ? "accepted" : "rejected",
                                     (why.empty() ? "a trace that is not made of whole opcodes is accepted" : "a proper trace is rejected: ") << why);
                            if (want) {
                                vh::count("accepted traces");
                                vh::count_traces();
                            }
                        }
                    }
                    e.trace.pop_back();
                }
            };
            go(0);
            if (job % 61 == 8) vh::sample("all tables starting with " + text({labels[job]}));
        });
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"Z01", z01}, {"Z02", z02}, {"Z03", z03}, {"Z04", z04}, {"Z05", z05}});
}
