// C01: the assignment table keeps what was put in it.
// C03, C04: the circuit keeps the gates, lookups and copy constraints that were added to it.
// C05: placement of batched constants.
#include <vplonk.hpp>

#include <nil/blueprint/utils/satisfiability_check.hpp>

#include <sstream>

namespace {
    // ---------------------------------------------------------------- C01

    typedef vp::types<vp::small_field<97>> T97;

    constexpr std::size_t W = 2, PUB = 1, K = 2, SEL = 2;

    struct model {
        typedef std::map<std::size_t, std::map<std::size_t, unsigned>> columns;    // only written cells
        columns witness, pub, constant, selector, shared;
        std::map<std::size_t, unsigned> priv;
        std::vector<unsigned> batch, batch_constant;
        std::size_t written = 0;         // rows that must be counted as allocated
        std::size_t range_end = 0;       // rows that may be
        std::size_t priv_size = 0;

        static std::size_t size(const columns &c, std::size_t i) {
            auto it = c.find(i);
            return it == c.end() || it->second.empty() ? 0 : it->second.rbegin()->first + 1;
        }
        static unsigned at(const columns &c, std::size_t i, std::size_t row) {
            auto it = c.find(i);
            if (it == c.end()) return 0;
            auto jt = it->second.find(row);
            return jt == it->second.end() ? 0 : jt->second;
        }
        static std::size_t most(const columns &c) {
            std::size_t r = 0;
            for (auto &x : c) r = std::max(r, size(c, x.first));
            return r;
        }
    };

    struct operation {
        std::string name;
        std::function<void(T97::assignment &, model &, unsigned)> run;
    };

    std::vector<operation> table_operations() {
        std::vector<operation> ops;
        auto put = [](model::columns &c, std::size_t i, std::size_t row, unsigned v) { c[i][row] = v; };
        for (std::size_t c = 0; c < W; c++) {
            for (std::size_t row : {0, 2}) {
                ops.push_back({"witness(" + std::to_string(c) + "," + std::to_string(row) + ")=v",
                               [=](T97::assignment &a, model &m, unsigned v) {
                                   a.witness(c, row) = v;
                                   put(m.witness, c, row, v);
                                   m.written = std::max(m.written, row + 1);
                               }});
            }
        }
        for (std::size_t row : {0, 1}) {
            ops.push_back({"public_input(0," + std::to_string(row) + ")=v",
                           [=](T97::assignment &a, model &m, unsigned v) {
                               a.public_input(0, row) = v;
                               put(m.pub, 0, row, v);
                           }});
            ops.push_back({"shared(0," + std::to_string(row) + ")=v", [=](T97::assignment &a, model &m, unsigned v) {
                               a.shared(0, row) = v;
                               put(m.shared, 0, row, v);
                           }});
        }
        for (std::size_t c = 0; c < K; c++) {
            for (std::size_t row : {0, 3}) {
                ops.push_back({"constant(" + std::to_string(c) + "," + std::to_string(row) + ")=v",
                               [=](T97::assignment &a, model &m, unsigned v) {
                                   a.constant(c, row) = v;
                                   put(m.constant, c, row, v);
                                   m.written = std::max(m.written, row + 1);
                               }});
            }
        }
        ops.push_back({"fill_constant(1,{v,0})", [=](T97::assignment &a, model &m, unsigned v) {
                           a.fill_constant(1, {v, 0});
                           m.constant[1].clear();
                           put(m.constant, 1, 0, v);
                           put(m.constant, 1, 1, 0);
                       }});
        ops.push_back({"fill_selector(0,{0,1,1})", [=](T97::assignment &a, model &m, unsigned v) {
                           a.fill_selector(0, {0, 1, 1});
                           m.selector[0].clear();
                           put(m.selector, 0, 0, 0);
                           put(m.selector, 0, 1, 1);
                           put(m.selector, 0, 2, 1);
                       }});
        for (std::size_t s = 0; s < SEL; s++) {
            for (std::size_t row : {0, 2}) {
                ops.push_back({"enable_selector(" + std::to_string(s) + "," + std::to_string(row) + ")",
                               [=](T97::assignment &a, model &m, unsigned) {
                                   a.enable_selector(s, row);
                                   put(m.selector, s, row, 1);
                                   m.written = std::max(m.written, row + 1);
                               }});
            }
        }
        struct span {
            std::size_t begin, end, step;
        };
        for (span r : {span {0, 3, 1}, span {1, 4, 2}, span {2, 1, 1}, span {1, 1, 3}, span {0, 5, 5}}) {
            ops.push_back({"enable_selector(1," + std::to_string(r.begin) + ".." + std::to_string(r.end) + " step " +
                               std::to_string(r.step) + ")",
                           [=](T97::assignment &a, model &m, unsigned) {
                               if (r.step == 1) {
                                   a.enable_selector(1, r.begin, r.end);
                               } else {
                                   a.enable_selector(1, r.begin, r.end, r.step);
                               }
                               for (std::size_t row = r.begin; row <= r.end; row += r.step) {
                                   put(m.selector, 1, row, 1);
                                   m.written = std::max(m.written, row + 1);
                               }
                               m.range_end = std::max(m.range_end, r.end + 1);
                           }});
        }
        for (std::size_t i : {0, 2}) {
            ops.push_back({"private_storage(" + std::to_string(i) + ")=v",
                           [=](T97::assignment &a, model &m, unsigned v) {
                               a.private_storage(i) = v;
                               m.priv[i] = v;
                               m.priv_size = std::max(m.priv_size, i + 1);
                           }});
        }
        ops.push_back({"clear_private_storage", [=](T97::assignment &a, model &m, unsigned) {
                           a.clear_private_storage();
                           m.priv.clear();
                           m.priv_size = 0;
                       }});
        ops.push_back({"resize_private_storage(2)", [=](T97::assignment &a, model &m, unsigned) {
                           a.resize_private_storage(2);
                           m.priv.erase(m.priv.lower_bound(2), m.priv.end());
                           m.priv_size = 2;
                       }});
        ops.push_back({"add_batch_variable(v)", [=](T97::assignment &a, model &m, unsigned v) {
                           auto x = a.add_batch_variable(v);
                           m.batch.push_back(v);
                           VH_CHECK(nil::blueprint::var_value<T97::field>(a, x) == T97::value(v), "batch-variable",
                                    "a batched variable does not have the value it was made with");
                       }});
        for (unsigned v : {7u, 8u}) {
            ops.push_back({"add_batch_constant_variable(" + std::to_string(v) + ")",
                           [=](T97::assignment &a, model &m, unsigned) {
                               auto x = a.add_batch_constant_variable(v);
                               VH_CHECK(nil::blueprint::var_value<T97::field>(a, x) == T97::value(v), "batch-constant",
                                        "a batched constant does not have the value it was made with");
                               auto again = a.add_batch_constant_variable(v);
                               VH_CHECK(again == x, "batch-constant-twice", "equal batched constants are kept twice");
                               if (std::find(m.batch_constant.begin(), m.batch_constant.end(), v) == m.batch_constant.end()) {
                                   m.batch_constant.push_back(v);
                               }
                           }});
        }
        return ops;
    }

    std::string expected_export(const model &m, bool wide) {
        std::ostringstream os;
        std::size_t rows = std::max({model::most(m.witness), model::most(m.pub), model::most(m.constant), model::most(m.selector)});
        auto hex = [&](unsigned v, bool fixed) {
            std::ostringstream h;
            h << std::hex << v;
            std::string s = h.str();
            std::size_t width = fixed && wide ? (T97::field::modulus_bits + 3) / 4 : 0;
            while (s.size() < width) s = "0" + s;
            os << s << " ";
        };
        os << "witnesses_size: " << W << " public_inputs_size: " << PUB << " constants_size: " << K << " selectors_size: " << SEL
           << " max_size: " << rows << "\n";
        for (std::size_t row = 0; row < rows; row++) {
            for (std::size_t i = 0; i < W; i++) hex(model::at(m.witness, i, row), true);
            os << "| ";
            for (std::size_t i = 0; i < PUB; i++) hex(model::at(m.pub, i, row), true);
            os << "| ";
            for (std::size_t i = 0; i < K; i++) hex(model::at(m.constant, i, row), true);
            os << "| ";
            for (std::size_t i = 0; i < SEL; i++) hex(model::at(m.selector, i, row), false);
            os << "\n";
        }
        return os.str();
    }

    void compare_table(const T97::assignment &a, const model &m) {
        typedef T97 T;
        auto column = [&](const char *what, const model::columns &c, std::size_t i, const auto &real, std::size_t size) {
            VH_CHECK(size == model::size(c, i) && real.size() == size, "size",
                     what << " column " << i << " has " << size << " rows instead of " << model::size(c, i));
            for (std::size_t row = 0; row < size; row++) {
                VH_CHECK(real[row] == T::value(model::at(c, i, row)), "cell",
                         what << " " << i << " row " << row << " holds " << vp::small(real[row]) << " instead of "
                              << model::at(c, i, row));
            }
        };
        VH_CHECK(a.witnesses_amount() == W && a.public_inputs_amount() == PUB && a.constants_amount() == K &&
                     a.selectors_amount() == SEL,
                 "columns", "the number of columns changed");
        for (std::size_t i = 0; i < W; i++) {
            column("witness", m.witness, i, a.witness(i), a.witness_column_size(i));
        }
        for (std::size_t i = 0; i < PUB; i++) {
            column("public input", m.pub, i, a.public_input(i), a.public_input_column_size(i));
        }
        for (std::size_t i = 0; i < K; i++) {
            column("constant", m.constant, i, a.constant(i), a.constant_column_size(i));
        }
        for (std::size_t i = 0; i < SEL; i++) {
            column("selector", m.selector, i, a.selector(i), a.selector_column_size(i));
        }
        column("shared", m.shared, 0, a.shared(0), a.shared_column_size(0));
        for (std::size_t i = 0; i < W; i++) {
            for (std::size_t row = 0; row < model::size(m.witness, i); row++) {
                VH_CHECK(nil::blueprint::var_value<T::field>(a, T::w(i, row)) == T::value(model::at(m.witness, i, row)),
                         "variable", "the variable of witness " << i << " row " << row << " reads wrong");
                VH_CHECK(a.witness(i, row) == T::value(model::at(m.witness, i, row)), "cell", "witness cell reads wrong");
            }
        }
        for (std::size_t i = 0; i < K; i++) {
            for (std::size_t row = 0; row < model::size(m.constant, i); row++) {
                VH_CHECK(nil::blueprint::var_value<T::field>(a, T::k(i, row)) == T::value(model::at(m.constant, i, row)),
                         "variable", "the variable of constant " << i << " row " << row << " reads wrong");
                VH_CHECK(a.constant(i, row) == T::value(model::at(m.constant, i, row)), "cell", "constant cell reads wrong");
            }
        }
        for (std::size_t row = 0; row < model::size(m.pub, 0); row++) {
            VH_CHECK(nil::blueprint::var_value<T::field>(a, T::pub(0, row)) == T::value(model::at(m.pub, 0, row)),
                     "variable", "the variable of public input row " << row << " reads wrong");
            VH_CHECK(a.public_input(0, row) == T::value(model::at(m.pub, 0, row)), "cell", "public input cell reads wrong");
        }
        for (std::size_t row = 0; row < model::size(m.shared, 0); row++) {
            VH_CHECK(nil::blueprint::var_value<T::field>(a, T::pub(1, row)) == T::value(model::at(m.shared, 0, row)),
                     "variable", "the variable of shared row " << row << " reads wrong");
        }
        for (std::size_t i = 0; i < SEL; i++) {
            for (std::size_t row = 0; row < model::size(m.selector, i); row++) {
                VH_CHECK(a.selector(i, row) == T::value(model::at(m.selector, i, row)), "cell", "selector cell reads wrong");
            }
        }
        VH_CHECK(a.private_storage_size() == m.priv_size, "private-size", "private storage has the wrong size");
        for (std::size_t i = 0; i < m.priv_size; i++) {
            auto it = m.priv.find(i);
            T::value want = it == m.priv.end() ? 0 : it->second;
            auto x = T::var(T::assignment::private_storage_index, i, false, T::var::column_type::public_input);
            VH_CHECK(a.private_storage(i) == want && nil::blueprint::var_value<T::field>(a, x) == want, "private",
                     "private storage " << i << " reads wrong");
        }
        VH_CHECK(a.batch_private_storage_size() == m.batch.size(), "batch-size", "wrong number of batched variables");
        for (std::size_t i = 0; i < m.batch.size(); i++) {
            auto x = T::var(T::assignment::batch_private_storage_index, i, false, T::var::column_type::public_input);
            VH_CHECK(nil::blueprint::var_value<T::field>(a, x) == T::value(m.batch[i]), "batch", "a batched variable changed");
        }
        for (std::size_t i = 0; i < m.batch_constant.size(); i++) {
            auto x = T::var(T::assignment::batch_constant_storage_index, i, false, T::var::column_type::constant);
            VH_CHECK(nil::blueprint::var_value<T::field>(a, x) == T::value(m.batch_constant[i]), "batch-constant",
                     "a batched constant changed");
        }
        VH_CHECK(a.max_witnesses_size() == model::most(m.witness) && a.max_public_inputs_size() == model::most(m.pub) &&
                     a.max_constants_size() == model::most(m.constant) && a.max_selectors_size() == model::most(m.selector) &&
                     a.max_size() == std::max({model::most(m.witness), model::most(m.pub), model::most(m.constant),
                                               model::most(m.selector)}),
                 "max-size", "the announced size of the table is not that of its longest column");
        VH_CHECK(a.allocated_rows() >= m.written && a.allocated_rows() <= std::max(m.written, m.range_end), "allocated",
                 "allocated rows: " << a.allocated_rows() << ", rows written: " << m.written);
    }

    void table_keeps_values() {
        auto ops = table_operations();
        const std::size_t depth = vh::thorough() ? 5 : 4, n = ops.size();
        vh::cfg().bounds = "all sequences of at most " + std::to_string(depth) + " of " + std::to_string(n) +
                           " operations on a table of 2 witness, 1 public input, 2 constant and 2 selector columns; rows 0 to 5";
        vh::declare("exports_compared");
        vh::declare("prefixes");
        vh::parallel(n * n, [&](std::size_t item) {
            std::size_t first = item / n, second = item % n;
            std::function<void(const std::vector<std::size_t> &)> visit = [&](const std::vector<std::size_t> &seq) {
                VH_CASE([&] {
                    std::string s;
                    for (auto i : seq) s += ops[i].name + "; ";
                    return s;
                }());
                T97::assignment a(W, PUB, K, SEL);
                model m;
                for (std::size_t i = 0; i < seq.size(); i++) {
                    ops[seq[i]].run(a, m, 10 + i);
                }
                vh::count_transitions(seq.size());
                compare_table(a, m);
                if (seq.size() <= 3) {
                    for (bool wide : {false, true}) {
                        std::ostringstream os;
                        a.export_table(os, wide);
                        VH_CHECK(os.str() == expected_export(m, wide), "export",
                                 "the exported table is\n" << os.str() << "instead of\n" << expected_export(m, wide));
                        vh::count("exports_compared");
                    }
                }
                vh::count_states();
                if (seq.size() < depth) {
                    vh::count("prefixes");
                    for (std::size_t i = 0; i < n; i++) {
                        auto next = seq;
                        next.push_back(i);
                        visit(next);
                    }
                } else {
                    vh::count_traces();
                }
            };
            visit({first, second});
        });
    }

    // ---------------------------------------------------------------- C03, C04

    // Gates are told apart by their values at two random points, so this uses a field in which
    // different constraints practically never agree there.
    typedef vp::types<vp::small_field<2305843009213693951ull>> TB;
    typedef vp::polynomial<TB::field> poly;

    struct written_constraint {
        std::string text;
        TB::constraint constraint;
    };

    // Several spellings of the same polynomials next to slightly different ones.
    std::vector<written_constraint> spellings() {
        typedef TB::constraint C;
        auto a = TB::wr(0, 0), b = TB::wr(1, 0), next = TB::wr(0, 1), prev = TB::wr(0, -1), far = TB::wr(0, 2),
             back = TB::wr(0, -2), k = TB::kr(0, 0), k1 = TB::kr(0, 1), sel = TB::var(0, 0, true, TB::var::column_type::selector);
        TB::value two = 2, three = 3;
        return {
            {"a+b", C(a + b)},
            {"b+a", C(b + a)},
            {"a-b", C(a - b)},
            {"b-a", C(b - a)},
            {"2a", C(two * a)},
            {"a+a", C(a + a)},
            {"a*a", C(a * a)},
            {"a^2", C(a.pow(2))},
            {"a^3", C(a.pow(3))},
            {"(a+b)^2", C((a + b).pow(2))},
            {"a*a+2ab+b*b", C(a * a + two * a * b + b * b)},
            {"a*b", C(a * b)},
            {"a*(b+k)", C(a * (b + k))},
            {"a*b+a*k", C(a * b + a * k)},
            {"a", C(a)},
            {"b", C(b)},
            {"a+1", C(a + TB::value(1))},
            {"next", C(next)},
            {"prev", C(prev)},
            {"far", C(far)},
            {"back", C(back)},
            {"k", C(k)},
            {"k1", C(k1)},
            {"sel", C(sel)},
            {"a-a", C(a - a)},
            {"a+3", C(a + three)},
        };
    }

    struct listing {
        std::string text;
        std::vector<TB::constraint> constraints;
        std::vector<poly> polys;         // sorted, as added
        std::set<poly> meaning;          // what is enforced: neither zero nor repeated, leading coefficient one
    };

    poly monic(const poly &p) {
        poly r;
        auto inverse = p.terms.begin()->second.inversed();
        for (auto &t : p.terms) r.add(t.first, t.second * inverse);
        return r;
    }

    std::vector<listing> listings(std::size_t longest) {
        auto all = spellings();
        std::vector<listing> out;
        std::function<void(std::vector<std::size_t> &)> go = [&](std::vector<std::size_t> &ids) {
            listing l;
            for (auto i : ids) {
                l.text += (l.text.empty() ? "" : ", ") + all[i].text;
                l.constraints.push_back(all[i].constraint);
                auto p = vp::expand<TB::field>(all[i].constraint);
                l.polys.push_back(p);
                if (!p.terms.empty()) l.meaning.insert(monic(p));
            }
            l.text = "{" + l.text + "}";
            std::sort(l.polys.begin(), l.polys.end());
            out.push_back(l);
            if (ids.size() < longest) {
                for (std::size_t i = 0; i < all.size(); i++) {
                    if (ids.size() >= 2 && i >= 8) break;
                    ids.push_back(i);
                    go(ids);
                    ids.pop_back();
                }
            }
        };
        std::vector<std::size_t> none;
        go(none);
        return out;
    }

    // The gate with this selector holds exactly these constraints.
    void gate_is(const TB::circuit &bp, std::size_t selector, const listing &l) {
        std::size_t found = 0;
        for (auto &g : bp.gates()) {
            if (g.selector_index != selector) continue;
            found++;
            std::set<poly> have;
            for (auto &c : g.constraints) {
                auto p = vp::expand<TB::field>(c);
                if (!p.terms.empty()) have.insert(monic(p));
            }
            VH_CHECK(have == l.meaning, "gate-content", "the gate behind the selector given for " << l.text << " holds other constraints");
        }
        VH_CHECK(found == 1, "gate-count", found << " gates behind the selector given for " << l.text);
    }

    void gates_shared_iff_equal() {
        auto all = listings(vh::thorough() ? 3 : 2);
        vh::cfg().bounds = "all ordered pairs of " + std::to_string(all.size()) + " lists of at most " +
                           (vh::thorough() ? "3" : "2") +
                           " constraints from 26 spellings; rotations -2 to 2; then every sequence of 3 out of 24 gates, "
                           "lookup gates and table selectors";
        vh::declare("pairs_sharing_a_selector");
        vh::parallel(all.size(), [&](std::size_t i) {
            // One circuit receives the first list and then all the others, one copy each time.
            const auto &A = all[i];
            for (auto &B : all) {
                VH_CASE("add_gate(" << A.text << "), add_gate(" << B.text << ")");
                TB::circuit bp;
                std::size_t sa = bp.add_gate(A.constraints);
                std::size_t sb = B.constraints.size() == 1 ? bp.add_gate(B.constraints[0]) : bp.add_gate(B.constraints);
                vh::count_transitions(2);
                vh::count_states(sa == sb ? 1 : 2);
                if (A.polys == B.polys) {
                    VH_CHECK(sa == sb, "not-shared", "the same constraints get selectors " << sa << " and " << sb);
                    VH_CHECK(bp.num_gates() == 1 && bp.gates().size() == 1, "twice", "the same gate is kept twice");
                }
                if (sa == sb) {
                    VH_CHECK(A.meaning == B.meaning, "lost", "different constraints share selector " << sa);
                    vh::count("pairs_sharing_a_selector");
                } else {
                    VH_CHECK(bp.gates().size() == 2, "number", bp.gates().size() << " gates after two different ones were added");
                }
                gate_is(bp, sa, A);
                gate_is(bp, sb, B);
                VH_CHECK(bp.get_next_selector_index() > std::max(sa, sb), "next-selector", "the next selector is taken already");
                vh::count_traces();
            }
        });

        // Histories that mix the kinds of gates; the selectors of all of them live in one space.
        typedef TB::constraint C;
        typedef TB::lookup_constraint L;
        auto a = TB::wr(0, 0), b = TB::wr(1, 0);
        auto zero = C(a - a);
        struct step {
            std::string text;
            bool lookup;
            std::vector<C> gate;
            std::vector<L> lookups;
        };
        std::vector<step> steps = {
            {"gate a", false, {C(a)}, {}},
            {"gate b", false, {C(b)}, {}},
            {"gate a,b", false, {C(a), C(b)}, {}},
            {"gate b,a", false, {C(b), C(a)}, {}},
            {"lookup 1:a", true, {}, {L(1, {C(a)})}},
            {"lookup 2:a", true, {}, {L(2, {C(a)})}},
            {"lookup 1:b", true, {}, {L(1, {C(b)})}},
            {"lookup 1:a,b", true, {}, {L(1, {C(a), C(b)})}},
            {"lookup 1:b,a", true, {}, {L(1, {C(b), C(a)})}},
            {"lookup 1:a and 2:a", true, {}, {L(1, {C(a)}), L(2, {C(a)})}},
            {"lookup 2:a and 1:a", true, {}, {L(2, {C(a)}), L(1, {C(a)})}},
            {"lookup 1:0", true, {}, {L(1, {zero})}},
            {"lookup 2:0", true, {}, {L(2, {zero})}},
            {"lookup 3:0,0", true, {}, {L(3, {zero, zero})}},
            {"lookup 1:0 and 2:0", true, {}, {L(1, {zero}), L(2, {zero})}},
            {"lookup 1:7", true, {}, {L(1, {C(TB::value(7))})}},
            {"lookup 1:a+b,a", true, {}, {L(1, {C(a + b), C(a)})}},
            {"lookup 1:b+a,a", true, {}, {L(1, {C(b + a), C(a)})}},
            {"lookup 25:a", true, {}, {L(25, {C(a)})}},
            {"lookup 25:0", true, {}, {L(25, {zero})}},
            {"lookup 1:a, with rotation 1", true, {}, {L(1, {C(TB::wr(0, 1))})}},
            {"gate a as given selector", false, {}, {}},
            {"table selector", false, {}, {}},
            {"lookup at a new table selector", true, {}, {}},
        };
        typedef std::vector<std::pair<std::size_t, std::vector<poly>>> lookup_meaning;
        auto meaning = [&](const std::vector<L> &ls) {
            lookup_meaning m;
            for (auto &l : ls) {
                std::vector<poly> in;
                for (auto &c : l.lookup_input) in.push_back(vp::expand<TB::field>(c));
                m.push_back({l.table_id, in});
            }
            std::sort(m.begin(), m.end());
            return m;
        };
        std::size_t n = steps.size();
        vh::parallel(n * n, [&](std::size_t item) {
            for (std::size_t third = 0; third < n; third++) {
                std::vector<std::size_t> seq = {item / n, item % n, third, item / n};
                VH_CASE(steps[seq[0]].text << "; " << steps[seq[1]].text << "; " << steps[seq[2]].text << "; "
                                           << steps[seq[3]].text);
                TB::circuit bp;
                std::vector<std::size_t> given;
                std::map<std::vector<poly>, std::size_t> gates;
                std::map<lookup_meaning, std::size_t> lookups;
                std::set<std::size_t> taken;
                std::size_t plain = 0, looked = 0;
                auto fresh = [&](std::size_t s, const std::string &what) {
                    VH_CHECK(taken.insert(s).second, "taken", "selector " << s << " given for " << what << " is in use already");
                };
                for (auto i : seq) {
                    auto &st = steps[i];
                    if (st.text == "table selector") {
                        fresh(bp.get_dynamic_lookup_table_selector(), st.text);
                    } else if (st.text == "gate a as given selector") {
                        std::size_t s = bp.get_dynamic_lookup_table_selector();
                        fresh(s, st.text);
                        VH_CHECK(bp.add_gate(s, std::vector<C> {C(a)}) == s, "explicit", "the selector is not the requested one");
                        plain++;
                    } else if (st.text == "lookup at a new table selector") {
                        std::size_t s = bp.get_dynamic_lookup_table_selector();
                        fresh(s, st.text);
                        VH_CHECK(bp.add_lookup_gate(s, std::vector<L> {L(1, {C(a)})}) == s, "explicit",
                                 "the selector is not the requested one");
                        looked++;
                    } else if (!st.lookup) {
                        std::vector<poly> key;
                        for (auto &c : st.gate) key.push_back(vp::expand<TB::field>(c));
                        std::sort(key.begin(), key.end());
                        std::size_t s = bp.add_gate(st.gate);
                        if (gates.count(key)) {
                            VH_CHECK(gates[key] == s, "not-shared", "a repeated gate got another selector");
                        } else {
                            fresh(s, st.text);
                            gates[key] = s;
                            plain++;
                        }
                    } else {
                        auto key = meaning(st.lookups);
                        std::size_t s = st.lookups.size() == 1 && given.size() % 2 ? bp.add_lookup_gate(st.lookups[0]) :
                                                                                      bp.add_lookup_gate(st.lookups);
                        if (lookups.count(key)) {
                            VH_CHECK(lookups[key] == s, "not-shared", "a repeated lookup gate got another selector");
                        } else {
                            fresh(s, st.text);
                            lookups[key] = s;
                            looked++;
                        }
                        bool found = false;
                        for (auto &g : bp.lookup_gates()) {
                            if (g.tag_index == s) {
                                VH_CHECK(meaning(g.constraints) == key, "lookup-content", "the lookup gate holds something else");
                                found = true;
                            }
                        }
                        VH_CHECK(found, "lookup-lost", "no lookup gate behind the selector");
                    }
                    given.push_back(i);
                    vh::count_transitions();
                    vh::count_states();
                    VH_CHECK(bp.num_gates() == plain && bp.gates().size() == plain && bp.num_lookup_gates() == looked &&
                                 bp.lookup_gates().size() == looked,
                             "number", bp.num_gates() << " gates and " << bp.num_lookup_gates() << " lookup gates instead of "
                                                      << plain << " and " << looked);
                    for (auto s : taken) {
                        VH_CHECK(bp.get_next_selector_index() > s, "next-selector", "the next selector is taken already");
                    }
                }
                vh::count_traces();
            }
        });
    }

    void copy_constraints_kept() {
        typedef TB T;
        const std::size_t PRIV = T::assignment::private_storage_index, BATCH = T::assignment::batch_private_storage_index,
                          BATCHK = T::assignment::batch_constant_storage_index;
        std::vector<T::var> vars = {T::w(0, 0),
                                    T::w(0, 1),
                                    T::w(1, 0),
                                    T::k(0, 0),
                                    T::k(0, 1),
                                    T::pub(0, 0),
                                    T::pub(1, 0),
                                    T::var(PRIV, 0, false, T::var::column_type::public_input),
                                    T::var(PRIV, 1, false, T::var::column_type::public_input),
                                    T::var(BATCH, 0, false, T::var::column_type::public_input),
                                    T::var(BATCHK, 0, false, T::var::column_type::constant)};
        std::size_t n = vars.size();
        vh::cfg().bounds = "all sequences of 3 copy constraints over 11 cells of every kind";
        vh::parallel(n * n, [&](std::size_t item) {
            for (std::size_t j = 0; j < n * n; j++) {
                for (std::size_t k = 0; k < n * n; k++) {
                    std::vector<std::pair<std::size_t, std::size_t>> seq = {
                        {item / n, item % n}, {j / n, j % n}, {k / n, k % n}};
                    VH_CASE([&] {
                        std::ostringstream s;
                        for (auto &x : seq) s << vars[x.first] << "=" << vars[x.second] << " ";
                        return s.str();
                    }());
                    T::circuit bp;
                    std::vector<std::pair<T::var, T::var>> want;
                    for (auto &x : seq) {
                        auto u = vars[x.first], v = vars[x.second];
                        bp.add_copy_constraint({u, v});
                        vh::count_transitions();
                        // A cell equals itself, and private storage is not part of the table.
                        if (u != v && u.index != PRIV && v.index != PRIV) {
                            want.push_back({u, v});
                            vh::count_states();
                        }
                    }
                    // Order and direction carry no meaning, repetitions neither.
                    std::set<std::set<T::var>> have_set, want_set;
                    for (auto &c : bp.copy_constraints()) have_set.insert({c.first, c.second});
                    for (auto &c : want) want_set.insert({c.first, c.second});
                    VH_CHECK(have_set == want_set, "copies",
                             bp.copy_constraints().size() << " copy constraints are kept instead of " << want.size());
                    VH_CHECK(bp.copy_constraints().size() <= seq.size(), "more", "more copy constraints than were added");
                    vh::count_traces();
                }
            }
        });
    }

    // ---------------------------------------------------------------- C05

    struct constant_case {
        std::size_t rows;                       // of the constant column before
        int gate_rotation, lookup_rotation;     // 9: absent
        unsigned gate_rows, lookup_rows;        // where the selectors are on
        unsigned copies;                        // which rows of the column are copied from
        std::size_t start, batched, column;
    };

    void check_constant_case(const constant_case &c, const std::string &text) {
        typedef T97 T;
        VH_CASE(text);
        T::circuit bp;
        T::assignment as(2, 1, 2, 4);
        const std::size_t table_rows = 5;
        for (std::size_t row = 0; row < c.rows; row++) {
            as.constant(c.column, row) = 20 + row;
        }
        as.constant(1 - c.column, 1) = 50;
        std::set<std::size_t> needed;    // rows of the column that something reads
        auto need = [&](long row) {
            if (row >= 0 && row < static_cast<long>(c.rows)) needed.insert(row);
        };
        if (c.gate_rotation != 9) {
            std::size_t s = bp.add_gate(T::constraint(T::wr(0, 0) - T::kr(c.column, c.gate_rotation) * T::wr(1, 0)));
            for (std::size_t row = 0; row < table_rows; row++) {
                if (c.gate_rows >> row & 1) {
                    as.enable_selector(s, row);
                    need(static_cast<long>(row) + c.gate_rotation);
                }
            }
        }
        if (c.lookup_rotation != 9) {
            std::size_t s = bp.add_lookup_gate(T::lookup_constraint(
                1, {T::constraint(T::wr(0, 0)), T::constraint(T::wr(1, 0) + T::kr(c.column, c.lookup_rotation))}));
            for (std::size_t row = 0; row < table_rows; row++) {
                if (c.lookup_rows >> row & 1) {
                    as.enable_selector(s, row);
                    need(static_cast<long>(row) + c.lookup_rotation);
                }
            }
        }
        std::vector<std::pair<T::var, T::var>> before;
        auto copy = [&](const T::var &a, const T::var &b) {
            bp.add_copy_constraint({a, b});
            before.push_back({a, b});
        };
        for (std::size_t row = 0; row < c.rows; row++) {
            if (c.copies >> row & 1) {
                copy(T::w(0, row), T::k(c.column, row));
                need(row);
            }
        }
        copy(T::k(1 - c.column, 1), T::w(1, 1));
        std::vector<T::var> batch;
        for (std::size_t i = 0; i < c.batched; i++) {
            batch.push_back(as.add_batch_constant_variable(70 + i));
            if (i % 2) {
                copy(T::w(1, i), batch[i]);
            } else {
                copy(batch[i], T::w(1, i));
            }
            copy(T::w(0, 4), batch[i]);
        }
        std::size_t ret = as.finalize_constant_batches(bp, c.column, c.start);
        vh::count_transitions(1 + before.size() + c.batched);
        for (std::size_t row = 0; row < c.rows; row++) {
            if (needed.count(row) || row < c.start) {
                VH_CHECK(as.constant(c.column, row) == T::value(20 + row), "overwritten",
                         "the constant of row " << row << ", which is in use, became " << vp::small(as.constant(c.column, row)));
            }
        }
        VH_CHECK(as.constant(1 - c.column, 1) == T::value(50) && as.constant_column_size(1 - c.column) == 2, "other-column",
                 "another constant column changed");
        auto &after = bp.copy_constraints();
        VH_CHECK(after.size() == before.size(), "copies", "the number of copy constraints changed");
        std::map<std::size_t, std::size_t> placed;    // batched constant -> row
        for (std::size_t i = 0; i < after.size(); i++) {
            for (int side = 0; side < 2; side++) {
                auto was = side ? before[i].second : before[i].first;
                auto is = side ? after[i].second : after[i].first;
                if (was.index != T::assignment::batch_constant_storage_index) {
                    VH_CHECK(was == is, "copy-changed", "a copy constraint that has nothing to do with batching changed");
                    continue;
                }
                std::size_t id = was.rotation;
                VH_CHECK(is.type == T::var::column_type::constant && is.index == c.column && !is.relative, "not-placed",
                         "a batched constant ended up in " << is);
                VH_CHECK(as.constant(c.column, is.rotation) == T::value(70 + id), "wrong-value",
                         "batched constant " << 70 + id << " is read from row " << is.rotation << " which holds "
                                             << vp::small(as.constant(c.column, is.rotation)));
                VH_CHECK(is.rotation >= static_cast<int>(c.start), "too-early", "a batched constant is placed before the start row");
                if (placed.count(id)) {
                    VH_CHECK(placed[id] == static_cast<std::size_t>(is.rotation), "twice", "one constant is read from two rows");
                }
                placed[id] = is.rotation;
            }
        }
        VH_CHECK(placed.size() == c.batched, "lost", placed.size() << " of " << c.batched << " batched constants placed");
        std::set<std::size_t> rows;
        for (auto &p : placed) {
            VH_CHECK(rows.insert(p.second).second, "same-cell", "two batched constants share a row");
            VH_CHECK(p.second < ret, "end", "a batched constant is placed in row " << p.second << ", past the reported end " << ret);
        }
        VH_CHECK(ret >= c.start, "end", "the reported end " << ret << " is before the start row");
        vh::count_states(c.batched ? 2 : 1);    // before and after
        vh::count_traces();
        vh::count("constants_placed", c.batched);
    }

    void constants_placed() {
        vh::declare("constants_placed");
        std::vector<std::pair<int, unsigned>> uses = {{9, 0}};
        for (int rotation : {-1, 0, 1}) {
            for (unsigned rows : {1u, 2u, 4u, 8u, 16u, 3u, 6u, 12u, 10u, 31u}) {
                uses.push_back({rotation, rows});
            }
        }
        vh::cfg().bounds =
            "constant columns of 0 to 5 rows; a gate and a lookup each absent or reading the column at rotation -1, 0 or 1 on one of 10 "
            "sets of rows; every set of rows copied from; start rows 1 to 3; 0 to 3 batched constants; both columns";
        vh::parallel(uses.size() * uses.size(), [&](std::size_t item) {
            auto g = uses[item / uses.size()], l = uses[item % uses.size()];
            for (std::size_t rows = 0; rows <= 5; rows++) {
                for (unsigned copies = 0; copies < (1u << rows); copies++) {
                    for (std::size_t start = 1; start <= 3; start++) {
                        for (std::size_t batched = 0; batched <= 3; batched++) {
                            for (std::size_t column = 0; column < 2; column++) {
                                constant_case c = {rows, g.first, l.first, g.second, l.second, copies, start, batched, column};
                                std::ostringstream s;
                                s << "constant column " << column << " of " << rows << " rows, gate at rotation " << g.first
                                  << " on rows mask " << g.second << ", lookup at rotation " << l.first << " on rows mask "
                                  << l.second << ", copies mask " << copies << ", start row " << start << ", " << batched
                                  << " batched constants (rotation 9: absent)";
                                check_constant_case(c, s.str());
                            }
                        }
                    }
                }
            }
        });
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv,
                   {{"C01", table_keeps_values},
                    {"C03", gates_shared_iff_equal},
                    {"C04", copy_constraints_kept},
                    {"C05", constants_placed}});
}
