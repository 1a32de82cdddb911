// G01: components refuse configurations they do not support. G02: announcements do not depend on history. G03: merged announcements cover the gates of a composition.
#include <vcomponent.hpp>

#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division_or_zero.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_and_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_or_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_unchecked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/logic_ops.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/range_check.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/subtraction.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/additions.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/multiplications.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f1_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/f3_loop.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/detail/gate_component.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_lin_inter.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp>
#include <nil/blueprint/zkevm/state_selector.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/permutation_argument_verifier.hpp>

#include <numeric>

#include <sys/wait.h>
#include <unistd.h>

namespace {
    namespace bc = nil::blueprint::components;
    typedef vp::small_field<2305843009213693951ull> F;
    typedef vp::types<F> T;
    typedef T::var var;
    typedef std::vector<var> V;
    typedef vp::snark::plonk_constraint_system<F> AT;
    typedef nil::blueprint::basic_non_native_policy<F> policy;
    using nil::blueprint::gate_manifest;

    // A component class with parameters and a number of columns.
    struct config {
        std::string text;
        std::function<std::string()> announced;    // everything the class answers about these parameters
        std::function<gate_manifest()> gates;
        std::function<std::size_t()> rows;
        std::function<void(T::circuit &, T::assignment &, std::size_t row)> place;
        std::function<bool(std::size_t columns)> admits;                          // exactly this number of columns
        std::function<bool()> needs_constant;
        std::function<void(std::size_t columns, std::size_t constants)> construct;
        std::size_t most = 1000;    // columns it says it can be given; more break an assertion
    };
    std::vector<config> configs;

    V inputs(std::size_t n) {
        V v;
        for (std::size_t i = 0; i < n; i++) v.push_back(T::pub(0, i));
        return v;
    }

    // Runs `f` in a process of its own, in which nothing was asked before.
    std::string alone(const std::function<std::string()> &f) {
        int fd[2];
        if (pipe(fd)) throw std::runtime_error("pipe");
        pid_t pid = fork();
        if (pid == 0) {
            std::string s = f();
            std::size_t done = 0;
            while (done < s.size()) {
                ssize_t n = write(fd[1], s.data() + done, s.size() - done);
                if (n <= 0) _exit(1);
                done += n;
            }
            _exit(0);
        }
        close(fd[1]);
        std::string out;
        char buffer[4096];
        for (ssize_t n; (n = read(fd[0], buffer, sizeof buffer)) > 0;) out.append(buffer, n);
        close(fd[0]);
        int status;
        waitpid(pid, &status, 0);
        return WIFEXITED(status) && WEXITSTATUS(status) == 0 ? out : "no answer";
    }

    template<typename C, typename P, typename... Ps>
    auto gates_of(int, std::size_t w, P p, Ps... ps) -> decltype(C::get_gate_manifest(w, p, ps...)) {
        return C::get_gate_manifest(w, p, ps...);
    }
    template<typename C, typename P, typename Q>
    auto gates_of(long, std::size_t w, P p, Q) -> decltype(C::get_gate_manifest(w, p)) {
        return C::get_gate_manifest(w, p);
    }
    template<typename C>
    auto gates_of(int, std::size_t w) -> decltype(C::get_gate_manifest(w)) {
        return C::get_gate_manifest(w);
    }

    template<typename C, typename Input, typename... Params>
    void add(const std::string &name, std::size_t width, Input input, Params... params) {
        // not asked in this process, where nothing is asked before the enumeration starts
        if (alone([=]() mutable { return vp::detail::manifest<C>(0, params...).check_manifest(width, 1) ? "yes" : "no"; }) != "yes") return;
        config c;
        c.text = name + " in " + std::to_string(width) + " columns";
        c.announced = [=]() mutable {
            std::ostringstream os;
            auto manifest = vp::detail::manifest<C>(0, params...);
            os << "columns";
            for (std::uint32_t w = 0; w <= 80; w++) {
                if (manifest.check_manifest(w, 1, true)) os << " " << w;
            }
            os << "; " << (manifest.check_manifest(width, 0) ? "no constant" : "a constant") << "; " << vp::detail::gates<C>(0, width, params...) << " gates; "
               << vp::detail::rows<C>(0, width, params...) << " rows";
            return os.str();
        };
        c.gates = [=]() mutable { return gates_of<C>(0, width, params...); };
        c.rows = [=]() mutable { return vp::detail::rows<C>(0, width, params...); };
        c.place = [=](T::circuit &bp, T::assignment &as, std::size_t row) mutable {
            std::vector<std::uint32_t> w, k = {0}, none;
            for (std::size_t i = 0; i < width; i++) w.push_back(i);
            C component(w, k, none, params...);
            generate_circuit(component, bp, as, input(), row);
        };
        c.admits = [=](std::size_t w) mutable { return vp::detail::manifest<C>(0, params...).check_manifest(w, 1, true); };
        c.needs_constant = [=]() mutable { return !vp::detail::manifest<C>(0, params...).check_manifest(width, 0); };
        c.construct = [=](std::size_t columns, std::size_t constants) mutable {
            std::vector<std::uint32_t> w(columns), k(constants), none;
            std::iota(w.begin(), w.end(), 0);
            C component(w, k, none, params...);
        };
        configs.push_back(c);
    }

    template<typename C>
    void plain(const std::string &name, std::size_t width) {
        add<C>(name, width, [] {
            V v = inputs(2);
            return typename C::input_type {v[0], v[1]};
        });
    }

    std::string with(std::size_t n) {
        return " (" + std::to_string(n) + ")";
    }

    void fill() {
        using nil::blueprint::components::bit_composition_mode;
        using nil::blueprint::components::comparison_mode;
        configs.clear();
        plain<bc::addition<AT, F, policy>>("addition", 3);
        plain<bc::subtraction<AT, F, policy>>("subtraction", 3);
        plain<bc::multiplication<AT, F, policy>>("multiplication", 3);
        plain<bc::division<AT, F, policy>>("division", 4);
        plain<bc::division_or_zero<AT, F>>("division or zero", 5);
        for (std::size_t w : {2, 3, 4, 6}) {
            typedef bc::logic_or_flag<AT> O;
            typedef bc::logic_and_flag<AT> A;
            add<O>("or flag", w, [] { V v = inputs(2); return O::input_type {v[0], v[1]}; });
            add<A>("and flag", w, [] { V v = inputs(2); return A::input_type {v[0], v[1]}; });
        }
        for (bool inequality : {false, true}) {
            typedef bc::equality_flag<AT, F> C;
            add<C>(inequality ? "inequality flag" : "equality flag", 4, [] { V v = inputs(2); return C::input_type {v[0], v[1]}; }, inequality);
        }
        for (std::size_t w : {3, 5, 9, 15}) {
            for (std::size_t bits : {1, 2, 5, 8, 13, 24, 32}) {
                typedef bc::range_check<AT> R;
                add<R>("range check" + with(bits), w, [] { return R::input_type {inputs(1)[0]}; }, bits);
            }
            for (std::uint32_t bits : {4, 9, 32}) {
                for (auto mode : {bit_composition_mode::LSB, bit_composition_mode::MSB}) {
                    typedef bc::bit_decomposition<AT> D;
                    typedef bc::bit_composition<AT> B;
                    std::string order = mode == bit_composition_mode::LSB ? " least significant first" : " most significant first";
                    add<D>("decomposition" + with(bits) + order, w, [] { return D::input_type {inputs(1)[0]}; }, bits, mode);
                    for (bool check : {false, true}) {
                        add<B>(std::string(check ? "checked " : "") + "composition" + with(bits) + order, w, [bits] { return B::input_type {inputs(bits)}; }, bits, check,
                               mode);
                    }
                }
                for (std::uint32_t shift : {1, 3}) {
                    for (bool left : {false, true}) {
                        typedef bc::bit_shift_constant<AT> S;
                        add<S>(std::string("shift ") + (left ? "left" : "right") + with(bits) + with(shift), w, [] { return S::input_type {inputs(1)[0]}; }, bits, shift,
                               left ? nil::blueprint::components::bit_shift_mode::LEFT : nil::blueprint::components::bit_shift_mode::RIGHT);
                    }
                }
            }
            for (std::size_t bits : {4, 9, 16}) {
                for (auto mode : {comparison_mode::LESS_THAN, comparison_mode::GREATER_EQUAL}) {
                    typedef bc::comparison_checked<AT> K;
                    typedef bc::comparison_unchecked<AT> U;
                    typedef bc::comparison_flag<AT> L;
                    std::string text = (mode == comparison_mode::LESS_THAN ? " less" : " greater or equal") + with(bits);
                    add<K>("comparison" + text, w, [] { V v = inputs(2); return K::input_type {v[0], v[1]}; }, bits, mode);
                    add<U>("unchecked comparison" + text, w, [] { V v = inputs(2); return U::input_type {v[0], v[1]}; }, bits, mode);
                    add<L>("comparison flag" + text, w, [] { V v = inputs(2); return L::input_type {v[0], v[1]}; }, bits, mode);
                }
                for (bool check : {false, true}) {
                    typedef bc::division_remainder<AT> D;
                    add<D>(std::string(check ? "checked " : "") + "division with remainder" + with(bits), w,
                           [] { V v = inputs(2); return D::input_type {v[0], v[1]}; }, bits, check);
                }
            }
        }
        typedef bc::flexible_additions<AT, F> FA;
        typedef bc::flexible_multiplications<AT, F> FM;
        for (std::size_t n : {1, 2, 5}) {
            for (std::size_t w : {3, 6, 9}) {
                add<FA>("sums" + with(n), w, [n] {
                    FA::input_type in;
                    for (std::size_t i = 0; i < n; i++) in.arr.push_back({T::pub(0, i), T::pub(0, n + i)});
                    return in;
                }, n);
            }
            for (std::size_t w : {5, 10, 15}) {
                add<FM>("products" + with(n), w, [n] {
                    FM::input_type in;
                    for (std::size_t i = 0; i < n; i++) in.arr.push_back({T::pub(0, i), T::pub(0, n + i)});
                    return in;
                }, n);
            }
        }
        for (std::size_t degree : {0, 1, 5, 6, 7, 13, 50, 100}) {
            typedef bc::pow_factor<AT, F> C;
            for (std::size_t w = 10; w < 10 + degree / 6 + 1; w += 8) {
                add<C>("polynomial" + with(degree), w, [degree] {
                    C::input_type in;
                    V v = inputs(degree + 2);
                    in.theta = v[0];
                    in.coefficients.assign(v.begin() + 1, v.end());
                    return in;
                }, degree);
            }
        }
        for (std::uint64_t n : {1, 2, 3, 4, 7, 11, 16, 40, 255, 256}) {
            typedef bc::flexible_constant_pow<AT, F> C;
            for (std::size_t w : {5, 6, 9}) add<C>("power" + with(n), w, [] { return C::input_type {inputs(1)[0]}; }, F::integral_type(n));
        }
        for (std::size_t n : {1, 2, 3, 7}) {
            typedef bc::flexible_x_index<AT, F> C;
            for (std::uint64_t omega : {2, 3}) {
                for (std::size_t w : {3, 6, 9}) {
                    add<C>("position" + with(n) + with(omega), w, [n] {
                        C::input_type in;
                        V v = inputs(n + 1);
                        in.x = v[0];
                        in.b.assign(v.begin() + 1, v.end());
                        return in;
                    }, n, F::value_type(omega));
                }
            }
        }
        for (std::size_t n : {1, 2, 3, 5}) {
            typedef bc::fri_cosets<AT, F> C;
            typedef bc::fri_array_swap<AT, F> S;
            for (std::uint64_t omega : {2, 3}) {
                for (std::size_t w = 9; w <= 9 * n; w += 9) {
                    add<C>("cosets" + with(n) + with(omega), w, [] {
                        C::input_type in;
                        in.x = inputs(1)[0];
                        return in;
                    }, n, F::value_type(omega));
                }
            }
            for (std::size_t w = 5; w <= 5 + 4 * (n - 1); w += 4) {
                add<S>("array swap" + with(n), w, [n] {
                    S::input_type in;
                    V v = inputs(2 * n + 1);
                    in.t = v[0];
                    in.arr.assign(v.begin() + 1, v.end());
                    return in;
                }, n);
            }
        }
        for (std::size_t w : {4, 6, 7, 8, 14}) {
            typedef bc::detail::f1_loop<AT> F1;
            typedef bc::detail::f3_loop<AT> F3;
            typedef bc::detail::gate_component<AT> G;
            typedef bc::basic_constraints_verifier<AT> B;
            for (std::size_t m : {1, 2, 5}) {
                add<F1>("product of terms" + with(m), w, [m] { V v = inputs(2); return F1::input_type {v[0], v[1], inputs(m), inputs(m)}; }, m);
                add<F3>("sum of differences" + with(m), w, [m] { return F3::input_type {inputs(m), inputs(m), inputs(m)}; }, m);
                add<G>("folded gate" + with(m), w, [m] { V v = inputs(2); return G::input_type {v[0], inputs(m + 1), v[1]}; }, m);
            }
            for (auto &sizes : std::vector<std::vector<std::size_t>> {{1}, {2}, {1, 1}, {2, 3}, {1, 3, 2}}) {
                std::size_t total = 0;
                std::string text;
                for (auto n : sizes) total += n, text += with(n);
                std::size_t amount = sizes.size();
                add<B>("gate argument" + text, w, [=] { return B::input_type {inputs(1)[0], inputs(total), inputs(amount)}; }, sizes);
            }
        }
        for (std::size_t n : {1, 2, 3, 4, 7, 20, 31}) {
            typedef bc::state_selector<AT, F> C;
            add<C>("selector" + with(n), (n + 1) / 2 + 2, [] { return C::input_type {inputs(1)[0]}; }, n);
            configs.back().most = (n + 1) / 2 + 2;
        }
        for (std::size_t m : {2, 3, 4}) {
            typedef bc::permutation_verifier<AT> C;
            add<C>("permutation argument" + with(m), 6, [m] {
                V v = inputs(7);
                return C::input_type {inputs(m), inputs(m), inputs(m), v[0], v[1], v[2], v[3], v[4], {v[5], v[6]}};
            }, m);
        }
    }

    void build(const config &c) {
        T::circuit bp;
        T::assignment as(60, 1, 1, 120);
        c.place(bp, as, 0);
    }

    // ---------------------------------------------------------------- G01

    template<typename Make>
    void constructed(bool right, const std::string &how, Make make) {
        bool refused = false;
        VH_CASE(how);
        try {
            make();
        } catch (const std::exception &) {
            refused = true;
        }
        VH_CHECK(refused != right, right ? "refused" : "not-refused", (right ? "a supported configuration is refused" : "an unsupported configuration is not refused"));
        vh::count_transitions();
        vh::count(refused ? "refused" : "constructed");
    }

    typedef std::vector<std::uint32_t> columns;

    // All three ways of giving the columns.
    template<typename C, typename... Params>
    void guarded(bool right, const std::string &how, Params... params) {
        columns w(15), k(1), none;
        vh::count_states();
        std::iota(w.begin(), w.end(), 0);
        constructed(right, how + " from containers", [&] { C(w, k, none, params...); });
        constructed(right, how + " from lists", [&] { C({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, {0}, {}, params...); });
    }

    void g01() {
        using nil::blueprint::components::bit_composition_mode;
        using nil::blueprint::components::comparison_mode;
        fill();
        const std::size_t most = vh::thorough() ? 200 : 80;
        vh::declare("refused");
        vh::declare("constructed");
        vh::cfg().bounds = std::to_string(configs.size()) + " component configurations with 0 to " + std::to_string(most) +
                           " columns and 0 to 2 constant columns; bit components and comparisons with 0 to 130 bits in a 61-bit field and every mode, valid or not";
        vh::parallel(configs.size(), [&](std::size_t i) {
            auto &c = configs[i];
            bool enough = false;
            for (std::size_t w = 0; w <= std::min(most, c.most); w++) {
                enough = enough || c.admits(w);
                vh::count_states();
                for (std::size_t k = 0; k <= 2; k++) {
                    constructed(enough && (k || !c.needs_constant()), c.text + " constructed with " + std::to_string(w) + " columns and " + std::to_string(k) + " constant columns",
                                [&] { c.construct(w, k); });
                }
            }
            vh::count_traces();
        });
        vh::parallel(131, [&](std::size_t bits) {
            for (int m = 0; m < 7; m++) {
                std::string how = " of " + std::to_string(bits) + " bits in mode " + std::to_string(m);
                auto order = static_cast<bit_composition_mode>(m);
                auto mode = static_cast<comparison_mode>(m);
                bool ordered = order == bit_composition_mode::LSB || order == bit_composition_mode::MSB;
                bool compares = mode == comparison_mode::LESS_THAN || mode == comparison_mode::LESS_EQUAL || mode == comparison_mode::GREATER_THAN ||
                                mode == comparison_mode::GREATER_EQUAL;
                // the bits of a number fit in the field; the difference of two compared numbers takes one bit more
                guarded<bc::bit_decomposition<AT>>(ordered && bits > 0 && bits < 61, "decomposition" + how, bits, order);
                guarded<bc::bit_composition<AT>>(ordered && bits > 0 && bits < 61, "composition" + how, bits, true, order);
                guarded<bc::bit_composition<AT>>(ordered && bits > 0 && bits < 61, "unchecked composition" + how, bits, false, order);
                guarded<bc::comparison_checked<AT>>(compares && bits > 0 && bits < 60, "comparison" + how, bits, mode);
                guarded<bc::comparison_unchecked<AT>>(compares && bits > 0 && bits < 60, "unchecked comparison" + how, bits, mode);
                guarded<bc::comparison_flag<AT>>((compares || mode == comparison_mode::FLAG) && bits > 0 && bits < 61, "comparison flag" + how, bits, mode);
            }
            vh::count_traces();
        });
    }

    // ---------------------------------------------------------------- G02

    // Asks about one configuration, or builds it, and then about all of them, forwards and backwards; in the
    // thorough tier also about each of them straight after the first, in a process of its own.
    void g02() {
        fill();
        const std::size_t n = configs.size(), direct = vh::thorough() ? n : 0;
        vh::declare("processes");
        vh::cfg().bounds = std::to_string(n) +
                           " component configurations (class, parameters, number of columns); each of them asked about or built first in a fresh process, "
                           "followed by questions about all of them in both orders" +
                           (direct ? ", and by a question about every single one in a process of its own" : "") +
                           "; compared with the answers of processes in which nothing was asked before";
        std::vector<std::string> first(n);
        for (std::size_t k = 0; k < n; k++) {
            first[k] = alone(configs[k].announced);
            VH_CASE(configs[k].text);
            VH_CHECK(first[k] != "no answer", "no-answer", "the question is not answered");
        }
        vh::count("processes", n);
        vh::parallel(n * 2, [&](std::size_t i) {
            auto &before = configs[i / 2];
            std::string all = alone([&] {
                std::string s;
                if (i % 2) {
                    build(before);
                } else {
                    before.announced();
                }
                for (std::size_t k = 0; k < direct; k++) s += alone(configs[k].announced) + "\n";
                for (std::size_t k = 0; k < n; k++) s += configs[k].announced() + "\n";
                for (std::size_t k = n; k-- > 0;) s += configs[k].announced() + "\n";
                return s;
            });
            std::istringstream is(all);
            std::string line;
            for (std::size_t k = 0; k < direct + 2 * n; k++) {
                std::size_t at = k < direct ? k : k < direct + n ? k - direct : direct + 2 * n - 1 - k;
                VH_CASE(configs[at].text << (k < direct ? " asked about after " : " asked about among others after ") << before.text << (i % 2 ? " was built" : " was asked about"));
                std::getline(is, line);
                VH_CHECK(line == first[at], "history", "announces \"" << line << "\" instead of \"" << first[at] << "\"");
                vh::count_transitions();
            }
            vh::count("processes", 1 + direct);
            vh::count_traces();
            vh::count_states(1 + 2 * n + direct);    // the histories after which a question was asked
        });
    }

    // ---------------------------------------------------------------- G03

    void g03() {
        fill();
        vh::declare("circuits");
        vh::cfg().bounds = "every pair of " + std::to_string(configs.size()) + " component configurations in one circuit, from the same first column";
        vh::parallel(configs.size(), [&](std::size_t i) {
            for (std::size_t k = 0; k < configs.size(); k++) {
                auto &a = configs[i], &b = configs[k];
                VH_CASE(a.text << " and " << b.text);
                T::circuit bp;
                std::size_t announced;
                {
                    gate_manifest both = a.gates();
                    announced = both.merge_with(b.gates()).get_gates_amount();
                }
                T::assignment as(60, 1, 1, 200);
                a.place(bp, as, 0);
                std::size_t own = bp.num_gates() + bp.num_lookup_gates();
                b.place(bp, as, a.rows());
                std::size_t gates = bp.num_gates() + bp.num_lookup_gates();
                VH_CHECK(own <= a.gates().get_gates_amount(), "own-gates", a.text << " has " << own << " gates but announces " << a.gates().get_gates_amount());
                VH_CHECK(gates <= announced, "merged-gates", "together they have " << gates << " gates but announce " << announced);
                VH_CHECK(i != k || announced == a.gates().get_gates_amount(), "counted-twice", "merged with itself announces " << announced);
                vh::count_states();
                vh::count_transitions(2);
                vh::count_traces();
                vh::count("circuits");
            }
        });
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"G01", g01}, {"G02", g02}, {"G03", g03}});
}
