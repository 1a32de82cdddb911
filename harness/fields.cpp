// F01: native field arithmetic. F02: flags. F03: ranges, bits and shifts.
#include <vcomponent.hpp>

#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/subtraction.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division_or_zero.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/exponentiation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/linear_interpolation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/quadratic_interpolation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_and_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_or_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/sqrt.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/range_check.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/bit_shift_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_composition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/bit_decomposition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/logic_ops.hpp>

namespace {
    namespace bc = nil::blueprint::components;
    using nil::blueprint::basic_non_native_policy;
    using vp::placement;
    using vp::values;
    typedef std::vector<std::uint32_t> columns;
    typedef boost::optional<values> expected;

    const std::vector<placement> HOME = {{0, 0, 0, false}};
    const std::vector<placement> PLACES = {{0, 0, 0, false}, {1, 0, 1, false}, {3, 2, 1, true}};

    template<typename F>
    using AT = vp::snark::plonk_constraint_system<F>;
    template<typename F>
    using V = std::vector<typename vp::types<F>::var>;

    std::uint64_t inverse(std::uint64_t a, std::uint64_t p) {
        for (std::uint64_t i = 1; i < p; i++) {
            if (a * i % p == 1) return i;
        }
        return 0;
    }

    template<typename C>
    struct tag {
        typedef C type;
    };
    template<typename C, typename Vars>
    typename C::input_type one_input(const Vars &v) {
        typename C::input_type in;
        in.input[0] = v[0];
        return in;
    }
    template<typename C, typename Vars>
    typename C::input_type two_inputs(const Vars &v) {
        typename C::input_type in;
        in.input[0] = v[0];
        in.input[1] = v[1];
        return in;
    }

    template<typename F, typename C, typename E>
    vp::subject<F, C> binary(const std::string &name, std::size_t witnesses, E e) {
        auto s = vp::describe<F, C>(name, witnesses);
        s.input = [](const V<F> &v) { return typename C::input_type {v[0], v[1]}; };
        s.expected = e;
        return s;
    }

    template<std::uint64_t P>
    void arithmetic(const std::vector<placement> &places) {
        typedef vp::small_field<P> F;
        typedef basic_non_native_policy<F> N;
        typedef typename vp::types<F>::value value;
        vp::sweep(binary<F, bc::addition<AT<F>, F, N>>("addition", 3, [](const values &x) { return expected(values {(x[0] + x[1]) % P}); }),
                  2, P, places);
        vp::sweep(binary<F, bc::subtraction<AT<F>, F, N>>("subtraction", 3,
                                                          [](const values &x) { return expected(values {(x[0] + P - x[1]) % P}); }),
                  2, P, places);
        vp::sweep(binary<F, bc::multiplication<AT<F>, F, N>>("multiplication", 3,
                                                             [](const values &x) { return expected(values {x[0] * x[1] % P}); }),
                  2, P, places);
        vp::sweep(binary<F, bc::division<AT<F>, F, N>>("division", 4,
                                                       [](const values &x) {
                                                           return x[1] ? expected(values {x[0] * inverse(x[1], P) % P}) : boost::none;
                                                       }),
                  2, P, places);
        vp::sweep(binary<F, bc::division_or_zero<AT<F>, F>>("division or zero", 5,
                                                            [](const values &x) {
                                                                return expected(values {x[0] * inverse(x[1], P) % P});
                                                            }),
                  2, P, places);
        for (std::uint64_t k = 0; k < P; k++) {
            typedef bc::mul_by_constant<AT<F>, F> C;
            vp::subject<F, C> s;
            s.name = "multiplication by " + std::to_string(k);
            s.make = [=](const columns &w, const columns &c, const columns &p) { return C(w, c, columns {}, value(k)); };
            s.witnesses = 2;
            s.input = [](const V<F> &v) { return typename C::input_type {v[0]}; };
            s.expected = [=](const values &x) { return expected(values {x[0] * k % P}); };
            s.gates = C::get_gate_manifest(2).get_gates_amount();
            vp::sweep(s, 1, P, places);
        }
    }

    template<std::uint64_t P>
    void interpolation(bool quadratic) {
        typedef vp::small_field<P> F;
        if (!quadratic) {
            typedef bc::linear_inter_coefs<AT<F>, F> C;
            vp::subject<F, C> s;
            s.name = "linear interpolation";
            s.make = [](const columns &w, const columns &c, const columns &p) { return C(w, columns {}, columns {}); };
            s.witnesses = 7;
            s.input = [](const V<F> &v) { return typename C::input_type {v[0], v[1], v[2], v[3]}; };
            s.expected = [](const values &x) -> expected {
                if (x[0] == x[2]) return boost::none;
                for (std::uint64_t a0 = 0; a0 < P; a0++) {
                    for (std::uint64_t a1 = 0; a1 < P; a1++) {
                        if ((a0 + a1 * x[0]) % P == x[1] && (a0 + a1 * x[2]) % P == x[3]) return values {a0, a1};
                    }
                }
                return boost::none;
            };
            s.gates = C::get_gate_manifest(7).get_gates_amount();
            vp::sweep(s, 4, P, PLACES);
        } else {
            typedef bc::quadratic_inter_coefs<AT<F>, F> C;
            vp::subject<F, C> s;
            s.name = "quadratic interpolation";
            s.make = [](const columns &w, const columns &c, const columns &p) { return C(w, columns {}, columns {}); };
            s.witnesses = 10;
            s.input = [](const V<F> &v) { return typename C::input_type {v[0], v[1], v[2], v[3], v[4], v[5]}; };
            s.expected = [](const values &x) -> expected {
                if (x[0] == x[2] || x[0] == x[4] || x[2] == x[4]) return boost::none;
                for (std::uint64_t n = 0; n < P * P * P; n++) {
                    std::uint64_t a[3] = {n % P, n / P % P, n / P / P};
                    bool fits = true;
                    for (int i = 0; i < 6; i += 2) fits = fits && (a[0] + a[1] * x[i] + a[2] * x[i] * x[i]) % P == x[i + 1];
                    if (fits) return values {a[0], a[1], a[2]};
                }
                return boost::none;
            };
            s.gates = C::get_gate_manifest(10).get_gates_amount();
            vp::sweep(s, 6, P, PLACES);
        }
    }

    template<std::uint64_t P, std::size_t Bits>
    void exponentiation(std::uint64_t bases, const std::vector<placement> &places) {
        typedef vp::small_field<P> F;
        typedef bc::exponentiation<AT<F>, F, Bits> C;
        auto s = vp::describe<F, C>("exponentiation with " + std::to_string(Bits) + "-bit exponents", 15);
        s.input = [](const V<F> &v) { return typename C::input_type {v[0], v[1]}; };
        const std::uint64_t top = 1ull << ((Bits + 7) / 8 * 8);
        s.expected = [=](const values &x) -> expected {
            if (x[1] >= top) return boost::none;
            std::uint64_t r = 1;
            for (std::uint64_t i = 0; i < x[1]; i++) r = r * x[0] % P;
            return values {r};
        };
        // the exponent taken from the bits may exceed the input by the modulus when there is room for it
        if (top > P) {
            s.unsound_key = [=](const values &x) { return x[1] + P < top ? "exponent-plus-modulus" : "unsound"; };
        }
        vp::sweep(s, 2, std::min(bases, P), places);
    }

    template<std::uint64_t P>
    void square_root(const std::vector<placement> &places) {
        typedef vp::small_field<P> F;
        typedef bc::sqrt<AT<F>, F> C;
        auto s = vp::describe<F, C>("square root", 15);
        s.input = [](const V<F> &v) { return typename C::input_type {v[0]}; };
        s.expected = [](const values &x) -> expected {
            for (std::uint64_t r = 0; r < P; r++) {
                if (r * r % P == x[0]) return values {r};
            }
            return values {P - 1};
        };
        s.also = [](const values &in, const values &out) { return out[0] * out[0] % P == in[0]; };
        // the test for a residue is an exponentiation of its own
        s.pinned = [](long row, std::size_t) { return row >= 3 && row < 3 + static_cast<long>(C::exp_component::get_rows_amount(15)); };
        vp::sweep(s, 1, P, places);
    }

    void f01() {
        vp::declare_counters();
        vh::cfg().bounds =
            "all inputs and all witness contents: sum, difference, product, quotient (both kinds) and product by every constant over fields of "
            "5, 13 and 97 elements, linear interpolation over 7 and 11, quadratic over 5 (thorough: 7), exponentiation over 257 with exponents "
            "of 5 and 8 bits and over 193 with 8 bits, square root over 97 and 257 (the rows of its exponentiation as filled in); 3 placements";
        arithmetic<5>(PLACES);
        arithmetic<13>(PLACES);
        arithmetic<97>(PLACES);
        interpolation<7>(false);
        interpolation<11>(false);
        interpolation<5>(true);
        if (vh::thorough()) interpolation<7>(true);
        exponentiation<257, 8>(257, PLACES);
        exponentiation<257, 5>(257, HOME);
        exponentiation<193, 8>(193, HOME);
        square_root<97>(PLACES);
        square_root<257>(PLACES);
    }

    // ---------------------------------------------------------------- F02

    template<std::uint64_t P>
    void flags() {
        typedef vp::small_field<P> F;
        for (std::size_t w = 2; w <= 5; w++) {
            vp::sweep(binary<F, bc::logic_and_flag<AT<F>>>("and flag in " + std::to_string(w) + " columns", w,
                                                           [](const values &x) { return expected(values {x[0] && x[1]}); }),
                      2, P, PLACES);
        }
        for (std::size_t w = 2; w <= 7; w++) {
            vp::sweep(binary<F, bc::logic_or_flag<AT<F>>>("or flag in " + std::to_string(w) + " columns", w,
                                                          [](const values &x) { return expected(values {x[0] || x[1]}); }),
                      2, P, PLACES);
        }
    }

    template<std::uint64_t P>
    void equality() {
        typedef vp::small_field<P> F;
        typedef bc::equality_flag<AT<F>, F> C;
        for (bool inequality : {false, true}) {
            auto s = vp::describe<F, C>(inequality ? "inequality flag" : "equality flag", 4, inequality);
            s.input = [](const V<F> &v) { return typename C::input_type {v[0], v[1]}; };
            s.expected = [=](const values &x) { return expected(values {(x[0] == x[1]) != inequality}); };
            vp::sweep(s, 2, P, PLACES);
        }
    }

    // On arguments that are not flags the operations are still the same polynomials.
    template<std::uint64_t P>
    void logic() {
        typedef vp::small_field<P> F;
        {
            typedef bc::logic_not<AT<F>> C;
            auto s = vp::describe<F, C>("not", 2);
            s.input = [](const V<F> &v) { return one_input<C>(v); };
            s.expected = [](const values &x) { return expected(values {(P + 1 - x[0]) % P}); };
            vp::sweep(s, 1, 2, PLACES);
        }
        auto gate = [](auto tag, const std::string &name, auto f) {
            typedef typename decltype(tag)::type C;
            auto s = vp::describe<F, C>(name, 3);
            s.input = [](const V<F> &v) { return two_inputs<C>(v); };
            s.expected = [=](const values &x) { return expected(values {static_cast<std::uint64_t>(f(x[0], x[1]))}); };
            vp::sweep(s, 2, 2, PLACES);
        };
        gate(tag<bc::logic_and<AT<F>>>(), "and", [](bool a, bool b) { return a && b; });
        gate(tag<bc::logic_or<AT<F>>>(), "or", [](bool a, bool b) { return a || b; });
        gate(tag<bc::logic_xor<AT<F>>>(), "xor", [](bool a, bool b) { return a != b; });
        gate(tag<bc::logic_nand<AT<F>>>(), "nand", [](bool a, bool b) { return !(a && b); });
        gate(tag<bc::logic_nor<AT<F>>>(), "nor", [](bool a, bool b) { return !(a || b); });
    }

    void f02() {
        vp::declare_counters();
        vh::cfg().bounds =
            "all inputs and all witness contents over fields of 13 and 97 elements in 3 placements: conjunction of 2 values in 2 to 5 columns, "
            "disjunction in 2 to 7 columns, equality and inequality; not, and, or, xor, nand, nor of all bits";
        flags<13>();
        flags<97>();
        equality<13>();
        equality<97>();
        logic<13>();
        logic<97>();
    }

    // ---------------------------------------------------------------- F03

    template<std::uint64_t P>
    void ranges(std::size_t max_bits) {
        typedef vp::small_field<P> F;
        typedef bc::range_check<AT<F>> C;
        for (std::size_t bits = 1; bits <= max_bits; bits++) {
            for (std::size_t w = 2; w < std::max<std::size_t>(4, bits / 2 + 3); w++) {
                auto s = vp::describe<F, C>("range check of " + std::to_string(bits) + " bits in " + std::to_string(w) + " columns", w, bits);
                s.input = [](const V<F> &v) { return typename C::input_type {v[0]}; };
                s.expected = [=](const values &x) { return x[0] >> bits ? boost::none : expected(values {}); };
                vp::sweep(s, 1, P, PLACES);
            }
        }
    }

    std::vector<values> boundaries(std::uint64_t p) {
        std::set<std::uint64_t> some = {0, 0x5555, 0xaaaa, 0x1234, p - 1, p - 2};
        for (int k = 0; k < 17; k++) {
            for (long d : {-1, 0, 1}) some.insert((1ull << k) + d);
        }
        std::vector<values> r;
        for (auto x : some) {
            if (x < p) r.push_back({x});
        }
        return r;
    }

    template<std::uint64_t P>
    void bits_of_numbers(const std::vector<std::size_t> &sizes, const std::vector<values> &inputs, std::size_t max_w) {
        typedef vp::small_field<P> F;
        using nil::blueprint::components::bit_composition_mode;
        for (auto bits : sizes) {
            for (std::size_t w = 3; w <= max_w; w++) {
                for (auto mode : {bit_composition_mode::LSB, bit_composition_mode::MSB}) {
                    bool lsb = mode == bit_composition_mode::LSB;
                    typedef bc::bit_decomposition<AT<F>> C;
                    std::string text = std::to_string(bits) + " bits, " + (lsb ? "least" : "most") + " significant first, in " +
                                       std::to_string(w) + " columns";
                    auto s = vp::describe<F, C>("decomposition into " + text, w, bits, mode);
                    s.input = [](const V<F> &v) { return typename C::input_type {v[0]}; };
                    s.expected = [=](const values &x) -> expected {
                        if (x[0] >> bits) return boost::none;
                        values r;
                        for (std::size_t i = 0; i < bits; i++) r.push_back(x[0] >> (lsb ? i : bits - 1 - i) & 1);
                        return r;
                    };
                    vp::sweep(s, inputs, w == 4 ? PLACES : HOME);
                }
                for (auto mode : {bc::bit_shift_mode::LEFT, bc::bit_shift_mode::RIGHT}) {
                    typedef bc::bit_shift_constant<AT<F>> C;
                    for (std::uint32_t shift = 1; shift < bits; shift++) {
                        bool left = mode == bc::bit_shift_mode::LEFT;
                        auto s = vp::describe<F, C>("shift of " + std::to_string(bits) + " bits by " + std::to_string(shift) +
                                                        (left ? " to the left in " : " to the right in ") + std::to_string(w) + " columns",
                                                    w, static_cast<std::uint32_t>(bits), shift, mode);
                        s.input = [](const V<F> &v) { return typename C::input_type {v[0]}; };
                        s.expected = [=](const values &x) -> expected {
                            if (x[0] >> bits) return boost::none;
                            return values {left ? (x[0] << shift) % (1ull << bits) : x[0] >> shift};
                        };
                        vp::sweep(s, inputs, w == 4 ? PLACES : HOME);
                    }
                }
            }
        }
    }

    template<std::uint64_t P>
    void numbers_of_bits(std::size_t max_bits, std::size_t max_w) {
        typedef vp::small_field<P> F;
        using nil::blueprint::components::bit_composition_mode;
        for (std::size_t bits = 1; bits <= max_bits; bits++) {
            for (std::size_t w = 3; w <= max_w; w++) {
                for (auto mode : {bit_composition_mode::LSB, bit_composition_mode::MSB}) {
                    for (bool check : {false, true}) {
                        typedef bc::bit_composition<AT<F>> C;
                        bool lsb = mode == bit_composition_mode::LSB;
                        auto s = vp::describe<F, C>("number of " + std::to_string(bits) + (check ? " checked" : "") + " bits, " +
                                                        (lsb ? "least" : "most") + " significant first, in " + std::to_string(w) + " columns",
                                                    w, static_cast<std::uint32_t>(bits), check, mode);
                        s.input = [](const V<F> &v) { return typename C::input_type {v}; };
                        s.expected = [=](const values &x) -> expected {
                            std::uint64_t r = 0;
                            for (std::size_t i = 0; i < bits; i++) {
                                if (x[i] > 1) return boost::none;
                                r += x[i] << (lsb ? i : bits - 1 - i);
                            }
                            return values {r};
                        };
                        // every vector of bits and, if they are checked, every one with one entry that is not a bit
                        std::vector<values> inputs;
                        for (std::uint64_t n = 0; n < 1ull << bits; n++) {
                            values x;
                            for (std::size_t i = 0; i < bits; i++) x.push_back(n >> i & 1);
                            inputs.push_back(x);
                            for (std::size_t i = 0; check && i < bits; i++) {
                                if (x[i]) continue;
                                for (std::uint64_t v : {std::uint64_t(2), P - 1}) {
                                    values y = x;
                                    y[i] = v;
                                    inputs.push_back(y);
                                }
                            }
                        }
                        vp::sweep(s, inputs, w == 4 ? PLACES : HOME);
                    }
                }
            }
        }
    }

    void f03() {
        vp::declare_counters();
        vh::cfg().bounds =
            "over the field of 257 elements, all inputs and all witness contents: range check of 1 to 8 bits in 2 to 6 columns, decomposition into "
            "1 to 8 bits, shift of 1 to 8 bits by every amount in both directions in 3 to 5 columns, composition of all vectors of 1 to 8 bits "
            "and of those with one entry 2 or -1; over the field of 65537 elements decomposition and shifts of 16 bits (thorough: 12 to 16) for "
            "about 55 boundary inputs";
        ranges<257>(8);
        std::vector<values> all;
        for (std::uint64_t x = 0; x < 257; x++) all.push_back({x});
        bits_of_numbers<257>({1, 2, 3, 4, 5, 6, 7, 8}, all, 5);
        numbers_of_bits<257>(8, 5);
        if (vh::thorough()) {
            bits_of_numbers<65537>({12, 13, 14, 15, 16}, boundaries(65537), 5);
        } else {
            bits_of_numbers<65537>({16}, boundaries(65537), 3);
        }
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"F01", f01}, {"F02", f02}, {"F03", f03}});
}
