// F04: comparisons and integer division.
#include <vcomponent.hpp>

#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_checked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/comparison_unchecked.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/division_remainder.hpp>

namespace {
    namespace bc = nil::blueprint::components;
    using bc::comparison_mode;
    using vp::placement;
    using vp::values;
    typedef boost::optional<values> expected;

    const std::vector<placement> HOME = {{0, 0, 0, false}};
    const std::vector<placement> PLACES = {{0, 0, 0, false}, {1, 0, 1, false}, {3, 2, 1, true}};

    template<typename F>
    using AT = vp::snark::plonk_constraint_system<F>;
    template<typename F>
    using V = std::vector<typename vp::types<F>::var>;

    bool holds(comparison_mode mode, std::uint64_t x, std::uint64_t y) {
        switch (mode) {
            case comparison_mode::LESS_THAN:
                return x < y;
            case comparison_mode::LESS_EQUAL:
                return x <= y;
            case comparison_mode::GREATER_THAN:
                return x > y;
            default:
                return x >= y;
        }
    }
    const std::vector<std::pair<comparison_mode, std::string>> MODES = {{comparison_mode::LESS_THAN, "<"},
                                                                        {comparison_mode::LESS_EQUAL, "<="},
                                                                        {comparison_mode::GREATER_THAN, ">"},
                                                                        {comparison_mode::GREATER_EQUAL, ">="}};

    std::vector<values> pairs(const values &a) {
        std::vector<values> r;
        for (auto x : a) {
            for (auto y : a) r.push_back({x, y});
        }
        return r;
    }
    values up_to(std::uint64_t n) {
        values r;
        for (std::uint64_t i = 0; i < n; i++) r.push_back(i);
        return r;
    }
    template<std::uint64_t P>
    void compare(std::size_t bits, std::size_t w, const values &numbers, const std::vector<placement> &places) {
        typedef vp::small_field<P> F;
        values small;
        for (auto x : numbers) {
            if (!(x >> bits)) small.push_back(x);
        }
        std::string text = " of " + std::to_string(bits) + " bits in " + std::to_string(w) + " columns";
        for (auto &m : MODES) {
            auto mode = m.first;
            auto accept = [=](const values &x) -> expected {
                if (x[0] >> bits || x[1] >> bits || !holds(mode, x[0], x[1])) return boost::none;
                return values {};
            };
            if (bits + 1 < F::modulus_bits) {
                typedef bc::comparison_checked<AT<F>> C;
                auto s = vp::describe<F, C>("comparison " + m.second + text, w, bits, mode);
                s.input = [](const V<F> &v) { return typename C::input_type {v[0], v[1]}; };
                s.expected = accept;
                s.unsound_key = [=](const values &x) {
                    return holds(mode, x[0], x[1]) ? "operand-range-not-checked" : "unsound";
                };
                vp::sweep(s, pairs(numbers), places);
            }
            if (bits + 1 < F::modulus_bits) {
                typedef bc::comparison_unchecked<AT<F>> C;
                auto s = vp::describe<F, C>("comparison of operands in range " + m.second + text, w, bits, mode);
                s.input = [](const V<F> &v) { return typename C::input_type {v[0], v[1]}; };
                s.expected = accept;
                vp::sweep(s, pairs(small), places);
            }
            typedef bc::comparison_flag<AT<F>> C;
            auto s = vp::describe<F, C>("comparison flag " + m.second + text, w, bits, mode);
            s.input = [](const V<F> &v) { return typename C::input_type {v[0], v[1]}; };
            s.expected = [=](const values &x) -> expected {
                if (x[0] >> bits || x[1] >> bits) return boost::none;
                return values {holds(mode, x[0], x[1])};
            };
            vp::sweep(s, pairs(numbers), places);
        }
        typedef bc::comparison_flag<AT<F>> C;
        auto s = vp::describe<F, C>("three-way comparison flag" + text, w, bits, comparison_mode::FLAG);
        s.input = [](const V<F> &v) { return typename C::input_type {v[0], v[1]}; };
        s.expected = [=](const values &x) -> expected {
            if (x[0] >> bits || x[1] >> bits) return boost::none;
            return values {x[0] > x[1] ? 1 : x[0] == x[1] ? 0 : P - 1};
        };
        vp::sweep(s, pairs(numbers), places);
    }

    template<std::uint64_t P>
    void divide(std::size_t bits, std::size_t w, const values &numbers, const std::vector<placement> &places) {
        typedef vp::small_field<P> F;
        typedef bc::division_remainder<AT<F>> C;
        values small;
        for (auto x : numbers) {
            if (!(x >> bits)) small.push_back(x);
        }
        for (bool check : {false, true}) {
            auto s = vp::describe<F, C>("division with remainder of " + std::to_string(bits) + (check ? " checked" : "") + " bits in " +
                                            std::to_string(w) + " columns",
                                        w, bits, check);
            s.input = [](const V<F> &v) { return typename C::input_type {v[0], v[1]}; };
            s.expected = [=](const values &x) -> expected {
                if (x[0] >> bits || x[1] >> bits || !x[1]) return boost::none;
                return values {x[0] / x[1], x[0] % x[1]};
            };
            vp::sweep(s, pairs(check ? numbers : small), places);
        }
    }

    void f04() {
        vp::declare_counters();
        vh::cfg().bounds =
            "all pairs of operands and all witness contents: comparisons and flags of 1 to 6 bits, all modes, in 3 to 5 columns over the field of "
            "131 elements; division of 1 to 4 bits in 3 to 6 columns over the field of 257 elements; three placements for some sizes (thorough: "
            "for all)";
        for (std::size_t bits = 1; bits <= 6; bits++) {
            for (std::size_t w = 3; w <= 5; w++) {
                compare<131>(bits, w, up_to(131), vh::thorough() || (w == 4 && (bits == 3 || bits == 6)) ? PLACES : HOME);
            }
        }
        for (std::size_t bits = 1; bits <= 4; bits++) {
            for (std::size_t w = 3; w <= 6; w++) {
                divide<257>(bits, w, up_to(257), vh::thorough() || (w == 4 && bits == 3) ? PLACES : HOME);
            }
        }
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"F04", f04}});
}
