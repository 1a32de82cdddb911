// F05: helpers that work on arrays. F06: powers, polynomials and positions in a domain.
#include <vcomponent.hpp>

#include <nil/blueprint/components/systems/snark/plonk/flexible/additions.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/multiplications.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/x_index.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_lin_inter.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_cosets.hpp>

namespace {
    namespace bc = nil::blueprint::components;
    using vp::placement;
    using vp::values;
    typedef boost::optional<values> expected;
    typedef vp::small_field<257> F257;
    typedef vp::small_field<97> F97;
    typedef vp::small_field<17> F17;

    const std::vector<placement> PLACES = {{0, 0, 0, false}, {3, 2, 1, true}};

    template<typename F>
    using AT = vp::snark::plonk_constraint_system<F>;
    template<typename F>
    using V = std::vector<typename vp::types<F>::var>;

    std::uint64_t power(std::uint64_t x, std::uint64_t n, std::uint64_t p) {
        std::uint64_t r = 1 % p;
        while (n--) r = r * x % p;
        return r;
    }

    // ---------------------------------------------------------------- F05

    template<typename F, typename C, typename Op>
    void pairs(const std::string &what, Op op, std::uint64_t p, const std::vector<std::size_t> &widths, std::size_t most) {
        for (auto width : widths) {
            for (std::size_t n = 1; n <= most; n++) {
                auto s = vp::describe<F, C>(what + " (" + std::to_string(n) + ") in " + std::to_string(width) + " columns", width, n);
                s.input = [n](const V<F> &v) {
                    typename C::input_type in;
                    for (std::size_t i = 0; i < n; i++) in.arr.push_back({v[2 * i], v[2 * i + 1]});
                    return in;
                };
                s.expected = [n, op, p](const values &in) -> expected {
                    values out;
                    for (std::size_t i = 0; i < n; i++) out.push_back(op(in[2 * i], in[2 * i + 1]) % p);
                    return out;
                };
                // every value in every position, the others distinct
                vp::sweep(s, vp::around(vp::distinct(2 * n, p), p, n == 1 ? 2 : n == 2 && vh::thorough() ? 2 : 1), PLACES);
            }
        }
    }

    void f05() {
        vp::declare_counters();
        const std::size_t most = vh::thorough() ? 9 : 6;
        vh::cfg().bounds = "arrays of up to " + std::to_string(most) +
                           " elements in several numbers of columns over a field of 17; every value of any one element (any two in the shortest arrays), two "
                           "placements; single swaps and interpolations: every input";
        auto add = [](std::uint64_t a, std::uint64_t b) { return a + b; };
        auto mul = [](std::uint64_t a, std::uint64_t b) { return a * b; };
        pairs<F17, bc::flexible_additions<AT<F17>, F17>>("sums", add, 17, {3, 6, 9, 15}, most);
        pairs<F17, bc::flexible_multiplications<AT<F17>, F17>>("products", mul, 17, {5, 10, 15, 20}, most);
        {
            typedef bc::flexible_swap<AT<F17>, F17> C;
            auto s = vp::describe<F17, C>("swap", 5);
            s.input = [](const V<F17> &v) { return C::input_type {{v[0], v[1], v[2]}}; };
            s.expected = [](const values &in) -> expected {
                if (in[0] > 1) return boost::none;
                return in[0] ? values {in[2], in[1]} : values {in[1], in[2]};
            };
            vp::sweep(s, 3, 17, PLACES);
        }
        {
            typedef bc::fri_lin_inter<AT<F17>, F17> C;
            auto s = vp::describe<F17, C>("interpolation", 5);
            s.input = [](const V<F17> &v) { return C::input_type {v[0], v[1], v[2], v[3]}; };
            s.expected = [](const values &in) -> expected {
                std::uint64_t half = 0;
                for (std::uint64_t i = 1; i < 17; i++) {
                    if (2 * in[0] * i % 17 == 1) half = i;
                }
                return values {(in[1] + (in[2] + 17 - in[1]) * (in[0] + 17 - in[3]) % 17 * half) % 17};
            };
            std::vector<values> inputs;
            for (std::uint64_t s0 = 1; s0 < 17; s0++) {    // the component leaves s != 0 to its user
                for (std::uint64_t x = 0; x < 17 * 17 * 17; x++) inputs.push_back({s0, x % 17, x / 17 % 17, x / 289});
            }
            vp::sweep(s, inputs, PLACES);
        }
        for (std::size_t half = 1; half <= most; half++) {
            typedef bc::fri_array_swap<AT<F17>, F17> C;
            for (std::size_t width = 5; width <= 5 + 4 * (half - 1); width += 4) {
                auto s = vp::describe<F17, C>("array swap (" + std::to_string(half) + ") in " + std::to_string(width) + " columns", width, half);
                s.input = [half](const V<F17> &v) {
                    C::input_type in;
                    in.t = v[0];
                    in.arr.assign(v.begin() + 1, v.end());
                    return in;
                };
                s.expected = [](const values &in) -> expected {
                    values out(in.begin() + 1, in.end());
                    for (std::size_t i = 0; in[0] && i < out.size(); i += 2) std::swap(out[i], out[i + 1]);
                    return out;
                };
                std::vector<values> inputs;
                for (std::uint64_t t = 0; t < 2; t++) {    // the control bit is a bit
                    for (auto in : vp::around(vp::distinct(2 * half, 17), 17, half == 1 ? 2 : 1)) {
                        in.insert(in.begin(), t);
                        inputs.push_back(in);
                    }
                }
                vp::sweep(s, inputs, PLACES);
            }
        }
    }

    // ---------------------------------------------------------------- F06

    void polynomials(std::size_t degree, std::size_t width) {
        typedef bc::pow_factor<AT<F17>, F17> C;
        auto s = vp::describe<F17, C>("polynomial of degree " + std::to_string(degree) + " in " + std::to_string(width) + " columns", width, degree);
        s.input = [](const V<F17> &v) {
            C::input_type in;
            in.theta = v[0];
            in.coefficients.assign(v.begin() + 1, v.end());
            return in;
        };
        s.expected = [](const values &in) -> expected {
            std::uint64_t y = 0;
            for (std::size_t i = 1; i < in.size(); i++) y = (y * in[0] + in[i]) % 17;
            return values {y};
        };
        vp::sweep(s, vp::around(vp::distinct(degree + 2, 17), 17, degree <= 2 ? 2 : 1), PLACES);
    }

    template<typename F>
    void powers(std::uint64_t p, std::uint64_t n, std::size_t width) {
        typedef bc::flexible_constant_pow<AT<F>, F> C;
        auto s = vp::describe<F, C>("power " + std::to_string(n) + " in " + std::to_string(width) + " columns", width,
                                    typename F::integral_type(n));
        s.input = [](const V<F> &v) { return typename C::input_type {v[0]}; };
        s.expected = [n, p](const values &in) -> expected { return values {power(in[0], n, p)}; };
        vp::sweep(s, 1, p, PLACES);
    }

    // x is omega to the position whose negated bits, lowest last, are in front of the bit that is computed.
    template<typename F>
    void positions(std::uint64_t p, std::uint64_t omega, std::size_t n, std::size_t width) {
        typedef bc::flexible_x_index<AT<F>, F> C;
        auto s = vp::describe<F, C>("position of " + std::to_string(n) + " bits in " + std::to_string(width) + " columns", width, n,
                                    typename F::value_type(omega));
        s.input = [](const V<F> &v) {
            typename C::input_type in;
            in.x = v[0];
            in.b.assign(v.begin() + 1, v.end());
            return in;
        };
        s.expected = [n, p, omega](const values &in) -> expected {
            for (std::uint64_t b0 = 0; b0 < 2; b0++) {
                std::uint64_t x = b0 ? 1 : omega;
                for (std::size_t i = 0; i < n; i++) x = x * x % p * (in[n - i] ? 1 : omega) % p;
                if (x == in[0]) return values {b0};
            }
            return boost::none;
        };
        std::vector<values> inputs;
        for (std::uint64_t bits = 0; bits < (1u << n); bits++) {
            for (std::uint64_t x = 0; x < p; x++) {
                values in = {x};
                for (std::size_t i = 0; i < n; i++) in.push_back(bits >> i & 1);
                inputs.push_back(in);
            }
        }
        vp::sweep(s, inputs, PLACES);
    }

    template<typename F>
    void cosets(std::uint64_t p, std::uint64_t omega, std::size_t n, std::size_t width) {
        typedef bc::fri_cosets<AT<F>, F> C;
        auto s = vp::describe<F, C>("cosets (" + std::to_string(n) + ") in " + std::to_string(width) + " columns", width, n,
                                    typename F::value_type(omega));
        s.input = [](const V<F> &v) {
            typename C::input_type in;
            in.x = v[0];
            return in;
        };
        s.expected = [n, p, omega](const values &in) -> expected {
            std::uint64_t e = power(omega, in[0] % (1u << n), p);
            values out;
            for (std::size_t i = 0; i < n; i++) {
                out.push_back(e);
                out.push_back((p - e) % p);
                out.push_back(in[0] >> (n - 1 - i) & 1);
                e = e * e % p;
            }
            return out;
        };
        vp::sweep(s, 1, p, PLACES);
    }

    void f06() {
        vp::declare_counters();
        vh::cfg().bounds =
            "polynomials of degree 0 to 40 over a field of 17 (every value of any one coefficient or of the point, of any two up to degree 2); powers 1 to 80 of "
            "every element of a field of 17 and nine exponents up to 65536 over a field of 97; positions of 1 to 5 bits, every element of a field of 257 with "
            "every list of bits; cosets of 1 to 4 steps from every element of a field of 17 (1 to 2 steps from a field of 97), two placements";
        vh::cfg().assumptions = {"the bits given to the position component are bits"};
        for (std::size_t degree = 0; degree <= 40; degree++) {
            for (std::size_t width = 10; width < 10 + degree / 6 + 1; width += 8) polynomials(degree, width);
        }
        for (std::uint64_t n = 1; n <= 80; n++) {
            for (std::size_t width = 5; width <= 7; width++) powers<F17>(17, n, width);
        }
        for (std::uint64_t n : {255u, 256u, 1023u, 1024u, 4095u, 4096u, 16384u, 65535u, 65536u}) {
            for (std::size_t width = 5; width <= 7; width++) powers<F97>(97, n, width);
        }
        for (std::size_t n = 1; n <= 5; n++) {
            for (std::size_t width = 3; width <= 9; width += 3) positions<F257>(257, power(3, 256 >> (n + 1), 257), n, width);
        }
        for (std::size_t n = 1; n <= 4; n++) {
            for (std::size_t width = 9; width <= 9 * n; width += 9) {
                // columns for more bits than the field has are left out
                if (n != 4 || width != 27) cosets<F17>(17, power(3, 16 >> n, 17), n, width);
                if (n <= 2 || (vh::thorough() && (n != 4 || width != 27))) cosets<F97>(97, power(5, 96 >> n, 97), n, width);
                if (vh::thorough()) cosets<F257>(257, power(3, 256 >> n, 257), n, width);
            }
        }
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"F05", f05}, {"F06", f06}});
}
