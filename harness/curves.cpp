// E01: addition of points of a curve over the native field. E02: multiples of such points. E03: scalars of the endomorphism.
#include <vcomponent.hpp>
#include <vlarge.hpp>

#include <nil/crypto3/algebra/curves/pallas.hpp>
#include <nil/crypto3/algebra/curves/vesta.hpp>
#include <nil/blueprint/component_stretcher.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/unified_addition.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/variable_base_scalar_mul.hpp>
#include <nil/blueprint/components/algebra/curves/pasta/plonk/endo_scalar.hpp>

namespace {
    namespace bc = nil::blueprint::components;
    namespace curves = nil::crypto3::algebra::curves;
    using vp::values;
    using vp::big::integer;

    // ---- E01: every pair of points of small curves

    template<std::uint64_t P, std::uint64_t B>
    struct small_curve {
        typedef vp::small_field<P> base_field_type;
        typedef base_field_type scalar_field_type;
        template<typename Coordinates = curves::coordinates::affine, typename Form = curves::forms::short_weierstrass>
        using g1_type = curves::vshim::group<curves::vshim::weierstrass_point<small_curve>>;
        static typename base_field_type::value_type b() {
            return B;
        }
    };

    typedef std::pair<std::uint64_t, std::uint64_t> point;

    // The points, with (0, 0) for the one at infinity, and for every pair the third point on its line, reflected.
    struct group {
        std::uint64_t p, b;
        std::vector<point> points;
        group(std::uint64_t p_, std::uint64_t b_) : p(p_), b(b_) {
            points.push_back({0, 0});
            for (std::uint64_t x = 0; x < p; x++) {
                for (std::uint64_t y = 0; y < p; y++) {
                    if (on(x, y)) points.push_back({x, y});
                }
            }
        }
        bool on(std::uint64_t x, std::uint64_t y) const {
            return y * y % p == (x * x * x + b) % p;
        }
        point sum(const point &a, const point &c) const {
            const point zero(0, 0);
            if (a == zero) return c;
            if (c == zero) return a;
            if (a.first == c.first && (a.second + c.second) % p == 0) return zero;
            // the line y = s x + t through both, with multiplicity, meets the curve in a third point
            for (std::uint64_t s = 0; s < p; s++) {
                std::uint64_t t = (a.second + (p - s) * a.first) % p;
                if ((s * c.first + t) % p != c.second) continue;
                if (a == c && (2 * a.second * s) % p != 3 * a.first * a.first % p) continue;
                std::uint64_t x = (s * s + 2 * p - a.first - c.first) % p;
                return {x, (2 * p - (s * x + t) % p) % p};
            }
            return {p, p};
        }
    };

    template<std::uint64_t P, std::uint64_t B>
    void add(const std::vector<vp::placement> &places) {
        typedef vp::small_field<P> F;
        typedef bc::unified_addition<vp::snark::plonk_constraint_system<F>, small_curve<P, B>> C;
        group g(P, B);
        // as on the curves used, no point has a coordinate of zero
        for (auto &q : g.points) {
            VH_CHECK(q == point(0, 0) || (q.first && q.second), "reference", "the small curve has a point with a coordinate of zero");
        }
        auto s = vp::describe<F, C>("addition on y^2 = x^3 + " + std::to_string(B), 11);
        s.input = [](const std::vector<typename vp::types<F>::var> &v) {
            typename C::input_type in;
            in.P = {v[0], v[1]};
            in.Q = {v[2], v[3]};
            return in;
        };
        s.expected = [=](const values &x) {
            point r = g.sum({x[0], x[1]}, {x[2], x[3]});
            return boost::optional<values>(values {r.first, r.second});
        };
        std::vector<values> inputs;
        for (auto &a : g.points) {
            for (auto &c : g.points) inputs.push_back({a.first, a.second, c.first, c.second});
        }
        vh::sample(s.name + " over the field of " + std::to_string(P) + ", " + std::to_string(g.points.size()) + " points");
        vp::sweep(s, inputs, places);
    }

    void addition() {
        vp::declare_counters();
        vh::cfg().bounds = "all pairs of points, the one at infinity included, of the curves y^2 = x^3 + b without points of zero coordinates, and all contents of the table, over fields of 7, 13, 19" +
                           std::string(vh::thorough() ? ", 31, 37, 43, 61, 67, 73 and 97" : ", 31, 37 and 43") + " elements; three placements";
        vh::cfg().assumptions.push_back("the dependency is replaced by the stand-in of /verif/shim");
        vh::cfg().assumptions.push_back("like those of the curves used, the inputs are points without a coordinate of zero, or (0, 0)");
        const std::vector<vp::placement> places = {{0, 0, 0, false}, {1, 0, 1, false}, {3, 2, 1, true}};
        add<7, 3>(places);
        add<7, 5>(places);
        add<13, 2>(places);
        add<13, 7>(places);
        add<19, 2>(places);
        add<19, 13>(places);
        add<31, 3>(places);
        add<37, 2>(places);
        add<43, 3>(places);
        if (vh::thorough()) {
            add<61, 2>(places);
            add<67, 2>(places);
            add<73, 5>(places);
            add<97, 5>(places);
        }
    }

    // ---- E02: multiples, over the real fields

    template<typename Curve>
    struct constants;
    template<>
    struct constants<curves::pallas> {
        static const char *name() { return "pallas"; }
        static integer field() { return integer("0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001"); }
        static integer order() { return integer("0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"); }
    };
    template<>
    struct constants<curves::vesta> {
        static const char *name() { return "vesta"; }
        static integer field() { return constants<curves::pallas>::order(); }
        static integer order() { return constants<curves::pallas>::field(); }
    };

    typedef std::pair<integer, integer> large_point;

    integer power(integer a, integer n, const integer &p) {
        integer r = 1;
        for (; n > 0; n >>= 1, a = a * a % p) {
            if ((n & 1) != 0) r = r * a % p;
        }
        return r;
    }
    // Jacobian coordinates: x = X/Z^2, y = Y/Z^3, infinity where Z = 0
    struct jacobian {
        integer X, Y, Z;
    };
    jacobian doubled(const jacobian &a, const integer &p) {
        integer S = 4 * a.X * a.Y * a.Y % p, M = 3 * a.X * a.X % p;
        integer X = (M * M - 2 * S) % p;
        integer Y = (M * (S - X) - 8 * a.Y * a.Y * a.Y * a.Y) % p;
        return {(X + p) % p, (Y + p) % p, 2 * a.Y * a.Z % p};
    }
    jacobian plus(const jacobian &a, const jacobian &b, const integer &p) {
        if (a.Z == 0) return b;
        if (b.Z == 0) return a;
        integer U1 = a.X * b.Z % p * b.Z % p, U2 = b.X * a.Z % p * a.Z % p;
        integer S1 = a.Y * b.Z % p * b.Z % p * b.Z % p, S2 = b.Y * a.Z % p * a.Z % p * a.Z % p;
        if (U1 == U2) return S1 == S2 ? doubled(a, p) : jacobian {1, 1, 0};
        integer H = (U2 - U1 + p) % p, R = (S2 - S1 + p) % p;
        integer X = ((R * R - H * H * H - 2 * U1 * H * H) % p + p) % p;
        integer Y = ((R * (U1 * H * H - X) - S1 * H * H * H) % p + p) % p;
        return {X, Y, H * a.Z % p * b.Z % p};
    }
    large_point multiple(const large_point &t, integer n, const integer &p) {
        jacobian sum {1, 1, 0}, a {t.first, t.second, 1};
        if (t == large_point(0, 0)) return t;
        for (; n > 0; n >>= 1, a = doubled(a, p)) {
            if ((n & 1) != 0) sum = plus(sum, a, p);
        }
        if (sum.Z == 0) return {0, 0};
        integer z = power(sum.Z, p - 2, p);
        return {sum.X * z % p * z % p, sum.Y * z % p * z % p * z % p};
    }

    template<typename Curve>
    void multiples() {
        typedef typename Curve::base_field_type F;
        typedef bc::curve_element_variable_base_scalar_mul<vp::snark::plonk_constraint_system<F>, Curve> C;
        const integer p = constants<Curve>::field(), r = constants<Curve>::order(), half = integer(1) << 254;
        const bool split = std::is_same<Curve, curves::pallas>::value;
        vp::big::large<F, C> s;
        s.name = std::string("multiplication on ") + constants<Curve>::name();
        s.witnesses = 15;
        s.inputs = split ? 4 : 3;
        s.make = [](const std::vector<std::uint32_t> &w, const std::vector<std::uint32_t> &c, const std::vector<std::uint32_t> &i) { return C(w, c, i); };
        s.input = [=](const std::vector<typename vp::types<F>::var> &v) {
            return split ? typename C::input_type({v[0], v[1]}, v[2], v[3]) : typename C::input_type({v[0], v[1]}, v[2]);
        };
        s.gates = C::get_gate_manifest(15).get_gates_amount();
        s.rows = C::get_rows_amount(15);
        auto scalar = [=](const std::vector<integer> &in) { return integer(in[2] + (split ? in[3] * half : integer(0))); };
        s.expected = [=](const std::vector<integer> &in) -> boost::optional<std::vector<integer>> {
            // the scalar has one form: a bit, and less than 2^254; and it is less than the order
            if (split && (in[3] > 1 || in[2] >= half)) return boost::none;
            if (scalar(in) >= r) return boost::none;
            large_point m = multiple({in[0], in[1]}, (2 * scalar(in) + 2 * half + 1) % r, p);
            return std::vector<integer> {m.first, m.second};
        };
        s.key = [=](const std::vector<integer> &in, const std::string &k) -> std::string {
            if (in[0] == 0 && in[1] == 0 && k == "wrong-accepted") return "multiple-of-infinity-free";
            const integer t = r - half, k0 = scalar(in);
            if (!split && (k0 == t - 1 || k0 == t || k0 == (3 * r - 1) / 2 - half || k0 == 2 * t - 1 || k0 == 2 * t || k0 == 2 * t + 1)) return "vesta-special-scalars";
            return k;
        };
        std::vector<large_point> points = {multiple({p - 1, 2}, 1, p), multiple({p - 1, 2}, r - 2, p), {0, 0}};
        if (vh::thorough()) {
            for (integer k : {integer(2), integer(3), integer(r / 2), integer("0x123456789abcdef0123456789abcdef0123456789abcdef")}) points.push_back(multiple({p - 1, 2}, k, p));
        }
        // scalars around every bound, and where the multiple is one of the first numbers or their negatives
        std::set<integer> scalars;
        const integer t = r - half;
        const int around = vh::thorough() ? 3 : 1;
        for (const integer &c : {integer(0), integer(t), integer(2 * t), integer((3 * r - 1) / 2 - half), half, r, p, integer(integer(1) << 130), integer(integer(1) << 128), integer(half + (integer(1) << 130)),
                                 integer(half / 2), integer(half - t), integer(integer("0x155555555555555555555555555555555555555555555555555555555555555") * 41 % r)}) {
            for (int d = -around; d <= around; d++) {
                if (c + d >= 0) scalars.insert(c + d);
            }
        }
        for (int i = 0; i < 255; i += vh::thorough() ? 1 : 17) scalars.insert(integer(1) << i);
        std::vector<std::vector<integer>> inputs;
        for (auto &q : points) {
            for (auto &k : scalars) {
                if (split) {
                    if (k < p) inputs.push_back({q.first, q.second, k, 0});
                    if (k >= half && k < half + p) inputs.push_back({q.first, q.second, k - half, 1});
                    if (k < 3) inputs.push_back({q.first, q.second, k, 2});
                } else if (k < p) {
                    inputs.push_back({q.first, q.second, k});
                }
            }
        }
        std::ostringstream os;
        os << s.name << ": " << points.size() << " points, " << scalars.size() << " scalars";
        vh::sample(os.str());
        vp::big::explore(s, inputs);
    }

    void multiplication() {
        vh::declare("circuits");
        vh::cfg().bounds = "both curves, two placements, every point of a list with the one at infinity, every scalar next to a bound or a power of two; every table accepted for them, as the constraints determine all cells that matter";
        vh::cfg().assumptions.push_back("the dependency is replaced by the stand-in of /verif/shim");
        multiples<curves::pallas>();
        multiples<curves::vesta>();
    }
    // ---- E03: the challenge whose bits say how to combine a point and its image becomes the scalar they amount to

    template<typename Curve>
    void endomorphism(const integer &root) {
        typedef typename Curve::scalar_field_type F;
        typedef bc::endo_scalar<vp::snark::plonk_constraint_system<F>, Curve> C;
        const integer r = constants<Curve>::order(), top = integer(1) << 128;
        VH_CHECK((root * root % r * root - 1) % r == 0 && root != 1, "reference", "the reference is not a root of unity");
        auto scalar = [=](const integer &challenge) {
            integer a = 2, b = 2;
            for (int i = 126; i >= 0; i -= 2) {
                int sign = ((challenge >> i) & 1) != 0 ? 1 : -1;
                a *= 2;
                b *= 2;
                (((challenge >> (i + 1)) & 1) != 0 ? a : b) += sign;
            }
            return integer((a % r * root + b) % r);
        };
        vp::big::large<F, C> s;
        s.name = std::string("endomorphism of ") + constants<Curve>::name();
        s.witnesses = 15;
        s.inputs = 1;
        s.constants = 0;
        s.make = [](const std::vector<std::uint32_t> &w, const std::vector<std::uint32_t> &c, const std::vector<std::uint32_t> &i) { return C(w, c, i, 128); };
        s.input = [=](const std::vector<typename vp::types<F>::var> &v) { return typename C::input_type {v[0]}; };
        s.gates = C::get_gate_manifest(15).get_gates_amount();
        s.rows = C::get_rows_amount(15);
        s.expected = [=](const std::vector<integer> &in) -> boost::optional<std::vector<integer>> {
            if (in[0] >= top) return boost::none;
            return std::vector<integer> {scalar(in[0])};
        };
        std::set<integer> challenges = {r - 1, top, top + 1, integer(1) << 254, (r - 1) / 2};
        for (int i = 0; i < 128; i++) {
            challenges.insert(integer(1) << i);
            challenges.insert((integer(1) << i) - 1);
            challenges.insert(top - (integer(1) << i));
            challenges.insert(top - 1 - (integer(1) << i));
            for (int j = 0; j < (vh::thorough() ? i : 4) && j < i; j++) challenges.insert((integer(1) << i) + (integer(1) << j));
        }
        // contents of a row: the last, a middle and the first one; all of them in the first
        for (int row : {0, 3, 7}) {
            for (unsigned n = 0; n < 65536; n += vh::thorough() && row == 7 ? 1 : 257) challenges.insert(integer(n) << (16 * row));
        }
        std::vector<std::vector<integer>> inputs;
        for (auto &c : challenges) inputs.push_back({c});
        vh::sample(s.name + ": " + std::to_string(inputs.size()) + " challenges");
        vp::big::explore(s, inputs);
    }

    void endomorphisms() {
        vh::declare("circuits");
        vh::cfg().bounds = std::string("both curves, two placements; challenges of one or two bits set or cleared, around every power of two, ") +
                           (vh::thorough() ? "with any content of the first row of the table, with equal halves of another" : "with equal halves of one row of the table") +
                           ", and too large ones; every table accepted for them";
        vh::cfg().assumptions.push_back("the dependency is replaced by the stand-in of /verif/shim");
        endomorphism<curves::vesta>(integer("0x12CCCA834ACDBA712CAAD5DC57AAB1B01D1F8BD237AD31491DAD5EBDFDFE4AB9"));
        endomorphism<curves::pallas>(integer("0x397E65A7D7C1AD71AEE24B27E308F0A61259527EC1D4752E619D1840AF55F1B1"));
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"E01", addition}, {"E02", multiplication}, {"E03", endomorphisms}});
}
