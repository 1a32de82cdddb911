// Elliptic curves in affine coordinates: their fields, and points added with the textbook formulas.
#ifndef VSHIM_CURVES_HPP
#define VSHIM_CURVES_HPP
#include <vshim/field.hpp>
namespace nil {
    namespace crypto3 {
        namespace algebra {
            namespace curves {
                namespace coordinates {
                    struct affine { };
                    struct projective { };
                }
                namespace forms {
                    struct short_weierstrass { };
                    struct twisted_edwards { };
                    struct montgomery { };
                }
                namespace vshim {
                    // y^2 = x^3 + B.  The point at infinity is (0, 1), which is not on the curves used.
                    template<typename Curve>
                    struct weierstrass_point {
                        typedef typename Curve::base_field_type field_type;
                        typedef typename field_type::value_type coordinate;
                        coordinate X, Y;
                        constexpr weierstrass_point() : X(0u), Y(1u) {
                        }
                        constexpr weierstrass_point(const coordinate &x, const coordinate &y) : X(x), Y(y) {
                        }
                        static weierstrass_point zero() {
                            return {};
                        }
                        static weierstrass_point one() {
                            return Curve::generator();
                        }
                        bool is_zero() const {
                            return X == coordinate(0u) && Y == coordinate(1u);
                        }
                        bool is_well_formed() const {
                            return is_zero() || Y * Y == X * X * X + Curve::b();
                        }
                        bool operator==(const weierstrass_point &o) const {
                            return X == o.X && Y == o.Y;
                        }
                        bool operator!=(const weierstrass_point &o) const {
                            return !(*this == o);
                        }
                        weierstrass_point operator-() const {
                            return is_zero() ? *this : weierstrass_point(X, -Y);
                        }
                        weierstrass_point operator+(const weierstrass_point &o) const {
                            if (is_zero()) return o;
                            if (o.is_zero()) return *this;
                            coordinate slope;
                            if (X != o.X) {
                                slope = (o.Y - Y) * (o.X - X).inversed();
                            } else if (Y == o.Y && Y != coordinate(0u)) {
                                slope = coordinate(3u) * X * X * (coordinate(2u) * Y).inversed();
                            } else {
                                return zero();
                            }
                            coordinate x = slope * slope - X - o.X;
                            return {x, slope * (X - x) - Y};
                        }
                        weierstrass_point operator-(const weierstrass_point &o) const {
                            return *this + (-o);
                        }
                        weierstrass_point &operator+=(const weierstrass_point &o) {
                            return *this = *this + o;
                        }
                        weierstrass_point &operator-=(const weierstrass_point &o) {
                            return *this = *this - o;
                        }
                        weierstrass_point doubled() const {
                            return *this + *this;
                        }
                        void double_inplace() {
                            *this = doubled();
                        }
                        weierstrass_point to_affine() const {
                            return *this;
                        }
                    };
                    // -x^2 + y^2 = 1 + D x^2 y^2, with a complete law of addition.
                    template<typename Curve>
                    struct edwards_point {
                        typedef typename Curve::base_field_type field_type;
                        typedef typename field_type::value_type coordinate;
                        coordinate X, Y;
                        edwards_point() : X(0u), Y(1u) {
                        }
                        edwards_point(const coordinate &x, const coordinate &y) : X(x), Y(y) {
                        }
                        static edwards_point zero() {
                            return {};
                        }
                        static edwards_point one() {
                            return Curve::generator();
                        }
                        bool is_zero() const {
                            return X == coordinate(0u) && Y == coordinate(1u);
                        }
                        bool is_well_formed() const {
                            return Y * Y - X * X == coordinate(1u) + Curve::d() * X * X * Y * Y;
                        }
                        bool operator==(const edwards_point &o) const {
                            return X == o.X && Y == o.Y;
                        }
                        bool operator!=(const edwards_point &o) const {
                            return !(*this == o);
                        }
                        edwards_point operator-() const {
                            return {-X, Y};
                        }
                        edwards_point operator+(const edwards_point &o) const {
                            coordinate t = Curve::d() * X * o.X * Y * o.Y, one(1u);
                            return {(X * o.Y + Y * o.X) * (one + t).inversed(), (Y * o.Y + X * o.X) * (one - t).inversed()};
                        }
                        edwards_point operator-(const edwards_point &o) const {
                            return *this + (-o);
                        }
                        edwards_point &operator+=(const edwards_point &o) {
                            return *this = *this + o;
                        }
                        edwards_point &operator-=(const edwards_point &o) {
                            return *this = *this - o;
                        }
                        edwards_point doubled() const {
                            return *this + *this;
                        }
                        void double_inplace() {
                            *this = doubled();
                        }
                        edwards_point to_affine() const {
                            return *this;
                        }
                    };
                    template<typename Point, typename Number>
                    Point multiple(Point p, Number n) {
                        Point sum = Point::zero();
                        for (; n != 0u; n >>= 1) {
                            if ((n & 1u) != 0u) sum = sum + p;
                            p = p + p;
                        }
                        return sum;
                    }
#define VSHIM_MULTIPLE(POINT)                                                                                \
    template<typename Curve, typename FieldParams>                                                           \
    POINT<Curve> operator*(const POINT<Curve> &p, const fields::detail::element_fp<FieldParams> &n) {        \
        return multiple(p, n.data.number());                                                                 \
    }                                                                                                        \
    template<typename Curve, typename FieldParams>                                                           \
    POINT<Curve> operator*(const fields::detail::element_fp<FieldParams> &n, const POINT<Curve> &p) {        \
        return multiple(p, n.data.number());                                                                 \
    }                                                                                                        \
    template<typename Curve, typename B, boost::multiprecision::expression_template_option E>                \
    POINT<Curve> operator*(const POINT<Curve> &p, const boost::multiprecision::number<B, E> &n) {            \
        return multiple(p, n);                                                                               \
    }                                                                                                        \
    template<typename Curve>                                                                                 \
    POINT<Curve> operator*(const POINT<Curve> &p, std::uint64_t n) {                                         \
        return multiple(p, n);                                                                               \
    }
                    VSHIM_MULTIPLE(weierstrass_point)
                    VSHIM_MULTIPLE(edwards_point)
#undef VSHIM_MULTIPLE
                    template<typename Point>
                    struct group {
                        typedef Point value_type;
                    };
                }    // namespace vshim
                struct pallas {
                    typedef fields::pallas_base_field base_field_type;
                    typedef fields::vesta_base_field scalar_field_type;
                    template<typename Coordinates = coordinates::affine, typename Form = forms::short_weierstrass>
                    using g1_type = vshim::group<vshim::weierstrass_point<pallas>>;
                    static base_field_type::value_type b() {
                        return 5u;
                    }
                    static vshim::weierstrass_point<pallas> generator() {
                        return {-base_field_type::value_type(1u), 2u};
                    }
                };
                struct vesta {
                    typedef fields::vesta_base_field base_field_type;
                    typedef fields::pallas_base_field scalar_field_type;
                    template<typename Coordinates = coordinates::affine, typename Form = forms::short_weierstrass>
                    using g1_type = vshim::group<vshim::weierstrass_point<vesta>>;
                    static base_field_type::value_type b() {
                        return 5u;
                    }
                    static vshim::weierstrass_point<vesta> generator() {
                        return {-base_field_type::value_type(1u), 2u};
                    }
                };
                struct ed25519 {
                    typedef fields::curve25519_base_field base_field_type;
                    typedef fields::curve25519_scalar_field scalar_field_type;
                    template<typename Coordinates = coordinates::affine, typename Form = forms::twisted_edwards>
                    using g1_type = vshim::group<vshim::edwards_point<ed25519>>;
                    static base_field_type::value_type d() {
                        return -base_field_type::value_type(121665u) * base_field_type::value_type(121666u).inversed();
                    }
                    // y = 4/5 and the even x
                    static vshim::edwards_point<ed25519> generator() {
                        typedef base_field_type::value_type value;
                        value y = value(4u) * value(5u).inversed();
                        value x = ((y * y - value(1u)) * (d() * y * y + value(1u)).inversed()).sqrt();
                        if (x.data.low() & 1) x = -x;
                        return {x, y};
                    }
                };
            }    // namespace curves
        }        // namespace algebra
    }            // namespace crypto3
}    // namespace nil
#endif
