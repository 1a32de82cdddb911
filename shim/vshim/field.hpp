// Stand-in for the prime fields of the crypto3 algebra library, which is not available here.
//
// A field is a modulus; an element is its canonical representative.  Nothing is
// clever: sums and products are reduced with the integer remainder, inverses come
// from Fermat's theorem, square roots from Tonelli-Shanks.
#ifndef VSHIM_FIELD_HPP
#define VSHIM_FIELD_HPP

#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <ostream>
#include <set>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

#include <boost/assert.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/number.hpp>

namespace boost {
    namespace multiprecision {
        namespace backends {
            template<unsigned Bits>
            using cpp_int_modular_backend = cpp_int_backend<Bits, Bits, unsigned_magnitude, unchecked, void>;
        }
        using backends::cpp_int_modular_backend;

        namespace literals {
#define VSHIM_LITERAL(N)                                                                                     \
    template<char... STR>                                                                                    \
    constexpr number<cpp_int_backend<N, N, unsigned_magnitude, unchecked, void>> operator"" _cppui_modular##N() { \
        using pt = typename detail::make_packed_value_from_str<STR...>::type;                                \
        return detail::make_backend_from_pack<pt, cpp_int_backend<N, N, unsigned_magnitude, unchecked, void>>::value; \
    }
            VSHIM_LITERAL(64)
            VSHIM_LITERAL(128)
            VSHIM_LITERAL(253)
            VSHIM_LITERAL(254)
            VSHIM_LITERAL(255)
            VSHIM_LITERAL(256)
            VSHIM_LITERAL(257)
            VSHIM_LITERAL(381)
            VSHIM_LITERAL(512)
#undef VSHIM_LITERAL
        }
    }    // namespace multiprecision
}    // namespace boost

namespace nil {
    using namespace boost::multiprecision::literals;
    namespace crypto3 {
        namespace multiprecision {
            using namespace boost::multiprecision;
            namespace literals {
                using namespace boost::multiprecision::literals;
            }
        }
        namespace algebra {
            namespace fields {
                namespace vshim {
                    using wide = boost::multiprecision::number<
                        boost::multiprecision::cpp_int_backend<512, 512, boost::multiprecision::unsigned_magnitude,
                                                               boost::multiprecision::unchecked, void>>;
                    using wider = boost::multiprecision::number<
                        boost::multiprecision::cpp_int_backend<1088, 1088, boost::multiprecision::unsigned_magnitude,
                                                               boost::multiprecision::unchecked, void>>;

                    // The representative held by an element.  The original stores a Montgomery form and
                    // hands out the number through base_data(); here the number is stored as it is.
                    class representative {
                        wide value;

                    public:
                        struct backend_type : wide::backend_type {
                            constexpr backend_type(const wide::backend_type &b) : wide::backend_type(b) {
                            }
                            constexpr const wide::backend_type &base_data() const {
                                return *this;
                            }
                        };
                        constexpr representative() : value(0u) {
                        }
                        constexpr representative(const wide &w) : value(w) {
                        }
                        template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
                        constexpr representative(T v) : value(v) {
                        }
                        constexpr operator const wide &() const {
                            return value;
                        }
                        template<typename T, typename std::enable_if<std::is_arithmetic<T>::value, bool>::type = true>
                        constexpr explicit operator T() const {
                            return static_cast<T>(value);
                        }
                        template<typename B, boost::multiprecision::expression_template_option E,
                                 typename std::enable_if<!std::is_same<boost::multiprecision::number<B, E>, wide>::value,
                                                         bool>::type = true>
                        constexpr explicit operator boost::multiprecision::number<B, E>() const {
                            return static_cast<boost::multiprecision::number<B, E>>(value);
                        }
                        template<typename T>
                        constexpr T convert_to() const {
                            return value.template convert_to<T>();
                        }
                        std::string str(std::streamsize digits = 0, std::ios_base::fmtflags f = std::ios_base::fmtflags(0)) const {
                            return value.str(digits, f);
                        }
                        constexpr backend_type backend() const {
                            return backend_type(value.backend());
                        }
                        constexpr std::uint64_t low() const {
                            return static_cast<std::uint64_t>(value.backend().limbs()[0]);
                        }
                        constexpr void set_small(std::uint64_t v) {
                            value = v;
                        }
                        constexpr wide &number() {
                            return value;
                        }
                        constexpr const wide &number() const {
                            return value;
                        }
                        friend std::ostream &operator<<(std::ostream &os, const representative &r) {
                            return os << r.value;
                        }
#define VSHIM_COMPARE(OP)                                                             \
    friend constexpr bool operator OP(const representative &a, const representative &b) {       \
        return a.value OP b.value;                                                    \
    }                                                                                 \
    template<typename T>                                                              \
    friend constexpr auto operator OP(const representative &a, const T &b) -> typename std::enable_if<!std::is_same<T, representative>::value, decltype(std::declval<const wide &>() OP b)>::type { \
        return a.value OP b;                                                          \
    }
                        VSHIM_COMPARE(==)
                        VSHIM_COMPARE(!=)
                        VSHIM_COMPARE(<)
                        VSHIM_COMPARE(>)
                        VSHIM_COMPARE(<=)
                        VSHIM_COMPARE(>=)
#undef VSHIM_COMPARE
#define VSHIM_PLAIN(OP)                                                               \
    friend constexpr wide operator OP(const representative &a, const wide &b) {       \
        return a.value OP b;                                                          \
    }                                                                                 \
    friend constexpr wide operator OP(const wide &a, const representative &b) {       \
        return a OP b.value;                                                          \
    }                                                                                 \
    friend constexpr wide operator OP(const representative &a, const representative &b) { \
        return a.value OP b.value;                                                    \
    }
                        VSHIM_PLAIN(+)
                        VSHIM_PLAIN(-)
                        VSHIM_PLAIN(*)
                        VSHIM_PLAIN(/)
                        VSHIM_PLAIN(%)
                        VSHIM_PLAIN(&)
                        VSHIM_PLAIN(|)
                        VSHIM_PLAIN(^)
#undef VSHIM_PLAIN
#define VSHIM_ARITH(OP)                                                               \
    template<typename T>                                                              \
    friend constexpr auto operator OP(const representative &a, const T &b) -> typename std::enable_if<!std::is_same<T, representative>::value, decltype(wide(std::declval<const wide &>() OP b))>::type { \
        return a.value OP b;                                                          \
    }
                        VSHIM_ARITH(+)
                        VSHIM_ARITH(-)
                        VSHIM_ARITH(*)
                        VSHIM_ARITH(/)
                        VSHIM_ARITH(%)
                        VSHIM_ARITH(&)
                        VSHIM_ARITH(|)
                        VSHIM_ARITH(>>)
                        VSHIM_ARITH(<<)
#undef VSHIM_ARITH
                    };

                }    // namespace vshim

                namespace detail {
                    template<typename FieldParams>
                    class element_fp {
                    public:
                        typedef FieldParams field_type;
                        typedef vshim::wide integral_type;
                        vshim::representative data;

                        static constexpr integral_type modulus_constant = FieldParams::modulus_number();
                        static constexpr integral_type modulus = FieldParams::modulus_number();
                        static constexpr std::uint64_t small_constant =
                            FieldParams::modulus_bits <= 62 ? static_cast<std::uint64_t>(FieldParams::modulus_number()) :
                                                              0;
                        static constexpr const integral_type &modulus_value() {
                            return modulus_constant;
                        }
                        static constexpr std::uint64_t small_modulus() {
                            return small_constant;
                        }
                        static constexpr std::uint64_t low(const integral_type &x) {
                            return x.backend().limbs()[0];
                        }
                        static constexpr std::uint64_t low(const vshim::representative &x) {
                            return x.low();
                        }
                        static constexpr bool is_small = FieldParams::modulus_bits <= 62;

                        constexpr element_fp() : data(0u) {
                        }
                        element_fp(const element_fp &) = default;
                        element_fp(element_fp &&) = default;
                        element_fp &operator=(const element_fp &) = default;
                        element_fp &operator=(element_fp &&) = default;

                        template<typename T,
                                 typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
                        constexpr element_fp(T value) {
                            assign_integral(value);
                        }
                        template<typename T, typename std::enable_if<std::is_enum<T>::value &&
                                                                         std::is_convertible<T, long long>::value,
                                                                     bool>::type = true>
                        constexpr element_fp(T value) {
                            assign_integral(static_cast<long long>(value));
                        }
                        template<typename B, boost::multiprecision::expression_template_option E>
                        constexpr element_fp(const boost::multiprecision::number<B, E> &value) {
                            typedef boost::multiprecision::number<B, E> source;
                            if constexpr (std::numeric_limits<source>::is_bounded &&
                                          !std::numeric_limits<source>::is_signed &&
                                          std::numeric_limits<source>::digits <= 512) {
                                integral_type v(value);
                                if (v >= modulus_value()) {
                                    v %= modulus_value();
                                }
                                data = v;
                            } else {
                                boost::multiprecision::cpp_int v(value);
                                boost::multiprecision::cpp_int m(modulus_value());
                                v %= m;
                                if (v < 0) {
                                    v += m;
                                }
                                data = static_cast<integral_type>(v);
                            }
                        }
                        constexpr element_fp(const integral_type &value) : data(value) {
                            if (data.number() >= modulus_value()) {
                                data.number() %= modulus_value();
                            }
                        }
                        constexpr element_fp(const vshim::representative &value) : element_fp(value.number()) {
                        }
                        template<typename Tag, typename A1, typename A2, typename A3, typename A4>
                        constexpr element_fp(const boost::multiprecision::detail::expression<Tag, A1, A2, A3, A4> &e) :
                            element_fp(typename boost::multiprecision::detail::expression<Tag, A1, A2, A3,
                                                                                          A4>::result_type(e)) {
                        }

                        constexpr static element_fp zero() {
                            return element_fp();
                        }
                        constexpr static element_fp one() {
                            return element_fp(1u);
                        }
                        constexpr bool is_zero() const {
                            return data.number() == 0u;
                        }
                        constexpr bool is_one() const {
                            return data.number() == 1u;
                        }
                        constexpr bool operator==(const element_fp &o) const {
                            return data == o.data;
                        }
                        constexpr bool operator!=(const element_fp &o) const {
                            return !(data == o.data);
                        }
                        constexpr bool operator<(const element_fp &o) const {
                            return data < o.data;
                        }
                        constexpr bool operator>(const element_fp &o) const {
                            return data > o.data;
                        }
                        constexpr bool operator<=(const element_fp &o) const {
                            return data <= o.data;
                        }
                        constexpr bool operator>=(const element_fp &o) const {
                            return data >= o.data;
                        }
                        constexpr element_fp &operator+=(const element_fp &o) {
                            if constexpr (is_small) {
                                std::uint64_t s = low(data) + low(o.data);
                                data.set_small(s >= small_modulus() ? s - small_modulus() : s);
                            } else {
                                data.number() += o.data.number();
                                if (data.number() >= modulus_value()) {
                                    data.number() -= modulus_value();
                                }
                            }
                            return *this;
                        }
                        constexpr element_fp &operator-=(const element_fp &o) {
                            if constexpr (is_small) {
                                std::uint64_t a = low(data), b = low(o.data);
                                data.set_small(a >= b ? a - b : a + small_modulus() - b);
                            } else {
                                if (data.number() < o.data.number()) {
                                    data.number() += modulus_value();
                                }
                                data.number() -= o.data.number();
                            }
                            return *this;
                        }
                        constexpr element_fp &operator*=(const element_fp &o) {
                            if constexpr (is_small) {
                                data.set_small(static_cast<std::uint64_t>(
                                    static_cast<unsigned __int128>(low(data)) * low(o.data) % small_modulus()));
                            } else {
                                vshim::wider p(data.number());
                                p *= vshim::wider(o.data.number());
                                p %= vshim::wider(modulus_value());
                                data = static_cast<integral_type>(p);
                            }
                            return *this;
                        }
                        constexpr element_fp &operator/=(const element_fp &o) {
                            return *this *= o.inversed();
                        }
                        friend constexpr element_fp operator+(element_fp a, const element_fp &b) {
                            a += b;
                            return a;
                        }
                        friend constexpr element_fp operator-(element_fp a, const element_fp &b) {
                            a -= b;
                            return a;
                        }
                        friend constexpr element_fp operator*(element_fp a, const element_fp &b) {
                            a *= b;
                            return a;
                        }
                        friend constexpr element_fp operator/(element_fp a, const element_fp &b) {
                            a /= b;
                            return a;
                        }
                        constexpr element_fp operator-() const {
                            return element_fp() -= *this;
                        }
                        constexpr element_fp &operator++() {
                            return *this += one();
                        }
                        constexpr element_fp operator++(int) {
                            element_fp r(*this);
                            *this += one();
                            return r;
                        }
                        constexpr element_fp operator--(int) {
                            element_fp r = *this;
                            --*this;
                            return r;
                        }
                        constexpr element_fp &operator--() {
                            return *this -= one();
                        }
                        constexpr element_fp doubled() const {
                            return *this + *this;
                        }
                        constexpr element_fp squared() const {
                            return *this * *this;
                        }
                        constexpr bool is_square() const {
                            if (is_zero()) {
                                return true;
                            }
                            return pow((modulus_value() - 1u) >> 1).is_one();
                        }
                        template<typename T>
                        constexpr element_fp pow(const T &power) const {
                            element_fp result = one(), base(*this);
                            integral_type e(power);
                            while (e != 0u) {
                                if ((low(e) & 1u) != 0) {
                                    result *= base;
                                }
                                e >>= 1;
                                if (e != 0u) {
                                    base *= base;
                                }
                            }
                            return result;
                        }
                        constexpr element_fp inversed() const {
                            if constexpr (is_small) {
                                long long t = 0, nt = 1, r = static_cast<long long>(small_modulus()),
                                          nr = static_cast<long long>(low(data));
                                while (nr != 0) {
                                    long long q = r / nr, x = t - q * nt;
                                    t = nt;
                                    nt = x;
                                    x = r - q * nr;
                                    r = nr;
                                    nr = x;
                                }
                                element_fp result;
                                result.data.set_small(
                                    static_cast<std::uint64_t>(t < 0 ? t + static_cast<long long>(small_modulus()) : t));
                                return result;    // of zero: zero
                            } else {
                                return pow(modulus_value() - 2u);
                            }
                        }
                        constexpr element_fp sqrt() const {
                            if (is_zero()) {
                                return zero();
                            }
                            integral_type q = modulus_value() - 1u;
                            unsigned s = 0;
                            while ((low(q) & 1u) == 0) {
                                q >>= 1;
                                s++;
                            }
                            element_fp z(2u);
                            while (z.is_square()) {
                                z += one();
                            }
                            element_fp c = z.pow(q), r = pow((q + 1u) >> 1), t = pow(q);
                            unsigned m = s;
                            while (!t.is_one()) {
                                unsigned i = 0;
                                element_fp u(t);
                                while (!u.is_one() && i < m) {
                                    u *= u;
                                    i++;
                                }
                                if (i >= m) {
                                    return zero();    // not a square
                                }
                                element_fp b(c);
                                for (unsigned j = 0; j + i + 1 < m; j++) {
                                    b *= b;
                                }
                                r *= b;
                                c = b * b;
                                t *= c;
                                m = i;
                            }
                            return r;
                        }
                        constexpr integral_type to_integral() const {
                            return data;
                        }
                        friend std::ostream &operator<<(std::ostream &os, const element_fp &e) {
                            return os << e.data;
                        }

                    private:
                        template<typename T>
                        constexpr void assign_integral(T value) {
                            if constexpr (std::is_signed<T>::value) {
                                if (value < 0) {
                                    integral_type v(static_cast<unsigned long long>(-(value + 1)));
                                    v += 1u;
                                    v %= modulus_value();
                                    data = v == 0u ? v : integral_type(modulus_value() - v);
                                    return;
                                }
                            }
                            data = static_cast<unsigned long long>(value);
                            if (data.number() >= modulus_value()) {
                                data.number() %= modulus_value();
                            }
                        }
                    };
                    template<typename FieldParams, typename Number>
                    constexpr element_fp<FieldParams> power(const element_fp<FieldParams> &base, const Number &exponent) {
                        return base.pow(exponent);
                    }
                }    // namespace detail

                // Params: modulus_bits and modulus_number().
                template<typename Params>
                struct vshim_field {
                    typedef vshim::wide integral_type;
                    typedef vshim::wider extended_integral_type;
                    typedef vshim::wide modular_type;
                    typedef Params params_type;
                    typedef detail::element_fp<Params> value_type;
                    static constexpr std::size_t modulus_bits = Params::modulus_bits;
                    static constexpr std::size_t number_bits = Params::modulus_bits;
                    static constexpr std::size_t value_bits = Params::modulus_bits;
                    static constexpr std::size_t arity = 1;
                    static constexpr integral_type modulus = Params::modulus_number();
                };

                namespace vshim {
                    constexpr std::size_t bits_of(std::uint64_t x) {
                        return x == 0 ? 0 : 1 + bits_of(x >> 1);
                    }
                    template<std::uint64_t P>
                    struct small_params {
                        static constexpr std::size_t modulus_bits = bits_of(P);
                        static constexpr wide modulus_number() {
                            return wide(P);
                        }
                    };
                    // A field of P elements, P any prime below 2^62.
                    template<std::uint64_t P>
                    struct small_field : vshim_field<small_params<P>> { };

#define VSHIM_FIELD(NAME, BITS, TEXT)                          \
    struct NAME##_params {                                     \
        static constexpr std::size_t modulus_bits = BITS;      \
        static constexpr wide modulus_number() {                         \
            return wide(TEXT);                                \
        }                                                      \
    };                                                         \
    struct NAME : vshim_field<NAME##_params> { };

                    VSHIM_FIELD(pallas_base, 255,
                                0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001_cppui512)
                    VSHIM_FIELD(vesta_base, 255,
                                0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001_cppui512)
                    VSHIM_FIELD(curve25519_base, 255,
                                0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed_cppui512)
                    VSHIM_FIELD(curve25519_scalar, 253,
                                0x1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed_cppui512)
                    VSHIM_FIELD(goldilocks, 64, 0xffffffff00000001_cppui512)
                    VSHIM_FIELD(bls12_381_base, 381,
                                0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab_cppui512)
                    VSHIM_FIELD(bls12_381_scalar, 255,
                                0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001_cppui512)
                    VSHIM_FIELD(bls12_377_base, 377,
                                0x1ae3a4617c510eac63b05c06ca1493b1a22d9f300f5138f1ef3622fba094800170b5d44300000008508c00000000001_cppui512)
                    VSHIM_FIELD(bls12_377_scalar, 253,
                                0x12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001_cppui512)
#undef VSHIM_FIELD
                }    // namespace vshim

                struct pallas_base_field : vshim::pallas_base { };
                struct vesta_base_field : vshim::vesta_base { };
                typedef vesta_base_field pallas_scalar_field;
                typedef pallas_base_field vesta_scalar_field;
                typedef pallas_base_field pallas_fq;
                typedef vesta_base_field vesta_fq;
                struct curve25519_base_field : vshim::curve25519_base { };
                struct curve25519_scalar_field : vshim::curve25519_scalar { };
                struct goldilocks64_base_field : vshim::goldilocks { };
                template<std::size_t Version>
                struct bls12_base_field;
                template<>
                struct bls12_base_field<381> : vshim::bls12_381_base { };
                template<>
                struct bls12_base_field<377> : vshim::bls12_377_base { };
                template<std::size_t Version>
                struct bls12_scalar_field;
                template<>
                struct bls12_scalar_field<381> : vshim::bls12_381_scalar { };
                template<>
                struct bls12_scalar_field<377> : vshim::bls12_377_scalar { };
                template<std::size_t Version>
                using bls12_fr = bls12_scalar_field<Version>;

                template<typename FieldType>
                struct arithmetic_params { };
            }    // namespace fields
        }        // namespace algebra
    }            // namespace crypto3
}    // namespace nil

namespace std {
    template<typename P>
    struct hash<nil::crypto3::algebra::fields::detail::element_fp<P>> {
        std::size_t operator()(const nil::crypto3::algebra::fields::detail::element_fp<P> &e) const {
            return boost::multiprecision::hash_value(e.data.number());
        }
    };
}    // namespace std
#endif
