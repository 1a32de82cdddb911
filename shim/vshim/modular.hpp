// Stand-in for the modular numbers of crypto3's multiprecision library: a number kept reduced
// by a modulus fixed at compile time.
#ifndef VSHIM_MODULAR_HPP
#define VSHIM_MODULAR_HPP
#include <vshim/field.hpp>

namespace boost {
    namespace multiprecision {
        namespace backends {
            template<typename Backend>
            class modular_params {
                Backend modulus;

            public:
                constexpr modular_params(const Backend &m) : modulus(m) {
                }
                constexpr modular_params(const number<Backend> &m) : modulus(m.backend()) {
                }
                constexpr const Backend &mod() const {
                    return modulus;
                }
                constexpr number<Backend> get_mod() const {
                    return number<Backend>(modulus);
                }
            };

            template<typename Backend, const modular_params<Backend> &Params>
            struct modular_params_ct {
                static constexpr number<Backend> modulus() {
                    return number<Backend>(Params.mod());
                }
            };

            template<typename Backend, typename StorageType>
            class modular_adaptor {
                Backend value;

            public:
                constexpr modular_adaptor() : value() {
                }
                constexpr modular_adaptor(const Backend &v) : value((number<Backend>(v) % StorageType::modulus()).backend()) {
                }
                constexpr const Backend &base_data() const {
                    return value;
                }
                constexpr explicit operator Backend() const {
                    return value;
                }
            };
        }    // namespace backends

        // Neither of boost's two families of operators applies to these numbers; they bring their own.
        template<typename B, typename S>
        struct expression_template_default<backends::modular_adaptor<B, S>> {
            static constexpr expression_template_option value = static_cast<expression_template_option>(2);
        };

        template<typename B, typename S, expression_template_option ET>
        class number<backends::modular_adaptor<B, S>, ET> {
            typedef number<B> integral;
            typedef number<cpp_int_backend<1088, 1088, unsigned_magnitude, unchecked, void>> wider;
            integral value;

            static constexpr integral modulus() {
                return S::modulus();
            }
            static constexpr integral reduce(const wider &w) {
                return static_cast<integral>(w % wider(modulus()));
            }

        public:
            typedef backends::modular_adaptor<B, S> backend_type;

            constexpr number() : value(0u) {
            }
            constexpr number(const backend_type &b) : value(integral(b.base_data())) {
            }
            template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
            constexpr number(T v) : value(0u) {
                if constexpr (std::is_signed<T>::value) {
                    if (v < 0) {
                        value = modulus() - integral(static_cast<unsigned long long>(-(v + 1))) - 1u;
                        return;
                    }
                }
                value = integral(static_cast<unsigned long long>(v)) % modulus();
            }
            template<typename B2, expression_template_option E2,
                     typename std::enable_if<is_number<number<B2, E2>>::value && !std::is_same<number<B2, E2>, number>::value,
                                             bool>::type = true>
            constexpr number(const number<B2, E2> &v) : value(reduce(wider(v))) {
            }
            explicit number(const char *text) : value(reduce(wider(text))) {
            }

            constexpr backend_type backend() const {
                return backend_type(value.backend());
            }
            template<typename T, typename std::enable_if<std::is_arithmetic<T>::value, bool>::type = true>
            constexpr explicit operator T() const {
                return static_cast<T>(value);
            }
            template<typename B2, expression_template_option E2>
            constexpr explicit operator number<B2, E2>() const {
                return static_cast<number<B2, E2>>(value);
            }
            template<typename T>
            constexpr T convert_to() const {
                return static_cast<T>(*this);
            }
            std::string str(std::streamsize digits = 0, std::ios_base::fmtflags f = std::ios_base::fmtflags(0)) const {
                return value.str(digits, f);
            }
            constexpr bool is_zero() const {
                return value == 0u;
            }

            friend constexpr number operator+(const number &a, const number &b) {
                return number(wider(a.value) + wider(b.value));
            }
            friend constexpr number operator-(const number &a, const number &b) {
                return number(wider(a.value) + wider(modulus()) - wider(b.value));
            }
            friend constexpr number operator*(const number &a, const number &b) {
                return number(wider(a.value) * wider(b.value));
            }
            // quotient and remainder are those of the representatives
            friend constexpr number operator/(const number &a, const number &b) {
                return number(a.value / b.value);
            }
            friend constexpr number operator%(const number &a, const number &b) {
                return number(a.value % b.value);
            }
            template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
            friend constexpr number operator<<(const number &a, T shift) {
                number result(a);
                for (T i = 0; i < shift; i++) {
                    result = result + result;
                }
                return result;
            }
            constexpr number operator-() const {
                return number(0u) - *this;
            }
            constexpr number &operator+=(const number &o) {
                return *this = *this + o;
            }
            constexpr number &operator-=(const number &o) {
                return *this = *this - o;
            }
            constexpr number &operator*=(const number &o) {
                return *this = *this * o;
            }
            friend constexpr bool operator==(const number &a, const number &b) {
                return a.value == b.value;
            }
            template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
            friend constexpr bool operator==(const number &a, const T &b) {
                return a.value == number(b).value;
            }
            friend constexpr bool operator!=(const number &a, const number &b) {
                return a.value != b.value;
            }
            template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
            friend constexpr bool operator!=(const number &a, const T &b) {
                return a.value != number(b).value;
            }
            friend constexpr bool operator<(const number &a, const number &b) {
                return a.value < b.value;
            }
            template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
            friend constexpr bool operator<(const number &a, const T &b) {
                return a.value < number(b).value;
            }
            friend constexpr bool operator>(const number &a, const number &b) {
                return a.value > b.value;
            }
            template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
            friend constexpr bool operator>(const number &a, const T &b) {
                return a.value > number(b).value;
            }
            friend constexpr bool operator<=(const number &a, const number &b) {
                return a.value <= b.value;
            }
            template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
            friend constexpr bool operator<=(const number &a, const T &b) {
                return a.value <= number(b).value;
            }
            friend constexpr bool operator>=(const number &a, const number &b) {
                return a.value >= b.value;
            }
            template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
            friend constexpr bool operator>=(const number &a, const T &b) {
                return a.value >= number(b).value;
            }
            friend std::ostream &operator<<(std::ostream &os, const number &n) {
                return os << n.value;
            }
        };
    }    // namespace multiprecision
}    // namespace boost
#endif
