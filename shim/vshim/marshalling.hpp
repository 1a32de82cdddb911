// Stand-in for the marshalling library: a number becomes its binary digits.
#ifndef VSHIM_MARSHALLING_HPP
#define VSHIM_MARSHALLING_HPP
#include <vshim/field.hpp>
namespace nil {
    namespace marshalling {
        enum class status_type { success, update_required, not_enough_data, protocol_error, buffer_overflow,
                                 invalid_msg_data, invalid_msg_id, not_supported, error_status_amount };
        namespace option {
            struct big_endian { };
            struct little_endian { };
        }    // namespace option

        namespace vshim {
            // What pack hands back; the caller's container decides how many digits are wanted.
            template<typename Endianness>
            class packed {
                typedef nil::crypto3::algebra::fields::vshim::wide wide;
                wide value;

                bool digit(std::size_t i, std::size_t size) const {
                    std::size_t index = std::is_same<Endianness, option::big_endian>::value ? size - 1 - i : i;
                    return boost::multiprecision::bit_test(value, index);
                }

            public:
                explicit packed(const wide &v) : value(v) {
                }
                template<std::size_t N>
                operator std::array<bool, N>() const {
                    std::array<bool, N> result;
                    for (std::size_t i = 0; i < N; i++) {
                        result[i] = digit(i, N);
                    }
                    return result;
                }
                operator std::vector<bool>() const {
                    // as many as a number of the library has
                    std::size_t size = 256;
                    while (value >> size != 0u) size += 64;
                    std::vector<bool> result(size);
                    for (std::size_t i = 0; i < size; i++) {
                        result[i] = digit(i, size);
                    }
                    return result;
                }
            };
        }    // namespace vshim

        namespace vshim {
            template<typename T>
            nil::crypto3::algebra::fields::vshim::wide number(const T &value) {
                return nil::crypto3::algebra::fields::vshim::wide(value);
            }
            template<typename P>
            nil::crypto3::algebra::fields::vshim::wide number(const nil::crypto3::algebra::fields::detail::element_fp<P> &value) {
                return value.data.number();
            }
        }    // namespace vshim
        template<typename Endianness, typename T>
        vshim::packed<Endianness> pack(const T &value, status_type &status) {
            status = status_type::success;
            return vshim::packed<Endianness>(vshim::number(value));
        }
        template<typename Endianness, typename T>
        vshim::packed<Endianness> pack(const T &value) {
            return vshim::packed<Endianness>(vshim::number(value));
        }
    }    // namespace marshalling
}    // namespace nil
#endif
