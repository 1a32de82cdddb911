// The few things the crypto3-free headers ask of a field, over plain Boost.Multiprecision integers.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <cstddef>

namespace vh {
    using wide_int = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<1024, 1024, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void>, boost::multiprecision::et_off>;

    template<std::size_t Bits>
    struct plain_field {
        constexpr static const std::size_t modulus_bits = Bits;
        constexpr static const std::size_t value_bits = Bits;
        using integral_type = wide_int;
        // only the size of the modulus matters here: 2^Bits - c for a small odd c
        static const wide_int &modulus() {
            static const wide_int m = (wide_int(1) << Bits) - 59;
            return m;
        }
        struct value_type {
            wide_int data;
            value_type() : data(0) {}
            value_type(const wide_int &v) : data(v % modulus()) {}
            value_type(int v) : data(v) {}
            value_type(unsigned v) : data(v) {}
            value_type(unsigned long v) : data(v) {}
            value_type pow(std::size_t n) const {
                value_type r(1u);
                for (std::size_t i = 0; i < n; i++) {
                    r.data = r.data * data % modulus();
                }
                return r;
            }
            bool operator==(const value_type &o) const { return data == o.data; }
            bool operator!=(const value_type &o) const { return data != o.data; }
            bool operator<(const value_type &o) const { return data < o.data; }
        };
    };
}    // namespace vh
