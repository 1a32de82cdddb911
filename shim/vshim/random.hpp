// Stand-in for the random source of crypto3: a fixed sequence, so that every run
// of a check sees the same field elements.
#ifndef VSHIM_RANDOM_HPP
#define VSHIM_RANDOM_HPP
#include <vshim/field.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/random_device.hpp>
#include <boost/random/uniform_int_distribution.hpp>

// The system's random device is never opened.
namespace boost {
    namespace random {
        class random_device::impl { };
        inline random_device::random_device() : pimpl(nullptr) {
        }
        inline random_device::~random_device() {
        }
        inline double random_device::entropy() const {
            return 0;
        }
        inline unsigned int random_device::operator()() {
            static unsigned int next = 1;
            return next = next * 1664525u + 1013904223u;
        }
    }    // namespace random
}    // namespace boost

namespace nil {
    namespace crypto3 {
        namespace random {
            template<typename FieldType>
            class algebraic_engine {
                std::uint64_t state = 0x9e3779b97f4a7c15ull;
                std::uint64_t next() {
                    std::uint64_t z = (state += 0x9e3779b97f4a7c15ull);
                    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
                    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
                    return z ^ (z >> 31);
                }

            public:
                typedef typename FieldType::value_type result_type;
                algebraic_engine() = default;
                template<typename Source>
                explicit algebraic_engine(Source &) {
                }
                void seed(std::uint64_t s = 0) {
                    state = s;
                }
                result_type operator()() {
                    typename FieldType::integral_type x = 0;
                    for (std::size_t i = 0; i < FieldType::modulus_bits + 64; i += 64) {
                        x <<= 64;
                        x += next();
                    }
                    return result_type(x);
                }
            };
        }    // namespace random
        namespace algebra {
            template<typename FieldType>
            typename FieldType::value_type random_element() {
                static random::algebraic_engine<FieldType> engine;
                return engine();
            }
        }
    }    // namespace crypto3
}    // namespace nil
#endif
