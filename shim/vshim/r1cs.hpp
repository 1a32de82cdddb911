// Names of the R1CS arithmetization that the common component header mentions.
#ifndef VSHIM_R1CS_HPP
#define VSHIM_R1CS_HPP
#include <vshim/field.hpp>
namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                template<typename FieldType>
                class r1cs_constraint_system { };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil
#endif
