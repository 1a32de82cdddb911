// Stand-in for the PLONK arithmetization of the crypto3 zk library: variables,
// constraints, gates, lookups, assignment tables and constraint systems.
#ifndef VSHIM_PLONK_HPP
#define VSHIM_PLONK_HPP

#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <boost/container_hash/hash.hpp>

#include <vshim/expression.hpp>

namespace nil {
    namespace crypto3 {
        namespace zk {
            namespace snark {
                using math::operator+;
                using math::operator-;
                using math::operator*;

                template<typename AssignmentType>
                class plonk_variable {
                public:
                    typedef AssignmentType assignment_type;
                    static constexpr bool is_vshim_variable = true;
                    enum column_type : std::uint8_t { witness, public_input, constant, selector, uninitialized };

                    std::size_t index;
                    std::int32_t rotation;
                    bool relative;
                    column_type type;

                    constexpr plonk_variable() : index(0), rotation(0), relative(false), type(column_type::uninitialized) {
                    }
                    constexpr plonk_variable(std::size_t index, std::int32_t rotation, bool relative = true,
                                             column_type type = column_type::witness) :
                        index(index),
                        rotation(rotation), relative(relative), type(type) {
                    }
                    math::term<plonk_variable> pow(std::size_t power) const {
                        return math::term<plonk_variable>(*this).pow(power);
                    }
                    math::term<plonk_variable> operator^(std::size_t power) const {
                        return pow(power);
                    }
                    math::term<plonk_variable> operator-() const {
                        return -math::term<plonk_variable>(*this);
                    }
                    bool operator==(const plonk_variable &o) const {
                        return index == o.index && rotation == o.rotation && relative == o.relative && type == o.type;
                    }
                    bool operator!=(const plonk_variable &o) const {
                        return !(*this == o);
                    }
                    bool operator<(const plonk_variable &o) const {
                        return std::make_tuple(index, rotation, static_cast<int>(type), relative) <
                               std::make_tuple(o.index, o.rotation, static_cast<int>(o.type), o.relative);
                    }
                    friend std::ostream &operator<<(std::ostream &os, const plonk_variable &v) {
                        static const char *names[] = {"w", "pub", "c", "sel", "none"};
                        return os << names[static_cast<int>(v.type)] << "_" << v.index << "_" << v.rotation
                                  << (v.relative ? "_rel" : "_abs");
                    }
                };

                template<typename FieldType>
                using plonk_column = std::vector<typename FieldType::value_type>;

                template<typename FieldType>
                struct plonk_table_description {
                    std::size_t witness_columns = 0, public_input_columns = 0, constant_columns = 0,
                                selector_columns = 0, usable_rows_amount = 0, rows_amount = 0;
                    plonk_table_description(std::size_t w, std::size_t p, std::size_t c, std::size_t s) :
                        witness_columns(w), public_input_columns(p), constant_columns(c), selector_columns(s) {
                    }
                    plonk_table_description(std::size_t w, std::size_t p, std::size_t c, std::size_t s,
                                            std::size_t usable, std::size_t rows) :
                        witness_columns(w),
                        public_input_columns(p), constant_columns(c), selector_columns(s), usable_rows_amount(usable),
                        rows_amount(rows) {
                    }
                    plonk_table_description() = default;
                    std::size_t table_width() const {
                        return witness_columns + public_input_columns + constant_columns + selector_columns;
                    }
                    std::size_t global_index(
                        const plonk_variable<typename FieldType::value_type> &v) const {
                        using var = plonk_variable<typename FieldType::value_type>;
                        switch (v.type) {
                            case var::column_type::witness:
                                return v.index;
                            case var::column_type::public_input:
                                return witness_columns + v.index;
                            case var::column_type::constant:
                                return witness_columns + public_input_columns + v.index;
                            default:
                                return witness_columns + public_input_columns + constant_columns + v.index;
                        }
                    }
                };

                namespace vshim {
                    template<typename Column>
                    std::uint32_t rows_of(const std::vector<Column> &columns) {
                        std::uint32_t r = 0;
                        for (const auto &c : columns) {
                            r = std::max<std::uint32_t>(r, c.size());
                        }
                        return r;
                    }
                }    // namespace vshim

                template<typename FieldType>
                class plonk_private_assignment_table {
                public:
                    typedef plonk_column<FieldType> column_type;
                    std::vector<column_type> _witnesses;

                    plonk_private_assignment_table(std::size_t amount = 0) : _witnesses(amount) {
                    }
                    plonk_private_assignment_table(const std::vector<column_type> &w) : _witnesses(w) {
                    }
                    std::uint32_t witnesses_amount() const {
                        return _witnesses.size();
                    }
                    std::uint32_t witness_column_size(std::uint32_t i) const {
                        return _witnesses[i].size();
                    }
                    const column_type &witness(std::uint32_t i) const {
                        assert(i < _witnesses.size());
                        return _witnesses[i];
                    }
                    const std::vector<column_type> &witnesses() const {
                        return _witnesses;
                    }
                    std::uint32_t rows_amount() const {
                        return vshim::rows_of(_witnesses);
                    }
                };

                template<typename FieldType>
                class plonk_public_assignment_table {
                public:
                    typedef plonk_column<FieldType> column_type;
                    std::vector<column_type> _public_inputs, _constants, _selectors;

                    plonk_public_assignment_table(std::size_t p = 0, std::size_t c = 0, std::size_t s = 0) :
                        _public_inputs(p), _constants(c), _selectors(s) {
                    }
                    std::uint32_t public_inputs_amount() const {
                        return _public_inputs.size();
                    }
                    std::uint32_t constants_amount() const {
                        return _constants.size();
                    }
                    std::uint32_t selectors_amount() const {
                        return _selectors.size();
                    }
                    std::uint32_t public_input_column_size(std::uint32_t i) const {
                        return _public_inputs[i].size();
                    }
                    std::uint32_t constant_column_size(std::uint32_t i) const {
                        return _constants[i].size();
                    }
                    std::uint32_t selector_column_size(std::uint32_t i) const {
                        return _selectors[i].size();
                    }
                    const column_type &public_input(std::uint32_t i) const {
                        assert(i < _public_inputs.size());
                        return _public_inputs[i];
                    }
                    const column_type &constant(std::uint32_t i) const {
                        assert(i < _constants.size());
                        return _constants[i];
                    }
                    const column_type &selector(std::uint32_t i) const {
                        assert(i < _selectors.size());
                        return _selectors[i];
                    }
                    const std::vector<column_type> &public_inputs() const {
                        return _public_inputs;
                    }
                    const std::vector<column_type> &constants() const {
                        return _constants;
                    }
                    const std::vector<column_type> &selectors() const {
                        return _selectors;
                    }
                    std::uint32_t rows_amount() const {
                        return std::max({vshim::rows_of(_public_inputs), vshim::rows_of(_constants),
                                         vshim::rows_of(_selectors)});
                    }
                };

                template<typename FieldType>
                class plonk_assignment_table {
                public:
                    typedef FieldType field_type;
                    typedef plonk_column<FieldType> column_type;
                    typedef plonk_private_assignment_table<FieldType> private_table_type;
                    typedef plonk_public_assignment_table<FieldType> public_table_type;

                protected:
                    private_table_type _private_table;
                    public_table_type _public_table;

                public:
                    plonk_assignment_table(std::size_t w = 0, std::size_t p = 0, std::size_t c = 0, std::size_t s = 0) :
                        _private_table(w), _public_table(p, c, s) {
                    }
                    virtual ~plonk_assignment_table() = default;
                    plonk_assignment_table(const plonk_assignment_table &) = default;
                    plonk_assignment_table &operator=(const plonk_assignment_table &) = default;

                    virtual const column_type &witness(std::uint32_t i) const {
                        return _private_table.witness(i);
                    }
                    virtual const column_type &public_input(std::uint32_t i) const {
                        return _public_table.public_input(i);
                    }
                    virtual const column_type &constant(std::uint32_t i) const {
                        return _public_table.constant(i);
                    }
                    virtual const column_type &selector(std::uint32_t i) const {
                        return _public_table.selector(i);
                    }
                    virtual void fill_constant(std::uint32_t i, const column_type &column) {
                        assert(i < _public_table._constants.size());
                        _public_table._constants[i] = column;
                    }
                    virtual void fill_selector(std::uint32_t i, const column_type &column) {
                        assert(i < _public_table._selectors.size());
                        _public_table._selectors[i] = column;
                    }
                    virtual void resize_witnesses(std::uint32_t n) {
                        _private_table._witnesses.resize(n);
                    }
                    virtual void resize_public_inputs(std::uint32_t n) {
                        _public_table._public_inputs.resize(n);
                    }
                    virtual void resize_constants(std::uint32_t n) {
                        _public_table._constants.resize(n);
                    }
                    virtual void resize_selectors(std::uint32_t n) {
                        _public_table._selectors.resize(n);
                    }
                    virtual std::uint32_t witnesses_amount() const {
                        return _private_table.witnesses_amount();
                    }
                    virtual std::uint32_t public_inputs_amount() const {
                        return _public_table.public_inputs_amount();
                    }
                    virtual std::uint32_t constants_amount() const {
                        return _public_table.constants_amount();
                    }
                    virtual std::uint32_t selectors_amount() const {
                        return _public_table.selectors_amount();
                    }
                    virtual std::uint32_t witness_column_size(std::uint32_t i) const {
                        return _private_table.witness_column_size(i);
                    }
                    virtual std::uint32_t public_input_column_size(std::uint32_t i) const {
                        return _public_table.public_input_column_size(i);
                    }
                    virtual std::uint32_t constant_column_size(std::uint32_t i) const {
                        return _public_table.constant_column_size(i);
                    }
                    virtual std::uint32_t selector_column_size(std::uint32_t i) const {
                        return _public_table.selector_column_size(i);
                    }
                    virtual std::uint32_t rows_amount() const {
                        return std::max(_private_table.rows_amount(), _public_table.rows_amount());
                    }
                    std::uint32_t size() const {
                        return witnesses_amount() + public_inputs_amount() + constants_amount() + selectors_amount();
                    }
                    const private_table_type &private_table() const {
                        return _private_table;
                    }
                    const public_table_type &public_table() const {
                        return _public_table;
                    }
                    const std::vector<column_type> &witnesses() const {
                        return _private_table.witnesses();
                    }
                    const std::vector<column_type> &public_inputs() const {
                        return _public_table.public_inputs();
                    }
                    const std::vector<column_type> &constants() const {
                        return _public_table.constants();
                    }
                    const std::vector<column_type> &selectors() const {
                        return _public_table.selectors();
                    }
                };

                template<typename FieldType>
                class plonk_constraint : public math::expression<plonk_variable<typename FieldType::value_type>> {
                public:
                    typedef plonk_variable<typename FieldType::value_type> variable_type;
                    typedef math::expression<variable_type> base_type;
                    typedef typename FieldType::value_type value_type;

                    plonk_constraint() = default;
                    plonk_constraint(const plonk_constraint &) = default;
                    plonk_constraint(plonk_constraint &&) = default;
                    plonk_constraint &operator=(const plonk_constraint &) = default;
                    plonk_constraint &operator=(plonk_constraint &&) = default;
                    plonk_constraint(const base_type &e) : base_type(e) {
                    }
                    plonk_constraint(const variable_type &v) : base_type(v) {
                    }
                    plonk_constraint(const math::term<variable_type> &t) : base_type(t) {
                    }
                    plonk_constraint(const value_type &c) : base_type(c) {
                    }
                    plonk_constraint(const math::pow_operation<variable_type> &p) : base_type(p) {
                    }
                    plonk_constraint(const math::binary_arithmetic_operation<variable_type> &b) : base_type(b) {
                    }
                    template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
                    plonk_constraint(T c) : base_type(c) {
                    }
                    template<typename B, boost::multiprecision::expression_template_option E>
                    plonk_constraint(const boost::multiprecision::number<B, E> &c) : base_type(c) {
                    }

                    // A cell below the end of its column is zero, as in the padded table; a row
                    // above the first one is counted from the end of the table.
                    value_type evaluate(std::size_t row_index,
                                        const plonk_assignment_table<FieldType> &table) const {
                        static const value_type zero = value_type::zero();
                        auto cell = [&](const variable_type &v) -> const value_type & {
                            const plonk_column<FieldType> *column = nullptr;
                            switch (v.type) {
                                case variable_type::column_type::witness:
                                    column = &table.witness(v.index);
                                    break;
                                case variable_type::column_type::public_input:
                                    column = &table.public_input(v.index);
                                    break;
                                case variable_type::column_type::constant:
                                    column = &table.constant(v.index);
                                    break;
                                case variable_type::column_type::selector:
                                    column = &table.selector(v.index);
                                    break;
                                default:
                                    throw std::logic_error("uninitialized variable in a constraint");
                            }
                            long row = v.relative ? static_cast<long>(row_index) + v.rotation : v.rotation;
                            if (row < 0) {
                                row += table.rows_amount();
                            }
                            return row >= 0 && row < static_cast<long>(column->size()) ? (*column)[row] : zero;
                        };
                        return math::expression_evaluator<variable_type>(*this, cell).evaluate();
                    }
                };

                template<typename FieldType, typename ConstraintType = plonk_constraint<FieldType>>
                struct plonk_gate {
                    typedef ConstraintType constraint_type;
                    std::size_t selector_index;
                    std::vector<ConstraintType> constraints;
                    plonk_gate(std::size_t index, const ConstraintType &c) : selector_index(index), constraints({c}) {
                    }
                    plonk_gate(std::size_t index, const std::initializer_list<ConstraintType> &c) :
                        selector_index(index), constraints(c) {
                    }
                    plonk_gate(std::size_t index, const std::vector<ConstraintType> &c) :
                        selector_index(index), constraints(c) {
                    }
                    bool operator==(const plonk_gate &o) const {
                        return selector_index == o.selector_index && constraints == o.constraints;
                    }
                };

                template<typename FieldType>
                struct plonk_copy_constraint {
                    typedef plonk_variable<typename FieldType::value_type> variable_type;
                    variable_type first, second;
                    plonk_copy_constraint() = default;
                    plonk_copy_constraint(const variable_type &a, const variable_type &b) : first(a), second(b) {
                    }
                    plonk_copy_constraint(const std::pair<variable_type, variable_type> &p) :
                        first(p.first), second(p.second) {
                    }
                    bool operator==(const plonk_copy_constraint &o) const {
                        return first == o.first && second == o.second;
                    }
                };

                template<typename FieldType>
                struct plonk_lookup_constraint {
                    typedef plonk_constraint<FieldType> constraint_type;
                    std::size_t table_id = 0;
                    std::vector<constraint_type> lookup_input;
                    plonk_lookup_constraint() = default;
                    plonk_lookup_constraint(std::size_t id, const std::vector<constraint_type> &in) :
                        table_id(id), lookup_input(in) {
                    }
                    bool operator==(const plonk_lookup_constraint &o) const {
                        return table_id == o.table_id && lookup_input == o.lookup_input;
                    }
                };

                template<typename FieldType, typename LookupConstraintType = plonk_lookup_constraint<FieldType>>
                struct plonk_lookup_gate {
                    typedef LookupConstraintType constraint_type;
                    std::size_t tag_index;
                    std::vector<LookupConstraintType> constraints;
                    plonk_lookup_gate(std::size_t index, const LookupConstraintType &c) :
                        tag_index(index), constraints({c}) {
                    }
                    plonk_lookup_gate(std::size_t index, const std::initializer_list<LookupConstraintType> &c) :
                        tag_index(index), constraints(c) {
                    }
                    plonk_lookup_gate(std::size_t index, const std::vector<LookupConstraintType> &c) :
                        tag_index(index), constraints(c) {
                    }
                    bool operator==(const plonk_lookup_gate &o) const {
                        return tag_index == o.tag_index && constraints == o.constraints;
                    }
                };

                template<typename FieldType>
                struct plonk_lookup_table {
                    typedef plonk_variable<typename FieldType::value_type> variable_type;
                    std::size_t tag_index = 0;
                    std::size_t columns_number = 0;
                    std::vector<std::vector<variable_type>> lookup_options;
                    plonk_lookup_table() = default;
                    plonk_lookup_table(std::size_t columns_number, std::size_t tag_index) :
                        tag_index(tag_index), columns_number(columns_number) {
                    }
                    void append_option(const std::vector<variable_type> &option) {
                        assert(option.size() == columns_number);
                        lookup_options.push_back(option);
                    }
                };

                struct lookup_subtable_definition {
                    std::vector<std::size_t> column_indices;
                    std::size_t begin = 0;
                    std::size_t end = 0;
                    lookup_subtable_definition() = default;
                    lookup_subtable_definition(const std::vector<std::size_t> &columns, std::size_t begin,
                                               std::size_t end) :
                        column_indices(columns),
                        begin(begin), end(end) {
                    }
                };

                template<typename FieldType>
                class lookup_table_definition {
                protected:
                    std::vector<std::vector<typename FieldType::value_type>> _table;

                public:
                    typedef lookup_subtable_definition lookup_subtable_type;
                    std::string table_name;
                    std::map<std::string, lookup_subtable_definition> subtables;

                    lookup_table_definition(const std::string &name) : table_name(name) {
                    }
                    virtual ~lookup_table_definition() = default;
                    virtual void generate() = 0;
                    virtual std::size_t get_columns_number() = 0;
                    virtual std::size_t get_rows_number() = 0;
                    const std::vector<std::vector<typename FieldType::value_type>> &get_table() {
                        if (_table.empty()) {
                            generate();
                        }
                        return _table;
                    }
                };

                template<typename FieldType>
                class filled_lookup_table_definition : public lookup_table_definition<FieldType> {
                public:
                    filled_lookup_table_definition(lookup_table_definition<FieldType> &other) :
                        lookup_table_definition<FieldType>(other.table_name) {
                        this->_table = other.get_table();
                    }
                    void generate() override {
                    }
                    std::size_t get_columns_number() override {
                        return this->_table.size();
                    }
                    std::size_t get_rows_number() override {
                        return this->_table[0].size();
                    }
                };

                template<typename FieldType>
                class dynamic_table_definition {
                public:
                    std::string table_name;
                    plonk_lookup_table<FieldType> lookup_table;

                    dynamic_table_definition(const std::string &name) : table_name(name) {
                    }
                    void define(const plonk_lookup_table<FieldType> &table) {
                        assert(!defined);
                        lookup_table = table;
                        defined = true;
                    }
                    bool is_defined() const {
                        return defined;
                    }

                private:
                    bool defined = false;
                };

                template<typename FieldType>
                class plonk_constraint_system {
                public:
                    typedef FieldType field_type;
                    typedef plonk_variable<typename FieldType::value_type> variable_type;
                    typedef plonk_constraint<FieldType> constraint_type;
                    typedef std::vector<plonk_gate<FieldType, plonk_constraint<FieldType>>> gates_container_type;
                    typedef std::vector<plonk_copy_constraint<FieldType>> copy_constraints_container_type;
                    typedef std::vector<plonk_lookup_gate<FieldType, plonk_lookup_constraint<FieldType>>>
                        lookup_gates_container_type;
                    typedef plonk_lookup_table<FieldType> lookup_table_type;
                    typedef std::vector<lookup_table_type> lookup_tables_type;

                protected:
                    gates_container_type _gates;
                    copy_constraints_container_type _copy_constraints;
                    lookup_gates_container_type _lookup_gates;
                    lookup_tables_type _lookup_tables;

                public:
                    plonk_constraint_system() = default;
                    virtual ~plonk_constraint_system() = default;
                    plonk_constraint_system(const plonk_constraint_system &) = default;
                    plonk_constraint_system &operator=(const plonk_constraint_system &) = default;

                    std::size_t num_gates() const {
                        return _gates.size();
                    }
                    std::size_t num_lookup_gates() const {
                        return _lookup_gates.size();
                    }
                    const gates_container_type &gates() const {
                        return _gates;
                    }
                    const copy_constraints_container_type &copy_constraints() const {
                        return _copy_constraints;
                    }
                    copy_constraints_container_type &mutable_copy_constraints() {
                        return _copy_constraints;
                    }
                    const lookup_gates_container_type &lookup_gates() const {
                        return _lookup_gates;
                    }
                    const lookup_tables_type &lookup_tables() const {
                        return _lookup_tables;
                    }
                    const lookup_table_type &lookup_table(std::size_t table_id) const {
                        return _lookup_tables[table_id];
                    }
                    void add_lookup_table(const lookup_table_type &table) {
                        _lookup_tables.push_back(table);
                    }
                };
            }    // namespace snark
        }        // namespace zk
    }            // namespace crypto3
}    // namespace nil

namespace std {
    template<typename A>
    struct hash<nil::crypto3::zk::snark::plonk_variable<A>> {
        std::size_t operator()(const nil::crypto3::zk::snark::plonk_variable<A> &v) const {
            std::size_t seed = 0;
            boost::hash_combine(seed, v.index);
            boost::hash_combine(seed, v.rotation);
            boost::hash_combine(seed, v.relative);
            boost::hash_combine(seed, static_cast<int>(v.type));
            return seed;
        }
    };
}    // namespace std
#endif
