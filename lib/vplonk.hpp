// Shared by the checkers of circuits: the types of the code under test over a chosen field, and an
// evaluator of constraints that is independent of the code under test.
#pragma once

#include <nil/crypto3/zk/snark/arithmetization/plonk/constraint_system.hpp>

#include <nil/blueprint/blueprint/plonk/assignment.hpp>
#include <nil/blueprint/blueprint/plonk/circuit.hpp>
#include <nil/blueprint/component.hpp>

#include <vh.hpp>

#include <algorithm>
#include <map>
#include <set>
#include <vector>

namespace vp {
    namespace snark = nil::crypto3::zk::snark;
    namespace math = nil::crypto3::math;
    using nil::crypto3::algebra::fields::vshim::small_field;

    template<typename F>
    struct types {
        typedef F field;
        typedef typename F::value_type value;
        typedef snark::plonk_constraint_system<F> system;
        typedef nil::blueprint::circuit<system> circuit;
        typedef nil::blueprint::assignment<system> assignment;
        typedef snark::plonk_variable<value> var;
        typedef snark::plonk_constraint<F> constraint;
        typedef snark::plonk_lookup_constraint<F> lookup_constraint;
        typedef snark::plonk_copy_constraint<F> copy;
        typedef snark::plonk_lookup_table<F> dynamic_table;

        static var w(std::size_t c, int row, bool relative = false) {
            return var(c, row, relative, var::column_type::witness);
        }
        static var k(std::size_t c, int row, bool relative = false) {
            return var(c, row, relative, var::column_type::constant);
        }
        static var pub(std::size_t c, int row) {
            return var(c, row, false, var::column_type::public_input);
        }
        static var wr(std::size_t c, int rotation) {
            return w(c, rotation, true);
        }
        static var kr(std::size_t c, int rotation) {
            return k(c, rotation, true);
        }
    };

    template<typename V>
    std::uint64_t small(const V &v) {
        return static_cast<std::uint64_t>(v.data);
    }

    // A polynomial in normal form: sorted monomials with non-zero coefficients.
    template<typename F>
    struct polynomial {
        typedef typename types<F>::var var;
        typedef typename types<F>::value value;
        typedef std::vector<var> monomial;
        std::map<monomial, value> terms;

        void add(const monomial &m, const value &c) {
            auto it = terms.find(m);
            value v = it == terms.end() ? c : it->second + c;
            if (v.is_zero()) {
                if (it != terms.end()) {
                    terms.erase(it);
                }
            } else {
                terms[m] = v;
            }
        }
        polynomial operator+(const polynomial &o) const {
            polynomial r(*this);
            for (auto &t : o.terms) {
                r.add(t.first, t.second);
            }
            return r;
        }
        polynomial operator-(const polynomial &o) const {
            polynomial r(*this);
            for (auto &t : o.terms) {
                r.add(t.first, -t.second);
            }
            return r;
        }
        polynomial operator*(const polynomial &o) const {
            polynomial r;
            for (auto &a : terms) {
                for (auto &b : o.terms) {
                    monomial m(a.first);
                    m.insert(m.end(), b.first.begin(), b.first.end());
                    std::sort(m.begin(), m.end());
                    r.add(m, a.second * b.second);
                }
            }
            return r;
        }
        bool operator==(const polynomial &o) const {
            return terms == o.terms;
        }
        bool operator<(const polynomial &o) const {
            return std::lexicographical_compare(
                terms.begin(), terms.end(), o.terms.begin(), o.terms.end(), [](const auto &a, const auto &b) {
                    return a.first < b.first || (a.first == b.first && a.second < b.second);
                });
        }
    };

    template<typename F>
    struct expander : boost::static_visitor<polynomial<F>> {
        typedef typename types<F>::var var;
        typedef polynomial<F> P;
        P operator()(const math::term<var> &t) const {
            P r;
            auto m = t.get_vars();
            std::sort(m.begin(), m.end());
            r.add(m, t.get_coeff());
            return r;
        }
        P operator()(const math::pow_operation<var> &p) const {
            P base = boost::apply_visitor(*this, p.get_expr().get_expr()), r;
            r.add({}, types<F>::value::one());
            for (int i = 0; i < p.get_power(); i++) {
                r = r * base;
            }
            return r;
        }
        P operator()(const math::binary_arithmetic_operation<var> &b) const {
            P l = boost::apply_visitor(*this, b.get_expr_left().get_expr()),
              r = boost::apply_visitor(*this, b.get_expr_right().get_expr());
            switch (b.get_op()) {
                case math::ArithmeticOperator::ADD:
                    return l + r;
                case math::ArithmeticOperator::SUB:
                    return l - r;
                default:
                    return l * r;
            }
        }
    };
    template<typename F>
    polynomial<F> expand(const math::expression<typename types<F>::var> &e) {
        return boost::apply_visitor(expander<F>(), e.get_expr());
    }

    // The value of an expression when value(variable) gives the variables.
    template<typename F, typename Value>
    struct evaluator : boost::static_visitor<typename types<F>::value> {
        typedef typename types<F>::var var;
        typedef typename types<F>::value value;
        const Value &of;
        explicit evaluator(const Value &of) : of(of) {
        }
        value operator()(const math::term<var> &t) const {
            value r = t.get_coeff();
            for (auto &v : t.get_vars()) {
                r *= of(v);
            }
            return r;
        }
        value operator()(const math::pow_operation<var> &p) const {
            value base = boost::apply_visitor(*this, p.get_expr().get_expr()), r = value::one();
            for (int i = 0; i < p.get_power(); i++) {
                r *= base;
            }
            return r;
        }
        value operator()(const math::binary_arithmetic_operation<var> &b) const {
            value l = boost::apply_visitor(*this, b.get_expr_left().get_expr()),
                  r = boost::apply_visitor(*this, b.get_expr_right().get_expr());
            switch (b.get_op()) {
                case math::ArithmeticOperator::ADD:
                    return l + r;
                case math::ArithmeticOperator::SUB:
                    return l - r;
                default:
                    return l * r;
            }
        }
    };
    template<typename F, typename Value>
    typename types<F>::value evaluate(const math::expression<typename types<F>::var> &e, const Value &of) {
        return boost::apply_visitor(evaluator<F, Value>(of), e.get_expr());
    }

    // Every variable of an expression.
    template<typename F>
    struct collector : boost::static_visitor<void> {
        typedef typename types<F>::var var;
        std::set<var> &out;
        explicit collector(std::set<var> &o) : out(o) {
        }
        void operator()(const math::term<var> &t) const {
            out.insert(t.get_vars().begin(), t.get_vars().end());
        }
        void operator()(const math::pow_operation<var> &p) const {
            boost::apply_visitor(*this, p.get_expr().get_expr());
        }
        void operator()(const math::binary_arithmetic_operation<var> &b) const {
            boost::apply_visitor(*this, b.get_expr_left().get_expr());
            boost::apply_visitor(*this, b.get_expr_right().get_expr());
        }
    };
    template<typename F>
    void collect(const math::expression<typename types<F>::var> &e, std::set<typename types<F>::var> &out) {
        boost::apply_visitor(collector<F>(out), e.get_expr());
    }
}    // namespace vp
