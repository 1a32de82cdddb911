// Stand-in for the polynomial expressions of the crypto3 zk library: a term is a
// coefficient times a product of variables, an expression is a term, a power, or a
// sum/difference/product of two expressions.
#ifndef VSHIM_EXPRESSION_HPP
#define VSHIM_EXPRESSION_HPP

#include <functional>
#include <ostream>
#include <vector>

#include <boost/variant.hpp>
#include <boost/variant/recursive_wrapper.hpp>
#include <boost/variant/static_visitor.hpp>

#include <vshim/field.hpp>

namespace nil {
    namespace crypto3 {
        namespace math {
            enum class ArithmeticOperator : std::uint8_t { ADD = 0, SUB = 1, MULT = 2 };

            template<typename VariableType>
            class pow_operation;
            template<typename VariableType>
            class binary_arithmetic_operation;
            template<typename VariableType>
            class expression;

            template<typename VariableType>
            class term {
            public:
                typedef VariableType variable_type;
                typedef typename VariableType::assignment_type assignment_type;

                term() : coeff(assignment_type::zero()) {
                }
                term(const VariableType &v) : coeff(assignment_type::one()) {
                    vars.push_back(v);
                }
                term(const assignment_type &c) : coeff(c) {
                }
                term(const std::vector<VariableType> &v, const assignment_type &c) : vars(v), coeff(c) {
                }
                term(const std::vector<VariableType> &v) : vars(v), coeff(assignment_type::one()) {
                }
                const std::vector<VariableType> &get_vars() const {
                    return vars;
                }
                const assignment_type &get_coeff() const {
                    return coeff;
                }
                void set_coeff(const assignment_type &c) {
                    coeff = c;
                }
                bool is_zero() const {
                    return coeff.is_zero();
                }
                term pow(std::size_t power) const {
                    term r(assignment_type::one());
                    for (std::size_t i = 0; i < power; i++) {
                        r *= *this;
                    }
                    return r;
                }
                term operator^(std::size_t power) const {
                    return pow(power);
                }
                term &operator*=(const term &o) {
                    coeff *= o.coeff;
                    vars.insert(vars.end(), o.vars.begin(), o.vars.end());
                    return *this;
                }
                term operator-() const {
                    return term(vars, -coeff);
                }
                bool operator==(const term &o) const {
                    return coeff == o.coeff && vars == o.vars;
                }
                bool operator!=(const term &o) const {
                    return !(*this == o);
                }

            private:
                std::vector<VariableType> vars;
                assignment_type coeff;
            };

            template<typename VariableType>
            class expression {
            public:
                typedef VariableType variable_type;
                typedef typename VariableType::assignment_type assignment_type;
                typedef term<VariableType> term_type;
                typedef boost::variant<term<VariableType>, boost::recursive_wrapper<pow_operation<VariableType>>,
                                       boost::recursive_wrapper<binary_arithmetic_operation<VariableType>>>
                    expression_type;

                expression() : expr(term_type()) {
                }
                expression(const expression &) = default;
                expression(expression &&) = default;
                expression &operator=(const expression &) = default;
                expression &operator=(expression &&) = default;
                expression(const VariableType &v) : expr(term_type(v)) {
                }
                expression(const term_type &t) : expr(t) {
                }
                expression(const assignment_type &c) : expr(term_type(c)) {
                }
                expression(const pow_operation<VariableType> &p) : expr(p) {
                }
                expression(const binary_arithmetic_operation<VariableType> &b) : expr(b) {
                }
                template<typename T, typename std::enable_if<std::is_integral<T>::value, bool>::type = true>
                expression(T c) : expr(term_type(assignment_type(c))) {
                }
                template<typename B, boost::multiprecision::expression_template_option E>
                expression(const boost::multiprecision::number<B, E> &c) : expr(term_type(assignment_type(c))) {
                }
                const expression_type &get_expr() const {
                    return expr;
                }
                expression_type &get_expr() {
                    return expr;
                }
                bool is_empty() const {
                    return expr.which() == 0 && boost::get<term_type>(expr).is_zero();
                }
                expression pow(std::size_t power) const;
                expression operator^(std::size_t power) const {
                    return pow(power);
                }
                expression operator-() const;
                expression &operator+=(const expression &o);
                expression &operator-=(const expression &o);
                expression &operator*=(const expression &o);
                bool operator==(const expression &o) const;
                bool operator!=(const expression &o) const {
                    return !(*this == o);
                }

            private:
                expression_type expr;
            };

            template<typename VariableType>
            class pow_operation {
            public:
                pow_operation(const expression<VariableType> &base, int power) : base(base), power(power) {
                }
                const expression<VariableType> &get_expr() const {
                    return base;
                }
                int get_power() const {
                    return power;
                }
                bool operator==(const pow_operation &o) const {
                    return power == o.power && base == o.base;
                }

            private:
                expression<VariableType> base;
                int power;
            };

            template<typename VariableType>
            class binary_arithmetic_operation {
            public:
                binary_arithmetic_operation(const expression<VariableType> &left,
                                            const expression<VariableType> &right, ArithmeticOperator op) :
                    left(left),
                    right(right), op(op) {
                }
                const expression<VariableType> &get_expr_left() const {
                    return left;
                }
                const expression<VariableType> &get_expr_right() const {
                    return right;
                }
                ArithmeticOperator get_op() const {
                    return op;
                }
                bool operator==(const binary_arithmetic_operation &o) const {
                    return op == o.op && left == o.left && right == o.right;
                }

            private:
                expression<VariableType> left, right;
                ArithmeticOperator op;
            };

            namespace vshim {
                template<typename V>
                bool is_zero_term(const expression<V> &e) {
                    return e.is_empty();
                }
                template<typename V>
                expression<V> combine(const expression<V> &a, const expression<V> &b, ArithmeticOperator op) {
                    if (op == ArithmeticOperator::ADD && a.is_empty()) {
                        return b;
                    }
                    if (op != ArithmeticOperator::MULT && b.is_empty()) {
                        return a;
                    }
                    if (op == ArithmeticOperator::MULT && (a.is_empty() || b.is_empty())) {
                        return expression<V>();
                    }
                    return binary_arithmetic_operation<V>(a, b, op);
                }
            }    // namespace vshim

            template<typename V>
            expression<V> expression<V>::pow(std::size_t power) const {
                return pow_operation<V>(*this, static_cast<int>(power));
            }
            template<typename V>
            expression<V> expression<V>::operator-() const {
                return vshim::combine(expression(-assignment_type::one()), *this, ArithmeticOperator::MULT);
            }
            template<typename V>
            expression<V> &expression<V>::operator+=(const expression &o) {
                return *this = vshim::combine(expression(*this), o, ArithmeticOperator::ADD);
            }
            template<typename V>
            expression<V> &expression<V>::operator-=(const expression &o) {
                return *this = vshim::combine(expression(*this), o, ArithmeticOperator::SUB);
            }
            template<typename V>
            expression<V> &expression<V>::operator*=(const expression &o) {
                return *this = vshim::combine(expression(*this), o, ArithmeticOperator::MULT);
            }
            template<typename V>
            bool expression<V>::operator==(const expression &o) const {
                return expr == o.expr;
            }

            // ---- arithmetic between variables, terms, expressions and coefficients ----
            namespace vshim {
                // kind of an operand: 0 none, 1 coefficient, 2 variable, 3 term, 4 expression
                template<typename V>
                std::integral_constant<int, 4> kind_of(const expression<V> *);
                template<typename V>
                V variable_of(const expression<V> *);

                template<typename T, typename = void>
                struct operand {
                    static constexpr int kind = 0;
                };
                template<typename T>
                struct operand<T, typename std::enable_if<T::is_vshim_variable>::type> {
                    static constexpr int kind = 2;
                    typedef T var;
                };
                template<typename V>
                struct operand<term<V>, void> {
                    static constexpr int kind = 3;
                    typedef V var;
                };
                template<typename T>
                struct operand<T, decltype(static_cast<void>(variable_of(static_cast<const T *>(nullptr))))> {
                    static constexpr int kind = 4;
                    typedef decltype(variable_of(static_cast<const T *>(nullptr))) var;
                };
                template<typename V>
                struct operand<pow_operation<V>, void> {
                    static constexpr int kind = 4;
                    typedef V var;
                };
                template<typename V>
                struct operand<binary_arithmetic_operation<V>, void> {
                    static constexpr int kind = 4;
                    typedef V var;
                };

                template<typename L, typename R>
                struct pair_of {
                    static constexpr int l = operand<L>::kind, r = operand<R>::kind;
                    template<typename A, bool>
                    struct pick {
                        typedef typename operand<A>::var type;
                    };
                    template<typename A>
                    struct pick<A, false> {
                        typedef void type;
                    };
                    typedef typename std::conditional<(l >= 2), pick<L, (l >= 2)>, pick<R, (r >= 2)>>::type::type var;
                    template<typename C, typename V>
                    static constexpr bool coefficient(std::true_type) {
                        return std::is_convertible<C, typename V::assignment_type>::value;
                    }
                    template<typename C, typename V>
                    static constexpr bool coefficient(std::false_type) {
                        return false;
                    }
                    static constexpr bool usable() {
                        if constexpr (l >= 2 && r >= 2) {
                            return std::is_same<typename operand<L>::var, typename operand<R>::var>::value;
                        } else if constexpr (l >= 2) {
                            return std::is_convertible<R, typename operand<L>::var::assignment_type>::value;
                        } else if constexpr (r >= 2) {
                            return std::is_convertible<L, typename operand<R>::var::assignment_type>::value;
                        } else {
                            return false;
                        }
                    }
                    static constexpr bool as_term = l <= 3 && r <= 3;
                };
                template<typename V, typename T>
                expression<V> to_expression(const T &x) {
                    if constexpr (operand<T>::kind >= 2) {
                        return expression<V>(x);
                    } else {
                        return expression<V>(typename V::assignment_type(x));
                    }
                }
                template<typename V, typename T>
                term<V> to_term(const T &x) {
                    if constexpr (operand<T>::kind >= 2) {
                        return term<V>(x);
                    } else {
                        return term<V>(typename V::assignment_type(x));
                    }
                }
            }    // namespace vshim
        }        // namespace math
    }            // namespace crypto3
}    // namespace nil

#define VSHIM_OPERATORS                                                                                              \
    template<typename L, typename R,                                                                                 \
             typename std::enable_if<::nil::crypto3::math::vshim::pair_of<L, R>::usable(), bool>::type = true>       \
    ::nil::crypto3::math::expression<typename ::nil::crypto3::math::vshim::pair_of<L, R>::var> operator+(            \
        const L &l, const R &r) {                                                                                    \
        using V = typename ::nil::crypto3::math::vshim::pair_of<L, R>::var;                                          \
        return ::nil::crypto3::math::vshim::combine(::nil::crypto3::math::vshim::to_expression<V>(l),                \
                                                    ::nil::crypto3::math::vshim::to_expression<V>(r),                \
                                                    ::nil::crypto3::math::ArithmeticOperator::ADD);                  \
    }                                                                                                                \
    template<typename L, typename R,                                                                                 \
             typename std::enable_if<::nil::crypto3::math::vshim::pair_of<L, R>::usable(), bool>::type = true>       \
    ::nil::crypto3::math::expression<typename ::nil::crypto3::math::vshim::pair_of<L, R>::var> operator-(            \
        const L &l, const R &r) {                                                                                    \
        using V = typename ::nil::crypto3::math::vshim::pair_of<L, R>::var;                                          \
        return ::nil::crypto3::math::vshim::combine(::nil::crypto3::math::vshim::to_expression<V>(l),                \
                                                    ::nil::crypto3::math::vshim::to_expression<V>(r),                \
                                                    ::nil::crypto3::math::ArithmeticOperator::SUB);                  \
    }                                                                                                                \
    template<typename L, typename R,                                                                                 \
             typename std::enable_if<::nil::crypto3::math::vshim::pair_of<L, R>::usable(), bool>::type = true>       \
    auto operator*(const L &l, const R &r) {                                                                         \
        using V = typename ::nil::crypto3::math::vshim::pair_of<L, R>::var;                                          \
        if constexpr (::nil::crypto3::math::vshim::pair_of<L, R>::as_term) {                                         \
            ::nil::crypto3::math::term<V> t = ::nil::crypto3::math::vshim::to_term<V>(l);                            \
            t *= ::nil::crypto3::math::vshim::to_term<V>(r);                                                         \
            return t;                                                                                                \
        } else {                                                                                                     \
            return ::nil::crypto3::math::vshim::combine(::nil::crypto3::math::vshim::to_expression<V>(l),            \
                                                        ::nil::crypto3::math::vshim::to_expression<V>(r),            \
                                                        ::nil::crypto3::math::ArithmeticOperator::MULT);             \
        }                                                                                                            \
    }

namespace nil {
    namespace crypto3 {
        namespace math {
            VSHIM_OPERATORS

            // ---- visitors ----
            template<typename VariableType>
            class expression_for_each_variable_visitor : public boost::static_visitor<void> {
            public:
                expression_for_each_variable_visitor(const std::function<void(const VariableType &)> &callback) :
                    callback(callback) {
                }
                void visit(const expression<VariableType> &e) {
                    boost::apply_visitor(*this, e.get_expr());
                }
                void operator()(const term<VariableType> &t) {
                    for (const auto &v : t.get_vars()) {
                        callback(v);
                    }
                }
                void operator()(const pow_operation<VariableType> &p) {
                    visit(p.get_expr());
                }
                void operator()(const binary_arithmetic_operation<VariableType> &b) {
                    visit(b.get_expr_left());
                    visit(b.get_expr_right());
                }

            private:
                std::function<void(const VariableType &)> callback;
            };

            template<typename VariableType>
            class expression_evaluator : public boost::static_visitor<typename VariableType::assignment_type> {
            public:
                typedef typename VariableType::assignment_type assignment_type;
                expression_evaluator(const expression<VariableType> &e,
                                     std::function<const assignment_type &(const VariableType &)> value_of) :
                    expr(e),
                    value_of(value_of) {
                }
                assignment_type evaluate() {
                    return boost::apply_visitor(*this, expr.get_expr());
                }
                assignment_type operator()(const term<VariableType> &t) {
                    assignment_type r = t.get_coeff();
                    for (const auto &v : t.get_vars()) {
                        r *= value_of(v);
                    }
                    return r;
                }
                assignment_type operator()(const pow_operation<VariableType> &p) {
                    return boost::apply_visitor(*this, p.get_expr().get_expr())
                        .pow(static_cast<unsigned>(p.get_power()));
                }
                assignment_type operator()(const binary_arithmetic_operation<VariableType> &b) {
                    assignment_type l = boost::apply_visitor(*this, b.get_expr_left().get_expr());
                    assignment_type r = boost::apply_visitor(*this, b.get_expr_right().get_expr());
                    switch (b.get_op()) {
                        case ArithmeticOperator::ADD:
                            return l + r;
                        case ArithmeticOperator::SUB:
                            return l - r;
                        default:
                            return l * r;
                    }
                }

            private:
                const expression<VariableType> &expr;
                std::function<const assignment_type &(const VariableType &)> value_of;
            };

            template<typename VariableType>
            class expression_max_degree_visitor : public boost::static_visitor<std::uint32_t> {
            public:
                std::uint32_t compute_max_degree(const expression<VariableType> &e) {
                    return boost::apply_visitor(*this, e.get_expr());
                }
                std::uint32_t operator()(const term<VariableType> &t) {
                    return t.get_vars().size();
                }
                std::uint32_t operator()(const pow_operation<VariableType> &p) {
                    return boost::apply_visitor(*this, p.get_expr().get_expr()) * p.get_power();
                }
                std::uint32_t operator()(const binary_arithmetic_operation<VariableType> &b) {
                    std::uint32_t l = boost::apply_visitor(*this, b.get_expr_left().get_expr());
                    std::uint32_t r = boost::apply_visitor(*this, b.get_expr_right().get_expr());
                    return b.get_op() == ArithmeticOperator::MULT ? l + r : std::max(l, r);
                }
            };

            // ---- printing ----
            template<typename VariableType>
            std::ostream &operator<<(std::ostream &os, const term<VariableType> &t) {
                os << "(" << t.get_coeff();
                for (const auto &v : t.get_vars()) {
                    os << " * " << v;
                }
                return os << ")";
            }
            template<typename VariableType>
            std::ostream &operator<<(std::ostream &os, const expression<VariableType> &e);
            template<typename VariableType>
            std::ostream &operator<<(std::ostream &os, const pow_operation<VariableType> &p) {
                return os << "(" << p.get_expr() << " ^ " << p.get_power() << ")";
            }
            template<typename VariableType>
            std::ostream &operator<<(std::ostream &os, const binary_arithmetic_operation<VariableType> &b) {
                static const char *names[] = {" + ", " - ", " * "};
                return os << "(" << b.get_expr_left() << names[static_cast<int>(b.get_op())] << b.get_expr_right()
                          << ")";
            }
            template<typename VariableType>
            std::ostream &operator<<(std::ostream &os, const expression<VariableType> &e) {
                return os << e.get_expr();
            }
        }    // namespace math
    }        // namespace crypto3
}    // namespace nil
#endif
