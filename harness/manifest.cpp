// M01..M06: the manifest algebra of include/nil/blueprint/manifest.hpp, enumerated exhaustively.
#include <nil/blueprint/manifest.hpp>

#include <vh.hpp>

#include <algorithm>
#include <array>

using namespace nil::blueprint;
using ptr = std::shared_ptr<manifest_param>;
using ref_set = std::set<std::uint32_t>;

namespace {
    // ------------------------------------------------------------------ reference model: a plain set of amounts
    struct param {
        enum kind_t { UNSAT, SINGLE, RANGE, SET } kind = UNSAT;
        std::uint32_t a = 0, b = 0, c = 1;
        ref_set values;    // the meaning

        ptr make() const {
            switch (kind) {
                case UNSAT: return ptr(new manifest_unsat_param());
                case SINGLE: return ptr(new manifest_single_value_param(a));
                case RANGE: return ptr(new manifest_range_param(a, b, c));
                default: return ptr(new manifest_set_param(values));
            }
        }
        std::string str() const {
            std::ostringstream os;
            switch (kind) {
                case UNSAT: os << "unsat"; break;
                case SINGLE: os << "single(" << a << ")"; break;
                case RANGE: os << "range(" << a << "," << b << "," << c << ")"; break;
                default:
                    os << "set{";
                    for (auto v : values) os << v << " ";
                    os << "}";
            }
            return os.str();
        }
    };
    param p_unsat() { return param(); }
    param p_single(std::uint32_t v) { param p; p.kind = param::SINGLE; p.a = v; p.values = {v}; return p; }
    param p_range(std::uint32_t s, std::uint32_t f, std::uint32_t st) {
        param p; p.kind = param::RANGE; p.a = s; p.b = f; p.c = st;
        for (std::uint32_t v = s; v < f; v += st) p.values.insert(v);
        return p;
    }
    param p_set(ref_set v) { param p; p.kind = param::SET; p.values = std::move(v); return p; }

    // every parameter over a small universe
    std::vector<param> alphabet(std::uint32_t singles, std::uint32_t rs, std::uint32_t rf, std::uint32_t rstep,
                                std::uint32_t set_universe) {
        std::vector<param> r;
        r.push_back(p_unsat());
        for (std::uint32_t v = 0; v <= singles; v++) r.push_back(p_single(v));
        for (std::uint32_t st = 1; st <= rstep; st++)
            for (std::uint32_t s = 0; s <= rs; s++)
                for (std::uint32_t f = 0; f <= rf; f++) r.push_back(p_range(s, f, st));
        for (std::uint32_t m = 0; m < (1u << set_universe); m++) {
            ref_set v;
            for (std::uint32_t i = 0; i < set_universe; i++)
                if (m >> i & 1) v.insert(i);
            r.push_back(p_set(v));
        }
        return r;
    }
    // realistic, larger parameters: the column counts components actually use
    std::vector<param> wide_alphabet() {
        std::vector<param> r;
        for (std::uint32_t v : {1u, 3u, 9u, 15u, 31u, 64u, 255u, 1000u}) r.push_back(p_single(v));
        for (std::uint32_t s : {0u, 1u, 3u, 14u, 97u, 250u})
            for (std::uint32_t d : {1u, 2u, 29u, 100u, 997u})
                for (std::uint32_t st : {1u, 2u, 3u, 7u, 12u, 30u, 49u, 100u}) r.push_back(p_range(s, s + d, st));
        r.push_back(p_set({9, 15}));
        r.push_back(p_set({3, 15, 30, 255}));
        r.push_back(p_set({0, 1, 97, 98, 100, 1000}));
        r.push_back(p_set({250, 500, 750, 1200}));
        return r;
    }
    std::vector<param> main_alphabet() {
        return vh::thorough() ? alphabet(14, 11, 15, 7, 10) : alphabet(12, 9, 12, 5, 8);
    }
    const char *main_bounds() {
        return vh::thorough() ? "singles 0..14, ranges start 0..11 finish 0..15 step 1..7, all subsets of {0..9}, plus ~250 wide parameters up to 1200" :
                                "singles 0..12, ranges start 0..9 finish 0..12 step 1..5, all subsets of {0..7}, plus ~250 wide parameters up to 1200";
    }

    std::string str(const ref_set &s) {
        std::ostringstream os;
        os << "{";
        for (auto v : s) os << v << " ";
        os << "}";
        return os.str();
    }

    // what a parameter object means, by enumeration through its own iterators; bounded so that a runaway iteration is caught
    ref_set enumerate(const manifest_param &p, std::size_t limit) {
        ref_set r;
        std::size_t n = 0;
        std::uint32_t last = 0;
        for (auto v : p) {
            VH_CHECK(n == 0 || v > last, "iteration-order", "iteration is not strictly increasing: " << last << " then " << v);
            last = v;
            r.insert(v);
            VH_CHECK(++n <= limit, "iteration-runaway", "iteration yields more than " << limit << " amounts");
        }
        return r;
    }
    // what a parameter object means, by exact acceptance of every amount up to a horizon
    ref_set accepted(manifest_param &p, std::uint32_t horizon) {
        ref_set r;
        for (std::uint32_t v = 0; v <= horizon; v++)
            if (p.check_manifest_param(v)) r.insert(v);
        return r;
    }
    std::uint32_t top(const ref_set &s) { return s.empty() ? 0 : *s.rbegin(); }

    // all observations of one object agree with the set it should mean
    void check_meaning(manifest_param &p, const ref_set &want, const char *where) {
        std::uint32_t horizon = top(want) + 14;
        VH_CHECK(p.is_satisfiable() == !want.empty(), "satisfiable", where << ": satisfiable=" << p.is_satisfiable()
                     << " but the amounts are " << str(want));
        ref_set e = enumerate(p, want.size() + 64);
        VH_CHECK(e == want, "enumeration", where << ": enumerates " << str(e) << " instead of " << str(want));
        ref_set a = accepted(p, horizon);
        VH_CHECK(a == want, "acceptance", where << ": accepts " << str(a) << " instead of " << str(want));
        for (std::uint32_t v = 0; v <= horizon; v++) {
            bool loose = !want.empty() && *want.begin() <= v;
            VH_CHECK(p.check_manifest_param(v, false) == loose, "loose-acceptance",
                     where << ": loose acceptance of " << v << " is " << !loose << " for " << str(want));
        }
        if (!want.empty()) {
            VH_CHECK(p.max_value_if_sat() == top(want), "maximum", where << ": largest amount reported " << p.max_value_if_sat()
                         << " instead of " << top(want));
        }
        vh::count_transitions(2 * (horizon + 1) + 3);
    }

    // ---------------------------------------------------------------------------------------------------- M01
    // The classes used directly rather than through the base: the default strictness and equality.
    template<typename T>
    void check_pair(const T &x, const T &y, bool same, const ref_set &a, const ref_set &b) {
        VH_CHECK((x == y) || !same, "equality", "two equal descriptions of " << str(a) << " compare different");
        VH_CHECK(!(x == y) || a == b, "equality", "descriptions of " << str(a) << " and " << str(b) << " compare equal");
        vh::count_transitions();
    }
    template<typename T>
    void check_default(T x, const ref_set &want) {
        for (std::uint32_t v = 0; v <= top(want) + 3; v++) {
            VH_CHECK(x.check_manifest_param(v) == bool(want.count(v)), "default-acceptance",
                     "asked directly, acceptance of " << v << " is " << !want.count(v) << " for " << str(want));
        }
        vh::count_transitions(top(want) + 4);
    }
    void check_direct(const param &x) {
        switch (x.kind) {
            case param::UNSAT: return check_default(manifest_unsat_param(), x.values);
            case param::SINGLE: return check_default(manifest_single_value_param(x.a), x.values);
            case param::RANGE: return check_default(manifest_range_param(x.a, x.b, x.c), x.values);
            default: return check_default(manifest_set_param(x.values), x.values);
        }
    }
    void check_equality(const param &x, const param &y) {
        if (x.kind != y.kind) return;
        VH_CASE(x.str() << " compared with " << y.str());
        switch (x.kind) {
            case param::UNSAT: return check_pair(manifest_unsat_param(), manifest_unsat_param(), true, x.values, y.values);
            case param::SINGLE:
                return check_pair(manifest_single_value_param(x.a), manifest_single_value_param(y.a), x.a == y.a, x.values, y.values);
            case param::RANGE:
                return check_pair(manifest_range_param(x.a, x.b, x.c), manifest_range_param(y.a, y.b, y.c),
                                  x.a == y.a && x.b == y.b && x.c == y.c, x.values, y.values);
            default: return check_pair(manifest_set_param(x.values), manifest_set_param(y.values), x.values == y.values, x.values, y.values);
        }
    }
    void m01() {
        vh::cfg().bounds = main_bounds();
        auto al = main_alphabet();
        auto w = wide_alphabet();
        al.insert(al.end(), w.begin(), w.end());
        vh::parallel(al.size(), [&](std::size_t i) {
            auto &p = al[i];
            VH_CASE(p.str());
            auto o = p.make();
            check_meaning(*o, p.values, "construction");
            // observing must not change the object
            check_meaning(*o, p.values, "second observation");
            // post-increment, equality and restarting of iteration
            auto it = o->begin();
            std::size_t n = 0;
            for (auto v : p.values) {
                VH_CHECK(it != o->end() && !(it == o->end()), "iterator-end", "iterator ended early");
                auto old = it++;
                VH_CHECK(*old == v, "iterator-post", "post-increment yields " << *old << " instead of " << v);
                n++;
            }
            VH_CHECK(it == o->end() && !(it != o->end()), "iterator-end", "iterator does not reach the end after " << n);
            check_direct(p);
            for (auto &q : al) check_equality(p, q);
            vh::count_states();
            vh::count_traces(2);
            if (i % 211 == 5) vh::sample(p.str() + " means " + str(p.values));
        });
    }

    // ---------------------------------------------------------------------------------------------------- M02
    void check_intersection(const param &x, const param &y) {
        VH_CASE(x.str() << " intersect " << y.str());
        ref_set want;
        std::set_intersection(x.values.begin(), x.values.end(), y.values.begin(), y.values.end(),
                              std::inserter(want, want.begin()));
        auto a = x.make(), b = y.make();
        auto r = a->intersect(b);
        VH_CHECK(r->is_satisfiable() == !want.empty(), "intersect-satisfiable", "result satisfiable="
                     << r->is_satisfiable() << ", expected amounts " << str(want));
        ref_set e = enumerate(*r, want.size() + 4096);
        VH_CHECK(e == want, "intersect", "result enumerates " << str(e) << " instead of " << str(want));
        ref_set acc = accepted(*r, std::max(top(x.values), top(y.values)) + 14);
        VH_CHECK(acc == want, "intersect-acceptance", "result accepts " << str(acc) << " instead of " << str(want));
        if (!want.empty()) {
            VH_CHECK(r->max_value_if_sat() == top(want), "intersect-max", "largest amount " << r->max_value_if_sat()
                         << " instead of " << top(want));
        }
        VH_CHECK(enumerate(*a, 4096) == x.values && enumerate(*b, 4096) == y.values, "intersect-operands",
                 "an operand was changed");
        vh::count_transitions(1 + e.size());
        vh::count_traces();
    }
    void m02() {
        vh::cfg().bounds = std::string("all ordered pairs of parameters: ") + main_bounds() + "; and all triples over a small alphabet";
        auto al = main_alphabet();
        vh::parallel(al.size(), [&](std::size_t i) {
            for (std::size_t j = 0; j < al.size(); j++) check_intersection(al[i], al[j]);
            vh::count_states();
            if (i % 211 == 7) vh::sample(al[i].str() + " intersected with all " + std::to_string(al.size()) + " parameters");
        });
        auto w = wide_alphabet();
        vh::parallel(w.size(), [&](std::size_t i) {
            for (std::size_t j = 0; j < w.size(); j++) check_intersection(w[i], w[j]);
            vh::count_states();
        });
        // chains: (x n y) n z
        auto s = alphabet(5, 4, 7, 3, vh::thorough() ? 5 : 4);
        vh::parallel(s.size(), [&](std::size_t i) {
            for (auto &y : s) {
                auto xy = s[i].make()->intersect(y.make());
                ref_set v1;
                std::set_intersection(s[i].values.begin(), s[i].values.end(), y.values.begin(), y.values.end(),
                                      std::inserter(v1, v1.begin()));
                for (auto &z : s) {
                    VH_CASE("(" << s[i].str() << " intersect " << y.str() << ") intersect " << z.str());
                    ref_set want;
                    std::set_intersection(v1.begin(), v1.end(), z.values.begin(), z.values.end(),
                                          std::inserter(want, want.begin()));
                    auto r = xy->intersect(z.make());
                    ref_set e = enumerate(*r, 64);
                    VH_CHECK(e == want && r->is_satisfiable() == !want.empty(), "intersect-chain",
                             "result " << str(e) << " instead of " << str(want));
                    vh::count_transitions(1 + e.size());
                    vh::count_traces();
                }
                vh::count_states();
            }
        });
    }

    // ---------------------------------------------------------------------------------------------------- M03
    ref_set check_merge(manifest_param &a, const ref_set &xa, ptr b, const ref_set &xb, bool same_kind) {
        auto r = a.merge_with(b);
        if (xa.empty() || xb.empty()) {
            ref_set e = enumerate(*r, 64);
            VH_CHECK(!r->is_satisfiable() && e.empty(), "merge-unsat", "merging an unsatisfiable description gives " << str(e)
                         << " satisfiable=" << r->is_satisfiable());
            vh::count_transitions();
            return {};
        }
        std::uint32_t lo = std::max(*xa.begin(), *xb.begin());
        ref_set upper, both;
        for (auto *s : {&xa, &xb})
            for (auto v : *s)
                if (v >= lo) upper.insert(v);
        for (auto v : xa)
            if (xb.count(v)) both.insert(v);
        VH_CHECK(r->is_satisfiable(), "merge-satisfiable", "merge of two satisfiable descriptions is unsatisfiable");
        ref_set e = enumerate(*r, upper.size() + 4096);
        for (auto v : e) {
            VH_CHECK(xa.count(v) || xb.count(v), "merge-invented", "merged description admits " << v
                         << ", which neither component admits; result " << str(e));
            VH_CHECK(v >= lo, "merge-too-small", "merged description admits " << v << ", which is below what one component needs");
        }
        for (auto v : both) {
            VH_CHECK(e.count(v), "merge-lost", "merged description loses " << v << ", which both components admit; result " << str(e));
        }
        VH_CHECK(top(e) == std::max(top(xa), top(xb)), "merge-max", "largest merged amount " << top(e) << ", expected "
                     << std::max(top(xa), top(xb)));
        if (same_kind) {
            VH_CHECK(e == upper, "merge-same-kind", "merged description is " << str(e) << " instead of " << str(upper));
        }
        ref_set acc = accepted(*r, std::max(top(xa), top(xb)) + 8);
        VH_CHECK(acc == e, "merge-acceptance", "result accepts " << str(acc) << " but enumerates " << str(e));
        VH_CHECK(r->max_value_if_sat() == top(e), "merge-max-value", "largest amount reported " << r->max_value_if_sat());
        vh::count_transitions(1 + e.size());
        return e;
    }
    void merge_pair(const param &x, const param &y) {
        VH_CASE(x.str() << " merge " << y.str());
        bool same = x.kind == y.kind;
        auto a = x.make(), b = y.make();
        ref_set r1 = check_merge(*a, x.values, b, y.values, same);
        ref_set r2 = check_merge(*b, y.values, a, x.values, same);
        VH_CHECK(r1 == r2, "merge-commutes", "merge depends on the order: " << str(r1) << " and " << str(r2));
        VH_CHECK(enumerate(*a, 4096) == x.values && enumerate(*b, 4096) == y.values, "merge-operands", "an operand was changed");
        vh::count_traces(2);
    }
    void m03() {
        vh::cfg().bounds = std::string("all unordered pairs of parameters, both orders: ") + main_bounds() +
                           "; and all chains of three merges over a small alphabet";
        auto al = main_alphabet();
        vh::parallel(al.size(), [&](std::size_t i) {
            for (std::size_t j = i; j < al.size(); j++) merge_pair(al[i], al[j]);
            vh::count_states();
            if (i % 211 == 9) vh::sample(al[i].str() + " merged with all later parameters");
        });
        auto w = wide_alphabet();
        vh::parallel(w.size(), [&](std::size_t i) {
            for (std::size_t j = i; j < w.size(); j++) merge_pair(w[i], w[j]);
            vh::count_states();
        });
        // chains: the result of a merge is itself merged and intersected with every parameter
        auto s = alphabet(5, 4, 7, 3, vh::thorough() ? 5 : 4);
        vh::parallel(s.size(), [&](std::size_t i) {
            for (auto &y : s) {
                auto xy = s[i].make()->merge_with(y.make());
                ref_set v1 = enumerate(*xy, 64);
                for (auto &z : s) {
                    VH_CASE("(" << s[i].str() << " merge " << y.str() << ") then merge " << z.str());
                    auto zo = z.make();
                    ref_set r1 = check_merge(*xy, v1, zo, z.values, false);
                    ref_set r2 = check_merge(*zo, z.values, xy, v1, false);
                    VH_CHECK(r1 == r2, "merge-commutes", "merge depends on the order: " << str(r1) << " and " << str(r2));
                    ref_set want;
                    std::set_intersection(v1.begin(), v1.end(), z.values.begin(), z.values.end(),
                                          std::inserter(want, want.begin()));
                    ref_set e = enumerate(*xy->intersect(zo), 64);
                    VH_CHECK(e == want, "merge-then-intersect", str(v1) << " intersected with " << z.str() << " gives " << str(e));
                    vh::count_traces(2);
                }
                vh::count_states();
            }
        });
    }

    // ---------------------------------------------------------------------------------------------------- M04
    void check_subtract(const param &x, const ref_set &v) {
        VH_CASE(x.str() << " without " << str(v));
        ref_set want;
        std::set_difference(x.values.begin(), x.values.end(), v.begin(), v.end(), std::inserter(want, want.begin()));
        auto a = x.make();
        auto r = a->subtract(v);
        VH_CHECK(r->is_satisfiable() == !want.empty(), "subtract-satisfiable", "satisfiable=" << r->is_satisfiable()
                     << ", expected " << str(want));
        ref_set e = enumerate(*r, want.size() + 4096);
        VH_CHECK(e == want, "subtract", "result enumerates " << str(e) << " instead of " << str(want));
        ref_set acc = accepted(*r, top(x.values) + 8);
        VH_CHECK(acc == want, "subtract-acceptance", "result accepts " << str(acc) << " instead of " << str(want));
        if (!want.empty()) VH_CHECK(r->max_value_if_sat() == top(want), "subtract-max", "largest amount " << r->max_value_if_sat());
        VH_CHECK(enumerate(*a, 4096) == x.values, "subtract-operand", "the operand was changed");
        vh::count_transitions(1 + e.size());
        vh::count_traces();
    }
    void m04() {
        vh::cfg().bounds = vh::thorough() ?
            "singles 0..12, ranges start 0..9 finish 0..14 step 1..6, all subsets of {0..8}; all subtracted subsets of {0..13}" :
            "singles 0..10, ranges start 0..6 finish 0..11 step 1..5, all subsets of {0..6}; all subtracted subsets of {0..10}";
        auto al = vh::thorough() ? alphabet(12, 9, 14, 6, 9) : alphabet(10, 6, 11, 5, 7);
        std::uint32_t u = vh::thorough() ? 14 : 11;
        vh::parallel(al.size(), [&](std::size_t i) {
            for (std::uint32_t m = 0; m < (1u << u); m++) {
                ref_set v;
                for (std::uint32_t k = 0; k < u; k++)
                    if (m >> k & 1) v.insert(k);
                check_subtract(al[i], v);
            }
            vh::count_states();
            if (i % 101 == 11) vh::sample(al[i].str() + " minus every subset of {0.." + std::to_string(u - 1) + "}");
        });
        auto w = wide_alphabet();
        vh::parallel(w.size(), [&](std::size_t i) {
            auto &x = w[i];
            // every run of consecutive amounts removed from the front, the back, and one from the middle
            std::vector<std::uint32_t> vals(x.values.begin(), x.values.end());
            for (std::size_t from = 0; from < vals.size(); from += std::max<std::size_t>(1, vals.size() / 16)) {
                check_subtract(x, ref_set(vals.begin(), vals.begin() + from));
                check_subtract(x, ref_set(vals.begin() + from, vals.end()));
                check_subtract(x, ref_set({vals[from]}));
                check_subtract(x, ref_set({vals[from], vals.back()}));
                check_subtract(x, ref_set({vals.front(), vals[from]}));
            }
            vh::count_states();
        });
    }

    // ---------------------------------------------------------------------------------------------------- M05
    using ct = manifest_constant_type::type;
    using lt = manifest_lookup_type::type;
    // a strict order in which exactly the equal needs are unordered
    template<typename T>
    void check_order(const T &x, const T &y, bool same) {
        VH_CHECK(int(x < y) + int(y < x) == int(!same), "need-order", "the order of " << x << " and " << y << " is not strict and total");
    }
    void check_names(const std::vector<std::string> &names) {
        for (auto &a : names)
            for (auto &b : names) {
                VH_CHECK(&a == &b || a.find(b) == std::string::npos, "need-names", "one need is printed as " << a << ", another as " << b);
                vh::count_transitions();
            }
    }
    void m05() {
        vh::cfg().bounds = std::string("every witness parameter x constant need {none, required, impossible} x compiler column limit 0..14 x constants available or not; ") + main_bounds();
        const std::vector<ct> cts = {ct::NONE, ct::UNSAT, ct::REQUIRED};
        auto al = main_alphabet();
        auto wa = wide_alphabet();
        al.insert(al.end(), wa.begin(), wa.end());
        vh::parallel(al.size(), [&](std::size_t i) {
            for (ct c : cts) {
                plonk_component_manifest cm(al[i].make(), manifest_constant_type(c));
                VH_CASE("component " << al[i].str() << " constants " << int(c));
                VH_CHECK(cm.is_satisfiable() == (!al[i].values.empty() && c != ct::UNSAT), "component-satisfiable",
                         "component satisfiable=" << cm.is_satisfiable());
                for (std::uint32_t w = 0; w <= top(al[i].values) + 3; w++)
                    for (std::uint32_t k = 0; k <= 2; k++) {
                        bool const_ok = c == ct::NONE || (c == ct::REQUIRED && k > 0);
                        bool strict = al[i].values.count(w) && const_ok;
                        bool loose = !al[i].values.empty() && *al[i].values.begin() <= w && const_ok;
                        VH_CHECK(cm.check_manifest(w, k, true) == strict, "component-strict",
                                 "strict check of " << w << " columns and " << k << " constants gives " << !strict);
                        VH_CHECK(cm.check_manifest(w, k, false) == loose, "component-loose",
                                 "loose check of " << w << " columns and " << k << " constants gives " << !loose);
                        VH_CHECK(cm.check_manifest(w, k) == loose, "component-default",
                                 "default check of " << w << " columns and " << k << " constants gives " << !loose);
                        vh::count_transitions(3);
                    }
                plonk_component_manifest copy(cm);
                VH_CHECK(copy.is_satisfiable() == cm.is_satisfiable() && copy.constant_required == cm.constant_required &&
                             enumerate(*copy.witness_amount, 4096) == al[i].values,
                         "component-copy", "a copied manifest differs");
                std::vector<std::uint32_t> maxima;
                for (std::uint32_t m = 0; m <= 14; m++) maxima.push_back(m);
                for (std::uint32_t m : {15u, 31u, 100u, 999u, 1000u, 1001u, 2000u}) maxima.push_back(m);
                for (auto m : maxima)
                    for (bool has : {false, true})
                        for (int via_setter = 0; via_setter < 3; via_setter++) {
                            VH_CASE("component " << al[i].str() << " constants " << int(c) << "; compiler limit " << m
                                                 << " constants " << has << " setter " << via_setter);
                            compiler_manifest comp(via_setter == 0 ? m : (via_setter == 1 ? 0u : m + 9), has);
                            if (via_setter) comp.set_max_witness_amount(m);
                            VH_CHECK(comp.get_max_witness_amount() == m, "compiler-max", "limit reported "
                                         << comp.get_max_witness_amount());
                            ref_set want;
                            for (auto v : al[i].values)
                                if (v <= m) want.insert(v);
                            auto r = comp.intersect(cm);
                            ref_set e = enumerate(*r.witness_amount, 4096);
                            VH_CHECK(e == want, "compiler-intersect", "possible column counts " << str(e) << " instead of " << str(want));
                            ct wc = c == ct::UNSAT || (c == ct::REQUIRED && !has) ? ct::UNSAT : c;
                            VH_CHECK(r.constant_required == manifest_constant_type(wc), "compiler-constants",
                                     "constant need after intersection is " << r.constant_required);
                            VH_CHECK(r.is_satisfiable() == (!want.empty() && wc != ct::UNSAT), "compiler-satisfiable",
                                     "satisfiable=" << r.is_satisfiable());
                            vh::count_transitions();
                            vh::count_traces();
                        }
                vh::count_states();
            }
            if (i % 211 == 13) vh::sample("component " + al[i].str() + " under every compiler limit");
        });
        // merging of component manifests: both parts at once
        auto s = alphabet(5, 4, 7, 2, 3);
        vh::parallel(s.size(), [&](std::size_t i) {
            for (auto &y : s)
                for (ct c1 : cts)
                    for (ct c2 : cts) {
                        VH_CASE("component " << s[i].str() << "/" << int(c1) << " merged with " << y.str() << "/" << int(c2));
                        plonk_component_manifest a(s[i].make(), manifest_constant_type(c1)), b(y.make(), manifest_constant_type(c2));
                        auto r = a.merge_with(b);
                        ref_set e = enumerate(*r.witness_amount, 64);
                        ref_set direct = enumerate(*s[i].make()->merge_with(y.make()), 64);
                        VH_CHECK(e == direct, "component-merge-columns", "merged columns " << str(e) << " instead of " << str(direct));
                        ct wc = c1 == ct::UNSAT || c2 == ct::UNSAT ? ct::UNSAT :
                                c1 == ct::REQUIRED || c2 == ct::REQUIRED ? ct::REQUIRED : ct::NONE;
                        VH_CHECK(r.constant_required == manifest_constant_type(wc), "component-merge-constants",
                                 "merged constant need " << r.constant_required);
                        VH_CHECK(r.is_satisfiable() == (!direct.empty() && wc != ct::UNSAT), "component-merge-satisfiable",
                                 "satisfiable=" << r.is_satisfiable());
                        vh::count_transitions();
                        vh::count_traces();
                    }
            vh::count_states();
        });
        // the lookup usage algebra: each value means a set of allowed usages {no lookups, lookups}
        auto meaning = [](lt t) -> unsigned { return t == lt::NONE ? 1 : t == lt::REQUIRED ? 2 : t == lt::OPTIONAL ? 3 : 0; };
        const std::vector<lt> lts = {lt::NONE, lt::UNSAT, lt::REQUIRED, lt::OPTIONAL};
        for (lt x : lts)
            for (lt y : lts) {
                VH_CASE("lookup usage " << manifest_lookup_type(x) << ", " << manifest_lookup_type(y));
                auto r = manifest_lookup_type(x).intersect(manifest_lookup_type(y));
                VH_CHECK(meaning(r.t) == (meaning(x) & meaning(y)), "lookup-intersect", "intersection is " << r);
                lt want = x == lt::UNSAT || y == lt::UNSAT ? lt::UNSAT :
                          x == lt::REQUIRED || y == lt::REQUIRED ? lt::REQUIRED :
                          x == lt::OPTIONAL || y == lt::OPTIONAL ? lt::OPTIONAL : lt::NONE;
                auto m = manifest_lookup_type(x).merge_with(manifest_lookup_type(y));
                VH_CHECK(m.t == want, "lookup-merge", "merge is " << m);
                VH_CHECK((manifest_lookup_type(x) == manifest_lookup_type(y)) == (x == y), "lookup-equality", "equality is wrong");
                VH_CHECK((manifest_lookup_type(x) != manifest_lookup_type(y)) == (x != y), "lookup-equality", "inequality is wrong");
                check_order(manifest_lookup_type(x), manifest_lookup_type(y), x == y);
                vh::count_transitions(5);
                vh::count_traces();
            }
        for (ct x : cts)
            for (ct y : cts) {
                VH_CASE("constant need " << manifest_constant_type(x) << ", " << manifest_constant_type(y));
                VH_CHECK((manifest_constant_type(x) == manifest_constant_type(y)) == (x == y), "constant-equality", "equality is wrong");
                VH_CHECK((manifest_constant_type(x) != manifest_constant_type(y)) == (x != y), "constant-equality", "inequality is wrong");
                check_order(manifest_constant_type(x), manifest_constant_type(y), x == y);
                vh::count_transitions(3);
                vh::count_traces();
            }
        // what is printed names exactly one of the needs
        auto text = [](auto v) {
            std::ostringstream os;
            os << v;
            return os.str();
        };
        check_names({text(manifest_lookup_type(lt::NONE)), text(manifest_lookup_type(lt::UNSAT)),
                     text(manifest_lookup_type(lt::REQUIRED)), text(manifest_lookup_type(lt::OPTIONAL))});
        check_names({text(manifest_constant_type(ct::NONE)), text(manifest_constant_type(ct::UNSAT)),
                     text(manifest_constant_type(ct::REQUIRED))});
        for (bool b : {false, true}) {
            VH_CHECK(manifest_constant_type(b).t == (b ? ct::REQUIRED : ct::NONE), "constant-from-bool", "conversion from " << b);
        }
        // ordering of compiler manifests is a strict order on (limit, constants)
        for (std::uint32_t m1 = 0; m1 < 5; m1++)
            for (std::uint32_t m2 = 0; m2 < 5; m2++)
                for (int h = 0; h < 4; h++) {
                    compiler_manifest a(m1, h & 1), b(m2, h >> 1);
                    bool want = m1 < m2 || (m1 == m2 && (h & 1) < (h >> 1));
                    VH_CHECK((a < b) == want, "compiler-order", "order of (" << m1 << "," << (h & 1) << ") and (" << m2 << "," << (h >> 1) << ")");
                    vh::count_transitions();
                    vh::count_traces();
                }
    }

    // ---------------------------------------------------------------------------------------------------- M06
    // Gate families: plain kinds with a fixed amount, and kinds parametrised so that only equal parameters share gates.
    template<int K, int G>
    struct plain_gate : component_gate_manifest {
        std::uint32_t gates_amount() const override { return G; }
    };
    struct sized_gate : component_gate_manifest {
        std::uint32_t p, g;
        sized_gate(std::uint32_t p_, std::uint32_t g_) : p(p_), g(g_) {}
        std::uint32_t gates_amount() const override { return g; }
        bool operator<(const component_gate_manifest *other) const override {
            return p < dynamic_cast<const sized_gate *>(other)->p;
        }
    };
    struct other_sized_gate : component_gate_manifest {
        std::uint32_t p;
        other_sized_gate(std::uint32_t p_) : p(p_) {}
        std::uint32_t gates_amount() const override { return 10 + p; }
        bool operator<(const component_gate_manifest *other) const override {
            return p < dynamic_cast<const other_sized_gate *>(other)->p;
        }
    };
    // letter i of the alphabet and how many gates it stands for
    constexpr int letters = 7;
    const std::uint32_t letter_gates[letters] = {1, 2, 0, 3, 5, 10, 11};
    void add_letter(gate_manifest &m, int i) {
        switch (i) {
            case 0: m.add(plain_gate<0, 1>()); break;
            case 1: m.add(plain_gate<1, 2>()); break;
            case 2: m.add(plain_gate<2, 0>()); break;
            case 3: m.add(sized_gate(0, 3)); break;
            case 4: m.add(sized_gate(1, 5)); break;
            case 5: m.add(other_sized_gate(0)); break;
            default: m.add(other_sized_gate(1)); break;
        }
    }
    gate_manifest letter(int i) {
        switch (i) {
            case 0: return gate_manifest(plain_gate<0, 1>());
            case 1: return gate_manifest(plain_gate<1, 2>());
            case 2: return gate_manifest(plain_gate<2, 0>());
            case 3: return gate_manifest(sized_gate(0, 3));
            case 4: return gate_manifest(sized_gate(1, 5));
            case 5: return gate_manifest(other_sized_gate(0));
            default: return gate_manifest(other_sized_gate(1));
        }
    }
    std::uint32_t total(unsigned mask) {
        std::uint32_t r = 0;
        for (int i = 0; i < letters; i++)
            if (mask >> i & 1) r += letter_gates[i];
        return r;
    }
    void m06() {
        int depth = vh::thorough() ? 6 : 5;
        vh::cfg().bounds = "every sequence of up to " + std::to_string(depth) +
                           " additions over 7 gate families, and every merge of two collections (128 x 128, each built in two orders)";
        std::uint64_t n = 1;
        for (int d = 0; d < depth; d++) n *= letters;
        // every sequence of additions (by add, by merge with a single, and through a copy)
        vh::parallel(letters, [&](std::size_t first) {
            for (std::uint64_t code = first; code < n; code += letters) {
                for (int mode = 0; mode < 3; mode++) {
                    gate_manifest m;
                    unsigned mask = 0;
                    std::uint64_t c = code;
                    VH_CASE("addition sequence " << code << " base 7, mode " << mode);
                    VH_CHECK(m.get_gates_amount() == 0, "gates-empty", "an empty manifest reports gates");
                    for (int d = 0; d < depth; d++, c /= letters) {
                        int l = c % letters;
                        if (mode == 0) {
                            add_letter(m, l);
                        } else if (mode == 1) {
                            m.merge_with(letter(l));
                        } else {
                            gate_manifest copy(m);
                            add_letter(copy, l);
                            VH_CHECK(m.get_gates_amount() == total(mask), "gates-copy", "changing a copy changed the original");
                            gate_manifest copy2(copy);
                            m.merge_with(copy2);
                        }
                        mask |= 1u << l;
                        VH_CHECK(m.get_gates_amount() == total(mask), "gates-total", "total " << m.get_gates_amount()
                                     << " instead of " << total(mask));
                        vh::count_transitions();
                    }
                    vh::count_traces();
                }
                vh::count_states();
            }
        });
        vh::parallel(1u << letters, [&](std::size_t x) {
            for (unsigned y = 0; y < (1u << letters); y++)
                for (int order = 0; order < 2; order++) {
                    VH_CASE("collection " << x << " merged with " << y << " order " << order);
                    gate_manifest a, b;
                    for (int i = 0; i < letters; i++) {
                        int k = order ? letters - 1 - i : i;
                        if (x >> k & 1) add_letter(a, k);
                        if (y >> k & 1) add_letter(b, k);
                    }
                    auto &r = a.merge_with(b);
                    VH_CHECK(&r == &a && a.get_gates_amount() == total(x | y), "gates-merge", "total " << a.get_gates_amount()
                                 << " instead of " << total(x | y));
                    VH_CHECK(b.get_gates_amount() == total(y), "gates-operand", "merged-in collection changed");
                    a.merge_with(a);
                    VH_CHECK(a.get_gates_amount() == total(x | y), "gates-self", "merging with itself changes the total");
                    vh::count_transitions(2);
                    vh::count_traces();
                }
            if (x % 31 == 5) vh::sample("gate collection " + std::to_string(x) + " merged with all 128 collections");
        });
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"M01", m01}, {"M02", m02}, {"M03", m03}, {"M04", m04}, {"M05", m05}, {"M06", m06}});
}
