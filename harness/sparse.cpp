// S01, S02, P01: binary <-> sparse conversions used by the SHA-2 components and the compile-time power.
// (components/hashes/sha2/plonk/detail/split_functions.hpp, nil/detail/static_pow.hpp)
#include <nil/blueprint/components/hashes/sha2/plonk/detail/split_functions.hpp>
#include <nil/detail/static_pow.hpp>

#include <plain_field.hpp>
#include <vh.hpp>

namespace {
    using namespace nil::blueprint::components::detail;
    using F = vh::plain_field<255>;
    using vh::wide_int;

    std::vector<std::vector<std::size_t>> compositions(std::size_t n, std::size_t max_parts) {
        std::vector<std::vector<std::size_t>> out;
        std::vector<std::size_t> cur;
        std::function<void(std::size_t)> go = [&](std::size_t left) {
            if (left == 0) {
                out.push_back(cur);
                return;
            }
            if (cur.size() == max_parts) return;
            for (std::size_t k = 1; k <= left; k++) {
                cur.push_back(k);
                go(left - k);
                cur.pop_back();
            }
        };
        go(n);
        return out;
    }

    std::string show(const std::vector<std::size_t> &v) {
        std::string s;
        for (auto x : v) s += (s.empty() ? "" : ",") + std::to_string(x);
        return "{" + s + "}";
    }

    // digits, least significant first, of one chunk after another: chunk 0 holds the least significant digits
    wide_int compose(const std::vector<unsigned> &digits, std::size_t from, std::size_t count, std::size_t base) {
        wide_int r = 0;
        for (std::size_t j = count; j-- > 0;) r = r * base + digits[from + j];
        return r;
    }

    template<typename Res, typename Bit>
    void compare(const Res &res, const std::vector<unsigned> &digits, const std::vector<std::size_t> &sizes, std::size_t base, Bit bit,
                 const char *what) {
        VH_CHECK(res[0].size() == sizes.size() && res[1].size() == sizes.size(), std::string(what) + "-count", "wrong number of chunks");
        std::size_t at = 0;
        std::vector<unsigned> bits;
        for (auto d : digits) bits.push_back(bit(d));
        for (std::size_t i = 0; i < sizes.size(); at += sizes[i], i++) {
            VH_CHECK(res[0][i] == compose(bits, at, sizes[i], 2), std::string(what) + "-binary", "chunk " << i << " is " << res[0][i] << " instead of "
                         << compose(bits, at, sizes[i], 2));
            VH_CHECK(res[1][i] == compose(digits, at, sizes[i], base), std::string(what) + "-sparse",
                     "sparse chunk " << i << " is " << res[1][i] << " instead of " << compose(digits, at, sizes[i], base));
            vh::count_transitions();
        }
        vh::count_traces();
    }

    void split_one(std::uint64_t word, std::size_t n, const std::vector<std::size_t> &sizes, std::size_t base) {
        VH_CASE("word " << word << " of " << n << " bits, chunks " << show(sizes) << ", base " << base);
        std::vector<bool> bits(n);
        std::vector<unsigned> digits(n);
        for (std::size_t i = 0; i < n; i++) {
            digits[i] = word >> i & 1;
            bits[n - 1 - i] = digits[i];
        }
        compare(split_and_sparse<F>(bits, sizes, base), digits, sizes, base, [](unsigned d) { return d; }, "split");
    }

    // the chunk layouts of the SHA-2 components
    const std::vector<std::pair<std::vector<std::size_t>, std::size_t>> layouts = {
        {{3, 4, 11, 14}, 4}, {{10, 7, 2, 13}, 4}, {{2, 11, 9, 10}, 4}, {{6, 5, 14, 7}, 7}, {{8, 8, 8, 8}, 4}, {{8, 8, 8, 8}, 7},
        {{32}, 2}, {{14, 14, 2, 2}, 4}, {{1, 6, 1, 56}, 4}, {{6, 13, 42, 3}, 4}, {{28, 6, 5, 25}, 4}, {{14, 4, 23, 23}, 7},
        {{14, 14, 14, 14, 8}, 4}, {{16, 16, 16, 16}, 7}};

    void s01() {
        std::size_t n_max = vh::thorough() ? 11 : 9;
        vh::cfg().bounds = "every word of up to " + std::to_string(n_max) + " bits, every division in up to 5 chunks, bases 2, 3, 4, 7, 16; "
                           "for the 32 and 64 bit layouts every word with at most " + std::string(vh::thorough() ? "3" : "2") +
                           " ones or zeros";
        struct job { std::size_t n; std::vector<std::size_t> sizes; };
        std::vector<job> jobs;
        for (std::size_t n = 1; n <= n_max; n++)
            for (auto &s : compositions(n, 5)) jobs.push_back({n, s});
        vh::parallel(jobs.size(), [&](std::size_t i) {
            for (std::uint64_t w = 0; w < (1ull << jobs[i].n); w++)
                for (std::size_t base : {2, 3, 4, 7, 16}) split_one(w, jobs[i].n, jobs[i].sizes, base);
            vh::count_states(1ull << jobs[i].n);
            if (i % 97 == 5) vh::sample("all words of " + std::to_string(jobs[i].n) + " bits in chunks " + show(jobs[i].sizes));
        });
        vh::parallel(layouts.size(), [&](std::size_t i) {
            std::size_t n = 0;
            for (auto s : layouts[i].first) n += s;
            std::uint64_t all = n == 64 ? ~0ull : (1ull << n) - 1;
            std::set<std::uint64_t> words = {0};
            for (int rounds = vh::thorough() ? 3 : 2; rounds-- > 0;) {
                std::set<std::uint64_t> more = words;
                for (auto w : words)
                    for (std::size_t b = 0; b < n; b++) more.insert(w ^ 1ull << b);
                words = more;
            }
            for (auto w : words) {
                split_one(w, n, layouts[i].first, layouts[i].second);
                split_one(all ^ w, n, layouts[i].first, layouts[i].second);
            }
            vh::count_states(2 * words.size());
            vh::sample(std::to_string(2 * words.size()) + " words of " + std::to_string(n) + " bits in chunks " + show(layouts[i].first));
        });
    }

    enum mode { parity, majority, choice };
    unsigned bit_of(mode m, unsigned d) {
        // for choice a digit is e + 2f + 3g and the bit is e ? f : g
        return m == parity ? d % 2 : m == majority ? d >= 2 : (d == 3 || d == 5 || d == 6);
    }

    void reversed_one(const std::vector<unsigned> &digits, const std::vector<std::size_t> &sizes, std::size_t base, mode m) {
        VH_CASE("sparse value " << compose(digits, 0, digits.size(), base) << " base " << base << ", chunks " << show(sizes) << ", mode " << m);
        wide_int v = compose(digits, 0, digits.size(), base);
        auto b = [m](unsigned d) { return bit_of(m, d); };
        if (m == parity) compare(reversed_sparse_and_split<F>(v, sizes, base), digits, sizes, base, b, "parity");
        if (m == majority) compare(reversed_sparse_and_split_maj<F>(v, sizes, base), digits, sizes, base, b, "majority");
        if (m == choice) compare(reversed_sparse_and_split_ch<F>(v, sizes, base), digits, sizes, base, b, "choice");
    }

    void s02() {
        bool deep = vh::thorough();
        vh::cfg().bounds = std::string("every digit vector of up to ") + (deep ? "7" : "6") + " digits in base 4 and " + (deep ? "6" : "5") +
                           " in base 7, every division in chunks; every triple of words of up to " + (deep ? "5" : "4") +
                           " bits through the xor/majority/choice round trip; for the 32 and 64 digit layouts every vector that differs from a "
                           "constant one in at most 2 digits";
        // powers are cached for the life of the process: decode in every base at every length first, so that everything
        // below (the workers inherit this process) runs with a cache filled by all of them
        for (std::size_t n = 1; n <= 40; n++)
            for (std::size_t base : {2, 3, 4, 5, 7, 8, 16})
                for (unsigned d = 0; d < base; d++) {
                    reversed_one(std::vector<unsigned>(n, d), {n}, base, parity);
                    vh::count_states();
                }
        struct job { std::size_t n; std::vector<std::size_t> sizes; std::size_t base; };
        std::vector<job> jobs;
        for (std::size_t n = 1; n <= (deep ? 7u : 6u); n++)
            for (auto &s : compositions(n, n)) jobs.push_back({n, s, 4});
        for (std::size_t n = 1; n <= (deep ? 6u : 5u); n++)
            for (auto &s : compositions(n, n)) jobs.push_back({n, s, 7});
        vh::parallel(jobs.size(), [&](std::size_t i) {
            const job &j = jobs[i];
            std::vector<unsigned> d(j.n, 0);
            while (true) {
                reversed_one(d, j.sizes, j.base, parity);
                if (j.base == 4) reversed_one(d, j.sizes, j.base, majority);
                if (j.base == 7) reversed_one(d, j.sizes, j.base, choice);
                vh::count_states();
                std::size_t k = 0;
                while (k < d.size() && ++d[k] == j.base) d[k++] = 0;
                if (k == d.size()) break;
            }
            if (i % 23 == 3) vh::sample("all digit vectors of length " + std::to_string(j.n) + " base " + std::to_string(j.base) + " in chunks " + show(j.sizes));
        });
        // forward, add, back: the whole route a hash round takes
        std::size_t n = deep ? 5 : 4;
        std::vector<std::vector<std::size_t>> cs = compositions(n, n);
        vh::parallel(cs.size(), [&](std::size_t i) {
            auto sparse = [&](std::uint64_t w, std::size_t base) {
                std::vector<bool> bits(n);
                for (std::size_t k = 0; k < n; k++) bits[n - 1 - k] = w >> k & 1;
                return split_and_sparse<F>(bits, {n}, base)[1][0];
            };
            auto joined = [&](const std::vector<wide_int> &chunks) {
                wide_int r = 0;
                for (std::size_t k = chunks.size(); k-- > 0;) r = (r << unsigned(cs[i][k])) + chunks[k];
                return r;
            };
            for (std::uint64_t a = 0; a < (1u << n); a++)
                for (std::uint64_t b = 0; b < (1u << n); b++)
                    for (std::uint64_t c = 0; c < (1u << n); c++) {
                        VH_CASE("words " << a << " " << b << " " << c << " in chunks " << show(cs[i]));
                        wide_int s4 = sparse(a, 4) + sparse(b, 4) + sparse(c, 4);
                        VH_CHECK(joined(reversed_sparse_and_split<F>(s4, cs[i], 4)[0]) == (a ^ b ^ c), "xor", "xor is wrong");
                        VH_CHECK(joined(reversed_sparse_and_split_maj<F>(s4, cs[i], 4)[0]) == ((a & b) ^ (a & c) ^ (b & c)), "maj", "majority is wrong");
                        wide_int s7 = sparse(a, 7) + 2 * sparse(b, 7) + 3 * sparse(c, 7);
                        VH_CHECK(joined(reversed_sparse_and_split_ch<F>(s7, cs[i], 7)[0]) == ((a & b) ^ (~a & c)), "ch", "choice is wrong");
                        vh::count_states();
                        vh::count_transitions(3);
                        vh::count_traces();
                    }
        });
        vh::parallel(layouts.size(), [&](std::size_t i) {
            const std::size_t base = layouts[i].second;
            std::size_t len = 0;
            for (auto s : layouts[i].first) len += s;
            for (unsigned fill = 0; fill < base; fill++)
                for (std::size_t p = 0; p < len; p++)
                    for (std::size_t q = p; q < len; q++)
                        for (unsigned dp = 0; dp < base; dp++) {
                            std::vector<unsigned> d(len, fill);
                            d[p] = dp;
                            d[q] = (dp + fill + 1) % base;
                            reversed_one(d, layouts[i].first, base, parity);
                            if (base == 4) reversed_one(d, layouts[i].first, base, majority);
                            if (base == 7) reversed_one(d, layouts[i].first, base, choice);
                            vh::count_states();
                        }
        });
    }

    // a small ring with no built-in operators beyond multiplication
    struct mod97 {
        unsigned v;
        constexpr mod97(unsigned x) : v(x % 97) {}
        constexpr friend mod97 operator*(mod97 a, mod97 b) { return mod97(a.v * b.v); }
        constexpr mod97 &operator*=(mod97 b) { v = v * b.v % 97; return *this; }
        constexpr bool operator==(mod97 o) const { return v == o.v; }
    };

    template<typename T>
    void powers(T base, unsigned max_exp, const char *type) {
        T want = 1;
        for (unsigned e = 0; e <= max_exp; e++) {
            VH_CASE(type << " power " << e);
            VH_CHECK(nil::crypto3::detail::pow(base, e) == want, std::string("pow-") + type, "wrong result");
            want = T(want * base);
            vh::count_transitions();
        }
        vh::count_states();
        vh::count_traces();
    }

    static_assert(nil::crypto3::detail::pow(3, 4) == 81, "usable at compile time");
    static_assert(nil::crypto3::detail::pow(std::uint64_t(2), 63) == std::uint64_t(1) << 63, "usable at compile time");

    void p01() {
        vh::cfg().bounds = "bases 0..300 and exponents 0..130 over 64 bit arithmetic, all of the ring of integers modulo 97 with exponents 0..200, "
                           "bases 0..17 with exponents up to 100 over 1024 bit integers";
        for (std::uint64_t b = 0; b <= 300; b++) {
            powers<std::uint64_t>(b, 130, "u64");
            vh::sample("every power of " + std::to_string(b) + " up to 130");
        }
        for (unsigned b = 0; b < 97; b++) powers<mod97>(mod97(b), 200, "mod97");
        for (unsigned b = 0; b <= 17; b++) powers<wide_int>(wide_int(b), 100, "wide");
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"S01", s01}, {"S02", s02}, {"P01", p01}});
}
