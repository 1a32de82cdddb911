// K02: the compression of SHA-256 in a circuit. K03: SHA-256 of 64 bytes and the words it begins with. K04: the compression of SHA-512 and the hash of two points and a number.
#include <vlarge.hpp>

#include <nil/blueprint/components/hashes/sha2/plonk/decomposition.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/sha256.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/sha256_process.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/sha512.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/sha512_process.hpp>

namespace {
    namespace bc = nil::blueprint::components;
    namespace fields = nil::crypto3::algebra::fields;
    typedef fields::pallas_base_field F;
    typedef vp::snark::plonk_constraint_system<F> AT;
    typedef vp::big::integer integer;

    // ---- the reference: the constants are the first bits of roots of the first primes

    std::vector<unsigned> primes(std::size_t n) {
        std::vector<unsigned> r;
        for (unsigned p = 2; r.size() < n; p++) {
            bool prime = true;
            for (auto q : r) prime = prime && p % q != 0;
            if (prime) r.push_back(p);
        }
        return r;
    }
    // the first bits after the point of the root of p
    integer fraction(unsigned p, unsigned degree, unsigned bits) {
        integer target = integer(p) << (bits * degree), low = 0, high = integer(p) << bits;
        while (high - low > 1) {
            integer mid = (low + high) / 2;
            integer power = degree == 2 ? integer(mid * mid) : integer(mid * mid * mid);
            (power <= target ? low : high) = mid;
        }
        return low & ((integer(1) << bits) - 1);
    }
    template<typename Word>
    struct sha2 {
        static constexpr unsigned bits = sizeof(Word) * 8, rounds = bits == 32 ? 64 : 80;
        static Word turned(Word x, unsigned n) { return (x >> n) | (x << (bits - n)); }
        static const std::vector<Word> &constants() {
            static const std::vector<Word> r = [] {
                std::vector<Word> v;
                for (auto p : primes(rounds)) v.push_back(static_cast<Word>(fraction(p, 3, bits)));
                return v;
            }();
            return r;
        }
        static std::vector<Word> initial() {
            std::vector<Word> v;
            for (auto p : primes(8)) v.push_back(static_cast<Word>(fraction(p, 2, bits)));
            return v;
        }
        static std::vector<Word> compressed(const std::vector<Word> &state, std::vector<Word> w) {
            const bool small = bits == 32;
            for (unsigned i = 16; i < rounds; i++) {
                Word x = w[i - 15], y = w[i - 2];
                Word s0 = small ? turned(x, 7) ^ turned(x, 18) ^ (x >> 3) : turned(x, 1) ^ turned(x, 8) ^ (x >> 7);
                Word s1 = small ? turned(y, 17) ^ turned(y, 19) ^ (y >> 10) : turned(y, 19) ^ turned(y, 61) ^ (y >> 6);
                w.push_back(w[i - 16] + s0 + w[i - 7] + s1);
            }
            std::vector<Word> v = state;
            for (unsigned i = 0; i < rounds; i++) {
                Word a = v[0], e = v[4];
                Word s1 = small ? turned(e, 6) ^ turned(e, 11) ^ turned(e, 25) : turned(e, 14) ^ turned(e, 18) ^ turned(e, 41);
                Word s0 = small ? turned(a, 2) ^ turned(a, 13) ^ turned(a, 22) : turned(a, 28) ^ turned(a, 34) ^ turned(a, 39);
                Word t1 = v[7] + s1 + ((e & v[5]) ^ (~e & v[6])) + constants()[i] + w[i];
                Word t2 = s0 + ((a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]));
                v.insert(v.begin(), t1 + t2);
                v.pop_back();
                v[4] += t1;
            }
            for (unsigned i = 0; i < 8; i++) v[i] += state[i];
            return v;
        }
    };

    integer spread(integer v, unsigned base) {
        integer r = 0, weight = 1;
        for (; v != 0; v >>= 1, weight *= base) {
            if ((v & 1) != 0) r += weight;
        }
        return r;
    }

    typedef bc::sha256_process<AT> process256;
    typedef bc::decomposition<AT, F> parts;
    typedef bc::sha256<AT> hash256;
    typedef sha2<std::uint32_t> reference;

    template<typename C>
    C built(const std::vector<std::uint32_t> &w, const std::vector<std::uint32_t> &c, const std::vector<std::uint32_t> &i) {
        return C(w, c, i);
    }
    // what the first round of a compression needs of its state, in sparse form
    template<typename Promise>
    void sparse_state(std::vector<Promise> &to, std::size_t row, const std::vector<std::uint32_t> &state) {
        to.push_back({1, row + 243, spread(state[5], 7)});
        to.push_back({0, row + 245, spread(state[6], 7)});
        to.push_back({1, row + 247, spread(state[1], 4)});
        to.push_back({4, row + 247, spread(state[2], 4)});
    }
    std::vector<integer> together(const std::vector<std::uint32_t> &a, const std::vector<std::uint32_t> &b = {}) {
        std::vector<integer> r(a.begin(), a.end());
        r.insert(r.end(), b.begin(), b.end());
        return r;
    }

    vp::big::large<F, process256> process() {
        typedef vp::big::large<F, process256> subject;
        subject s;
        s.name = "compression of SHA-256";
        s.witnesses = 9;
        s.inputs = 24;
        s.make = built<process256>;
        s.input = [](const std::vector<vp::types<F>::var> &v) {
            process256::input_type in;
            std::copy(v.begin(), v.begin() + 8, in.input_state.begin());
            std::copy(v.begin() + 8, v.end(), in.input_words.begin());
            return in;
        };
        s.gates = process256::get_gate_manifest(9).get_gates_amount();
        s.rows = process256::get_rows_amount(9);
        s.below.assign(24, integer(1) << 32);
        s.limit = 300000;
        s.workers = 2;
        s.expected = [](const std::vector<integer> &in) -> boost::optional<std::vector<integer>> {
            std::vector<std::uint32_t> all;
            for (auto &x : in) all.push_back(static_cast<std::uint32_t>(x));
            return together(reference::compressed({all.begin(), all.begin() + 8}, {all.begin() + 8, all.end()}));
        };
        s.promised = [](const std::vector<integer> &in) {
            std::vector<std::uint32_t> state;
            for (std::size_t i = 0; i < 8; i++) state.push_back(static_cast<std::uint32_t>(in[i]));
            std::vector<subject::promise> r;
            sparse_state(r, 0, state);
            return r;
        };
        return s;
    }

    void compression() {
        vh::declare("circuits");
        {
            // the message "abc"
            std::vector<std::uint32_t> words(16, 0);
            words[0] = 0x61626380;
            words[15] = 24;
            auto r = reference::compressed(reference::initial(), words);
            VH_CHECK(r[0] == 0xba7816bf && r[7] == 0xf20015ad, "reference", "the reference is wrong");
        }
        auto s = process();
        typedef std::vector<std::uint32_t> words;
        const words start = reference::initial();
        std::vector<std::vector<integer>> inputs = {together(start, words(16, 0)), together(words(24, 0)), together(words(24, 0xffffffffu)), together(words(24, 0x80000000u)),
                                                    together(words(8, 0x55555555u), words(16, 0xaaaaaaaau))};
        // one bit of one input
        for (std::size_t i = 0; i < 24; i++) {
            for (unsigned bit : {0u, 31u}) {
                if (!vh::thorough() && (i % 8 != 0 || bit)) continue;
                words one(24, 0);
                one[i] = 1u << bit;
                inputs.push_back(together(one));
            }
        }
        vp::big::explore(s, inputs);
        // the sparse state is that of another state
        s.name += " with another sparse state";
        s.complete = false;
        s.promised = [](const std::vector<integer> &in) {
            std::vector<std::uint32_t> state;
            for (std::size_t i = 0; i < 8; i++) state.push_back(static_cast<std::uint32_t>(in[i]) ^ (i == 5));
            std::vector<vp::big::large<F, process256>::promise> r;
            sparse_state(r, 0, state);
            return r;
        };
        s.key = [](const std::vector<integer> &, const std::string &k) { return k == "wrong-accepted" ? "initial-sparse-free" : k; };
        vp::big::explore(s, {together(words(24, 0xffffffffu))}, {vp::big::spots()[0]});
        vh::cfg().bounds = "states and messages that are zero, one everywhere, alternating, initial, or have a single bit; two placements";
    }

    // eight words of two numbers, the first ones first
    std::vector<std::uint32_t> words_of(const std::vector<integer> &in) {
        std::vector<std::uint32_t> r;
        for (auto &x : in) {
            for (int i = 3; i >= 0; i--) r.push_back(static_cast<std::uint32_t>(integer(x >> (32 * i)) & 0xffffffffu));
        }
        return r;
    }
    template<typename Promise>
    void chunks_bounded(std::vector<Promise> &to, std::size_t row) {
        for (std::size_t i = 0; i < 8; i++) {
            to.push_back({i, row, 65536});
            to.push_back({i, row + 2, 65536});
        }
    }

    void hash() {
        vh::declare("circuits");
        const integer top = (integer(1) << 128) - 1;
        std::vector<integer> one_of = {0, 1, top, integer(1) << 127, integer(1) << 64, top / 3, integer("0x0123456789abcdeffedcba9876543210")};
        {
            vp::big::large<F, parts> s;
            s.name = "words of two numbers";
            s.witnesses = 9;
            s.inputs = 2;
            s.constants = 0;
            s.make = built<parts>;
            s.input = [](const std::vector<vp::types<F>::var> &v) { return parts::input_type {{v[0], v[1]}}; };
            s.gates = parts::get_gate_manifest(9).get_gates_amount();
            s.rows = parts::get_rows_amount(9);
            s.below.assign(2, top + 1);
            s.expected = [](const std::vector<integer> &in) -> boost::optional<std::vector<integer>> { return together(words_of(in)); };
            chunks_bounded(s.bounded, 0);
            std::vector<std::vector<integer>> inputs;
            for (auto &a : one_of) {
                for (auto &b : one_of) inputs.push_back({a, b});
            }
            for (std::size_t bit = 0; bit < 128; bit++) {
                inputs.push_back({integer(1) << bit, 0});
                inputs.push_back({0, integer(1) << bit});
            }
            vp::big::explore(s, inputs);
            s.name += ", chunks free,";
            s.bounded.clear();
            s.key = [](const std::vector<integer> &, const std::string &k) { return k == "wrong-accepted" ? "chunk-range-free" : k; };
            vp::big::explore(s, {{top, top}}, {vp::big::spots()[0]});
        }
        typedef vp::big::large<F, hash256> subject;
        subject s;
        s.name = "SHA-256";
        s.witnesses = 9;
        s.inputs = 4;
        s.make = built<hash256>;
        s.input = [](const std::vector<vp::types<F>::var> &v) { return hash256::input_type {{v[0], v[1], v[2], v[3]}}; };
        s.gates = hash256::get_gate_manifest(9).get_gates_amount();
        s.rows = hash256::get_rows_amount(9);
        s.below.assign(4, top + 1);
        s.limit = 600000;
        s.workers = 2;
        static const std::vector<std::uint32_t> padding = {0x80000000u, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 512};
        s.expected = [](const std::vector<integer> &in) -> boost::optional<std::vector<integer>> {
            auto r = reference::compressed(reference::compressed(reference::initial(), words_of(in)), padding);
            std::vector<integer> out(2);
            for (std::size_t i = 0; i < 8; i++) out[i / 4] = (out[i / 4] << 32) + r[i];
            return out;
        };
        chunks_bounded(s.bounded, 0);
        chunks_bounded(s.bounded, 3);
        s.promised = [](const std::vector<integer> &in) {
            std::vector<subject::promise> r;
            sparse_state(r, 6, reference::initial());
            sparse_state(r, 6 + process256::get_rows_amount(9), reference::compressed(reference::initial(), words_of(in)));
            return r;
        };
        std::vector<std::vector<integer>> inputs;
        for (auto &a : one_of) {
            if (!vh::thorough() && inputs.size() == 4) break;
            inputs.push_back({a, a, a, a});
        }
        inputs.push_back({1, top, 0, integer(1) << 127});
        vp::big::explore(s, inputs);
    }

    typedef bc::sha512_process<AT> process512;
    typedef bc::sha512<AT> hash512;
    typedef sha2<std::uint64_t> reference512;
    typedef std::vector<std::uint64_t> long_words;

    std::vector<integer> numbers(const long_words &v) { return std::vector<integer>(v.begin(), v.end()); }

    // the five numbers hashed, in limbs of 66 bits
    constexpr unsigned NUMBER_BITS[] = {255, 255, 255, 255, 256};
    std::vector<integer> limbs(const std::vector<integer> &of) {
        std::vector<integer> r;
        for (auto &x : of) {
            for (unsigned i = 0; i < 4; i++) r.push_back((x >> (66 * i)) & ((integer(1) << 66) - 1));
        }
        return r;
    }
    // all of them behind each other, a one, and their length
    std::vector<long_words> blocks(const std::vector<integer> &in) {
        long_words bits(1276);
        std::size_t at = 0;
        for (std::size_t n = 0; n < 5; n++) {
            for (unsigned b = 0; b < NUMBER_BITS[n]; b++) bits[at++] = ((in[4 * n + b / 66] >> (b % 66)) & 1) != 0;
        }
        bits.push_back(1);
        std::vector<long_words> r(2, long_words(16, 0));
        for (std::size_t i = 0; i < bits.size(); i++) r[i / 1024][i % 1024 / 64] |= bits[i] << (i % 64);
        r[1][15] = 1276;
        return r;
    }

    // cells of the compression that it has no use for, and the sparse forms of the state that the first round does not read
    bool unused(std::size_t column, std::size_t row) {
        const std::size_t schedule = 2, rounds = 386, sums = 1106;
        if (row == 0) return true;
        if (row < schedule) return column != 1 && column != 2 && column != 5 && column != 6;
        if (row < rounds) return (row - schedule) % 6 == 3 && column > 6;
        if (row < sums) return (row - rounds) % 9 == 4 && column > 3;
        return column == 8;
    }

    void long_hash() {
        vh::declare("circuits");
        const std::uint64_t ones = ~0ull;
        {
            // the message "abc"
            long_words words(16, 0);
            words[0] = 0x6162638000000000ull;
            words[15] = 24;
            auto r = reference512::compressed(reference512::initial(), words);
            VH_CHECK(r[0] == 0xddaf35a193617abaull && r[7] == 0x2a9ac94fa54ca49full, "reference", "the reference is wrong");
        }
        {
            vp::big::large<F, process512> s;
            s.name = "compression of SHA-512";
            s.witnesses = 9;
            s.inputs = 24;
            s.make = built<process512>;
            s.input = [](const std::vector<vp::types<F>::var> &v) {
                process512::input_type in;
                std::copy(v.begin(), v.begin() + 8, in.input_state.begin());
                std::copy(v.begin() + 8, v.end(), in.input_words.begin());
                return in;
            };
            s.gates = process512::get_gate_manifest(9).get_gates_amount();
            s.rows = process512::get_rows_amount(9);
            s.sound = false;
            s.expected = [](const std::vector<integer> &in) -> boost::optional<std::vector<integer>> {
                long_words all;
                for (auto &x : in) all.push_back(static_cast<std::uint64_t>(x));
                return numbers(reference512::compressed({all.begin(), all.begin() + 8}, {all.begin() + 8, all.end()}));
            };
            std::vector<std::vector<integer>> inputs;
            long_words first = reference512::initial();
            first.resize(24);
            for (auto &v : {first, long_words(24, 0), long_words(24, ones), long_words(24, 1ull << 63), long_words(24, ones / 3)}) inputs.push_back(numbers(v));
            s.loose = unused;
            vp::big::explore(s, inputs);
            s.loose = nullptr;
            inputs.clear();
            for (std::size_t i = 0; i < 24; i++) {
                for (unsigned bit = 0; bit < 64; bit++) {
                    if (!vh::thorough() && i % 8 != 0) continue;
                    long_words one(24, 0);
                    one[i] = 1ull << bit;
                    inputs.push_back(numbers(one));
                    one.assign(24, ones);
                    one[i] ^= 1ull << bit;
                    inputs.push_back(numbers(one));
                }
            }
            vp::big::explore(s, inputs);
        }
        vp::big::large<F, hash512> s;
        s.name = "SHA-512 of two points and a number";
        s.witnesses = 9;
        s.inputs = 20;
        s.make = built<hash512>;
        s.input = [](const std::vector<vp::types<F>::var> &v) {
            hash512::input_type in;
            std::copy(v.begin(), v.begin() + 4, in.R.x.begin());
            std::copy(v.begin() + 4, v.begin() + 8, in.R.y.begin());
            std::copy(v.begin() + 8, v.begin() + 12, in.A.x.begin());
            std::copy(v.begin() + 12, v.begin() + 16, in.A.y.begin());
            std::copy(v.begin() + 16, v.end(), in.M.begin());
            return in;
        };
        s.gates = hash512::get_gate_manifest(9).get_gates_amount();
        s.rows = hash512::get_rows_amount(9);
        s.sound = false;
        s.expected = [](const std::vector<integer> &in) -> boost::optional<std::vector<integer>> {
            auto b = blocks(in);
            return numbers(reference512::compressed(reference512::compressed(reference512::initial(), b[0]), b[1]));
        };
        std::vector<std::vector<integer>> inputs = {limbs(std::vector<integer>(5, 0))};
        std::vector<integer> full;
        for (auto n : NUMBER_BITS) full.push_back((integer(1) << n) - 1);
        inputs.push_back(limbs(full));
        s.loose = [](std::size_t column, std::size_t row) {
            if (row >= 15) return unused(column, (row - 15) % process512::get_rows_amount(9));
            return row == 14 ? column == 6 : column == 8 && row != 3 && row != 9;
        };
        vp::big::explore(s, inputs);
        s.loose = nullptr;
        inputs.clear();
        // one bit of one number
        for (std::size_t n = 0; n < 5; n++) {
            for (unsigned bit = 0; bit < NUMBER_BITS[n]; bit++) {
                if (!vh::thorough() && bit % 66 != 0 && bit % 66 != 65 && bit % 64 != 0) continue;
                std::vector<integer> one(5, 0);
                one[n] = integer(1) << bit;
                inputs.push_back(limbs(one));
            }
        }
        vp::big::explore(s, inputs);
        vh::cfg().bounds = "states, messages and numbers that are zero, one everywhere, alternating, initial, or differ from zero or ones in a single bit; two placements; every change of a single cell";
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"K02", compression}, {"K03", hash}, {"K04", long_hash}});
}
