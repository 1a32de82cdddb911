// L01, L02: lookup table files and the tables embedded in the library
// (include/nil/blueprint/detail/lookup_table_loaders.hpp, lookup_table_precomputes.hpp).
#include <set>
#include <nil/blueprint/detail/lookup_table_loaders.hpp>

#include <plain_field.hpp>
#include <vh.hpp>

#include <algorithm>
#include <cctype>
#include <map>

namespace {
    using namespace nil::blueprint::components::detail;
    using vh::wide_int;

    using rows_type = std::vector<std::vector<wide_int>>;

    bool is_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

    // reference: exactly `columns` whitespace separated hexadecimal tokens
    bool ref_row(const std::string &line, std::size_t columns, std::vector<wide_int> &out) {
        out.clear();
        std::size_t i = 0;
        while (true) {
            while (i < line.size() && is_space(line[i])) i++;
            if (i == line.size()) break;
            wide_int v = 0;
            while (i < line.size() && !is_space(line[i])) {
                char c = std::tolower(line[i]);
                int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
                if (d < 0) return false;
                v = v * 16 + d;
                i++;
            }
            out.push_back(v);
        }
        return out.size() == columns;
    }

    std::string printable(const std::string &s) {
        std::string r;
        for (char c : s) r += c == '\n' ? std::string("|") : c == '\t' ? std::string("\\t") : std::string(1, c);
        return r;
    }

    template<typename F>
    bool parse(const std::string &text, std::size_t columns, std::vector<std::vector<typename F::value_type>> &result) {
        std::istringstream is(text);
        return parse_lookup_table<F>(is, columns, result);
    }

    template<typename F>
    void compare(const std::string &text, std::size_t columns, bool want_ok, const rows_type &want) {
        VH_CASE("table text '" << printable(text) << "', " << columns << " columns, field of " << F::modulus_bits << " bits");
        std::vector<std::vector<typename F::value_type>> got;
        bool ok = parse<F>(text, columns, got);
        VH_CHECK(ok == want_ok, want_ok ? "rejected" : "accepted", (want_ok ? "a well-formed table is rejected" : "a malformed table is accepted"));
        if (want_ok) {
            VH_CHECK(got.size() == columns, "columns", "the table has " << got.size() << " columns");
            for (std::size_t j = 0; j < columns; j++) {
                VH_CHECK(got[j].size() == want.size(), "rows", "column " << j << " has " << got[j].size() << " rows instead of " << want.size());
                for (std::size_t i = 0; i < want.size(); i++)
                    VH_CHECK(got[j][i].data == want[i][j], "value", "row " << i << " column " << j << " is " << got[j][i].data
                                 << " instead of " << want[i][j]);
            }
        }
        // a transition is one step of the reader: a row consumed (or the refusal)
        vh::count_transitions(want_ok ? want.size() + 1 : 1);
        vh::count_traces();
    }

    // every string over the alphabet of length up to n
    void all_strings(const std::string &alphabet, std::size_t n, std::vector<std::string> &out) {
        out.push_back("");
        std::size_t from = 0;
        for (std::size_t len = 1; len <= n; len++) {
            std::size_t to = out.size();
            for (std::size_t i = from; i < to; i++)
                for (char c : alphabet) out.push_back(out[i] + c);
            from = to;
        }
    }

    std::string hex(const wide_int &v, bool upper = false) {
        std::ostringstream os;
        if (upper) os << std::uppercase;
        os << std::hex << v;
        return os.str();
    }

    template<typename F>
    void round_trips() {
        // every digit count the field can hold, several digit patterns, written and read back
        std::vector<wide_int> values;
        for (std::size_t digits = 1; digits <= (F::modulus_bits + 3) / 4; digits++)
            for (int pat = 0; pat < 6; pat++) {
                wide_int v = 0;
                for (std::size_t k = 0; k < digits; k++) {
                    int d = pat == 0 ? 15 : pat == 1 ? (k == 0 ? 1 : 0) : pat == 2 ? int(k * 7 + 3) % 16 : pat == 3 ? (k == 0 ? 8 : 15)
                                : pat == 4 ? (k + 1 == digits ? 1 : 0) : 10;
                    v = v * 16 + d;
                }
                if (v < F::modulus()) values.push_back(v);
            }
        vh::parallel(values.size(), [&](std::size_t i) {
            for (std::size_t j = 0; j < values.size(); j += 1 + values.size() / 40)
                for (int style = 0; style < 3; style++) {
                    std::string sep = style == 1 ? "\t " : " ";
                    std::string text = "2\n" + hex(values[i], style == 2) + sep + hex(values[j], style == 2) + "\n" +
                                       hex(values[j]) + sep + hex(values[i]) + (style ? " \n" : "");
                    compare<F>(text, 2, true, {{values[i], values[j]}, {values[j], values[i]}});
                    text = "1\n" + hex(values[i]) + sep + hex(values[j]) + sep + hex(values[i]);
                    compare<F>(text, 3, true, {{values[i], values[j], values[i]}});
                    compare<F>(text, 2, false, {});
                }
            compare<F>("1\n" + hex(values[i]) + "\n", 1, true, {{values[i]}});
            vh::count_states();
        });
    }

    void l01() {
        using F = vh::plain_field<255>;
        std::size_t n = vh::thorough() ? 7 : 6;
        vh::cfg().bounds = "every row text over {0,1,a,F,space,tab,g} of up to " + std::to_string(n) +
                           " characters for 1..3 columns; every header text of up to 3 characters; tables of up to 3 rows with every missing/extra "
                           "row or value; values of every hexadecimal length for fields of 16..384 bits; every combination of 4 candidate files";
        std::vector<std::string> rows;
        all_strings("01aF \tg", n, rows);
        std::size_t chunk = 512;
        vh::parallel((rows.size() + chunk - 1) / chunk, [&](std::size_t c) {
            for (std::size_t i = c * chunk; i < std::min(rows.size(), (c + 1) * chunk); i++) {
                for (std::size_t columns = 1; columns <= 3; columns++) {
                    std::vector<wide_int> want;
                    bool ok = ref_row(rows[i], columns, want);
                    compare<F>("1\n" + rows[i], columns, ok, {want});
                    if (rows[i].size() <= 4) {
                        // the same row first or second in a table of two, and with text after the table
                        std::vector<wide_int> other(columns, 0x2b);
                        std::string other_row;
                        for (std::size_t k = 0; k < columns; k++) other_row += "2b ";
                        compare<F>("2\n" + rows[i] + "\n" + other_row, columns, ok, {want, other});
                        compare<F>("2\n" + other_row + "\n" + rows[i] + "\n", columns, ok, {other, want});
                        compare<F>("1\n" + other_row + "\n" + rows[i] + "\n", columns, true, {other});
                    }
                }
                vh::count_states();
                if (i % 9001 == 400) vh::sample("row '" + printable(rows[i]) + "' read as 1, 2 and 3 columns");
            }
        });
        // headers: leading blanks and decimal digits give the number of rows; no digits is a failure, not an exception
        std::vector<std::string> headers;
        all_strings("013 x", 3, headers);
        vh::parallel(headers.size(), [&](std::size_t i) {
            std::size_t k = 0;
            while (k < headers[i].size() && is_space(headers[i][k])) k++;
            bool ok = k < headers[i].size() && std::isdigit(headers[i][k]);
            bool junk = false;
            std::size_t count = 0;
            for (; k < headers[i].size() && std::isdigit(headers[i][k]); k++) count = count * 10 + (headers[i][k] - '0');
            for (; k < headers[i].size(); k++) junk = junk || !is_space(headers[i][k]);
            if (junk && ok) return;    // digits followed by something else: not specified
            std::string text = headers[i] + "\n";
            rows_type want;
            for (std::size_t r = 0; r < 3; r++) {
                text += hex(r + 5) + " " + hex(r * 3) + "\n";
                if (r < count) want.push_back({wide_int(r + 5), wide_int(r * 3)});
            }
            compare<F>(text, 2, ok && count <= 3, want);
            vh::count_states();
        });
        compare<F>("", 2, false, {});
        // truncated tables
        for (std::size_t declared = 0; declared <= 4; declared++)
            for (std::size_t present = 0; present <= 4; present++)
                for (std::size_t columns = 1; columns <= 3; columns++) {
                    std::string text = std::to_string(declared) + "\n";
                    rows_type want;
                    for (std::size_t r = 0; r < present; r++) {
                        std::vector<wide_int> row;
                        for (std::size_t k = 0; k < columns; k++) {
                            row.push_back(17 * r + k);
                            text += hex(17 * r + k) + " ";
                        }
                        text += "\n";
                        if (r < declared) want.push_back(row);
                    }
                    compare<F>(text, columns, present >= declared, want);
                    vh::count_states();
                }
        round_trips<vh::plain_field<16>>();
        round_trips<vh::plain_field<31>>();
        round_trips<vh::plain_field<61>>();
        round_trips<vh::plain_field<64>>();
        round_trips<vh::plain_field<255>>();
        round_trips<vh::plain_field<381>>();

        // candidate files: the first readable well-formed one is used
        char dir_template[] = "/tmp/verif-l01-XXXXXX";
        std::string dir = ::mkdtemp(dir_template);
        const std::vector<std::string> contents = {"", "junk\n1 2\n", "2\n1 2\n", "1\n1 2\n", "2\n3 4\n5 6\n", "1\n7 8 9\n"};
        // content index contents.size() means: no such file
        const std::size_t kinds = contents.size() + 1, files = 4;
        std::size_t total = 1;
        for (std::size_t f = 0; f < files; f++) total *= kinds;
        for (std::size_t code = 0; code < total; code++) {
            std::size_t c = code;
            std::set<std::string> paths;
            int expected = -1;
            for (std::size_t f = 0; f < files; f++, c /= kinds) {
                std::string path = dir + "/t" + std::to_string(f);
                std::size_t k = c % kinds;
                ::unlink(path.c_str());
                if (k < contents.size()) {
                    std::ofstream o(path);
                    o << contents[k];
                }
                paths.insert(path);
                if (expected < 0 && (k == 3 || k == 4)) expected = k;
            }
            VH_CASE("candidate files, contents code " << code << " base " << kinds);
            std::vector<std::vector<F::value_type>> got;
            bool ok = load_lookup_table<F>(paths, 2, got);
            VH_CHECK(ok == (expected >= 0), "candidates", "loading " << (ok ? "succeeds" : "fails"));
            if (ok) {
                rows_type want = expected == 3 ? rows_type {{1, 2}} : rows_type {{3, 4}, {5, 6}};
                VH_CHECK(got.size() == 2 && got[0].size() == want.size() && got[1].size() == want.size(), "candidates-size", "wrong size");
                for (std::size_t i = 0; i < want.size(); i++)
                    for (std::size_t j = 0; j < 2; j++)
                        VH_CHECK(got[j][i].data == want[i][j], "candidates-value", "wrong value at row " << i);
            }
            vh::count_transitions();
            vh::count_traces();
        }
        vh::count_states(total);
        for (std::size_t f = 0; f < files; f++) ::unlink((dir + "/t" + std::to_string(f)).c_str());
        ::rmdir(dir.c_str());
    }

    // ---------------------------------------------------------------------------------------------------- L02
    // digits (least significant first) of the sum of three copies of a 32 bit word taken at the given offsets, over an
    // 8 bit window starting at `at`; a negative offset is a shift: bits beyond the top of the word are zero
    void reachable(std::set<std::vector<int>> &out, const std::array<int, 3> &off, bool third_is_shift, int at) {
        // positions involved
        std::vector<int> pos;
        for (int k = 0; k < 3; k++)
            for (int j = 0; j < 8; j++) {
                int p = at + j + off[k];
                if (k == 2 && third_is_shift && p >= 32) continue;
                p %= 32;
                if (std::find(pos.begin(), pos.end(), p) == pos.end()) pos.push_back(p);
            }
        int idx[3][8];
        for (int k = 0; k < 3; k++)
            for (int j = 0; j < 8; j++) {
                int p = at + j + off[k];
                idx[k][j] = k == 2 && third_is_shift && p >= 32 ? -1 : int(std::find(pos.begin(), pos.end(), p % 32) - pos.begin());
            }
        std::vector<bool> seen(1 << 16);
        for (std::uint32_t m = 0; m < (1u << pos.size()); m++) {
            std::uint32_t code = 0;
            for (int j = 0; j < 8; j++) {
                int d = 0;
                for (int k = 0; k < 3; k++)
                    if (idx[k][j] >= 0) d += m >> idx[k][j] & 1;
                code |= d << (2 * j);
            }
            if (!seen[code]) {
                seen[code] = true;
                std::vector<int> v;
                for (int j = 0; j < 8; j++) v.push_back(code >> (2 * j) & 3);
                out.insert(v);
            }
        }
    }

    template<typename F>
    void check_table(const std::string &name, int base, const std::set<std::vector<int>> &needed, bool nothing_else) {
        VH_CASE("embedded table " << name << " over a field of " << F::modulus_bits << " bits");
        std::vector<std::vector<typename F::value_type>> t;
        bool ok = load_lookup_table_from_bin<F>(name, t);
        VH_CHECK(ok, "load", "the embedded table does not load");
        VH_CHECK(t.size() == 2 && t[0].size() == t[1].size(), "shape", "the table does not have two equal columns");
        std::set<std::vector<int>> present;
        for (std::size_t i = 0; i < t[0].size(); i++) {
            std::uint64_t image = std::uint64_t(t[1][i].data), byte = std::uint64_t(t[0][i].data), x = image;
            std::vector<int> digits;
            std::uint64_t parity = 0;
            for (int j = 0; j < 8; j++, x /= base) {
                digits.push_back(x % base);
                parity |= std::uint64_t(x % base & 1) << j;
            }
            VH_CHECK(x == 0, "too-wide", "row " << i << ": image " << image << " has more than 8 digits");
            VH_CHECK(parity == byte, "row", "row " << i << ": image " << image << " belongs to byte " << parity << ", not " << byte);
            VH_CHECK(present.insert(digits).second, "duplicate", "row " << i << ": image " << image << " occurs twice");
            VH_CHECK(!nothing_else || needed.count(digits), "unneeded", "row " << i << ": image " << image << " cannot occur");
            vh::count_transitions();
        }
        for (auto &d : needed) {
            VH_CHECK(present.count(d), "missing", "an image that the hash produces is missing");
        }
        vh::count_states(t[0].size());
        vh::count_traces();
        vh::sample(name + ": " + std::to_string(t[0].size()) + " rows, " + std::to_string(needed.size()) + " needed images, field of " +
                   std::to_string(F::modulus_bits) + " bits");
    }

    void l02() {
        vh::cfg().bounds = "every row of both embedded tables, for fields of 24, 31, 61, 64, 255 and 381 bits; every image any 32 bit word can produce";
        std::set<std::vector<int>> base4, base7;
        for (int at = 0; at < 32; at += 8) {
            reachable(base4, {7, 18, 3}, true, at);       // sigma 0
            reachable(base4, {17, 19, 10}, true, at);     // sigma 1
            reachable(base4, {2, 13, 22}, false, at);     // Sigma 0
            reachable(base7, {6, 11, 25}, false, at);     // Sigma 1
        }
        std::vector<std::function<void()>> jobs;
        auto both = [&](auto f) {
            using F = decltype(f);
            jobs.push_back([&] { check_table<F>("8_split_4", 4, base4, false); });
            jobs.push_back([&] { check_table<F>("8_split_7", 7, base7, true); });
        };
        both(vh::plain_field<24>());
        both(vh::plain_field<31>());
        both(vh::plain_field<61>());
        both(vh::plain_field<64>());
        both(vh::plain_field<255>());
        both(vh::plain_field<381>());
        vh::parallel(jobs.size(), [&](std::size_t i) { jobs[i](); });
        // unknown names are refused
        for (std::string n : {"", "8_split_5", "8_split_4 ", "8_SPLIT_4"}) {
            std::vector<std::vector<vh::plain_field<64>::value_type>> t;
            VH_CHECK(!load_lookup_table_from_bin<vh::plain_field<64>>(n, t), "unknown-name", "unknown table name '" << n << "' is accepted");
            vh::count_transitions();
        }
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"L01", l01}, {"L02", l02}});
}
