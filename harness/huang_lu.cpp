// H01: distribution of zones between agents (include/nil/blueprint/detail/huang_lu.hpp), enumerated exhaustively.
#include <cstddef>
#include <nil/blueprint/detail/huang_lu.hpp>

#include <vh.hpp>

#include <algorithm>
#include <map>

namespace {
    using task_list = std::list<std::pair<std::size_t, std::size_t>>;

    // smallest possible largest load, by complete search over all distributions (sizes sorted, symmetric agents pruned)
    void search(const std::vector<std::size_t> &sizes, std::size_t at, std::vector<std::size_t> &load, std::size_t &best) {
        std::size_t cur = 0;
        for (auto l : load) cur = std::max(cur, l);
        if (cur >= best) return;
        if (at == sizes.size()) {
            best = cur;
            return;
        }
        for (std::size_t j = 0; j < load.size(); j++) {
            bool seen = false;
            for (std::size_t k = 0; k < j; k++) seen = seen || load[k] == load[j];
            if (seen) continue;
            load[j] += sizes[at];
            search(sizes, at + 1, load, best);
            load[j] -= sizes[at];
        }
    }
    std::size_t optimum(std::vector<std::size_t> sizes, std::size_t agents) {
        std::sort(sizes.rbegin(), sizes.rend());
        std::size_t best = 1;
        for (auto s : sizes) best += s;
        std::vector<std::size_t> load(agents, 0);
        search(sizes, 0, load, best);
        return best;
    }

    void check_instance(const std::vector<std::size_t> &sizes, std::size_t agents, std::size_t opt, int keys) {
        VH_CASE("agents " << agents << ", key pattern " << keys << ", task sizes " << [&] {
            std::string s;
            for (auto x : sizes) s += std::to_string(x) + " ";
            return s;
        }());
        task_list tasks;
        std::map<std::size_t, std::size_t> by_key;
        for (std::size_t i = 0; i < sizes.size(); i++) {
            std::size_t key = keys == 0 ? i : keys == 1 ? 1000 - 7 * i : (i * 5 + 3) % 97 + (i << 20);
            tasks.push_back({key, sizes[i]});
            by_key[key] = sizes[i];
        }
        auto r = nil::blueprint::components::detail::huang_lu(tasks, agents);
        std::map<std::size_t, std::size_t> after(tasks.begin(), tasks.end());
        VH_CHECK(after == by_key && tasks.size() == sizes.size(), "tasks-changed", "the task list was altered");
        std::vector<std::size_t> load(agents, 0);
        for (auto &t : by_key) {
            auto it = r.find(t.first);
            VH_CHECK(it != r.end(), "unassigned", "task " << t.first << " of size " << t.second << " is given to nobody");
            VH_CHECK(it->second < agents, "bad-agent", "task " << t.first << " is given to agent " << it->second);
            load[it->second] += t.second;
        }
        VH_CHECK(r.size() == by_key.size(), "invented", "the distribution mentions " << r.size() << " tasks instead of " << by_key.size());
        std::size_t worst = *std::max_element(load.begin(), load.end());
        VH_CHECK(9 * worst <= 11 * opt, "ratio", "largest load " << worst << " but " << opt << " is possible");
        vh::count_transitions(sizes.size());    // one per task placed
        vh::count_traces();
        if (worst != opt) vh::count("not_optimal_but_within_ratio");
    }

    // all non-increasing sequences of length n over the values
    void multisets(const std::vector<std::size_t> &values, std::size_t n, std::size_t from, std::vector<std::size_t> &cur,
                   std::vector<std::vector<std::size_t>> &out) {
        if (cur.size() == n) {
            out.push_back(cur);
            return;
        }
        for (std::size_t i = from; i < values.size(); i++) {
            cur.push_back(values[i]);
            multisets(values, n, i, cur, out);
            cur.pop_back();
        }
    }

    void h01() {
        vh::declare("not_optimal_but_within_ratio");
        std::size_t max_n = vh::thorough() ? 9 : 8, order_n = vh::thorough() ? 6 : 5;
        vh::cfg().bounds = "all multisets of up to " + std::to_string(max_n) +
                           " tasks with sizes 0..9 (0..6 above 6 tasks) and of up to 7 tasks over {0,1,2,3,5,8,13,21,34,40,90}, "
                           "1..5 agents; every order of up to " + std::to_string(order_n) + " tasks; three key patterns; 5 agents with up to 13 tasks of 5 sizes";
        std::vector<std::vector<std::size_t>> all;
        std::vector<std::size_t> cur;
        for (std::size_t n = 0; n <= max_n; n++) {
            std::vector<std::size_t> v;
            for (std::size_t s = 0; s <= (n <= 6 ? 9u : 6u); s++) v.push_back(s);
            multisets(v, n, 0, cur, all);
        }
        for (std::size_t n = 1; n <= 7; n++) multisets({0, 1, 2, 3, 5, 8, 13, 21, 34, 40, 90}, n, 0, cur, all);
        for (std::size_t n = 9; n <= (vh::thorough() ? 14u : 12u); n++) multisets({2, 3, 5, 7, 11}, n, 0, cur, all);
        constexpr std::size_t chunk = 64;
        vh::parallel((all.size() + chunk - 1) / chunk, [&](std::size_t c) {
            for (std::size_t i = c * chunk; i < std::min(all.size(), (c + 1) * chunk); i++) {
                auto &m = all[i];
                std::size_t big = m.size() > 8 ? 3 : 1;
                for (std::size_t agents = big; agents <= 5; agents++) {
                    std::size_t opt = optimum(m, agents);
                    for (int k = 0; k < 3; k++) check_instance(m, agents, opt, k);
                    if (m.size() <= order_n) {
                        auto p = m;
                        std::sort(p.begin(), p.end());
                        do {
                            check_instance(p, agents, opt, 0);
                        } while (std::next_permutation(p.begin(), p.end()));
                    }
                }
                vh::count_states();
                if (i % 5003 == 77) {
                    std::string s;
                    for (auto x : m) s += std::to_string(x) + " ";
                    vh::sample("tasks " + s + "on " + std::to_string(big) + "..5 agents");
                }
            }
        });
    }
}    // namespace

int main(int argc, char **argv) {
    return vh::run(argc, argv, {{"H01", h01}});
}
