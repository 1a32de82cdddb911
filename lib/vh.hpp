// Small support library for the exhaustive checkers in /verif/harness.
//
// A checker enumerates a bounded space completely, runs the real code from /repo on every point of
// that space, compares with a reference model, and reports through this file:
//   * vh::count_states / count_transitions / count_traces   - measured coverage counters
//   * vh::sample("...")                                      - a few actual cases, written out
//   * vh::violation(key, text)                               - the property is broken
//   * vh::parallel(n, f)                                     - run f(0..n-1) on forked workers
// All counters live in shared memory so that forked workers contribute to one total.
#pragma once

#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh {

    struct shared_state {
        std::atomic<std::uint64_t> states, transitions, traces, outcomes, incomplete;
        std::atomic<std::uint64_t> violations;
        std::atomic<std::uint32_t> sample_len, known_len, text_lock;
        std::atomic<std::uint64_t> extra[32];
        char samples[1 << 16];
        char known[1 << 14];
        char key[256];
        char text[1 << 14];
    };

    inline shared_state *&sh() {
        static shared_state *p = nullptr;
        return p;
    }

    struct config {
        std::string id, tier = "quick", out_dir = "/verif/evidence", level = "model_checking";
        long seed = 1;
        std::vector<std::string> assumptions;
        std::vector<std::pair<std::string, int>> extra_names;
        std::string bounds;
        bool exhaustive = true;
        std::map<std::string, std::string> known_keys;
        unsigned jobs = 8;
        unsigned case_seconds = 240;
        std::streambuf *out = nullptr;    // the real standard output, in case a checker silenced std::cout
        std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
        bool child = false;
    };

    inline config &cfg() {
        static config c;
        return c;
    }

    inline bool thorough() {
        return cfg().tier == "thorough";
    }

    inline void count_states(std::uint64_t n = 1) { sh()->states += n; }
    inline void count_transitions(std::uint64_t n = 1) { sh()->transitions += n; }
    inline void count_traces(std::uint64_t n = 1) { sh()->traces += n; }

    // Some part of the space was left out: the run must not be called exhaustive.
    inline void left_out() {
        sh()->incomplete++;
    }
    // A named extra coverage counter.
    inline void count(const std::string &name, std::uint64_t n = 1) {
        auto &names = cfg().extra_names;
        for (auto &e : names) {
            if (e.first == name) {
                sh()->extra[e.second] += n;
                return;
            }
        }
        std::fprintf(stderr, "vh: counter %s was not declared\n", name.c_str());
        std::_Exit(3);
    }

    inline void declare(const std::string &name) {
        cfg().extra_names.push_back({name, int(cfg().extra_names.size())});
        if (cfg().extra_names.size() > 32) {
            std::_Exit(3);
        }
    }

    inline void sample(const std::string &s) {
        std::uint32_t len = s.size() + 1;
        if (len > 1500) {
            return;
        }
        std::uint32_t at = sh()->sample_len.fetch_add(len);
        if (at + len > 6000) {
            sh()->sample_len.fetch_sub(len);
            return;
        }
        std::memcpy(sh()->samples + at, s.c_str(), len);
    }

    // --- description of the case being executed, used when the code under test crashes or hangs ----------
    struct case_desc {
        std::string (*fn)(void *) = nullptr;
        void *arg = nullptr;
    };
    inline case_desc &current_case() {
        static case_desc c;
        return c;
    }
    // the case that an exception of the code under test ended
    inline std::string &ended_case() {
        static std::string s;
        return s;
    }
    template<typename F>
    struct case_scope {
        case_desc saved;
        F f;
        explicit case_scope(F f_) : saved(current_case()), f(f_) {
            current_case().fn = [](void *p) -> std::string { return (*static_cast<F *>(p))(); };
            current_case().arg = &f;
        }
        ~case_scope() {
            if (std::uncaught_exceptions() > 0) {
                if (ended_case().empty()) {
                    ended_case() = "\n  case: " + f();
                }
                current_case() = saved;
                return;
            }
            current_case() = saved;
            // a few of the cases are written to the evidence
            static std::size_t finished = 0;
            finished++;
            if ((finished == 2 || finished == 400 || finished == 30000) && sh()->sample_len < 2000) {
                sample(f());
            }
        }
    };
    template<typename F>
    case_scope<F> make_case(F f) {
        return case_scope<F>(f);
    }
#define VH_CONCAT_(a, b) a##b
#define VH_CONCAT(a, b) VH_CONCAT_(a, b)
#define VH_CASE(...) auto VH_CONCAT(vh_case_, __LINE__) = ::vh::make_case([&]() -> std::string { \
        std::ostringstream vh_os; vh_os << __VA_ARGS__; return vh_os.str(); })

    // A new violation (one that is not a known finding): the first one wins and ends the run.
    [[noreturn]] inline void stop_child() {
        std::_Exit(42);
    }
    inline void finish_and_exit();

    inline void violation(const std::string &key, const std::string &text) {
        if (cfg().known_keys.count(key)) {
            static std::set<std::string> noted;
            if (!noted.insert(key).second) return;
            std::string line = key + "\n";
            // once per process; the final report deduplicates again
            std::uint32_t at = sh()->known_len.fetch_add(line.size());
            if (at + line.size() < sizeof(sh()->known)) {
                std::memcpy(sh()->known + at, line.data(), line.size());
            } else {
                sh()->known_len.fetch_sub(line.size());
            }
            return;
        }
        std::uint32_t expected = 0;
        sh()->violations += 1;
        if (sh()->text_lock.compare_exchange_strong(expected, 1)) {
            std::string t = text;
            if (current_case().fn) {
                t += "\n  case: " + current_case().fn(current_case().arg);
            }
            std::snprintf(sh()->key, sizeof(sh()->key), "%s", key.c_str());
            std::snprintf(sh()->text, sizeof(sh()->text), "%s", t.c_str());
        }
        if (cfg().child) {
            stop_child();
        }
        finish_and_exit();
    }

#define VH_CHECK(cond, key, ...) do { if (!(cond)) { std::ostringstream vh_os; vh_os << __VA_ARGS__; \
        ::vh::violation(key, vh_os.str()); } } while (0)

    inline void on_signal(int sig) {
        ::signal(sig, SIG_DFL);
        std::string what = sig == SIGPROF ? "the code under test did not finish a case in time" :
                                            "the code under test crashed with signal " + std::to_string(sig);
        std::uint32_t expected = 0;
        sh()->violations += 1;
        if (sh()->text_lock.compare_exchange_strong(expected, 1)) {
            if (current_case().fn) {
                what += "\n  case: " + current_case().fn(current_case().arg);
            }
            std::snprintf(sh()->key, sizeof(sh()->key), "%s", sig == SIGPROF ? "hang" : "crash");
            std::snprintf(sh()->text, sizeof(sh()->text), "%s", what.c_str());
        }
        if (cfg().child) {
            std::_Exit(42);
        }
        finish_and_exit();
    }

    // a limit on processor time, not on wall time, so that a busy machine never looks like a hang
    inline void limit_cpu(unsigned seconds) {
        struct itimerval t = {};
        t.it_value.tv_sec = seconds;
        ::setitimer(ITIMER_PROF, &t, nullptr);
    }

    inline void install_handlers() {
        for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGPROF}) {
            ::signal(s, on_signal);
        }
    }

    inline std::string json_escape(const std::string &s) {
        std::string r;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += c;
            } else if (c == '\n') {
                r += "\\n";
            } else if (c < 0x20 || c > 0x7e) {
                r += '?';
            } else {
                r += c;
            }
        }
        return r;
    }

    // Silences std::cout (the code under test prints its findings there) until the end of the scope.
    struct quiet {
        std::streambuf *saved;
        quiet() : saved(std::cout.rdbuf(nullptr)) {
        }
        ~quiet() {
            std::cout.rdbuf(saved);
        }
    };

    inline void finish_and_exit() {
        auto &c = cfg();
        if (c.out) {
            std::cout.rdbuf(c.out);
        }
        std::cout.clear();
        auto *s = sh();
        double wall =
            std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - c.t0).count() /
            1000.0;
        std::ostringstream os;
        os << "{\"property\": \"" << c.id << "\", \"tier\": \"" << c.tier << "\", \"seed\": " << c.seed
           << ", \"level\": \"" << c.level << "\", \"coverage\": {";
        os << "\"states\": " << s->states << ", \"transitions\": " << s->transitions
           << ", \"traces_validated_against_impl\": " << s->traces << ", \"exhaustive\": "
           << (c.exhaustive && s->violations == 0 && s->incomplete == 0 ? "true" : "false");
        for (auto &e : c.extra_names) {
            os << ", \"" << json_escape(e.first) << "\": " << s->extra[e.second].load();
        }
        os << ", \"bounds\": \"" << json_escape(c.bounds) << "\", \"samples\": [";
        std::size_t n = s->sample_len, at = 0;
        bool first = true;
        while (at < n) {
            std::string t(s->samples + at);
            if (t.empty()) {
                break;
            }
            os << (first ? "" : ", ") << "\"" << json_escape(t) << "\"";
            first = false;
            at += t.size() + 1;
        }
        os << "]}, \"assumptions\": [";
        for (std::size_t i = 0; i < c.assumptions.size(); i++) {
            os << (i ? ", " : "") << "\"" << json_escape(c.assumptions[i]) << "\"";
        }
        os << "], \"wall_s\": " << wall << ", \"violations\": " << s->violations.load() << "}\n";
        {
            std::ofstream f(c.out_dir + "/" + c.id + ".json");
            f << os.str();
        }
        std::set<std::string> known;
        {
            std::string all(s->known, s->known_len.load());
            std::istringstream is(all);
            std::string line;
            while (std::getline(is, line)) {
                known.insert(line);
            }
        }
        for (auto &k : known) {
            std::cout << "KNOWN-FINDING: property=" << c.id << " " << k << ":" << c.known_keys[k] << std::endl;
        }
        if (s->violations > 0) {
            std::string path = c.out_dir + "/" + c.id + ".violation.txt";
            {
                std::ofstream f(path);
                f << "property " << c.id << "\nkey " << s->key << "\n" << s->text << "\n";
            }
            std::cout << "[" << s->key << "] " << s->text << "\n";
            std::cout << "VIOLATION property=" << c.id << " replay=" << path << std::endl;
            std::_Exit(1);
        }
        std::cout << c.id << ": held; states=" << s->states << " transitions=" << s->transitions
                  << " traces=" << s->traces << " wall=" << wall << "s" << std::endl;
        std::_Exit(0);
    }

    // Runs f(i) for every i in [0, n), spread over forked workers. Everything f counts or reports is shared.
    template<typename F>
    void parallel(std::size_t n, F f) {
        std::size_t jobs = std::min<std::size_t>(cfg().jobs, n ? n : 1);
        // work stealing through a shared counter
        auto *next = static_cast<std::atomic<std::size_t> *>(::mmap(
            nullptr, sizeof(std::atomic<std::size_t>), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        new (next) std::atomic<std::size_t>(0);
        std::cout.flush();
        std::cerr.flush();
        std::vector<pid_t> pids;
        for (std::size_t j = 0; j < jobs; j++) {
            pid_t p = ::fork();
            if (p < 0) {
                std::perror("fork");
                std::_Exit(3);
            }
            if (p == 0) {
                ::prctl(PR_SET_PDEATHSIG, SIGKILL);
                cfg().child = true;
                install_handlers();
                try {
                    for (;;) {
                        std::size_t i = next->fetch_add(1);
                        if (i >= n || sh()->violations > 0) {
                            break;
                        }
                        limit_cpu(cfg().case_seconds);
                        f(i);
                        limit_cpu(0);
                    }
                } catch (const std::exception &e) {
                    violation("exception", std::string("unexpected exception: ") + e.what() + ended_case());
                } catch (...) {
                    violation("exception", "unexpected exception" + ended_case());
                }
                std::_Exit(0);
            }
            pids.push_back(p);
        }
        bool bad = false;
        std::set<pid_t> running(pids.begin(), pids.end());
        while (!running.empty()) {
            int st = 0;
            pid_t p = ::waitpid(-1, &st, 0);
            if (p < 0 || !running.erase(p)) {
                continue;
            }
            if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 42)) && sh()->violations == 0) {
                bad = true;
                std::cerr << "vh: worker ended abnormally, status " << st << std::endl;
            }
            if (sh()->violations > 0) {
                // the verdict is known; the others may be caught in an endless loop
                for (pid_t other : running) {
                    ::kill(other, SIGKILL);
                }
            }
        }
        ::munmap(next, sizeof(std::atomic<std::size_t>));
        if (sh()->violations > 0) {
            current_case() = case_desc();
            finish_and_exit();
        }
        if (bad) {
            // sanitizer aborts exit with their own code: the code under test misbehaved
            violation("crash", "a worker running the code under test ended abnormally");
        }
    }

    // main() of every checker: vh::run(argc, argv, {{"M01", f}, ...})
    using entry = std::pair<std::string, std::function<void()>>;
    inline int run(int argc, char **argv, const std::vector<entry> &entries) {
        auto &c = cfg();
        c.out = std::cout.rdbuf();
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(++i < argc ? argv[i] : ""); };
            if (a == "--id") {
                c.id = val();
            } else if (a == "--tier") {
                c.tier = val();
            } else if (a == "--seed") {
                c.seed = std::atol(val().c_str());
            } else if (a == "--out") {
                c.out_dir = val();
            } else if (a == "--jobs") {
                c.jobs = std::atoi(val().c_str());
            } else if (a == "--known") {
                std::ifstream f(val());
                std::string line;
                while (std::getline(f, line)) {
                    // known: property=<id> key=<key> <text>
                    std::istringstream is(line);
                    std::string w, p, k;
                    is >> w >> p >> k;
                    if (w == "known:" && p == "property=" + c.id && k.rfind("key=", 0) == 0) {
                        std::string text;
                        std::getline(is, text);
                        c.known_keys[k.substr(4)] = text;
                    }
                }
            }
        }
        void *m = ::mmap(nullptr, sizeof(shared_state), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        sh() = new (m) shared_state();
        install_handlers();
#ifndef __SANITIZE_ADDRESS__
        // runaway allocations of the code under test fail instead of exhausting the machine
        struct rlimit memory = {rlim_t(8) << 30, rlim_t(8) << 30};
        ::setrlimit(RLIMIT_AS, &memory);
#endif
        for (auto &e : entries) {
            if (e.first == c.id) {
                limit_cpu(2 * c.case_seconds);
                try {
                    e.second();
                } catch (const std::exception &ex) {
                    violation("exception", std::string("unexpected exception: ") + ex.what() + ended_case());
                }
                if (sh()->traces == 0 || sh()->states == 0) {
                    std::cerr << "vh: nothing was explored" << std::endl;
                    return 3;
                }
                finish_and_exit();
            }
        }
        std::cerr << "vh: no checker named " << c.id << std::endl;
        return 3;
    }
}    // namespace vh

// sanitizer reports end in SIGABRT, which is turned into a violation naming the case being run
extern "C" __attribute__((used, visibility("default"))) const char *__asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_abort=0:allocator_may_return_null=0:max_allocation_size_mb=8192"; }
extern "C" __attribute__((used, visibility("default"))) const char *__ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0"; }
