// A small property-based testing engine.
//
//  * every random decision of a case is drawn from one choice sequence (pbt::source), which is a
//    pure function of (VERIF_SEED, sub-property, shard, case number);
//  * cases run in sharded worker processes, so that a crash, a sanitizer abort or a hang of the code
//    under test is attributed to the case that caused it;
//  * failures are shrunk on the choice sequence (delete / zero / lower), every candidate being
//    evaluated in a forked child, and replayed three times before they are reported;
//  * counters, labels, distinct non-trivial keys and samples are collected for the evidence file.
#pragma once

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct failure {
    std::string sig;
    std::string msg;
};
struct discard {};

inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

inline std::uint64_t hash_str(std::string_view s, std::uint64_t h = 0xcbf29ce484222325ULL) {
    for (unsigned char c : s) {
        h = (h ^ c) * 0x100000001b3ULL;
    }
    return mix(h);
}

class source {
public:
    static constexpr std::size_t limit = 60000;

    explicit source(std::uint64_t seed) : state_ { seed } {}
    explicit source(std::vector<std::uint32_t> choices) : replay_ { true }, rec_ { std::move(choices) } {}

    // uniform in [0, n); 0 is by convention the simplest choice
    std::uint32_t draw(std::uint32_t n) {
        if (n <= 1) {
            return 0;
        }
        std::uint32_t v;
        if (replay_) {
            v = pos_ < rec_.size() ? rec_[pos_] : 0;
            if (v >= n) {
                v = n - 1;
            }
        } else {
            state_ += 0x9e3779b97f4a7c15ULL;
            v = static_cast<std::uint32_t>(mix(state_) % n);
            rec_.push_back(v);
        }
        ++pos_;
        if (tracing_) trace_.push_back(v);
        if (pos_ > limit) {
            throw discard {};
        }
        if (mirror_) {
            if (pos_ <= limit) {
                mirror_[pos_] = v;
                mirror_[0] = static_cast<std::uint32_t>(pos_);
            }
        }
        return v;
    }
    // true with probability num/den; shrinks to false
    bool chance(std::uint32_t num, std::uint32_t den) { return draw(den) >= den - num; }
    bool flip() { return draw(2) == 1; }
    int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<std::uint32_t>(hi - lo + 1))); }
    std::uint64_t bits(int n) {
        std::uint64_t r = 0;
        while (n > 0) {
            int k = n > 16 ? 16 : n;
            r = (r << k) | draw(1U << k);
            n -= k;
        }
        return r;
    }
    template<class C>
    auto const& pick(C const& c) { return c[draw(static_cast<std::uint32_t>(c.size()))]; }
    // index by weight
    int weighted(std::initializer_list<int> w) {
        int total = 0;
        for (int x : w) total += x;
        int v = static_cast<int>(draw(static_cast<std::uint32_t>(total)));
        int i = 0;
        for (int x : w) {
            if (v < x) return i;
            v -= x;
            ++i;
        }
        return 0;
    }
    // geometric-ish size: 0.. max, small most of the time; very rarely, it is far over max
    int size(int max) {
        if (max > 2 && chance(1, 400)) return max + range(1, 70);
        int n = 0;
        while (n < max && chance(1, 2)) ++n;
        return n;
    }
    std::vector<std::uint32_t> const& record() const { return rec_; }
    // collects the following choices, until end_trace()
    void begin_trace() { tracing_ = true; trace_.clear(); }
    std::vector<std::uint32_t> end_trace() { tracing_ = false; return std::move(trace_); }
    void mirror(std::uint32_t* p) { mirror_ = p; if (p) p[0] = 0; }

private:
    std::uint64_t state_ {};
    bool replay_ { false };
    std::size_t pos_ { 0 };
    std::vector<std::uint32_t> rec_;
    std::uint32_t* mirror_ {};
    bool tracing_ { false };
    std::vector<std::uint32_t> trace_;
};

class context {
public:
    [[noreturn]] void fail(std::string sig, std::string msg) { throw failure { std::move(sig), std::move(msg) }; }
    void require(bool cond, char const* sig, std::string const& msg = {}) {
        ++checks;
        if (!cond) fail(sig, msg);
    }
    // the message is rendered only on failure
    template<class F, class = decltype(std::declval<F&>()())>
    void require(bool cond, char const* sig, F&& msg) {
        ++checks;
        if (!cond) fail(sig, msg());
    }
    // the rendered input of this case
    void show(std::string s) { shown = std::move(s); if (publish) publish(shown); }
    void show_more(std::string const& s) { shown += s; if (publish) publish(shown); }
    // tells what is shown at once, so that it is known of cases which end the process
    std::function<void(std::string const&)> publish;
    void label(std::string const& s, bool on = true) { if (on) labels[s]++; }
    // declares this case as non-trivial, identified by key
    void nontrivial(std::string_view key) { keys.push_back(hash_str(key)); }

    std::string shown;
    std::map<std::string, std::uint64_t> labels;
    std::vector<std::uint64_t> keys;
    std::uint64_t checks { 0 };
};

using case_fn = std::function<void(source&, context&)>;

struct sub_property {
    std::string name;
    std::uint64_t quick;     // total number of cases, over all shards
    std::uint64_t thorough;
    case_fn fn;
};

struct suite {
    std::string property;
    std::string rule;
    std::vector<sub_property> subs;
};

namespace impl {

struct shared_area {
    volatile std::uint64_t current_case;
    volatile int current_sub;
    volatile int state;        // 1 ok, 2 fail, 3 discard
    std::uint32_t choices[source::limit + 8];
    char sig[512];
    char msg[16384];
    char shown[65536];
};

inline shared_area* map_shared() {
    void* p = mmap(nullptr, sizeof(shared_area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return static_cast<shared_area*>(p);
}

inline void put(char* dst, std::size_t n, std::string const& s) {
    std::size_t k = std::min(n - 1, s.size());
    memcpy(dst, s.data(), k);
    dst[k] = 0;
}

constexpr int hang_exit = 97;
inline void on_alarm(int) { _exit(hang_exit); }

inline void arm(int seconds) {
    itimerval t {};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

inline std::string jesc(std::string_view s) {
    static char const* hex = "0123456789abcdef";
    std::string r = "\"";
    for (std::size_t i = 0; i < s.size(); ++i) {
        auto c = static_cast<unsigned char>(s[i]);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            r += "\\u00";
            r += hex[c >> 4];
            r += hex[c & 15];
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

struct outcome {
    bool failed { false };
    bool discarded { false };
    std::string sig, msg, shown;
};

inline double now() {
    timespec t {};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}

// runs one case, storing the outcome into the shared area
inline void run_case(sub_property const& sub, source& src, shared_area* sh, bool forked = false) {
    context ctx;
    if (forked) ctx.publish = [sh](std::string const& s) { put(sh->shown, sizeof(sh->shown), s); };
    sh->state = 0;
    src.mirror(sh->choices);
    try {
        sub.fn(src, ctx);
        sh->state = 1;
    } catch (failure const& f) {
        put(sh->sig, sizeof(sh->sig), f.sig);
        put(sh->msg, sizeof(sh->msg), f.msg);
        sh->state = 2;
    } catch (discard const&) {
        sh->state = 3;
    } catch (std::exception const& e) {
        put(sh->sig, sizeof(sh->sig), "exception");
        put(sh->msg, sizeof(sh->msg), std::string { "uncaught exception from the code under test: " } + e.what());
        sh->state = 2;
    }
    put(sh->shown, sizeof(sh->shown), ctx.shown);
}

inline outcome eval_forked(sub_property const& sub, source src, shared_area* sh, std::string const& errfile, int hang_seconds) {
    sh->state = 0;
    sh->sig[0] = sh->msg[0] = sh->shown[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) {
            dup2(fd, 2);
        }
        signal(SIGPROF, on_alarm);
        arm(hang_seconds);
        run_case(sub, src, sh, true);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    outcome r;
    r.shown = sh->shown;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->state != 0) {
        r.failed = sh->state == 2;
        r.discarded = sh->state == 3;
        r.sig = sh->sig;
        r.msg = sh->msg;
        return r;
    }
    r.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == hang_exit) {
        r.sig = "hang";
        r.msg = "the case did not finish within " + std::to_string(hang_seconds) + " seconds of processor time";
    } else {
        r.sig = "crash";
        std::ifstream in(errfile);
        std::stringstream ss;
        ss << in.rdbuf();
        auto text = ss.str().substr(0, 6000);
        r.msg = "the process was ended (status " + std::to_string(st) + "):\n" + text;
    }
    return r;
}

inline std::vector<std::uint32_t> recorded(shared_area* sh) {
    std::size_t n = std::min<std::size_t>(sh->choices[0], source::limit);
    return { sh->choices + 1, sh->choices + 1 + n };
}

} // namespace impl

struct found {
    int sub;
    std::uint64_t index;
    std::string sig, msg, shown;
    std::vector<std::uint32_t> choices;
    bool reproduced { false };
};

inline std::vector<std::uint32_t> shrink(
        sub_property const& sub,
        std::vector<std::uint32_t> best,
        std::string const& sig,
        impl::shared_area* sh,
        std::string const& errfile,
        int hang_seconds,
        double budget_seconds) {
    using namespace impl;
    double deadline = now() + budget_seconds;
    int evals = 0;
    auto still = [&](std::vector<std::uint32_t> const& c) {
        ++evals;
        auto o = eval_forked(sub, source { c }, sh, errfile, hang_seconds);
        return o.failed && o.sig == sig;
    };
    auto expired = [&] { return now() > deadline || evals > 6000; };
    // drop the unused tail
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && !expired()) {
        progress = false;
        // delete chunks
        for (std::size_t len = std::max<std::size_t>(best.size() / 2, 1); len >= 1 && !expired(); len /= 2) {
            for (std::size_t i = best.size(); i-- > 0 && !expired();) {
                if (i + len > best.size()) continue;
                auto c = best;
                c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
                if (still(c)) {
                    best = std::move(c);
                    progress = true;
                    if (i > best.size()) i = best.size();
                } else if (len > 4 && i >= len) {
                    i -= len / 2;
                }
            }
        }
        // zero chunks
        for (std::size_t len = 8; len >= 1 && !expired(); len /= 2) {
            for (std::size_t i = 0; i + len <= best.size() && !expired(); i += len) {
                bool nonzero = false;
                for (std::size_t k = i; k < i + len; ++k) nonzero |= best[k] != 0;
                if (!nonzero) continue;
                auto c = best;
                std::fill(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len), 0U);
                if (still(c)) {
                    best = std::move(c);
                    progress = true;
                }
            }
        }
        // lower values
        for (std::size_t i = 0; i < best.size() && !expired(); ++i) {
            while (best[i] > 1 && !expired()) {
                auto c = best;
                c[i] = best[i] / 2;
                if (!still(c)) {
                    c[i] = best[i] - 1;
                    if (best[i] > 40 || !still(c)) break;
                }
                best = std::move(c);
                progress = true;
            }
        }
    }
    return best;
}

inline int usage() {
    std::cerr << "usage: PROGRAM --out RESULT.json --work DIR --replays DIR [--seed N] [--tier quick|thorough]"
                 " [--shards N] [--scale F] [--known FILE] [--only SUB] | --replay FILE" << std::endl;
    return 3;
}

inline int run(suite const& s, int argc, char** argv) {
    using namespace impl;
    std::string out, work = "/tmp", replays = ".", tier = "quick", known_file, replay, only;
    std::uint64_t seed = 1;
    int shards = 8;
    double scale = 1.0;
    double cap = 0;
    int hang_seconds = 40;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
        if (a == "--out") out = next();
        else if (a == "--work") work = next();
        else if (a == "--replays") replays = next();
        else if (a == "--tier") tier = next();
        else if (a == "--seed") seed = std::strtoull(next().c_str(), nullptr, 10);
        else if (a == "--shards") shards = std::atoi(next().c_str());
        else if (a == "--scale") scale = std::atof(next().c_str());
        else if (a == "--cap") cap = std::atof(next().c_str());
        else if (a == "--known") known_file = next();
        else if (a == "--only") only = next();
        else if (a == "--replay") replay = next();
        else return usage();
    }
    // known findings: lines "known: property=<id> sub=<sub> sig=<sig> :: text"
    struct known_entry { std::string sub, sig, text; };
    std::vector<known_entry> known;
    if (!known_file.empty()) {
        std::ifstream in(known_file);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream ls(line);
            std::string w;
            ls >> w;
            if (w != "known:") continue;
            known_entry e;
            std::string prop;
            auto sep = line.find(" :: ");
            e.text = sep == std::string::npos ? "" : line.substr(sep + 4);
            while (ls >> w && w != "::") {
                if (w.rfind("property=", 0) == 0) prop = w.substr(9);
                if (w.rfind("sub=", 0) == 0) e.sub = w.substr(4);
                if (w.rfind("sig=", 0) == 0) e.sig = w.substr(4);
            }
            if (prop == s.property) known.push_back(e);
        }
    }
    auto* sh = map_shared();
    std::string errfile = work + "/stderr." + std::to_string(getpid());

    if (!replay.empty()) {
        std::ifstream in(replay);
        std::string line, subname;
        std::vector<std::uint32_t> choices;
        while (std::getline(in, line)) {
            if (line.rfind("sub: ", 0) == 0) subname = line.substr(5);
            if (line.rfind("choices:", 0) == 0) {
                std::istringstream ls(line.substr(8));
                std::uint32_t v;
                while (ls >> v) choices.push_back(v);
            }
        }
        for (auto const& sub : s.subs) {
            if (sub.name != subname) continue;
            auto o = eval_forked(sub, source { choices }, sh, errfile, hang_seconds);
            std::cout << "input:\n" << o.shown << "\n";
            if (o.failed) {
                std::cout << "FAILED [" << o.sig << "] " << o.msg << std::endl;
                return 1;
            }
            std::cout << (o.discarded ? "discarded" : "passed") << std::endl;
            return 0;
        }
        std::cerr << "unknown sub-property: " << subname << std::endl;
        return 3;
    }

    double t0 = now();
    auto is_known = [&](std::string const& sub, std::string const& sig) -> known_entry const* {
        for (auto const& k : known) {
            if (k.sub == sub && k.sig == sig) return &k;
        }
        return nullptr;
    };
    struct worker {
        pid_t pid;
        shared_area* area;
        int shard;
        int start_sub;
        std::uint64_t start_case;
    };
    std::vector<worker> workers;
    std::vector<found> founds;
    std::map<std::string, std::uint64_t> known_hits;

    auto case_seed = [&](int sub, int shard, std::uint64_t i) {
        return mix(mix(mix(seed * 1000003ULL + 17) ^ hash_str(s.subs[static_cast<std::size_t>(sub)].name)) + static_cast<std::uint64_t>(shard) * 0x1000000ULL + i);
    };
    auto count_of = [&](int sub) {
        auto const& p = s.subs[static_cast<std::size_t>(sub)];
        double n = static_cast<double>(tier == "thorough" ? p.thorough : p.quick) * scale / shards;
        return static_cast<std::uint64_t>(n < 1 ? 1 : n);
    };

    auto spawn = [&](int shard, shared_area* area, int start_sub, std::uint64_t start_case) {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid != 0) {
            workers.push_back({ pid, area, shard, start_sub, start_case });
            return;
        }
        std::string base = work + "/shard" + std::to_string(shard) + "." + std::to_string(start_sub) + "." + std::to_string(start_case);
        int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) dup2(fd, 2);
        signal(SIGPROF, on_alarm);
        auto stats_file = [&](int sub) { return base + "." + std::to_string(sub); };
        for (int si = start_sub; si < static_cast<int>(s.subs.size()); ++si) {
            auto const& sub = s.subs[static_cast<std::size_t>(si)];
            if (!only.empty() && only != sub.name) continue;
            std::uint64_t n = count_of(si), evals = 0, discards = 0, checks = 0, kn = 0;
            std::map<std::string, std::uint64_t> labels;
            std::unordered_set<std::uint64_t> keys;
            std::vector<std::string> samples;
            std::map<std::string, std::uint64_t> kh;
            std::string failed_sig, failed_msg, failed_shown;
            std::vector<std::uint32_t> failed_choices;
            std::uint64_t failed_index = 0;
            bool failed = false;
            auto flush_stats = [&] {
                std::ofstream o(stats_file(si));
                o << evals << " " << discards << " " << checks << "\n" << labels.size() << "\n";
                for (auto& [k, v] : labels) o << v << " " << k << "\n";
                o << kh.size() << "\n";
                for (auto& [k, v] : kh) o << v << " " << k << "\n";
                o << samples.size() << "\n";
                for (auto& x : samples) o << x << "\n";
                o << keys.size() << "\n";
                for (auto k : keys) o << k << "\n";
                if (failed) {
                    o << "F " << failed_index << "\n" << jesc(failed_sig) << "\n" << failed_choices.size();
                    for (auto c : failed_choices) o << " " << c;
                    o << "\n";
                }
            };
            // written up front, and every 512 cases: a crash of a later case keeps the rest
            double last_flush = now();
            for (std::uint64_t i = si == start_sub ? start_case : 0; i < n; ++i) {
                if ((i & 15U) == 0) arm(hang_seconds);
                area->current_sub = si;
                area->current_case = i;
                source src { case_seed(si, shard, i) };
                context ctx;
                ++evals;
                try {
                    sub.fn(src, ctx);
                } catch (discard const&) {
                    ++discards;
                    continue;
                } catch (failure const& f) {
                    if (auto* k = is_known(sub.name, f.sig)) {
                        kh[k->text]++;
                        ++kn;
                        continue;
                    }
                    failed = true;
                    failed_sig = f.sig;
                } catch (std::exception const& e) {
                    if (auto* k = is_known(sub.name, "exception")) {
                        kh[k->text]++;
                        continue;
                    }
                    failed = true;
                    failed_sig = "exception";
                }
                if (failed) {
                    failed_index = i;
                    failed_choices = src.record();
                    break;
                }
                checks += ctx.checks;
                for (auto& [k, v] : ctx.labels) labels[k] += v;
                bool fresh = false;
                for (auto k : ctx.keys) fresh |= keys.insert(k).second;
                if (fresh && !ctx.shown.empty() && samples.size() < 3 && (i % 7 == 3)) {
                    samples.push_back(jesc(ctx.shown.substr(0, 600)));
                }
                if ((i & 255U) == 0) {
                    double t = now();
                    if (t - last_flush > 3) {
                        flush_stats();
                        last_flush = t;
                    }
                    if (cap > 0 && t - t0 > cap) {
                        labels["stopped-by-time-cap"]++;
                        break;
                    }
                }
            }
            arm(0);
            flush_stats();
        }
        _exit(0);
    };

    for (int k = 0; k < shards; ++k) {
        spawn(k, map_shared(), 0, 0);
    }
    while (!workers.empty()) {
        int st = 0;
        pid_t pid = waitpid(-1, &st, 0);
        auto it = std::find_if(workers.begin(), workers.end(), [&](auto& w) { return w.pid == pid; });
        if (it == workers.end()) continue;
        worker w = *it;
        workers.erase(it);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            // not the doing of a case (out of memory, or stopped from outside): inconclusive
            std::cerr << "a worker was killed; its remaining cases were not run" << std::endl;
        }
        // crashed: attribute it to the current case
        int si = w.area->current_sub;
        std::uint64_t ci = w.area->current_case;
        auto const& sub = s.subs[static_cast<std::size_t>(si)];
        auto o = eval_forked(sub, source { case_seed(si, w.shard, ci) }, sh, errfile, hang_seconds);
        auto choices = recorded(sh);
        bool resume_next_sub = false;
        if (o.failed) {
            if (auto* k = is_known(sub.name, o.sig)) {
                known_hits[k->text]++;
            } else {
                founds.push_back({ si, ci, o.sig, o.msg, o.shown, choices, false });
                resume_next_sub = true;
            }
        } else {
            std::cerr << "a worker ended at " << sub.name << " case " << ci << ", but the case does not fail alone" << std::endl;
        }
        if (resume_next_sub) {
            if (si + 1 < static_cast<int>(s.subs.size())) spawn(w.shard, w.area, si + 1, 0);
        } else {
            spawn(w.shard, w.area, si, ci + 1);
        }
    }
    // collect
    struct totals {
        std::uint64_t evals {}, discards {}, checks {};
        std::map<std::string, std::uint64_t> labels;
        std::vector<std::string> samples;
        std::unordered_set<std::uint64_t> keys;
    };
    std::vector<totals> tot(s.subs.size());
    {
        std::string cmd = work;
        for (int k = 0; k < shards; ++k) {
            // enumerate the files of this shard
            std::string prefix = "shard" + std::to_string(k) + ".";
            FILE* p = popen(("ls '" + work + "' | sort").c_str(), "r");
            char buf[512];
            std::vector<std::string> names;
            while (p && fgets(buf, sizeof(buf), p)) {
                std::string n = buf;
                while (!n.empty() && n.back() == '\n') n.pop_back();
                if (n.rfind(prefix, 0) == 0 && n.find(".err") == std::string::npos) names.push_back(n);
            }
            if (p) pclose(p);
            for (auto const& n : names) {
                int si = std::atoi(n.substr(n.rfind('.') + 1).c_str());
                if (si < 0 || si >= static_cast<int>(tot.size())) continue;
                auto& t = tot[static_cast<std::size_t>(si)];
                std::ifstream in(work + "/" + n);
                std::uint64_t a = 0, b = 0, c = 0, cnt = 0;
                in >> a >> b >> c;
                t.evals += a;
                t.discards += b;
                t.checks += c;
                in >> cnt;
                std::string line;
                for (std::uint64_t i = 0; i < cnt; ++i) {
                    std::uint64_t v;
                    in >> v;
                    in.get();
                    std::getline(in, line);
                    t.labels[line] += v;
                }
                in >> cnt;
                for (std::uint64_t i = 0; i < cnt; ++i) {
                    std::uint64_t v;
                    in >> v;
                    in.get();
                    std::getline(in, line);
                    known_hits[line] += v;
                }
                in >> cnt;
                std::getline(in, line);
                for (std::uint64_t i = 0; i < cnt; ++i) {
                    std::getline(in, line);
                    if (t.samples.size() < 4) t.samples.push_back(line);
                }
                in >> cnt;
                for (std::uint64_t i = 0; i < cnt; ++i) {
                    std::uint64_t v;
                    in >> v;
                    t.keys.insert(v);
                }
                std::string tag;
                if (in >> tag && tag == "F") {
                    std::uint64_t idx = 0;
                    in >> idx;
                    std::getline(in, line);
                    std::getline(in, line);
                    std::size_t m = 0;
                    in >> m;
                    std::vector<std::uint32_t> ch(m);
                    for (auto& v : ch) in >> v;
                    auto o = eval_forked(s.subs[static_cast<std::size_t>(si)], source { ch }, sh, errfile, hang_seconds);
                    if (!o.failed) {
                        for (int r = 0; r < 2 && !o.failed; ++r) {
                            o = eval_forked(s.subs[static_cast<std::size_t>(si)], source { ch }, sh, errfile, hang_seconds);
                        }
                    }
                    founds.push_back({ si, idx, o.sig, o.msg, o.shown, ch, o.failed });
                }
            }
        }
    }
    int violations = 0;
    std::string viol_json;
    std::set<int> reported;
    std::stable_sort(founds.begin(), founds.end(), [](found const& a, found const& b) {
        return a.sub != b.sub ? a.sub < b.sub : a.choices.size() < b.choices.size();
    });
    double shrink_budget = tier == "thorough" ? 240 : 60;
    for (auto& f : founds) {
        if (reported.count(f.sub)) continue;
        auto const& sub = s.subs[static_cast<std::size_t>(f.sub)];
        auto repro = [&](std::vector<std::uint32_t> const& ch, outcome& last) {
            int n = 0;
            for (int r = 0; r < 3; ++r) {
                auto o = eval_forked(sub, source { ch }, sh, errfile, hang_seconds);
                if (o.failed) {
                    ++n;
                    last = o;
                }
            }
            return n;
        };
        outcome last;
        int n0 = repro(f.choices, last);
        if (n0 == 0) {
            std::cerr << "not reproducible, not reported: " << s.property << "/" << sub.name << " case " << f.index << std::endl;
            continue;
        }
        std::vector<std::uint32_t> best = f.choices;
        if (n0 == 3) {
            double per = last.sig == "hang" ? 0 : shrink_budget / (1 + static_cast<double>(reported.size()));
            if (per > 0) best = shrink(sub, best, last.sig, sh, errfile, hang_seconds, per);
            outcome l2;
            if (repro(best, l2) == 3) last = l2;
            else best = f.choices;
        }
        reported.insert(f.sub);
        ++violations;
        std::string path = replays + "/" + s.property + "-" + sub.name + ".replay";
        {
            std::ofstream o(path);
            o << "property: " << s.property << "\nsub: " << sub.name << "\nseed: " << seed << "\nsignature: " << last.sig
              << "\nchoices:";
            for (auto c : best) o << " " << c;
            o << "\n--- input ---\n" << last.shown << "\n--- failure ---\n" << last.msg << "\n";
        }
        std::cout << "failure in " << s.property << "/" << sub.name << " [" << last.sig << "]\n  input: " << last.shown.substr(0, 3000)
                  << "\n  " << last.msg.substr(0, 3000) << "\n";
        std::cout << "VIOLATION property=" << s.property << " replay=" << path << std::endl;
    }
    for (auto const& [k, v] : known_hits) {
        std::cout << "KNOWN-FINDING: property=" << s.property << " " << k << std::endl;
    }
    // every listed finding is reported, also those excluded from generation by construction
    for (auto const& k : known) {
        if (!known_hits.count(k.text) && k.sub == "-") {
            std::cout << "KNOWN-FINDING: property=" << s.property << " " << k.text << std::endl;
        }
    }
    if (!out.empty()) {
        std::ofstream o(out);
        std::uint64_t ev = 0, nt = 0, chk = 0, dis = 0;
        for (auto& t : tot) {
            ev += t.evals;
            nt += t.keys.size();
            chk += t.checks;
            dis += t.discards;
        }
        o << "{\n \"evaluations\": " << ev << ",\n \"distinct_nontrivial\": " << nt << ",\n \"discarded\": " << dis
          << ",\n \"oracle_checks\": " << chk << ",\n \"rule\": " << jesc(s.rule) << ",\n \"samples\": [";
        bool first = true;
        for (auto& t : tot) {
            for (auto& x : t.samples) {
                o << (first ? "" : ", ") << "\n  " << x;
                first = false;
            }
        }
        o << "\n ],\n \"sub_properties\": {";
        for (std::size_t i = 0; i < tot.size(); ++i) {
            o << (i ? "," : "") << "\n  " << jesc(s.subs[i].name) << ": { \"evaluations\": " << tot[i].evals
              << ", \"distinct_nontrivial\": " << tot[i].keys.size() << ", \"discarded\": " << tot[i].discards
              << ", \"labels\": {";
            bool f2 = true;
            for (auto& [k, v] : tot[i].labels) {
                o << (f2 ? "" : ", ") << jesc(k) << ": " << v;
                f2 = false;
            }
            o << "} }";
        }
        o << "\n },\n \"violations\": " << violations << ",\n \"search_s\": " << (now() - t0) << "\n}\n";
    }
    unlink(errfile.c_str());
    return violations ? 1 : 0;
}

} // namespace pbt
