// Batch driver, replay and minimisation.
#include "gen.h"
#include "host.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sched.h>
#include <set>
#include <sstream>
#include <poll.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

namespace {

double wall() {
    timespec ts{};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

template <class T> T *shared(size_t n = 1) {
    void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    return static_cast<T *>(p);
}

void on_signal(int sig, siginfo_t *, void *context) {
    char msg[64];
    snprintf(msg, sizeof(msg), "signal %d (%s)", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : "fatal signal");
    // report through the normal path; a second fault kills the process
    struct sigaction sa {};
    sa.sa_handler = SIG_DFL;
    sigaction(sig, &sa, nullptr);
    sigset_t ss;
    sigemptyset(&ss);
    sigaddset(&ss, sig);
    sigprocmask(SIG_UNBLOCK, &ss, nullptr);
    auto *pc = reinterpret_cast<void *>(static_cast<ucontext_t *>(context)->uc_mcontext.gregs[REG_RIP]);
    if (handler_crashed(pc)) {
        fatal("limit", msg);
    }
    fatal("crash", msg);
}

int g_cpu_limit = 40;
double g_wall_limit = 120;
bool g_verbose = false;

void child(Case const &c, Result *res) {
    rlimit rl{static_cast<rlim_t>(g_cpu_limit), static_cast<rlim_t>(g_cpu_limit + 5)};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    struct sigaction sa {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) {
        sigaction(s, &sa, nullptr);
    }
    sa.sa_flags = SA_ONSTACK;
    sa.sa_handler = SIG_DFL;
    sigaction(SIGXCPU, &sa, nullptr);
    execute(c, res);
    _exit(0);
}

//! Run a case in a fresh process.
void run_case(Case const &c, Result *res) {
    memset(res, 0, offsetof(Result, dec));
    memset(res->cov, 0, sizeof(res->cov));
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(2);
    }
    if (pid == 0) {
        child(c, res);
    }
    double start = wall();
    int st = 0;
    bool killed = false;
    useconds_t nap = 200;
    int fd = static_cast<int>(syscall(SYS_pidfd_open, pid, 0));
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) {
            break;
        }
        if (r < 0 && errno != EINTR) {
            break;
        }
        if (wall() - start > g_wall_limit) {
            kill(pid, SIGKILL);
            killed = true;
        }
        if (fd >= 0) {
            pollfd p{fd, POLLIN, 0};
            poll(&p, 1, 500);
            continue;
        }
        timespec ts{0, static_cast<long>(nap) * 1000};
        nanosleep(&ts, nullptr);
        nap = std::min<useconds_t>(nap * 2, 2000);
    }
    if (fd >= 0) {
        close(fd);
    }
    if (res->status == ST_RUNNING) {
        if (killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) {
            res->status = ST_INCONCLUSIVE;
            snprintf(res->cls, sizeof(res->cls), "%s", killed ? "wall" : "cpu");
        } else {
            res->status = ST_VIOLATION;
            snprintf(res->cls, sizeof(res->cls), "crash");
            snprintf(res->msg, sizeof(res->msg), "process died with %s %d", WIFSIGNALED(st) ? "signal" : "exit code",
                     WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        }
    }
}

// ------------------------------------------------------------------ C16: compare with running alone

//! Check if a program uses one thread and no interrupts.
bool sequential(Program const &p) {
    bool seq = true;
    for (auto const &a : p.args) {
        seq = seq && a != "-t";
    }
    for (auto const &s : p.steps) {
        for (auto const &o : s.ops) {
            seq = seq && !(o.kind == O_THREADS && o.a > 1) && o.fault < 0;
        }
    }
    return seq;
}

//! For independence the sequence of answers of a program must not depend on its company.
bool alone_differs(Case const &c, Result const &all, Result *tmp, std::string &msg) {
    for (size_t i = 0; i < c.progs.size(); ++i) {
        auto const &p = c.progs[i];
        if (!sequential(p)) {
            continue;
        }
        Case d = c;
        d.progs = {p};
        d.progs[0].delay = 0;
        d.sched = SchedConfig{};
        d.sched.layout = c.sched.layout;
        d.sched.quarantine = c.sched.quarantine;
        run_case(d, tmp);
        if (tmp->status == ST_OK && tmp->prog_digest[0] != all.prog_digest[i]) {
            msg = "program " + std::to_string(i) + " gives a different sequence of answers alone and in company";
            return true;
        }
    }
    return false;
}

void run_full(Case const &c, Result *res, Result *tmp) {
    run_case(c, res);
    if (res->status == ST_OK && c.profile == "c16" && c.progs.size() > 1) {
        std::string msg;
        if (alone_differs(c, *res, tmp, msg)) {
            res->status = ST_VIOLATION;
            snprintf(res->cls, sizeof(res->cls), "isolation");
            snprintf(res->msg, sizeof(res->msg), "%s", msg.c_str());
        }
    }
    if (res->status == ST_OK && c.progs.size() == 1 && !c.progs[0].alt.empty() && sequential(c.progs[0])) {
        // the same options given in the plain way
        Case d = c;
        d.progs[0].alt.clear();
        run_case(d, tmp);
        if (tmp->status == ST_OK && tmp->prog_digest[0] != res->prog_digest[0]) {
            res->status = ST_VIOLATION;
            snprintf(res->cls, sizeof(res->cls), "options");
            snprintf(res->msg, sizeof(res->msg), "searches differ although the options are equivalent");
        }
    }
}

// ------------------------------------------------------------------ minimisation

struct Minimizer {
    Result *res;
    Result *tmp;
    std::string cls;
    int budget;
    double deadline;
    int runs = 0;

    bool out() { return budget <= 0 || wall() > deadline; }

    bool fails(Case const &c) {
        if (out()) {
            return false;
        }
        --budget;
        ++runs;
        run_full(c, res, tmp);
        return res->status == ST_VIOLATION && cls == res->cls;
    }

    //! Does the case fail for the current or a few nearby schedules?
    bool fails_some(Case &c, int tries) {
        if (fails(c)) {
            return true;
        }
        if (c.sched.strategy == 0 && c.sched.spurious == 0) {
            return false;
        }
        auto s = c.sched;
        for (int i = 0; i < tries; ++i) {
            c.sched.seed = s.seed + 1 + static_cast<uint64_t>(i);
            if (fails(c)) {
                return true;
            }
        }
        c.sched = s;
        return false;
    }

    template <class F> bool attempt(Case &c, F f, int tries = 3) {
        Case d = c;
        if (!f(d)) {
            return false;
        }
        if (fails_some(d, tries)) {
            c = std::move(d);
            return true;
        }
        return false;
    }

    void minimize(Case &c) {
        bool changed = true;
        int rounds = 0;
        while (changed && rounds++ < 4 && !out()) {
            changed = false;
            // programs
            for (size_t i = c.progs.size(); i-- > 0 && c.progs.size() > 1;) {
                changed |= attempt(c, [&](Case &d) {
                    d.progs.erase(d.progs.begin() + static_cast<long>(i));
                    return true;
                });
            }
            for (size_t pi = 0; pi < c.progs.size(); ++pi) {
                changed |= reduce_program(c, pi);
            }
            // schedule
            changed |= attempt(c, [&](Case &d) {
                if (d.sched.strategy == 0 && d.sched.spurious == 0 && d.sched.clockjump == 0) {
                    return false;
                }
                auto l = d.sched;
                d.sched = SchedConfig{};
                d.sched.layout = l.layout;
                d.sched.quarantine = l.quarantine;
                d.sched.tick_ns = l.tick_ns;
                return true;
            });
            auto zero = [&](auto member) {
                changed |= attempt(c, [&](Case &d) {
                    if (d.sched.*member == 0) {
                        return false;
                    }
                    d.sched.*member = 0;
                    return true;
                });
            };
            zero(&SchedConfig::clockjump);
            zero(&SchedConfig::spurious);
            zero(&SchedConfig::alloc_num);
            zero(&SchedConfig::block_mean);
            zero(&SchedConfig::sync_num);
            zero(&SchedConfig::layout);
        }
    }

    bool reduce_program(Case &c, size_t pi) {
        bool changed = false;
        auto P = [&](Case &d) -> Program & { return d.progs[pi]; };
        // drop trailing steps
        while (P(c).steps.size() > 1 && attempt(c, [&](Case &d) {
                   P(d).steps.pop_back();
                   return true;
               })) {
            changed = true;
        }
        // clasp arguments and options
        for (size_t i = P(c).args.size(); i-- > 0;) {
            if (i < P(c).args.size() && P(c).args[i] == "-t") {
                changed |= attempt(c, [&](Case &d) {
                    auto &a = P(d).args;
                    a.erase(a.begin() + static_cast<long>(i), a.begin() + static_cast<long>(i) + 2);
                    return true;
                });
                if (i + 1 < P(c).args.size() && P(c).args[i] == "-t") {
                    changed |= attempt(c, [&](Case &d) {
                        auto &a = P(d).args[i + 1];
                        if (a == "2") {
                            return false;
                        }
                        a = "2";
                        return true;
                    });
                }
            } else if (i < P(c).args.size() && P(c).args[i].substr(0, 2) == "--") {
                changed |= attempt(c, [&](Case &d) {
                    auto &a = P(d).args;
                    a.erase(a.begin() + static_cast<long>(i));
                    return true;
                });
            }
        }
        for (size_t i = P(c).alt.size(); i-- > 0;) {
            changed |= attempt(c, [&](Case &d) {
                auto &a = P(d).alt;
                // only if this does not change the meaning
                bool last = a[i].kind == 0 && a[i].ok && i + 1 < a.size() && a[i + 1].kind == 1 && !a[i + 1].ok;
                bool first = a[i].kind == 1 && a[i].ok && i > 0;
                if (!a[i].extra || last || first) {
                    return false;
                }
                a.erase(a.begin() + static_cast<long>(i));
                return true;
            });
        }
        if (!P(c).alt.empty()) {
            changed |= attempt(c, [&](Case &d) {
                P(d).alt.clear();
                return true;
            });
        }
        for (size_t i = P(c).alt.size(); i-- > 0;) {
            changed |= attempt(c, [&](Case &d) {
                auto &a = P(d).alt[i];
                bool had = a.fault >= 0;
                a.fault = -1;
                return had;
            });
        }
        for (size_t i = P(c).options.size(); i-- > 0;) {
            changed |= attempt(c, [&](Case &d) {
                if (i >= P(d).options.size()) {
                    return false;
                }
                auto key = P(d).options[i].first;
                if (P(d).alt.empty()) {
                    P(d).options.erase(P(d).options.begin() + static_cast<long>(i));
                    return true;
                }
                auto &o = P(d).options;
                o.erase(std::remove_if(o.begin(), o.end(), [&](auto const &x) { return x.first == key; }), o.end());
                auto &a = P(d).alt;
                a.erase(std::remove_if(a.begin(), a.end(), [&](auto const &x) { return x.key == key; }), a.end());
                return true;
            });
        }
        // rules and operations
        for (size_t s = 0; s < P(c).steps.size(); ++s) {
            auto chunked = [&](auto get) {
                size_t chunk = std::max<size_t>(1, get(c).size() / 2);
                for (;;) {
                    for (size_t i = get(c).size(); i-- > 0;) {
                        if (i % chunk != 0) {
                            continue;
                        }
                        changed |= attempt(c, [&](Case &d) {
                            auto &v = get(d);
                            auto e = std::min(v.size(), i + chunk);
                            if (i >= e) {
                                return false;
                            }
                            v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(e));
                            return consistent(d);
                        });
                    }
                    if (chunk == 1 || out()) {
                        break;
                    }
                    chunk = std::max<size_t>(1, chunk / 2);
                }
            };
            chunked([&](Case &d) -> std::vector<Rule> & { return P(d).steps[s].rules; });
            chunked([&](Case &d) -> std::vector<Op> & { return P(d).steps[s].ops; });
            for (size_t j = 0; j < P(c).steps[s].rules.size(); ++j) {
                for (size_t l = P(c).steps[s].rules[j].body.size(); l-- > 0;) {
                    changed |= attempt(c, [&](Case &d) {
                        auto &b = P(d).steps[s].rules[j].body;
                        if (P(d).steps[s].rules[j].head == H_ATOM && b.size() == 1) {
                            return false;
                        }
                        b.erase(b.begin() + static_cast<long>(l));
                        return true;
                    });
                }
            }
            for (size_t j = 0; j < P(c).steps[s].ops.size(); ++j) {
                auto O = [&](Case &d) -> Op & { return P(d).steps[s].ops[j]; };
                changed |= attempt(c, [&](Case &d) { return O(d).fault >= 0 ? (O(d).fault = -1, true) : false; });
                changed |= attempt(c, [&](Case &d) { return !O(d).assume.empty() ? (O(d).assume.clear(), true) : false; });
                changed |= attempt(c, [&](Case &d) { return O(d).mode != 0 ? (O(d).mode = 0, true) : false; });
                changed |= attempt(c, [&](Case &d) { return O(d).limit != 0 ? (O(d).limit = 0, true) : false; });
            }
            changed |= attempt(c, [&](Case &d) { return P(d).steps[s].fault >= 0 ? (P(d).steps[s].fault = -1, true) : false; });
        }
        // theory atoms
        for (size_t t = 0; t < P(c).tatoms.size(); ++t) {
            auto T = [&](Case &d) -> TAtom & { return P(d).tatoms[t]; };
            if (!used(P(c), static_cast<int>(t))) {
                continue;
            }
            attempt(c, [&](Case &d) { return T(d).sugar != 0 ? (T(d).sugar = 0, true) : false; });
            if (T(c).kind == T_DIFF) {
                continue;
            }
            for (size_t i = T(c).terms.size(); i-- > 0;) {
                changed |= attempt(c, [&](Case &d) {
                    T(d).terms.erase(T(d).terms.begin() + static_cast<long>(i));
                    return true;
                });
            }
            for (size_t i = T(c).ivs.size(); i-- > 0;) {
                changed |= attempt(c, [&](Case &d) {
                    T(d).ivs.erase(T(d).ivs.begin() + static_cast<long>(i));
                    return true;
                });
            }
            for (size_t i = T(c).elems.size(); i-- > 0;) {
                changed |= attempt(c, [&](Case &d) {
                    T(d).elems.erase(T(d).elems.begin() + static_cast<long>(i));
                    return true;
                });
            }
        }
        return changed;
    }

    static bool used(Program const &p, int t) {
        for (auto const &s : p.steps) {
            for (auto const &r : s.rules) {
                if (r.head == H_THEORY && r.atom == t) {
                    return true;
                }
                for (auto const &l : r.body) {
                    if (l.theory == t) {
                        return true;
                    }
                }
            }
        }
        return false;
    }

    //! Atoms used must be defined and assumptions/externals must refer to defined atoms.
    static bool consistent(Case const &c) {
        for (auto const &p : c.progs) {
            uint64_t def = 0;
            for (auto const &s : p.steps) {
                for (auto const &r : s.rules) {
                    if (r.head == H_ATOM || r.head == H_CHOICE || r.head == H_EXTERNAL) {
                        def |= uint64_t(1) << r.atom;
                    }
                }
                for (auto const &r : s.rules) {
                    for (auto const &l : r.body) {
                        if (l.theory < 0 && (def >> l.atom & 1) == 0) {
                            return false;
                        }
                    }
                }
                for (auto const &o : s.ops) {
                    for (int a : o.assume) {
                        if ((def >> ((a < 0 ? -a : a) - 1) & 1) == 0) {
                            return false;
                        }
                    }
                }
            }
        }
        return true;
    }

    //! Turn the seeded schedule into an explicit list of decisions and shrink it.
    void explicit_schedule(Case &c) {
        run_full(c, res, tmp);
        if (res->status != ST_VIOLATION || res->n_dec >= MAX_DEC) {
            return;
        }
        Case d = c;
        d.sched.explicit_decisions = true;
        d.sched.decisions.assign(res->dec, res->dec + res->n_dec);
        if (!fails(d)) {
            return;
        }
        auto dec = d.sched.decisions;
        size_t chunk = std::max<size_t>(1, dec.size() / 2);
        while (!out() && !dec.empty()) {
            bool any = false;
            for (size_t i = 0; i < dec.size() && !out();) {
                auto e = dec;
                e.erase(e.begin() + static_cast<long>(i), e.begin() + static_cast<long>(std::min(dec.size(), i + chunk)));
                d.sched.decisions = e;
                if (fails(d)) {
                    // adopt the decisions that were really used
                    dec = e;
                    any = true;
                } else {
                    i += chunk;
                }
            }
            if (chunk == 1 && !any) {
                break;
            }
            chunk = std::max<size_t>(1, chunk / 2);
            if (chunk == 1 && dec.size() > 400) {
                break;
            }
        }
        d.sched.decisions = dec;
        c = d;
    }
};

// ------------------------------------------------------------------ batch

struct Agg {
    uint64_t runs, ok, inconclusive, violations, multi, det_checks, det_fails, det_seed;
    uint64_t incon_cpu, incon_limit;
    Stats sum;
    uint64_t models, solves, exhausted, interrupted, errors, checked_sets, checked_models, optima, prompt_max, ticks_max, traffic_checks;
    uint64_t races_checked;
    uint64_t known[K_COUNT];
    uint64_t fault_runs[F_COUNT];
    uint64_t threads_hist[9];
    uint64_t first_bad;
    bool have_bad;
    uint8_t cov[COV_BYTES];
    uint64_t n_hash;
    uint64_t n_event;
};
constexpr size_t MAX_HASH = 1 << 20;

void add_stats(Stats &a, Stats const &b) {
    a.ticks += b.ticks;
    a.blocks += b.blocks;
    a.yields += b.yields;
    a.switches += b.switches;
    a.clock_reads += b.clock_reads;
    a.api_calls += b.api_calls;
    a.allocs += b.allocs;
    for (int i = 0; i < F_COUNT; ++i) {
        a.faults[i] += b.faults[i];
    }
    for (int i = 0; i < CB_COUNT; ++i) {
        a.callbacks[i] += b.callbacks[i];
    }
    a.sim_ns += b.sim_ns;
    a.threads += b.threads;
}

void accumulate(Agg &a, Result const &r) {
    ++a.runs;
    if (r.status == ST_INCONCLUSIVE) {
        ++a.inconclusive;
        if (strcmp(r.cls, "cpu") == 0 || strcmp(r.cls, "wall") == 0) {
            ++a.incon_cpu;
        } else {
            ++a.incon_limit;
        }
        return;
    }
    ++a.ok;
    add_stats(a.sum, r.stats);
    a.models += r.models;
    a.solves += r.solves;
    a.exhausted += r.exhausted;
    a.interrupted += r.interrupted;
    a.errors += r.errors;
    a.checked_sets += r.checked_sets;
    a.checked_models += r.checked_models;
    a.optima += r.optima;
    a.races_checked += r.races_checked;
    a.traffic_checks += r.traffic_checks;
    for (int i = 0; i < K_COUNT; ++i) {
        a.known[i] += r.known[i];
    }
    a.prompt_max = std::max(a.prompt_max, r.prompt_max);
    a.ticks_max = std::max(a.ticks_max, r.stats.ticks);
    for (int i = 0; i < F_COUNT; ++i) {
        a.fault_runs[i] += r.stats.faults[i] != 0 ? 1 : 0;
    }
    ++a.threads_hist[std::min<uint64_t>(r.stats.threads, 8)];
    for (size_t i = 0; i < COV_BYTES; ++i) {
        a.cov[i] |= r.cov[i];
    }
}

//! A solve call was judged while several threads interleaved or something was injected.
bool nontrivial(Result const &r) {
    bool fault = false;
    for (int i = 0; i < F_COUNT; ++i) {
        fault = fault || r.stats.faults[i] != 0;
    }
    return (r.solves > 0 || r.errors > 0) && (fault || (r.stats.threads > 1 && r.stats.switches > 0));
}

void worker(int id, std::string const &profile, uint64_t first, uint64_t stride, uint64_t count, double deadline, Agg *agg,
            uint64_t *hashes, uint64_t *events, bool keep_going) {
    auto *res = shared<Result>();
    auto *tmp = shared<Result>();
    uint64_t n = 0;
    for (uint64_t s = first + static_cast<uint64_t>(id); n < count && wall() < deadline; s += stride, ++n) {
        Case c = generate(profile, s);
        run_full(c, res, tmp);
        accumulate(*agg, *res);
        if (res->status == ST_OK && agg->n_hash < MAX_HASH) {
            hashes[agg->n_hash++] = res->stats.sched_hash;
            if (nontrivial(*res)) {
                events[agg->n_event++] = res->stats.hash;
            }
        }
        if (res->status == ST_VIOLATION) {
            ++agg->violations;
            if (!agg->have_bad) {
                agg->have_bad = true;
                agg->first_bad = s;
            }
            if (g_verbose || keep_going) {
                printf("seed %lu: %s: %s\n", s, res->cls, res->msg);
                fflush(stdout);
            }
            if (!keep_going) {
                return;
            }
        }
        if (res->status == ST_INCONCLUSIVE && g_verbose) {
            printf("seed %lu: inconclusive: %s\n", s, res->cls);
            fflush(stdout);
        }
        if (res->status == ST_OK && n % 40 == 7) {
            // determinism self-check: same seed, fresh process
            auto dg = res->digest;
            auto h = res->stats.hash;
            run_case(c, tmp);
            ++agg->det_checks;
            if (tmp->status == ST_OK && (tmp->digest != dg || tmp->stats.hash != h)) {
                ++agg->det_fails;
                agg->det_seed = s;
            }
        }
    }
}

//! One seed is one case: generating it must not depend on cases generated before.
bool generation_is_pure(std::string const &profile, uint64_t first) {
    constexpr uint64_t n = 64;
    auto *fresh = shared<size_t>(n);
    auto *later = shared<size_t>(n);
    auto text = [&](uint64_t i) {
        std::ostringstream o;
        write_case(o, generate(profile, first + i));
        return std::hash<std::string>{}(o.str());
    };
    auto in_child = [&](auto f) {
        pid_t p = fork();
        if (p == 0) {
            f();
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
    };
    fflush(stdout);
    for (uint64_t i = 0; i < n; ++i) {
        in_child([&] { fresh[i] = text(i); });
    }
    in_child([&] {
        for (uint64_t i = n; i > 0; --i) {
            later[i - 1] = text(i - 1);
        }
    });
    return std::equal(fresh, fresh + n, later);
}

std::string jstr(std::string const &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
        }
        if (static_cast<unsigned char>(c) < 32) {
            r += ' ';
        } else {
            r += c;
        }
    }
    return r + "\"";
}

char const *const cb_names[CB_COUNT] = {"none", "init", "propagate", "undo", "check", "decide", "model", "statistics", "api"};

void write_json(std::string const &path, Agg const &a, double secs, size_t distinct, size_t distinct_ev, int workers, uint64_t first, std::string const &viol,
                std::string const &replay) {
    std::ofstream o(path);
    size_t cov = 0;
    for (auto b : a.cov) {
        cov += static_cast<size_t>(__builtin_popcount(b));
    }
    o << "{\"runs\":" << a.runs << ",\"completed\":" << a.ok << ",\"inconclusive\":" << a.inconclusive
      << ",\"inconclusive_cpu\":" << a.incon_cpu << ",\"violations\":" << a.violations
      << ",\"seconds\":" << secs << ",\"workers\":" << workers << ",\"first_seed\":" << first
      << ",\"runs_per_hour\":" << static_cast<uint64_t>(secs > 0 ? static_cast<double>(a.runs) / secs * 3600 : 0)
      << ",\"ticks\":" << a.sum.ticks << ",\"blocks\":" << a.sum.blocks << ",\"switches\":" << a.sum.switches
      << ",\"yield_points\":" << a.sum.yields << ",\"clock_reads\":" << a.sum.clock_reads << ",\"api_calls\":" << a.sum.api_calls
      << ",\"lib_allocations\":" << a.sum.allocs << ",\"simulated_seconds\":" << static_cast<double>(a.sum.sim_ns) / 1e9
      << ",\"threads_created\":" << a.sum.threads << ",\"distinct_schedules\":" << distinct << ",\"distinct_nontrivial\":" << distinct_ev << ",\"covered_blocks\":" << cov
      << ",\"models\":" << a.models << ",\"solves\":" << a.solves << ",\"exhausted\":" << a.exhausted
      << ",\"interrupted\":" << a.interrupted << ",\"expected_errors\":" << a.errors << ",\"solution_sets_compared\":" << a.checked_sets
      << ",\"models_checked\":" << a.checked_models << ",\"optima_checked\":" << a.optima << ",\"max_stop_steps\":" << a.prompt_max
      << ",\"max_steps\":" << a.ticks_max << ",\"accesses_race_checked\":" << a.races_checked << ",\"statistics_compared_with_traffic\":" << a.traffic_checks
      << ",\"determinism_checks\":" << a.det_checks << ",\"determinism_failures\":" << a.det_fails << ",\"faults\":{";
    for (int i = 0; i < F_COUNT; ++i) {
        o << (i > 0 ? "," : "") << "\"" << fault_names[i] << "\":[" << a.sum.faults[i] << "," << a.fault_runs[i] << "]";
    }
    o << "},\"known_findings\":{";
    for (int i = 0; i < K_COUNT; ++i) {
        o << (i > 0 ? "," : "") << "\"" << known_names[i] << "\":" << a.known[i];
    }
    o << "},\"callbacks\":{";
    for (int i = 1; i < CB_COUNT; ++i) {
        o << (i > 1 ? "," : "") << "\"" << cb_names[i] << "\":" << a.sum.callbacks[i];
    }
    o << "},\"threads_hist\":[";
    for (int i = 0; i < 9; ++i) {
        o << (i > 0 ? "," : "") << a.threads_hist[i];
    }
    o << "],\"violation\":" << (viol.empty() ? "null" : jstr(viol)) << ",\"replay\":" << (replay.empty() ? "null" : jstr(replay)) << "}\n";
}

int cpus() {
    cpu_set_t s;
    CPU_ZERO(&s);
    sched_getaffinity(0, sizeof(s), &s);
    int n = CPU_COUNT(&s);
    return n > 0 ? n : 1;
}

void pin(int i) {
    cpu_set_t s, one;
    CPU_ZERO(&s);
    sched_getaffinity(0, sizeof(s), &s);
    int k = 0, n = CPU_COUNT(&s);
    for (int c = 0; c < CPU_SETSIZE; ++c) {
        if (CPU_ISSET(c, &s) && k++ == i % n) {
            CPU_ZERO(&one);
            CPU_SET(c, &one);
            sched_setaffinity(0, sizeof(one), &one);
            return;
        }
    }
}

std::string describe(Case const &c) {
    std::ostringstream o;
    for (auto const &p : c.progs) {
        for (size_t i = 0; i < p.steps.size(); ++i) {
            std::istringstream in(render_step(p, p.steps[i]));
            std::string l;
            while (std::getline(in, l)) {
                o << "#   [" << i << "] " << l << "\n";
            }
        }
    }
    return o.str();
}

int replay_file(std::string const &path, bool quiet, std::string *cls, std::string *msg) {
    std::ifstream in(path);
    Case c;
    std::map<std::string, std::string> meta;
    if (!in || !read_case(in, c, meta)) {
        fprintf(stderr, "cannot read %s\n", path.c_str());
        return 2;
    }
    auto *res = shared<Result>();
    auto *tmp = shared<Result>();
    run_full(c, res, tmp);
    if (cls != nullptr) {
        *cls = res->cls;
        *msg = res->msg;
    }
    if (!quiet) {
        printf("status %s class %s\n%s\nsteps %lu schedule hash %016lx event hash %016lx\n",
               res->status == ST_VIOLATION ? "violation" : res->status == ST_OK ? "ok" : "inconclusive", res->cls, res->msg,
               res->stats.ticks, res->stats.sched_hash, res->stats.hash);
    }
    if (res->status != ST_VIOLATION) {
        return 0;
    }
    auto it = meta.find("expect_hash");
    char buf[32];
    snprintf(buf, sizeof(buf), "%016lx", res->stats.hash);
    if (!quiet && it != meta.end()) {
        printf("replay %s the recorded execution\n", it->second == buf ? "matches" : "differs from");
    }
    return 1;
}

} // namespace

int main(int argc, char **argv) {
    // same addresses in every run
    if (getenv("SIM_NOASLR") == nullptr) {
        int p = personality(0xffffffff);
        if (p != -1 && (p & ADDR_NO_RANDOMIZE) == 0 && personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
        setenv("SIM_NOASLR", "0", 1);
    }
    std::map<std::string, std::string> opt;
    std::string mode = argc > 1 ? argv[1] : "";
    std::vector<std::string> pos;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a.substr(0, 2) == "--") {
            auto e = a.find('=');
            opt[a.substr(2, e == std::string::npos ? e : e - 2)] = e == std::string::npos ? "1" : a.substr(e + 1);
        } else {
            pos.push_back(a);
        }
    }
    auto num = [&](char const *k, double d) { return opt.count(k) != 0 ? atof(opt[k].c_str()) : d; };
    g_verbose = opt.count("verbose") != 0;
    g_cpu_limit = static_cast<int>(num("cpu", 40));
    for (int i = 0; i < K_COUNT; ++i) {
        g_known[i] = ("," + opt["known"] + ",").find("," + std::string(known_names[i]) + ",") != std::string::npos;
    }
    auto profile = opt.count("profile") != 0 ? opt["profile"] : "c01";
    if (mode == "gen" || mode == "one") {
        auto seed = static_cast<uint64_t>(strtoull(opt["seed"].c_str(), nullptr, 10));
        Case c = generate(profile, seed);
        if (mode == "gen") {
            write_case(std::cout, c);
            return 0;
        }
        auto *res = shared<Result>();
        auto *tmp = shared<Result>();
        run_full(c, res, tmp);
        printf("status %d class %s msg %s\nticks %lu switches %lu hash %016lx sched %016lx digest %016lx sim %.3fs models %lu\n", res->status,
               res->cls, res->msg, res->stats.ticks, res->stats.switches, res->stats.hash, res->stats.sched_hash, res->digest,
               static_cast<double>(res->stats.sim_ns) / 1e9, res->models);
        return res->status == ST_VIOLATION ? 1 : 0;
    }
    if (mode == "replay") {
        return replay_file(pos.at(0), false, nullptr, nullptr);
    }
    if (mode == "min") {
        // minimise an existing replay file (positional: in, out)
        std::ifstream in(pos.at(0));
        Case c;
        std::map<std::string, std::string> meta;
        if (!read_case(in, c, meta)) {
            return 2;
        }
        auto *res = shared<Result>();
        auto *tmp = shared<Result>();
        run_full(c, res, tmp);
        if (res->status != ST_VIOLATION) {
            printf("does not fail\n");
            return 0;
        }
        Minimizer m{res, tmp, res->cls, static_cast<int>(num("budget", 3000)), wall() + num("time", 120)};
        m.minimize(c);
        std::ofstream out(pos.at(1));
        write_case(out, c);
        return 1;
    }
    if (mode != "run") {
        fprintf(stderr, "usage: sim run|one|gen|replay|min --profile=P --seed=N --time=S --workers=N --out=F --replay=F\n");
        return 2;
    }
    int workers = static_cast<int>(num("workers", cpus()));
    double limit = num("time", 30);
    auto first = static_cast<uint64_t>(num("first", 1));
    auto count = static_cast<uint64_t>(num("count", 1e12));
    bool keep = opt.count("keep") != 0;
    if (!generation_is_pure(profile, first)) {
        fprintf(stderr, "simulator: generated cases depend on more than their seed\n");
        return 2;
    }
    auto *aggs = shared<Agg>(static_cast<size_t>(workers));
    auto *hashes = shared<uint64_t>(MAX_HASH * static_cast<size_t>(workers));
    auto *events = shared<uint64_t>(MAX_HASH * static_cast<size_t>(workers));
    double start = wall();
    std::vector<pid_t> pids;
    fflush(stdout);
    for (int w = 0; w < workers; ++w) {
        pid_t p = fork();
        if (p == 0) {
            pin(w);
            worker(w, profile, first, static_cast<uint64_t>(workers), count, start + limit, &aggs[w], hashes + MAX_HASH * static_cast<size_t>(w),
                   events + MAX_HASH * static_cast<size_t>(w), keep);
            _exit(0);
        }
        pids.push_back(p);
    }
    bool worker_died = false;
    for (auto p : pids) {
        int st = 0;
        waitpid(p, &st, 0);
        worker_died = worker_died || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
    }
    double secs = wall() - start;
    Agg total{};
    std::set<uint64_t> distinct, distinct_ev;
    std::vector<uint64_t> bads;
    for (int w = 0; w < workers; ++w) {
        auto &a = aggs[w];
        total.runs += a.runs;
        total.ok += a.ok;
        total.inconclusive += a.inconclusive;
        total.incon_cpu += a.incon_cpu;
        total.incon_limit += a.incon_limit;
        total.violations += a.violations;
        total.det_checks += a.det_checks;
        total.det_fails += a.det_fails;
        if (a.det_fails != 0) {
            total.det_seed = a.det_seed;
        }
        add_stats(total.sum, a.sum);
        total.models += a.models;
        total.solves += a.solves;
        total.exhausted += a.exhausted;
        total.interrupted += a.interrupted;
        total.errors += a.errors;
        total.checked_sets += a.checked_sets;
        total.checked_models += a.checked_models;
        total.optima += a.optima;
        total.races_checked += a.races_checked;
        total.traffic_checks += a.traffic_checks;
        for (int i = 0; i < K_COUNT; ++i) {
            total.known[i] += a.known[i];
        }
        total.prompt_max = std::max(total.prompt_max, a.prompt_max);
        total.ticks_max = std::max(total.ticks_max, a.ticks_max);
        for (int i = 0; i < F_COUNT; ++i) {
            total.fault_runs[i] += a.fault_runs[i];
        }
        for (int i = 0; i < 9; ++i) {
            total.threads_hist[i] += a.threads_hist[i];
        }
        for (size_t i = 0; i < COV_BYTES; ++i) {
            total.cov[i] |= a.cov[i];
        }
        auto *h = hashes + MAX_HASH * static_cast<size_t>(w);
        distinct.insert(h, h + a.n_hash);
        h = events + MAX_HASH * static_cast<size_t>(w);
        distinct_ev.insert(h, h + a.n_event);
        if (a.have_bad) {
            bads.push_back(a.first_bad);
        }
    }
    int rc = 0;
    std::string viol, rpath;
    if (total.det_fails != 0) {
        fprintf(stderr, "simulator: %lu of %lu repeated runs differed (e.g. seed %lu)\n", total.det_fails, total.det_checks, total.det_seed);
    }
    std::sort(bads.begin(), bads.end());
    for (auto bad : bads) {
        auto *res = shared<Result>();
        auto *tmp = shared<Result>();
        Case c = generate(profile, bad);
        run_full(c, res, tmp);
        std::string cls1 = res->cls;
        auto hash1 = res->stats.hash;
        bool v1 = res->status == ST_VIOLATION;
        std::string msg1 = res->msg;
        run_full(c, res, tmp);
        rc = 0;
        if (!v1 || res->status != ST_VIOLATION || cls1 != res->cls) {
            fprintf(stderr, "simulator: violation of seed %lu is not reproducible (%s / %s)\n", bad, cls1.c_str(), res->cls);
            rc = 2;
        } else if (hash1 != res->stats.hash && cls1 != "crash") {
            fprintf(stderr, "simulator: the executions with seed %lu differ\n", bad);
        }
        if (rc == 0) {
            viol = cls1 + ": " + msg1;
            Case orig = c;
            Minimizer m{res, tmp, cls1, static_cast<int>(num("budget", 1500)), wall() + num("mintime", 60)};
            if (opt.count("nomin") == 0) {
                m.minimize(c);
                m.explicit_schedule(c);
            }
            run_full(c, res, tmp);
            if (res->status != ST_VIOLATION || cls1 != res->cls) {
                c = orig;
                run_full(c, res, tmp);
            }
            rpath = opt.count("replay") != 0 ? opt["replay"] : "/tmp/replay.txt";
            std::ofstream o(rpath);
            char buf[32];
            snprintf(buf, sizeof(buf), "%016lx", res->stats.hash);
            o << "# clingcon simulation replay file\n# program:\n" << describe(c);
            std::string one = res->msg;
            std::replace(one.begin(), one.end(), '\n', ' ');
            o << "expect " << res->cls << "\nexpect_hash " << buf << "\nmessage " << one << "\nfound_with_seed " << bad << "\n";
            write_case(o, c);
            o.close();
            std::string rc_cls, rc_msg;
            replay_file(rpath, true, &rc_cls, &rc_msg);
            printf("violation class=%s seed=%lu minimise_runs=%d\n%s\n", cls1.c_str(), bad, m.runs, msg1.c_str());
            printf("minimised: %s\n%s", res->msg, describe(c).c_str());
            if (rc_cls != cls1) {
                fprintf(stderr, "simulator: replay file does not reproduce (%s)\n", rc_cls.c_str());
                rc = 2;
            } else {
                rc = 1;
            }
        }
        if (rc == 1) {
            break;
        }
    }
    if (rc == 0 && (worker_died || total.det_fails != 0)) {
        rc = 2;
    }
    if (opt.count("out") != 0) {
        write_json(opt["out"], total, secs, distinct.size(), distinct_ev.size(), workers, first, viol, rc == 1 ? rpath : "");
    }
    printf("%s: %lu runs in %.1fs, %lu inconclusive, %lu violations, %zu distinct schedules\n", profile.c_str(), total.runs, secs,
           total.inconclusive, total.violations, distinct.size());
    return rc;
}
