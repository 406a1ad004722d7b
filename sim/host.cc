#include "host.h"
#include "shim.h"

#include <clingcon.h>

#include <algorithm>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <pthread.h>
#include <set>
#include <sstream>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {

Result *g_result = nullptr;
char const *const known_names[K_COUNT] = {"stale-cost"};
bool g_known[K_COUNT] = {};
void copy_coverage(uint8_t *out, size_t n);
uint64_t races_checked();
void race_solve_begin();
void race_solve_end();

namespace {

Case const *g_case = nullptr;

void fill_result() {
    HarnessScope h;
    g_result->stats = g_stats;
    auto const &d = taken_decisions();
    g_result->n_dec = std::min(d.size(), MAX_DEC);
    for (size_t i = 0; i < g_result->n_dec; ++i) {
        g_result->dec[i] = d[i];
    }
    copy_coverage(g_result->cov, COV_BYTES);
    g_result->races_checked = races_checked();
}

void record(char const *cls, char const *msg) {
    if (g_result->status == ST_VIOLATION) {
        return;
    }
    snprintf(g_result->cls, sizeof(g_result->cls), "%s", cls);
    snprintf(g_result->msg, sizeof(g_result->msg), "%s", msg);
    g_result->status = ST_VIOLATION;
}

void violation(char const *cls, std::string const &msg) {
    if (class_enabled(g_case->profile, cls)) {
        record(cls, msg.c_str());
    }
}

void on_fatal(char const *cls, char const *msg) {
    if (g_result->status != ST_VIOLATION) {
        // searching large domains may legitimately take long
        bool large = false;
        for (auto const &p : g_case->progs) {
            large = large || !p.hidden.empty();
        }
        if (strcmp(cls, "limit") == 0 || (large && strcmp(cls, "hang") == 0 && strstr(msg, "step limit") != nullptr)) {
            snprintf(g_result->cls, sizeof(g_result->cls), "%s", cls);
            g_result->status = ST_INCONCLUSIVE;
        } else {
            record(cls, msg);
        }
    }
    fill_result();
    quit();
}

uint64_t hmix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdULL;
}

//! Fill in the result at the end of a run.
void finish() {
    uint64_t d = 7;
    for (auto x : g_result->prog_digest) {
        d = hmix(d, x);
    }
    g_result->digest = hmix(d, g_stats.hash);
    fill_result();
    if (g_result->status == ST_RUNNING) {
        g_result->status = ST_OK;
    }
}

struct ModelRec {
    Solution sol;
    bool has_cost = false;
    i64 cost = 0;
    uint32_t thread = 0;
};

struct ProgRun;

struct SolveRec {
    ProgRun *pr = nullptr;
    Op const *op = nullptr;
    int step = 0;
    RefState st;
    std::vector<int> assume;
    int limit = 0;
    std::vector<ModelRec> models;
    uint32_t result = 0;
    bool has_result = false;
    bool failed = false;
    int code = 0;
    std::string error;
    bool fault_fired = false;
    bool user_failed = false;
    bool stopped = false; // models or search deliberately cut short
    uint64_t t_begin = 0, t_end = 0, t_fault = 0;
    uint64_t ns_begin = 0, ns_end = 0;
    std::map<std::string, double> stat_step, stat_accu;
    bool has_stats = false;
    Traffic traffic{};
    int threads = 1;
};

struct ProgRun {
    Program const *p = nullptr;
    int index = 0;
    Reference *ref = nullptr;
    clingcon_theory_t *theory = nullptr;
    clingo_control_t *ctl = nullptr;
    clingo_program_builder_t *builder = nullptr;
    std::vector<bool> present;
    std::vector<bool> gone; // simplified away by the grounder
    std::map<std::string, int> var_index;
    std::map<std::string, int> atom_index;
    std::map<int, int> externals;
    std::set<int> released;
    uint64_t digest = 1;
    int step = -1;
    bool dead = false;      // a fault or an expected error ended this program
    bool fault_free = false; // ignore the faults of the case
    int add_calls = 0;
    int fail_add = -1;
    bool add_failed = false;
    int threads = 1;
    int max_threads = 1;
    int nsolves = 0;
    bool pending_interrupt = false;
    double vars_seen = 0;
    Traffic *traffic = nullptr;
    bool translated_opt = false;
    //! Options changed between solve calls.
    std::vector<std::pair<std::string, std::string>> reopts;
    std::map<std::string, double> stat_sum;
    std::optional<double> step_cost;
    bool raw_loaded = false;
    bool had_models = false;
    std::map<int, std::optional<std::vector<Solution>>> cache;
    bool cache_valid = false;
    uint64_t ns_solve_prev_end = 0;
};

std::string show_sol(ProgRun &pr, Solution const &s) {
    std::ostringstream o;
    o << "{";
    for (size_t a = 0; a < pr.p->atoms.size(); ++a) {
        if ((s.atoms >> a & 1) != 0) {
            o << pr.p->atoms[a] << " ";
        }
    }
    for (size_t v = 0; v < pr.p->vars.size(); ++v) {
        if (pr.present[v]) {
            o << pr.p->vars[v] << "=" << s.vals[v] << " ";
        }
    }
    o << "}";
    return o.str();
}

std::string where(SolveRec const &r) {
    std::ostringstream o;
    o << "program " << r.pr->index << " step " << r.step << " solve";
    return o.str();
}

std::string sym_str(clingo_symbol_t s) {
    size_t n = 0;
    clingo_symbol_to_string_size(s, &n);
    std::string r(n, '\0');
    clingo_symbol_to_string(s, r.data(), n);
    r.resize(std::strlen(r.c_str()));
    return r;
}

//! A call failed. Decide if it was entitled to.
void call_failed(ProgRun &pr, SolveRec *r, char const *what) {
    auto code = clingo_error_code();
    char const *cmsg = clingo_error_message();
    HarnessScope h;
    std::string msg = cmsg != nullptr ? cmsg : "";
    ++g_result->errors;
    pr.digest = hmix(pr.digest, 0x77000 + static_cast<uint64_t>(code));
    pr.dead = true;
    if (r != nullptr) {
        r->failed = true;
        r->code = code;
        r->error = msg;
    }
    if (code == clingo_error_success) {
        violation("errorcode", std::string(what) + " failed without reporting an error");
        return;
    }
    if (oom_fired()) {
        bool parallel = pr.threads > 1 || (r != nullptr && r->op->mode != S_SYNC);
        if (code != clingo_error_bad_alloc && !parallel) {
            violation("errorcode", std::string(what) + " failed with code " + std::to_string(code) + " (" + msg +
                                       ") after an allocation failure; expected bad_alloc");
        }
        return;
    }
    if (pr.add_failed || (r != nullptr && r->user_failed)) {
        bool parallel = pr.threads > 1;
        if ((code != clingo_error_runtime && !parallel) || (msg.find("injected") == std::string::npos && !parallel)) {
            violation("errorcode", std::string(what) + " reported code " + std::to_string(code) + " (" + msg +
                                       ") for a failing user callback");
        }
        return;
    }
    if (pr.p->expect_error && pr.raw_loaded) {
        return;
    }
    violation("error", std::string(what) + " failed unexpectedly: " + msg + " (code " + std::to_string(code) + ")");
}

void logger(clingo_warning_t code, char const *msg, void *) {
    static bool const on = getenv("SIM_LOG") != nullptr;
    if (on) {
        fprintf(stderr, "clingo: %d %s\n", code, msg);
    }
}

void flatten_stats(clingo_statistics_t *s, uint64_t key, std::string const &prefix, std::map<std::string, double> &out) {
    clingo_statistics_type_t type = 0;
    if (!clingo_statistics_type(s, key, &type)) {
        return;
    }
    switch (type) {
        case clingo_statistics_type_value: {
            double v = 0;
            clingo_statistics_value_get(s, key, &v);
            out[prefix] = v;
            break;
        }
        case clingo_statistics_type_array: {
            size_t n = 0;
            clingo_statistics_array_size(s, key, &n);
            out[prefix + "#"] = static_cast<double>(n);
            for (size_t i = 0; i < n; ++i) {
                uint64_t sub = 0;
                clingo_statistics_array_at(s, key, i, &sub);
                flatten_stats(s, sub, prefix + "/" + std::to_string(i), out);
            }
            break;
        }
        case clingo_statistics_type_map: {
            size_t n = 0;
            clingo_statistics_map_size(s, key, &n);
            for (size_t i = 0; i < n; ++i) {
                char const *name = nullptr;
                uint64_t sub = 0;
                clingo_statistics_map_subkey_name(s, key, i, &name);
                clingo_statistics_map_at(s, key, name, &sub);
                flatten_stats(s, sub, prefix + "/" + name, out);
            }
            break;
        }
        default: break;
    }
}

//! Read everything observable of the current model.
void capture(SolveRec &r, clingo_model_t const *m, ModelRec &rec, bool api) {
    auto &pr = *r.pr;
    auto const &p = *pr.p;
    uint32_t tid = 0;
    clingo_model_thread_id(m, &tid);
    rec.thread = tid;
    std::vector<clingo_symbol_t> syms;
    {
        HarnessScope h;
        rec.sol.vals.assign(p.vars.size(), 0);
        size_t n = 0;
        clingo_model_symbols_size(m, clingo_show_type_atoms, &n);
        syms.resize(n);
        clingo_model_symbols(m, clingo_show_type_atoms, syms.data(), n);
        for (auto s : syms) {
            auto it = pr.atom_index.find(sym_str(s));
            if (it != pr.atom_index.end()) {
                rec.sol.atoms |= uint64_t(1) << it->second;
            }
        }
        clingo_model_symbols_size(m, clingo_show_type_theory, &n);
        syms.resize(n);
        clingo_model_symbols(m, clingo_show_type_theory, syms.data(), n);
    }
    // values through the interface (other threads may run in between)
    std::vector<std::pair<int, i64>> values;
    for (size_t v = 0; v < p.vars.size(); ++v) {
        if (!pr.present[v]) {
            continue;
        }
        clingo_symbol_t sym = 0;
        {
            HarnessScope h;
            clingo_parse_term(p.vars[v].c_str(), logger, nullptr, 20, &sym);
        }
        size_t idx = 0;
        if (!LIB(clingcon_lookup_symbol(pr.theory, sym, &idx))) {
            HarnessScope h;
            pr.gone[v] = true;
            continue;
        }
        if (pr.gone[v]) {
            violation("api", where(r) + ": variable " + p.vars[v] + " appears during search");
        }
        clingcon_value_t val;
        LIB((clingcon_assignment_get_value(pr.theory, tid, idx, &val), true));
        if (val.type != clingcon_value_type_int) {
            violation("api", "value is not an integer");
        }
        rec.sol.vals[v] = val.int_number;
    }
    // iteration
    if (api) {
        std::vector<int> seen(p.vars.size(), 0);
        size_t idx = 0;
        LIB((clingcon_assignment_begin(pr.theory, tid, &idx), true));
        int guard = 0;
        while (LIB(clingcon_assignment_next(pr.theory, tid, &idx))) {
            if (++guard > 10000) {
                violation("api", "iterating over the assignment does not end");
                break;
            }
            if (!LIB(clingcon_assignment_has_value(pr.theory, tid, idx))) {
                violation("api", where(r) + ": iteration visits an index without a value");
                break;
            }
            auto sym = LIB(clingcon_get_symbol(pr.theory, idx));
            size_t idx2 = 0;
            bool found = LIB(clingcon_lookup_symbol(pr.theory, sym, &idx2));
            clingcon_value_t val;
            LIB((clingcon_assignment_get_value(pr.theory, tid, idx, &val), true));
            HarnessScope h;
            auto name = sym_str(sym);
            if (!found || idx2 != idx) {
                violation("api", where(r) + ": symbol " + name + " does not map back to its index");
            }
            auto it = pr.var_index.find(name);
            if (it == pr.var_index.end() || !pr.present[it->second] || pr.gone[it->second]) {
                violation("api", where(r) + ": iteration visits unknown variable " + name);
                continue;
            }
            if (++seen[it->second] > 1) {
                violation("api", where(r) + ": iteration visits " + name + " more than once");
            }
            if (val.int_number != rec.sol.vals[it->second]) {
                violation("api", where(r) + ": iteration reports " + name + "=" + std::to_string(val.int_number) +
                                     " but lookup reports " + std::to_string(rec.sol.vals[it->second]));
            }
        }
        HarnessScope h;
        for (size_t v = 0; v < p.vars.size(); ++v) {
            if (pr.present[v] && !pr.gone[v] && seen[v] == 0) {
                violation("api", where(r) + ": iteration misses variable " + p.vars[v]);
            }
        }
        clingo_symbol_t sym = 0;
        clingo_parse_term("nonexistent(variable)", logger, nullptr, 20, &sym);
        if (LIB(clingcon_lookup_symbol(pr.theory, sym, &idx))) {
            violation("api", "unknown symbol has an index");
        }
    }
    // attached symbols
    HarnessScope h;
    auto shown = pr.ref->shown(r.step);
    std::vector<int> seen(p.vars.size(), 0);
    for (auto s : syms) {
        if (clingo_symbol_type_t t = clingo_symbol_type(s); t != clingo_symbol_type_function) {
            continue;
        }
        char const *name = nullptr;
        clingo_symbol_t const *args = nullptr;
        size_t n = 0;
        clingo_symbol_name(s, &name);
        clingo_symbol_arguments(s, &args, &n);
        if (strcmp(name, "__csp") == 0 && n == 2) {
            auto var = sym_str(args[0]);
            auto it = pr.var_index.find(var);
            int val = 0;
            if (it == pr.var_index.end() || !clingo_symbol_number(args[1], &val)) {
                violation("show", where(r) + ": unexpected symbol " + sym_str(s));
                continue;
            }
            if (seen[it->second]++ > 0) {
                violation("show", where(r) + ": variable " + var + " attached more than once");
            }
            if (val != rec.sol.vals[it->second]) {
                violation("api", where(r) + ": attached symbol " + sym_str(s) + " but value " +
                                     std::to_string(rec.sol.vals[it->second]));
            }
        } else if (strcmp(name, "__csp_cost") == 0 && n == 1) {
            char const *c = nullptr;
            if (clingo_symbol_type(args[0]) == clingo_symbol_type_string) {
                clingo_symbol_string(args[0], &c);
                rec.has_cost = true;
                rec.cost = strtoll(c, nullptr, 10);
            }
        }
    }
    for (size_t v = 0; v < p.vars.size(); ++v) {
        if ((shown[v] && !pr.gone[v]) != (seen[v] != 0)) {
            violation("show", where(r) + ": variable " + p.vars[v] +
                                  (shown[v] ? " should be attached to the model but is not" : " should not be attached to the model"));
        }
    }
    if (!rec.has_cost && pr.ref->has_objective(r.step)) {
        size_t n = 0;
        clingo_model_cost_size(m, &n);
        if (n == 1) {
            int64_t c = 0;
            clingo_model_cost(m, &c, 1);
            rec.has_cost = true;
            rec.cost = c;
        }
    }
}

bool on_event(clingo_solve_event_type_t type, void *event, void *data, bool *goon) {
    auto &r = *static_cast<SolveRec *>(data);
    auto &pr = *r.pr;
    switch (type) {
        case clingo_solve_event_type_model: {
            auto *m = static_cast<clingo_model_t *>(event);
            int fault = pr.fault_free ? -1 : r.op->fault;
            ++g_stats.callbacks[CB_MODEL];
            if (!LIB(clingcon_on_model(pr.theory, m))) {
                return false;
            }
            ModelRec *rec = nullptr;
            {
                HarnessScope h;
                r.models.emplace_back();
                rec = &r.models.back();
            }
            capture(r, m, *rec, true);
            ++g_result->models;
            auto n = static_cast<i64>(r.models.size());
            if (fault == F_USERFAIL && n > r.op->fa) {
                ++g_stats.faults[F_USERFAIL];
                r.user_failed = true;
                clingo_set_error(clingo_error_runtime, "injected failure");
                return false;
            }
            if (fault == F_MODELSTOP && n > r.op->fa) {
                ++g_stats.faults[F_MODELSTOP];
                r.fault_fired = r.stopped = true;
                r.t_fault = tick();
                *goon = false;
            }
            break;
        }
        case clingo_solve_event_type_statistics: {
            auto **s = static_cast<clingo_statistics_t **>(event);
            ++g_stats.callbacks[CB_STATS];
            if (!LIB(clingcon_on_statistics(pr.theory, s[0], s[1]))) {
                // clingo terminates the process if a statistics callback fails: do not pass the error on
                HarnessScope h;
                pr.dead = true;
                if (!oom_fired()) {
                    violation("errorcode", where(r) + ": clingcon_on_statistics failed");
                } else if (clingo_error_code() != clingo_error_bad_alloc) {
                    violation("errorcode", where(r) + ": clingcon_on_statistics failed with code " +
                                               std::to_string(clingo_error_code()) + "; expected bad_alloc");
                }
                break;
            }
            HarnessScope h;
            uint64_t key = 0;
            clingo_statistics_root(s[0], &key);
            flatten_stats(s[0], key, "", r.stat_step);
            clingo_statistics_root(s[1], &key);
            flatten_stats(s[1], key, "", r.stat_accu);
            r.has_stats = true;
            if (pr.traffic != nullptr) {
                r.traffic = *pr.traffic;
                *pr.traffic = {};
            }
            break;
        }
        default: break;
    }
    return true;
}

// ------------------------------------------------------------------ oracles

std::optional<std::vector<Solution>> const &all_solutions(ProgRun &pr, RefState const &st) {
    // cached per step and externals
    int key = st.step;
    for (auto const &[a, v] : st.externals) {
        key = key * 31 + a * 3 + v + 7;
    }
    auto it = pr.cache.find(key);
    if (it == pr.cache.end()) {
        it = pr.cache.emplace(key, pr.ref->solutions(st, 40000)).first;
    }
    return it->second;
}

Solution masked(ProgRun &pr, Solution s) {
    for (size_t v = 0; v < s.vals.size(); ++v) {
        if (!pr.present[v]) {
            s.vals[v] = 0;
        } else if (pr.gone[v]) {
            s.vals[v] = std::max(pr.p->min_int, std::min(pr.p->max_int, i64(0)));
        }
    }
    return s;
}

//! Check if no weight constraints must be added (see DESIGN.md).
bool forced_translation(Program const &p) {
    for (auto const &st : p.steps) {
        for (auto const &o : st.ops) {
            if (o.kind == O_THREADS && o.a > 1) {
                return true;
            }
        }
    }
    return false;
}

//! The value an option has for a thread.
std::string effective(ProgRun const &pr, std::string const &key, size_t thread, std::string val) {
    for (auto const *opts : {&pr.p->options, &pr.reopts}) {
        for (auto const &[k, v] : *opts) {
            if (k != key) {
                continue;
            }
            auto comma = v.find(',');
            if (comma == std::string::npos || key == "translate-clauses" || v.substr(comma + 1) == std::to_string(thread)) {
                val = v.substr(0, comma);
            }
        }
    }
    return val;
}

//! Compare what was observed with what the options allow for.
template <class Get> void check_effects(SolveRec &r, Get get) {
    auto zero = [&](std::string const &k, std::string const &opt) {
        auto v = get(r.stat_step, k);
        if (v && *v != 0) {
            violation("options", where(r) + ": step statistic " + k + " is " + std::to_string(*v) + " despite " + opt);
        }
    };
    for (size_t i = 0; i < 64; ++i) {
        auto th = "/Thread/" + std::to_string(i);
        if (effective(*r.pr, "refine-reasons", i, "yes") == "no") {
            zero(th + "/Refined reason", "refine-reasons=no");
            zero(th + "/Introduced reason", "refine-reasons=no");
        }
        if (effective(*r.pr, "refine-introduce", i, "yes") == "no") {
            zero(th + "/Introduced reason", "refine-introduce=no");
        }
        if (r.traffic.decided[i] > 0 && effective(*r.pr, "order-heuristic", i, "none") == "none") {
            violation("options", where(r) + ": the theory decided in thread " + std::to_string(i) + " despite order-heuristic=none");
        }
    }
}

void judge_stats(SolveRec &r) {
    auto &pr = *r.pr;
    if (!r.has_stats) {
        violation("stats", where(r) + ": no statistics were reported");
        return;
    }
    double elapsed = static_cast<double>(r.ns_end - r.ns_begin) / 1e9;
    auto get = [&](std::map<std::string, double> const &m, std::string const &k) {
        auto it = m.find("/Clingcon" + k);
        return it != m.end() ? std::optional<double>(it->second) : std::nullopt;
    };
    for (auto const &[k, v] : r.stat_step) {
        if (k.find("Cost") != std::string::npos) {
            continue;
        }
        // constraints are a net change because simplification removes
        // constraints that were added in earlier steps
        if (v < -1e-9 && k != "/Clingcon/Problem/Constraints") {
            violation("stats", where(r) + ": step statistic " + k + " is negative: " + std::to_string(v));
        }
        if (k.find("/Thread/") != std::string::npos || k.find("Init time") != std::string::npos) {
            if ((k.find("Time in seconds") != std::string::npos || k.find("Init time") != std::string::npos) &&
                v > elapsed + 1e-6) {
                violation("stats", where(r) + ": step statistic " + k + " is " + std::to_string(v) +
                                       "s but the call took only " + std::to_string(elapsed) + "s");
            }
        } else if (v > 1e9 || v < -1e9) {
            violation("stats", where(r) + ": step statistic " + k + " is not a count: " + std::to_string(v));
        }
    }
    size_t npres = 0;
    for (size_t v = 0; v < pr.present.size(); ++v) {
        npres += pr.present[v] && !pr.gone[v] ? 1 : 0;
    }
    auto vars = get(r.stat_step, "/Problem/Variables");
    if (!vars) {
        violation("stats", where(r) + ": number of variables is missing");
    } else {
        // variables are not gathered if the problem is found unsatisfiable upfront
        pr.vars_seen += *vars;
        if (!r.models.empty() && pr.vars_seen != static_cast<double>(npres)) {
            violation("stats", where(r) + ": step statistics report " + std::to_string(static_cast<long>(pr.vars_seen)) +
                                   " variables in total instead of " + std::to_string(npres));
        }
    }
    auto threads = get(r.stat_step, "/Thread#");
    // threads are only set up if the problem is not found unsatisfiable upfront
    if (!threads || *threads < (r.models.empty() ? 0 : r.threads) || *threads > pr.max_threads) {
        violation("stats", where(r) + ": statistics list " + std::to_string(threads ? static_cast<long>(*threads) : -1L) +
                               " threads, used " + std::to_string(r.threads));
    }
    // compare with the traffic seen at the interface to the host
    auto count = [&](std::string const &k, uint64_t n, bool exact) {
        auto v = get(r.stat_step, k);
        double e = static_cast<double>(n);
        ++g_result->traffic_checks;
        if (!v || (exact ? *v != e : *v < e)) {
            violation("stats", where(r) + ": step statistic " + k + " is " + (v ? std::to_string(*v) : "missing") +
                                   " but the host got " + std::to_string(n));
        }
    };
    count("/Problem/Literals", r.traffic.init_literals, true);
    // clauses are not handed over if the problem is found unsatisfiable upfront
    count("/Problem/Clauses", r.traffic.init_clauses, !r.traffic.conflict && !r.models.empty());
    for (size_t i = 0; i < 128; ++i) {
        if (r.traffic.literals[i] > 0 || (threads && static_cast<double>(i) < *threads)) {
            count("/Thread/" + std::to_string(i) + "/Literals introduced", r.traffic.literals[i], true);
        }
    }
    check_effects(r, get);
    for (auto const *k : {"Clauses", "Literals"}) {
        auto a = get(r.stat_step, std::string("/Translate/") + k);
        auto b = get(r.stat_step, std::string("/Problem/") + k);
        if (!a || !b || *a > *b) {
            violation("stats", where(r) + ": the translation introduces more " + k + " than reported in total");
        }
    }
    auto cost = get(r.stat_step, "/Cost");
    bool obj = pr.ref->has_objective(r.step);
    if (!pr.translated_opt && obj && !r.models.empty()) {
        // the last model with the best bound
        if (!cost) {
            violation("stats", where(r) + ": no cost reported although models with costs were found");
        } else if (*cost != static_cast<double>(r.models.back().cost)) {
            violation("stats", where(r) + ": step statistics report cost " + std::to_string(*cost) + " but the last model has " +
                                   std::to_string(r.models.back().cost));
        }
    } else if (cost && r.models.empty()) {
        if (pr.step_cost && *pr.step_cost == *cost && g_known[K_STALE_COST]) {
            // the entry of a previous call is still there
            ++g_result->known[K_STALE_COST];
        } else {
            violation("stats", where(r) + ": cost reported without a model");
        }
    }
    pr.step_cost = cost;
    for (auto const &[k, v] : r.stat_step) {
        if (k == "/Clingcon/Cost" || k.back() == '#') {
            continue;
        }
        pr.stat_sum[k] += v;
    }
    for (auto const &[k, v] : r.stat_accu) {
        if (k == "/Clingcon/Cost" || k.back() == '#') {
            continue;
        }
        auto it = pr.stat_sum.find(k);
        double e = it != pr.stat_sum.end() ? it->second : 0.0;
        if (v < -1e-9) {
            violation("stats", where(r) + ": accumulated statistic " + k + " is negative: " + std::to_string(v));
        }
        if (std::fabs(e - v) > 1e-6 * std::max(1.0, std::fabs(e))) {
            violation("stats", where(r) + ": accumulated statistic " + k + " is " + std::to_string(v) +
                                   " but the steps sum up to " + std::to_string(e));
        }
    }
    for (auto const &[k, v] : pr.stat_sum) {
        if (r.stat_accu.find(k) == r.stat_accu.end()) {
            violation("stats", where(r) + ": accumulated statistic " + k + " is missing");
        }
    }
}

void judge(SolveRec &r) {
    HarnessScope h;
    auto &pr = *r.pr;
    auto const &p = *pr.p;
    auto &ref = *pr.ref;
    ++g_result->solves;
    pr.had_models = !r.models.empty();
    bool obj = ref.has_objective(r.step);
    bool exhausted = r.has_result && (r.result & clingo_solve_result_exhausted) != 0;
    bool sat = r.has_result && (r.result & clingo_solve_result_satisfiable) != 0;
    bool unsat = r.has_result && (r.result & clingo_solve_result_unsatisfiable) != 0;
    bool intr = r.has_result && (r.result & clingo_solve_result_interrupted) != 0;
    g_result->exhausted += exhausted ? 1 : 0;
    g_result->interrupted += intr ? 1 : 0;
    pr.digest = hmix(pr.digest, r.result + 17 * (r.failed ? 1 : 0));
    if (g_case->profile == "c20") {
        pr.digest = hmix(pr.digest, r.traffic.trace);
        for (auto const &[k, v] : r.stat_step) {
            if (k.find("ime") == std::string::npos) {
                pr.digest = hmix(pr.digest, static_cast<uint64_t>(static_cast<i64>(v)));
            }
        }
    }
    std::vector<Solution> got;
    i64 last_cost = 0;
    // clasp passes the work of a failed thread on to the others
    bool dropped = pr.threads > 1 && (oom_fired() || r.user_failed);
    for (size_t i = 0; i < r.models.size(); ++i) {
        auto &m = r.models[i];
        m.sol = masked(pr, m.sol);
        pr.digest = hmix(pr.digest, m.sol.atoms);
        for (auto v : m.sol.vals) {
            pr.digest = hmix(pr.digest, static_cast<uint64_t>(v));
        }
        if (r.failed && (oom_fired() || r.user_failed) && i + 1 == r.models.size() && m.sol.vals.empty()) {
            continue;
        }
        std::string why;
        ++g_result->checked_models;
        if (!ref.check(r.st, m.sol, &why)) {
            violation("unsound", where(r) + ": model " + std::to_string(i + 1) + " (thread " + std::to_string(m.thread) + ") " +
                                     show_sol(pr, m.sol) + " " + why);
        }
        if (!satisfies(m.sol, r.assume)) {
            violation("unsound", where(r) + ": model " + show_sol(pr, m.sol) + " does not satisfy the assumptions");
        }
        if (obj) {
            auto c = ref.objective(r.step, m.sol.vals);
            if (!m.has_cost) {
                violation("cost", where(r) + ": model without cost");
            } else if (m.cost != c) {
                violation("cost", where(r) + ": model " + show_sol(pr, m.sol) + " reports cost " + std::to_string(m.cost) +
                                      " but its objective value is " + std::to_string(c));
            }
            if (i > 0 && c >= last_cost && !dropped) {
                violation("order", where(r) + ": model " + std::to_string(i + 1) + " with cost " + std::to_string(c) +
                                       " does not improve on " + std::to_string(last_cost));
            }
            last_cost = c;
        } else if (m.has_cost) {
            violation("cost", where(r) + ": cost reported without an objective");
        }
        got.push_back(m.sol);
    }
    std::sort(got.begin(), got.end());
    for (size_t i = 1; i < got.size() && !dropped; ++i) {
        if (got[i] == got[i - 1]) {
            violation("duplicate", where(r) + ": solution " + show_sol(pr, got[i]) + " was reported more than once");
            break;
        }
    }
    if (r.failed) {
        return;
    }
    if (!r.has_result) {
        violation("status", where(r) + ": no result");
        return;
    }
    if (sat && unsat) {
        violation("status", where(r) + ": both satisfiable and unsatisfiable");
    }
    if (!r.models.empty() && !sat) {
        violation("status", where(r) + ": models were reported but the result is not satisfiable");
    }
    if (sat && r.models.empty()) {
        violation("status", where(r) + ": satisfiable without a model");
    }
    if (r.limit > 0 && static_cast<int>(r.models.size()) > r.limit) {
        violation("status", where(r) + ": more models than requested");
    }
    if (!intr && !r.stopped && !sat && !unsat) {
        violation("status", where(r) + ": no answer although the search was not stopped");
    }
    if (!intr && !r.stopped && !exhausted && (r.limit == 0 || static_cast<int>(r.models.size()) < r.limit)) {
        violation("status", where(r) + ": search ended early without being exhausted");
    }
    // an interrupt arriving after the end of a call applies to the next one
    bool pending = pr.pending_interrupt;
    pr.pending_interrupt = r.op->fault == F_INTERRUPT && r.fault_fired && (!intr || pending);
    if (intr && !r.fault_fired && !pending) {
        violation("status", where(r) + ": reported as interrupted but was not");
    }
    auto const &sols = all_solutions(pr, r.st);
    std::vector<Solution> want;
    auto check_gone = [&](Solution const &s) {
        for (size_t v = 0; v < pr.gone.size(); ++v) {
            if (pr.gone[v] && ref.relevant(r.step, static_cast<int>(v), s)) {
                violation("api", where(r) + ": variable " + p.vars[v] + " has no index but matters in " + show_sol(pr, s));
                return false;
            }
        }
        return true;
    };
    bool any_gone = std::find(pr.gone.begin(), pr.gone.end(), true) != pr.gone.end();
    if (any_gone) {
        for (auto const &s : got) {
            if (!check_gone(s)) {
                break;
            }
        }
    }
    if (sols) {
        for (auto const &s : *sols) {
            if (satisfies(s, r.assume)) {
                if (any_gone) {
                    if (!check_gone(s)) {
                        break;
                    }
                    want.push_back(masked(pr, s));
                } else {
                    want.push_back(s);
                }
            }
        }
        if (any_gone) {
            std::sort(want.begin(), want.end());
            want.erase(std::unique(want.begin(), want.end()), want.end());
        }
    }
    bool hidden_ok = false;
    Solution hid;
    if (!p.hidden.empty()) {
        hid.vals = p.hidden;
        hid = masked(pr, hid);
        for (size_t a = 0; a < p.hidden_atoms.size(); ++a) {
            if (p.hidden_atoms[a] != 0) {
                hid.atoms |= uint64_t(1) << a;
            }
        }
        hid.atoms &= ref.defined(r.step);
        hidden_ok = satisfies(hid, r.assume) && ref.check(r.st, hid);
    }
    if (unsat) {
        if (sols && !want.empty()) {
            violation("incomplete", where(r) + ": reported unsatisfiable but " + show_sol(pr, want[0]) + " is a solution");
        } else if (hidden_ok) {
            violation("incomplete", where(r) + ": reported unsatisfiable but " + show_sol(pr, hid) + " is a solution");
        }
    }
    if (exhausted && !unsat) {
        if (!obj) {
            if (sols) {
                ++g_result->checked_sets;
                for (auto const &s : want) {
                    if (!std::binary_search(got.begin(), got.end(), s)) {
                        violation("incomplete", where(r) + ": exhausted with " + std::to_string(got.size()) + " of " +
                                                    std::to_string(want.size()) + " solutions; missing " + show_sol(pr, s));
                        break;
                    }
                }
            } else if (hidden_ok && !std::binary_search(got.begin(), got.end(), hid)) {
                violation("incomplete", where(r) + ": exhausted; missing " + show_sol(pr, hid));
            }
        } else if (!r.models.empty()) {
            i64 best = LLONG_MAX;
            Solution const *arg = nullptr;
            if (sols) {
                ++g_result->optima;
                for (auto const &s : want) {
                    auto c = ref.objective(r.step, s.vals);
                    if (c < best) {
                        best = c;
                        arg = &s;
                    }
                }
            } else if (hidden_ok) {
                best = ref.objective(r.step, hid.vals);
                arg = &hid;
            }
            if (arg != nullptr && last_cost > best) {
                violation("optimum", where(r) + ": ended with cost " + std::to_string(last_cost) + " but " + show_sol(pr, *arg) +
                                         " has cost " + std::to_string(best));
            }
        }
    }
    if (exhausted && unsat && !r.models.empty()) {
        violation("status", where(r) + ": unsatisfiable with models");
    }
    if (r.fault_fired && r.t_fault != 0) {
        g_result->prompt_max = std::max(g_result->prompt_max, r.t_end - r.t_fault);
    }
    judge_stats(r);
    if (g_contract[0] != '\0') {
        violation("contract", g_contract);
    }
}

// ------------------------------------------------------------------ saboteur

struct Saboteur {
    pthread_t thread;
    SolveRec *rec = nullptr;
    uint64_t target = 0;
    int tid = -1;
    bool stop = false;
    bool used = false;
    bool hold = false;
};

void *saboteur_main(void *arg) {
    auto &s = *static_cast<Saboteur *>(arg);
    s.tid = self_id();
    auto target = s.target;
    while (!s.stop && wait_tick(target) && s.hold) {
        target = tick() + 50;
    }
    if (!s.stop) {
        ++g_stats.faults[F_INTERRUPT];
        s.rec->fault_fired = s.rec->stopped = true;
        s.rec->t_fault = tick();
        clingo_control_interrupt(s.rec->pr->ctl);
    }
    return nullptr;
}

// ------------------------------------------------------------------ driving clingo

bool add_ast(clingo_ast_t *ast, void *data) {
    auto &pr = *static_cast<ProgRun *>(data);
    CtxScope c(Ctx::Host);
    if (pr.fail_add >= 0 && pr.add_calls++ == pr.fail_add) {
        ++g_stats.faults[F_USERFAIL];
        pr.add_failed = true;
        clingo_set_error(clingo_error_runtime, "injected failure");
        return false;
    }
    return clingo_program_builder_add(pr.builder, ast);
}

bool on_ast(clingo_ast_t *ast, void *data) {
    auto &pr = *static_cast<ProgRun *>(data);
    oom_rewriting(true);
    bool ret = LIB(clingcon_rewrite_ast(pr.theory, ast, add_ast, data));
    oom_rewriting(false);
    return ret;
}

bool set_conf(clingo_control_t *ctl, char const *path, char const *value) {
    clingo_configuration_t *conf = nullptr;
    clingo_id_t root = 0, key = 0;
    return clingo_control_configuration(ctl, &conf) && clingo_configuration_root(conf, &root) &&
           clingo_configuration_map_at(conf, root, path, &key) && clingo_configuration_value_set(conf, key, value);
}

bool find_literal(clingo_control_t *ctl, char const *name, clingo_literal_t *lit) {
    clingo_symbol_t sym = 0;
    clingo_symbolic_atoms_t const *atoms = nullptr;
    clingo_symbolic_atom_iterator_t it = 0;
    bool valid = false;
    return clingo_parse_term(name, logger, nullptr, 20, &sym) && clingo_control_symbolic_atoms(ctl, &atoms) &&
           clingo_symbolic_atoms_find(atoms, sym, &it) && clingo_symbolic_atoms_is_valid(atoms, it, &valid) && valid &&
           clingo_symbolic_atoms_literal(atoms, it, lit);
}

//! Clasp reuses the variable of the literal associated with the last solve
//! call but might keep clauses over it if there are multiple threads. A false
//! external soaks it up; see DESIGN.md.
bool pad(ProgRun &pr, int k) {
    if (pr.max_threads < 2 || pr.nsolves == 0 || !pr.ref->has_objective(k)) {
        return true;
    }
    clingo_backend_t *backend = nullptr;
    clingo_atom_t atom = 0;
    bool ok = clingo_control_backend(pr.ctl, &backend) && clingo_backend_begin(backend) &&
              clingo_backend_add_atom(backend, nullptr, &atom) &&
              clingo_backend_external(backend, atom, clingo_external_type_false) && clingo_backend_end(backend);
    if (!ok) {
        call_failed(pr, nullptr, "padding");
    }
    return ok;
}

bool load(ProgRun &pr, int k) {
    auto const &p = *pr.p;
    auto const &s = p.steps[k];
    std::string text;
    {
        HarnessScope h;
        text = "#program step" + std::to_string(k) + ".\n" + render_step(p, s);
        for (auto const &x : s.rules) {
            if (x.head == H_THEORY && p.tatoms[x.atom].kind == T_RAW) {
                pr.raw_loaded = true;
                ++g_stats.faults[F_BADINPUT];
            }
        }
        pr.present = pr.ref->present(k);
        pr.gone.assign(p.vars.size(), false);
    }
    int fault = pr.fault_free ? -1 : s.fault;
    if (!pad(pr, k)) {
        return false;
    }
    if (fault == F_OOM) {
        arm_oom(s.fa);
    }
    pr.fail_add = fault == F_USERFAIL ? static_cast<int>(s.fa) : -1;
    pr.add_calls = 0;
    bool ok = true;
    ok = ok && clingo_program_builder_init(pr.ctl, &pr.builder);
    if (!ok) {
        call_failed(pr, nullptr, "program_builder");
        return false;
    }
    ok = clingo_program_builder_begin(pr.builder);
    ok = ok && clingo_ast_parse_string(text.c_str(), on_ast, &pr, nullptr, logger, nullptr, 20);
    if (!ok) {
        call_failed(pr, nullptr, "loading the program");
        disarm_oom();
        return false;
    }
    if (!clingo_program_builder_end(pr.builder)) {
        call_failed(pr, nullptr, "loading the program");
        disarm_oom();
        return false;
    }
    std::string name = "step" + std::to_string(k);
    clingo_part_t part = {name.c_str(), nullptr, 0};
    if (!clingo_control_ground(pr.ctl, &part, 1, nullptr, nullptr)) {
        call_failed(pr, nullptr, "grounding");
        disarm_oom();
        return false;
    }
    if (!LIB(clingcon_prepare(pr.theory, pr.ctl))) {
        call_failed(pr, nullptr, "preparing");
        disarm_oom();
        return false;
    }
    if (fault == F_OOM) {
        disarm_oom();
    }
    return true;
}

void do_solve(ProgRun &pr, int step, Op const &op) {
    if (!pad(pr, step)) {
        return;
    }
    ++pr.nsolves;
    SolveRec *r = nullptr;
    {
        HarnessScope h;
        r = new SolveRec();
        r->pr = &pr;
        r->op = &op;
        r->step = step;
        r->st.step = step;
        r->st.externals = pr.externals;
        r->limit = op.limit;
    }
    std::vector<clingo_literal_t> lits;
    for (int a : op.assume) {
        int i = (a < 0 ? -a : a) - 1;
        clingo_literal_t lit = 0;
        if (pr.released.count(i) != 0 || !find_literal(pr.ctl, pr.p->atoms[i].c_str(), &lit)) {
            continue;
        }
        lits.push_back(a < 0 ? -lit : lit);
        HarnessScope h;
        r->assume.push_back(a);
    }
    int fault = pr.fault_free ? -1 : op.fault;
    char buf[32];
    snprintf(buf, sizeof(buf), "%d", op.limit);
    if (!set_conf(pr.ctl, "solve.models", buf)) {
        call_failed(pr, r, "configuring");
        return;
    }
    r->threads = pr.threads;
    clingo_solve_mode_bitset_t mode = 0;
    if (op.mode == S_YIELD || op.mode == S_ASYNC_YIELD) {
        mode |= clingo_solve_mode_yield;
    }
    if (op.mode == S_ASYNC || op.mode == S_ASYNC_YIELD) {
        mode |= clingo_solve_mode_async;
    }
    Saboteur sab;
    r->t_begin = tick();
    r->ns_begin = now_ns();
    if (fault == F_INTERRUPT) {
        sab.used = true;
        sab.rec = r;
        sab.target = tick() + static_cast<uint64_t>(op.fa);
        pthread_create(&sab.thread, nullptr, saboteur_main, &sab);
    }
    if (fault == F_OOM) {
        arm_oom(op.fa);
    }
    race_solve_begin();
    clingo_solve_handle_t *handle = nullptr;
    // clasp crashes if a parallel search to be advanced by the caller is interrupted while it is started
    sab.hold = pr.threads > 1 && op.mode == S_YIELD;
    bool ok = clingo_control_solve(pr.ctl, mode, lits.data(), lits.size(), on_event, r, &handle);
    sab.hold = false;
    if (!ok) {
        call_failed(pr, r, "solve");
    }
    if (ok) {
        bool cancelled = false;
        if (fault == F_CANCEL && op.mode == S_ASYNC) {
            wait_tick(tick() + static_cast<uint64_t>(op.fa));
            bool done = false;
            clingo_solve_handle_wait(handle, 0, &done);
            ++g_stats.faults[F_CANCEL];
            r->t_fault = tick();
            r->stopped = r->fault_fired = true;
            cancelled = true;
            if (!clingo_solve_handle_cancel(handle)) {
                call_failed(pr, r, "cancel");
            }
        } else if (mode == clingo_solve_mode_async) {
            bool done = false;
            int polls = 0;
            while (!done && polls < 3) {
                clingo_solve_handle_wait(handle, polls == 0 ? 0 : 0.001 * polls, &done);
                ++polls;
            }
        }
        if ((mode & clingo_solve_mode_yield) != 0 && !r->failed) {
            i64 n = 0;
            for (;;) {
                if (fault == F_ABANDON && n >= op.fa) {
                    ++g_stats.faults[F_ABANDON];
                    r->stopped = r->fault_fired = true;
                    r->t_fault = tick();
                    break;
                }
                if (!clingo_solve_handle_resume(handle)) {
                    call_failed(pr, r, "resume");
                    break;
                }
                if (fault == F_CANCEL && n >= op.fa % 3) {
                    wait_tick(tick() + static_cast<uint64_t>(op.fa));
                    ++g_stats.faults[F_CANCEL];
                    r->t_fault = tick();
                    r->stopped = r->fault_fired = true;
                    cancelled = true;
                    if (!clingo_solve_handle_cancel(handle)) {
                        call_failed(pr, r, "cancel");
                    }
                    break;
                }
                clingo_model_t const *m = nullptr;
                if (!clingo_solve_handle_model(handle, &m)) {
                    call_failed(pr, r, "model");
                    break;
                }
                if (m == nullptr) {
                    break;
                }
                ++n;
                // clasp continues the search in the background as soon as it is interrupted: the yielded model must not
                // be used while or after interrupting
                if (r->fault_fired && fault == F_INTERRUPT) {
                    continue;
                }
                sab.hold = true;
                ModelRec rec;
                capture(*r, m, rec, n < 3);
                sab.hold = false;
                HarnessScope h;
                if (static_cast<i64>(r->models.size()) != n) {
                    violation("api", where(*r) + ": yielded model " + std::to_string(n) + " after " +
                                         std::to_string(r->models.size()) + " reported models");
                } else if (!(rec.sol == r->models.back().sol)) {
                    violation("api", where(*r) + ": yielded model " + show_sol(pr, rec.sol) + " differs from reported one " +
                                         show_sol(pr, r->models.back().sol));
                }
                rec.sol.vals = {};
            }
        }
        bool abandon = fault == F_ABANDON && r->fault_fired;
        if (!abandon && !r->failed) {
            clingo_solve_result_bitset_t res = 0;
            if (!clingo_solve_handle_get(handle, &res)) {
                call_failed(pr, r, "solve");
            } else {
                r->result = res;
                r->has_result = true;
            }
        }
        (void)cancelled;
        if (!clingo_solve_handle_close(handle)) {
            if (!r->failed) {
                call_failed(pr, r, "close");
            }
        }
    }
    race_solve_end();
    r->ns_end = now_ns();
    r->t_end = tick();
    if (fault == F_OOM) {
        disarm_oom();
    }
    if (sab.used) {
        sab.stop = true;
        if (sab.tid >= 0) {
            wake_tick(sab.tid);
        }
        pthread_join(sab.thread, nullptr);
    }
    if (fault == F_ABANDON && r->fault_fired && !r->failed) {
        // no result is available: still judge the models
        HarnessScope h;
        r->has_result = true;
        r->result = r->models.empty() ? clingo_solve_result_interrupted
                                      : clingo_solve_result_satisfiable | clingo_solve_result_interrupted;
    }
    if (oom_fired() && !r->failed) {
        // the failure was absorbed (a worker thread was dropped): only soundness is promised
        pr.dead = true;
    }
    if (!(pr.dead && oom_fired() && !r->failed)) {
        judge(*r);
    }
}

void do_op(ProgRun &pr, int step, Op const &op) {
    switch (op.kind) {
        case O_SOLVE: do_solve(pr, step, op); break;
        case O_EXTERNAL:
        case O_RELEASE: {
            clingo_literal_t lit = 0;
            if (pr.released.count(op.a) != 0 || !find_literal(pr.ctl, pr.p->atoms[op.a].c_str(), &lit)) {
                break;
            }
            bool ok = op.kind == O_RELEASE
                          ? clingo_control_release_external(pr.ctl, lit)
                          : clingo_control_assign_external(pr.ctl, lit,
                                                           op.b == 1   ? clingo_truth_value_true
                                                           : op.b == 2 ? clingo_truth_value_free
                                                                       : clingo_truth_value_false);
            if (!ok) {
                call_failed(pr, nullptr, "external");
                break;
            }
            HarnessScope h;
            pr.externals[op.a] = op.kind == O_RELEASE ? 0 : op.b;
            if (op.kind == O_RELEASE) {
                pr.released.insert(op.a);
            }
            break;
        }
        case O_THREADS: {
            char buf[16];
            snprintf(buf, sizeof(buf), "%d", op.a);
            ++g_stats.faults[F_RECONF];
            if (!set_conf(pr.ctl, "solve.parallel_mode", buf)) {
                call_failed(pr, nullptr, "configuring threads");
            }
            pr.threads = op.a;
            pr.max_threads = std::max(pr.max_threads, op.a);
            break;
        }
        case O_CLEANUP:
            if (!clingo_control_cleanup(pr.ctl)) {
                call_failed(pr, nullptr, "cleanup");
            }
            break;
        case O_CONF:
            if (op.key.substr(0, 1) == "@") {
                auto key = op.key.substr(1);
                if (forced_translation(*pr.p) && (key == "translate-pb" || key == "translate-distinct")) {
                    break;
                }
                if (!LIB(clingcon_configure(pr.theory, key.c_str(), op.val.c_str()))) {
                    call_failed(pr, nullptr, "configure");
                    break;
                }
                HarnessScope h;
                pr.reopts.emplace_back(key, op.val);
                break;
            }
            if (!set_conf(pr.ctl, op.key.c_str(), op.val.c_str())) {
                call_failed(pr, nullptr, "configuring");
            }
            break;
        default: break;
    }
}

//! Configure the theory in the alternative way given by the program.
bool configure_alt(ProgRun &pr) {
    auto const &p = *pr.p;
    std::vector<Option> opts;
    bool api = p.alt_mode == 1;
    if (api) {
        g_options = &opts;
        // only passed back to the functions to add options
        bool ok = LIB(clingcon_register_options(pr.theory, reinterpret_cast<clingo_options_t *>(&opts)));
        g_options = nullptr;
        if (!ok) {
            call_failed(pr, nullptr, "register_options");
            return false;
        }
    }
    std::set<std::string> seen;
    auto set = [&](std::string const &key, std::string const &val) {
        if (!api) {
            return LIB(clingcon_configure(pr.theory, key.c_str(), val.c_str()));
        }
        for (auto &o : opts) {
            if (o.name != key) {
                continue;
            }
            if (o.flag != nullptr) {
                *o.flag = val == "yes";
                return true;
            }
            // the host only passes options of threads repeatedly if told so
            bool again = o.multi || o.description.find("thread <i>") == std::string::npos || seen.insert(key).second;
            return again && LIB(o.parse(val.c_str(), o.data));
        }
        return false;
    };
    std::set<std::string> given;
    for (auto const &a : p.alt) {
        if (a.ok && !a.extra) {
            given.insert(a.key);
        }
    }
    for (auto const &a : p.alt) {
        auto what = [&]() { return a.kind == 1 ? std::string("validation") : "configuring " + a.key + " with '" + a.val + "'"; };
        auto attempt = [&]() { return a.kind == 1 ? LIB(clingcon_validate_options(pr.theory)) : set(a.key, a.val); };
        if (a.fault >= 0) {
            arm_oom(a.fault);
            bool ok = attempt();
            bool fired = oom_fired();
            arm_oom(-1);
            HarnessScope h;
            if (ok != a.ok && !(fired && !ok)) {
                violation("options", what() + (ok ? " was accepted" : " failed"));
                return false;
            }
            seen.erase(a.key);
            if (ok == a.ok) {
                continue;
            }
        }
        bool ok = attempt();
        HarnessScope h;
        if (!a.ok) {
            ++g_stats.faults[F_BADINPUT];
            seen.erase(a.key);
        } else if (a.kind == 1) {
            seen.clear();
        }
        if (ok != a.ok) {
            violation("options", what() + (ok ? " was accepted" : " was rejected"));
            return false;
        }
        if (!ok && (!api || a.kind == 1) && clingo_error_code() == clingo_error_success) {
            violation("options", what() + " failed without reporting an error");
            return false;
        }
    }
    if (api) {
        // passing the documented defaults does not make a difference
        for (auto &o : opts) {
            std::string val;
            {
                HarnessScope h;
                auto b = o.description.find('['), e = o.description.find(']');
                if (given.count(o.name) > 0 || b == std::string::npos || e == std::string::npos) {
                    continue;
                }
                val = o.description.substr(b + 1, e - b - 1);
                if (val.find_first_of("<>{}| ") != std::string::npos) {
                    continue;
                }
            }
            if ((o.name == "min-int" || o.name == "max-int") && p.set_range) {
                continue;
            }
            seen.erase(o.name);
            if (!set(o.name, val)) {
                HarnessScope h;
                violation("options", "default value '" + val + "' of " + o.name + " was rejected");
                return false;
            }
        }
        if (!LIB(clingcon_validate_options(pr.theory))) {
            call_failed(pr, nullptr, "validate_options");
            return false;
        }
    }
    return true;
}

bool setup(ProgRun &pr) {
    auto const &p = *pr.p;
    {
        HarnessScope h;
        pr.ref = new Reference(p);
        for (size_t v = 0; v < p.vars.size(); ++v) {
            pr.var_index[p.vars[v]] = static_cast<int>(v);
        }
        for (size_t a = 0; a < p.atoms.size(); ++a) {
            pr.atom_index[p.atoms[a]] = static_cast<int>(a);
        }
    }
    if (!LIB(clingcon_create(&pr.theory))) {
        pr.theory = nullptr;
        call_failed(pr, nullptr, "create");
        return false;
    }
    char buf[32];
    if (!p.alt.empty()) {
        for (auto const &[k, v] : p.options) {
            pr.translated_opt = pr.translated_opt || k == "translate-opt";
        }
        if (!configure_alt(pr)) {
            return false;
        }
    } else if (p.set_range) {
        snprintf(buf, sizeof(buf), "%lld", static_cast<long long>(p.min_int));
        bool ok = LIB(clingcon_configure(pr.theory, "min-int", buf));
        snprintf(buf, sizeof(buf), "%lld", static_cast<long long>(p.max_int));
        ok = ok && LIB(clingcon_configure(pr.theory, "max-int", buf));
        if (!ok) {
            call_failed(pr, nullptr, "configure");
            return false;
        }
    }
    for (auto const &[k, v] : p.options) {
        if (k == "translate-opt") {
            pr.translated_opt = true;
        }
        if (!p.alt.empty()) {
            continue;
        }
        if (!LIB(clingcon_configure(pr.theory, k.c_str(), v.c_str()))) {
            call_failed(pr, nullptr, ("configure " + k + "=" + v).c_str());
            return false;
        }
    }
    // clasp loses weight constraints in threads that are added in later
    // steps; see DESIGN.md
    if (forced_translation(p)) {
        if (!LIB(clingcon_configure(pr.theory, "translate-pb", "-1")) ||
            !LIB(clingcon_configure(pr.theory, "translate-distinct", "0"))) {
            call_failed(pr, nullptr, "configure");
            return false;
        }
    }
    std::vector<char const *> args;
    for (auto const &a : p.args) {
        args.push_back(a.c_str());
    }
    for (size_t i = 0; i + 1 < p.args.size(); ++i) {
        if (p.args[i] == "-t") {
            pr.threads = atoi(p.args[i + 1].c_str());
            pr.max_threads = pr.threads;
        }
    }
    // clasp's preprocessing loses models if a propagator adds facts during
    // initialisation and literals during search; see DESIGN.md
    args.push_back("--sat-prepro=no");
    if (!clingo_control_new(args.data(), args.size(), logger, nullptr, 20, &pr.ctl)) {
        pr.ctl = nullptr;
        call_failed(pr, nullptr, "control_new");
        return false;
    }
    if (!LIB(clingcon_register(pr.theory, pr.ctl))) {
        call_failed(pr, nullptr, "register");
        return false;
    }
    {
        HarnessScope h;
        bool chain = false;
        for (size_t i = 0; i < 64; ++i) {
            chain = chain || effective(pr, "order-heuristic", i, "none") != "none";
        }
        if (chain && !t_last_prop.has_decide) {
            violation("options", "the theory does not take part in decisions contrary to its configuration");
        }
    }
    pr.traffic = t_last_prop.traffic;
    return true;
}

void teardown(ProgRun &pr) {
    if (pr.ctl != nullptr) {
        clingo_control_free(pr.ctl);
        pr.ctl = nullptr;
    }
    if (pr.theory != nullptr) {
        LIB(clingcon_destroy(pr.theory));
        pr.theory = nullptr;
    }
    g_result->prog_digest[pr.index & 7] = pr.digest;
}

void check_expected(ProgRun &pr, bool solved) {
    // Without models, the statement might not have been reached because of a conflict found earlier;
    // answers without models are judged against the program without the statement.
    if (pr.p->expect_error && pr.raw_loaded && !pr.dead && solved) {
        HarnessScope h;
        std::string raw;
        for (auto const &t : pr.p->tatoms) {
            if (t.kind == T_RAW) {
                raw = t.raw;
            }
        }
        violation("accepted", "invalid statement was accepted: " + raw);
        pr.dead = true;
    }
}

void run_step(ProgRun &pr, int k) {
    if (pr.dead || !load(pr, k)) {
        return;
    }
    pr.step = k;
    bool solved = false;
    for (auto const &op : pr.p->steps[k].ops) {
        do_op(pr, k, op);
        solved = solved || (op.kind == O_SOLVE && pr.had_models);
        check_expected(pr, solved);
        if (pr.dead || g_result->status == ST_VIOLATION) {
            break;
        }
    }
}

void run_program(ProgRun &pr) {
    if (setup(pr)) {
        for (int k = 0; k < static_cast<int>(pr.p->steps.size()) && !pr.dead && g_result->status != ST_VIOLATION; ++k) {
            run_step(pr, k);
        }
    }
    teardown(pr);
}

// ------------------------------------------------------------------ the command line tool

} // namespace
} // namespace sim

int clingcon_main(int argc, char **argv);

namespace sim {
namespace {

//! What the command line tool was asked for and what it printed.
struct CliRun {
    ProgRun *pr = nullptr;
    Op op;
    int out = -1;
    int err = -1;
    int quiet = 0;
    bool verbose = true;
    bool stats = false;
    bool bad_option = false;
    bool killed = false;
    uint64_t signals = 0;
    uint64_t show_atoms = ~uint64_t(0);
};

CliRun *g_cli = nullptr;

struct Printed {
    std::map<std::string, i64> vals;
    uint64_t atoms = 0;
    bool has_cost = false;
    i64 cost = 0;
    bool has_opt = false;
    i64 opt = 0;
    i64 number = 0;
};

std::string slurp(int fd) {
    std::string s;
    char buf[4096];
    off_t off = 0;
    for (;;) {
        auto n = pread(fd, buf, sizeof(buf), off);
        if (n <= 0) {
            return s;
        }
        s.append(buf, static_cast<size_t>(n));
        off += n;
    }
}

//! Split at blanks outside of strings.
std::vector<std::string> words(std::string const &line) {
    std::vector<std::string> ret;
    std::string cur;
    bool str = false;
    bool esc = false;
    for (char c : line) {
        if (esc) {
            esc = false;
        } else if (str && c == '\\') {
            esc = true;
        } else {
            str = str != (c == '"');
        }
        if (c == ' ' && !str) {
            if (!cur.empty()) {
                ret.push_back(cur);
            }
            cur.clear();
        } else {
            cur += c;
        }
    }
    if (!cur.empty()) {
        ret.push_back(cur);
    }
    return ret;
}

bool number(std::string const &s, i64 &n) {
    char *end = nullptr;
    n = strtoll(s.c_str(), &end, 10);
    return !s.empty() && *end == '\0';
}

void judge_cli(int rc) {
    auto &c = *g_cli;
    auto &pr = *c.pr;
    auto const &p = *pr.p;
    auto &ref = *pr.ref;
    auto out = slurp(c.out);
    auto err = slurp(c.err);
    ++g_result->solves;
    pr.digest = hmix(pr.digest, static_cast<uint64_t>(rc));
    for (char ch : out) {
        pr.digest = hmix(pr.digest, static_cast<uint8_t>(ch));
    }
    if (getenv("SIM_CLI") != nullptr) {
        fprintf(stderr, "rc %d\n%s\n--- stderr\n%s\n", rc, out.c_str(), err.c_str());
    }
    auto bad = [&](char const *cls, std::string const &msg) {
        violation(cls, "command line tool (exit code " + std::to_string(rc) + "): " + msg);
    };
    // signals only count if they were delivered
    bool stopped = g_stats.faults[F_SIGNAL] + g_stats.faults[F_TIMELIMIT] > c.signals;
    bool timelimit = g_stats.faults[F_TIMELIMIT] != 0;
    // ---- parse
    std::vector<std::string> lines;
    {
        std::istringstream in{out};
        std::string l;
        while (std::getline(in, l)) {
            if (l.rfind("***", 0) != 0) {
                lines.push_back(l);
            }
        }
    }
    std::vector<Printed> answers;
    std::string status;
    std::optional<i64> models;
    bool more = false;
    bool tl = false;
    bool intr = false;
    std::optional<bool> optimum;
    bool has_stats = false;
    bool complete = true;
    for (size_t i = 0; i < lines.size(); ++i) {
        auto const &l = lines[i];
        if (l.rfind("Answer: ", 0) == 0 || (!c.verbose && i + 1 < lines.size() && lines[i + 1] == "Assignment:")) {
            Printed a;
            if (!c.verbose) {
                // answers are not numbered
                a.number = static_cast<i64>(answers.size()) + 1;
                --i;
            } else if (!number(l.substr(8), a.number)) {
                bad("cli", "unexpected line " + l);
            }
            if (i + 3 >= lines.size()) {
                complete = false;
                break;
            }
            for (auto const &w : words(lines[i + 1])) {
                auto it = pr.atom_index.find(w);
                if (it == pr.atom_index.end()) {
                    bad("cli", "unexpected atom " + w + " in answer " + std::to_string(a.number));
                } else if ((a.atoms & uint64_t(1) << it->second) != 0) {
                    bad("cli", "atom " + w + " printed twice in answer " + std::to_string(a.number));
                } else {
                    a.atoms |= uint64_t(1) << it->second;
                }
            }
            if (lines[i + 2] != "Assignment:") {
                bad("cli", "assignment missing in answer " + std::to_string(a.number));
                return;
            }
            for (auto const &w : words(lines[i + 3])) {
                auto eq = w.rfind('=');
                i64 v = 0;
                if (eq == std::string::npos || !number(w.substr(eq + 1), v) || pr.var_index.find(w.substr(0, eq)) == pr.var_index.end()) {
                    bad("cli", "unexpected assignment " + w + " in answer " + std::to_string(a.number));
                } else if (!a.vals.emplace(w.substr(0, eq), v).second) {
                    bad("cli", "variable assigned twice: " + w + " in answer " + std::to_string(a.number));
                }
            }
            i += 3;
            if (i + 1 < lines.size() && lines[i + 1].rfind("Cost: ", 0) == 0) {
                ++i;
                a.has_cost = number(lines[i].substr(6), a.cost);
                if (!a.has_cost) {
                    bad("cli", "unexpected line " + lines[i]);
                }
            }
            if (i + 1 < lines.size() && lines[i + 1].rfind("Optimization: ", 0) == 0) {
                ++i;
                a.has_opt = number(lines[i].substr(14), a.opt);
                if (!a.has_opt) {
                    bad("cli", "unexpected line " + lines[i]);
                }
            }
            answers.push_back(a);
        } else if (l == "SATISFIABLE" || l == "UNSATISFIABLE" || l == "UNKNOWN" || l == "OPTIMUM FOUND") {
            if (!status.empty()) {
                bad("cli", "result printed more than once");
            }
            status = l;
        } else if (l.rfind("TIME LIMIT", 0) == 0) {
            tl = true;
        } else if (l.rfind("INTERRUPTED", 0) == 0) {
            intr = true;
        } else if (l.rfind("Models  ", 0) == 0 && !models) {
            auto s = l.substr(l.find(':') + 2);
            more = !s.empty() && s.back() == '+';
            if (more) {
                s.pop_back();
            }
            i64 n = 0;
            if (!number(s, n)) {
                bad("cli", "unexpected line " + l);
            }
            models = n;
        } else if (l.rfind("  Optimum    :", 0) == 0) {
            optimum = l.find("yes") != std::string::npos;
        } else if (l == "Clingcon") {
            has_stats = true;
        }
    }
    // ---- errors
    bool error = err.find("*** ERROR") != std::string::npos;
    bool sat = (rc & 10) == 10;
    bool exhausted = (rc & 20) == 20;
    if (stopped && err.find("solving stopped by signal") != std::string::npos) {
        // clingo gives up: only what was printed counts
        error = false;
        c.killed = true;
    }
    if (c.killed && !error) {
        // the process ended within a signal handler: only what was printed counts
        if (!stopped) {
            bad("cli", "exited early without a signal");
        }
        sat = exhausted = false;
    } else if (p.expect_error || c.bad_option) {
        auto const &sols = all_solutions(pr, RefState{0, {}});
        if (!c.bad_option && rc == 20 && sols && sols->empty()) {
            // the statement is not looked at if the rest is inconsistent already
            return;
        }
        if ((rc == 10 || rc == 20 || rc == 30 || !error || !answers.empty()) && !stopped) {
            bad("accepted", "invalid input was not rejected");
        }
        if ((rc == 10 || rc == 20 || rc == 30 || !answers.empty()) && stopped) {
            bad("accepted", "invalid input gave a result");
        }
        ++g_result->errors;
        return;
    } else if (error || (rc != 0 && rc != 1 && rc != 10 && rc != 11 && rc != 20 && rc != 30 && rc != 31 && rc != 21)) {
        bad("error", "failed unexpectedly: " + err);
        return;
    }
    g_result->exhausted += exhausted ? 1 : 0;
    g_result->interrupted += (rc & 1) != 0 ? 1 : 0;
    g_result->models += answers.size();
    // ---- status
    bool obj = ref.has_objective(0);
    if (!c.killed) {
        if (!complete) {
            bad("cli", "the last answer is not complete");
        }
        std::string want = exhausted && sat ? (obj ? "OPTIMUM FOUND" : "SATISFIABLE") : sat ? "SATISFIABLE" : exhausted ? "UNSATISFIABLE" : "UNKNOWN";
        // the optimum is not known if the cost is computed by the theory
        if (c.verbose && status != want && !(want == "OPTIMUM FOUND" && status == "SATISFIABLE")) {
            bad("cli", "result is " + status + " but the exit code says " + want);
        }
        if ((rc & 1) != 0 && !stopped) {
            bad("status", "reported as interrupted but was not");
        }
        if (tl && !timelimit) {
            bad("status", "reported a time limit that did not expire");
        }
        if (intr && !stopped) {
            bad("status", "reported an interrupt that did not happen");
        }
        if ((tl || intr) && (rc & 1) == 0 && c.verbose) {
            bad("status", "stopped search is not visible in the exit code");
        }
        if (!stopped && !sat && !exhausted) {
            bad("status", "no result although the search was not stopped");
        }
        if (c.verbose && models && c.quiet == 0 && *models != static_cast<i64>(answers.size())) {
            bad("cli", std::to_string(*models) + " models counted but " + std::to_string(answers.size()) + " answers printed");
        }
        if (models && (*models > 0) != sat) {
            bad("cli", "number of models does not fit the exit code");
        }
        if (models && more == exhausted) {
            bad("cli", more ? "claims that there might be more models although the search was exhausted"
                            : "hides that there might be more models");
        }
        if (c.verbose && !models) {
            bad("cli", "number of models missing");
        }
        if (c.stats && c.verbose && !has_stats) {
            bad("cli", "statistics of the theory are missing");
        }
        if (c.quiet == 0 && (sat != !answers.empty())) {
            bad("cli", "answers do not fit the exit code");
        }
        if (c.quiet == 1 && (answers.size() > 1 || (sat && answers.empty()))) {
            bad("cli", std::to_string(answers.size()) + " answers printed instead of the last one");
        }
        if (c.quiet == 2 && !answers.empty()) {
            bad("cli", "answers printed although asked not to");
        }
    }
    // with an objective all models are enumerated by default
    i64 limit = c.op.limit >= 0 ? c.op.limit : obj ? 0 : 1;
    if (limit > 0 && static_cast<i64>(answers.size()) > limit) {
        bad("status", "more answers than requested");
    }
    if (!c.killed && !stopped && !exhausted && (limit == 0 || (models && *models < limit))) {
        bad("status", "search ended early without being exhausted");
    }
    // ---- answers
    for (size_t i = 0; i < answers.size(); ++i) {
        if (c.quiet == 0 && answers[i].number != static_cast<i64>(i) + 1) {
            bad("cli", "answer " + std::to_string(i + 1) + " has number " + std::to_string(answers[i].number));
        }
        if (c.quiet == 1 && models && answers[i].number != *models) {
            bad("cli", "printed answer " + std::to_string(answers[i].number) + " is not the last one");
        }
    }
    auto shown = ref.shown(0);
    std::vector<bool> visible(p.vars.size());
    for (size_t v = 0; v < p.vars.size(); ++v) {
        size_t n = 0;
        for (auto const &a : answers) {
            n += a.vals.count(p.vars[v]);
        }
        if (n != 0 && (!pr.present[v] || !shown[v])) {
            bad("show", "variable " + p.vars[v] + " should not be printed");
        }
        if (n != 0 && n != answers.size()) {
            bad("cli", "variable " + p.vars[v] + " is missing in some answers");
        }
        visible[v] = n != 0;
        pr.gone[v] = shown[v] && pr.present[v] && n == 0 && !answers.empty();
    }
    auto const &sols = all_solutions(pr, RefState{0, {}});
    if (!sols) {
        return;
    }
    // hidden variables might have been simplified away
    bool hides = false;
    for (size_t v = 0; v < p.vars.size(); ++v) {
        hides = hides || (pr.present[v] && !shown[v]);
    }
    std::vector<Solution> want;
    for (auto const &s : *sols) {
        for (size_t v = 0; v < pr.gone.size(); ++v) {
            if (pr.gone[v] && ref.relevant(0, static_cast<int>(v), s)) {
                bad("show", "variable " + p.vars[v] + " is not printed but matters in " + show_sol(pr, s));
                return;
            }
        }
        want.push_back(masked(pr, s));
    }
    std::sort(want.begin(), want.end());
    want.erase(std::unique(want.begin(), want.end()), want.end());
    auto project = [&](Solution s) {
        for (size_t v = 0; v < s.vals.size(); ++v) {
            if (!visible[v]) {
                s.vals[v] = 0;
            }
        }
        s.atoms &= c.show_atoms;
        return s;
    };
    std::map<Solution, int> left;
    std::map<Solution, std::set<i64>> costs;
    i64 best = LLONG_MAX;
    for (auto const &s : want) {
        auto q = project(s);
        ++left[q];
        if (obj) {
            auto cost = ref.objective(0, s.vals);
            costs[q].insert(cost);
            best = std::min(best, cost);
        }
    }
    i64 last = LLONG_MAX;
    auto solution_of = [&](Printed const &a) {
        Solution s;
        s.atoms = a.atoms;
        s.vals.assign(p.vars.size(), 0);
        for (auto const &[n, v] : a.vals) {
            s.vals[static_cast<size_t>(pr.var_index[n])] = v;
        }
        return s;
    };
    for (auto const &a : answers) {
        auto s = solution_of(a);
        ++g_result->checked_models;
        auto it = left.find(s);
        std::string text = "answer " + std::to_string(a.number) + " " + show_sol(pr, s);
        if (it == left.end()) {
            bad("unsound", text + " is no solution");
            continue;
        }
        if (!obj) {
            if (--it->second < 0) {
                bad("duplicate", text + " is printed more than once");
            }
            if (a.has_cost || a.has_opt) {
                bad("cost", text + " has a cost without an objective");
            }
            continue;
        }
        if (a.has_cost == a.has_opt) {
            bad("cost", text + (a.has_cost ? " has two costs" : " has no cost"));
            continue;
        }
        i64 cost = a.has_cost ? a.cost : a.opt;
        if (costs[s].count(cost) == 0) {
            bad("cost", text + " has cost " + std::to_string(cost));
        }
        if (cost >= last) {
            bad("cost", text + " with cost " + std::to_string(cost) + " does not improve on " + std::to_string(last));
        }
        last = cost;
    }
    if (exhausted) {
        if (answers.empty() && !sat && !want.empty()) {
            bad("incomplete", "unsatisfiable but " + show_sol(pr, want[0]) + " is a solution");
        }
        if (sat && !obj && c.quiet == 0) {
            ++g_result->checked_sets;
            std::set<Solution> seen;
            for (auto const &a : answers) {
                seen.insert(solution_of(a));
            }
            for (auto const &[s, n] : left) {
                if (hides ? seen.count(s) == 0 : n > 0) {
                    bad("incomplete", "exhausted but answer " + show_sol(pr, s) + " is missing");
                    break;
                }
            }
        }
        if (sat && !obj && c.quiet != 0 && models && visible.size() == p.vars.size() && *models != static_cast<i64>(want.size()) &&
            std::find(pr.gone.begin(), pr.gone.end(), true) == pr.gone.end() && c.quiet == 1 && !hides) {
            bad("incomplete", "exhausted with " + std::to_string(*models) + " of " + std::to_string(want.size()) + " models");
        }
        if (sat && obj && c.quiet != 2) {
            ++g_result->optima;
            if (last != best) {
                bad("optimum", "ended with cost " + std::to_string(last) + " but the optimum is " + std::to_string(best));
            }
        }
    }
    if (g_contract[0] != '\0') {
        violation("contract", g_contract);
    }
}

//! The process ends before main returned.
void on_exit_cli(int rc) {
    {
        HarnessScope h;
        if (g_cli != nullptr && g_result->status != ST_VIOLATION) {
            g_cli->killed = true;
            judge_cli(rc);
            g_result->prog_digest[0] = g_cli->pr->digest;
        }
    }
    finish();
    quit();
}

void run_cli(ProgRun &pr, Case const &cs) {
    auto const &p = *pr.p;
    CliRun c;
    std::vector<std::string> args;
    {
        HarnessScope h;
        pr.ref = new Reference(p);
        for (size_t v = 0; v < p.vars.size(); ++v) {
            pr.var_index[p.vars[v]] = static_cast<int>(v);
        }
        for (size_t a = 0; a < p.atoms.size(); ++a) {
            pr.atom_index[p.atoms[a]] = static_cast<int>(a);
        }
        pr.present = pr.ref->present(0);
        pr.gone.assign(p.vars.size(), false);
        c.pr = &pr;
        c.op.limit = 0;
        for (auto const &o : p.steps[0].ops) {
            if (o.kind == O_SOLVE) {
                c.op = o;
            }
        }
        for (auto const &x : p.steps[0].rules) {
            if (x.head == H_THEORY && p.tatoms[x.atom].kind == T_RAW) {
                ++g_stats.faults[F_BADINPUT];
            }
        }
        std::string text = render_step(p, p.steps[0]);
        args = {"clingcon", "--sat-prepro=no"};
        if (text.size() % 2 == 0) {
            args.push_back("-");
        }
        if (p.set_range) {
            args.push_back("--min-int=" + std::to_string(p.min_int));
            args.push_back("--max-int=" + std::to_string(p.max_int));
        }
        std::set<std::string> given;
        for (auto const &[k, v] : p.options) {
            // an option can be given only once per thread
            auto comma = v.find(',');
            auto id = k + (comma == std::string::npos || k == "translate-clauses" ? "" : v.substr(comma));
            if (!given.insert(id).second) {
                continue;
            }
            if (k == "shift-constraints" || k == "sort-constraints" || k == "literals-only" || k == "add-order-clauses" ||
                k == "check-solution" || k == "check-state") {
                args.push_back(v == "yes" ? "--" + k : "--no-" + k);
            } else {
                args.push_back("--" + k + "=" + v);
            }
        }
        for (size_t i = 0; i < p.args.size(); ++i) {
            if (p.args[i] == "-t" && i + 1 < p.args.size()) {
                args.push_back("-t" + p.args[++i]);
            } else {
                args.push_back(p.args[i]);
            }
        }
        if (c.op.limit >= 0) {
            args.push_back((c.op.b == 0 ? "-n" : "") + std::to_string(c.op.limit));
        }
        if (c.op.fault == F_TIMELIMIT) {
            args.push_back("--time-limit=1");
        }
        bool show = false;
        for (auto const &a : cs.cli_args) {
            if (a[0] == '#') {
                text += "\n" + a + "\n";
                if (!show) {
                    c.show_atoms = 0;
                }
                show = true;
                for (size_t i = 0; i < p.atoms.size(); ++i) {
                    if (a == "#show " + p.atoms[i] + "/0.") {
                        c.show_atoms |= uint64_t(1) << i;
                    }
                }
                continue;
            }
            std::istringstream in{a[0] == '!' ? a.substr(1) : a};
            std::string w;
            while (in >> w) {
                args.push_back(w);
            }
            c.bad_option = c.bad_option || a[0] == '!';
            c.stats = c.stats || a.rfind("--stats", 0) == 0;
            c.verbose = c.verbose && a != "-V0";
            c.quiet = a == "-q1" ? 1 : a == "-q2" ? 2 : c.quiet;
        }
        if (c.bad_option) {
            ++g_stats.faults[F_BADINPUT];
        }
        int fd = memfd_create("program", 0);
        c.out = memfd_create("out", 0);
        c.err = memfd_create("err", 0);
        if (fd < 0 || c.out < 0 || c.err < 0 || write(fd, text.data(), text.size()) != static_cast<ssize_t>(text.size())) {
            violation("harness", "cannot set up files");
            return;
        }
        // the program is read from standard input
        lseek(fd, 0, SEEK_SET);
        dup2(fd, 0);
        __fpurge(stdout);
        dup2(c.out, 1);
        if (getenv("SIM_CLI") == nullptr) {
            dup2(c.err, 2);
        }
        if (getenv("SIM_CLI") != nullptr) {
            for (auto const &a : args) {
                fprintf(stderr, "%s ", a.c_str());
            }
            fprintf(stderr, "\n%s\n", text.c_str());
        }
        c.signals = g_stats.faults[F_SIGNAL] + g_stats.faults[F_TIMELIMIT];
    }
    g_cli = &c;
    std::vector<char *> argv;
    for (auto &a : args) {
        argv.push_back(a.data());
    }
    argv.push_back(nullptr);
    g_virtual_signals = true;
    set_exit(on_exit_cli);
    if (c.op.fault == F_SIGNAL) {
        arm_signal(static_cast<uint64_t>(c.op.fa), static_cast<int>(c.op.fb));
    }
    int rc = 0;
    bool failed = false;
    try {
        rc = clingcon_main(static_cast<int>(argv.size()) - 1, argv.data());
    } catch (std::exception const &e) {
        HarnessScope h;
        failed = true;
        violation("error", std::string("command line tool ended with an exception: ") + e.what());
    }
    set_exit(nullptr);
    clear_alarm();
    g_virtual_signals = false;
    HarnessScope h;
    fflush(stdout);
    std::cout.flush();
    fflush(stderr);
    if (!failed) {
        judge_cli(rc);
    }
    g_cli = nullptr;
    g_result->prog_digest[0] = pr.digest;
}

void *prog_main(void *arg) {
    auto &pr = *static_cast<ProgRun *>(arg);
    set_root();
    if (pr.p->delay > 0) {
        wait_tick(tick() + static_cast<uint64_t>(pr.p->delay));
    }
    run_program(pr);
    return nullptr;
}

ProgRun *new_run(Case const &c, int i) {
    HarnessScope h;
    auto *pr = new ProgRun();
    pr->p = &c.progs[i];
    pr->index = i;
    return pr;
}

void case_main(void *arg) {
    auto const &c = *static_cast<Case const *>(arg);
    if (c.cli) {
        run_cli(*new_run(c, 0), c);
        return;
    }
    if (c.progs.size() == 1) {
        auto *pr = new_run(c, 0);
        run_program(*pr);
        if ((oom_fired() || pr->add_failed) && g_result->status != ST_VIOLATION) {
            // afterwards a fresh theory object must work as if nothing had happened
            disarm_oom();
            auto *again = new_run(c, 0);
            again->fault_free = true;
            again->digest = pr->digest;
            run_program(*again);
        }
        return;
    }
    std::vector<ProgRun *> runs;
    std::vector<pthread_t> threads(c.progs.size());
    for (size_t i = 0; i < c.progs.size(); ++i) {
        runs.push_back(new_run(c, static_cast<int>(i)));
    }
    bool concurrent = c.progs[0].delay % 2 == 0;
    if (concurrent) {
        for (size_t i = 0; i < runs.size(); ++i) {
            pthread_create(&threads[i], nullptr, prog_main, runs[i]);
        }
        for (auto &t : threads) {
            pthread_join(t, nullptr);
        }
    } else {
        // interleave the steps of all programs in one thread
        std::vector<bool> alive(runs.size());
        for (size_t i = 0; i < runs.size(); ++i) {
            alive[i] = setup(*runs[i]);
        }
        size_t most = 0;
        for (auto const &p : c.progs) {
            most = std::max(most, p.steps.size());
        }
        for (size_t k = 0; k < most; ++k) {
            for (size_t i = 0; i < runs.size(); ++i) {
                if (alive[i] && k < c.progs[i].steps.size()) {
                    run_step(*runs[i], static_cast<int>(k));
                    if (k + 1 == c.progs[i].steps.size()) {
                        teardown(*runs[i]);
                    }
                }
            }
        }
        for (auto *r : runs) {
            teardown(*r);
        }
    }
}

} // namespace

bool class_enabled(std::string const &profile, std::string const &cls) {
    (void)profile;
    (void)cls;
    return true;
}

// Clasp runs the propagator again while it cleans up and terminates if that
// fails. The library reports the failure correctly in such cases.
[[noreturn]] void on_terminate() {
    auto const *type = abi::__cxa_current_exception_type();
    if (oom_fired() && type != nullptr && strstr(type->name(), "ClingoError") != nullptr) {
        fatal("limit", "clasp terminated because the propagator failed during clean-up");
    }
    abort();
}

void execute(Case const &c, Result *res) {
    std::set_terminate(on_terminate);
    g_result = res;
    g_case = &c;
    set_fatal(on_fatal);
    run(c.sched, case_main, const_cast<Case *>(&c));
    finish();
}

} // namespace sim
