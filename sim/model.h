// Workload model: generated programs and histories, their text, and the
// executable reference semantics they are judged against.
#ifndef SIM_MODEL_H
#define SIM_MODEL_H

#include "rt.h"
#include <iosfwd>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace sim {

using i64 = int64_t;
using i128 = __int128;

enum TKind { T_SUM, T_DIFF, T_NSUM, T_DOM, T_DISTINCT, T_DISJOINT, T_MIN, T_MAX, T_SHOW, T_RAW, T_COUNT };
enum Rel { R_LE, R_GE, R_LT, R_GT, R_EQ, R_NE };

struct LTerm {
    i64 co;
    int var; // -1: constant
    bool operator==(LTerm const &o) const { return co == o.co && var == o.var; }
};

struct TAtom {
    int kind = T_SUM;
    std::vector<LTerm> terms; // sum, diff, min, max, disjoint (duration, var), show (kind, var), nsum: linear part
    int rel = R_LE;
    i64 rhs = 0;
    i64 nco = 0; // nsum: coefficient of va*vb
    int va = -1, vb = -1;
    int var = -1;                             // dom
    std::vector<std::pair<i64, i64>> ivs;     // dom
    std::vector<std::vector<LTerm>> elems;    // distinct
    uint32_t sugar = 0;                       // spelling
    std::string raw;                          // raw text (malformed input)
};

struct BLit {
    int sign = 0; // 0 a, 1 not a, 2 not not a
    int atom = -1;
    int theory = -1; // index into Program::tatoms
};

enum HKind { H_NONE, H_ATOM, H_CHOICE, H_EXTERNAL, H_THEORY };

struct Rule {
    int head = H_NONE;
    int atom = -1;   // atom or theory atom index
    std::vector<BLit> body;
};

enum OKind { O_SOLVE, O_EXTERNAL, O_RELEASE, O_THREADS, O_CLEANUP, O_CONF };
enum SMode { S_SYNC = 0, S_YIELD = 1, S_ASYNC = 2, S_ASYNC_YIELD = 3 };

struct Op {
    int kind = O_SOLVE;
    int a = 0, b = 0;             // external: atom, value; threads: n
    int mode = S_SYNC;
    int limit = 0;                // number of models
    std::vector<int> assume;      // +-(atom+1)
    int fault = -1;
    i64 fa = 0, fb = 0;           // fault parameters
    std::string key, val;         // conf
};

struct Step {
    std::vector<Rule> rules;
    std::vector<Op> ops;
    int fault = -1; // fault while loading/grounding the step
    i64 fa = 0;
};

//! One attempt to configure a theory in an alternative way.
struct Alt {
    int kind = 0;         // 0: set option, 1: validate
    bool ok = true;       // whether the value must be accepted
    bool extra = false;   // may be left out without changing the meaning
    i64 fault = -1;       // allocation failure
    std::string key, val;
};

struct Program {
    i64 min_int = -4, max_int = 5;
    bool set_range = true;
    std::vector<std::string> vars;
    std::vector<std::string> atoms;
    std::vector<TAtom> tatoms;
    std::vector<Step> steps;
    std::vector<std::pair<std::string, std::string>> options; // clingcon options
    std::vector<Alt> alt;                                     // alternative way to set the options and range
    int alt_mode = 0;                                         // 0: configure, 1: options of an application
    std::vector<std::string> args;                            // clasp arguments
    std::vector<i64> hidden; // values of a known solution: atoms then variables (empty if none)
    std::vector<int> hidden_atoms;
    bool expect_error = false; // contains malformed input
    int delay = 0;             // start delay (multi-program cases)
};

struct Case {
    std::string profile;
    uint64_t seed = 0;
    std::vector<Program> progs;
    SchedConfig sched;
    bool cli = false;
    std::vector<std::string> cli_args;
};

// ---- text
// bind: if given, collects body literals that bind variables used in the atom
std::string render_tatom(Program const &p, TAtom const &t, std::string *bind = nullptr);
std::string render_rule(Program const &p, Rule const &r);
std::string render_step(Program const &p, Step const &s);

// ---- serialisation
void write_case(std::ostream &out, Case const &c);
bool read_case(std::istream &in, Case &c, std::map<std::string, std::string> &meta);

// ---- reference semantics
struct Solution {
    uint64_t atoms = 0;
    std::vector<i64> vals; // indexed by variable; only meaningful for present variables
    bool operator<(Solution const &o) const { return atoms != o.atoms ? atoms < o.atoms : vals < o.vals; }
    bool operator==(Solution const &o) const { return atoms == o.atoms && vals == o.vals; }
};

struct RefState {
    int step = 0;                 // accumulated up to and including this step
    std::map<int, int> externals; // atom -> 0,1,2
};

struct Reference {
    Program const &p;
    explicit Reference(Program const &p) : p{p} {}

    //! Variables existing after the given step.
    std::vector<bool> present(int step) const;
    //! True if a rule mentioning the variable matters in the given solution.
    //! Otherwise, the variable might have been simplified away.
    bool relevant(int step, int var, Solution const &s) const;
    bool holds(TAtom const &t, std::vector<i64> const &vals) const;
    //! Check one candidate; derived atoms must match exactly.
    bool check(RefState const &st, Solution const &s, std::string *why = nullptr) const;
    //! Enumerate all solutions (sorted); nullopt if too many candidates.
    std::optional<std::vector<Solution>> solutions(RefState const &st, size_t cap) const;
    bool has_objective(int step) const;
    i64 objective(int step, std::vector<i64> const &vals) const;
    std::vector<bool> shown(int step) const;
    //! Atoms defined up to the step.
    uint64_t defined(int step) const;
};

bool satisfies(Solution const &s, std::vector<int> const &assume);

} // namespace sim
#endif
