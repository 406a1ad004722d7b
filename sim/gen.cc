#include <map>
#include "gen.h"

#include <algorithm>
#include <cmath>
#include <functional>

namespace sim {

namespace {

constexpr i64 LIMIT = 1073741823; // 2^30-1

struct Knobs {
    int steps_lo = 1, steps_hi = 1;
    int obj = 12;        // percent of programs with an objective
    int threads = 45;    // percent of programs with more than one thread
    int tmax = 3;
    int opts = 60;       // percent with options
    int args = 50;       // percent with extra clasp arguments
    int nsum = 6, distinct = 8, disjoint = 8, dom = 25;
    int show = 5;
    int wide = 10;       // percent of programs at large offsets
    int heavy = 4;       // percent of constraints with large coefficients
    int hidden = 12;     // percent with a planted solution and large domains
    int fault = 0;       // percent of solves with a fault
    std::vector<int> faults;
    int limit = 25;      // percent of solves with a model limit
    int ext = 50;
    int assume = 20;
    int reconf = 15;
    int modes = 50;      // percent of solves in other modes
    size_t cap = 250;    // bound on the number of solutions
    int translate_opt = 15;
    int names = 50;
    int bigprog = 20;
    bool alt = false; // configure the theory in an alternative way
    int reopt = 0;  // percent of solves preceded by changes of options
    int sugar = 40; // percent of atoms spelled in unusual ways
};

char const *const names_plain[] = {"x", "y", "z", "u", "v", "w", "x1", "x2", "x3", "x4", "x5", "x6",
                                   "y1", "y2", "y3", "y4", "y5", "y6", "z1", "z2", "z3", "z4"};
char const *const names_odd[] = {"f(1)", "f(2)", "g(a,2)", "(1,2)", "f(f(1))", "h(1,2)", "g(b,2)", "f(-1)", "p((1,),2)",
                                 "\"q\"", "f(\"s\")", "h(1,2,3)", "t(x)", "f(x)", "f(-a)", "\"a\\\"b\\\\\"", "g(-f(1),(2,-3))"};

//! Further allocations failing after the first one (see arm_oom).
i64 sticky(Rng &r) {
    if (!r.chance(1, 3)) {
        return 0;
    }
    return static_cast<i64>(1 + r.below(uint64_t(1) << r.below(9))) << 32;
}

struct Gen {
    Rng r;
    Knobs k;
    Program p;
    int cur_step = 0;
    std::vector<int> vstep;
    std::vector<int> astep;
    std::vector<i64> lo, hi; // ranges used for picking reference values
    bool hidden = false;
    bool wide = false;
    bool tower = false;
    int externals_n = 0;

    Gen(uint64_t seed, Knobs k) : r{seed}, k{std::move(k)} {}

    bool pct(int n) { return r.chance(static_cast<unsigned>(n), 100); }

    std::vector<int> known_vars() {
        std::vector<int> v;
        for (size_t i = 0; i < vstep.size(); ++i) {
            if (vstep[i] <= cur_step) {
                v.push_back(static_cast<int>(i));
            }
        }
        return v;
    }

    int pick_var() {
        auto v = known_vars();
        return v[r.below(v.size())];
    }

    i64 pick_val(int v) { return r.range(lo[v], hi[v]); }

    i64 pick_co() {
        static int const cos[] = {1, 1, 1, 1, -1, -1, -1, 2, -2, 3, -3, 4, 5, -5, 7, -6};
        return cos[r.below(16)];
    }

    std::vector<i64> sample() {
        if (hidden && pct(80)) {
            return p.hidden;
        }
        std::vector<i64> s;
        for (size_t v = 0; v < p.vars.size(); ++v) {
            s.push_back(pick_val(static_cast<int>(v)));
        }
        return s;
    }

    static i128 eval(std::vector<LTerm> const &ts, std::vector<i64> const &vals) {
        i128 x = 0;
        for (auto const &t : ts) {
            x += t.var < 0 ? i128(t.co) : i128(t.co) * vals[t.var];
        }
        return x;
    }

    std::vector<LTerm> lterms(int n) {
        std::vector<LTerm> ts;
        int last = -1;
        i64 lastco = 0;
        for (int i = 0; i < n; ++i) {
            int v = pick_var();
            if (last >= 0 && v == last && !pct(15)) {
                v = pick_var();
            }
            i64 co = pick_co();
            if (i > 0 && pct(30)) {
                co = pct(50) ? -lastco : lastco;
            }
            if (pct(1)) {
                co = 0;
            }
            ts.push_back({co, v});
            last = v;
            lastco = co;
        }
        if (pct(5)) {
            ts.push_back({r.range(-3, 3), -1});
        }
        return ts;
    }

    int add_tatom(TAtom t) {
        t.sugar = pct(k.sugar) ? static_cast<uint32_t>(r.next() | 1) : 0;
        p.tatoms.push_back(std::move(t));
        return static_cast<int>(p.tatoms.size()) - 1;
    }

    i64 slack() { return pct(50) ? 0 : r.range(-2, 2); }

    TAtom linear(bool body) {
        TAtom t;
        for (int tries = 0; tries < 20; ++tries) {
            t = TAtom{};
            t.kind = T_SUM;
            int n = 1;
            switch (r.below(8)) {
                case 0: n = 1; break;
                case 1:
                case 2:
                case 3: n = 2; break;
                case 4:
                case 5: n = 3; break;
                case 6: n = 4; break;
                default: n = static_cast<int>(r.range(1, hidden ? 8 : 5)); break;
            }
            t.terms = lterms(n);
            if (wide && tries < 10 && pct(50)) {
                // arbitrary coefficients as long as the bound is in range
                if (pct(30)) {
                    t.terms[r.below(t.terms.size())].co = pct(50) ? r.range(-LIMIT, LIMIT) : pct(50) ? LIMIT : -LIMIT;
                }
            } else if (wide && n > 1) {
                t.terms.resize(2);
                t.terms[0].co = 1;
                t.terms[1].co = -1;
                if (t.terms[1].var < 0) {
                    t.terms[1].var = pick_var();
                }
            } else if (wide) {
                t.terms[0].co = pct(50) ? 1 : -1;
            }
            i64 spread = 0;
            if (!wide && pct(k.heavy)) {
                spread = make_heavy(t.terms);
            }
            static int const rels[] = {R_LE, R_LE, R_LE, R_GE, R_GE, R_LT, R_GT, R_EQ, R_NE, R_NE};
            t.rel = rels[r.below(10)];
            if (!body && t.rel == R_NE && pct(30)) {
                t.rel = R_LE;
            }
            // the coefficients of a variable are summed up
            std::map<int, i128> cos;
            bool fits = true;
            for (auto const &e : t.terms) {
                cos[e.var] += e.co;
                fits = fits && cos[e.var] >= -LIMIT && cos[e.var] <= LIMIT;
            }
            if (!fits) {
                continue;
            }
            i128 x = eval(t.terms, sample()) + slack() + (spread != 0 ? r.range(-spread, spread) : 0);
            if (spread != 0 && (x < -LIMIT || x > LIMIT) && pct(50)) {
                x = pct(50) ? r.range(-LIMIT, LIMIT) : x < 0 ? -LIMIT + r.range(1, 5) : LIMIT - r.range(1, 5);
            }
            // constants are subtracted from the bound, strict bounds are shifted by one
            i128 y = x;
            for (auto const &e : t.terms) {
                y -= e.var < 0 ? e.co : 0;
            }
            if (x >= -LIMIT && x <= LIMIT && y > -LIMIT && y < LIMIT) {
                t.rhs = static_cast<i64>(x);
                if (!wide && pct(2)) {
                    t.rhs = r.range(-100, 100);
                }
                return t;
            }
        }
        t.rhs = 0;
        t.terms = {{1, pick_var()}, {-1, pick_var()}};
        return t;
    }

    // coefficients close to the limits; returns their magnitude
    i64 make_heavy(std::vector<LTerm> &terms) {
        i64 spread = 0;
        for (auto &e : terms) {
            if (e.var >= 0 && pct(80)) {
                i64 co = pct(30) ? LIMIT - r.range(0, 5) : (i64(1) << r.range(20, 29)) + r.range(-20, 20);
                e.co = pct(70) ? co : -co;
                spread = std::max(spread, co);
            }
        }
        return pct(50) ? spread : pct(50) ? spread / 2 : 0;
    }

    TAtom diff() {
        TAtom t;
        t.kind = T_DIFF;
        t.terms = {{1, pick_var()}, {1, pick_var()}};
        if (!wide && pct(15)) {
            t.terms[r.below(2)] = {0, -1};
        }
        auto s = sample();
        auto v = [&](LTerm const &x) { return x.var < 0 ? x.co : s[x.var]; };
        t.rhs = std::max(-LIMIT, std::min(LIMIT, v(t.terms[0]) - v(t.terms[1]) + slack()));
        return t;
    }

    TAtom nsum() {
        TAtom t;
        t.kind = T_NSUM;
        t.va = pick_var();
        t.vb = pct(15) ? t.va : pick_var();
        t.nco = pick_co();
        if (pct(60)) {
            t.terms = {{pick_co(), pick_var()}};
        }
        if (pct(3)) {
            t.va = t.vb = -1;
            t.terms = {{pick_co(), pick_var()}};
        }
        t.rel = static_cast<int>(r.below(6));
        auto s = sample();
        i64 spread = 0;
        if (!wide && pct(k.heavy)) {
            spread = make_heavy(t.terms);
            if (pct(50)) {
                t.nco = pct(50) ? LIMIT - r.range(0, 5) : -(i64(1) << r.range(20, 29)) + r.range(-20, 20);
            }
        }
        i128 x = eval(t.terms, s) + slack() + (spread != 0 ? r.range(-spread, spread) : 0);
        if (t.va >= 0) {
            x += i128(t.nco) * s[t.va] * s[t.vb];
        }
        if (x < -LIMIT || x > LIMIT) {
            x = r.range(-1000, 1000);
        }
        t.rhs = static_cast<i64>(x);
        return t;
    }

    TAtom dom(int v) {
        TAtom t;
        t.kind = T_DOM;
        t.var = v;
        int n = static_cast<int>(r.range(1, 3));
        if (pct(4)) {
            n = 0;
        }
        for (int i = 0; i < n; ++i) {
            i64 a = pick_val(v), b = pct(40) ? a : pick_val(v);
            if (a > b && !pct(6)) {
                std::swap(a, b);
            }
            if (pct(8)) {
                a -= r.range(1, 4);
            }
            if (pct(8)) {
                b += r.range(1, 4);
            }
            a = std::max(a, -LIMIT);
            b = std::min(b, LIMIT);
            t.ivs.emplace_back(a, b);
        }
        if (hidden && !t.ivs.empty()) {
            t.ivs[0] = {p.hidden[v] - static_cast<i64>(r.below(5)), p.hidden[v] + static_cast<i64>(r.below(5))};
        }
        return t;
    }

    TAtom distinct() {
        TAtom t;
        t.kind = T_DISTINCT;
        int n = static_cast<int>(r.range(2, hidden ? 5 : 4));
        for (int i = 0; i < n; ++i) {
            std::vector<LTerm> e;
            switch (r.below(6)) {
                case 0: e = {{pick_co(), pick_var()}, {r.range(-2, 2), -1}}; break;
                case 1:
                    if (wide || pct(35)) {
                        e = {{1, pick_var()}, {pct(50) ? 1 : -1, pick_var()}};
                        break;
                    }
                    for (int m = pct(20) ? 3 : 2; m > 0; --m) {
                        e.push_back({(pct(50) ? 1 : -1) * (pct(70) ? 1 : r.range(2, 3)), pick_var()});
                    }
                    if (pct(30)) {
                        e.push_back({r.range(-3, 3), -1});
                    }
                    break;
                case 2:
                    if (pct(40)) {
                        e = {{r.range(-3, 5), -1}};
                        break;
                    }
                    [[fallthrough]];
                default: e = {{1, pick_var()}}; break;
            }
            t.elems.push_back(std::move(e));
        }
        return t;
    }

    TAtom disjoint() {
        TAtom t;
        t.kind = T_DISJOINT;
        auto vs = known_vars();
        int n = static_cast<int>(r.range(2, 4));
        int huge = wide && pct(30) ? 80 : 20;
        if (tower && std::max(vstep[1], vstep[2]) <= cur_step && pct(80)) {
            // tasks filling the whole range
            t.terms.push_back({LIMIT - r.range(0, 3), 0});
            t.terms.push_back({LIMIT - r.range(0, 3), 1});
            t.terms.push_back({pct(50) ? r.range(1, 9) : LIMIT - r.range(0, 9), 2});
            for (size_t i = 2; i > 0; --i) {
                std::swap(t.terms[i], t.terms[r.below(i + 1)]);
            }
            return t;
        }
        for (int i = 0; i < n && !vs.empty(); ++i) {
            auto j = r.below(vs.size());
            i64 co = pct(6) ? r.range(-1, 0) : r.range(1, 3);
            if (wide && pct(huge > 20 ? 90 : 60)) {
                // large intervals that (nearly) touch the next one
                co = pct(huge) ? LIMIT - r.range(0, 2) : std::abs(pick_val(vs[j]) - pick_val(pick_var())) + r.range(-1, 1);
                co = std::max<i64>(-1, std::min(co, LIMIT));
            }
            t.terms.push_back({co, vs[j]});
            if (!pct(6)) {
                vs.erase(vs.begin() + static_cast<long>(j));
            }
        }
        return t;
    }

    std::vector<int> known_atoms() {
        std::vector<int> v;
        for (size_t i = 0; i < astep.size(); ++i) {
            if (astep[i] >= 0 && astep[i] <= cur_step) {
                v.push_back(static_cast<int>(i));
            }
        }
        return v;
    }

    TAtom body_tatom() {
        if (pct(k.nsum)) {
            return nsum();
        }
        return pct(12) ? diff() : linear(true);
    }

    BLit atom_lit() {
        auto as = known_atoms();
        BLit l;
        l.atom = as[r.below(as.size())];
        l.sign = pct(35) ? 1 : pct(10) ? 2 : 0;
        return l;
    }

    BLit theory_lit() {
        BLit l;
        if (!p.tatoms.empty() && pct(8)) {
            // constraints shared by several rules
            auto i = r.below(p.tatoms.size());
            auto kind = p.tatoms[i].kind;
            if (kind == T_SUM || kind == T_DIFF || kind == T_NSUM) {
                l.theory = static_cast<int>(i);
            }
        }
        if (l.theory < 0) {
            l.theory = add_tatom(body_tatom());
        }
        l.sign = pct(25) ? 1 : pct(8) ? 2 : 0;
        return l;
    }

    int new_atom() {
        if (p.atoms.size() >= 24) {
            return -1;
        }
        static char const *const nm[] = {"a", "b", "c", "d", "e", "p(1)", "p(2)", "q(a)", "r", "s"};
        auto i = p.atoms.size();
        p.atoms.push_back(i < 10 ? nm[i] : "k(" + std::to_string(i) + ")");
        astep.push_back(-1);
        return static_cast<int>(i);
    }

    Step &step() { return p.steps[cur_step]; }

    //! Add a rule unless it excludes the planted solution.
    void add(Rule rule) {
        step().rules.push_back(std::move(rule));
        if (hidden && !hidden_ok()) {
            step().rules.pop_back();
        }
    }

    bool hidden_ok() {
        Reference ref{p};
        RefState st;
        st.step = cur_step;
        Solution s;
        s.vals = p.hidden;
        s.atoms = 0;
        for (size_t a = 0; a < p.hidden_atoms.size(); ++a) {
            if (p.hidden_atoms[a] != 0) {
                s.atoms |= uint64_t(1) << a;
            }
        }
        return ref.check(st, s);
    }

    void set_hidden(int atom, bool v) {
        p.hidden_atoms.resize(p.atoms.size(), 0);
        p.hidden_atoms[atom] = v ? 1 : 0;
    }

    void choice() {
        int a = new_atom();
        if (a < 0) {
            return;
        }
        set_hidden(a, pct(50));
        astep[a] = cur_step;
        step().rules.push_back({H_CHOICE, a, {}});
    }

    void external() {
        int a = new_atom();
        if (a < 0) {
            return;
        }
        set_hidden(a, false);
        astep[a] = cur_step;
        step().rules.push_back({H_EXTERNAL, a, {}});
        ++externals_n;
    }

    void derived() {
        int n = static_cast<int>(r.range(1, 2));
        int a = new_atom();
        if (a < 0) {
            return;
        }
        std::vector<Rule> rules;
        for (int i = 0; i < n; ++i) {
            Rule x{H_ATOM, a, {}};
            int m = static_cast<int>(r.range(1, 2));
            for (int j = 0; j < m; ++j) {
                if (!known_atoms().empty() && pct(40)) {
                    x.body.push_back(atom_lit());
                } else {
                    x.body.push_back(theory_lit());
                }
            }
            rules.push_back(std::move(x));
        }
        set_hidden(a, false);
        for (auto &x : rules) {
            step().rules.push_back(x);
        }
        if (hidden && !hidden_ok()) {
            set_hidden(a, true);
            if (!hidden_ok()) {
                // cannot happen: derived atoms are functional
                for (size_t i = 0; i < rules.size(); ++i) {
                    step().rules.pop_back();
                }
                set_hidden(a, false);
                return;
            }
        }
        astep[a] = cur_step;
    }

    void head_rule() {
        Rule x;
        x.head = H_THEORY;
        TAtom t;
        if (pct(k.dom)) {
            t = dom(pick_var());
        } else if (pct(k.distinct)) {
            t = distinct();
        } else if (pct(k.disjoint)) {
            t = disjoint();
        } else if (pct(k.nsum)) {
            t = nsum();
        } else if (pct(10)) {
            t = diff();
        } else {
            t = linear(false);
        }
        x.atom = add_tatom(t);
        int n = static_cast<int>(r.below(3));
        for (int j = 0; j < n; ++j) {
            if (!known_atoms().empty() && pct(65)) {
                x.body.push_back(atom_lit());
            } else if (pct(50)) {
                x.body.push_back(theory_lit());
            }
        }
        add(std::move(x));
    }

    void integrity() {
        Rule x;
        x.head = H_NONE;
        int n = static_cast<int>(r.range(1, 3));
        bool th = false;
        for (int j = 0; j < n; ++j) {
            if (!known_atoms().empty() && pct(45)) {
                x.body.push_back(atom_lit());
            } else {
                x.body.push_back(theory_lit());
                th = true;
            }
        }
        if (!th) {
            x.body.push_back(theory_lit());
        }
        add(std::move(x));
    }

    void objective() {
        TAtom t;
        t.kind = pct(50) ? T_MIN : T_MAX;
        auto vs = known_vars();
        int n = static_cast<int>(r.range(1, 4));
        for (int i = 0; i < n && !vs.empty(); ++i) {
            auto j = r.below(vs.size());
            i64 co = pick_co();
            if (wide) {
                co = i % 2 == 0 ? 1 : -1;
            }
            t.terms.push_back({co, vs[j]});
            if (wide || !pct(10)) {
                vs.erase(vs.begin() + static_cast<long>(j));
            }
        }
        if (wide && t.terms.size() % 2 == 1 && t.terms.size() > 1) {
            t.terms.pop_back();
        }
        if (!wide && pct(k.heavy)) {
            make_heavy(t.terms);
            for (auto &e : t.terms) {
                e.co = e.co > LIMIT / 8 ? LIMIT / 8 : e.co < -LIMIT / 8 ? -LIMIT / 8 : e.co;
            }
        }
        if (pct(15) && !wide) {
            t.terms.push_back({r.range(-5, 5), -1});
        }
        // clingo merges equal theory atoms
        for (auto const &o : p.tatoms) {
            if (o.kind == t.kind) {
                auto x = o.terms, y = t.terms;
                auto lt = [](LTerm const &a, LTerm const &b) { return a.var != b.var ? a.var < b.var : a.co < b.co; };
                std::sort(x.begin(), x.end(), lt);
                std::sort(y.begin(), y.end(), lt);
                if (x == y) {
                    return;
                }
            }
        }
        step().rules.push_back({H_THEORY, add_tatom(t), {}});
    }

    void show() {
        TAtom t;
        t.kind = T_SHOW;
        int n = static_cast<int>(r.below(3));
        for (int i = 0; i < n; ++i) {
            int v = pick_var();
            bool fn = p.vars[v][0] != '"' && p.vars[v][0] != '(';
            t.terms.push_back({fn && pct(50) ? 1 : 0, v});
        }
        step().rules.push_back({H_THEORY, add_tatom(t), {}});
    }

    // make every variable bounded unconditionally (planted/wide cases)
    void bound(int v, i64 a, i64 b) {
        if (pct(50)) {
            TAtom t;
            t.kind = T_DOM;
            t.var = v;
            t.ivs = {{a, b}};
            step().rules.push_back({H_THEORY, add_tatom(t), {}});
            return;
        }
        TAtom t;
        t.kind = T_SUM;
        t.terms = {{1, v}};
        t.rel = R_LE;
        t.rhs = b;
        step().rules.push_back({H_THEORY, add_tatom(t), {}});
        t.rel = R_GE;
        t.rhs = a;
        step().rules.push_back({H_THEORY, add_tatom(t), {}});
    }

    void gen_options(int threads) {
        auto opt = [&](char const *key, std::string val) { p.options.emplace_back(key, std::move(val)); };
        auto yn = [&]() { return std::string(r.chance(1, 2) ? "yes" : "no"); };
        auto th = [&](std::string v) {
            return threads > 1 && r.chance(1, 3) ? v + "," + std::to_string(r.below(threads)) : v;
        };
        if (!pct(k.opts)) {
            return;
        }
        // full translations of large ranges just take long
        bool wide_range = wide || hidden || p.max_int - p.min_int > 20;
        auto some = [&]() { return r.chance(2, 5); };
        if (some()) {
            opt("shift-constraints", yn());
        }
        if (some()) {
            opt("sort-constraints", yn());
        }
        if (some()) {
            char const *const v[] = {"0", "1", "4", "1000", "1000,20", "20,60", "3,1000", wide_range ? "1000,1000" : "1000000,1000000"};
            opt("translate-clauses", v[r.below(8)]);
        }
        if (some()) {
            opt("literals-only", yn());
        }
        if (some()) {
            static char const *const v[] = {"0", "0.5", "1", "3", "100"};
            opt("translate-pb", v[r.below(5)]);
        }
        if (some()) {
            static char const *const v[] = {"0", "1", "5", "1000"};
            opt("translate-distinct", v[r.below(4)]);
        }
        if (some()) {
            opt("add-order-clauses", yn());
        }
        if (r.chance(1, 5)) {
            opt("check-solution", yn());
        }
        if (r.chance(1, 5)) {
            opt("check-state", yn());
        }
        for (int i = 0; i < 2; ++i) {
            if (r.chance(1, 4)) {
                opt("order-heuristic", th(r.chance(3, 4) ? "max-chain" : "none"));
            }
            if (r.chance(1, 4)) {
                static char const *const v[] = {"<", ">", "+", "-", "0", "3", "-2", ">=0", "7"};
                (void)v;
                opt("sign-value", th(k.alt && pct(40) ? (pct(50) ? "+" : "-") : std::to_string(r.range(-4, 6))));
            }
            if (r.chance(1, 4)) {
                opt("refine-reasons", th(yn()));
            }
            if (r.chance(1, 4)) {
                opt("refine-introduce", th(yn()));
            }
            if (r.chance(1, 4)) {
                opt("propagate-chain", th(yn()));
            }
            if (r.chance(1, 4)) {
                opt("split-all", th(yn()));
            }
            if (threads == 1 || r.chance(1, 2)) {
                break;
            }
        }
    }

    void gen_args(int threads) {
        auto &a = p.args;
        if (threads > 1) {
            a.push_back("-t");
            a.push_back(std::to_string(threads) + (r.chance(1, 2) ? "" : r.chance(1, 2) ? ",split" : ",compete"));
        }
        if (!pct(k.args)) {
            return;
        }
        static char const *const pool[] = {
            "--configuration=frumpy", "--configuration=jumpy", "--configuration=handy", "--configuration=crafty",
            "--configuration=trendy", "--configuration=tweety", "--rand-freq=0.2", "--rand-freq=0.7", "--seed=7",
            "--heuristic=Vsids", "--heuristic=Berkmin", "--heuristic=None", "--restarts=F,2",
            "--restarts=L,3", "--restarts=no", "--sign-def=rnd", "--sign-def=pos", "--sign-def=neg", "--sign-fix",
            "--save-progress=1", "--eq=0", "--deletion=basic,50", "--del-max=5", "--trans-ext=all",
            "--otfs=2", "--strengthen=local", "--update-lbd=less", "--reverse-arcs=2", "--init-watches=rnd",
            "--del-init=2,4", "--shuffle=1", "--counter-restarts=2"};
        int n = static_cast<int>(r.range(1, 3));
        std::vector<std::string> seen;
        for (int i = 0; i < n; ++i) {
            std::string s = pool[r.below(sizeof(pool) / sizeof(pool[0]))];
            auto key = s.substr(0, s.find('='));
            if (std::find(seen.begin(), seen.end(), key) != seen.end()) {
                continue;
            }
            seen.push_back(key);
            a.push_back(s);
        }
        // Note: With a fixed number of conflicts between restarts and a tiny
        // database of nogoods, the search of clasp does not have to terminate.
        if (std::find(a.begin(), a.end(), "--restarts=F,2") != a.end()) {
            a.erase(std::remove(a.begin(), a.end(), "--del-max=5"), a.end());
        }
        if (threads > 1 && r.chance(1, 4)) {
            static char const *const par[] = {"--distribute=all,100", "--integrate=all,1024,all", "--integrate=unsat,64",
                                              "--share=no", "--share=all", "--configuration=many"};
            std::string s = par[r.below(6)];
            if (s[2] != 'c' || std::find(seen.begin(), seen.end(), "--configuration") == seen.end()) {
                a.push_back(s);
            }
        }
    }

    //! Another way to arrive at the same configuration.
    void gen_alt(int threads) {
        static char const *const plain[] = {"shift-constraints", "sort-constraints", "literals-only", "translate-pb",
                                            "translate-distinct", "translate-opt", "add-order-clauses", "check-solution",
                                            "check-state", "translate-clauses"};
        static char const *const defs[] = {"yes", "yes", "no", "1", "1000", "0", "no", "yes", "no", "1000"};
        static char const *const multi[] = {"order-heuristic", "sign-value", "refine-reasons", "refine-introduce",
                                            "propagate-chain", "split-all"};
        static char const *const mdefs[] = {"none", "0", "yes", "yes", "yes", "no"};
        auto is_bool = [](std::string const &k) {
            return k == "shift-constraints" || k == "sort-constraints" || k == "literals-only" || k == "add-order-clauses" ||
                   k == "check-solution" || k == "check-state" || k == "refine-reasons" || k == "refine-introduce" ||
                   k == "propagate-chain" || k == "split-all";
        };
        bool api = pct(50);
        p.alt_mode = api ? 1 : 0;
        // other spellings of a value
        auto spell = [&](std::string const &k, std::string const &v) -> std::string {
            bool flag = std::find(std::begin(plain), std::end(plain), k) != std::end(plain) && is_bool(k);
            if (is_bool(k) && !(api && flag)) {
                static char const *const y[] = {"yes", "true", "1"}, *const n[] = {"no", "false", "0"};
                return v == "yes" ? y[r.below(3)] : n[r.below(3)];
            }
            if (k == "sign-value") {
                // beyond all values
                i64 hi = p.set_range && pct(50) ? p.max_int + 2 : LIMIT + 2;
                i64 lo = p.set_range && pct(50) ? p.min_int - 2 : -LIMIT - 2;
                i64 e = i64(1) << r.below(31);
                if (v == "+" && pct(70)) {
                    return std::to_string(pct(30) ? i64(2147483647) : std::min<i64>(2147483647, hi + static_cast<i64>(r.below(e))));
                }
                if (v == "-" && pct(70)) {
                    return std::to_string(pct(30) ? i64(-2147483648) : std::max<i64>(-2147483648, lo - static_cast<i64>(r.below(e))));
                }
                return v;
            }
            if (k == "translate-pb" && v.find('.') == std::string::npos && pct(50)) {
                return v + (pct(50) ? ".0" : "e0");
            }
            if (k == "translate-opt" && v == "max" && pct(50)) {
                return "4294967295";
            }
            return v;
        };
        auto other = [&](std::string const &k) -> std::string {
            if (is_bool(k)) {
                return pct(50) ? "yes" : "no";
            }
            if (k == "order-heuristic") {
                return pct(50) ? "none" : "max-chain";
            }
            if (k == "sign-value") {
                return pct(30) ? (pct(50) ? "+" : "-") : std::to_string(r.range(-9, 9));
            }
            if (k == "translate-clauses") {
                return std::to_string(r.below(30)) + "," + std::to_string(r.below(3000));
            }
            return std::to_string(r.below(30));
        };
        auto bad = [&](std::string const &k) -> std::string {
            static char const *const b[] = {"", "maybe", "y", "ye", "yess", "yes ", " yes", "Yes", "10", "01", "n", "t", "tru", "fals", "2", "-1", "yes,", ",", "no,no"};
            static char const *const n[] = {"", "x", "1x", "x1", " 1", "1 ", "1,", "1,1", "4294967296", "1.5", "--1", "ma", "maxx", "mi", ","};
            static char const *const i[] = {"", "x", "1x", " 1", "1 ", "2147483648", "-2147483649", "1.5", "--1", "ma", "mi", "maxx", "++", "--"};
            static char const *const d[] = {"", "x", "1.x", " 1", "1 ", "1e", "1,5", "e", "1.0.0", "ma", "minn"};
            static char const *const h[] = {"", "max", "max-chai", "max-chainn", "None", "no", "none ", "chain", ","};
            static char const *const th[] = {",", ",x", ",64", ",0,0", ", 0", ",0 ", ",4294967296", ",1x"};
            bool multi = false;
            std::string s;
            if (is_bool(k)) {
                s = b[r.below(sizeof(b) / sizeof(b[0]))];
            } else if (k == "translate-pb") {
                return d[r.below(sizeof(d) / sizeof(d[0]))];
            } else if (k == "translate-clauses") {
                s = n[r.below(sizeof(n) / sizeof(n[0]))];
                if (s == "1,1" || pct(50)) {
                    static char const *const t[] = {"1,x", "1,", "1,2,3", ",1", "1 ,2", "1, 2", "x,1", "1,2147483648", "1,1.5", ",", "1,2 "};
                    s = t[r.below(sizeof(t) / sizeof(t[0]))];
                }
                return s;
            } else if (k == "order-heuristic") {
                s = h[r.below(sizeof(h) / sizeof(h[0]))];
            } else if (k == "sign-value") {
                s = i[r.below(sizeof(i) / sizeof(i[0]))];
            } else if (k == "min-int" || k == "max-int") {
                static char const *const m[] = {"1073741824", "-1073741824", "2147483647", "1073741825"};
                return pct(50) ? m[r.below(4)] : i[r.below(sizeof(i) / sizeof(i[0]))];
            } else {
                return n[r.below(sizeof(n) / sizeof(n[0]))];
            }
            for (auto const *x : multi_names()) {
                multi = multi || k == x;
            }
            if (multi && pct(50)) {
                if (pct(50)) {
                    s += "," + std::to_string(r.below(4));
                } else {
                    s = other(k) + th[r.below(sizeof(th) / sizeof(th[0]))];
                }
            }
            return s;
        };
        auto lookup = [&](std::string const &k, std::string def) {
            for (auto const &[key, v] : p.options) {
                if (key == k) {
                    def = v;
                }
            }
            return def;
        };
        // per option, the list of values to set
        std::vector<std::vector<Alt>> groups;
        std::vector<Alt> first; // values given and validated before
        auto entry = [&](std::string k, std::string v, bool extra = false) {
            Alt a;
            a.key = std::move(k);
            a.val = std::move(v);
            a.extra = extra;
            return a;
        };
        auto rejected = [&](std::string const &k) {
            bool flag = std::find(std::begin(plain), std::end(plain), k) != std::end(plain) && is_bool(k);
            auto a = entry(k, api && flag ? "" : bad(k), true);
            a.ok = false;
            return a;
        };
        auto flag = [&](std::string const &k) { return api && is_bool(k); };
        if (p.set_range) {
            for (int i = 0; i < 2; ++i) {
                std::vector<Alt> g;
                std::string key = i == 0 ? "min-int" : "max-int";
                if (pct(20)) {
                    g.push_back(entry(key, std::to_string(r.range(-LIMIT, LIMIT)), true));
                }
                g.push_back(entry(key, std::to_string(i == 0 ? p.min_int : p.max_int)));
                if (pct(20)) {
                    g.push_back(rejected(key));
                }
                groups.push_back(g);
            }
        }
        for (size_t i = 0; i < sizeof(plain) / sizeof(plain[0]); ++i) {
            std::string k = plain[i];
            std::string v = lookup(k, "");
            bool given = !v.empty();
            if (!given && !pct(25)) {
                continue;
            }
            std::vector<Alt> g;
            if (!given) {
                v = defs[i];
            }
            if (k == "translate-clauses") {
                // a missing second value keeps the previous one
                std::string total = "1000000";
                for (auto const &[key, w] : p.options) {
                    if (key == k && w.find(',') != std::string::npos) {
                        total = w.substr(w.find(',') + 1);
                    }
                }
                v = v.substr(0, v.find(','));
                if (pct(30)) {
                    g.push_back(entry(k, std::to_string(r.below(50)) + "," + total));
                    if (g.back().val != v + "," + total) {
                        g.push_back(entry(k, v));
                    }
                } else {
                    g.push_back(entry(k, v + "," + total));
                }
            } else {
                if (!flag(k) && pct(25)) {
                    g.push_back(entry(k, spell(k, other(k)), true));
                }
                g.push_back(entry(k, spell(k, v)));
            }
            groups.push_back(g);
        }
        for (size_t i = 0; i < sizeof(multi) / sizeof(multi[0]); ++i) {
            std::string k = multi[i];
            std::string glob = mdefs[i];
            std::vector<std::string> val(threads, glob);
            bool given = false;
            for (auto const &[key, v] : p.options) {
                if (key == k) {
                    given = true;
                    auto c = v.find(',');
                    if (c == std::string::npos) {
                        glob = v;
                        val.assign(threads, v);
                    } else {
                        val[std::stoi(v.substr(c + 1))] = v.substr(0, c);
                    }
                }
            }
            if (!given && !pct(25)) {
                continue;
            }
            std::vector<Alt> g;
            if (pct(40)) {
                // the value of all threads does not matter if each thread gets its own
                auto o = other(k);
                if (k != "order-heuristic" || o == "none") {
                    glob = o;
                }
            }
            bool need = glob != mdefs[i];
            if (!api) {
                // overwritten afterwards
                if (pct(25)) {
                    g.push_back(entry(k, spell(k, other(k)) + "," + std::to_string(r.below(4)), true));
                    need = true;
                }
                if (pct(25)) {
                    g.push_back(entry(k, spell(k, other(k)), true));
                    need = true;
                }
            }
            if (api && pct(10)) {
                first.push_back(entry(k, spell(k, other(k)), true));
                need = true;
            }
            if (api && pct(10)) {
                first.push_back(entry(k, spell(k, other(k)) + "," + std::to_string(r.below(4)), true));
                need = true;
            }
            if (need || pct(50)) {
                g.push_back(entry(k, spell(k, glob)));
            }
            for (int t = 0; t < threads; ++t) {
                if (val[t] != glob || pct(25)) {
                    if (!api && pct(20)) {
                        g.push_back(entry(k, spell(k, other(k)) + "," + std::to_string(t), true));
                    }
                    g.push_back(entry(k, spell(k, val[t]) + "," + std::to_string(t)));
                }
            }
            if (k != "order-heuristic" && pct(25)) {
                // threads that do not exist
                static int const th[] = {0, 1, 30, 62};
                g.push_back(entry(k, spell(k, other(k)) + "," + std::to_string(std::min(63, threads + th[r.below(4)])), true));
            }
            if (api) {
                // the order does not matter and repeating is an error
                for (size_t j = g.size(); j > 1; --j) {
                    std::swap(g[j - 1], g[r.below(j)]);
                }
                if (!g.empty() && pct(20)) {
                    auto const &x = g[r.below(g.size())];
                    auto c = x.val.find(',');
                    auto a = entry(k, spell(k, other(k)) + (c == std::string::npos ? "" : x.val.substr(c)), true);
                    a.ok = false;
                    g.push_back(a);
                }
            }
            groups.push_back(g);
        }
        for (auto &g : groups) {
            if (!g.empty() && pct(30) && !flag(g[0].key)) {
                g.insert(g.begin() + static_cast<long>(r.below(g.size() + 1)), rejected(g[0].key));
            }
        }
        // options left at their defaults
        for (int i = 0, n = static_cast<int>(r.below(4)); i < n; ++i) {
            std::string k = pct(50) ? plain[r.below(10)] : multi[r.below(6)];
            if (!flag(k)) {
                groups.push_back({rejected(k)});
            }
        }
        if (pct(30)) {
            static char const *const unknown[] = {"", "sign", "min_int", "minint", "sort-constraint", "sort-constraintss",
                                                  "Sort-constraints", "help", "refine", "translate", "split-all "};
            auto a = entry(unknown[r.below(11)], pct(50) ? "yes" : "1", true);
            a.ok = false;
            groups.push_back({a});
        }
        if (!first.empty()) {
            Alt a;
            a.kind = 1;
            a.extra = true;
            p.alt = std::move(first);
            p.alt.push_back(a);
        }
        // merge keeping the order within groups
        while (!groups.empty()) {
            auto j = r.below(groups.size());
            if (groups[j].empty()) {
                groups.erase(groups.begin() + static_cast<long>(j));
                continue;
            }
            p.alt.push_back(groups[j].front());
            groups[j].erase(groups[j].begin());
        }
        if (api && p.set_range && p.min_int < p.max_int && pct(15)) {
            // the options given so far take effect although the range is wrong
            auto a = entry("max-int", std::to_string(p.min_int - 1), true);
            if (p.min_int - 1 >= -LIMIT) {
                p.alt.push_back(a);
                a.kind = 1;
                a.ok = false;
                p.alt.push_back(a);
                p.alt.push_back(entry("max-int", std::to_string(p.max_int)));
            }
        }
        for (auto &a : p.alt) {
            if (a.kind == 0 && pct(8) && !flag(a.key)) {
                a.fault = static_cast<i64>(r.below(4)) | (pct(20) ? i64(1) << 32 : 0);
            }
        }
    }

    static std::vector<char const *> multi_names() {
        return {"order-heuristic", "sign-value", "refine-reasons", "refine-introduce", "propagate-chain", "split-all"};
    }

    Op solve_op(bool last) {
        Op o;
        o.kind = O_SOLVE;
        if (pct(k.modes)) {
            o.mode = static_cast<int>(r.below(4));
        }
        if (!last && pct(k.limit)) {
            o.limit = static_cast<int>(r.range(1, 3));
        }
        if (pct(k.assume)) {
            auto as = known_atoms();
            int n = static_cast<int>(r.range(1, 2));
            for (int i = 0; i < n && !as.empty(); ++i) {
                auto j = r.below(as.size());
                o.assume.push_back(pct(50) ? as[j] + 1 : -(as[j] + 1));
                as.erase(as.begin() + static_cast<long>(j));
            }
        }
        if (!last && !k.faults.empty() && pct(k.fault)) {
            o.fault = k.faults[r.below(k.faults.size())];
            switch (o.fault) {
                case F_INTERRUPT:
                case F_CANCEL: {
                    int e = static_cast<int>(r.range(5, 14));
                    o.fa = static_cast<i64>(r.below(uint64_t(1) << e));
                    if (o.fault == F_CANCEL) {
                        o.mode = pct(70) ? S_ASYNC : S_ASYNC_YIELD;
                        if (pct(30)) {
                            o.fa = 0;
                        }
                    }
                    break;
                }
                case F_MODELSTOP:
                case F_USERFAIL: o.fa = static_cast<i64>(r.below(4)); break;
                case F_ABANDON:
                    o.mode = pct(70) ? S_YIELD : S_ASYNC_YIELD;
                    o.fa = static_cast<i64>(r.below(4));
                    break;
                case F_OOM: {
                    int e = static_cast<int>(r.range(0, 11));
                    o.fa = static_cast<i64>(r.below(uint64_t(1) << e)) | sticky(r);
                    break;
                }
                default: break;
            }
        }
        return o;
    }

    size_t count(int st, bool &known) {
        Reference ref{p};
        RefState s;
        s.step = st;
        auto res = ref.solutions(s, 40000);
        known = res.has_value();
        return known ? res->size() : 0;
    }

    void gen() {
        hidden = pct(k.hidden);
        wide = !hidden && pct(k.wide);
        int steps = static_cast<int>(r.range(k.steps_lo, k.steps_hi));
        int nv = hidden ? static_cast<int>(r.range(4, 12)) : static_cast<int>(r.range(1, 5));
        if (!hidden && nv == 1 && pct(60)) {
            nv = 3;
        }
        // names
        std::vector<std::string> pool;
        bool odd = pct(k.names);
        for (auto const *n : names_plain) {
            pool.emplace_back(n);
        }
        if (odd) {
            for (auto const *n : names_odd) {
                pool.insert(pool.begin() + static_cast<long>(r.below(6)), n);
            }
        }
        for (int v = 0; v < nv; ++v) {
            auto j = r.below(std::min<size_t>(pool.size(), 10));
            p.vars.push_back(pool[j]);
            pool.erase(pool.begin() + static_cast<long>(j));
            vstep.push_back(v == 0 ? 0 : static_cast<int>(r.below(steps)));
        }
        if (!hidden && !wide) {
            double limit = 6000.0 / std::pow(2.0, 2);
            i64 w = std::max<i64>(2, static_cast<i64>(std::pow(limit, 1.0 / nv)));
            w = std::min<i64>(w, nv == 1 ? 40 : 25);
            w = r.range(std::max<i64>(1, w / 3), w);
            p.min_int = r.range(-w, 2);
            if (pct(10)) {
                p.min_int = r.range(-30, 30);
            }
            p.max_int = p.min_int + w;
            lo.assign(nv, p.min_int);
            hi.assign(nv, p.max_int);
        } else if (wide) {
            p.min_int = -LIMIT;
            p.max_int = LIMIT;
            p.set_range = pct(30);
            tower = nv >= 3 && pct(k.disjoint / 3);
            i64 w = std::max<i64>(2, static_cast<i64>(std::pow(1200.0, 1.0 / nv)));
            w = std::min<i64>(w, 20);
            for (int v = 0; v < nv; ++v) {
                i64 base = 0;
                switch (r.below(4)) {
                    case 0: base = -LIMIT; break;
                    case 1: base = LIMIT - w; break;
                    case 2: base = r.range(-LIMIT, LIMIT - w); break;
                    default: base = r.range(-20, 20); break;
                }
                if (tower && v < 3) {
                    base = v == 0 ? -LIMIT : v == 1 ? -w / 2 : LIMIT - w;
                }
                lo.push_back(base);
                hi.push_back(base + w);
            }
        } else {
            i64 w = pct(50) ? r.range(5, 60) : r.range(50, 5000);
            p.min_int = r.range(-w, 0);
            p.max_int = p.min_int + w;
            lo.assign(nv, p.min_int);
            hi.assign(nv, p.max_int);
            for (int v = 0; v < nv; ++v) {
                p.hidden.push_back(pick_val(v));
            }
        }
        bool obj = pct(k.obj);
        int obj_step = static_cast<int>(r.below(steps));
        int nchoice = 0;
        p.steps.resize(steps);
        if (hidden && steps == 1) {
            p.steps.resize(2); // last step pins the planted solution
        }
        auto total = static_cast<int>(p.steps.size());
        for (cur_step = 0; cur_step < total; ++cur_step) {
            bool pin = hidden && cur_step == total - 1;
            if (pin) {
                pin_step();
                break;
            }
            if (wide) {
                for (int v = 0; v < nv; ++v) {
                    if (vstep[v] == cur_step) {
                        bound(v, lo[v], hi[v]);
                    }
                }
            }
            int nc = static_cast<int>(r.below(hidden ? 4 : 3));
            for (int i = 0; i < nc && nchoice < (hidden ? 10 : 4); ++i, ++nchoice) {
                choice();
            }
            if (total > 1 && !hidden && pct(k.ext) && externals_n < 2) {
                external();
            }
            int nd = static_cast<int>(r.below(hidden ? 3 : 2));
            for (int i = 0; i < nd; ++i) {
                derived();
            }
            int n = hidden ? static_cast<int>(r.range(4, 14)) : static_cast<int>(r.range(1, 4));
            if (!hidden && pct(k.bigprog)) {
                n += 4;
            }
            for (int i = 0; i < n; ++i) {
                switch (r.below(3)) {
                    case 0: integrity(); break;
                    default: head_rule(); break;
                }
            }
            if (obj && (cur_step == obj_step || (cur_step > obj_step && pct(40)))) {
                objective();
            }
            if (pct(k.show)) {
                show();
            }
            if (!hidden) {
                for (int tries = 0; tries < 12; ++tries) {
                    bool known = false;
                    auto c = count(cur_step, known);
                    if (!known || c <= k.cap) {
                        break;
                    }
                    if (tries < 4 && pct(60)) {
                        head_rule();
                    } else {
                        // narrow one variable
                        TAtom t;
                        t.kind = T_SUM;
                        int v = pick_var();
                        t.terms = {{1, v}};
                        bool le = pct(50);
                        t.rel = le ? R_LE : R_GE;
                        t.rhs = le ? lo[v] + (hi[v] - lo[v]) / 3 : hi[v] - (hi[v] - lo[v]) / 3;
                        if (pct(30)) {
                            t.rel = R_EQ;
                            t.rhs = pick_val(v);
                        }
                        step().rules.push_back({H_THEORY, add_tatom(t), {}});
                    }
                }
            }
            gen_ops(cur_step == total - 1, obj);
        }
        int threads = 1;
        if (pct(k.threads)) {
            threads = static_cast<int>(r.range(2, k.tmax));
        }
        gen_options(threads);
        gen_args(threads);
        if (obj && total == 1 && pct(k.translate_opt)) {
            p.options.emplace_back("translate-opt", pct(50) ? "1000" : "20");
        }
        if (k.alt) {
            gen_alt(threads);
        }
        if (!hidden) {
            p.hidden_atoms.clear();
        } else {
            p.hidden_atoms.resize(p.atoms.size(), 0);
        }
    }

    void pin_step() {
        for (size_t v = 0; v < p.vars.size(); ++v) {
            TAtom t;
            t.kind = T_SUM;
            t.terms = {{1, static_cast<int>(v)}};
            t.rel = R_EQ;
            t.rhs = p.hidden[v];
            step().rules.push_back({H_THEORY, add_tatom(t), {}});
        }
        for (auto const &s : p.steps) {
            for (auto const &x : s.rules) {
                if (x.head == H_CHOICE) {
                    BLit l;
                    l.atom = x.atom;
                    l.sign = p.hidden_atoms[x.atom] != 0 ? 1 : 0;
                    Rule c;
                    c.head = H_NONE;
                    c.body = {l};
                    step().rules.push_back(c);
                }
            }
        }
        Op o;
        o.kind = O_SOLVE;
        step().ops.push_back(o);
    }

    void gen_ops(bool last_step, bool obj) {
        auto &ops = step().ops;
        int n = 1;
        if (p.steps.size() > 1 || k.fault > 0 || k.reconf > 20 || k.reopt > 20) {
            n = static_cast<int>(r.range(last_step ? 1 : 0, 2));
            if (k.fault > 0) {
                ++n;
            }
        }
        for (int i = 0; i < n; ++i) {
            bool last = last_step && i == n - 1;
            for (auto a : known_atoms()) {
                bool ext = false;
                for (auto const &s : p.steps) {
                    for (auto const &x : s.rules) {
                        ext = ext || (x.head == H_EXTERNAL && x.atom == a);
                    }
                }
                if (ext && pct(50)) {
                    Op o;
                    o.kind = O_EXTERNAL;
                    o.a = a;
                    o.b = static_cast<int>(r.below(3));
                    if (pct(8) && last_step) {
                        o.kind = O_RELEASE;
                    }
                    ops.push_back(o);
                }
            }
            if (pct(k.reconf) && (cur_step > 0 || i > 0)) {
                Op o;
                o.kind = O_THREADS;
                o.a = static_cast<int>(r.range(1, k.tmax));
                ops.push_back(o);
            }
            if (pct(k.reopt) && (cur_step > 0 || i > 0)) {
                // options changed while the theory is in use
                static char const *const keys[] = {
                    "shift-constraints", "sort-constraints", "translate-clauses", "literals-only", "translate-pb",
                    "translate-distinct", "add-order-clauses", "check-solution", "check-state", "order-heuristic",
                    "sign-value", "refine-reasons", "refine-introduce", "propagate-chain", "split-all"};
                for (int n = static_cast<int>(r.range(1, 3)); n > 0; --n) {
                    Op o;
                    o.kind = O_CONF;
                    std::string key = keys[r.below(15)];
                    o.key = "@" + key;
                    std::string th = r.chance(1, 3) ? "," + std::to_string(r.below(3)) : "";
                    bool wide_range = wide || hidden || p.max_int - p.min_int > 20;
                    if (key == "translate-clauses") {
                        static char const *const v[] = {"0", "1", "4", "1000", "1000,20", "20,60", "3,1000"};
                        o.val = v[r.below(7)];
                    } else if (key == "translate-pb") {
                        static char const *const v[] = {"0", "0.5", "1", "3", "100"};
                        o.val = v[r.below(wide_range ? 4 : 5)];
                    } else if (key == "translate-distinct") {
                        static char const *const v[] = {"0", "1", "5", "1000"};
                        o.val = v[r.below(4)];
                    } else if (key == "order-heuristic") {
                        o.val = (r.chance(1, 2) ? "max-chain" : "none") + th;
                    } else if (key == "sign-value") {
                        o.val = std::to_string(r.range(-4, 6)) + th;
                    } else {
                        o.val = r.chance(1, 2) ? "yes" : "no";
                        if (key.substr(0, 3) == "ref" || key == "propagate-chain" || key == "split-all") {
                            o.val += th;
                        }
                    }
                    ops.push_back(o);
                }
            }
            if (pct(10)) {
                Op o;
                o.kind = O_CLEANUP;
                ops.push_back(o);
            }
            auto o = solve_op(last && k.fault > 0);
            if (hidden && o.limit == 0 && !obj && o.fault != F_ABANDON) {
                o.limit = static_cast<int>(r.range(1, 4));
            }
            if (hidden && obj && o.limit == 0) {
                o.limit = static_cast<int>(r.range(1, 6));
            }
            ops.push_back(o);
        }
    }
};

Knobs knobs_for(std::string const &pr, Rng &r) {
    Knobs k;
    if (pr == "c01") {
        k.steps_hi = 2;
        k.hidden = 25;
        k.limit = 40;
    } else if (pr == "c02") {
        k.obj = 0;
        k.limit = 5;
        k.hidden = 5;
        k.threads = 55;
    } else if (pr == "c03") {
        k.obj = 100;
        k.steps_hi = r.chance(1, 3) ? 3 : 1;
        k.hidden = 10;
        k.threads = 60;
        k.limit = 15;
        k.cap = 400;
    } else if (pr == "c04") {
        k.reopt = 20;
        k.steps_lo = 2;
        k.steps_hi = 5;
        k.ext = 80;
        k.assume = 35;
        k.reconf = 35;
        k.obj = 25;
        k.cap = 120;
        k.opts = 45;
    } else if (pr == "c05") {
        k.steps_hi = 2;
        k.fault = 65;
        k.faults = {F_INTERRUPT, F_INTERRUPT, F_CANCEL, F_MODELSTOP, F_ABANDON};
        k.threads = 60;
        k.obj = 25;
        k.cap = 120;
        k.hidden = 10;
        k.reconf = 15;
    } else if (pr == "c06") {
        k.reopt = 50;
        k.heavy = 12;
        k.opts = 100;
        k.threads = 50;
        k.obj = 25;
        k.translate_opt = 40;
        k.hidden = 5;
        k.steps_hi = r.chance(1, 3) ? 3 : 1;
    } else if (pr == "c07") {
        k.distinct = 45;
        k.disjoint = 60;
        k.steps_hi = r.chance(1, 4) ? 2 : 1;
        k.hidden = 8;
        k.wide = 15;
    } else if (pr == "c08") {
        k.nsum = 65;
        k.wide = 6;
        k.hidden = 8;
        k.steps_hi = r.chance(1, 4) ? 2 : 1;
    } else if (pr == "c09") {
        k.dom = 80;
        k.steps_hi = r.chance(1, 3) ? 3 : 1;
        k.hidden = 5;
        k.wide = 20;
    } else if (pr == "c10") {
        k.threads = 100;
        k.tmax = 4;
        k.steps_hi = 2;
        k.reconf = 40;
        k.obj = 35;
        k.hidden = 25;
        k.cap = 100;
    } else if (pr == "c11") {
        k.show = 60;
        k.steps_hi = 3;
        k.threads = 40;
        k.cap = 60;
        k.names = 80;
    } else if (pr == "c12") {
        k.steps_lo = 1;
        k.steps_hi = 4;
        k.obj = 50;
        k.reconf = 35;
        k.cap = 40;
        k.fault = 25;
        k.faults = {F_INTERRUPT, F_MODELSTOP, F_ABANDON, F_CANCEL};
    } else if (pr == "c13") {
        k.steps_hi = 2;
        k.hidden = 45;
        k.threads = 50;
        k.fault = 25;
        k.faults = {F_INTERRUPT, F_MODELSTOP, F_ABANDON};
    } else if (pr == "c14") {
        k.steps_hi = 2;
        k.fault = 70;
        k.faults = {F_OOM, F_OOM, F_OOM, F_OOM, F_USERFAIL};
        k.obj = 25;
        k.cap = 60;
        k.hidden = 10;
    } else if (pr == "c15") {
        k.heavy = 15;
        k.wide = 60;
        k.steps_hi = 2;
        k.hidden = 0;
        k.cap = 60;
    } else if (pr == "c16") {
        k.steps_hi = 2;
        k.threads = 15;
        k.cap = 60;
        k.hidden = 8;
        k.opts = 80;
        k.obj = 20;
    } else if (pr == "c17") {
        k.hidden = 45;
        k.steps_hi = 2;
        k.threads = 60;
        k.tmax = 4;
        k.fault = 50;
        k.faults = {F_INTERRUPT, F_CANCEL, F_INTERRUPT};
        k.limit = 60;
    } else if (pr == "c19") {
        k.sugar = 100;
        k.names = 80;
        k.nsum = 15;
        k.distinct = 15;
        k.disjoint = 20;
        k.dom = 25;
        k.obj = 20;
        k.show = 15;
        k.steps_hi = r.chance(1, 3) ? 3 : 1;
        k.hidden = 8;
        k.cap = 100;
        k.fault = 15;
        k.faults = {F_OOM};
    } else if (pr == "c20") {
        k.reopt = 30;
        k.alt = true;
        k.opts = 85;
        k.threads = 25;
        k.reconf = 0;
        k.hidden = 25;
        k.distinct = 15;
        k.obj = 25;
        k.translate_opt = 40;
        k.steps_hi = r.chance(1, 3) ? 2 : 1;
        k.cap = 60;
    } else if (pr == "c18") {
        k.threads = 45;
        k.obj = 35;
        k.hidden = 0;
        k.show = 15;
        k.cap = r.chance(1, 6) ? 600 : 60;
        k.assume = 0;
        k.steps_hi = 1;
        k.translate_opt = 20;
    }
    return k;
}

// raw malformed statements (rendered as directive heads)
struct Bad {
    char const *text;
    bool needs_body;
};
char const *const bad_heads[] = {
    "&sum { 1073741824 * x } <= 3",
    "&sum { x } <= 1073741824",
    "&sum { x } <= -1073741824",
    "&sum { x } <= 2147483648",
    "&sum { 2147483647*x; 2147483647*x } <= 3",
    "&sum { 2147483648 * x } <= 3",
    "&sum { x } <= 2**40",
    "&sum { x } <= 2**31",
    "&sum { x } <= 65536*65536",
    "&sum { x } <= 2147483647+1",
    "&sum { x } <= -2147483647-2",
    "&sum { x*y } <= 3",
    "&sum { x } <= 1/0",
    "&sum { x } <= 1\\0",
    "&sum { x/2 } <= 3",
    "&sum { 2**x } <= 3",
    "&sum { 1.5 } <= 3",
    "&diff { x } <= 3",
    "&diff { x - y; z } <= 3",
    "&diff { 2*x - y } <= 3",
    "&diff { x - y } >= 3",
    "&diff { x + y } <= 3",
    "&diff { x - y } <= z",
    "&dom { 1..1073741824 } = x",
    "&dom { 1..3 } = 4",
    "&dom { x..3 } = x",
    "&dom { 1..3 } = 2*x",
    "&dom { 1..3 } = x+y",
    "&dom { a } = x",
    "&disjoint { x@y }",
    "&disjoint { 3@1 }",
    "&disjoint { x@1073741824 }",
    "&disjoint { x }",
    "&minimize { x*y }",
    "&minimize { 65536*65536 }",
    "&maximize { (65536*65536)*x }",
    "&minimize { x/y }",
    "&nsum { x*y*z } <= 3",
    "&nsum { x*y + y*z } <= 3",
    "&nsum { x*y + y + z } <= 3",
    "&nsum { 2147483648*x*y } <= 3",
    "&nsum { x*y } <= 2147483648",
    "&show { 3 }",
    "&show { x/y }",
    "&show { x+y }",
    "&distinct { x*y; 1 }",
    "&distinct { 2147483648*x; 1 }",
    "&sum { x } <= (-2147483647-1)/(-1)",
    "&sum { x } <= (-2147483647-1)\\(-1)",
    "&sum { x } <= -(-2147483647-1)",
    "&sum { x } <= 46341*46341",
    "&sum { x } <= (-46341)*46341",
    "&sum { x } <= (-2)**31-1",
    "&sum { x } <= 0**(-1)",
    "&sum { 1073741823*x; 1*x } <= 0",
    "&sum { 1073741823*x; 1073741823*x; 1073741823*x } <= 0",
    "&sum { (-1073741823)*x; -x } <= 0",
    "&sum { 1073741823; 1 } <= x",
    "&sum { 1073741823; 1073741823; 1073741823 } <= x",
    "&sum { -1073741823; -1 } <= x",
    "&sum { x; 3 } <= -1073741823",
    "&sum { x } != 1073741824",
    "&sum { x } = -1073741824",
    "&sum { x; -4 } > 1073741821",
    "&sum { 32768*(32768*x) } <= 1",
    "&sum { 65536*(65536*x) } <= 1",
    "&sum { f(1/0) } <= 1",
    "&sum { f(2147483647+1) } <= 1",
    "&sum { f(x*y) } <= 1",
    "&sum { (x+y)*(x+y) } <= 1",
    "&sum { [1,2] } <= 1",
    "&sum { {1,2} } <= 1",
    "&sum { --x } <= 1",
    "&sum { f(1..2) } <= 1",
    "&sum { x }",
    "&sum { x } <= y/z",
    "&diff { x }",
    "&diff { x - y }",
    "&diff { x - y } <= 1073741824",
    "&diff { x - y } <= 2147483648",
    "&diff { x - 3 } <= 1073741823",
    "&diff { 3 - 4 } <= 1073741824",
    "&diff { 2147483647+1 - x } <= 0",
    "&nsum { 1073741824*x*y } <= 3",
    "&nsum { x*y } <= 1073741824",
    "&nsum { x*y } != -1073741824",
    "&nsum { 65536*65536*x*y } <= 3",
    "&nsum { 1073741823*x*y; x*y } <= 3",
    "&nsum { 1073741823*x*y; 1073741823*x*y; 1073741823*x*y } <= 3",
    "&nsum { (x+y)*(x+y) } <= 1",
    "&nsum { x**2 } <= 1",
    "&nsum { x*y/z } <= 1",
    "&nsum { x*y; x*z } <= 1",
    "&nsum { x*x*x } <= 1",
    "&distinct { 1073741824; 1 }",
    "&distinct { 1073741823+1; x }",
    "&distinct { 2147483647+1; x }",
    "&distinct { 2147483647*x+x; y }",
    "&distinct { x/2; y }",
    "&disjoint { x@2147483648; y@1 }",
    "&disjoint { x@(1/0); y@1 }",
    "&disjoint { 2*x@1; y@1 }",
    "&dom { 1..2 }",
    "&dom { 1..2 } = 3+x",
    "&dom { 1..3 } = (4)",
    "&dom { 2147483647 } = x",
    "&dom { 1..2147483647 } = x",
    "&dom { -1073741824..1 } = x",
    "&dom { 1/0 } = x",
    "&dom { 1..2..3 } = x",
    "&dom { \"a\" } = x",
    "&minimize { x*y@1 }",
    "&minimize { x/2 }",
    "&maximize { x*y }",
    "&show { f/x }",
    "&show { f(1)/2 }",
    "&show { 1/2 }",
    "&show { x*y }",
    ":- &sum { x } <= 1073741824",
    ":- not &sum { x } <= -1073741824",
    ":- &sum { 1073741824 * x } <= 3",
    ":- not &sum { 2**31*x } <= 3",
    ":- &sum { x*y } <= 3",
    ":- not &sum { x/2 } <= 3",
    ":- &diff { x } <= 3",
    ":- not &diff { x + y } <= 3",
    ":- &diff { x - y } <= 1073741824",
    ":- &nsum { x*y*z } <= 3",
    ":- not &nsum { x*y; y; z } <= 3",
    ":- &nsum { 1073741824*x*y } <= 3",
    ":- not &nsum { x*y } <= 1073741824",
};

// A program with numbers whose true value is out of range although computing
// with 32 bit numbers that wrap around gives a small value.
std::string overflowing(Rng &r) {
    auto num = [](i64 n) { return n < 0 ? "(" + std::to_string(n) + ")" : std::to_string(n); };
    i64 t = r.range(-6, 6);
    t += t == 0 ? 1 : 0;
    i64 sign = r.chance(1, 2) ? 1 : -1;
    std::vector<std::string> parts;
    std::string product;
    {
        i64 a = r.range(i64(1) << 30, (i64(1) << 31) - 1);
        i64 b = r.range(i64(1) << 30, (i64(1) << 31) - 1);
        i64 c = (i64(1) << 32) + t - a - b;
        if (c > (i64(1) << 31) - 1) {
            a = b = (i64(1) << 31) - 8;
            c = (i64(1) << 32) + t - a - b;
        }
        parts = {num(sign * a), num(sign * b), num(sign * c)};
    }
    for (;;) {
        // invert an odd number modulo 2^32
        auto a = static_cast<uint32_t>(r.next()) | 1U;
        uint32_t inv = a;
        for (int i = 0; i < 5; ++i) {
            inv *= 2 - a * inv;
        }
        i64 x = static_cast<int32_t>(a);
        i64 y = static_cast<int32_t>(inv * static_cast<uint32_t>(t));
        if (x * y != t && x > -(i64(1) << 31) && y > -(i64(1) << 31)) {
            product = num(x) + "*" + num(y);
            break;
        }
    }
    static char const *const pows[] = {"65537**2", "3**21", "(-5)**15", "7**13", "11**11", "2**32", "4**16", "(-2)**35"};
    auto sum = [&]() {
        switch (r.below(5)) {
            case 0: return "(" + product + ")";
            case 1: return "(" + std::string(pows[r.below(8)]) + ")";
            case 2: return "(" + parts[0] + "-(0-" + parts[1] + ")+" + parts[2] + ")";
            default: return "(" + parts[0] + "+" + parts[1] + "+" + parts[2] + ")";
        }
    };
    // like terms
    auto like = [&](std::string const &x, std::string const &y) {
        std::string ret;
        for (size_t i = 0; i < parts.size(); ++i) {
            ret += (i > 0 ? "; " : "") + parts[i] + "*" + (r.chance(1, 2) ? x : y);
        }
        return ret;
    };
    static char const *const rels[] = {"<=", ">=", "=", "!=", "<", ">"};
    std::string rhs = std::string(" ") + rels[r.below(6)] + " " + std::to_string(r.range(-9, 9));
    std::string op = std::string(" ") + rels[r.below(6)] + " ";
    std::string atom;
    switch (r.below(18)) {
        case 0: atom = "&sum { " + like("x", "x") + " }" + rhs; break;
        case 1: atom = "&nsum { " + like("x*y", "y*x") + " }" + rhs; break;
        case 2: atom = "&nsum { " + like("x*x", "x*x") + "; y }" + rhs; break;
        case 3: atom = "&sum { " + sum() + "*x }" + rhs; break;
        case 4: atom = "&sum { y; " + product + "*x }" + rhs; break;
        case 5: atom = "&nsum { " + sum() + "*x*y }" + rhs; break;
        case 6: atom = "&nsum { " + product.substr(0, product.find('*')) + "*x*" + product.substr(product.find('*') + 1) + "*y }" + rhs; break;
        case 7: atom = "&sum { x }" + op + sum(); break;
        case 8: atom = "&nsum { x*y }" + op + sum(); break;
        case 9: atom = "&diff { x - y } <= " + sum(); break;
        case 10: atom = "&sum { x; " + parts[0] + "; " + parts[1] + "; " + parts[2] + " }" + rhs; break;
        case 11: atom = "&nsum { x*y; " + parts[0] + "; " + parts[1] + "; " + parts[2] + " }" + rhs; break;
        case 12: return "&minimize { " + like("x", "x") + " }";
        case 13: return "&maximize { " + sum() + "*x }";
        case 14: return "&distinct { " + sum() + "*x; y }";
        case 15: return "&distinct { " + parts[0] + "*x+" + parts[1] + "*x+" + parts[2] + "*x; y }";
        case 16: return "&disjoint { x@" + sum() + "; y@1 }";
        default: return r.chance(1, 2) ? "&dom { " + sum() + "..3 } = x" : "&dom { -3.." + sum() + " } = x";
    }
    return (r.chance(1, 3) ? (r.chance(1, 2) ? ":- " : ":- not ") : "") + atom;
}

// Turn the program into one for the command line tool.
void command_line(Case &c, Rng &r) {
    c.cli = true;
    auto &p = c.progs[0];
    p.steps.resize(1);
    auto &ops = p.steps[0].ops;
    Op o;
    o.kind = O_SOLVE;
    // number of models
    o.b = static_cast<int>(r.below(4));
    if (o.b == 3) {
        o.b = 1;
    }
    o.limit = o.b == 2 ? -1 : r.chance(2, 3) ? 0 : static_cast<int>(r.range(1, 3));
    // a signal or the time limit
    if (r.chance(45, 100)) {
        int e = static_cast<int>(r.range(5, 18));
        o.fa = static_cast<i64>((uint64_t(1) << e) + r.below(uint64_t(1) << e));
        o.fault = r.chance(2, 3) ? F_SIGNAL : F_TIMELIMIT;
        o.fb = r.chance(2, 3) ? 2 : 15;
        c.sched = gen_sched(r, true);
        if (o.fault == F_TIMELIMIT) {
            // one simulated second
            c.sched.tick_ns = static_cast<uint64_t>(std::max<i64>(1, 1000000000 / o.fa));
        }
    }
    ops.assign(1, o);
    auto arg = [&](std::string a) { c.cli_args.push_back(std::move(a)); };
    if (r.chance(1, 4)) {
        static char const *const more[] = {"-q0", "-q1", "-q2", "--stats", "--stats=2", "-V0", "-V2", "--outf=0"};
        auto n = r.below(8);
        // progress messages of threads are printed between answers
        arg(more[n == 6 && !p.args.empty() ? 0 : n]);
    }
    if (r.chance(1, 5)) {
        // restrict the atoms that are shown
        if (r.chance(1, 3) || p.atoms.empty()) {
            arg("#show.");
        } else {
            arg("#show " + p.atoms[r.below(p.atoms.size())] + "/0.");
        }
    }
    if (r.chance(1, 14)) {
        TAtom t;
        t.kind = T_RAW;
        t.raw = r.chance(1, 3) ? overflowing(r) : bad_heads[r.below(sizeof(bad_heads) / sizeof(bad_heads[0]))];
        p.tatoms.push_back(t);
        Rule x;
        x.head = H_THEORY;
        x.atom = static_cast<int>(p.tatoms.size()) - 1;
        p.steps[0].rules.push_back(x);
        p.expect_error = true;
    } else if (r.chance(1, 20)) {
        static char const *const bad[] = {
            "--min-int=abc", "--max-int=1073741824", "--min-int=-1073741824", "--min-int=5 --max-int=4", "--order-heuristic=foo",
            "--sign-value=x", "--refine-reasons=maybe", "--translate-clauses=1,x", "--translate-pb=x",
            "--translate-distinct=a", "--translate-opt=no", "--split-all=yes,64", "--propagate-chain=yes,-1", "--no-such-option",
            "--refine-introduce=no,1,2", "--sign-value=1,x", "--shift-constraints=maybe", "--check-solution=1"};
        arg("!" + std::string(bad[r.below(sizeof(bad) / sizeof(bad[0]))]));
        p.expect_error = true;
    }
}

} // namespace

SchedConfig gen_sched(Rng &r, bool parallel) {
    SchedConfig s;
    s.seed = r.next();
    s.layout = static_cast<int>(r.below(3));
    s.quarantine = r.chance(1, 3);
    static uint64_t const tick[] = {50, 100, 1000, 20000};
    s.tick_ns = tick[r.below(4)];
    s.clockjump = r.chance(1, 6) ? 20 : 0;
    if (!parallel) {
        s.strategy = 0;
        return s;
    }
    static int const strat[] = {0, 1, 1, 1, 2, 2, 3, 4};
    s.strategy = strat[r.below(8)];
    static unsigned const sync[] = {0, 50, 200, 500, 1000};
    s.sync_num = sync[r.below(5)];
    static uint64_t const bm[] = {0, 7, 30, 100, 400, 2000, 10000};
    s.block_mean = bm[r.below(7)];
    static unsigned const al[] = {0, 0, 5, 50, 300};
    s.alloc_num = al[r.below(5)];
    s.spurious = r.chance(1, 3) ? 50 : 0;
    return s;
}

Case generate(std::string const &profile, uint64_t seed) {
    Case c;
    c.profile = profile;
    c.seed = seed;
    uint64_t h = 1469598103934665603ULL;
    for (char ch : profile) {
        h = (h ^ static_cast<uint8_t>(ch)) * 1099511628211ULL;
    }
    Rng r{seed ^ h};
    auto k = knobs_for(profile, r);
    int nprogs = profile == "c16" ? static_cast<int>(r.range(2, 4)) : 1;
    bool parallel = nprogs > 1;
    for (int i = 0; i < nprogs; ++i) {
        Gen g{r.next(), k};
        g.gen();
        auto &p = g.p;
        for (auto const &a : p.args) {
            parallel = parallel || a == "-t";
        }
        for (auto const &s : p.steps) {
            for (auto const &o : s.ops) {
                parallel = parallel || (o.kind == O_THREADS && o.a > 1) || o.mode >= S_ASYNC || o.fault == F_INTERRUPT ||
                           o.fault == F_CANCEL;
            }
        }
        for (auto const &t : p.tatoms) {
            // no operators are allowed in the guards of domains
            if (t.kind == T_DOM && p.vars[t.var].find('-') != std::string::npos) {
                auto &v = p.vars[t.var];
                v = v == "f(-1)" ? "f(3)" : v == "f(-a)" ? "f(4)" : "f(5)";
            }
        }
        if (nprogs > 1) {
            p.delay = r.chance(1, 2) ? 0 : static_cast<int>(r.below(20000));
        }
        c.progs.push_back(std::move(p));
    }
    c.sched = gen_sched(r, parallel);
    if (profile == "c14") {
        auto &p = c.progs[0];
        // failures while loading
        if (r.chance(1, 2)) {
            auto &s = p.steps[r.below(p.steps.size())];
            s.fault = r.chance(1, 5) ? F_USERFAIL : F_OOM;
            int e = static_cast<int>(r.range(0, 11));
            s.fa = static_cast<i64>(r.below(uint64_t(1) << e)) | sticky(r);
            if (s.fault == F_USERFAIL) {
                s.fa = static_cast<i64>(r.below(6));
            }
        }
    }
    if (profile == "c15" && r.chance(1, 2)) {
        auto &p = c.progs[0];
        p.expect_error = true;
        TAtom t;
        t.kind = T_RAW;
        t.raw = r.chance(1, 2) ? overflowing(r) : bad_heads[r.below(sizeof(bad_heads) / sizeof(bad_heads[0]))];
        p.tatoms.push_back(t);
        auto s = r.below(p.steps.size());
        Rule x;
        x.head = H_THEORY;
        x.atom = static_cast<int>(p.tatoms.size()) - 1;
        auto &rules = p.steps[s].rules;
        rules.insert(rules.begin() + static_cast<long>(r.below(rules.size() + 1)), x);
    }
    if (profile == "c18") {
        command_line(c, r);
    }
    return c;
}

} // namespace sim
