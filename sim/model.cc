#include "model.h"

#include <algorithm>
#include <functional>
#include <iostream>
#include <sstream>

namespace sim {

namespace {

char const *const rel_str[] = {"<=", ">=", "<", ">", "=", "!="};

bool rel_holds(int rel, i128 a, i128 b) {
    switch (rel) {
        case R_LE: return a <= b;
        case R_GE: return a >= b;
        case R_LT: return a < b;
        case R_GT: return a > b;
        case R_EQ: return a == b;
        default: return a != b;
    }
}

std::string num(i64 v) { return v < 0 ? "(" + std::to_string(v) + ")" : std::to_string(v); }

struct Sugar {
    uint32_t s;
    uint32_t next(uint32_t n) {
        if (s == 0) {
            return 0;
        }
        s = s * 1664525U + 1013904223U;
        return (s >> 16) % n;
    }
};

// An arithmetic term with the given value and the level of its outermost
// operator (3 atomic or unary, 2 power, 1 product, 0 sum). The level a term has
// to have at the given place is handled by adding parentheses.
struct Arith {
    Sugar &g;
    std::string put(std::pair<std::string, int> const &x, int level) {
        return x.second < level || g.next(12) == 1 ? "(" + x.first + ")" : x.first;
    }
    std::pair<std::string, int> make(i64 v, int depth) {
        auto small = v > -100000 && v < 100000;
        if (depth <= 0 || !small) {
            return v < 0 ? std::pair{"-" + std::to_string(-v), 3} : std::pair{std::to_string(v), 3};
        }
        switch (g.next(9)) {
            case 0: {
                auto k = static_cast<i64>(g.next(20)) - 9;
                return {put(make(v - k, depth - 1), 0) + " + " + put(make(k, depth - 1), 1), 0};
            }
            case 1: {
                auto k = static_cast<i64>(g.next(20)) - 9;
                return {put(make(v + k, depth - 1), 0) + " - " + put(make(k, depth - 1), 1), 0};
            }
            case 2: {
                auto k = static_cast<i64>(g.next(7)) - 3;
                if (k != 0 && v % k == 0) {
                    return {put(make(v / k, depth - 1), 1) + " * " + put(make(k, depth - 1), 2), 1};
                }
                break;
            }
            case 3: {
                // division truncates
                auto k = static_cast<i64>(g.next(6)) + 2;
                auto rest = static_cast<i64>(g.next(static_cast<uint32_t>(k)));
                auto sign = g.next(2) == 0 ? 1 : -1;
                auto n = v * k + (v > 0 ? rest : v < 0 ? -rest : g.next(2) == 0 ? rest : -rest);
                return {put(make(sign * n, depth - 1), 1) + " / " + put(make(sign * k, depth - 1), 2), 1};
            }
            case 4: {
                // the remainder has the sign of the dividend
                auto k = (v < 0 ? -v : v) + 1 + static_cast<i64>(g.next(5));
                auto n = v + (v < 0 ? -k : k) * static_cast<i64>(g.next(4));
                if (v == 0) {
                    n = (g.next(2) == 0 ? 1 : -1) * k * static_cast<i64>(g.next(3));
                }
                return {put(make(n, depth - 1), 1) + " \\ " + put(make(g.next(2) == 0 ? k : -k, depth - 1), 2), 1};
            }
            case 5: {
                // powers associate to the right and are weaker than signs
                for (i64 b = -5; b <= 5; ++b) {
                    i64 x = 1;
                    for (int e = 0; e <= 6; ++e, x *= b) {
                        if (x == v && (e > 1 || g.next(4) == 0)) {
                            return {put(make(b, depth - 1), 3) + " ** " + put(make(e, depth - 1), 2), 2};
                        }
                    }
                }
                break;
            }
            case 6: return {"-" + put(make(-v, depth - 1), 4), 3};
            case 7: {
                // a power of a power without parentheses
                auto k = v - 512;
                return {"2 ** 3 ** 2 + " + put(make(k, depth - 1), 1), 0};
            }
            default: break;
        }
        return v < 0 ? std::pair{"-" + std::to_string(-v), 3} : std::pair{std::to_string(v), 3};
    }
};

std::string konst(i64 v, Sugar &g) {
    switch (g.next(10)) {
        case 1:
            if (v > -1000000 && v < 1000000) {
                return "(" + num(v - 3) + "+3)";
            }
            break;
        case 2:
            if (v > -1000 && v < 1000) {
                return "((" + std::to_string(v * 2) + ")/2)";
            }
            break;
        case 3:
            if (v == 4) {
                return "2**2";
            }
            if (v == 3) {
                return "(7\\4)";
            }
            break;
        case 4:
        case 5: {
            Arith a{g};
            return "(" + a.make(v, 1 + static_cast<int>(g.next(3))).first + ")";
        }
        default: break;
    }
    return num(v);
}

// Variables can be spelled with terms to evaluate in their arguments.
std::string vname(Program const &p, int var, Sugar &g) {
    auto const &v = p.vars[var];
    if (g.s == 0 || v.size() < 3 || (v[0] != 'f' && v[0] != 'g' && v[0] != 'h' && v[0] != '(' && v[0] != 'p') ||
        v.find('"') != std::string::npos || g.next(3) != 1) {
        return v;
    }
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) {
        auto neg = v[i] == '-' && i + 1 < v.size();
        auto at = i + (neg ? 1 : 0);
        if (v[at] >= '0' && v[at] <= '9') {
            auto j = at;
            while (j < v.size() && v[j] >= '0' && v[j] <= '9') {
                ++j;
            }
            i64 n = std::stoll(v.substr(at, j - at));
            Arith a{g};
            r += a.make(neg ? -n : n, static_cast<int>(g.next(3))).first;
            i = j - 1;
        } else if (!neg && i > 0 && (v[i - 1] == '(' || v[i - 1] == ',') && v[i] >= 'a' && v[i] <= 'z' &&
                   g.next(3) == 1) {
            auto j = i;
            int depth = 0;
            while (j < v.size() && (depth > 0 || (v[j] != ',' && v[j] != ')'))) {
                depth += v[j] == '(' ? 1 : v[j] == ')' ? -1 : 0;
                ++j;
            }
            r += "-(-" + v.substr(i, j - i) + ")";
            i = j - 1;
        } else if (neg && g.next(3) == 1) {
            // double classical negation cancels out
            r += "-(-(-";
            auto j = at;
            int depth = 0;
            while (j < v.size() && (depth > 0 || (v[j] != ',' && v[j] != ')'))) {
                depth += v[j] == '(' ? 1 : v[j] == ')' ? -1 : 0;
                ++j;
            }
            r += v.substr(at, j - at) + "))";
            i = j - 1;
        } else {
            r += v[i];
        }
    }
    return r;
}

std::string term(Program const &p, LTerm const &t, Sugar &g) {
    if (t.var < 0) {
        return konst(t.co, g);
    }
    auto const v = vname(p, t.var, g);
    switch (g.next(8)) {
        case 1: return v + "*" + num(t.co);
        case 2:
            if (t.co == 1) {
                return v;
            }
            break;
        case 3:
            if (t.co == -1) {
                return "-" + v;
            }
            break;
        case 4:
            if (t.co > -1000000 && t.co < 1000000) {
                return num(t.co - 1) + "*" + v + "+" + v;
            }
            break;
        case 5:
            if (t.co > -1000000 && t.co < 1000000) {
                return "-(" + num(-t.co) + "*" + v + ")";
            }
            break;
        case 6:
            if (t.co % 2 == 0) {
                return "2*" + num(t.co / 2) + "*" + v;
            }
            break;
        default: break;
    }
    return num(t.co) + "*" + v;
}

// The same contribution as `term` but spelled with a condition over variables
// that are instantiated while grounding; an element of its own.
std::string cond_term(Program const &p, LTerm const &t, Sugar &g) {
    auto times = [&](std::string const &f, i64 co) {
        auto r = f.empty() ? num(co) : num(co) + "*" + f;
        return t.var < 0 ? r : r + "*" + vname(p, t.var, g);
    };
    switch (g.next(8)) {
        case 0: return term(p, t, g) + " : 1 < 2";
        case 1:
            if (t.co % 2 == 0) {
                return times("", t.co / 2) + " : CX = 1..2";
            }
            break;
        case 2:
            if (t.co % 3 == 0) {
                return times("", t.co / 3) + (g.next(2) == 0 ? " : CX = 1..3" : " : CX = (1;2;3)");
            }
            break;
        case 3:
            if (t.co % 3 == 0) {
                return times("CX", t.co / 3) + " : CX = 1..2";
            }
            break;
        case 4:
            if (t.co % 4 == 0) {
                return times("", t.co / 4) + " : CX = 1..2, CY = 3..4";
            }
            break;
        case 5:
            if (t.co % 2 == 0) {
                return times("CX", t.co / 2) + " : CX = 0..1, CY = 4..5";
            }
            break;
        case 6: return times("", t.co) + " : _ = 1..2";
        default: break;
    }
    return (t.var < 0 ? std::string{"CX"} : "CX*" + vname(p, t.var, g)) + " : CX = " + num(t.co);
}

// an element that is not instantiated
std::string gone_term(Program const &p, LTerm const &t, Sugar &g) {
    return term(p, t, g) + " : " + (g.next(2) == 0 ? "1 > 2" : "CX = 2..1");
}

// several terms as one with common factors put outside
std::string group(Program const &p, std::vector<LTerm> terms, Sugar &g) {
    i64 f = 0;
    static i64 const fs[] = {-1, 2, 3, -2, 1};
    for (auto n = g.next(5); f == 0; n = (n + 1) % 5) {
        bool ok = true;
        for (auto const &t : terms) {
            ok = ok && t.co % fs[n] == 0;
        }
        f = ok ? fs[n] : 0;
    }
    std::string r;
    for (auto &t : terms) {
        t.co /= f;
        if (r.empty()) {
            r = term(p, t, g);
        } else if (g.next(2) == 0) {
            r += " + " + term(p, t, g);
        } else if (g.next(2) == 0) {
            r += " - (" + term(p, {-t.co, t.var}, g) + ")";
        } else {
            r = term(p, t, g) + " - (" + term(p, {0, t.var}, g) + " - (" + r + "))";
        }
    }
    if (f == -1 && g.next(2) == 0) {
        return "-(" + r + ")";
    }
    // Note: Products of sums are expanded and might overflow on the way.
    bool big = false;
    for (auto const &t : terms) {
        big = big || t.co < -1000 || t.co > 1000;
    }
    if (big) {
        return num(f) + "*(" + r + ")";
    }
    return g.next(2) == 0 ? konst(f, g) + "*(" + r + ")" : "(" + r + ")*" + konst(f, g);
}

// elements "a; b; c" or a single "a+b+c" expression
std::string elements(Program const &p, std::vector<LTerm> const &terms, Sugar &g) {
    std::string r;
    bool first = true;
    bool cond = false;
    for (auto const &t : terms) {
        if (&t - terms.data() < static_cast<ptrdiff_t>(terms.size()) - 1 && (first || cond) && g.next(8) == 1) {
            return r + (first ? "" : "; ") + group(p, {terms.begin() + (&t - terms.data()), terms.end()}, g);
        }
        if (!first) {
            r += !cond && g.next(3) == 1 ? " + " : "; ";
        }
        auto plain = first || r.compare(r.size() - 2, 2, "; ") == 0;
        first = false;
        switch (plain ? g.next(8) : 0) {
            case 1:
                cond = true;
                r += cond_term(p, t, g);
                break;
            case 2:
                cond = true;
                r += term(p, t, g) + "; " + gone_term(p, t, g);
                break;
            default:
                cond = false;
                r += term(p, t, g);
                break;
        }
    }
    return r;
}

std::string sum_expr(Program const &p, std::vector<LTerm> const &terms, Sugar &g) {
    std::string r;
    for (auto const &t : terms) {
        if (!r.empty()) {
            r += " + ";
        }
        r += term(p, t, g);
    }
    return r.empty() ? "0" : r;
}

} // namespace

std::string render_tatom(Program const &p, TAtom const &t, std::string *bind) {
    Sugar g{t.sugar};
    std::ostringstream out;
    // constants in guards may be bound in the body of the rule
    auto guard = [&](i64 v) -> std::string {
        if (bind != nullptr && g.next(8) == 1) {
            auto name = "GR" + std::to_string(&t - p.tatoms.data());
            auto lit = name + " = " + num(v);
            if (bind->find(lit) == std::string::npos) {
                *bind += (bind->empty() ? "" : ", ") + lit;
            }
            return name;
        }
        return konst(v, g);
    };
    switch (t.kind) {
        case T_SUM: {
            std::vector<LTerm> left, right;
            for (auto const &x : t.terms) {
                if (g.next(6) == 1) {
                    right.push_back({-x.co, x.var});
                } else {
                    left.push_back(x);
                }
            }
            out << "&sum { " << elements(p, left, g) << " } " << rel_str[t.rel] << " ";
            if (right.empty()) {
                out << guard(t.rhs);
            } else {
                right.push_back({t.rhs, -1});
                out << sum_expr(p, right, g);
            }
            break;
        }
        case T_DIFF: {
            auto side = [&](LTerm const &x) {
                return x.var >= 0 ? vname(p, x.var, g) : g.next(3) == 1 ? konst(x.co, g) : std::to_string(x.co);
            };
            out << "&diff { " << side(t.terms[0]) << " - " << side(t.terms[1]) << (g.next(6) == 1 ? " : CX = 1" : "")
                << " } <= " << guard(t.rhs);
            break;
        }
        case T_NSUM: {
            std::vector<std::pair<std::string, bool>> parts;
            auto prod = [&]() {
                auto a = vname(p, t.va, g), b = vname(p, t.vb, g);
                switch (g.next(6)) {
                    case 3: return "(" + num(t.nco) + "*" + a + ")*(" + b + ")";
                    case 4: return "(-" + a + ")*(" + num(-t.nco) + "*" + b + ")";
                    case 1: return a + "*" + num(t.nco) + "*" + b;
                    case 2: return b + "*" + a + "*" + num(t.nco);
                    default: return num(t.nco) + "*" + a + "*" + b;
                }
            };
            if (t.va >= 0) {
                auto x = prod();
                if (g.next(8) == 1) {
                    parts.emplace_back(x + " : CX = 1..1", true);
                } else {
                    parts.emplace_back(x, false);
                }
            }
            for (auto const &x : t.terms) {
                if (g.next(8) == 1) {
                    parts.emplace_back(cond_term(p, x, g), true);
                } else {
                    parts.emplace_back(term(p, x, g), false);
                }
            }
            if (g.next(3) == 1 && parts.size() > 1) {
                std::rotate(parts.begin(), parts.begin() + 1, parts.end());
            }
            out << "&nsum { ";
            for (size_t i = 0; i < parts.size(); ++i) {
                auto plain = i > 0 && !parts[i].second && !parts[i - 1].second;
                out << (i > 0 ? (plain && g.next(2) == 1 ? " + " : "; ") : "") << parts[i].first;
            }
            out << " } " << rel_str[t.rel] << " " << guard(t.rhs);
            break;
        }
        case T_DOM: {
            out << "&dom { ";
            bool first = true;
            for (auto const &[a, b] : t.ivs) {
                out << (first ? "" : "; ");
                first = false;
                if (a == b && g.next(2) == 0) {
                    out << konst(a, g);
                } else if (a < b && g.next(5) == 1) {
                    auto m = a + static_cast<i64>(g.next(static_cast<uint32_t>(std::min<i64>(b - a, 9))));
                    out << konst(a, g) << ".." << konst(m, g) << "; " << konst(m + 1, g) << ".." << konst(b, g);
                } else {
                    out << konst(a, g) << ".." << konst(b, g);
                    if (g.next(10) == 1) {
                        out << "; 4..3";
                    }
                }
            }
            out << " } = " << p.vars[t.var];
            break;
        }
        case T_DISTINCT: {
            out << "&distinct { ";
            bool first = true;
            for (auto const &e : t.elems) {
                out << (first ? "" : "; ");
                first = false;
                switch (g.next(8)) {
                    case 1: out << sum_expr(p, e, g) << " + CX : CX = 0"; break;
                    case 2:
                        out << sum_expr(p, e, g) << " : 1 < 2; " << sum_expr(p, e, g) << " : CX = 2..1";
                        break;
                    default: out << sum_expr(p, e, g); break;
                }
            }
            out << " }";
            break;
        }
        case T_DISJOINT: {
            out << "&disjoint { ";
            bool first = true;
            for (auto const &x : t.terms) {
                out << (first ? "" : "; ");
                first = false;
                if (g.next(8) == 1) {
                    out << vname(p, x.var, g) << "@CX : CX = " << num(x.co);
                } else {
                    out << vname(p, x.var, g) << "@" << konst(x.co, g);
                }
            }
            out << " }";
            break;
        }
        case T_MIN:
        case T_MAX: {
            out << (t.kind == T_MIN ? "&minimize { " : "&maximize { ") << elements(p, t.terms, g) << " }";
            break;
        }
        case T_SHOW: {
            out << "&show { ";
            bool first = true;
            for (auto const &x : t.terms) {
                out << (first ? "" : "; ");
                first = false;
                if (x.co == 0) {
                    out << vname(p, x.var, g);
                } else {
                    auto const &v = p.vars[x.var];
                    auto pos = v.find('(');
                    int arity = 0;
                    if (pos != std::string::npos) {
                        int depth = 0;
                        arity = 1;
                        for (char c : v.substr(pos)) {
                            depth += c == '(' ? 1 : c == ')' ? -1 : 0;
                            arity += c == ',' && depth == 1 ? 1 : 0;
                        }
                    }
                    out << v.substr(0, pos) << "/" << arity;
                }
            }
            out << " }";
            break;
        }
        default: out << t.raw; break;
    }
    return out.str();
}

std::string render_rule(Program const &p, Rule const &r) {
    std::ostringstream out;
    std::string bind;
    switch (r.head) {
        case H_ATOM: out << p.atoms[r.atom]; break;
        case H_CHOICE: out << "{ " << p.atoms[r.atom] << " }"; break;
        case H_EXTERNAL: out << "#external " << p.atoms[r.atom]; break;
        case H_THEORY: out << render_tatom(p, p.tatoms[r.atom], &bind); break;
        default: break;
    }
    std::ostringstream body;
    bool first = true;
    for (auto const &l : r.body) {
        body << (first ? "" : ", ") << (l.sign == 1 ? "not " : l.sign == 2 ? "not not " : "");
        first = false;
        if (l.theory >= 0) {
            body << render_tatom(p, p.tatoms[l.theory], &bind);
        } else {
            body << p.atoms[l.atom];
        }
    }
    if (!r.body.empty() || !bind.empty() || r.head == H_NONE) {
        out << (r.head == H_EXTERNAL ? " : " : " :- ");
    }
    out << body.str() << (first || bind.empty() ? "" : ", ") << bind << ".";
    return out.str();
}

std::string render_step(Program const &p, Step const &s) {
    std::string r;
    for (auto const &x : s.rules) {
        r += render_rule(p, x) + "\n";
    }
    return r;
}

// ------------------------------------------------------------------ serialisation

namespace {

std::string quote(std::string const &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
        }
        if (c == '\n') {
            r += "\\n";
        } else {
            r += c;
        }
    }
    return r + "\"";
}

std::string unquote(std::istream &in) {
    std::string r;
    char c;
    in >> std::ws;
    if (!in.get(c) || c != '"') {
        in.setstate(std::ios::failbit);
        return r;
    }
    while (in.get(c)) {
        if (c == '"') {
            return r;
        }
        if (c == '\\') {
            in.get(c);
            if (c == 'n') {
                c = '\n';
            }
        }
        r += c;
    }
    return r;
}

void wterms(std::ostream &o, std::vector<LTerm> const &t) {
    o << " " << t.size();
    for (auto const &x : t) {
        o << " " << x.co << " " << x.var;
    }
}

void rterms(std::istream &in, std::vector<LTerm> &t) {
    size_t n = 0;
    in >> n;
    t.resize(std::min<size_t>(n, 100000));
    for (auto &x : t) {
        in >> x.co >> x.var;
    }
}

void wprog(std::ostream &o, Program const &p) {
    o << "program " << p.min_int << " " << p.max_int << " " << p.set_range << " " << p.expect_error << " " << p.delay << "\n";
    for (auto const &v : p.vars) {
        o << "var " << quote(v) << "\n";
    }
    for (auto const &v : p.atoms) {
        o << "atom " << quote(v) << "\n";
    }
    for (auto const &[k, v] : p.options) {
        o << "option " << quote(k) << " " << quote(v) << "\n";
    }
    if (!p.alt.empty()) {
        o << "altmode " << p.alt_mode << "\n";
    }
    for (auto const &a : p.alt) {
        o << "alt " << a.kind << " " << a.ok << " " << a.extra << " " << a.fault << " " << quote(a.key) << " " << quote(a.val) << "\n";
    }
    for (auto const &v : p.args) {
        o << "arg " << quote(v) << "\n";
    }
    if (!p.hidden.empty() || !p.hidden_atoms.empty()) {
        o << "hidden " << p.hidden_atoms.size();
        for (auto x : p.hidden_atoms) {
            o << " " << x;
        }
        o << " " << p.hidden.size();
        for (auto x : p.hidden) {
            o << " " << x;
        }
        o << "\n";
    }
    for (auto const &t : p.tatoms) {
        o << "tatom " << t.kind << " " << t.rel << " " << t.rhs << " " << t.nco << " " << t.va << " " << t.vb << " " << t.var
          << " " << t.sugar;
        wterms(o, t.terms);
        o << " " << t.ivs.size();
        for (auto const &[a, b] : t.ivs) {
            o << " " << a << " " << b;
        }
        o << " " << t.elems.size();
        for (auto const &e : t.elems) {
            wterms(o, e);
        }
        o << " " << quote(t.raw) << "\n";
    }
    for (auto const &s : p.steps) {
        o << "step " << s.fault << " " << s.fa << "\n";
        for (auto const &r : s.rules) {
            o << "rule " << r.head << " " << r.atom << " " << r.body.size();
            for (auto const &l : r.body) {
                o << " " << l.sign << " " << l.atom << " " << l.theory;
            }
            o << "  % " << render_rule(p, r) << "\n";
        }
        for (auto const &x : s.ops) {
            o << "op " << x.kind << " " << x.a << " " << x.b << " " << x.mode << " " << x.limit << " " << x.fault << " " << x.fa
              << " " << x.fb << " " << x.assume.size();
            for (auto a : x.assume) {
                o << " " << a;
            }
            o << " " << quote(x.key) << " " << quote(x.val) << "\n";
        }
    }
    o << "endprogram\n";
}

} // namespace

void write_case(std::ostream &o, Case const &c) {
    o << "profile " << c.profile << "\n";
    o << "seed " << c.seed << "\n";
    auto const &s = c.sched;
    o << "sched " << s.seed << " " << s.strategy << " " << s.sync_num << " " << s.block_mean << " " << s.alloc_num << " "
      << s.spurious << " " << s.layout << " " << s.quarantine << " " << s.tick_ns << " " << s.clockjump << " " << s.tick_limit
      << " " << s.explicit_decisions << "\n";
    for (auto const &d : s.decisions) {
        o << "decision " << d.tick << " " << d.kind << " " << d.value << "\n";
    }
    if (c.cli) {
        o << "cli\n";
        for (auto const &a : c.cli_args) {
            o << "cliarg " << quote(a) << "\n";
        }
    }
    for (auto const &p : c.progs) {
        wprog(o, p);
    }
    o << "end\n";
}

bool read_case(std::istream &in, Case &c, std::map<std::string, std::string> &meta) {
    std::string line;
    Program *p = nullptr;
    Step *st = nullptr;
    while (std::getline(in, line)) {
        std::istringstream ls(line);
        std::string key;
        if (!(ls >> key) || key[0] == '#') {
            continue;
        }
        if (key == "end") {
            return true;
        }
        if (key == "profile") {
            ls >> c.profile;
        } else if (key == "seed") {
            ls >> c.seed;
        } else if (key == "sched") {
            auto &s = c.sched;
            ls >> s.seed >> s.strategy >> s.sync_num >> s.block_mean >> s.alloc_num >> s.spurious >> s.layout >> s.quarantine >>
                s.tick_ns >> s.clockjump >> s.tick_limit >> s.explicit_decisions;
        } else if (key == "decision") {
            Decision d{};
            ls >> d.tick >> d.kind >> d.value;
            c.sched.decisions.push_back(d);
        } else if (key == "cli") {
            c.cli = true;
        } else if (key == "cliarg") {
            c.cli_args.push_back(unquote(ls));
        } else if (key == "program") {
            c.progs.emplace_back();
            p = &c.progs.back();
            ls >> p->min_int >> p->max_int >> p->set_range >> p->expect_error >> p->delay;
        } else if (key == "var") {
            p->vars.push_back(unquote(ls));
        } else if (key == "atom") {
            p->atoms.push_back(unquote(ls));
        } else if (key == "option") {
            auto k = unquote(ls);
            p->options.emplace_back(k, unquote(ls));
        } else if (key == "altmode") {
            ls >> p->alt_mode;
        } else if (key == "alt") {
            Alt a;
            ls >> a.kind >> a.ok >> a.extra >> a.fault;
            a.key = unquote(ls);
            a.val = unquote(ls);
            p->alt.push_back(a);
        } else if (key == "arg") {
            p->args.push_back(unquote(ls));
        } else if (key == "hidden") {
            size_t n = 0;
            ls >> n;
            p->hidden_atoms.resize(n);
            for (auto &x : p->hidden_atoms) {
                ls >> x;
            }
            ls >> n;
            p->hidden.resize(n);
            for (auto &x : p->hidden) {
                ls >> x;
            }
        } else if (key == "tatom") {
            p->tatoms.emplace_back();
            auto &t = p->tatoms.back();
            ls >> t.kind >> t.rel >> t.rhs >> t.nco >> t.va >> t.vb >> t.var >> t.sugar;
            rterms(ls, t.terms);
            size_t n = 0;
            ls >> n;
            t.ivs.resize(n);
            for (auto &[a, b] : t.ivs) {
                ls >> a >> b;
            }
            ls >> n;
            t.elems.resize(n);
            for (auto &e : t.elems) {
                rterms(ls, e);
            }
            t.raw = unquote(ls);
        } else if (key == "step") {
            p->steps.emplace_back();
            st = &p->steps.back();
            ls >> st->fault >> st->fa;
        } else if (key == "rule") {
            Rule r;
            size_t n = 0;
            ls >> r.head >> r.atom >> n;
            r.body.resize(n);
            for (auto &l : r.body) {
                ls >> l.sign >> l.atom >> l.theory;
            }
            st->rules.push_back(r);
        } else if (key == "op") {
            Op x;
            size_t n = 0;
            ls >> x.kind >> x.a >> x.b >> x.mode >> x.limit >> x.fault >> x.fa >> x.fb >> n;
            x.assume.resize(n);
            for (auto &a : x.assume) {
                ls >> a;
            }
            x.key = unquote(ls);
            x.val = unquote(ls);
            st->ops.push_back(x);
        } else if (key == "endprogram") {
            p = nullptr;
        } else {
            std::string rest;
            std::getline(ls, rest);
            meta[key] = rest.empty() ? rest : rest.substr(1);
        }
    }
    return false;
}

// ------------------------------------------------------------------ reference

namespace {

template <class F> void mentioned(TAtom const &t, F f) {
    switch (t.kind) {
        case T_DISTINCT:
            for (auto const &e : t.elems) {
                for (auto const &x : e) {
                    if (x.var >= 0) {
                        f(x.var);
                    }
                }
            }
            break;
        case T_DISJOINT:
            for (auto const &x : t.terms) {
                if (x.co > 0) {
                    f(x.var);
                }
            }
            break;
        case T_DOM: f(t.var); break;
        case T_SHOW:
            for (auto const &x : t.terms) {
                if (x.co == 0) {
                    f(x.var);
                }
            }
            break;
        default:
            for (auto const &x : t.terms) {
                if (x.var >= 0) {
                    f(x.var);
                }
            }
            if (t.va >= 0) {
                f(t.va);
            }
            if (t.vb >= 0) {
                f(t.vb);
            }
    }
}

i128 eval(std::vector<LTerm> const &ts, std::vector<i64> const &vals) {
    i128 r = 0;
    for (auto const &x : ts) {
        r += x.var < 0 ? static_cast<i128>(x.co) : static_cast<i128>(x.co) * vals[x.var];
    }
    return r;
}

} // namespace

std::vector<bool> Reference::present(int step) const {
    std::vector<bool> r(p.vars.size(), false);
    auto mark = [&](int v) { r[v] = true; };
    for (int s = 0; s <= step && s < static_cast<int>(p.steps.size()); ++s) {
        for (auto const &x : p.steps[s].rules) {
            if (x.head == H_THEORY) {
                mentioned(p.tatoms[x.atom], mark);
            }
            for (auto const &l : x.body) {
                if (l.theory >= 0) {
                    mentioned(p.tatoms[l.theory], mark);
                }
            }
        }
    }
    return r;
}

bool Reference::relevant(int step, int var, Solution const &s) const {
    auto mentions = [&](int t) {
        bool r = false;
        mentioned(p.tatoms[t], [&](int v) { r = r || v == var; });
        return r;
    };
    // facts
    uint64_t facts = 0;
    for (bool more = true; more;) {
        more = false;
        for (int k = 0; k <= step; ++k) {
            for (auto const &x : p.steps[k].rules) {
                if (x.head != H_ATOM || ((facts >> x.atom) & 1) != 0) {
                    continue;
                }
                bool ok = true;
                for (auto const &l : x.body) {
                    ok = ok && l.theory < 0 && l.sign != 1 && ((facts >> l.atom) & 1) != 0;
                }
                if (ok) {
                    facts |= uint64_t(1) << x.atom;
                    more = true;
                }
            }
        }
    }
    for (int k = 0; k <= step; ++k) {
        for (auto const &x : p.steps[k].rules) {
            bool men = x.head == H_THEORY && mentions(x.atom);
            bool body = true;
            for (auto const &l : x.body) {
                if (l.theory >= 0 && mentions(l.theory)) {
                    men = true;
                    continue;
                }
                bool v = l.theory >= 0 ? holds(p.tatoms[l.theory], s.vals) : ((s.atoms >> l.atom) & 1) != 0;
                if (v == (l.sign == 1)) {
                    body = false;
                }
            }
            if (men && body && !(x.head == H_ATOM && ((facts >> x.atom) & 1) != 0)) {
                // another rule might already derive the head
                bool other = false;
                for (int j = 0; x.head == H_ATOM && j <= step; ++j) {
                    for (auto const &y : p.steps[j].rules) {
                        if (y.head != H_ATOM || y.atom != x.atom) {
                            continue;
                        }
                        bool ok = true;
                        for (auto const &l : y.body) {
                            ok = ok && !(l.theory >= 0 && mentions(l.theory));
                            bool v = l.theory >= 0 ? holds(p.tatoms[l.theory], s.vals) : ((s.atoms >> l.atom) & 1) != 0;
                            ok = ok && v != (l.sign == 1);
                        }
                        other = other || ok;
                    }
                }
                if (!other) {
                    return true;
                }
            }
        }
    }
    return false;
}

bool Reference::holds(TAtom const &t, std::vector<i64> const &vals) const {
    switch (t.kind) {
        case T_SUM: return rel_holds(t.rel, eval(t.terms, vals), t.rhs);
        case T_DIFF: {
            auto v = [&](LTerm const &x) { return x.var < 0 ? static_cast<i128>(x.co) : static_cast<i128>(vals[x.var]); };
            return v(t.terms[0]) - v(t.terms[1]) <= t.rhs;
        }
        case T_NSUM: {
            i128 s = eval(t.terms, vals);
            if (t.va >= 0) {
                s += static_cast<i128>(t.nco) * vals[t.va] * vals[t.vb];
            }
            return rel_holds(t.rel, s, t.rhs);
        }
        case T_DOM:
            for (auto const &[a, b] : t.ivs) {
                if (a <= vals[t.var] && vals[t.var] <= b) {
                    return true;
                }
            }
            return false;
        case T_DISTINCT:
            for (size_t i = 0; i < t.elems.size(); ++i) {
                for (size_t j = i + 1; j < t.elems.size(); ++j) {
                    if (eval(t.elems[i], vals) == eval(t.elems[j], vals)) {
                        return false;
                    }
                }
            }
            return true;
        case T_DISJOINT:
            for (size_t i = 0; i < t.terms.size(); ++i) {
                for (size_t j = i + 1; j < t.terms.size(); ++j) {
                    auto const &a = t.terms[i];
                    auto const &b = t.terms[j];
                    if (a.co <= 0 || b.co <= 0) {
                        continue;
                    }
                    if (vals[a.var] < vals[b.var] + b.co && vals[b.var] < vals[a.var] + a.co) {
                        return false;
                    }
                }
            }
            return true;
        default: return true;
    }
}

uint64_t Reference::defined(int step) const {
    uint64_t r = 0;
    for (int s = 0; s <= step && s < static_cast<int>(p.steps.size()); ++s) {
        for (auto const &x : p.steps[s].rules) {
            if (x.head == H_ATOM || x.head == H_CHOICE || x.head == H_EXTERNAL) {
                r |= uint64_t(1) << x.atom;
            }
        }
    }
    return r;
}

namespace {

struct Flat {
    std::vector<Rule const *> rules;     // everything but choices/externals/directives
    std::vector<int> free;               // atoms that can be chosen
    uint64_t forced = 0;                 // externals set to true
    std::vector<std::vector<Rule const *>> defs; // derived atoms
    std::vector<int> derived;
};

Flat flatten(Program const &p, RefState const &st) {
    Flat f;
    f.defs.resize(p.atoms.size());
    for (int s = 0; s <= st.step; ++s) {
        for (auto const &x : p.steps[s].rules) {
            switch (x.head) {
                case H_CHOICE: f.free.push_back(x.atom); break;
                case H_EXTERNAL: {
                    auto it = st.externals.find(x.atom);
                    int v = it != st.externals.end() ? it->second : 0;
                    if (v == 2) {
                        f.free.push_back(x.atom);
                    } else if (v == 1) {
                        f.forced |= uint64_t(1) << x.atom;
                    }
                    break;
                }
                case H_ATOM:
                    if (f.defs[x.atom].empty()) {
                        f.derived.push_back(x.atom);
                    }
                    f.defs[x.atom].push_back(&x);
                    break;
                default: f.rules.push_back(&x); break;
            }
        }
    }
    std::sort(f.derived.begin(), f.derived.end());
    return f;
}

template <class T> bool body_holds(Rule const &r, uint64_t atoms, T const &theory) {
    for (auto const &l : r.body) {
        bool v = l.theory >= 0 ? theory(l.theory) : ((atoms >> l.atom) & 1) != 0;
        if (v == (l.sign == 1)) {
            return false;
        }
    }
    return true;
}

template <class T> uint64_t derive(Flat const &f, uint64_t atoms, T const &theory) {
    for (int d : f.derived) {
        for (auto const *r : f.defs[d]) {
            if (body_holds(*r, atoms, theory)) {
                atoms |= uint64_t(1) << d;
                break;
            }
        }
    }
    return atoms;
}

} // namespace

bool Reference::check(RefState const &st, Solution const &s, std::string *why) const {
    auto f = flatten(p, st);
    auto theory = [&](int i) { return holds(p.tatoms[i], s.vals); };
    auto pres = present(st.step);
    for (size_t v = 0; v < p.vars.size(); ++v) {
        if (pres[v] && (s.vals[v] < p.min_int || s.vals[v] > p.max_int)) {
            if (why != nullptr) {
                *why = p.vars[v] + "=" + std::to_string(s.vals[v]) + " is outside the integer range";
            }
            return false;
        }
    }
    uint64_t base = f.forced;
    for (int a : f.free) {
        base |= s.atoms & (uint64_t(1) << a);
    }
    auto full = derive(f, base, theory);
    if (full != s.atoms) {
        if (why != nullptr) {
            *why = "atoms are not the stable model of the choices and constraints";
            for (size_t a = 0; a < p.atoms.size(); ++a) {
                if (((full ^ s.atoms) >> a & 1) != 0) {
                    *why += ": " + p.atoms[a] + " should be " + ((full >> a & 1) != 0 ? "true" : "false");
                    break;
                }
            }
        }
        return false;
    }
    for (auto const *r : f.rules) {
        if (body_holds(*r, full, theory)) {
            if (r->head == H_NONE || (r->head == H_THEORY && !theory(r->atom))) {
                if (why != nullptr) {
                    *why = "violates: " + render_rule(p, *r);
                }
                return false;
            }
        }
    }
    return true;
}

std::optional<std::vector<Solution>> Reference::solutions(RefState const &st, size_t cap) const {
    auto f = flatten(p, st);
    auto pres = present(st.step);
    size_t nv = p.vars.size();
    // candidate values from unconditional unary constraints
    std::vector<std::vector<i64>> cand(nv);
    std::vector<Rule const *> rest;
    i128 total = i128(1) << f.free.size();
    for (size_t v = 0; v < nv; ++v) {
        if (!pres[v]) {
            cand[v] = {0};
            continue;
        }
        i64 lo = p.min_int, hi = p.max_int;
        std::vector<TAtom const *> unary;
        for (auto const *r : f.rules) {
            if (r->head != H_THEORY || !r->body.empty()) {
                continue;
            }
            auto const &t = p.tatoms[r->atom];
            if (t.kind == T_DOM && t.var == static_cast<int>(v)) {
                i64 a = INT64_MAX, b = INT64_MIN;
                for (auto const &[x, y] : t.ivs) {
                    if (x <= y) {
                        a = std::min(a, x);
                        b = std::max(b, y);
                    }
                }
                lo = std::max(lo, a);
                hi = std::min(hi, b);
                unary.push_back(&t);
            } else if (t.kind == T_SUM && t.terms.size() == 1 && t.terms[0].var == static_cast<int>(v) &&
                       (t.terms[0].co == 1)) {
                if (t.rel == R_LE || t.rel == R_EQ) {
                    hi = std::min(hi, t.rhs);
                }
                if (t.rel == R_GE || t.rel == R_EQ) {
                    lo = std::max(lo, t.rhs);
                }
            }
        }
        if (static_cast<i128>(hi) - lo > 100000) {
            return std::nullopt;
        }
        std::vector<i64> vals(nv, 0);
        for (i64 x = lo; x <= hi; ++x) {
            vals[v] = x;
            bool ok = true;
            for (auto const *t : unary) {
                ok = ok && holds(*t, vals);
            }
            if (ok) {
                cand[v].push_back(x);
            }
        }
        total *= static_cast<i128>(cand[v].size());
        if (total > static_cast<i128>(cap)) {
            return std::nullopt;
        }
    }
    std::vector<Solution> res;
    if (total == 0) {
        return res;
    }
    // used theory atoms
    std::vector<int> used;
    for (auto const *r : f.rules) {
        if (r->head == H_THEORY) {
            used.push_back(r->atom);
        }
    }
    auto add_body = [&](Rule const &r) {
        for (auto const &l : r.body) {
            if (l.theory >= 0) {
                used.push_back(l.theory);
            }
        }
    };
    for (auto const *r : f.rules) {
        add_body(*r);
    }
    for (auto const &d : f.defs) {
        for (auto const *r : d) {
            add_body(*r);
        }
    }
    std::sort(used.begin(), used.end());
    used.erase(std::unique(used.begin(), used.end()), used.end());
    std::vector<char> truth(p.tatoms.size(), 0);
    auto theory = [&](int i) { return truth[i] != 0; };
    Solution s;
    s.vals.assign(nv, 0);
    std::function<void(size_t)> rec = [&](size_t v) {
        if (v == nv) {
            for (int t : used) {
                truth[t] = holds(p.tatoms[t], s.vals) ? 1 : 0;
            }
            for (auto const *r : f.rules) {
                if (r->head == H_THEORY && r->body.empty() && truth[r->atom] == 0) {
                    return;
                }
            }
            for (uint64_t m = 0; m < (uint64_t(1) << f.free.size()); ++m) {
                uint64_t base = f.forced;
                for (size_t i = 0; i < f.free.size(); ++i) {
                    if ((m >> i & 1) != 0) {
                        base |= uint64_t(1) << f.free[i];
                    }
                }
                auto full = derive(f, base, theory);
                bool ok = true;
                for (auto const *r : f.rules) {
                    if (body_holds(*r, full, theory) && (r->head == H_NONE || (r->head == H_THEORY && truth[r->atom] == 0))) {
                        ok = false;
                        break;
                    }
                }
                if (ok) {
                    s.atoms = full;
                    res.push_back(s);
                }
            }
            return;
        }
        for (auto x : cand[v]) {
            s.vals[v] = x;
            rec(v + 1);
        }
        s.vals[v] = 0;
    };
    rec(0);
    std::sort(res.begin(), res.end());
    return res;
}

bool Reference::has_objective(int step) const {
    for (int s = 0; s <= step; ++s) {
        for (auto const &x : p.steps[s].rules) {
            if (x.head == H_THEORY && (p.tatoms[x.atom].kind == T_MIN || p.tatoms[x.atom].kind == T_MAX) &&
                !p.tatoms[x.atom].terms.empty()) {
                return true;
            }
        }
    }
    return false;
}

i64 Reference::objective(int step, std::vector<i64> const &vals) const {
    i128 r = 0;
    for (int s = 0; s <= step; ++s) {
        for (auto const &x : p.steps[s].rules) {
            if (x.head == H_THEORY) {
                auto const &t = p.tatoms[x.atom];
                if (t.kind == T_MIN) {
                    r += eval(t.terms, vals);
                }
                if (t.kind == T_MAX) {
                    r -= eval(t.terms, vals);
                }
            }
        }
    }
    return static_cast<i64>(r);
}

std::vector<bool> Reference::shown(int step) const {
    auto pres = present(step);
    bool any = false;
    std::vector<bool> r(p.vars.size(), false);
    auto sig = [&](int v) {
        TAtom t;
        t.kind = T_SHOW;
        t.terms.push_back({1, v});
        return render_tatom(p, t);
    };
    for (int s = 0; s <= step; ++s) {
        for (auto const &x : p.steps[s].rules) {
            if (x.head == H_THEORY && p.tatoms[x.atom].kind == T_SHOW) {
                any = true;
                for (auto const &e : p.tatoms[x.atom].terms) {
                    if (e.co == 0) {
                        r[e.var] = true;
                    } else {
                        for (size_t v = 0; v < p.vars.size(); ++v) {
                            if (p.vars[v][0] != '"' && p.vars[v][0] != '(' && sig(static_cast<int>(v)) == sig(e.var)) {
                                r[v] = true;
                            }
                        }
                    }
                }
            }
        }
    }
    for (size_t v = 0; v < r.size(); ++v) {
        r[v] = pres[v] && (!any || r[v]);
    }
    return r;
}

bool satisfies(Solution const &s, std::vector<int> const &assume) {
    for (int a : assume) {
        int i = (a < 0 ? -a : a) - 1;
        if (((s.atoms >> i & 1) != 0) != (a > 0)) {
            return false;
        }
    }
    return true;
}

} // namespace sim
