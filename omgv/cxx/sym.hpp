// scalar that stands in for `double`: arithmetic on numbers is done with the same IEEE operations,
// arithmetic on symbols is written down (one line per operation on stdout)
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <iomanip>
#include <limits>
#include <map>
#include <memory>
#include <memory.h>
#include <math.h>
#include <assert.h>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <utility>
#include <vector>

typedef double real;

namespace sym {
inline FILE *out() { static FILE *f = fopen("trace.txt", "w"); return f; }
inline int &counter() { static int n = 0; return n; }
inline std::string &prefix() { static std::string p; return p; }
inline size_t &position() { static size_t k = 0; return k; }
[[noreturn]] inline void fail(const char *what) { fprintf(sym::out(), "unsupported %s\n", what); fflush(sym::out()); exit(4); }
}

struct Sym {
    real c;
    int id;
    Sym() : c(0.0), id(-1) {}
    Sym(real v) : c(v), id(-1) {}
    Sym(int v) : c(v), id(-1) {}
    Sym(long v) : c(v), id(-1) {}
    Sym(unsigned v) : c(v), id(-1) {}
    Sym(unsigned long v) : c(v), id(-1) {}
    Sym(bool v) : c(v), id(-1) {}
    real num(const char *what) const { if (id >= 0) sym::fail(what); return c; }
    explicit operator int() const { return (int)num("conversion to int"); }
    explicit operator real() const { return num("conversion to number"); }
    Sym &operator+=(const Sym &o);
    Sym &operator-=(const Sym &o);
    Sym &operator*=(const Sym &o);
    Sym &operator/=(const Sym &o);
};

namespace sym {
inline std::string text(const Sym &s) {
    char b[64];
    if (s.id >= 0) snprintf(b, sizeof b, "#%d", s.id);
    else snprintf(b, sizeof b, "%a", s.c);
    return b;
}
inline Sym node(const char *op, const Sym &a, const Sym &b) {
    Sym r; r.id = counter()++;
    fprintf(sym::out(), "n %d %s %s %s\n", r.id, op, text(a).c_str(), text(b).c_str());
    return r;
}
inline Sym var(const std::string &name) {
    Sym r; r.id = counter()++;
    fprintf(sym::out(), "v %d %s\n", r.id, name.c_str());
    return r;
}
inline bool branch(const char *op, const Sym &a, const Sym &b) {
    bool d = position() < prefix().size() ? prefix()[position()] == '1' : true;
    position()++;
    fprintf(sym::out(), "b %s %s %s %d\n", op, text(a).c_str(), text(b).c_str(), (int)d);
    return d;
}
inline void put(const std::string &key, const std::vector<Sym> &v) {
    fprintf(sym::out(), "r %s", key.c_str());
    for (size_t i = 0; i < v.size(); i++) fprintf(sym::out(), " %s", text(v[i]).c_str());
    fprintf(sym::out(), "\n");
}
inline std::vector<Sym> vars(const std::string &name, size_t n) {
    std::vector<Sym> v(n);
    for (size_t i = 0; i < n; i++) v[i] = var(name + "." + std::to_string(i));
    return v;
}
}

inline Sym operator+(const Sym &a, const Sym &b) {
    if (a.id < 0 && b.id < 0) return Sym(a.c + b.c);
    if (a.id < 0 && a.c == 0) return b;
    if (b.id < 0 && b.c == 0) return a;
    return sym::node("+", a, b);
}
inline Sym operator-(const Sym &a, const Sym &b) {
    if (a.id < 0 && b.id < 0) return Sym(a.c - b.c);
    if (b.id < 0 && b.c == 0) return a;
    return sym::node("-", a, b);
}
inline Sym operator*(const Sym &a, const Sym &b) {
    if (a.id < 0 && b.id < 0) return Sym(a.c * b.c);
    if (a.id < 0 && a.c == 0) return a;
    if (b.id < 0 && b.c == 0) return b;
    if (a.id < 0 && a.c == 1) return b;
    if (b.id < 0 && b.c == 1) return a;
    return sym::node("*", a, b);
}
inline Sym operator/(const Sym &a, const Sym &b) {
    if (a.id < 0 && b.id < 0) return Sym(a.c / b.c);
    if (b.id < 0 && b.c == 1) return a;
    if (b.id < 0 && b.c == 0) sym::fail("division by zero");
    return sym::node("/", a, b);
}
inline Sym operator-(const Sym &a) { return a.id < 0 ? Sym(-a.c) : sym::node("-", Sym(0), a); }
inline Sym operator+(const Sym &a) { return a; }
inline Sym &Sym::operator+=(const Sym &o) { return *this = *this + o; }
inline Sym &Sym::operator-=(const Sym &o) { return *this = *this - o; }
inline Sym &Sym::operator*=(const Sym &o) { return *this = *this * o; }
inline Sym &Sym::operator/=(const Sym &o) { return *this = *this / o; }
#define SYM_CMP(op) inline bool operator op(const Sym &a, const Sym &b) { \
    if (a.id < 0 && b.id < 0) return a.c op b.c; return sym::branch(#op, a, b); }
SYM_CMP(<) SYM_CMP(<=) SYM_CMP(>) SYM_CMP(>=) SYM_CMP(==) SYM_CMP(!=)
#undef SYM_CMP
#define SYM_F1(f) inline Sym f(const Sym &a) { return Sym((real)std::f(a.num(#f))); }
inline Sym fmax(const Sym &a, const Sym &b) { return a < b ? b : a; }
inline Sym fmin(const Sym &a, const Sym &b) { return b < a ? b : a; }
SYM_F1(round) SYM_F1(floor) SYM_F1(ceil) SYM_F1(sqrt) SYM_F1(trunc) SYM_F1(rint) SYM_F1(sin) SYM_F1(cos) SYM_F1(tan) SYM_F1(atan) SYM_F1(exp) SYM_F1(log)
#undef SYM_F1
inline long lround(const Sym &a) { return std::lround(a.num("lround")); }
inline Sym fmod(const Sym &a, const Sym &b) { return Sym(std::fmod(a.num("fmod"), b.num("fmod"))); }
inline Sym remainder(const Sym &a, const Sym &b) { return Sym(std::remainder(a.num("remainder"), b.num("remainder"))); }
inline Sym fabs(const Sym &a) { if (a.id < 0) return Sym(std::fabs(a.c)); return a < Sym(0) ? -a : a; }
inline Sym abs(const Sym &a) { return fabs(a); }
inline Sym pow(const Sym &a, const Sym &n) {
    if (a.id < 0 && n.id < 0) return Sym(std::pow(a.c, n.c));
    int k = (int)n.num("pow");
    if (k != n.c || k < 0) sym::fail("pow");
    Sym r(1);
    for (int i = 0; i < k; i++) r *= a;
    return r;
}
namespace std {
inline Sym max(const Sym &a, const Sym &b) { return ::fmax(a, b); }
inline Sym min(const Sym &a, const Sym &b) { return ::fmin(a, b); }
inline Sym max(real a, const Sym &b) { return ::fmax(Sym(a), b); }
inline Sym min(real a, const Sym &b) { return ::fmin(Sym(a), b); }
inline Sym max(const Sym &a, real b) { return ::fmax(a, Sym(b)); }
inline Sym min(const Sym &a, real b) { return ::fmin(a, Sym(b)); }
template <> struct numeric_limits<Sym> : public numeric_limits<real> {
    static Sym infinity() { return Sym(numeric_limits<real>::infinity()); }
    static Sym max() { return Sym(numeric_limits<real>::max()); }
    static Sym min() { return Sym(numeric_limits<real>::min()); }
    static Sym epsilon() { return Sym(numeric_limits<real>::epsilon()); }
};
inline ostream &operator<<(ostream &o, const Sym &s) { return o << sym::text(s); }
using ::fmax; using ::fmin; using ::lround; using ::fabs; using ::abs; using ::fmod; using ::round; using ::floor; using ::ceil; using ::sqrt; using ::pow; using ::trunc;
}
