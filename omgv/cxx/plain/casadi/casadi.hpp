// the same for numbers: tells sources that do not compile from sources that the tracing scalar cannot follow
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
typedef double real;
namespace casadi {
struct GenericType {
    std::string s;
    GenericType() {}
    GenericType(const char *v) : s(v) {}
    GenericType(const std::string &v) : s(v) {}
    GenericType(int v) : s(std::to_string(v)) {}
    GenericType(real v) : s(std::to_string(v)) {}
    operator std::string() const { return s; }
};
typedef std::map<std::string, GenericType> Dict;
struct DM {
    std::vector<real> v;
    DM() {}
    DM(const std::vector<real> &x) : v(x) {}
    operator std::vector<real>() const { return v; }
};
typedef std::map<std::string, DM> DMDict;
// set by the harness
inline std::function<DMDict(const std::string &, const DMDict &, std::string &)> &solver() {
    static std::function<DMDict(const std::string &, const DMDict &, std::string &)> f; return f;
}
inline std::function<void(const std::string &, const std::vector<std::vector<real>> &, std::vector<std::vector<real>> &)> &function() {
    static std::function<void(const std::string &, const std::vector<std::vector<real>> &, std::vector<std::vector<real>> &)> f; return f;
}
struct Function {
    std::string name, status;
    Function() {}
    Function(const std::string &n) : name(n) {}
    DMDict operator()(const DMDict &a) { return solver()(name, a, status); }
    void operator()(const std::vector<std::vector<real>> &a, std::vector<std::vector<real>> &res) const { function()(name, a, res); }
    Dict stats() const { Dict d; d["return_status"] = GenericType(status); return d; }
};
inline Function nlpsol(const std::string &name, const std::string &, const std::string &, const Dict & = Dict()) { return Function("nlp:" + name); }
inline Function external(const std::string &name, const std::string &, const Dict & = Dict()) { return Function(name); }
}
