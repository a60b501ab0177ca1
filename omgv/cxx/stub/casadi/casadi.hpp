// the part of CasADi's interface that the exported sources use; calls are recorded, answers are symbols
#pragma once
#include "sym.hpp"
namespace casadi {
struct GenericType {
    std::string s;
    GenericType() {}
    GenericType(const char *v) : s(v) {}
    GenericType(const std::string &v) : s(v) {}
    GenericType(int v) : s(std::to_string(v)) {}
    GenericType(real v) : s(std::to_string(v)) {}
    GenericType(const Sym &v) : s(sym::text(v)) {}
    operator std::string() const { return s; }
};
typedef std::map<std::string, GenericType> Dict;
struct DM {
    std::vector<Sym> v;
    DM() {}
    DM(const std::vector<Sym> &x) : v(x) {}
    operator std::vector<Sym>() const { return v; }
};
typedef std::map<std::string, DM> DMDict;
// set by the harness
inline std::function<DMDict(const std::string &, const DMDict &, std::string &)> &solver() {
    static std::function<DMDict(const std::string &, const DMDict &, std::string &)> f; return f;
}
inline std::function<void(const std::string &, const std::vector<std::vector<Sym>> &, std::vector<std::vector<Sym>> &)> &function() {
    static std::function<void(const std::string &, const std::vector<std::vector<Sym>> &, std::vector<std::vector<Sym>> &)> f; return f;
}
struct Function {
    std::string name, status;
    Function() {}
    Function(const std::string &n) : name(n) {}
    DMDict operator()(const DMDict &a) { return solver()(name, a, status); }
    void operator()(const std::vector<std::vector<Sym>> &a, std::vector<std::vector<Sym>> &res) const { function()(name, a, res); }
    Dict stats() const { Dict d; d["return_status"] = GenericType(status); return d; }
};
inline Function nlpsol(const std::string &name, const std::string &, const std::string &, const Dict & = Dict()) { return Function("nlp:" + name); }
inline Function external(const std::string &name, const std::string &, const Dict & = Dict()) { return Function(name); }
}
