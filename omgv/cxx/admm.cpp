// drives one vehicle's planner of an exported formation or rendez-vous problem through its public interface
#include "sym.hpp"
#include <casadi/casadi.hpp>
#define double Sym
#include "Holonomic_omg.cpp"
#include "Vehicle_omg.cpp"
#include "Point2Point_omg.cpp"
#include "ADMMPoint2Point_omg.cpp"
#if __has_include("FormationPoint2Point_omg.cpp")
#include "FormationPoint2Point_omg.cpp"
typedef omg::FormationPoint2Point Planner;
#else
#include "RendezVous_omg.cpp"
typedef omg::RendezVous Planner;
#endif
#undef double
using std::string; using std::vector; using std::to_string;
static void rows(const string &key, const vector<vector<Sym>> &m, size_t n) { for (size_t i = 0; i < n; i++) sym::put(key + "." + to_string(i), m[i]); }
static vector<vector<Sym>> block(const string &name, int n, int m) { vector<vector<Sym>> v; for (int i = 0; i < n; i++) v.push_back(sym::vars(name + "." + to_string(i), m)); return v; }

int main(int argc, char **argv) {
    // prefix horizon update sample length updates predict fails shift init_iter rho neighbours relative-size sizes-of-substitutes(name:n,..) obstacles...
    int a = 1;
    sym::prefix() = string(argv[a++]).substr(1);
    real horizon = atof(argv[a++]), update = atof(argv[a++]), sample = atof(argv[a++]);
    int length = atoi(argv[a++]), updates = atoi(argv[a++]);
    string predict = argv[a++], fails = argv[a++], shift = argv[a++];
    int init_iter = atoi(argv[a++]);
    real rho = atof(argv[a++]);
    int nghb = atoi(argv[a++]), nrel = atoi(argv[a++]);
    std::map<string, int> size;
    std::stringstream list(argv[a++]);
    for (string e; std::getline(list, e, ','); ) size[e.substr(0, e.find(':'))] = atoi(e.substr(e.find(':') + 1).c_str());
    int k = 0, calls = 0, n_shared = 0;
    casadi::solver() = [&](const string &name, const casadi::DMDict &args, string &status) {
        string u = to_string(k);
        for (auto &e : args) sym::put("arg." + u + "." + e.first, e.second.v);
        casadi::DMDict res;
        res["x"] = casadi::DM(sym::vars("x" + u, args.at("x0").v.size()));
        status = fails[k] == '1' ? "Infeasible_Problem_Detected" : "Solve_Succeeded";
        return res;
    };
    casadi::function() = [&](const string &name, const vector<vector<Sym>> &in, vector<vector<Sym>> &out) {
        string key = to_string(k) + "." + name + "." + to_string(calls++);
        for (size_t i = 0; i < in.size(); i++) sym::put("ext." + key + "." + to_string(i), in[i]);
        out.clear();
        if (size.count(name)) out.push_back(sym::vars("f." + to_string(calls) + "." + name, size[name]));
        else if (name.find("res") != string::npos) for (int i = 0; i < 3; i++) out.push_back(sym::vars(name + "." + to_string(k) + "." + to_string(i), 1));
        else { out.push_back(sym::vars(name + "." + to_string(k) + ".0", n_shared)); out.push_back(sym::vars(name + "." + to_string(k) + ".1", n_shared*nghb)); }
    };
    omg::Holonomic *vehicle = new omg::Holonomic();
    vehicle->setIdealPrediction(predict == "plan");
    vehicle->setProvidePrediction(predict == "provide");
    Planner planner(vehicle, update, sample, horizon, length, init_iter, rho);
    planner.reset();
    planner.resetTime();
    n_shared = planner.n_shared;
    vector<omg::obstacle_t> obstacles(planner.n_obs);
    for (k = 0; k < updates; k++) {
        string u = to_string(k);
        vector<Sym> state0 = sym::vars("s" + u, 2), goal = sym::vars("g" + u, 2), rel = sym::vars("rel" + u, nrel);
        for (int i = 0; i < planner.n_obs; i++) {
            string o = "o" + to_string(i) + "." + u + ".";
            int points = atoi(argv[a + 3*i]), coeffs = atoi(argv[a + 3*i + 1]);
            obstacles[i].position = sym::vars(o + "x", 2);
            obstacles[i].velocity = sym::vars(o + "v", 2);
            obstacles[i].acceleration = sym::vars(o + "a", 2);
            obstacles[i].checkpoints = sym::vars(o + "checkpoints", 2*points);
            obstacles[i].radii = sym::vars(o + "rad", points);
            obstacles[i].traj_coeffs = sym::vars(o + "traj", coeffs);
            obstacles[i].avoid = argv[a + 3*i + 2][k] == '1';
        }
        vector<vector<Sym>> st(length, vector<Sym>(2)), in(length, vector<Sym>(2));
        vector<Sym> x_var(n_shared), residuals(3);
        vector<vector<Sym>> z_ji = block("zji" + u, nghb, n_shared), l_ji = block("lji" + u, nghb, n_shared), x_j = block("xj" + u, nghb, n_shared);
        vector<vector<Sym>> z_ij(nghb, vector<Sym>(n_shared)), l_ij(nghb, vector<Sym>(n_shared));
        bool ok = shift[k] == '0' ? planner.update1(state0, goal, st, in, x_var, z_ji, l_ji, obstacles, rel)
                                  : planner.update1(state0, goal, st, in, x_var, z_ji, l_ji, obstacles, rel, shift[k] - '0');
        fprintf(sym::out(), "ok %d %d\n", k, (int)ok);
        rows("state." + u, st, length);
        rows("input." + u, in, length);
        sym::put("xvar." + u, x_var);
        vector<Sym> coeffs;
        planner.getCoefficients(coeffs);
        sym::put("coeffs." + u, coeffs);
        if (!ok) continue;
        planner.update2(x_j, z_ij, l_ij, residuals);
        rows("zij." + u, z_ij, nghb);
        rows("lij." + u, l_ij, nghb);
        sym::put("residuals." + u, residuals);
    }
    fprintf(sym::out(), "end\n");
    return 0;
}
