// drives an exported point-to-point planner through its public interface
#include "sym.hpp"
#include <casadi/casadi.hpp>
#define double Sym
#include "Holonomic_omg.cpp"
#include "Vehicle_omg.cpp"
#include "Point2Point_omg.cpp"
#undef double
using std::string; using std::vector; using std::to_string;
static void rows(const string &key, const vector<vector<Sym>> &m, size_t n) { for (size_t i = 0; i < n; i++) sym::put(key + "." + to_string(i), m[i]); }

int main(int argc, char **argv) {
    // prefix horizon update sample length updates predict(plan|integrate|provide) fails(0/1 per update, r: recover first) shift obstacle-shapes...
    int a = 1;
    sym::prefix() = string(argv[a++]).substr(1);
    real horizon = atof(argv[a++]), update = atof(argv[a++]), sample = atof(argv[a++]);
    int length = atoi(argv[a++]), updates = atoi(argv[a++]);
    string predict = argv[a++], fails = argv[a++], shift = argv[a++];
    int k = 0;
    casadi::solver() = [&](const string &name, const casadi::DMDict &args, string &status) {
        string u = to_string(k);
        for (auto &e : args) sym::put("arg." + u + "." + e.first, e.second.v);
        casadi::DMDict res;
        res["x"] = casadi::DM(sym::vars("x" + u, args.at("x0").v.size()));
        status = fails[k] == '1' ? "Infeasible_Problem_Detected" : "Solve_Succeeded";
        return res;
    };
    casadi::function() = [&](const string &name, const vector<vector<Sym>> &, vector<vector<Sym>> &) { sym::fail("external function"); };
    omg::Holonomic *vehicle = new omg::Holonomic();
    vehicle->setIdealPrediction(predict == "plan");
    vehicle->setProvidePrediction(predict == "provide");
    omg::Point2Point p2p(vehicle, update, sample, horizon, length);
    p2p.reset();
    vector<omg::obstacle_t> obstacles(p2p.n_obs);
    for (k = 0; k < updates; k++) {
        string u = to_string(k);
        vector<Sym> state0 = sym::vars("s" + u, 2), goal = sym::vars("g" + u, 2);
        for (int i = 0; i < p2p.n_obs; i++) {
            string o = "o" + to_string(i) + "." + u + ".";
            int points = atoi(argv[a + 3*i]), coeffs = atoi(argv[a + 3*i + 1]);
            obstacles[i].position = sym::vars(o + "x", 2);
            obstacles[i].velocity = sym::vars(o + "v", 2);
            obstacles[i].acceleration = sym::vars(o + "a", 2);
            obstacles[i].checkpoints = sym::vars(o + "checkpoints", 2*points);
            obstacles[i].radii = sym::vars(o + "rad", points);
            obstacles[i].traj_coeffs = sym::vars(o + "traj", coeffs);
            obstacles[i].avoid = argv[a + 3*i + 2][k] == '1';
        }
        vector<vector<Sym>> st(length, vector<Sym>(2)), in(length, vector<Sym>(2));
        if (fails[k] == 'r') p2p.recover();
        bool ok = shift[k] == '0' ? p2p.update(state0, goal, st, in, obstacles) : p2p.update(state0, goal, st, in, obstacles, shift[k] - '0');
        fprintf(sym::out(), "ok %d %d\n", k, (int)ok);
        rows("state." + u, st, length);
        rows("input." + u, in, length);
        vector<Sym> coeffs;
        p2p.getCoefficients(coeffs);
        sym::put("coeffs." + u, coeffs);
    }
    fprintf(sym::out(), "end\n");
    return 0;
}
