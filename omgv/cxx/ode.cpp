// a vehicle of the user with dynamics that depend on the state; its prediction from a measured state
#include "sym.hpp"
#include <casadi/casadi.hpp>
#define double Sym
#include "Holonomic_omg.cpp"
#include "Vehicle_omg.cpp"
struct User : public omg::Holonomic {
    using omg::Vehicle::getPrediction;
    double A[2][2];
    void ode(std::vector<double> &state, std::vector<double> &input, std::vector<double> &dstate) {
        for (int i = 0; i < 2; i++) dstate[i] = A[i][0]*state[0] + A[i][1]*state[1] + input[i];
    }
};
#undef double
using std::vector;
int main(int argc, char **argv) {
    // prefix a00 a01 a10 a11 predict_time sample_time late
    int a = 1;
    sym::prefix() = std::string(argv[a++]).substr(1);
    User user;
    for (int i = 0; i < 4; i++) user.A[i / 2][i % 2] = Sym(atof(argv[a++]));
    real T = atof(argv[a++]), Ts = atof(argv[a++]);
    int late = atoi(argv[a++]);
    int n = (int)std::lround(T / Ts) + late + 1;
    vector<Sym> s = sym::vars("s", 2), u = sym::vars("u", 2), v = sym::vars("w", 2), st(2), in(2);
    vector<vector<Sym>> states(n, vector<Sym>(2)), inputs(n, u);
    for (int i = 0; i < late; i++) inputs[i] = v;
    user.predict(s, states, inputs, T, Ts, late);
    user.getPrediction(st, in);
    sym::put("state", st);
    sym::put("input", in);
    fprintf(sym::out(), "end\n");
    return 0;
}
