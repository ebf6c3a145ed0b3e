// Snapshots of all variables of an instance and the executable reference model: what one
// solver step (forward Euler plus event handling) makes of them.
#pragma once
#include "drv.h"

struct Pt {
    std::vector<uint64_t> bits;                        // all numeric values, as read
    std::vector<std::string> str;
    RefVals v;                                         // scalars
    std::map<uint32_t, std::vector<double>> arr;       // arrays of StateSpace
    double t = 0;
    bool event = false;                                // an event was handled when the point was reached
    bool operator==(const Pt& o) const { return bits == o.bits && str == o.str; }
};

Pt readPoint(Instance& in, const Track& t, bool f64Only = false);
Pt pointOf(const Cfg& c, const Dims& d, const std::vector<Op>& ops, const std::vector<Res>& res);
std::string diff(const Pt& got, const Pt& want, const Cfg& c, const Dims& d, bool f64Only = false);

bool near(double a, double b, double tol = 1e-9);

// Checks that b is what one solver step makes of a; sets *event if the reference model
// has an event there. `handled` false: b was taken before the event was handled.
void checkEuler(const Cfg& c, const Dims& d, const Pt& a, const Pt& b, bool* event, bool handled = true);
// Checks what must hold at every point: derivatives and outputs follow the equations
void checkEquations(const Cfg& c, const Dims& d, const Pt& p);

// StateSpace: der(x) = Ax + Bu and y = Cx + Du
std::vector<double> ssDer(const Dims& d, const Pt& p, const std::vector<double>& x);
std::vector<double> ssOut(const Dims& d, const Pt& p, const std::vector<double>& x);

// ---------------------------------------------------------------- co-simulation on the solver grid

struct Plan {
    double start = 0, stop = 0;
    bool stopDef = false;
    bool atStop = false;                          // the last grid point is the stop time
    int n = 0;                                    // grid points after the start
    std::vector<Op> inst, init;                   // sets before and in initialization
    std::map<int, std::vector<Op>> inputs;        // sets at grid points
};

struct GPt {
    Pt pre, post;                                 // on arrival and after the inputs of this point
    bool event = false, term = false;
};

struct Grid {
    std::vector<GPt> pts;
    int term = -1;                                // point at which the model asks to terminate
};

Plan genPlan(const Cfg& c, bool toTermination);
// one grid point after the other by co-simulation, checked against the equations
Grid reference(const Cfg& base, const Plan& p);
