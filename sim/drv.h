// Call histories: a model of the FMI state machine that follows an instance (Track) and a
// generator of mostly legal calls.
#pragma once
#include "fmu.h"

enum Expect { XOk, XErr, XUnknown };

struct Track {
    Cfg cfg;
    Mode mode = Inst_;
    double start = 0, stop = 0, time = 0, cp = 0;
    bool stopDef = false;
    Dims d;
    bool eventPending = false;     // co-simulation: the last step asked for event handling
    bool terminated = false;       // the FMU asked to terminate
    bool nextEventDef = false;
    double nextEvent = 0;
    std::set<int> slots, bytes;
    std::map<int, Track*> saved;   // tracks by slot
    std::map<int, Track*> savedBytes;
    explicit Track(const Cfg& c) : cfg(c) {}
    int nx() const { return cfg.m->nx >= 0 ? cfg.m->nx : d.n; }
    void after(const Op& o, const Res& r);
    void restore(const Track& t);  // the part an FMU state carries
};

struct Weights {
    int get = 6, set = 4, step = 8, mode = 6, eval = 6, state = 2, ser = 1, illegal = 0, log = 1, reset = 1, term = 0, misc = 1;
    bool wildValues = false;
    int maxSteps = 60;             // solver steps per communication step
    bool stateSlots = true;
    bool reconfig = true;
    double startTime = 0; bool anyStart = true;
};
Weights swarm();                   // weights drawn for this run

Cfg genCfg(const std::vector<std::string>& names = {}, int onlyType = -1, int onlyVer = -1);
Op genOp(Instance& in, Track& t, const Weights& w);

// pieces of the generator
Op opGet(const Cfg& c, const Dims& d, const std::vector<const Var*>& vs);
Op opSet(const Cfg& c, const Var& v, const Dims& d, bool wild);
Op opAll(const Cfg& c, const Dims& d, Type t);
std::vector<const Var*> varsOf(const Cfg& c);
Expect setAllowed(const Cfg& c, const Var& v, Mode m);
uint64_t genValue(const Cfg& c, const Var& v, bool wild);
std::string genString(bool wild, size_t maxLen, bool nul);
Op genStep(const Track& t, int maxSteps);

// Reads every readable variable: one Get per type
std::vector<Op> readAllOps(const Cfg& c, const Dims& d);

// Executes and keeps the track up to date
Res step(Instance& in, Track& t, const Op& o);

// Brings a new instance to the start of the simulation phase
void initialize(Instance& in, Track& t, double start, bool stopDef, double stop);
