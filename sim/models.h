// What the simulator knows about the reference models: variables, interface
// capabilities and the published equations (the executable reference model).
#pragma once
#include "core.h"

enum Type { F32, F64, I8, U8, I16, U16, I32, U32, I64, U64, BOO, STR, BIN, NTYPES };
extern const char* typeName[];
size_t typeSize(Type t);

enum IfType { ME, CS, SE };
enum Mode { Inst_, Conf_, Init_, Event_, Cont_, Step_, ClockAct_, Reconf_, Term_, NMODES };
extern const char* modeName[];

enum Kind { KTime, KConst, KFixed, KTun, KInC, KInD, KOut, KState, KDer, KStruct, KX0 };

struct Var {
    uint32_t vr; Type t; const char* name; Kind kind;
    double start;            // numeric start value
    const char* sstart;      // string or binary start value
    int vers;                // bit 1<<2: FMI 2, 1<<3: FMI 3
    int dims;                // 0 scalar, else index of the StateSpace array (see arraySize)
};

struct Model {
    const char* name; const char* token;
    bool fmi2, fmi3, me, cs, se;
    bool eventUpdate;        // event mode supported in co-simulation
    int nx, nz;              // -1: depends on the sizes
    double h, stop;          // solver step, default stop time
    std::vector<Var> vars;
    const Var* var(uint32_t vr) const { for (auto& v : vars) if (v.vr == vr) return &v; return nullptr; }
};

extern std::vector<Model> models;
const Model* model(const std::string& name);

// sizes of StateSpace; other models ignore them
struct Dims { int m = 3, n = 3, r = 3; };
size_t arraySize(const Var& v, const Dims& d);

// ---------------------------------------------------------------- reference equations
// A reference state is one model's variables by value reference (numeric only).
typedef std::map<uint32_t, double> RefVals;

// Derivatives of the states (in the order of the state vector) for the given values
void refDerivatives(const Model& m, const RefVals& v, std::vector<double>& dx);
std::vector<uint32_t> stateVrs(const Model& m);
std::vector<uint32_t> derVrs(const Model& m);
std::vector<double> refIndicators(const Model& m, const RefVals& v);
