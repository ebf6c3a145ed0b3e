#include "models.h"
#include <cfloat>

const char* typeName[] = {"Float32", "Float64", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Boolean", "String", "Binary"};
const char* modeName[] = {"Instantiated", "Configuration", "Initialization", "Event", "ContinuousTime", "Step", "ClockActivation", "Reconfiguration", "Terminated"};

size_t typeSize(Type t) {
    switch (t) {
    case F32: case I32: case U32: return 4;
    case F64: case I64: case U64: return 8;
    case I8: case U8: case BOO: return 1;
    case I16: case U16: return 2;
    default: return 8;
    }
}

#define B2 (1 << 2)
#define B3 (1 << 3)
#define B23 (B2 | B3)

std::vector<Model> models = {
    {"BouncingBall", "{1AE5E10D-9521-4DE3-80B9-D0EAAA7D5AF1}", true, true, true, true, false, true, 2, 1, 1e-3, 3, {
        {0, F64, "time", KTime, 0, nullptr, B23, 0},
        {1, F64, "h", KState, 1, nullptr, B23, 0},
        {2, F64, "der(h)", KDer, 0, nullptr, B23, 0},
        {3, F64, "v", KState, 0, nullptr, B23, 0},
        {4, F64, "der(v)", KDer, 0, nullptr, B23, 0},
        {5, F64, "g", KFixed, -9.81, nullptr, B23, 0},
        {6, F64, "e", KTun, 0.7, nullptr, B23, 0},
        {7, F64, "v_min", KConst, 0.1, nullptr, B23, 0}}},
    {"Dahlquist", "{221063D2-EF4A-45FE-B954-B5BFEEA9A59B}", true, true, true, true, false, false, 1, 0, 0.1, 10, {
        {0, F64, "time", KTime, 0, nullptr, B23, 0},
        {1, F64, "x", KState, 1, nullptr, B23, 0},
        {2, F64, "der(x)", KDer, 0, nullptr, B23, 0},
        {3, F64, "k", KFixed, 1, nullptr, B23, 0}}},
    {"VanDerPol", "{BD403596-3166-4232-ABC2-132BDF73E644}", true, true, true, true, false, false, 2, 0, 1e-2, 20, {
        {0, F64, "time", KTime, 0, nullptr, B23, 0},
        {1, F64, "x0", KState, 2, nullptr, B23, 0},
        {2, F64, "der(x0)", KDer, 0, nullptr, B23, 0},
        {3, F64, "x1", KState, 0, nullptr, B23, 0},
        {4, F64, "der(x1)", KDer, 0, nullptr, B23, 0},
        {5, F64, "mu", KFixed, 1, nullptr, B23, 0}}},
    {"Stair", "{BD403596-3166-4232-ABC2-132BDF73E644}", true, true, true, true, false, true, 0, 0, 0.2, 10, {
        {0, F64, "time", KTime, 0, nullptr, B23, 0},
        {1, I32, "counter", KState, 1, nullptr, B23, 0}}},
    {"Feedthrough", "{37B954F1-CC86-4D8F-B97F-C7C36F6670D2}", true, true, true, true, false, true, 0, 0, 0.1, 2, {
        {0, F64, "time", KTime, 0, nullptr, B23, 0},
        {1, F32, "Float32_continuous_input", KInC, 0, nullptr, B3, 0},
        {2, F32, "Float32_continuous_output", KOut, 0, nullptr, B3, 0},
        {3, F32, "Float32_discrete_input", KInD, 0, nullptr, B3, 0},
        {4, F32, "Float32_discrete_output", KOut, 0, nullptr, B3, 0},
        {5, F64, "Float64_fixed_parameter", KFixed, 0, nullptr, B23, 0},
        {6, F64, "Float64_tunable_parameter", KTun, 0, nullptr, B23, 0},
        {7, F64, "Float64_continuous_input", KInC, 0, nullptr, B23, 0},
        {8, F64, "Float64_continuous_output", KOut, 0, nullptr, B23, 0},
        {9, F64, "Float64_discrete_input", KInD, 0, nullptr, B23, 0},
        {10, F64, "Float64_discrete_output", KOut, 0, nullptr, B23, 0},
        {11, I8, "Int8_input", KInD, 0, nullptr, B3, 0},
        {12, I8, "Int8_output", KOut, 0, nullptr, B3, 0},
        {13, U8, "UInt8_input", KInD, 0, nullptr, B3, 0},
        {14, U8, "UInt8_output", KOut, 0, nullptr, B3, 0},
        {15, I16, "Int16_input", KInD, 0, nullptr, B3, 0},
        {16, I16, "Int16_output", KOut, 0, nullptr, B3, 0},
        {17, U16, "UInt16_input", KInD, 0, nullptr, B3, 0},
        {18, U16, "UInt16_output", KOut, 0, nullptr, B3, 0},
        {19, I32, "Int32_input", KInD, 0, nullptr, B23, 0},
        {20, I32, "Int32_output", KOut, 0, nullptr, B23, 0},
        {21, U32, "UInt32_input", KInD, 0, nullptr, B3, 0},
        {22, U32, "UInt32_output", KOut, 0, nullptr, B3, 0},
        {23, I64, "Int64_input", KInD, 0, nullptr, B3, 0},
        {24, I64, "Int64_output", KOut, 0, nullptr, B3, 0},
        {25, U64, "UInt64_input", KInD, 0, nullptr, B3, 0},
        {26, U64, "UInt64_output", KOut, 0, nullptr, B3, 0},
        {27, BOO, "Boolean_input", KInD, 0, nullptr, B23, 0},
        {28, BOO, "Boolean_output", KOut, 0, nullptr, B23, 0},
        {29, STR, "String_input", KInD, 0, "Set me!", B23, 0},
        {30, STR, "String_output", KOut, 0, "Set me!", B23, 0},
        {31, BIN, "Binary_input", KInD, 0, "foo", B3, 0},
        {32, BIN, "Binary_output", KOut, 0, "foo", B3, 0},
        {33, I64, "Enumeration_input", KInD, 1, nullptr, B3, 0},
        {34, I64, "Enumeration_output", KOut, 1, nullptr, B3, 0},
        {33, I32, "Enumeration_input", KInD, 1, nullptr, B2, 0},
        {34, I32, "Enumeration_output", KOut, 1, nullptr, B2, 0}}},
    {"Resource", "{7b9c2114-2ce5-4076-a138-2cbc69e069e5}", true, true, true, true, false, false, 0, 0, 1, 1, {
        {0, F64, "time", KTime, 0, nullptr, B23, 0},
        {1, I32, "y", KOut, 0, nullptr, B23, 0}}},
    {"Roberts", "{1AE5E10D-9521-4DE3-80B9-D0EAAA7D5AF2}", false, true, true, true, false, false, 2, 2, 1e-6, 1, {
        {0, F64, "time", KTime, 0, nullptr, B3, 0},
        {1, BOO, "dae", KFixed, 0, nullptr, B3, 0},
        {2, F64, "y1", KState, 1, nullptr, B3, 0},
        {3, F64, "der(y1)", KDer, 0, nullptr, B3, 0},
        {4, F64, "y2", KState, 0, nullptr, B3, 0},
        {5, F64, "der(y2)", KDer, 0, nullptr, B3, 0},
        {6, F64, "y3", KOut, 0, nullptr, B3, 0},
        {8, F64, "r", KOut, 0, nullptr, B3, 0}}},
    {"StateSpace", "{D773325B-AB94-4630-BF85-643EB24FCB78}", false, true, true, true, false, true, -1, 0, 1e-3, 10, {
        {0, F64, "time", KTime, 0, nullptr, B3, 0},
        {1, U64, "m", KStruct, 3, nullptr, B3, 0},
        {2, U64, "n", KStruct, 3, nullptr, B3, 0},
        {3, U64, "r", KStruct, 3, nullptr, B3, 0},
        {4, F64, "A", KTun, 0, nullptr, B3, 1},
        {5, F64, "B", KTun, 0, nullptr, B3, 2},
        {6, F64, "C", KTun, 0, nullptr, B3, 3},
        {7, F64, "D", KTun, 0, nullptr, B3, 4},
        {8, F64, "x0", KX0, 0, nullptr, B3, 5},
        {9, F64, "u", KInC, 0, nullptr, B3, 6},
        {10, F64, "y", KOut, 0, nullptr, B3, 7},
        {11, F64, "x", KState, 0, nullptr, B3, 8},
        {12, F64, "der(x)", KDer, 0, nullptr, B3, 9}}},
    {"Clocks", "{C5F142BA-B849-42DA-B4A1-4745BFF3BE28}", false, true, false, false, true, true, 0, 0, 1, 3, {
        {0, F64, "time", KTime, 0, nullptr, B3, 0},
        {2001, I32, "inClock1Ticks", KOut, 0, nullptr, B3, 0},
        {2002, I32, "inClock2Ticks", KOut, 0, nullptr, B3, 0},
        {2003, I32, "inClock3Ticks", KOut, 0, nullptr, B3, 0},
        {2004, I32, "totalInClockTicks", KOut, 0, nullptr, B3, 0},
        {2005, I32, "result2", KOut, 0, nullptr, B3, 0},
        {2006, I32, "input2", KInD, 0, nullptr, B3, 0},
        {2007, I32, "output3", KOut, 0, nullptr, B3, 0}}},
};

const Model* model(const std::string& name) {
    for (auto& m : models) if (name == m.name) return &m;
    return nullptr;
}

size_t arraySize(const Var& v, const Dims& d) {
    switch (v.dims) {
    case 1: return (size_t)(d.n * d.n);
    case 2: return (size_t)(d.n * d.m);
    case 3: return (size_t)(d.r * d.n);
    case 4: return (size_t)(d.r * d.m);
    case 5: case 8: case 9: return (size_t)d.n;
    case 6: return (size_t)d.m;
    case 7: return (size_t)d.r;
    default: return 1;
    }
}

std::vector<uint32_t> stateVrs(const Model& m) {
    std::vector<uint32_t> r;
    if (m.nx > 0) for (auto& v : m.vars) if (v.kind == KState) r.push_back(v.vr);
    return r;
}

std::vector<uint32_t> derVrs(const Model& m) {
    std::vector<uint32_t> r;
    if (m.nx > 0) for (auto& v : m.vars) if (v.kind == KDer) r.push_back(v.vr);
    return r;
}

static double at(const RefVals& v, uint32_t vr) { auto it = v.find(vr); return it == v.end() ? 0 : it->second; }

void refDerivatives(const Model& m, const RefVals& v, std::vector<double>& dx) {
    std::string n = m.name;
    dx.clear();
    if (n == "BouncingBall") {
        dx = {at(v, 3), at(v, 5)};
    } else if (n == "Dahlquist") {
        dx = {-at(v, 3) * at(v, 1)};
    } else if (n == "VanDerPol") {
        double x0 = at(v, 1), x1 = at(v, 3), mu = at(v, 5);
        dx = {x1, mu * ((1.0 - x0 * x0) * x1) - x0};
    } else if (n == "Roberts") {
        double y1 = at(v, 2), y2 = at(v, 4), y3 = at(v, 1) != 0 ? at(v, 6) : 1.0 - y1 - y2;
        dx = {-0.04 * y1 + 1e4 * y2 * y3, 0.04 * y1 - 1e4 * y2 * y3 - 3e7 * y2 * y2};
    }
}

std::vector<double> refIndicators(const Model& m, const RefVals& v) {
    std::string n = m.name;
    if (n == "BouncingBall") {
        double h = at(v, 1), vel = at(v, 3);
        return {(h > -1e-10 && h <= 0 && vel > 0) ? -1e-10 : h};
    }
    if (n == "Roberts") {
        double y1 = at(v, 2), y2 = at(v, 4), y3 = at(v, 1) != 0 ? at(v, 6) : 1.0 - y1 - y2;
        return {y1 - 1e-4, y3 - 0.01};
    }
    return {};
}
