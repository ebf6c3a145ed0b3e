// FMU libraries, instances and calls. A call is a value (Op) with concrete arguments, so
// that a history can be recorded, executed again and compared result by result.
#pragma once
#include "core.h"
#include "seams.h"
#include "models.h"
#include "fmi2TypesPlatform.h"
#include "fmi2FunctionTypes.h"
#include "fmi3PlatformTypes.h"
#include "fmi3FunctionTypes.h"

#define FMI2_FUNS(X) \
X(GetTypesPlatform) X(GetVersion) X(SetDebugLogging) X(Instantiate) X(FreeInstance) X(SetupExperiment) \
X(EnterInitializationMode) X(ExitInitializationMode) X(Terminate) X(Reset) X(GetReal) X(GetInteger) \
X(GetBoolean) X(GetString) X(SetReal) X(SetInteger) X(SetBoolean) X(SetString) X(GetFMUstate) \
X(SetFMUstate) X(FreeFMUstate) X(SerializedFMUstateSize) X(SerializeFMUstate) X(DeSerializeFMUstate) \
X(GetDirectionalDerivative) X(EnterEventMode) X(NewDiscreteStates) X(EnterContinuousTimeMode) \
X(CompletedIntegratorStep) X(SetTime) X(SetContinuousStates) X(GetDerivatives) X(GetEventIndicators) \
X(GetContinuousStates) X(GetNominalsOfContinuousStates) X(SetRealInputDerivatives) \
X(GetRealOutputDerivatives) X(DoStep) X(CancelStep) X(GetStatus) X(GetRealStatus) X(GetIntegerStatus) \
X(GetBooleanStatus) X(GetStringStatus)

#define FMI3_FUNS(X) \
X(GetVersion) X(SetDebugLogging) X(InstantiateModelExchange) X(InstantiateCoSimulation) \
X(InstantiateScheduledExecution) X(FreeInstance) X(EnterInitializationMode) X(ExitInitializationMode) \
X(EnterEventMode) X(Terminate) X(Reset) X(GetFloat32) X(GetFloat64) X(GetInt8) X(GetUInt8) X(GetInt16) \
X(GetUInt16) X(GetInt32) X(GetUInt32) X(GetInt64) X(GetUInt64) X(GetBoolean) X(GetString) X(GetBinary) \
X(GetClock) X(SetFloat32) X(SetFloat64) X(SetInt8) X(SetUInt8) X(SetInt16) X(SetUInt16) X(SetInt32) \
X(SetUInt32) X(SetInt64) X(SetUInt64) X(SetBoolean) X(SetString) X(SetBinary) X(SetClock) \
X(GetNumberOfVariableDependencies) X(GetVariableDependencies) X(GetFMUState) X(SetFMUState) \
X(FreeFMUState) X(SerializedFMUStateSize) X(SerializeFMUState) X(DeserializeFMUState) \
X(GetDirectionalDerivative) X(GetAdjointDerivative) X(EnterConfigurationMode) X(ExitConfigurationMode) \
X(GetIntervalDecimal) X(GetIntervalFraction) X(GetShiftDecimal) X(GetShiftFraction) X(SetIntervalDecimal) \
X(SetIntervalFraction) X(SetShiftDecimal) X(SetShiftFraction) X(EvaluateDiscreteStates) \
X(UpdateDiscreteStates) X(EnterContinuousTimeMode) X(CompletedIntegratorStep) X(SetTime) \
X(SetContinuousStates) X(GetContinuousStateDerivatives) X(GetEventIndicators) X(GetContinuousStates) \
X(GetNominalsOfContinuousStates) X(GetNumberOfEventIndicators) X(GetNumberOfContinuousStates) \
X(EnterStepMode) X(GetOutputDerivatives) X(DoStep) X(ActivateModelPartition)

struct Fmi2 {
#define X(n) fmi2##n##TYPE* n;
    FMI2_FUNS(X)
#undef X
};
struct Fmi3 {
#define X(n) fmi3##n##TYPE* n;
    FMI3_FUNS(X)
#undef X
};

struct Lib {
    const Model* m; int ver; void* h; std::string path;
    Fmi2 f2; Fmi3 f3;
};

extern std::string libDir;
Lib* lib(const Model* m, int ver);       // loads on first use
void reloadLib(Lib* l);                  // crash/restart: fresh static data
void preloadLibs();

// ---------------------------------------------------------------- instances

struct LogMsg {
    int status; std::string category, message; bool envOk, nameOk;
    bool operator==(const LogMsg& o) const { return status == o.status && category == o.category && message == o.message && envOk == o.envOk && nameOk == o.nameOk; }
};

struct IuRec {
    double time; int flags; bool envOk;
    std::vector<uint64_t> vals; int status;
    bool operator==(const IuRec& o) const { return dbits(time) == dbits(o.time) && flags == o.flags && envOk == o.envOk && vals == o.vals && status == o.status; }
};

struct Cfg {
    const Model* m = nullptr; int ver = 3; IfType type = CS;
    bool logging = false, logger = true, eventMode = false, early = false, iu = false, locks = true;
    std::vector<uint32_t> iuRead;        // Float64 variables read inside the intermediate update
    std::string name = "instance", res = "/unzipped/resources/";
    int wrongToken = 0;                  // kind of wrong token, 0: the right one
    bool noName = false;
};

struct Op;
struct Res;

struct Instance {
    Cfg cfg; Lib* l = nullptr; void* c = nullptr;
    std::vector<LogMsg> logs; std::vector<IuRec> ius;
    std::map<int, void*> slots;          // FMU states
    std::map<int, std::vector<char>> bytes;   // serialized FMU states (durable)
    bool inCall = false; int curKind = -1;
    int clockUpdates = 0;
    int gen = 0;                         // which process it lives in: before (0) or after (1) a crash
    std::function<void(double)> onIu;    // extra behaviour in the intermediate update
    std::function<void()> onClockUpdate, onLog;
    std::vector<uint64_t> clockSeen;     // history of the clock-update polling
    Res (*dummy)(Op&) = nullptr;
};

extern bool firstProcessDead;
extern const char* const formatMark;    // occurs in hostile text
bool create(Instance& in);               // false: instantiation returned no instance
void destroy(Instance& in);              // frees the FMU states and the instance

// ---------------------------------------------------------------- calls

enum OpK {
    OSetDebug, OEnterInit, OExitInit, OTerminate, OReset, OGet, OSet,
    OEnterEvent, OUpdate, OEnterCont, OEnterStep, OEnterConf, OExitConf,
    OSetTime, OSetStates, OGetStates, OGetDers, OGetInds, OGetNoms, OCompleted, OGetNx, OGetNz,
    ODoStep, OOutDer, ODirDer, OAdjDer,
    OGetState, OSetState, OFreeState, OSerSize, OSer, ODeser,
    OSetup,                               // FMI 2 SetupExperiment
    OStatus, OCancel, OInDer,             // FMI 2
    OGetClock, OSetClock, OGetInterval, OActivate, OMisc, NOPS
};
extern const char* opName[];

struct Op {
    OpK k; Type t = F64;
    std::vector<uint32_t> vr, vr2;
    std::vector<uint64_t> num;            // bit patterns of numeric values
    std::vector<std::string> str;         // strings, binaries, categories
    size_t n = 0;                         // number of values expected by a read
    double a = 0, b = 0, c = 0;
    int i = 0, slot = 0;
    bool f = false, g = false;
    int nul = 0;                          // 1: references null, 2: values null, 4: sizes null
    int wrong = 0;                        // difference added to nValues
    bool nullInstance = false;
};

struct Res {
    int status = 0;
    std::vector<uint64_t> num; std::vector<std::string> str;
    std::vector<LogMsg> logs; std::vector<IuRec> ius;
    uint64_t faults = 0;                  // allocation failures injected during the call
    bool ok() const { return status <= 1; }
};

std::string describe(const Op& o);
std::string describe(const Op& o, const Res& r);
Res exec(Instance& in, const Op& o);
extern bool quietCalls;                  // results go into the hash of the history but not into its text
// true if statuses and (if successful) outputs agree
bool same(const Op& o, const Res& a, const Res& b, std::string* why);

extern const char* statusName[];
