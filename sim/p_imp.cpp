#include <functional>
// The importer library (C17, C18): the real FMI.c, FMI2.c and FMI3.c drive a simulated FMU
// that records what it is called with and answers with planned statuses and values.
#include "core.h"
#include "seams.h"
extern "C" {
#include "FMI2.h"
#include "FMI3.h"
}
#include <dlfcn.h>
#include <cmath>
#include <cstdlib>
#include <type_traits>
#include <utility>

extern std::string libDir;

namespace {

// ---------------------------------------------------------------- functions

// Layout of the arguments after the instance:
//   s   number            iN  input array, argument N is its length     oN  output array
//   q   single output     aN  input array reported by address           bN  output array reported by address
//   p   opaque pointer    P   pointer to an opaque pointer              r   single output reported by address
#define FUNS3(X) \
    X(SetDebugLogging, "s s i1") X(EnterInitializationMode, "s s s s s") X(ExitInitializationMode, "") X(EnterEventMode, "") \
    X(Terminate, "") X(Reset, "") \
    X(GetFloat32, "i1 s o3 s") X(GetFloat64, "i1 s o3 s") X(GetInt8, "i1 s o3 s") X(GetUInt8, "i1 s o3 s") \
    X(GetInt16, "i1 s o3 s") X(GetUInt16, "i1 s o3 s") X(GetInt32, "i1 s o3 s") X(GetUInt32, "i1 s o3 s") \
    X(GetInt64, "i1 s o3 s") X(GetUInt64, "i1 s o3 s") X(GetBoolean, "i1 s o3 s") X(GetString, "i1 s o3 s") \
    X(GetBinary, "i1 s o4 o4 s") X(GetClock, "i1 s o1") \
    X(SetFloat32, "i1 s i3 s") X(SetFloat64, "i1 s i3 s") X(SetInt8, "i1 s i3 s") X(SetUInt8, "i1 s i3 s") \
    X(SetInt16, "i1 s i3 s") X(SetUInt16, "i1 s i3 s") X(SetInt32, "i1 s i3 s") X(SetUInt32, "i1 s i3 s") \
    X(SetInt64, "i1 s i3 s") X(SetUInt64, "i1 s i3 s") X(SetBoolean, "i1 s i3 s") X(SetString, "i1 s i3 s") \
    X(SetBinary, "i1 s i4 i4 s") X(SetClock, "i1 s i1") \
    X(GetNumberOfVariableDependencies, "s r") X(GetVariableDependencies, "s b5 b5 b5 b5 s") \
    X(GetFMUState, "P") X(SetFMUState, "p") X(FreeFMUState, "P") X(SerializedFMUStateSize, "p q") \
    X(SerializeFMUState, "p b2 s") X(DeserializeFMUState, "a1 s P") \
    X(GetDirectionalDerivative, "a1 s a3 s a5 s b7 s") X(GetAdjointDerivative, "a1 s a3 s a5 s b7 s") \
    X(EnterConfigurationMode, "") X(ExitConfigurationMode, "") \
    X(GetIntervalDecimal, "a1 s b1 b1") X(GetIntervalFraction, "a1 s b1 b1 b1") X(GetShiftDecimal, "a1 s b1") \
    X(GetShiftFraction, "a1 s b1 b1") X(SetIntervalDecimal, "a1 s a1") X(SetIntervalFraction, "a1 s a1 a1") \
    X(SetShiftDecimal, "a1 s a1") X(SetShiftFraction, "a1 s a1 a1") X(EvaluateDiscreteStates, "") \
    X(UpdateDiscreteStates, "q q q q q q") X(EnterContinuousTimeMode, "") X(CompletedIntegratorStep, "s q q") \
    X(SetTime, "s") X(SetContinuousStates, "i1 s") X(GetContinuousStateDerivatives, "o1 s") X(GetEventIndicators, "o1 s") \
    X(GetContinuousStates, "o1 s") X(GetNominalsOfContinuousStates, "o1 s") X(GetNumberOfEventIndicators, "q") \
    X(GetNumberOfContinuousStates, "q") X(EnterStepMode, "") X(GetOutputDerivatives, "a1 s a1 b4 s") \
    X(DoStep, "s s s q q q q") X(ActivateModelPartition, "s s")

#define FUNS2(X) \
    X(SetDebugLogging, "s s i1") X(SetupExperiment, "s s s s s") X(EnterInitializationMode, "") X(ExitInitializationMode, "") \
    X(Terminate, "") X(Reset, "") \
    X(GetReal, "i1 s o1") X(GetInteger, "i1 s o1") X(GetBoolean, "i1 s o1") X(GetString, "i1 s o1") \
    X(SetReal, "i1 s i1") X(SetInteger, "i1 s i1") X(SetBoolean, "i1 s i1") X(SetString, "i1 s i1") \
    X(GetFMUstate, "P") X(SetFMUstate, "p") X(FreeFMUstate, "P") X(SerializedFMUstateSize, "p q") \
    X(SerializeFMUstate, "p b2 s") X(DeSerializeFMUstate, "a1 s P") X(GetDirectionalDerivative, "i1 s i3 s i3 o1")
#define FUNS2ME(X) \
    X(EnterEventMode, "") X(NewDiscreteStates, "q") X(EnterContinuousTimeMode, "") X(CompletedIntegratorStep, "s q q") \
    X(SetTime, "s") X(SetContinuousStates, "i1 s") X(GetDerivatives, "o1 s") X(GetEventIndicators, "o1 s") \
    X(GetContinuousStates, "o1 s") X(GetNominalsOfContinuousStates, "o1 s")
#define FUNS2CS(X) \
    X(SetRealInputDerivatives, "a1 s a1 a1") X(GetRealOutputDerivatives, "a1 s a1 b1") X(DoStep, "s s s") X(CancelStep, "") \
    X(GetStatus, "s q") X(GetRealStatus, "s q") X(GetIntegerStatus, "s q") X(GetBooleanStatus, "s q") X(GetStringStatus, "s q")

struct Inst;
struct Fn {
    int ver, type;                       // type: -1 every, 0 Model Exchange, 1 Co-Simulation
    const char* name;
    const char* layout;
    void* stub;
    void (*run)(Inst&, const Fn&);
    void* wrapper;
    std::string symbol() const { return fmtStr("fmi%d%s", ver, name); }
};
extern std::vector<Fn> fns;

// ---------------------------------------------------------------- the call in progress

struct Slot {
    char k;
    int n;                               // argument that holds the length
    size_t count = 1, es = 0;
    std::vector<uint8_t> given, plan;    // contents at the call; what the FMU writes
    std::vector<std::string> texts;      // of elements that are strings or binaries
    uint8_t* mem = nullptr;              // exactly as large as the argument
};
struct Call {
    int fn = -1;
    void* comp = nullptr;
    int status = 0;
    bool fill = true;                    // the FMU writes its outputs
    int calls = 0;
    bool returned = false;
    std::vector<Slot> slots;
    Inst* inst = nullptr;
    // a message of the FMU during the call
    bool message = false;
    int msgStatus = 0;
    std::string msgCategory, msgText;
} cur;

struct Handle { std::string path; int closed = 0; };
struct LogLine { int status; std::string text; bool afterReturn; };
struct Message { int status; std::string category, text; };

struct Inst {
    FMIInstance* fi = nullptr;
    int ver = 3, type = 1;
    Handle* h = nullptr;
    bool logCalls = false, logMessages = false;
    std::string name;
    void* comp = nullptr;                // what the FMU returned
    void* env = nullptr;                 // what the FMU was given
    fmi3LogMessageCallback log3 = nullptr;
    const fmi2CallbackFunctions* cb2 = nullptr;
    bool conf = false;
    std::vector<LogLine> lines;
    std::vector<Message> messages;
};
std::vector<Inst*> insts;
std::map<const FMIInstance*, Inst*> byFi;
char comps[64];
int nComps;
std::vector<Handle*> handles;
bool faults;                             // C18

Inst* find(FMIInstance* fi, const char* what) {
    auto it = byFi.find(fi);
    if (it != byFi.end()) return it->second;
    if (cur.inst && !cur.inst->fi) return cur.inst;
    failLater("environment", "%s was called with an unknown instance", what);
    return nullptr;
}

void onCall(FMIInstance* fi, FMIStatus status, const char* message) {
    Inst* x = find(fi, "the call log");
    if (!x) return;
    if (!message) { failLater("null-message", "a call was logged without a message"); return; }
    x->lines.push_back({(int)status, message, cur.returned});
}

void onMessage(FMIInstance* fi, FMIStatus status, const char* category, const char* message) {
    Inst* x = find(fi, "the log");
    if (x) x->messages.push_back({(int)status, category ? category : "(null)", message ? message : "(null)"});
}

void quiet(const char*, va_list) {}

// messages of the FMU
void emit() {
    if (!cur.message || !cur.inst) return;
    Inst& x = *cur.inst;
    if (x.ver == 3) {
        if (x.log3) x.log3(x.env, (fmi3Status)cur.msgStatus, cur.msgCategory.c_str(), cur.msgText.c_str());
    } else if (x.cb2 && x.cb2->logger) {
        x.cb2->logger(x.cb2->componentEnvironment, x.name.c_str(), (fmi2Status)cur.msgStatus, cur.msgCategory.c_str(), "%s", cur.msgText.c_str());
    }
}

// ---------------------------------------------------------------- the FMU's side

template <class E> bool sameElements(const Slot& s, const E* a) { return memcmp(a, s.given.data(), s.count * sizeof(E)) == 0; }
bool sameText(const Slot& s, const char* const* a) {
    for (size_t i = 0; i < s.count; i++)
        if (!a[i] || s.texts[i] != a[i]) return false;
    return true;
}
bool sameBinary(const Slot& s, const uint8_t* const* a) {
    for (size_t i = 0; i < s.count; i++)
        if (!a[i] || memcmp(a[i], s.texts[i].data(), s.texts[i].size())) return false;
    return true;
}

template <class A> void take(size_t i, A a) {
    Slot& s = cur.slots[i];
    bool good = true;
    switch (s.k) {
    case 's': case 'p':
        if constexpr (std::is_floating_point<A>::value) {
            A b;
            memcpy(&b, s.given.data(), sizeof b);
            good = memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b);
        } else good = s.given.size() == sizeof a && memcmp(&a, s.given.data(), sizeof a) == 0;
        break;
    case 'i': case 'a':
        if (!s.count) break;
        if constexpr (std::is_pointer<A>::value) {
            typedef typename std::remove_cv<typename std::remove_pointer<A>::type>::type E;
            if (!a) good = false;
            else if constexpr (std::is_same<E, const char*>::value) good = sameText(s, a);
            else if constexpr (std::is_same<E, const uint8_t*>::value) good = sameBinary(s, a);
            else if constexpr (!std::is_void<E>::value) good = sameElements(s, a);
        }
        break;
    default:
        if constexpr (std::is_pointer<A>::value && !std::is_const<typename std::remove_pointer<A>::type>::value && !std::is_void<typename std::remove_pointer<A>::type>::value) {
            if (s.count && !a) good = false;
            else if (cur.fill && s.count) memcpy((void*)a, s.plan.data(), s.plan.size());
        }
    }
    if (!good) failLater("argument", "argument %zu of %s is not the one given", i + 1, fns[cur.fn].symbol().c_str());
}

template <int ID, class F> struct Stub;
template <int ID, class R, class C, class... A> struct Stub<ID, R(C, A...)> {
    static R call(C c, A... a) {
        countCall();
        cur.calls++;
        if (cur.fn != ID) {
            failLater("forward", "the FMU received %s instead of %s", fns[ID].symbol().c_str(), cur.fn >= 0 ? fns[cur.fn].symbol().c_str() : "no call");
            return (R)3;
        }
        if ((void*)c != cur.comp) failLater("forward", "%s was called with another instance", fns[ID].symbol().c_str());
        args(std::index_sequence_for<A...>(), a...);
        emit();
        cur.returned = true;
        return (R)cur.status;
    }
    template <size_t... I> static void args(std::index_sequence<I...>, A... a) { (take<A>(I, a), ...); }
};

// ---------------------------------------------------------------- the caller's side

uint64_t mixState;
uint64_t mix() { mixState += 0x9e3779b97f4a7c15ull; uint64_t z = mixState; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

template <class T> T value(int style, size_t i) {
    if constexpr (std::is_same<T, bool>::value) return style ? mix() & 1 : false;
    else if constexpr (std::is_enum<T>::value) return (T)(style ? mix() % 3 : 0);
    else if constexpr (std::is_same<T, void*>::value) return (void*)&comps[style ? mix() % 64 : 0];
    else if constexpr (std::is_floating_point<T>::value) {
        switch (style) {
        case 0: return (T)(i % 10);
        case 1: return (T)(((double)(int64_t)mix()) / 9.2e12);
        case 2: return (T)std::ldexp((double)(int64_t)mix(), (int)(mix() % 60) - 90);
        default: {
            static const double odd[] = {-0.0, 1e300, -1e-300, INFINITY, -INFINITY, NAN, 0.1, 1.0 / 3, 123456789.125, 5e-10};
            return (T)odd[mix() % 10];
        }
        }
    } else if constexpr (std::is_integral<T>::value) return (T)(style == 0 ? i % 10 : style == 1 ? mix() % 1000 : mix());
    else {
        T v;
        memset(&v, 0, sizeof v);
        return v;
    }
}

std::string text(int style, bool binary) {
    if (!style) return binary ? std::string("\1") : std::string("a");
    size_t n;
    switch (mix() % (style == 3 ? 3 : 12)) {
    case 0: n = (size_t)(1024u << (mix() % 3)) - mix() % 260; break;
    case 1: n = mix() % 200; break;
    default: n = mix() % 9;
    }
    if (binary) n = n / 2;
    std::string s;
    static const char chars[] = "abcdefghijklmnopqrstuvwxyz0123456789 ,%{}()=\"\\%sn\t\xc3";
    for (size_t i = 0; i < n; i++) s += binary ? (char)mix() : chars[mix() % (sizeof chars - 1)];
    return s;
}

size_t genCount() {
    switch (CH.weighted({6, 6, 3, 2, 1})) {
    case 0: return 1 + CH.pick(3);
    case 1: return CH.pick(4) == 3 ? 0 : 1;
    case 2: return 4 + CH.pick(40);
    case 3: return 40 + CH.pick(260);
    default: return 300 + CH.pick(1200);
    }
}

template <class A> void prepare(std::vector<Slot>& all, size_t i) {
    Slot& s = all[i];
    if (s.k == 's') {
        typedef typename std::remove_cv<A>::type T;
        if constexpr (!std::is_pointer<T>::value) {
            T v;
            bool length = false;
            for (auto& o : all)
                if (o.n == (int)i) { length = true; v = (T)o.count; }
            if (!length) {
                int style = (int)CH.pick(4);
                mixState = style ? CH.bits(16) : 0;
                v = value<T>(style, 1);
            }
            s.given.assign((uint8_t*)&v, (uint8_t*)&v + sizeof v);
        }
    } else if constexpr (std::is_pointer<A>::value) {
        typedef typename std::remove_cv<typename std::remove_pointer<A>::type>::type E;
        if constexpr (std::is_void<E>::value) {
            void* v = &comps[CH.pick(64)];
            s.given.assign((uint8_t*)&v, (uint8_t*)&v + sizeof v);
        } else {
            s.es = sizeof(E);
            int style = (int)CH.pick(4);
            mixState = style ? CH.bits(16) : 0;
            bool out = s.k != 'i' && s.k != 'a';
            std::vector<uint8_t> b(s.count * sizeof(E));
            for (size_t j = 0; j < s.count; j++) {
                E e;
                if constexpr (std::is_same<E, const char*>::value || std::is_same<E, const uint8_t*>::value) {
                    s.texts.push_back(text(s.count > 100 && style == 3 ? 1 : style, std::is_same<E, const uint8_t*>::value));
                    e = nullptr;
                } else e = value<E>(style, j);
                memcpy(&b[j * sizeof(E)], &e, sizeof e);
            }
            // the sizes of binaries belong to the next argument
            if constexpr (std::is_same<E, const uint8_t*>::value) {
                Slot& z = all[i - 1];
                std::vector<uint8_t>& c = out ? z.plan : z.given;
                for (size_t j = 0; j < s.count; j++) {
                    size_t len = s.texts[j].size();
                    memcpy(&c[j * sizeof len], &len, sizeof len);
                }
            }
            if (out) {
                s.plan = b;
                // the array of a caller is not initialised: pointers in it are not valid
                s.given.assign(b.size(), std::is_pointer<E>::value ? 0x11 : std::is_same<E, bool>::value ? 0 : 0x41);
            } else s.given = b;
        }
    }
}

// elements that are pointers get their targets once all texts are there
template <class A> void finish(Slot& s) {
    if constexpr (std::is_pointer<A>::value) {
        typedef typename std::remove_cv<typename std::remove_pointer<A>::type>::type E;
        if constexpr (std::is_same<E, const char*>::value || std::is_same<E, const uint8_t*>::value) {
            std::vector<uint8_t>& b = s.k == 'i' || s.k == 'a' ? s.given : s.plan;
            for (size_t j = 0; j < s.count; j++) {
                const char* p = s.texts[j].c_str();
                memcpy(&b[j * sizeof p], &p, sizeof p);
            }
        }
    }
    s.mem = (uint8_t*)malloc(s.given.size() ? s.given.size() : 1);
    memcpy(s.mem, s.given.data(), s.given.size());
}

template <class A> A arg(Slot& s) {
    if (s.k == 's' || s.k == 'p') {
        typename std::remove_cv<A>::type v;
        memcpy((void*)&v, s.mem, sizeof v);
        return v;
    }
    if constexpr (std::is_pointer<A>::value) return (A)s.mem;
    else return A();
}

// ---------------------------------------------------------------- the message

struct Cursor {
    const std::string& s;
    size_t p = 0;
    bool lit(const char* t) { size_t n = strlen(t); if (s.compare(p, n, t)) return false; p += n; return true; }
    bool name() {
        while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_')) p++;
        return lit("=");
    }
    void skip(bool brace) {
        while (p < s.size() && !(brace ? s[p] == '}' : s[p] == ')' || s.compare(p, 2, ", ") == 0)) p++;
    }
};

template <class T> bool readNumber(Cursor& c, T v) {
    const char* b = c.s.c_str() + c.p;
    char* e;
    if constexpr (std::is_floating_point<T>::value) {
        double d = strtod(b, &e);
        if (e == b) return false;
        c.p += (size_t)(e - b);
        double x = (double)v;
        if (x != x || d != d) return x != x && d != d;
        return d == x || std::fabs(d - x) <= std::fabs(x) * (sizeof(T) == 4 ? 1e-6 : 1e-15);
    } else if constexpr (std::is_same<T, fmi2EventInfo>::value) {
        return c.lit("{") && c.name() && readNumber(c, v.newDiscreteStatesNeeded) && c.lit(", ") && c.name() && readNumber(c, v.terminateSimulation)
            && c.lit(", ") && c.name() && readNumber(c, v.nominalsOfContinuousStatesChanged) && c.lit(", ") && c.name() && readNumber(c, v.valuesOfContinuousStatesChanged)
            && c.lit(", ") && c.name() && readNumber(c, v.nextEventTimeDefined) && c.lit(", ") && c.name() && readNumber(c, v.nextEventTime) && c.lit("}");
    } else if constexpr (std::is_integral<T>::value || std::is_enum<T>::value) {
        if (!(isdigit((unsigned char)*b) || *b == '-')) return false;
        bool good;
        bool sign = false;
        if constexpr (std::is_integral<T>::value) {
            sign = std::is_signed<T>::value;
            if (!sign && *b == '-') return false;   // strtoull would accept it
        }
        if (sign) good = strtoll(b, &e, 10) == (long long)v;
        else good = strtoull(b, &e, 10) == (unsigned long long)v;
        c.p += (size_t)(e - b);
        return good;
    } else return false;
}

template <class A> bool readArg(Cursor& c, const Slot& s, bool filled, const Slot* prev) {
    typedef typename std::remove_cv<typename std::remove_pointer<A>::type>::type E;
    switch (s.k) {
    case 's':
        if constexpr (!std::is_pointer<A>::value) {
            typename std::remove_cv<A>::type v;
            memcpy(&v, s.given.data(), sizeof v);
            return readNumber(c, v);
        }
        return false;
    case 'i': case 'o': case 'q':
        break;
    default:
        c.skip(false);
        return true;
    }
    bool out = s.k != 'i';
    if (s.k != 'q' && !c.lit("{")) return false;
    if (out && !filled) {
        if constexpr (std::is_same<E, fmi2EventInfo>::value) {
            c.skip(true);
            return c.lit("}");
        }
        c.skip(s.k == 'o');
        return s.k == 'q' || c.lit("}");
    }
    const std::vector<uint8_t>& b = out ? s.plan : s.given;
    for (size_t j = 0; j < s.count; j++) {
        if (j && !c.lit(", ")) return false;
        if constexpr (std::is_same<E, const char*>::value) {
            if (!c.lit("\"") || c.s.compare(c.p, s.texts[j].size(), s.texts[j])) return false;
            c.p += s.texts[j].size();
            if (!c.lit("\"")) return false;
        } else if constexpr (std::is_same<E, const uint8_t*>::value) {
            if (!c.lit("0x")) return false;
            for (unsigned char ch : s.texts[j])
                if (!c.lit(fmtStr("%02x", ch).c_str())) return false;
        } else if constexpr (!std::is_void<E>::value && !std::is_pointer<E>::value) {
            E v;
            memcpy((void*)&v, &b[j * sizeof(E)], sizeof v);
            if (!readNumber(c, v)) return false;
        }
    }
    return s.k == 'q' || c.lit("}");
}

std::string shortened(const std::string& s, size_t at) {
    size_t a = at > 40 ? at - 40 : 0;
    return fmtStr("%s at character %zu of %zu", s.substr(a, 80).c_str(), at, s.size());
}

void planMessage(Inst& x) {
    cur.message = CH.chance(1, 5);
    if (!cur.message) return;
    cur.msgStatus = (int)CH.pick(5);
    cur.msgCategory = CH.of<std::string>({"logEvents", "logStatusError", "a%sb"});
    mixState = CH.bits(16);
    cur.msgText = text(1, false);
    if (cur.msgText.size() > 3000) cur.msgText.resize(3000);
    x.messages.clear();
}

void judgeMessages(Inst& x, const std::string& call) {
    bool expected = cur.message && cur.calls > 0 && x.logMessages;
    for (Inst* y : insts)
        if (y != &x && !y->messages.empty()) fail("wrong-instance", "a message of %s was delivered to another instance", x.name.c_str());
    if (!expected) {
        if (!x.messages.empty() && !faults) fail("spurious-message", "%s delivered the message \"%s\", which the FMU did not log", call.c_str(), x.messages[0].text.c_str());
        x.messages.clear();
        return;
    }
    if (x.messages.size() != 1) fail("message-count", "a message of the FMU during %s was delivered %zu times", call.c_str(), x.messages.size());
    Message& m = x.messages[0];
    if (m.status != cur.msgStatus || m.category != cur.msgCategory || m.text != cur.msgText)
        fail("message", "the FMU logged %d \"%s\" \"%s\", delivered was %d \"%s\" \"%s\"", cur.msgStatus, cur.msgCategory.c_str(), cur.msgText.substr(0, 80).c_str(), m.status, m.category.c_str(), m.text.substr(0, 80).c_str());
    probe("fmu_message_passed_on");
    x.messages.clear();
}

// one line about the call, with its status, after the FMU returned
const LogLine* judgeLines(Inst& x, const std::string& call, int status, uint64_t failed, bool order = true) {
    for (Inst* y : insts)
        if (y != &x && !y->lines.empty()) fail("wrong-instance", "%s of %s was logged for another instance", call.c_str(), x.name.c_str());
    if (!x.logCalls) {
        if (!x.lines.empty()) fail("call-log", "a call was logged without a callback");
        return nullptr;
    }
    if (failed && x.lines.empty()) return nullptr;
    if (x.lines.size() != 1) fail("call-log", "%s was logged %zu times", call.c_str(), x.lines.size());
    LogLine& l = x.lines[0];
    if (l.status != status) fail("call-log", "%s returned status %d, logged was %d", call.c_str(), status, l.status);
    if (order && !l.afterReturn) fail("call-log", "%s was logged before the FMU returned", call.c_str());
    if (failed) return nullptr;
    std::string start = call + "(";
    if (l.text.compare(0, start.size(), start)) fail("call-log", "%s was logged as: %s", call.c_str(), shortened(l.text, 0).c_str());
    return &l;
}

uint64_t armed;
void arm(int spread) {
    armed = allocStats().failed;
    if (!faults || !CH.chance(1, 3)) return;
    allocFailIn = (int64_t)CH.pick((uint64_t)spread);
    bool again = CH.chance(1, 3);
    allocNextFail = [again]() -> int64_t { return again ? 0 : -1; };
}
uint64_t disarm() {
    allocFailIn = -1;
    uint64_t n = allocStats().failed - armed;
    if (n) { tr("  %llu allocations failed", (unsigned long long)n); }
    return n;
}

template <class F> struct Wrap;
template <class R, class C, class... A> struct Wrap<R(C, A...)> {
    static void run(Inst& x, const Fn& f) { go(x, f, std::index_sequence_for<A...>()); }

    template <size_t... I> static void go(Inst& x, const Fn& f, std::index_sequence<I...>) {
        cur = Call();
        cur.fn = (int)(&f - fns.data());
        cur.comp = x.comp;
        cur.inst = &x;
        cur.status = CH.chance(1, 3) ? (int)CH.pick(x.ver == 2 ? 6 : 5) : 0;
        cur.fill = cur.status <= 1;
        if (cur.status > 1) fault("fmu_reports_failure");
        planMessage(x);
        std::vector<Slot>& s = cur.slots;
        for (const char* p = f.layout; *p;) {
            Slot a;
            a.k = *p++;
            a.n = -1;
            if (*p >= '0' && *p <= '9') a.n = *p++ - '0';
            if (*p == ' ') p++;
            s.push_back(a);
        }
        std::map<int, size_t> counts;
        for (auto& a : s)
            if (a.n >= 0) {
                if (!counts.count(a.n)) counts[a.n] = genCount();
                a.count = counts[a.n];
            }
        // value references and values often come in equal numbers
        if (s.size() >= 4 && s[0].n == 1 && s[2].n >= 3 && CH.chance(1, 2))
            for (auto& a : s)
                if (a.n >= 0) a.count = counts[1];
        (prepare<A>(s, I), ...);
        (finish<A>(s[I]), ...);
        arm(3);
        auto w = (FMIStatus(*)(FMIInstance*, A...))f.wrapper;
        int status = (int)w(x.fi, arg<A>(s[I])...);
        uint64_t failed = disarm();
        std::string call = f.symbol();
        std::string lens;
        for (auto& c : counts) lens += fmtStr(" %zu", c.second);
        tr("%s: %s lengths%s -> %d%s", x.name.substr(0, 20).c_str(), call.c_str(), lens.c_str(), status, failed ? " (no memory)" : "");
        for (auto& a : s) {
            uint64_t h = 7;
            for (uint8_t c : a.k == 'i' || a.k == 's' ? a.given : a.plan)
                if (a.texts.empty() && a.k != 'P') h = hmix(h, c);
            for (auto& t : a.texts) h = hmix(h, hstr(t.c_str()));
            trBits(h);
        }
        checkLater();
        schedPoint(hstr(call.c_str()));
        feature(hmix(hmix(hstr(call.c_str()), (uint64_t)cur.status), hmix(failed ? 1 : 0, x.logCalls)));
        if (cur.calls != 1) fail("forward", "the FMU received %d calls of %s", cur.calls, call.c_str());
        if (status != cur.status) fail("status", "%s returned %d, the FMU %d", call.c_str(), status, cur.status);
        for (size_t i = 0; i < s.size(); i++) {
            Slot& a = s[i];
            bool out = cur.fill && !strchr("siap", a.k);
            const std::vector<uint8_t>& want = out ? a.plan : a.given;
            if (!want.empty() && memcmp(a.mem, want.data(), want.size()))
                fail("output", "argument %zu of %s does not hold %s after the call", i + 1, call.c_str(), out ? "what the FMU wrote" : "what it held before");
        }
        judgeMessages(x, call);
        if (const LogLine* l = judgeLines(x, call, cur.status, failed)) {
            Cursor c{l->text};
            c.p = call.size() + 1;
            bool good = true;
            ((good = good && (I == 0 || c.lit(", ")) && c.name() && readArg<A>(c, s[I], cur.fill, I ? &s[I - 1] : nullptr)), ...);
            if (good) good = c.lit(")") && c.p == l->text.size();
            if (!good) fail("call-text", "the logged text of %s (lengths%s) is not complete and correct: %s", call.c_str(), lens.c_str(), shortened(l->text, c.p).c_str());
            if (l->text.size() >= 1024) probe("long_call_text");
        }
        x.lines.clear();
        for (auto& a : s) free(a.mem);
        x.conf = !strcmp(f.name, "EnterConfigurationMode");
    }
};

// ---------------------------------------------------------------- creation and destruction

// what the FMU is to do in the next instantiation, and what it received
struct Born {
    bool refuse = false;
    int calls = 0;
    std::string kind, name, token, path;
    bool visible = false, logging = false, eventMode = false, early = false, pathNull = false;
    std::vector<uint32_t> vars;
    void *iu = nullptr, *cu = nullptr, *lock = nullptr, *unlock = nullptr;
} want, got;
std::vector<uint32_t> wantVars;
int freed;
void* freedComp;

void* born(const char* kind, const char* name, const char* token, const char* path, bool visible, bool logging) {
    countCall();
    got = Born();
    got.kind = kind;
    got.name = name ? name : "(null)";
    got.token = token ? token : "(null)";
    got.pathNull = !path;
    got.path = path ? path : "";
    got.visible = visible;
    got.logging = logging;
    want.calls++;
    cur.calls++;
    cur.returned = true;
    if (want.refuse) return nullptr;
    cur.inst->comp = &comps[nComps++ % 64];
    return cur.inst->comp;
}

fmi3Instance me3(fmi3String name, fmi3String token, fmi3String path, fmi3Boolean visible, fmi3Boolean logging, fmi3InstanceEnvironment env, fmi3LogMessageCallback log) {
    cur.inst->env = env;
    cur.inst->log3 = log;
    emit();
    return born("fmi3InstantiateModelExchange", name, token, path, visible, logging);
}
fmi3Instance cs3(fmi3String name, fmi3String token, fmi3String path, fmi3Boolean visible, fmi3Boolean logging, fmi3Boolean eventMode, fmi3Boolean early,
                 const fmi3ValueReference vars[], size_t n, fmi3InstanceEnvironment env, fmi3LogMessageCallback log, fmi3IntermediateUpdateCallback iu) {
    cur.inst->env = env;
    cur.inst->log3 = log;
    emit();
    void* c = born("fmi3InstantiateCoSimulation", name, token, path, visible, logging);
    got.eventMode = eventMode;
    got.early = early;
    if (vars) got.vars.assign(vars, vars + n);
    got.iu = (void*)iu;
    return c;
}
fmi3Instance se3(fmi3String name, fmi3String token, fmi3String path, fmi3Boolean visible, fmi3Boolean logging, fmi3InstanceEnvironment env, fmi3LogMessageCallback log,
                 fmi3ClockUpdateCallback cu, fmi3LockPreemptionCallback lock, fmi3UnlockPreemptionCallback unlock) {
    cur.inst->env = env;
    cur.inst->log3 = log;
    emit();
    void* c = born("fmi3InstantiateScheduledExecution", name, token, path, visible, logging);
    got.cu = (void*)cu;
    got.lock = (void*)lock;
    got.unlock = (void*)unlock;
    return c;
}
fmi2Component inst2(fmi2String name, fmi2Type type, fmi2String guid, fmi2String path, const fmi2CallbackFunctions* cb, fmi2Boolean visible, fmi2Boolean logging) {
    cur.inst->cb2 = cb;
    cur.inst->env = cb ? cb->componentEnvironment : nullptr;
    emit();
    if (cb && (!cb->allocateMemory || !cb->freeMemory)) failLater("callbacks", "no memory callbacks were given to the FMU");
    else if (cb) {
        void* p = cb->allocateMemory(3, 5);
        if (p) { memset(p, 1, 15); cb->freeMemory(p); }
    }
    void* c = born("fmi2Instantiate", name, guid, path, visible, logging);
    got.eventMode = type == fmi2CoSimulation;
    return c;
}
void free3(fmi3Instance c) { countCall(); freed++; freedComp = c; cur.returned = true; }
void free2(fmi2Component c) { free3(c); }
const char* version() { countCall(); cur.calls++; cur.returned = true; return "the version"; }
const char* platform() { countCall(); cur.calls++; cur.returned = true; return "the platform"; }
void someIu(fmi3InstanceEnvironment, fmi3Float64, fmi3Boolean, fmi3Boolean, fmi3Boolean, fmi3Boolean, fmi3Boolean, fmi3Boolean*, fmi3Float64*) {}
void someCu(fmi3InstanceEnvironment) {}
void someLock() {}
void someUnlock() {}

// ---------------------------------------------------------------- tables

enum {
#define X(n, l) ID3_##n,
    FUNS3(X)
#undef X
#define X(n, l) ID2_##n,
    FUNS2(X) FUNS2ME(X) FUNS2CS(X)
#undef X
};
std::vector<Fn> fns = {
#define X(n, l) {3, -1, #n, l, (void*)&Stub<ID3_##n, fmi3##n##TYPE>::call, &Wrap<fmi3##n##TYPE>::run, nullptr},
    FUNS3(X)
#undef X
#define X(n, l) {2, -1, #n, l, (void*)&Stub<ID2_##n, fmi2##n##TYPE>::call, &Wrap<fmi2##n##TYPE>::run, nullptr},
    FUNS2(X)
#undef X
#define X(n, l) {2, 0, #n, l, (void*)&Stub<ID2_##n, fmi2##n##TYPE>::call, &Wrap<fmi2##n##TYPE>::run, nullptr},
    FUNS2ME(X)
#undef X
#define X(n, l) {2, 1, #n, l, (void*)&Stub<ID2_##n, fmi2##n##TYPE>::call, &Wrap<fmi2##n##TYPE>::run, nullptr},
    FUNS2CS(X)
#undef X
};
std::map<std::string, void*> symbols;

struct {
    decltype(&FMICreateInstance) create;
    decltype(&FMILoadPlatformBinary) load;
    decltype(&FMIFreeInstance) free;
    decltype(&FMI2Instantiate) inst2;
    decltype(&FMI2FreeInstance) free2;
    decltype(&FMI2GetVersion) version2;
    decltype(&FMI2GetTypesPlatform) platform2;
    decltype(&FMI3InstantiateModelExchange) me3;
    decltype(&FMI3InstantiateCoSimulation) cs3;
    decltype(&FMI3InstantiateScheduledExecution) se3;
    decltype(&FMI3FreeInstance) free3;
    decltype(&FMI3GetVersion) version3;
} api;
void* importer;

template <class T> void bindTo(T& t, const char* name) {
    t = (T)dlsym(importer, name);
    if (!t) { fprintf(stderr, "missing %s\n", name); exit(3); }
}

// ---------------------------------------------------------------- faults of the loader

int symCountdown;                        // -1: no lookup fails
bool symFailed, openFailed;

void setLoader() {
    loader.open = [](const char* path) -> void* {
        if (faults && CH.chance(1, 5)) {
            openFailed = true;
            fault("load_fails");
            return nullptr;
        }
        Handle* h = new Handle();
        h->path = path ? path : "(null)";
        handles.push_back(h);
        return h;
    };
    loader.sym = [](void* h, const char* sym) -> void* {
        Handle* x = nullptr;
        for (Handle* y : handles)
            if (y == h) x = y;
        if (!x || x->closed) { failLater("handle", "%s was looked up in a library that is not loaded", sym); return nullptr; }
        if (symCountdown == 0) {
            symCountdown = -1;
            symFailed = true;
            fault("lookup_fails");
            return nullptr;
        }
        if (symCountdown > 0) symCountdown--;
        auto it = symbols.find(sym);
        return it == symbols.end() ? nullptr : it->second;
    };
    loader.close = [](void* h) {
        for (Handle* y : handles)
            if (y == h) {
                if (y->closed++) failLater("handle", "a library was closed twice");
                return;
            }
        failLater("handle", "a library that was not loaded was closed");
    };
}

// ---------------------------------------------------------------- life of an instance

void drop(Inst& x) {
    byFi.erase(x.fi);
    cur = Call();
    cur.inst = &x;
    arm(2);
    api.free(x.fi);
    disarm();
    checkLater();
    tr("%s: FMIFreeInstance", x.name.substr(0, 20).c_str());
    if (x.h && x.h->closed != 1) fail("handle", "the library was not closed with its instance");
    x.fi = nullptr;
    x.h = nullptr;
    x.comp = nullptr;
    if (!x.messages.empty()) fail("spurious-message", "freeing the instance delivered a message");
    x.lines.clear();
}

bool make(Inst& x) {
    cur = Call();
    cur.inst = &x;
    mixState = CH.bits(8);
    x.name = CH.chance(1, 10) ? text(3, false) : fmtStr("inst%d", nComps++ % 64);
    x.logCalls = CH.chance(4, 5);
    x.logMessages = CH.chance(2, 3);
    std::string given = x.name;
    arm(4);
    x.fi = api.create(given.c_str(), x.logMessages ? onMessage : nullptr, x.logCalls ? onCall : nullptr);
    uint64_t failed = disarm();
    given.assign(given.size(), '#');     // the library must have its own copy
    tr("FMICreateInstance logCalls=%d logMessages=%d -> %s", x.logCalls, x.logMessages, x.fi ? "ok" : "null");
    checkLater();
    if (!x.fi) {
        if (!failed) fail("creation", "FMICreateInstance failed although no allocation failed");
        return false;
    }
    byFi[x.fi] = &x;
    return true;
}

bool loadLibrary(Inst& x) {
    openFailed = false;
    size_t before = handles.size();
    arm(2);
    int s = (int)api.load(x.fi, "/unzipped/binaries/model.so");
    uint64_t failed = disarm();
    tr("%s: FMILoadPlatformBinary -> %d", x.name.substr(0, 20).c_str(), s);
    checkLater();
    if (openFailed) {
        if (s <= 1) fail("load", "FMILoadPlatformBinary returned %d although the library could not be loaded", s);
        return false;
    }
    if (s != 0) {
        if (!failed) fail("load", "FMILoadPlatformBinary returned %d although the library was loaded", s);
        return false;
    }
    if (handles.size() != before + 1) fail("load", "the library was loaded %zu times", handles.size() - before);
    x.h = handles.back();
    return true;
}

bool instantiate(Inst& x) {
    cur = Call();
    cur.inst = &x;
    x.env = nullptr;
    x.log3 = nullptr;
    x.cb2 = nullptr;
    x.comp = nullptr;
    x.conf = false;
    x.lines.clear();
    x.messages.clear();
    want = got = Born();
    planMessage(x);
    want.refuse = CH.chance(1, 8);
    mixState = CH.bits(16);
    want.token = text((int)CH.pick(4), false);
    want.path = text((int)CH.pick(4), false);
    want.visible = CH.chance(1, 2);
    want.logging = CH.chance(1, 2);
    want.eventMode = CH.chance(1, 2);
    want.early = CH.chance(1, 2);
    symCountdown = faults && CH.chance(1, 3) ? (int)CH.pick(80) : -1;
    symFailed = false;
    arm(6);
    int s;
    if (x.ver == 2) {
        want.kind = "fmi2Instantiate";
        s = (int)api.inst2(x.fi, want.path.c_str(), x.type == 0 ? fmi2ModelExchange : fmi2CoSimulation, want.token.c_str(), want.visible, want.logging);
    } else if (x.type == 0) {
        want.kind = "fmi3InstantiateModelExchange";
        s = (int)api.me3(x.fi, want.token.c_str(), want.path.c_str(), want.visible, want.logging);
    } else if (x.type == 1) {
        want.kind = "fmi3InstantiateCoSimulation";
        size_t n = CH.pick(5);
        for (size_t i = 0; i < n; i++) want.vars.push_back((uint32_t)mix());
        want.iu = CH.chance(1, 2) ? (void*)someIu : nullptr;
        uint32_t* v = (uint32_t*)malloc(n * 4 + 1);
        if (n) memcpy(v, want.vars.data(), n * 4);
        s = (int)api.cs3(x.fi, want.token.c_str(), want.path.c_str(), want.visible, want.logging, want.eventMode, want.early, v, n, (fmi3IntermediateUpdateCallback)want.iu);
        free(v);
    } else {
        want.kind = "fmi3InstantiateScheduledExecution";
        bool cb = CH.chance(1, 2);
        if (cb) { want.cu = (void*)someCu; want.lock = (void*)someLock; want.unlock = (void*)someUnlock; }
        s = (int)api.se3(x.fi, want.token.c_str(), want.path.c_str(), want.visible, want.logging, nullptr, nullptr, cb ? someCu : nullptr, cb ? someLock : nullptr, cb ? someUnlock : nullptr);
    }
    symCountdown = -1;
    uint64_t failed = disarm();
    tr("%s: %s -> %d%s%s", x.name.substr(0, 20).c_str(), want.kind.c_str(), s, symFailed ? " (symbol missing)" : "", want.refuse ? " (refused)" : "");
    checkLater();
    feature(hmix(hstr(want.kind.c_str()), (uint64_t)(s * 4 + (failed ? 2 : 0) + symFailed)));
    if (symFailed && s <= 1) fail("instantiation", "%s returned %d although a function is missing", want.kind.c_str(), s);
    if (want.calls > 1) fail("forward", "the FMU was instantiated %d times", want.calls);
    if (s == 0 && !x.comp) fail("instantiation", "%s returned OK without an instance", want.kind.c_str());
    if (s != 0 && x.comp) fail("instantiation", "%s returned %d although the FMU was instantiated", want.kind.c_str(), s);
    if (s != 0 && !failed && !symFailed && !want.refuse) fail("instantiation", "%s returned %d without a fault", want.kind.c_str(), s);
    if (want.calls) {
        if (got.kind != want.kind || got.name != x.name || got.token != want.token || got.pathNull || got.path != want.path || got.visible != want.visible || got.logging != want.logging)
            fail("argument", "the FMU was instantiated with other arguments");
        if (x.ver == 2 && got.eventMode != (x.type == 1)) fail("argument", "the FMU was instantiated for another interface type");
        if (x.ver == 3 && (x.type == 1 ? got.eventMode != want.eventMode || got.early != want.early || got.vars != want.vars || got.iu != want.iu : got.cu != want.cu || got.lock != want.lock || got.unlock != want.unlock))
            fail("argument", "the FMU was instantiated with other arguments");
        judgeMessages(x, want.kind);
        if (const LogLine* l = judgeLines(x, want.kind, want.refuse ? 3 : 0, failed)) {
            for (auto& t : {x.name, want.token, want.path})
                if (l->text.find("\"" + t + "\"") == std::string::npos) fail("call-text", "the logged text of %s lacks an argument", want.kind.c_str());
            if (l->text.back() != ')') fail("call-text", "the logged text of %s is cut off", want.kind.c_str());
        }
    } else if (!x.lines.empty()) fail("call-log", "%s was logged although the FMU was not called", want.kind.c_str());
    x.lines.clear();
    x.messages.clear();
    return s == 0;
}

void release(Inst& x) {
    cur = Call();
    cur.inst = &x;
    freed = 0;
    freedComp = nullptr;
    arm(2);
    int s = 0;
    if (x.ver == 2) api.free2(x.fi);
    else s = (int)api.free3(x.fi);
    uint64_t failed = disarm();
    tr("%s: FreeInstance", x.name.substr(0, 20).c_str());
    checkLater();
    if (freed != 1 || freedComp != x.comp || s != 0) fail("forward", "freeing the FMU called it %d times", freed);
    judgeLines(x, fmtStr("fmi%dFreeInstance", x.ver), 0, failed);
    x.lines.clear();
    x.comp = nullptr;
}

void anyFunction(Inst& x) {
    if (CH.chance(1, 30)) {
        cur = Call();
        cur.inst = &x;
        bool p = x.ver == 2 && CH.chance(1, 2);
        std::string call = fmtStr("fmi%dGet%s", x.ver, p ? "TypesPlatform" : "Version");
        const char* v = p ? api.platform2(x.fi) : x.ver == 2 ? api.version2(x.fi) : api.version3(x.fi);
        tr("%s: %s", x.name.substr(0, 20).c_str(), call.c_str());
        if (!v || strcmp(v, p ? "the platform" : "the version")) fail("output", "%s did not return what the FMU returned", call.c_str());
        if (cur.calls != 1) fail("forward", "the FMU received %d calls of %s", cur.calls, call.c_str());
        judgeLines(x, call, 0, 0, false);
        x.lines.clear();
        return;
    }
    std::vector<const Fn*> c;
    for (auto& f : fns)
        if (f.ver == x.ver && (f.type < 0 || f.type == x.type) && (x.conf || strcmp(f.name, "ExitConfigurationMode"))) c.push_back(&f);
    if (x.conf && CH.chance(1, 2)) {
        for (auto f : c)
            if (!strcmp(f->name, "ExitConfigurationMode")) { f->run(x, *f); return; }
    }
    const Fn* f = c[CH.pick(c.size())];
    // arrays of text are where lengths matter most
    if (CH.chance(1, 4)) {
        std::vector<const Fn*> t;
        for (auto g : c)
            if (strstr(g->name, "String") || strstr(g->name, "Binary") || strstr(g->name, "SetDebug")) t.push_back(g);
        f = t[CH.pick(t.size())];
    }
    f->run(x, *f);
}

// the allocation functions the library offers to its callers
void memoryCalls() {
    auto alloc = (decltype(&FMICalloc))dlsym(importer, "FMICalloc");
    auto grow = (decltype(&FMIRealloc))dlsym(importer, "FMIRealloc");
    auto release = (decltype(&FMIFree))dlsym(importer, "FMIFree");
    if (!alloc || !grow || !release) return;
    auto call = [](const std::function<FMIStatus()>& f, bool* failed) {
        allocFailIn = faults && CH.chance(1, 2) ? 0 : -1;
        const uint64_t before = allocStats().failed;
        FMIStatus s = f();
        *failed = allocStats().failed != before;
        allocFailIn = -1;
        return s;
    };
    char* p = nullptr;
    bool failed;
    size_t count = CH.pick(20), size = CH.pick(20), n = count * size;
    FMIStatus s = call([&] { return alloc((void**)&p, count, size); }, &failed);
    if ((s != FMIOK) != failed) fail("memory", "FMICalloc of %zu bytes returned %d and %s", n, (int)s, failed ? "the allocation failed" : "no allocation failed");
    if (!p != (failed || !n)) fail("memory", "FMICalloc of %zu bytes with status %d: the pointer is %snull", n, (int)s, p ? "not " : "");
    if (!p) n = 0;
    for (size_t i = 0; i < n; i++) if (p[i]) fail("memory", "the memory is not zero");
    for (int k = 0; CH.again(k, 0, 3); k++) {
        for (size_t i = 0; i < n; i++) p[i] = (char)(i * 7 + 1);
        char* old = p;
        size_t m = CH.pick(500);
        s = call([&] { return grow((void**)&p, m); }, &failed);
        if ((s != FMIOK) != failed) fail("memory", "FMIRealloc to %zu bytes returned %d and %s", m, (int)s, failed ? "the allocation failed" : "no allocation failed");
        if (failed && p != old) fail("memory", "a failed FMIRealloc changed the pointer");
        if (failed) m = n;
        if (!p != !m) fail("memory", "FMIRealloc to %zu bytes: the pointer is %snull", m, p ? "not " : "");
        for (size_t i = 0; i < n && i < m; i++) if (p[i] != (char)(i * 7 + 1)) fail("memory", "FMIRealloc lost the contents");
        n = m;
    }
    release((void**)&p);
    if (p) fail("memory", "FMIFree left the pointer");
    probe("memory_functions");
}

void history(bool account) {
    insts.clear();
    byFi.clear();
    handles.clear();
    nComps = 0;
    cur = Call();
    setLoader();
    symCountdown = -1;
    int n = 1 + (int)CH.pick(3);
    for (int i = 0; i < n; i++) {
        Inst* x = new Inst();
        x->ver = CH.chance(2, 5) ? 2 : 3;
        x->type = (int)CH.pick(x->ver == 2 ? 2 : 3);
        insts.push_back(x);
    }
    for (int i = 0; CH.again(i, 4, 30); i++) {
        size_t who = CH.pick(insts.size());
        Inst& x = *insts[who];
        schedPoint(who);
        if (account && CH.chance(1, 12)) { memoryCalls(); continue; }
        if (!x.fi) { make(x); continue; }
        if (!x.h) {
            if (CH.chance(1, 10)) drop(x);
            else loadLibrary(x);
            continue;
        }
        if (!x.comp) {
            if (CH.chance(1, 10)) drop(x);
            else instantiate(x);
            continue;
        }
        if (CH.chance(1, 15)) { release(x); continue; }
        anyFunction(x);
    }
    for (Inst* x : insts) {
        if (x->comp) release(*x);
        if (x->fi) drop(*x);
    }
    for (Handle* h : handles)
        if (h->closed != 1) fail("handle", "a library was closed %d times", h->closed);
    if (account && liveAllocs()) fail("leak", "after freeing the instances %zu allocations remain:%s", liveAllocs(), describeLive().c_str());
}

}

void preloadImporter() {
    std::string path = libDir + "/importer.so";
    importer = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!importer) { fprintf(stderr, "cannot load %s: %s\n", path.c_str(), dlerror()); exit(3); }
    for (auto& f : fns) {
        bindTo(f.wrapper, fmtStr("FMI%d%s", f.ver, f.name).c_str());
        symbols[f.symbol()] = f.stub;
    }
    bindTo(api.create, "FMICreateInstance");
    bindTo(api.load, "FMILoadPlatformBinary");
    bindTo(api.free, "FMIFreeInstance");
    bindTo(api.inst2, "FMI2Instantiate");
    bindTo(api.free2, "FMI2FreeInstance");
    bindTo(api.version2, "FMI2GetVersion");
    bindTo(api.platform2, "FMI2GetTypesPlatform");
    bindTo(api.me3, "FMI3InstantiateModelExchange");
    bindTo(api.cs3, "FMI3InstantiateCoSimulation");
    bindTo(api.se3, "FMI3InstantiateScheduledExecution");
    bindTo(api.free3, "FMI3FreeInstance");
    bindTo(api.version3, "FMI3GetVersion");
    FMILogErrorMessage** l = (FMILogErrorMessage**)dlsym(importer, "logErrorMessage");
    if (l) *l = quiet;
    symbols["fmi3InstantiateModelExchange"] = (void*)me3;
    symbols["fmi3InstantiateCoSimulation"] = (void*)cs3;
    symbols["fmi3InstantiateScheduledExecution"] = (void*)se3;
    symbols["fmi3FreeInstance"] = (void*)free3;
    symbols["fmi3GetVersion"] = (void*)version;
    symbols["fmi2Instantiate"] = (void*)inst2;
    symbols["fmi2FreeInstance"] = (void*)free2;
    symbols["fmi2GetVersion"] = (void*)version;
    symbols["fmi2GetTypesPlatform"] = (void*)platform;
}

void propC17() {
    faults = false;
    history(false);
}

void propC18() {
    faults = CH.chance(7, 8);
    history(true);
}
