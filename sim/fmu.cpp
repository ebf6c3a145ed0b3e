#include "fmu.h"
#include <dlfcn.h>
#include <cstdarg>
#include <cstdlib>
#include <cmath>
#include <algorithm>
#include <memory>

std::string libDir = ".";
const char* statusName[] = {"OK", "Warning", "Discard", "Error", "Fatal", "Pending", "?", "?"};

static void bind(Lib* l) {
    l->h = dlopen(l->path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l->h) { fprintf(stderr, "cannot load %s: %s\n", l->path.c_str(), dlerror()); exit(3); }
    memset(&l->f2, 0, sizeof l->f2);
    memset(&l->f3, 0, sizeof l->f3);
    if (l->ver == 2) {
#define X(n) l->f2.n = (fmi2##n##TYPE*)dlsym(l->h, "fmi2" #n); if (!l->f2.n) { fprintf(stderr, "missing fmi2" #n "\n"); exit(3); }
        FMI2_FUNS(X)
#undef X
    } else {
#define X(n) l->f3.n = (fmi3##n##TYPE*)dlsym(l->h, "fmi3" #n); if (!l->f3.n) { fprintf(stderr, "missing fmi3" #n "\n"); exit(3); }
        FMI3_FUNS(X)
#undef X
    }
}

static std::map<std::pair<const Model*, int>, Lib*> libs;

Lib* lib(const Model* m, int ver) {
    auto k = std::make_pair(m, ver);
    auto it = libs.find(k);
    if (it != libs.end()) return it->second;
    Lib* l = new Lib();
    l->m = m;
    l->ver = ver;
    l->path = fmtStr("%s/%s%d.so", libDir.c_str(), m->name, ver);
    bind(l);
    libs[k] = l;
    return l;
}

void reloadLib(Lib* l) {
    dlclose(l->h);
    bind(l);
}

void preloadLibs() {
    for (auto& m : models) {
        if (m.fmi2) lib(&m, 2);
        if (m.fmi3) lib(&m, 3);
    }
}

// ---------------------------------------------------------------- callbacks

// A restarted process has its callbacks at other addresses: there are two sets of them.
bool firstProcessDead = false;

static void inProcess(int gen, const Instance* in) {
    if ((gen == 0 && firstProcessDead) || (in && in->gen != gen)) failLater("dead-callback", "a callback of another process was called");
}

static void addLog(void* env, const char* name, int status, const char* category, const char* message) {
    Instance* in = (Instance*)env;
    if (!in) { failLater("log-environment", "a message was delivered to a null environment: %s", message ? message : "(null)"); return; }
    if (!category || !message) { failLater("log-null", "a message without category or text was delivered"); return; }
    LogMsg m{status, category, message, true, in->cfg.ver == 3 || (name && in->cfg.name == name)};
    in->logs.push_back(m);
    if (in->onLog) in->onLog();
}

const char* const formatMark = "%d of the importer";

template <int G> static void logger3(fmi3InstanceEnvironment env, fmi3Status status, fmi3String category, fmi3String message) {
    seamPoint(4);
    inProcess(G, (Instance*)env);
    addLog(env, nullptr, status, category, message);
}

template <int G> static void logger2(fmi2ComponentEnvironment env, fmi2String name, fmi2Status status, fmi2String category, fmi2String message, ...) {
    seamPoint(4);
    inProcess(G, (Instance*)env);
    if (!message) { addLog(env, name, status, category, message); return; }
    // the message is a format; text of the importer must not be part of it
    if (strstr(message, formatMark)) { failLater("log-format", "text given by the importer is used as a format: %s", message); return; }
    std::vector<char> text(64);
    for (int pass = 0; pass < 2; pass++) {
        va_list args;
        va_start(args, message);
        int n = vsnprintf(text.data(), text.size(), message, args);
        va_end(args);
        if (n < 0) { failLater("log-format", "a message is not a valid format: %s", message); return; }
        if ((size_t)n < text.size()) break;
        text.resize((size_t)n + 1);
    }
    addLog(env, name, status, category, text.data());
}

static void* alloc2(size_t n, size_t s) { return calloc(n, s); }
static void free2(void* p) { free(p); }

template <int G> static void iuCb(fmi3InstanceEnvironment env, fmi3Float64 t, fmi3Boolean setReq, fmi3Boolean getAllowed, fmi3Boolean stepFinished,
                 fmi3Boolean canReturn, fmi3Boolean* earlyReq, fmi3Float64* earlyTime) {
    seamPoint(5);
    Instance* in = (Instance*)env;
    inProcess(G, in);
    if (!in) { failLater("iu-environment", "intermediate update with a null environment"); return; }
    IuRec r;
    r.time = t;
    r.flags = setReq | getAllowed << 1 | stepFinished << 2 | canReturn << 3;
    r.envOk = in->inCall && in->curKind == ODoStep;
    r.status = 0;
    if (getAllowed && !in->cfg.iuRead.empty()) {
        size_t n = 0;
        for (uint32_t vr : in->cfg.iuRead) n += arraySize(*in->cfg.m->var(vr), Dims());
        std::vector<double> v(n, NAN);
        r.status = in->l->f3.GetFloat64(in->c, in->cfg.iuRead.data(), in->cfg.iuRead.size(), v.data(), v.size());
        for (double d : v) r.vals.push_back(dbits(d));
    }
    in->ius.push_back(r);
    if (in->onIu) in->onIu(t);
    if (earlyReq) *earlyReq = false;
    if (earlyTime) *earlyTime = t;
}

static Instance* clockOwner;
template <int G> static void clockCb(fmi3InstanceEnvironment env) {
    seamPoint(6);
    Instance* in = (Instance*)env;
    inProcess(G, in);
    if (!in) { failLater("clock-environment", "clock update with a null environment"); return; }
    in->clockUpdates++;
    if (in->onClockUpdate) { in->onClockUpdate(); return; }
    // default: poll both clocks
    uint32_t out = 1005, cd = 1003;
    fmi3Clock v = false;
    int s1 = in->l->f3.GetClock(in->c, &out, 1, &v);
    double iv = -1;
    fmi3IntervalQualifier q = fmi3IntervalNotYetKnown;
    int s2 = in->l->f3.GetIntervalDecimal(in->c, &cd, 1, &iv, &q);
    in->clockSeen.push_back((uint64_t)s1 | (uint64_t)s2 << 4 | (uint64_t)(v ? 1 : 0) << 8 | (uint64_t)q << 12);
}

template <int G> static void lockCb(void) { seamPoint(7); inProcess(G, nullptr); }
template <int G> static void unlockCb(void) { seamPoint(8); inProcess(G, nullptr); }

bool create(Instance& in) {
    in.l = lib(in.cfg.m, in.cfg.ver);
    const Cfg& g = in.cfg;
    std::string token = g.m->token;
    switch (g.wrongToken) {
    case 1: token = "{00000000-0000-0000-0000-000000000000}"; break;
    case 2: token = ""; break;
    case 3: token.resize(token.size() - 1 - CH.pick(token.size() - 1)); break;
    case 4: token += "}"; break;
    case 5: token[1 + CH.pick(token.size() - 2)] ^= 1; break;
    case 6: token = " " + token; break;
    default: break;
    }
    const char* tok = g.wrongToken == 7 ? nullptr : token.c_str();
    const char* name = g.noName ? nullptr : g.name.c_str();
    const bool second = in.gen == 1;
    countCall();
    clockOwner = &in;
    if (g.ver == 2) {
        // the callback structure is read during instantiation only in part: keep it alive
        fmi2CallbackFunctions* cb = new fmi2CallbackFunctions();
        cb->logger = second ? logger2<1> : logger2<0>;
        cb->allocateMemory = alloc2;
        cb->freeMemory = free2;
        cb->stepFinished = nullptr;
        cb->componentEnvironment = &in;
        in.c = in.l->f2.Instantiate(name, g.type == ME ? fmi2ModelExchange : fmi2CoSimulation, tok, g.res.c_str(), cb, 0, g.logging);
    } else if (g.type == ME) {
        in.c = in.l->f3.InstantiateModelExchange(name, tok, g.res.c_str(), false, g.logging, &in, g.logger ? (second ? logger3<1> : logger3<0>) : nullptr);
    } else if (g.type == CS) {
        in.c = in.l->f3.InstantiateCoSimulation(name, tok, g.res.c_str(), false, g.logging, g.eventMode, g.early, nullptr, 0, &in,
                                               g.logger ? (second ? logger3<1> : logger3<0>) : nullptr, g.iu ? (second ? iuCb<1> : iuCb<0>) : nullptr);
    } else {
        in.c = in.l->f3.InstantiateScheduledExecution(name, tok, g.res.c_str(), false, g.logging, &in, g.logger ? (second ? logger3<1> : logger3<0>) : nullptr, second ? clockCb<1> : clockCb<0>,
                                                     g.locks ? (second ? lockCb<1> : lockCb<0>) : nullptr, g.locks ? (second ? unlockCb<1> : unlockCb<0>) : nullptr);
    }
    tr("create %s FMI%d %s logging=%d eventMode=%d early=%d iu=%d -> %s", g.m->name, g.ver, g.type == ME ? "ME" : g.type == CS ? "CS" : "SE", g.logging, g.eventMode, g.early, g.iu, in.c ? "ok" : "null");
    checkLater();
    return in.c != nullptr;
}

void destroy(Instance& in) {
    if (!in.c) return;
    for (auto& s : in.slots) {
        if (!s.second) continue;
        if (in.cfg.ver == 2) in.l->f2.FreeFMUstate(in.c, &s.second);
        else in.l->f3.FreeFMUState(in.c, &s.second);
    }
    in.slots.clear();
    if (in.cfg.ver == 2) in.l->f2.FreeInstance(in.c);
    else in.l->f3.FreeInstance(in.c);
    in.c = nullptr;
    tr("free %s", in.cfg.name.c_str());
    checkLater();
}

// ---------------------------------------------------------------- calls

const char* opName[] = {
    "SetDebugLogging", "EnterInitializationMode", "ExitInitializationMode", "Terminate", "Reset", "Get", "Set",
    "EnterEventMode", "UpdateDiscreteStates", "EnterContinuousTimeMode", "EnterStepMode", "EnterConfigurationMode", "ExitConfigurationMode",
    "SetTime", "SetContinuousStates", "GetContinuousStates", "GetDerivatives", "GetEventIndicators", "GetNominals", "CompletedIntegratorStep", "GetNumberOfContinuousStates", "GetNumberOfEventIndicators",
    "DoStep", "GetOutputDerivatives", "GetDirectionalDerivative", "GetAdjointDerivative",
    "GetFMUState", "SetFMUState", "FreeFMUState", "SerializedFMUStateSize", "SerializeFMUState", "DeserializeFMUState",
    "SetupExperiment", "GetStatus", "CancelStep", "SetInputDerivatives",
    "GetClock", "SetClock", "GetInterval", "ActivateModelPartition", "Misc"};

static std::string valStr(Type t, uint64_t u) {
    switch (t) {
    case F32: { float f; uint32_t w = (uint32_t)u; memcpy(&f, &w, 4); return fmtStr("%.9g", f); }
    case F64: return dstr(bitsd(u));
    case I8: return fmtStr("%d", (int8_t)u);
    case I16: return fmtStr("%d", (int16_t)u);
    case I32: return fmtStr("%d", (int32_t)u);
    case I64: return fmtStr("%lld", (long long)u);
    default: return fmtStr("%llu", (unsigned long long)u);
    }
}

std::string describe(const Op& o) {
    std::string s = opName[o.k];
    if (o.nullInstance) s += "[null instance]";
    auto vrs = [&](const std::vector<uint32_t>& v) { std::string r = "{"; for (size_t i = 0; i < v.size(); i++) r += fmtStr("%s%u", i ? "," : "", v[i]); return r + "}"; };
    auto dbl = [&]() { std::string r = "{"; for (size_t i = 0; i < o.num.size(); i++) r += (i ? "," : "") + dstr(bitsd(o.num[i])); return r + "}"; };
    switch (o.k) {
    case OGet: s += std::string(typeName[o.t]) + vrs(o.vr) + fmtStr(" n=%zu", o.n); break;
    case OSet:
        s += std::string(typeName[o.t]) + vrs(o.vr) + " = {";
        for (size_t i = 0; i < o.num.size(); i++) s += (i ? "," : "") + valStr(o.t, o.num[i]);
        for (size_t i = 0; i < o.str.size(); i++) s += fmtStr("%s\"%s\"[%zu]", i ? "," : "", o.t == STR ? o.str[i].substr(0, 40).c_str() : "", o.str[i].size());
        s += "}";
        break;
    case OEnterInit: case OSetup: if (o.i) s += "(without SetupExperiment)"; else s += fmtStr("(start=%s, stop=%s)", dstr(o.a).c_str(), o.f ? dstr(o.b).c_str() : "none"); break;
    case ODoStep: s += fmtStr("(%s, %s)", dstr(o.a).c_str(), dstr(o.b).c_str()); break;
    case OSetTime: s += "(" + dstr(o.a) + ")"; break;
    case OSetStates: s += dbl(); break;
    case OGetStates: case OGetDers: case OGetInds: case OGetNoms: s += fmtStr("(n=%zu)", o.n); break;
    case OOutDer: case ODirDer: case OAdjDer: s += vrs(o.vr) + vrs(o.vr2); break;
    case OGetState: case OSetState: case OFreeState: case OSerSize: case OSer: s += fmtStr("(slot %d)", o.slot); break;
    case ODeser: s += fmtStr("(slot %d, from bytes %d, length%+d)", o.slot, o.i, o.wrong); break;
    case OActivate: s += fmtStr("(%u, %s)", o.vr.empty() ? 0 : o.vr[0], dstr(o.a).c_str()); break;
    case OGetClock: case OSetClock: case OGetInterval: s += vrs(o.vr); break;
    case OSetDebug:
        s += fmtStr("(%d", o.f);
        for (auto& c : o.str) s += ", " + c;
        s += ")";
        break;
    case OMisc: case OStatus: s += fmtStr("#%d", o.i); break;
    default: break;
    }
    if (o.nul) s += fmtStr(" null=%d", o.nul);
    if (o.wrong && o.k != ODeser) s += fmtStr(" nValues%+d", o.wrong);
    return s;
}

std::string describe(const Op& o, const Res& r) {
    std::string s = describe(o) + " -> " + (r.status >= 0 && r.status < 6 ? statusName[r.status] : fmtStr("%d", r.status).c_str());
    if (r.ok()) {
        bool dbl = o.k == OSetStates || o.k == OGetStates || o.k == OGetDers || o.k == OGetInds || o.k == OGetNoms || o.k == OOutDer || o.k == ODirDer || o.k == OAdjDer;
        for (size_t i = 0; i < r.num.size() && i < 30; i++) {
            s += i ? "," : " ";
            if (o.k == OGet) s += valStr(o.t, r.num[i]);
            else if (dbl || (o.k == ODoStep && i == 3) || (o.k == OUpdate && i == 5)) s += dstr(bitsd(r.num[i]));
            else s += fmtStr("%llx", (unsigned long long)r.num[i]);
        }
        for (auto& t : r.str) s += o.t == STR ? " \"" + t.substr(0, 60) + "\"" : fmtStr(" [%zu bytes]", t.size());
    }
    if (!r.ius.empty()) s += fmtStr(" (%zu intermediate updates)", r.ius.size());
    return s;
}

template <class T> struct Buf {
    // exactly sized so that the address sanitizer sees any access beyond the array
    T* p; size_t n;
    explicit Buf(size_t n_, bool fill = true) : p((T*)malloc(n_ * sizeof(T) ? n_ * sizeof(T) : 1)), n(n_) { if (fill && n_) memset((void*)p, std::is_floating_point<T>::value ? 0xFF : 0xA5, n_ * sizeof(T)); }
    ~Buf() { free(p); }
    Buf(const Buf&) = delete;
};

template <class T> static uint64_t rawBits(T v) { uint64_t u = 0; memcpy(&u, &v, sizeof v); return u; }
template <class T> static T fromBits(uint64_t u) { T v; memcpy(&v, &u, sizeof v); return v; }

// the number of values the callee is told; the buffer has exactly this length
static size_t told(size_t n, const Op& o) { return (size_t)std::max(0L, (long)n + o.wrong); }

template <class T, class F> static int get3(Instance& in, F fn, const Op& o, Res& r, const uint32_t* vr, void* c) {
    Buf<T> b(told(o.n, o));
    int s = fn(c, vr, o.vr.size(), (o.nul & 2) ? nullptr : b.p, b.n);
    (void)in;
    if (s <= 1 && !(o.nul & 2)) for (size_t i = 0; i < b.n; i++) r.num.push_back(rawBits(b.p[i]));
    return s;
}

template <class T, class F> static int set3(Instance& in, F fn, const Op& o, const uint32_t* vr, void* c) {
    Buf<T> b(told(o.num.size(), o));
    (void)in;
    for (size_t i = 0; i < b.n; i++) b.p[i] = fromBits<T>(i < o.num.size() ? o.num[i] : 0);
    return fn(c, vr, o.vr.size(), (o.nul & 2) ? nullptr : b.p, b.n);
}

template <class T, class F> static int get2(F fn, const Op& o, Res& r, const uint32_t* vr, void* c) {
    Buf<T> b(o.n);
    int s = fn(c, vr, o.vr.size(), (o.nul & 2) ? nullptr : b.p);
    if (s <= 1 && !(o.nul & 2)) for (size_t i = 0; i < o.n; i++) r.num.push_back(rawBits(b.p[i]));
    return s;
}

template <class T, class F> static int set2(F fn, const Op& o, const uint32_t* vr, void* c) {
    Buf<T> b(o.num.size());
    for (size_t i = 0; i < o.num.size(); i++) b.p[i] = (T)fromBits<T>(o.num[i]);
    return fn(c, vr, o.vr.size(), (o.nul & 2) ? nullptr : b.p);
}

struct Strs {
    std::vector<char*> p;
    explicit Strs(const std::vector<std::string>& v, bool term) {
        for (auto& s : v) {
            char* q = (char*)malloc(s.size() + (term ? 1 : 0) + ((s.empty() && !term) ? 1 : 0));
            memcpy(q, s.data(), s.size());
            if (term) q[s.size()] = 0;
            p.push_back(q);
        }
    }
    ~Strs() { for (char* q : p) { free(q); } }
};

static int doGet(Instance& in, const Op& o, Res& r, void* c) {
    Buf<uint32_t> vb(o.vr.size());
    std::copy(o.vr.begin(), o.vr.end(), vb.p);
    const uint32_t* vr = (o.nul & 1) ? nullptr : vb.p;
    if (in.cfg.ver == 2) {
        Fmi2& f = in.l->f2;
        switch (o.t) {
        case F64: return get2<double>(f.GetReal, o, r, vr, c);
        case I32: return get2<int>(f.GetInteger, o, r, vr, c);
        case BOO: {
            int s = get2<int>(f.GetBoolean, o, r, vr, c);
            for (auto& u : r.num) u = (uint32_t)u;
            return s;
        }
        case STR: {
            Buf<const char*> b(o.n);
            int s = f.GetString(c, vr, o.vr.size(), (o.nul & 2) ? nullptr : b.p);
            if (s <= 1 && !(o.nul & 2)) for (size_t i = 0; i < o.n; i++) r.str.push_back(b.p[i] ? b.p[i] : "(null)");
            return s;
        }
        default: return 3;
        }
    }
    Fmi3& f = in.l->f3;
    switch (o.t) {
    case F32: return get3<float>(in, f.GetFloat32, o, r, vr, c);
    case F64: return get3<double>(in, f.GetFloat64, o, r, vr, c);
    case I8: return get3<int8_t>(in, f.GetInt8, o, r, vr, c);
    case U8: return get3<uint8_t>(in, f.GetUInt8, o, r, vr, c);
    case I16: return get3<int16_t>(in, f.GetInt16, o, r, vr, c);
    case U16: return get3<uint16_t>(in, f.GetUInt16, o, r, vr, c);
    case I32: return get3<int32_t>(in, f.GetInt32, o, r, vr, c);
    case U32: return get3<uint32_t>(in, f.GetUInt32, o, r, vr, c);
    case I64: return get3<int64_t>(in, f.GetInt64, o, r, vr, c);
    case U64: return get3<uint64_t>(in, f.GetUInt64, o, r, vr, c);
    case BOO: {
        Buf<uint8_t> b(told(o.n, o));
        int s = f.GetBoolean(c, vr, o.vr.size(), (o.nul & 2) ? nullptr : (bool*)b.p, b.n);
        if (s <= 1 && !(o.nul & 2)) for (size_t i = 0; i < b.n; i++) r.num.push_back(b.p[i]);
        return s;
    }
    case STR: {
        Buf<const char*> b(told(o.n, o));
        int s = f.GetString(c, vr, o.vr.size(), (o.nul & 2) ? nullptr : b.p, b.n);
        if (s <= 1 && !(o.nul & 2)) for (size_t i = 0; i < b.n; i++) r.str.push_back(b.p[i] ? b.p[i] : "(null)");
        return s;
    }
    case BIN: {
        Buf<fmi3Binary> b(told(o.n, o));
        Buf<size_t> z(b.n);
        int s = f.GetBinary(c, vr, o.vr.size(), (o.nul & 4) ? nullptr : z.p, (o.nul & 2) ? nullptr : b.p, b.n);
        if (s <= 1 && !(o.nul & 6)) for (size_t i = 0; i < o.n && i < b.n; i++) r.str.push_back(std::string((const char*)b.p[i], z.p[i]));
        return s;
    }
    default: return 3;
    }
}

static int doSet(Instance& in, const Op& o, void* c) {
    Buf<uint32_t> vb(o.vr.size());
    std::copy(o.vr.begin(), o.vr.end(), vb.p);
    const uint32_t* vr = (o.nul & 1) ? nullptr : vb.p;
    if (in.cfg.ver == 2) {
        Fmi2& f = in.l->f2;
        switch (o.t) {
        case F64: return set2<double>(f.SetReal, o, vr, c);
        case I32: return set2<int>(f.SetInteger, o, vr, c);
        case BOO: return set2<int>(f.SetBoolean, o, vr, c);
        case STR: {
            Strs s(o.str, true);
            Buf<const char*> b(o.str.size());
            std::copy(s.p.begin(), s.p.end(), b.p);
            return f.SetString(c, vr, o.vr.size(), (o.nul & 2) ? nullptr : b.p);
        }
        default: return 3;
        }
    }
    Fmi3& f = in.l->f3;
    switch (o.t) {
    case F32: return set3<float>(in, f.SetFloat32, o, vr, c);
    case F64: return set3<double>(in, f.SetFloat64, o, vr, c);
    case I8: return set3<int8_t>(in, f.SetInt8, o, vr, c);
    case U8: return set3<uint8_t>(in, f.SetUInt8, o, vr, c);
    case I16: return set3<int16_t>(in, f.SetInt16, o, vr, c);
    case U16: return set3<uint16_t>(in, f.SetUInt16, o, vr, c);
    case I32: return set3<int32_t>(in, f.SetInt32, o, vr, c);
    case U32: return set3<uint32_t>(in, f.SetUInt32, o, vr, c);
    case I64: return set3<int64_t>(in, f.SetInt64, o, vr, c);
    case U64: return set3<uint64_t>(in, f.SetUInt64, o, vr, c);
    case BOO: {
        Buf<uint8_t> b(told(o.num.size(), o));
        for (size_t i = 0; i < b.n; i++) b.p[i] = i < o.num.size() && o.num[i] != 0;
        return f.SetBoolean(c, vr, o.vr.size(), (o.nul & 2) ? nullptr : (bool*)b.p, b.n);
    }
    case STR: {
        Strs s(o.str, true);
        Buf<const char*> b(told(o.str.size(), o));
        for (size_t i = 0; i < b.n; i++) b.p[i] = i < s.p.size() ? s.p[i] : "";
        return f.SetString(c, vr, o.vr.size(), (o.nul & 2) ? nullptr : b.p, b.n);
    }
    case BIN: {
        Strs s(o.str, false);
        Buf<fmi3Binary> b(told(o.str.size(), o));
        Buf<size_t> z(b.n);
        for (size_t i = 0; i < b.n; i++) { b.p[i] = i < s.p.size() ? (fmi3Binary)s.p[i] : (fmi3Binary)""; z.p[i] = i < s.p.size() ? o.str[i].size() : 0; }
        return f.SetBinary(c, vr, o.vr.size(), (o.nul & 4) ? nullptr : z.p, (o.nul & 2) ? nullptr : b.p, b.n);
    }
    default: return 3;
    }
}

static int misc3(Fmi3& f, void* c, int i) {
    // functions the reference FMUs do not implement
    uint32_t vr = 1;
    size_t n = 0;
    double d = 0;
    uint64_t u = 1, w = 1;
    fmi3IntervalQualifier q = fmi3IntervalNotYetKnown;
    switch (i) {
    case 0: return f.GetNumberOfVariableDependencies(c, vr, &n);
    case 1: { size_t a = 0, b = 0; uint32_t ind = 0; fmi3DependencyKind k = fmi3Independent; return f.GetVariableDependencies(c, vr, &a, &ind, &b, &k, 1); }
    case 2: return f.GetIntervalFraction(c, &vr, 1, &u, &w, &q);
    case 3: return f.GetShiftDecimal(c, &vr, 1, &d);
    case 4: return f.GetShiftFraction(c, &vr, 1, &u, &w);
    case 5: return f.SetIntervalDecimal(c, &vr, 1, &d);
    case 6: return f.SetIntervalFraction(c, &vr, 1, &u, &w);
    case 7: return f.EvaluateDiscreteStates(c);
    default: return 3;
    }
}


bool quietCalls = false;

Res exec(Instance& in, const Op& o) {
    Res r;
    size_t l0 = in.logs.size(), i0 = in.ius.size();
    uint64_t f0 = allocStats().failed;
    in.inCall = true;
    in.curKind = o.k;
    countCall();
    if (!accessHook && !quietCalls) schedPoint((uint64_t)o.k);
    const bool v2 = in.cfg.ver == 2;
    Fmi2& f2 = in.l->f2;
    Fmi3& f3 = in.l->f3;
    void* c = o.nullInstance ? nullptr : in.c;
    int& s = r.status;
    auto putd = [&](double* p, size_t n) { if (s <= 1) for (size_t i = 0; i < n; i++) r.num.push_back(dbits(p[i])); };
    switch (o.k) {
    case OSetDebug: {
        Strs st(o.str, true);
        Buf<const char*> b(o.str.size());
        std::copy(st.p.begin(), st.p.end(), b.p);
        s = v2 ? (int)f2.SetDebugLogging(c, o.f, o.str.size(), b.p) : (int)f3.SetDebugLogging(c, o.f, o.str.size(), b.p);
        break;
    }
    case OSetup: s = v2 ? (int)f2.SetupExperiment(c, 0, 0, o.a, o.f, o.b) : 3; break;
    case OEnterInit:
        if (v2) {
            s = o.i ? 0 : (int)f2.SetupExperiment(c, 0, 0, o.a, o.f, o.b);
            if (s <= 1) s = f2.EnterInitializationMode(c);
        } else s = f3.EnterInitializationMode(c, o.g, 1e-4, o.a, o.f, o.b);
        break;
    case OExitInit: s = v2 ? (int)f2.ExitInitializationMode(c) : (int)f3.ExitInitializationMode(c); break;
    case OTerminate: s = v2 ? (int)f2.Terminate(c) : (int)f3.Terminate(c); break;
    case OReset: s = v2 ? (int)f2.Reset(c) : (int)f3.Reset(c); break;
    case OGet: s = doGet(in, o, r, c); break;
    case OSet: s = doSet(in, o, c); break;
    case OEnterEvent: s = v2 ? (int)f2.EnterEventMode(c) : (int)f3.EnterEventMode(c); break;
    case OUpdate:
        if (v2) {
            fmi2EventInfo e;
            memset(&e, 0xA5, sizeof e);
            s = f2.NewDiscreteStates(c, &e);
            if (s <= 1) r.num = {(uint64_t)e.newDiscreteStatesNeeded, (uint64_t)e.terminateSimulation, (uint64_t)e.nominalsOfContinuousStatesChanged, (uint64_t)e.valuesOfContinuousStatesChanged, (uint64_t)e.nextEventTimeDefined, dbits(e.nextEventTimeDefined ? e.nextEventTime : 0)};
        } else {
            uint8_t b[5];
            memset(b, 0xA5, sizeof b);
            double t = -1;
            s = f3.UpdateDiscreteStates(c, (bool*)&b[0], (bool*)&b[1], (bool*)&b[2], (bool*)&b[3], (bool*)&b[4], &t);
            if (s <= 1) r.num = {b[0], b[1], b[2], b[3], b[4], dbits(b[4] ? t : 0)};
        }
        break;
    case OEnterCont: s = v2 ? (int)f2.EnterContinuousTimeMode(c) : (int)f3.EnterContinuousTimeMode(c); break;
    case OEnterStep: s = v2 ? 3 : (int)f3.EnterStepMode(c); break;
    case OEnterConf: s = v2 ? 3 : (int)f3.EnterConfigurationMode(c); break;
    case OExitConf: s = v2 ? 3 : (int)f3.ExitConfigurationMode(c); break;
    case OSetTime: s = v2 ? (int)f2.SetTime(c, o.a) : (int)f3.SetTime(c, o.a); break;
    case OSetStates: {
        Buf<double> b(told(o.num.size(), o));
        for (size_t i = 0; i < b.n; i++) b.p[i] = i < o.num.size() ? bitsd(o.num[i]) : 0;
        double* p = (o.nul & 2) ? nullptr : b.p;
        size_t n = b.n;
        s = v2 ? (int)f2.SetContinuousStates(c, p, n) : (int)f3.SetContinuousStates(c, p, n);
        break;
    }
    case OGetStates: case OGetDers: case OGetInds: case OGetNoms: {
        Buf<double> b(told(o.n, o));
        double* p = (o.nul & 2) ? nullptr : b.p;
        size_t n = b.n;
        if (v2) s = o.k == OGetStates ? f2.GetContinuousStates(c, p, n) : o.k == OGetDers ? f2.GetDerivatives(c, p, n) : o.k == OGetInds ? f2.GetEventIndicators(c, p, n) : f2.GetNominalsOfContinuousStates(c, p, n);
        else s = o.k == OGetStates ? f3.GetContinuousStates(c, p, n) : o.k == OGetDers ? f3.GetContinuousStateDerivatives(c, p, n) : o.k == OGetInds ? f3.GetEventIndicators(c, p, n) : f3.GetNominalsOfContinuousStates(c, p, n);
        if (p) putd(p, b.n);
        break;
    }
    case OCompleted:
        if (v2) {
            int e = 77, t = 77;
            s = f2.CompletedIntegratorStep(c, 1, &e, &t);
            if (s <= 1) r.num = {(uint64_t)e, (uint64_t)t};
        } else {
            uint8_t e = 77, t = 77;
            s = f3.CompletedIntegratorStep(c, true, (bool*)&e, (bool*)&t);
            if (s <= 1) r.num = {e, t};
        }
        break;
    case OGetNx: case OGetNz: {
        size_t n = 0x5A5A;
        s = v2 ? 3 : o.k == OGetNx ? (int)f3.GetNumberOfContinuousStates(c, &n) : (int)f3.GetNumberOfEventIndicators(c, &n);
        if (s <= 1) r.num = {n};
        break;
    }
    case ODoStep:
        if (v2) {
            s = f2.DoStep(c, o.a, o.b, o.g);
        } else {
            uint8_t e = 77, t = 77, er = 77;
            double last = NAN;
            s = f3.DoStep(c, o.a, o.b, o.g, (bool*)&e, (bool*)&t, (bool*)&er, &last);
            if (s <= 1) r.num = {e, t, er, dbits(last)};
        }
        break;
    case OOutDer: {
        Buf<double> b(o.vr.size());
        std::vector<int> ord;
        for (uint64_t u : o.num) ord.push_back((int)u);
        s = v2 ? (int)f2.GetRealOutputDerivatives(c, o.vr.data(), o.vr.size(), ord.data(), b.p) : (int)f3.GetOutputDerivatives(c, o.vr.data(), o.vr.size(), ord.data(), b.p, b.n);
        putd(b.p, b.n);
        break;
    }
    case ODirDer: case OAdjDer: {
        size_t nu = o.vr.size(), nk = o.vr2.size();
        Buf<double> seed(o.k == ODirDer ? nk : nu), sens(o.k == ODirDer ? nu : nk);
        for (size_t i = 0; i < seed.n; i++) seed.p[i] = bitsd(o.num[i]);
        if (v2) s = f2.GetDirectionalDerivative(c, o.vr.data(), nu, o.vr2.data(), nk, seed.p, sens.p);
        else if (o.k == ODirDer) s = f3.GetDirectionalDerivative(c, o.vr.data(), nu, o.vr2.data(), nk, seed.p, seed.n, sens.p, sens.n);
        else s = f3.GetAdjointDerivative(c, o.vr.data(), nu, o.vr2.data(), nk, seed.p, seed.n, sens.p, sens.n);
        putd(sens.p, sens.n);
        break;
    }
    case OGetState: {
        void* p = in.slots.count(o.slot) ? in.slots[o.slot] : nullptr;
        s = v2 ? (int)f2.GetFMUstate(c, &p) : (int)f3.GetFMUState(c, &p);
        if (p) in.slots[o.slot] = p;
        else in.slots.erase(o.slot);
        break;
    }
    case OSetState: s = v2 ? (int)f2.SetFMUstate(c, in.slots[o.slot]) : (int)f3.SetFMUState(c, in.slots[o.slot]); break;
    case OFreeState: {
        void* p = in.slots[o.slot];
        s = v2 ? (int)f2.FreeFMUstate(c, &p) : (int)f3.FreeFMUState(c, &p);
        if (s <= 1 && p) failLater("free-state", "freeing an FMU state did not clear the caller's pointer");
        if (!p) in.slots.erase(o.slot);
        break;
    }
    case OSerSize: {
        size_t n = 0;
        s = v2 ? (int)f2.SerializedFMUstateSize(c, in.slots[o.slot], &n) : (int)f3.SerializedFMUStateSize(c, in.slots[o.slot], &n);
        if (s <= 1) r.num = {n};
        break;
    }
    case OSer: {
        size_t n = 0;
        s = v2 ? (int)f2.SerializedFMUstateSize(c, in.slots[o.slot], &n) : (int)f3.SerializedFMUStateSize(c, in.slots[o.slot], &n);
        if (s > 1) break;
        n = (size_t)((long)n + o.wrong);
        Buf<char> b(n);
        s = v2 ? (int)f2.SerializeFMUstate(c, in.slots[o.slot], b.p, n) : (int)f3.SerializeFMUState(c, in.slots[o.slot], (fmi3Byte*)b.p, n);
        if (s <= 1) in.bytes[o.i].assign(b.p, b.p + n);
        break;
    }
    case ODeser: {
        std::vector<char> d = in.bytes[o.i];
        d.resize((size_t)std::max(0L, (long)d.size() + o.wrong), 0x3C);
        Buf<char> b(d.size());
        std::copy(d.begin(), d.end(), b.p);
        void* p = in.slots.count(o.slot) ? in.slots[o.slot] : nullptr;
        s = v2 ? (int)f2.DeSerializeFMUstate(c, b.p, b.n, &p) : (int)f3.DeserializeFMUState(c, (fmi3Byte*)b.p, b.n, &p);
        if (p) in.slots[o.slot] = p;
        else in.slots.erase(o.slot);
        break;
    }
    case OStatus:
        if (!v2) { s = 3; break; }
        switch (o.i % 7) {
        case 0: { fmi2Status v = fmi2OK; s = f2.GetStatus(c, fmi2DoStepStatus, &v); if (s <= 1) r.num = {(uint64_t)v}; break; }
        case 1: { double v = NAN; s = f2.GetRealStatus(c, fmi2LastSuccessfulTime, &v); putd(&v, 1); break; }
        case 2: { int v = 77; s = f2.GetIntegerStatus(c, fmi2DoStepStatus, &v); if (s <= 1) r.num = {(uint64_t)v}; break; }
        case 3: { int v = 77; s = f2.GetBooleanStatus(c, fmi2Terminated, &v); if (s <= 1) r.num = {(uint64_t)v}; break; }
        case 4: { const char* v = nullptr; s = f2.GetStringStatus(c, fmi2PendingStatus, &v); break; }
        case 5: { double v = NAN; s = f2.GetRealStatus(c, fmi2DoStepStatus, &v); break; }
        case 6: { int v = 77; s = f2.GetBooleanStatus(c, fmi2DoStepStatus, &v); break; }
        }
        break;
    case OCancel: s = v2 ? (int)f2.CancelStep(c) : 3; break;
    case OInDer: {
        int ord = 1;
        double v = 0;
        s = v2 ? (int)f2.SetRealInputDerivatives(c, o.vr.data(), 1, &ord, &v) : 3;
        break;
    }
    case OGetClock: {
        Buf<uint8_t> b(o.vr.size());
        s = v2 ? 3 : (int)f3.GetClock(c, o.vr.data(), o.vr.size(), (fmi3Clock*)b.p);
        if (s <= 1) for (size_t i = 0; i < b.n; i++) r.num.push_back(b.p[i]);
        break;
    }
    case OSetClock: {
        Buf<uint8_t> b(o.vr.size());
        for (size_t i = 0; i < b.n; i++) b.p[i] = 1;
        s = v2 ? 3 : (int)f3.SetClock(c, o.vr.data(), o.vr.size(), (fmi3Clock*)b.p);
        break;
    }
    case OGetInterval: {
        Buf<double> b(o.vr.size());
        Buf<fmi3IntervalQualifier> q(o.vr.size());
        s = v2 ? 3 : (int)f3.GetIntervalDecimal(c, o.vr.data(), o.vr.size(), b.p, q.p);
        if (s <= 1) for (size_t i = 0; i < b.n; i++) { r.num.push_back((uint64_t)q.p[i]); r.num.push_back(q.p[i] == fmi3IntervalChanged ? dbits(b.p[i]) : 0); }
        break;
    }
    case OActivate: s = v2 ? 3 : (int)f3.ActivateModelPartition(c, o.vr[0], o.a); break;
    case OMisc: s = v2 ? 3 : misc3(f3, c, o.i); break;
    default: s = 3;
    }
    in.inCall = false;
    r.logs.assign(in.logs.begin() + (long)l0, in.logs.end());
    r.ius.assign(in.ius.begin() + (long)i0, in.ius.end());
    r.faults = allocStats().failed - f0;
    if (quietCalls && r.ok()) {
        uint64_t h = hmix((uint64_t)o.k, (uint64_t)o.t);
        for (uint64_t u : r.num) h = hmix(h, u);
        for (auto& t : r.str) h = hmix(h, hstr(t.c_str()));
        trBits(h);
    } else tr("%s: %s", in.cfg.name.c_str(), describe(o, r).c_str());
    feature(hmix(hmix(o.k * 31 + (uint64_t)in.cfg.ver, (uint64_t)r.status), hmix(hstr(in.cfg.m->name), (uint64_t)in.cfg.type)));
    checkLater();
    if (s < 0 || s > 4) fail("status", "%s returned the undefined status %d", describe(o).c_str(), s);
    return r;
}

bool same(const Op& o, const Res& a, const Res& b, std::string* why) {
    if (a.status != b.status) {
        *why = fmtStr("%s: status %s instead of %s", describe(o).c_str(), statusName[b.status], statusName[a.status]);
        return false;
    }
    if (!a.ok()) return true;
    if (a.num != b.num || a.str != b.str) {
        *why = fmtStr("%s instead of %s", describe(o, b).c_str(), describe(o, a).c_str());
        return false;
    }
    if (!(a.ius == b.ius)) {
        *why = fmtStr("%s: different intermediate updates", describe(o).c_str());
        return false;
    }
    return true;
}
