#include "drv.h"
#include <cmath>
#include <algorithm>

void Track::restore(const Track& t) {
    mode = t.mode;
    start = t.start;
    stop = t.stop;
    time = t.time;
    cp = t.cp;
    stopDef = t.stopDef;
    d = t.d;
    eventPending = t.eventPending;
    terminated = t.terminated;
    nextEventDef = t.nextEventDef;
    nextEvent = t.nextEvent;
}

void Track::after(const Op& o, const Res& r) {
    if (o.nullInstance) return;
    if (r.status == 3) {
        // a failed call ends the simulation; functions the FMU does not implement and
        // failures to allocate a state do not
        if (o.k != OMisc && o.k != OSetDebug && !(o.k == OStatus || o.k == OCancel || o.k == OInDer)) mode = Term_;
        return;
    }
    if (r.status == 4) { mode = Term_; return; }
    switch (o.k) {
    case OEnterInit:
        mode = Init_;
        start = time = cp = o.a;
        stopDef = o.f;
        stop = o.b;
        break;
    case OExitInit:
        mode = cfg.type == ME ? Event_ : cfg.type == SE ? ClockAct_ : (cfg.eventMode ? Event_ : Step_);
        break;
    case OTerminate: mode = Term_; break;
    case OReset: {
        mode = Inst_;
        start = time = cp = 0;
        stopDef = false;
        eventPending = terminated = nextEventDef = false;
        d = Dims();
        break;
    }
    case OEnterEvent: mode = Event_; eventPending = false; break;
    case OUpdate:
        if (r.ok()) { terminated = r.num[1]; nextEventDef = r.num[4]; nextEvent = bitsd(r.num[5]); }
        break;
    case OEnterCont: mode = Cont_; break;
    case OEnterStep: mode = Step_; break;
    case OEnterConf: mode = mode == Inst_ ? Conf_ : Reconf_; break;
    case OExitConf:
        if (mode == Conf_) mode = Inst_;
        else mode = cfg.type == ME ? Event_ : cfg.type == SE ? ClockAct_ : Step_;
        break;
    case OSetTime: time = o.a; break;
    case OSet:
        if (o.t == U64 && std::string(cfg.m->name) == "StateSpace")
            for (size_t i = 0; i < o.vr.size() && i < o.num.size(); i++) {
                if (o.vr[i] == 1) d.m = (int)o.num[i];
                if (o.vr[i] == 2) d.n = (int)o.num[i];
                if (o.vr[i] == 3) d.r = (int)o.num[i];
            }
        break;
    case ODoStep:
        if (cfg.ver == 2) {
            if (r.status == 2) terminated = true;
            else cp = o.a + o.b;
            time = cp;
        } else if (r.ok()) {
            eventPending = r.num[0] == 1;
            terminated = r.num[1] == 1;
            time = bitsd(r.num[3]);
            cp = r.num[2] == 1 ? time : o.a + o.b;
        }
        break;
    case OGetState:
        slots.insert(o.slot);
        saved[o.slot] = new Track(*this);
        break;
    case OSetState:
        if (saved.count(o.slot)) restore(*saved[o.slot]);
        break;
    case OFreeState: slots.erase(o.slot); saved.erase(o.slot); break;
    case OSer:
        bytes.insert(o.i);
        savedBytes[o.i] = saved.count(o.slot) ? saved[o.slot] : nullptr;
        break;
    case ODeser:
        slots.insert(o.slot);
        if (savedBytes.count(o.i) && savedBytes[o.i]) saved[o.slot] = savedBytes[o.i];
        break;
    default: break;
    }
}

Weights swarm() {
    Weights w;
    auto pw = [](int d) { static const int f[] = {1, 0, 3}; return d * f[CH.weighted({3, 1, 1})]; };
    w.get = pw(6);
    w.set = pw(4);
    w.step = 8;
    w.mode = 6;
    w.eval = pw(6);
    w.state = pw(2);
    w.ser = pw(1);
    w.log = pw(1);
    w.reset = pw(1);
    w.misc = pw(1);
    w.term = CH.chance(1, 4);
    w.illegal = CH.chance(1, 3) ? 1 : 0;
    w.wildValues = CH.chance(1, 3);
    w.maxSteps = (int[]){60, 8, 600}[CH.weighted({3, 2, 1})];
    w.anyStart = CH.chance(1, 3);
    return w;
}

Cfg genCfg(const std::vector<std::string>& names, int onlyType, int onlyVer) {
    Cfg c;
    std::vector<const Model*> ms;
    for (auto& m : models) {
        if (!names.empty() && std::find(names.begin(), names.end(), m.name) == names.end()) continue;
        if (onlyVer == 2 && !m.fmi2) continue;
        if (onlyType == ME && !m.me) continue;
        if (onlyType == CS && !m.cs) continue;
        if (onlyType == SE && !m.se) continue;
        ms.push_back(&m);
    }
    c.m = CH.of(ms);
    c.ver = onlyVer > 0 ? onlyVer : (c.m->fmi2 && CH.chance(1, 3)) ? 2 : 3;
    if (c.m->se) c.type = SE;
    else c.type = onlyType >= 0 ? (IfType)onlyType : CH.chance(1, 2) ? ME : CS;
    c.logging = CH.chance(1, 3);
    if (c.ver == 3 && c.type == CS) {
        c.eventMode = c.m->eventUpdate && CH.chance(1, 2);
        c.early = CH.chance(1, 2);
        c.iu = CH.chance(1, 3);
        if (c.iu && CH.chance(1, 2)) for (auto& v : c.m->vars) if (v.t == F64 && !v.dims) c.iuRead.push_back(v.vr);
    }
    if (c.ver == 2) c.res = "file:///unzipped/resources";
    return c;
}

std::vector<const Var*> varsOf(const Cfg& c) {
    std::vector<const Var*> r;
    for (auto& v : c.m->vars) if (v.vers & (1 << c.ver)) r.push_back(&v);
    return r;
}

Expect setAllowed(const Cfg& c, const Var& v, Mode m) {
    std::string n = c.m->name;
    const bool instInit = m == Inst_ || m == Init_;
    if (v.kind == KConst || v.kind == KTime || v.kind == KDer) return XErr;
    if (v.kind == KOut && n != "Roberts" && v.vr != 28) return XErr;
    if (n == "Feedthrough" && v.vr == 28) return XUnknown;
    if (v.kind == KStruct) return m == Conf_ || m == Reconf_ ? XOk : XErr;
    if (m == Term_) return XUnknown;
    if (m == Conf_ || m == Reconf_) return XUnknown;
    if (v.t != F64 && v.t != F32 && m == Cont_) return XErr;
    if (n == "BouncingBall") {
        if (v.vr == 1 || v.vr == 3) return m == Step_ ? XErr : XOk;
        if (v.vr == 5) return instInit ? XOk : c.type == ME ? XErr : XUnknown;
        if (v.vr == 6) return instInit || m == Event_ ? XOk : c.type == ME ? XErr : XOk;
    }
    if (n == "Dahlquist") {
        if (v.vr == 1) return m == Step_ ? XUnknown : XOk;
        if (v.vr == 3) return instInit ? XOk : c.type == ME ? XErr : XUnknown;
    }
    if (n == "VanDerPol") {
        if (v.kind == KState) return m == Step_ ? XUnknown : XOk;
        if (v.vr == 5) return instInit ? XOk : m == Cont_ && c.type == ME ? XErr : XUnknown;
    }
    if (n == "Roberts") {
        if (v.kind == KState) return instInit || m == Cont_ ? XOk : XUnknown;
        if (v.vr == 1) return instInit ? XOk : XUnknown;
        return v.vr == 6 ? XUnknown : XErr;
    }
    if (n == "Stair") return instInit ? XOk : XErr;
    if (n == "Feedthrough") {
        if (v.kind == KFixed) return instInit ? XOk : c.type == ME ? XErr : XUnknown;
        if (v.kind == KTun || (v.kind == KInD && (v.t == F64 || v.t == F32))) return m == Cont_ ? XErr : XOk;
        return XOk;
    }
    if (n == "StateSpace") {
        if (v.vr == 11) return m == Cont_ || m == Event_ ? XOk : XErr;
        if (v.kind == KInC) return XOk;
        if (v.kind == KTun) return m == Cont_ ? XUnknown : XOk;
        if (v.kind == KX0) return instInit ? XOk : XUnknown;
    }
    if (n == "Clocks") return XOk;
    return XUnknown;
}

static const double moderate[] = {0, 1, -1, 0.5, 2, 0.1, -0.3, 3.25, 10, -7.5, 1e-3, 100};

uint64_t genValue(const Cfg& c, const Var& v, bool wild) {
    std::string n = c.m->name;
    switch (v.t) {
    case F64: {
        if (n == "Feedthrough" && wild) {
            static const uint64_t special[] = {0, 0x8000000000000000ull, 0x3ff0000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 1, 0x000fffffffffffffull, 0x7fefffffffffffffull, 0x7ff8dead00000001ull};
            if (CH.chance(1, 2)) return special[CH.pick(10)];
            return CH.bits(64);
        }
        double x = moderate[CH.pick(12)];
        if (CH.chance(1, 3)) x += (double)CH.range(0, 1000) / 997.0;
        if (n == "BouncingBall" && v.vr == 6) x = 0.5 + std::fabs(std::fmod(x, 0.5));
        if (n == "BouncingBall" && v.vr == 5) x = -1 - std::fabs(x);
        if (n == "BouncingBall" && v.vr == 1) x = std::fabs(x) / 10 + 0.01;
        if (n == "BouncingBall" && v.vr == 3) x = std::fmod(x, 3);
        if (n == "VanDerPol" || n == "Dahlquist") x = std::fmod(x, 3);
        if (n == "Roberts") x = std::fabs(std::fmod(x, 1)) * (v.vr == 4 ? 1e-4 : 1);
        if (n == "StateSpace") x = std::fmod(x, 4);
        return dbits(x);
    }
    case F32: {
        if (wild) return CH.bits(32);
        float f = (float)moderate[CH.pick(12)];
        uint32_t u;
        memcpy(&u, &f, 4);
        return u;
    }
    case I8: case U8: return CH.bits(8);
    case I16: case U16: return CH.bits(16);
    case U32: return CH.bits(32);
    case I32:
        if (n == "Stair") return CH.pick(10);
        if (n == "Feedthrough" && v.vr == 33) return 1 + CH.pick(2);
        if (n == "Clocks") return CH.pick(100);
        return CH.bits(32);
    case I64:
        if (n == "Feedthrough" && v.vr == 33) return 1 + CH.pick(2);
        return CH.bits(64);
    case U64:
        if (n == "StateSpace") return 1 + CH.pick(5);
        return CH.bits(64);
    case BOO: return CH.pick(2);
    default: return 0;
    }
}

std::string genString(bool wild, size_t maxLen, bool nul) {
    size_t len;
    switch (CH.weighted({4, 1, 1, 1})) {
    case 0: len = CH.pick(12); break;
    case 1: len = maxLen; break;
    case 2: len = maxLen - CH.pick(3); break;
    default: len = CH.pick(maxLen + 1);
    }
    std::string s;
    unsigned x = (unsigned)CH.pick(251);
    for (size_t i = 0; i < len; i++) {
        unsigned char ch = wild ? (unsigned char)(x * 7 + i * 13) : (unsigned char)('a' + (x + i) % 26);
        if (!nul && ch == 0) ch = 1;
        s += (char)ch;
    }
    return s;
}

Op opGet(const Cfg& c, const Dims& d, const std::vector<const Var*>& vs) {
    Op o{OGet};
    (void)c;
    for (auto v : vs) {
        o.t = v->t;
        o.vr.push_back(v->vr);
        o.n += arraySize(*v, d);
    }
    return o;
}

Op opSet(const Cfg& c, const Var& v, const Dims& d, bool wild) {
    Op o{OSet};
    o.t = v.t;
    o.vr = {v.vr};
    size_t n = arraySize(v, d);
    if (v.t == STR) o.str.push_back(genString(wild, 127, false));
    else if (v.t == BIN) o.str.push_back(genString(wild, 128, true));
    else {
        if (n > 4) {
            // one draw for a whole array keeps the schedule short
            uint64_t s = CH.pick(1000003);
            for (size_t i = 0; i < n; i++) o.num.push_back(dbits((double)((s * 31 + i * i * 7 + i * 3) % 41) / 8.0 - 2.5));
        } else for (size_t i = 0; i < n; i++) o.num.push_back(genValue(c, v, wild));
    }
    return o;
}

Op opAll(const Cfg& c, const Dims& d, Type t) {
    std::vector<const Var*> vs;
    for (auto v : varsOf(c)) if (v->t == t) vs.push_back(v);
    Op o = opGet(c, d, vs);
    o.t = t;
    return o;
}

std::vector<Op> readAllOps(const Cfg& c, const Dims& d) {
    std::vector<Op> r;
    for (int t = 0; t < NTYPES; t++) {
        Op o = opAll(c, d, (Type)t);
        if (!o.vr.empty() && o.n > 0) r.push_back(o);
    }
    return r;
}

Op genStep(const Track& t, int maxSteps) {
    const double h = t.cfg.m->h;
    Op o{ODoStep};
    o.a = t.cp;
    o.g = true;
    double k = (double)CH.range(1, std::max(1, maxSteps));
    double step;
    switch (CH.weighted({4, 2, 2, 1, 1})) {
    case 0: step = k * h; break;
    case 1: step = h; break;
    case 2: step = k * h + h * (double)CH.range(1, 9) / 10.0; break;
    case 3: step = h * (double)CH.range(1, 9) / 10.0; break;
    default: step = k * h * (1.0 + 1e-12); break;
    }
    if (std::string(t.cfg.m->name) == "Roberts") step = h * std::min(k, 40.0);
    o.b = step;
    if (t.stopDef && o.a + o.b > t.stop) o.b = t.stop - o.a;
    if (!(o.b > 0)) o.b = h;
    return o;
}

static std::vector<Op> illegalOps(Instance& in, Track& t) {
    // calls that are wrong in some way; the caller decides what to expect
    std::vector<Op> r;
    Op o{OReset};
    switch (CH.pick(8)) {
    case 0: o.k = CH.chance(1, 2) ? OEnterInit : OExitInit; o.a = t.time; break;
    case 1: o.k = ODoStep; o.a = t.cp + 0.5; o.b = t.cfg.m->h; break;
    case 2: o.k = ODoStep; o.a = t.cp; o.b = -1; break;
    case 3: o.k = OGet; o.t = F64; o.vr = {4711}; o.n = 1; break;
    case 4: o.k = OSet; o.t = F64; o.vr = {4711}; o.num = {0}; break;
    case 5: o.k = OEnterEvent; break;
    case 6: o.k = OEnterCont; break;
    default: o.k = OUpdate; o.k = OTerminate; break;
    }
    (void)in;
    r.push_back(o);
    return r;
}

Op genOp(Instance& in, Track& t, const Weights& w) {
    const Cfg& c = t.cfg;
    const bool v3 = c.ver == 3;
    std::string mn = c.m->name;
    std::vector<Op> cand;
    std::vector<int> wt;
    auto add = [&](int weight, OpK k) -> Op* {
        if (weight <= 0) return nullptr;
        cand.push_back(Op{k});
        wt.push_back(weight);
        return &cand.back();
    };
    const Mode m = t.mode;
    enum { AGet = 1000, ASet, AStep, AIllegal, ASetSt };
    auto meta = [&](int weight, int what) { if (weight > 0) { cand.push_back(Op{OGet}); cand.back().i = what; wt.push_back(weight); } };
    // reading
    bool canGet = v3 ? true : (m != Inst_);
    if (canGet) meta(w.get, AGet);
    meta(w.set, ASet);
    switch (m) {
    case Inst_:
        add(w.mode + 4, OEnterInit);
        if (v3 && mn == "StateSpace" && w.reconfig) add(w.mode, OEnterConf);
        break;
    case Conf_: case Reconf_: add(w.mode, OExitConf); break;
    case Init_: add(w.mode + 4, OExitInit); break;
    case Event_:
        if (v3 || c.type == ME) add(w.mode, OUpdate);
        if (c.type == ME) { add(w.mode, OEnterCont); }
        else add(w.mode, OEnterStep);
        if (c.type == ME && v3 && mn == "StateSpace" && w.reconfig) add(w.mode / 3, OEnterConf);
        break;
    case Cont_:
        add(w.step, OSetTime);
        if (t.nx() > 0) meta(w.step, ASetSt);
        add(w.eval / 2, OCompleted);
        add(w.mode, OEnterEvent);
        break;
    case Step_:
        if (!t.terminated && !(t.stopDef && t.cp > t.stop - 1e-6 && !w.illegal) && !(c.eventMode && t.eventPending && CH.chance(3, 4))) meta(w.step * 2, AStep);
        if (c.eventMode) add(t.eventPending ? w.mode * 3 : w.mode / 2, OEnterEvent);
        if (v3 && mn == "StateSpace" && !c.eventMode && w.reconfig) add(w.mode / 3, OEnterConf);
        if (mn == "BouncingBall") { Op* o = add(w.misc, OOutDer); if (o) { o->vr = std::vector<std::vector<uint32_t>>{{1}, {3}, {1, 3}, {3, 1, 1}}[CH.pick(4)]; o->num.assign(o->vr.size(), 1); } }
        if (!v3) { Op* o = add(w.misc, OStatus); if (o) o->i = CH.range(0, 1) ? 3 : 1; }
        break;
    case ClockAct_: {
        Op* o = add(w.step * 2, OActivate);
        if (o) { o->vr = {1001u + (uint32_t)CH.pick(3)}; o->a = (double)CH.pick(10); }
        o = add(w.eval, OGetClock);
        if (o) o->vr = {1005};
        o = add(w.eval, OGetInterval);
        if (o) o->vr = {1003};
        break;
    }
    default: break;
    }
    if (c.type == ME && (m == Event_ || m == Cont_ || (v3 && m == Init_))) {
        if (w.eval > 0) {
            add(w.eval, OGetStates)->n = (size_t)t.nx();
            add(w.eval, OGetDers)->n = (size_t)t.nx();
            add(w.eval, OGetInds)->n = (size_t)c.m->nz;
            if (m != Init_ || v3) add(1, OGetNoms)->n = (size_t)t.nx();
        }
    }
    if (v3 && m != Inst_) { add(w.misc, OGetNx); add(w.misc, OGetNz); }
    if ((mn == "VanDerPol") && (m == Init_ || m == Event_ || m == Cont_ || m == Step_)) {
        Op* o = add(w.misc, ODirDer);
        if (o) { o->vr = {2, 4}; o->vr2 = {1, 3}; o->num = {dbits(1), dbits(0.5)}; }
    }
    if (w.stateSlots) {
        Op* o = add(w.state, OGetState);
        if (o) o->slot = 10 + (int)CH.pick(3);
        if (!in.slots.empty()) {
            std::vector<int> own;
            for (auto& s : in.slots) if (s.first >= 10 && s.first < 20 && s.second) own.push_back(s.first);
            if (!own.empty()) {
                int sl = CH.of(own);
                o = add(w.state, OSetState);
                if (o) o->slot = sl;
                o = add(w.state / 2, OFreeState);
                if (o) o->slot = sl;
                o = add(w.ser, OSerSize);
                if (o) o->slot = sl;
                o = add(w.ser, OSer);
                if (o) { o->slot = sl; o->i = 10; }
                if (in.bytes.count(10)) {
                    o = add(w.ser, ODeser);
                    if (o) { o->slot = 10 + (int)CH.pick(3); o->i = 10; }
                }
            }
        }
    }
    {
        Op* o = add(w.log, OSetDebug);
        if (o) {
            o->f = CH.chance(1, 2);
            if (CH.chance(1, 2)) o->str = {CH.chance(1, 2) ? "logEvents" : "logStatusError"};
        }
    }
    if (m == Term_) add(6, OReset);
    else if (m != Inst_) add(w.reset, OReset);
    if (w.term && (m == Event_ || m == Cont_ || m == Step_ || m == ClockAct_)) add(w.term, OTerminate);
    if (w.illegal) meta(w.illegal, AIllegal);

    if (cand.empty()) return Op{OReset};
    Op o = cand[(size_t)CH.weighted(wt)];
    if (o.k == OGet) {
        int what = o.i;
        o.i = 0;
        switch (what) {
        case AGet: {
            std::vector<const Var*> vs = varsOf(c), pick;
            const Var* v0 = CH.of(vs);
            pick.push_back(v0);
            int extra = (int)CH.pick(4);
            for (int i = 0; i < extra; i++) { const Var* v = CH.of(vs); if (v->t == v0->t) pick.push_back(v); }
            return opGet(c, t.d, pick);
        }
        case ASet: {
            std::vector<const Var*> ok;
            for (auto v : varsOf(c)) if (setAllowed(c, *v, m) == XOk) ok.push_back(v);
            if (ok.empty()) return canGet ? opGet(c, t.d, {varsOf(c)[0]}) : Op{OReset};
            return opSet(c, *CH.of(ok), t.d, w.wildValues);
        }
        case AStep: return genStep(t, w.maxSteps);
        case ASetSt: {
            Op s{OSetStates};
            for (int i = 0; i < t.nx(); i++) {
                double x = moderate[CH.pick(12)];
                s.num.push_back(dbits(mn == "Roberts" ? std::fabs(std::fmod(x, 1)) * (i ? 1e-4 : 1) : x));
            }
            return s;
        }
        default: return illegalOps(in, t)[0];
        }
    }
    if (o.k == OEnterInit) {
        o.a = 0;
        if (w.anyStart && mn != "Stair") o.a = (double)CH.range(-4, 40) / 4.0;
        o.f = CH.chance(1, 3);
        o.b = o.a + c.m->stop;
        o.g = CH.chance(1, 4);
    }
    if (o.k == OSetTime) {
        switch (CH.weighted({2, 1, 1})) {
        case 0: o.a = t.time + c.m->h; break;
        case 1: o.a = t.nextEventDef ? t.nextEvent : t.time + 0.5; break;
        default: o.a = t.time + (double)CH.range(0, 100) / 64.0;
        }
    }
    return o;
}

Res step(Instance& in, Track& t, const Op& o) {
    Res r = exec(in, o);
    t.after(o, r);
    if (o.k == ODoStep && r.ok()) simTime(o.b);
    if (o.k == OSetTime && r.ok()) simTime(in.cfg.m->h);
    feature(hmix(hmix(0x51, (uint64_t)t.mode), hmix(hstr(in.cfg.m->name), hmix((uint64_t)o.k, (uint64_t)in.cfg.ver * 8 + (uint64_t)in.cfg.type))));
    return r;
}

void initialize(Instance& in, Track& t, double start, bool stopDef, double stop) {
    Op o{OEnterInit};
    o.a = start;
    o.f = stopDef;
    o.b = stop;
    Res r = step(in, t, o);
    if (!r.ok()) fail("setup", "EnterInitializationMode failed with %s", statusName[r.status]);
    r = step(in, t, Op{OExitInit});
    if (!r.ok()) fail("setup", "ExitInitializationMode failed with %s", statusName[r.status]);
}
