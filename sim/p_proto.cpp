// The FMI state machine (C11): a misbehaving importer makes allowed, disallowed and
// malformed calls; a model of the standard's state machine says what must happen.
#include "props.h"
#include "ref.h"
#include "proto.h"

namespace {

bool is(const Cfg& c, const char* n) { return std::string(c.m->name) == n; }

// What the standard prescribes for a well-formed call in a mode. XUnknown where the standard
// leaves it open, where it depends on more than the mode, or where the reference FMUs are
// more permissive than the standard.
Expect allowed(const Op& o, const Track& t) {
    const Cfg& c = t.cfg;
    const Mode m = t.mode;
    const bool v3 = c.ver == 3;
    auto only = [&](std::initializer_list<Mode> ok, std::initializer_list<Mode> unknown = {}) {
        for (Mode x : ok) if (x == m) return XOk;
        for (Mode x : unknown) if (x == m) return XUnknown;
        return XErr;
    };
    switch (o.k) {
    case OSetDebug: return XOk;
    case OSetup: return v3 ? XUnknown : only({Inst_});
    case OEnterInit: return only({Inst_});
    case OExitInit: return only({Init_});
    case OTerminate: return only({Event_, Cont_, Step_, ClockAct_}, {Reconf_});
    case OReset: return XOk;
    case OGet:
        if (!v3) return only({Init_, Event_, Cont_, Step_, Term_});
        return only({Init_, Event_, Cont_, Step_, ClockAct_, Term_}, {Inst_, Conf_, Reconf_});
    case OSet: {
        if (o.vr.empty()) return XUnknown;
        Expect e = XOk;
        for (uint32_t vr : o.vr) {
            const Var* v = nullptr;
            for (auto x : varsOf(c)) if (x->vr == vr && x->t == o.t) v = x;
            if (!v) return XErr;
            Expect x = setAllowed(c, *v, m);
            if (x == XErr) return XErr;
            if (x == XUnknown) e = XUnknown;
        }
        return e;
    }
    case OEnterEvent:
        if (!v3) return c.type == ME ? only({Cont_}, {Event_}) : only({});
        return c.eventMode ? only({Cont_, Step_}) : only({Cont_}, {Step_});
    case OUpdate:
        if (t.terminated && m == Event_) return XUnknown;
        return only({Event_});
    case OEnterCont: return c.type == ME ? only({Event_}) : only({}, {Event_});
    case OEnterStep:
        if (!v3) return XUnknown;
        return c.type == CS ? only({Event_}, {Init_}) : only({}, {Event_, Init_});
    case OEnterConf:
        if (!v3) return XUnknown;
        if (!is(c, "StateSpace")) return only({}, {Inst_, Step_, Event_, ClockAct_});
        if (c.type == ME) return only({Inst_, Event_});
        return c.eventMode ? only({Inst_}, {Step_, Event_}) : only({Inst_, Step_}, {Event_});
    case OExitConf: return v3 ? only({Conf_, Reconf_}) : XUnknown;
    case OSetTime: return only({Cont_}, {Event_});
    case OSetStates:
        if (t.nx() == 0) return m == Cont_ ? XUnknown : only({}, {});
        return only({Cont_});
    case OCompleted: return only({Cont_});
    case OGetStates: case OGetDers: case OGetNoms: case OGetInds: {
        bool none = o.k == OGetInds ? c.m->nz == 0 : t.nx() == 0;
        if (c.type != ME) return only({}, {Init_, Event_, Cont_, Term_, Inst_});
        Expect e;
        if (v3) e = only({Init_, Event_, Cont_}, {Term_, Inst_});
        else if (o.k == OGetDers) e = only({Event_, Cont_}, {Term_, Init_});
        else if (o.k == OGetNoms) e = only({Event_, Cont_}, {Term_, Inst_, Init_});
        else e = only({Init_, Event_, Cont_}, {Term_});
        return e == XOk && none ? XUnknown : e;
    }
    case ODoStep: {
        if (m != Step_) return XErr;
        if (t.terminated || (c.eventMode && t.eventPending)) return XUnknown;
        if (std::fabs(o.a - t.cp) > 1e-3 * std::max(1.0, std::fabs(t.cp))) return XErr;
        if (o.a != t.cp) return XUnknown;
        if (!(o.b > 0)) return XErr;
        if (t.stopDef && o.a + o.b > t.stop * (1 + 1e-12) + 1e-9) return o.a + o.b > t.stop + 1e-3 * std::max(1.0, std::fabs(t.stop)) ? XErr : XUnknown;
        return XOk;
    }
    case OActivate:
        if (!v3) return XUnknown;
        if (m != ClockAct_) return XErr;
        return o.vr[0] >= 1001 && o.vr[0] <= 1003 ? XOk : XErr;
    case OOutDer:
        if (!is(c, "BouncingBall")) return XUnknown;
        return only({Step_}, {Term_});
    case ODirDer:
        if (!is(c, "VanDerPol")) return XUnknown;
        return v3 ? only({Init_, Event_, Cont_, Step_}, {Term_}) : only({Init_, Event_, Cont_, Step_}, {Term_});
    case OGetState: return XOk;
    case OSetState: case OFreeState: case OSerSize: case OSer: return XOk;
    case OStatus:
        if (v3) return XUnknown;
        if (o.i != 1 && o.i != 3 && t.mode == Step_) return XUnknown;
        return only({Step_}, {Term_});
    case OCancel: return v3 ? XUnknown : XErr;
    default: return XUnknown;
    }
}

// whether the mode after a refused call is prescribed
bool endsSimulation(const Op& o) { return !(o.k == OMisc || o.k == OStatus || o.k == OCancel || o.k == OInDer || o.k == OSetDebug || o.nullInstance); }

}

// a well-formed call of any kind, whether or not it is allowed now
Op anyCall(Instance& in, Track& t) {
    const Cfg& c = t.cfg;
    static const OpK kinds[] = {OEnterInit, OExitInit, OTerminate, OGet, OSet, OEnterEvent, OUpdate, OEnterCont, OEnterStep, OEnterConf, OExitConf, OSetTime, OSetStates, OGetStates,
                                OGetDers, OGetInds, OGetNoms, OCompleted, ODoStep, OOutDer, ODirDer, OGetState, OSetState, OSetup, OStatus, OCancel, OActivate};
    Op o{kinds[CH.pick(sizeof kinds / sizeof *kinds)]};
    std::vector<const Var*> vs = varsOf(c);
    switch (o.k) {
    case OGet: return opGet(c, t.d, {CH.of(vs)});
    case OSet: return opSet(c, *CH.of(vs), t.d, false);
    case OEnterInit: case OSetup: o.a = 0; break;
    case OSetTime: o.a = t.time; break;
    case OSetStates: for (int i = 0; i < t.nx(); i++) o.num.push_back(dbits(0.5)); break;
    case OGetStates: case OGetDers: case OGetNoms: o.n = (size_t)t.nx(); break;
    case OGetInds: o.n = (size_t)c.m->nz; break;
    case ODoStep:
        o = genStep(t, 20);
        switch (CH.pick(4)) {
        case 1: o.a += CH.chance(1, 2) ? 0.7 : -0.7; break;
        case 2: o.b = CH.chance(1, 2) ? 0 : -o.b; break;
        case 3: if (t.stopDef) o.b = t.stop - t.cp + 1; break;
        default: break;
        }
        break;
    case OOutDer: o.vr = {1}; o.num = {1}; break;
    case ODirDer: o.vr = {2, 4}; o.vr2 = {1, 3}; o.num = {dbits(1), dbits(0.5)}; break;
    case OGetState: o.slot = 1 + (int)CH.pick(2); break;
    case OSetState:
        o.slot = 1 + (int)CH.pick(2);
        if (!in.slots.count(o.slot)) o.k = OGetState;
        break;
    case OStatus: o.i = CH.chance(1, 2) ? 1 : 3; break;
    case OActivate: o.vr = {CH.chance(1, 4) ? 1004u + (uint32_t)CH.pick(3) : 1001u + (uint32_t)CH.pick(3)}; break;
    default: break;
    }
    return o;
}

// a call with bad arguments in a mode in which the call itself would be allowed
bool malformed(Instance& in, Track& t, Op* out) {
    const Cfg& c = t.cfg;
    const bool v3 = c.ver == 3;
    std::vector<const Var*> vs = varsOf(c), settable;
    for (auto v : vs) if (setAllowed(c, *v, t.mode) == XOk) settable.push_back(v);
    Op o{OGet};
    (void)in;
    int what = (int)CH.pick(9);
    bool canGet = allowed(opGet(c, t.d, {vs[0]}), t) == XOk;
    switch (what) {
    case 0: case 1: {
        // variable access with a null array
        bool set = CH.chance(1, 2);
        if (set ? settable.empty() : !canGet) return false;
        const Var* v = CH.of(set ? settable : vs);
        o = set ? opSet(c, *v, t.d, false) : opGet(c, t.d, {v});
        if (v->dims && arraySize(*v, t.d) == 0) return false;
        o.nul = v->t == BIN && CH.chance(1, 3) ? 4 : 1 + (int)CH.pick(2);
        fault("null_array");
        break;
    }
    case 2: {
        // unknown variable, or one of another type
        bool set = CH.chance(1, 2);
        if (!set && !canGet) return false;
        if (set && t.mode == Cont_) return false;
        o.k = set ? OSet : OGet;
        std::vector<Type> ts = v3 ? std::vector<Type>{F64, F32, I8, U8, I16, U16, I32, U32, I64, U64, BOO, STR, BIN} : std::vector<Type>{F64, I32, BOO, STR};
        o.t = CH.of(ts);
        uint32_t vr = CH.chance(1, 2) ? CH.of(vs)->vr : CH.chance(1, 2) ? 4711u : ~0u;
        for (auto v : vs) if (v->vr == vr && v->t == o.t) return false;
        if (is(c, "Roberts") && o.t == F64) vr = 4711;    // has further readable variables
        o.vr = {vr};
        o.n = 1;
        if (o.t == STR || o.t == BIN) o.str = {"x"};
        else o.num = {1};
        fault("unknown_variable");
        break;
    }
    case 3: case 4: {
        // wrong number of values
        if (!v3) return false;
        bool set = CH.chance(1, 2);
        if (set ? settable.empty() : !canGet) return false;
        const Var* v = CH.of(set ? settable : vs);
        o = set ? opSet(c, *v, t.d, false) : opGet(c, t.d, {v});
        int extra = (int)CH.pick(3);
        for (int i = 0; i < extra; i++) {
            const Var* w = CH.of(set ? settable : vs);
            if (w->t != v->t) continue;
            Op o2 = set ? opSet(c, *w, t.d, false) : opGet(c, t.d, {w});
            o.vr.push_back(w->vr);
            o.n += o2.n;
            o.num.insert(o.num.end(), o2.num.begin(), o2.num.end());
            o.str.insert(o.str.end(), o2.str.begin(), o2.str.end());
        }
        size_t n = set ? std::max(o.num.size(), o.str.size()) : o.n;
        o.wrong = CH.chance(1, 2) ? 1 + (int)CH.pick(3) : -1 - (int)CH.pick(n ? n : 1);
        if ((long)n + o.wrong < 0) o.wrong = 1;
        fault("wrong_number_of_values");
        break;
    }
    case 5: {
        // evaluations with a wrong number of elements or a null array
        static const OpK ks[] = {OGetStates, OGetDers, OGetInds, OGetNoms, OSetStates};
        o.k = ks[CH.pick(5)];
        size_t n = o.k == OGetInds ? (size_t)c.m->nz : (size_t)t.nx();
        if (c.type != ME) return false;
        o.n = n;
        if (o.k == OSetStates) { o.n = 0; for (size_t i = 0; i < n; i++) o.num.push_back(dbits(0.25)); }
        Expect e = allowed(o, t);
        if (e != XOk && (n || e != XUnknown)) return false;
        if (n && CH.chance(1, 3)) { o.nul = 2; fault("null_array"); }
        else { o.wrong = !n || CH.chance(1, 2) ? 1 : -1; fault("wrong_number_of_values"); }
        break;
    }
    case 6: {
        // values a variable cannot take
        if (is(c, "Feedthrough")) {
            if (t.mode == Cont_ || t.mode == Term_ || t.mode == Conf_ || t.mode == Reconf_) return false;
            int k = (int)CH.pick(v3 ? 3 : 2);
            o.k = OSet;
            if (k == 0) { o.t = STR; o.vr = {29}; o.str = {std::string(128 + CH.pick(200), 'x')}; }
            else if (k == 1) { o.t = v3 ? I64 : I32; o.vr = {33}; o.num = {CH.chance(1, 2) ? 0 : 3 + CH.pick(10)}; }
            else { o.t = BIN; o.vr = {31}; o.str = {std::string(129 + CH.pick(200), 'y')}; }
        } else if (is(c, "StateSpace") && (t.mode == Conf_ || t.mode == Reconf_)) {
            o.k = OSet;
            o.t = U64;
            o.vr = {1 + (uint32_t)CH.pick(3)};
            o.num = {CH.chance(1, 2) ? 6 + CH.pick(5) : CH.bits(64) | 8};
        } else return false;
        fault("value_out_of_range");
        break;
    }
    case 7:
        o = anyCall(in, t);
        if (o.k == OStatus || o.k == OSetup || o.k == OGetState || o.k == OSetState) return false;
        if (!v3 && (o.k == OEnterStep || o.k == OEnterConf || o.k == OExitConf || o.k == OActivate)) return false;
        o.nullInstance = true;
        fault("null_instance");
        break;
    default:
        o.k = OSetDebug;
        o.f = true;
        o.str = {CH.chance(1, 2) ? "logEvents" : "logStatusError", "noSuchCategory"};
        fault("unknown_category");
    }
    *out = o;
    return true;
}

namespace {

void refuse(Instance& in, Track& t, const Op& o, const char* why) {
    bool readable = in.cfg.ver == 3 ? true : t.mode != Inst_;
    // a refused set may have applied the values before the bad one: then the dimensions are unknown
    bool resized = o.k == OSet && o.t == U64 && is(in.cfg, "StateSpace") && o.wrong && !o.nullInstance;
    bool look = readable && !resized && CH.chance(1, 2);
    Mode before = t.mode;
    Pt a;
    if (look) a = readPoint(in, t);
    Res r = exec(in, o);
    if (r.status != 3) fail("accepted", "%s in mode %s: %s", describe(o, r).c_str(), modeName[before], why);
    if (o.nullInstance) return;
    if (endsSimulation(o) && !resized) t.mode = Term_;
    else { Res q = step(in, t, Op{OReset}); if (!q.ok()) fail("reset", "Reset failed after %s", describe(o, r).c_str()); return; }
    if (look && !(o.k == OSet)) {
        Pt b = readPoint(in, t);
        if (!(a == b)) fail("side-effect", "the refused call %s in mode %s changed something: %s", describe(o).c_str(), modeName[before], diff(b, a, in.cfg, t.d).c_str());
        probe("no_side_effect_checked");
    } else if (look) {
        // a refused set may have applied the values before the bad one, but no others
        Pt b = readPoint(in, t);
        if (o.vr.size() == 1 && o.wrong <= 0 && !(a == b)) fail("side-effect", "the refused call %s in mode %s changed something: %s", describe(o).c_str(), modeName[before], diff(b, a, in.cfg, t.d).c_str());
    }
    feature(hmix(hmix(0xC11, (uint64_t)before), hmix((uint64_t)o.k, hstr(in.cfg.m->name) + (uint64_t)in.cfg.ver * 3 + (uint64_t)in.cfg.type)));
}

}

void propC11() {
    vfs["/unzipped/resources/y.txt"] = VFile{"abc", true};
    Weights w = swarm();
    w.illegal = 0;
    w.wildValues = false;
    w.mode = 8;
    Instance in;
    in.cfg = genCfg();
    in.cfg.name = "instance";
    if (CH.chance(1, 12)) {
        Instance bad;
        bad.cfg = in.cfg;
        switch (CH.weighted({2, 1, 3})) {
        case 0: bad.cfg.name = ""; break;
        case 1: bad.cfg.noName = true; break;
        default: bad.cfg.wrongToken = 1 + (int)CH.pick(7);
        }
        fault("bad_instantiation");
        if (create(bad)) fail("accepted", "an instance was created with a wrong token or without a name");
        if (liveAllocs()) fail("leak", "a refused instantiation left memory allocated");
    }
    Track t(in.cfg);
    if (!create(in)) fail("setup", "instantiation failed");
    for (int i = 0; CH.again(i, 4, 40); i++) {
        switch (CH.weighted({6, 2, 2})) {
        case 0: {
            // allowed
            Op o = genOp(in, t, w);
            Expect e = allowed(o, t);
            if (e != XOk) { if (e == XErr) { refuse(in, t, o, "not allowed"); } break; }
            Mode m = t.mode;
            bool disc = o.k == ODoStep && in.cfg.ver == 2 && is(in.cfg, "Stair");
            Res r = step(in, t, o);
            if (!(r.ok() || (disc && r.status == 2))) fail("refused", "%s in mode %s", describe(o, r).c_str(), modeName[m]);
            break;
        }
        case 1: {
            // anything, judged by the state machine
            Op o = anyCall(in, t);
            if (o.k == OStatus && in.cfg.ver == 2 && CH.chance(1, 2)) {
                static const int unavailable[] = {0, 2, 4, 5, 6};
                o.i = unavailable[CH.pick(5)];
            }
            Expect e = allowed(o, t);
            if (e == XUnknown && o.k == OStatus && in.cfg.ver == 2 && o.i != 1 && o.i != 3) {
                // information that is only available while a step is pending
                fault("unavailable_status");
                Res r = exec(in, o);
                if (r.ok()) fail("accepted", "%s in mode %s: no step is pending", describe(o, r).c_str(), modeName[t.mode]);
            }
            if (e == XUnknown) break;
            if (e == XErr) { fault("call_out_of_sequence"); refuse(in, t, o, "not allowed in this mode"); break; }
            Mode m = t.mode;
            bool disc = o.k == ODoStep && in.cfg.ver == 2 && is(in.cfg, "Stair");
            Res r = step(in, t, o);
            if (!(r.ok() || (disc && r.status == 2))) fail("refused", "%s in mode %s", describe(o, r).c_str(), modeName[m]);
            break;
        }
        default: {
            Op o{OGet};
            if (malformed(in, t, &o)) refuse(in, t, o, "malformed");
        }
        }
        if (t.mode == Term_ && CH.chance(1, 3)) {
            Res r = step(in, t, Op{OReset});
            if (!r.ok()) fail("reset", "Reset failed in mode Terminated");
            probe("reset_after_error");
        }
    }
    destroy(in);
    if (liveAllocs()) fail("leak", "after freeing the instance %zu allocations remain:%s", liveAllocs(), describeLive().c_str());
}
