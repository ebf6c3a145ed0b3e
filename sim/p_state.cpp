// FMU states (C05), serialized FMU states across a crash (C06) and reset (C07).
// Each compares a continuation with the same continuation executed from the same point.
#include "props.h"

namespace {

struct Cont { std::vector<Op> ops; std::vector<Res> res; std::vector<int> file; };

// what happens to the Resource file during a call
void fileIs(int fate) {
    if (fate) fileFault = [fate](const std::string&) { return fate; };
    else fileFault = nullptr;
}

void prepFiles() {
    vfs["/unzipped/resources/y.txt"] = VFile{"abc", true};
}

// the calls that give all arrays of StateSpace their largest size, so that every stored element can be seen
std::vector<Op> largestSizes(const Instance& in, const Track& t) {
    std::vector<Op> r;
    const Cfg& c = in.cfg;
    if (std::string(c.m->name) != "StateSpace") return r;
    bool can = t.mode == Inst_ || (c.type == ME ? t.mode == Event_ : t.mode == Step_ && !c.eventMode);
    if (!can || !CH.chance(1, 2)) return r;
    r.push_back(Op{OEnterConf});
    for (uint32_t vr = 1; vr <= 3; vr++) {
        Op o{OSet};
        o.t = U64;
        o.vr = {vr};
        o.num = {5};
        r.push_back(o);
    }
    r.push_back(Op{OExitConf});
    return r;
}

// generates and executes a continuation
Cont record(Instance& in, Track& t, Weights w, int lo, int hi) {
    Cont c;
    w.stateSlots = false;
    const bool files = std::string(in.cfg.m->name) == "Resource" && CH.chance(1, 2);
    const bool noSetup = in.cfg.ver == 2 && CH.chance(1, 8);
    auto sizes = [&]() {
        for (auto& o : largestSizes(in, t)) {
            c.ops.push_back(o);
            c.file.push_back(0);
            c.res.push_back(step(in, t, o));
            probe("largest_sizes");
        }
    };
    sizes();
    for (int i = 0; CH.again(i, lo, hi); i++) {
        Op o = genOp(in, t, w);
        if (o.k == OEnterInit && noSetup) { o.i = 1; o.a = 0; o.f = false; }
        c.ops.push_back(o);
        c.file.push_back(files ? (int)CH.weighted({4, 1, 1, 1}) : 0);
        fileIs(c.file.back());
        c.res.push_back(step(in, t, o));
        fileIs(0);
        if (c.file.back() && c.res.back().status == 3) probe("file_fault_in_a_judged_call");
    }
    sizes();
    bool readable = in.cfg.ver == 3 || t.mode != Inst_;
    if (readable)
        for (auto& o : readAllOps(in.cfg, t.d)) {
            c.ops.push_back(o);
            c.file.push_back(0);
            c.res.push_back(step(in, t, o));
        }
    return c;
}

void replay(Instance& in, const Cont& c, size_t n, const char* code, const char* what) {
    for (size_t i = 0; i < n && i < c.ops.size(); i++) {
        fileIs(c.file[i]);
        Res r = exec(in, c.ops[i]);
        fileIs(0);
        std::string why;
        if (!same(c.ops[i], c.res[i], r, &why)) fail(code, "%s, call %zu of the continuation: %s", what, i + 1, why.c_str());
    }
}

// how an instance was created does not matter for what a state restores
void otherSettings(Cfg& c) {
    if (c.type != CS || c.ver != 3 || !CH.chance(1, 3)) return;
    c.eventMode = c.m->eventUpdate && CH.chance(1, 2);
    c.early = CH.chance(1, 2);
    probe("restored_into_other_settings");
}

void sameSettings(Instance& in, Track& t, const Track& from) {
    in.cfg.eventMode = t.cfg.eventMode = from.cfg.eventMode;
    in.cfg.early = t.cfg.early = from.cfg.early;
}

// calls whose results are not judged; with faults, allocations and file accesses may fail in them
void history(Instance& in, Track& t, const Weights& w, int lo, int hi, bool faulty = false) {
    for (auto& o : largestSizes(in, t)) step(in, t, o);
    for (int i = 0; CH.again(i, lo, hi); i++) {
        Op o = genOp(in, t, w);
        if (faulty && CH.chance(1, 2)) allocFailIn = (int64_t)CH.pick(3);
        if (faulty) fileFault = [](const std::string&) { return (int)CH.weighted({3, 1, 1, 1}); };
        Res r = step(in, t, o);
        allocFailIn = -1;
        fileFault = nullptr;
        if (r.status == 3) { fault("rejected_call"); if (r.faults) probe("call_failed_for_lack_of_memory"); }
    }
}

}

void propC05() {
    prepFiles();
    Weights w = swarm();
    Instance a;
    a.cfg = genCfg();
    a.cfg.name = "a";
    Track t(a.cfg);
    if (!create(a)) fail("setup", "instantiation failed");
    history(a, t, w, 0, 16);
    Op get{OGetState};
    get.slot = 1;
    if (CH.chance(1, 3)) {
        // the state that is saved replaces an older one
        step(a, t, get);
        history(a, t, w, 0, 5);
        probe("older_state_replaced");
    }
    Res r = step(a, t, get);
    if (!r.ok()) {
        if (t.cfg.ver == 3 || r.status != 3) fail("get-state", "an FMU state could not be taken in mode %s", modeName[t.mode]);
        return;
    }
    Track at = t;
    Weights wc = w;
    if (CH.chance(1, 2)) wc = swarm();
    Cont c = record(a, t, wc, 1, 12);
    tr("--- end of the first continuation");
    Instance b;
    b.cfg = a.cfg;
    b.cfg.name = "b";
    otherSettings(b.cfg);
    Track tb(b.cfg);
    bool haveB = false;
    int rounds = CH.range(1, 3);
    Op set{OSetState};
    set.slot = 1;
    for (int k = 0; k < rounds; k++) {
        switch (CH.weighted({3, 1, 1})) {
        case 0: {
            // same instance, after something else happened
            Weights wp = w;
            wp.illegal = (int)CH.pick(2) * 3;
            wp.state = 3;
            wp.reset = 2;
            history(a, t, wp, 0, 8, CH.chance(1, 3));
            if (!a.slots.count(1)) fail("setup", "the saved state was lost");
            r = step(a, t, set);
            if (!r.ok()) fail("set-state", "setting the FMU state failed in mode %s", modeName[t.mode]);
            tr("--- restored");
            replay(a, c, c.ops.size(), "continuation", "after restoring the FMU state");
            t = at;      // unknown, but the next thing that happens is another restore
            for (size_t i = 0; i < c.ops.size(); i++) t.after(c.ops[i], c.res[i]);
            probe("restored_same_instance");
            break;
        }
        case 1: {
            // another instance
            if (!haveB) {
                if (!create(b)) fail("setup", "instantiation failed");
                haveB = true;
            }
            Weights wb = w;
            wb.stateSlots = false;
            history(b, tb, wb, 0, 8, CH.chance(1, 3));
            b.slots[1] = a.slots[1];
            r = exec(b, set);
            b.slots.erase(1);
            if (!r.ok()) fail("set-state", "setting the FMU state on another instance failed");
            tr("--- restored on the other instance");
            replay(b, c, c.ops.size(), "continuation-other", "after setting the FMU state on another instance");
            tb.restore(at);
            sameSettings(b, tb, at);
            for (size_t i = 0; i < c.ops.size(); i++) tb.after(c.ops[i], c.res[i]);
            probe("restored_other_instance");
            break;
        }
        default: {
            // a copy of the restored state replaces the saved one
            r = step(a, t, set);
            if (!r.ok()) fail("set-state", "setting the FMU state failed");
            r = step(a, t, get);
            if (!r.ok()) fail("get-state", "the FMU state could not be taken again");
            tr("--- saved again");
            probe("state_saved_again");
        }
        }
    }
    destroy(a);
    if (haveB) destroy(b);
    if (liveAllocs()) fail("leak", "after freeing everything %zu allocations remain:%s", liveAllocs(), describeLive().c_str());
}

void propC06() {
    prepFiles();
    Weights w = swarm();
    Instance* a = new Instance();
    a->cfg = genCfg();
    a->cfg.name = "before the crash";
    Track t(a->cfg);
    allocOwner = 1;
    if (!create(*a)) fail("setup", "instantiation failed");
    history(*a, t, w, 0, 14);
    Op debug{OSetDebug};
    if (CH.chance(1, 3)) {
        debug.f = CH.chance(1, 2);
        step(*a, t, debug);
    }
    Op get{OGetState}, ser{OSer}, deser{ODeser}, set{OSetState}, fre{OFreeState};
    get.slot = ser.slot = deser.slot = set.slot = fre.slot = 1;
    ser.i = deser.i = 1;
    // something else may have been serialized into the same durable place before
    Res r = step(*a, t, get);
    if (!r.ok()) return;
    if (CH.chance(1, 4)) {
        // a buffer of the wrong size
        Op s2 = ser;
        s2.wrong = CH.chance(1, 2) ? 1 + (int)CH.pick(9) : CH.chance(1, 2) ? 8 << CH.pick(14) : -(1 + (int)CH.pick(40));
        s2.i = 2;
        fault("wrong_buffer_size");
        r = step(*a, t, s2);
        if (r.ok()) fail("serialize-size", "serializing into a buffer of the wrong size (%+d) succeeded", s2.wrong);
        r = step(*a, t, set);      // back to the saved state
        if (!r.ok()) fail("set-state", "the FMU state could not be set after a failed serialization");
    }
    Track at = t;
    r = exec(*a, ser);
    if (!r.ok()) fail("serialize", "serializing a valid FMU state failed");
    if (CH.chance(1, 3)) { r = step(*a, t, fre); if (!r.ok()) fail("free-state", "freeing the FMU state failed"); }
    Cont c = record(*a, t, w, 1, 12);
    Instance b;
    b.cfg = a->cfg;
    b.cfg.name = CH.chance(1, 2) ? "restarted" : "a longer name after the restart than before";
    b.cfg.logging = CH.chance(1, 2);
    if (b.cfg.m->name != std::string("Resource")) b.cfg.res = b.cfg.ver == 2 ? "file:///elsewhere" : "/elsewhere/";
    b.bytes[1] = a->bytes[1];
    size_t n = c.ops.size();
    if (CH.chance(3, 4)) {
        // crash: memory and library state are lost, the bytes survive
        fault("crash_restart");
        a->cfg.name = "(dead)";
        a->c = nullptr;
        a->slots.clear();
        a->onIu = [](double) { failLater("dead-environment", "a callback was invoked with the environment of an instance that no longer exists"); };
        a->onLog = []() { failLater("dead-environment", "a message was delivered to the environment of an instance that no longer exists"); };
        a->onClockUpdate = []() { failLater("dead-environment", "a clock update was delivered to the environment of an instance that no longer exists"); };
        dropHeap(1);
        if (liveAllocs()) fail("setup", "allocations survived the crash");
        reloadLib(a->l);
        firstProcessDead = true;
        b.gen = 1;
        tr("--- crash and restart");
    }
    allocOwner = 2;
    otherSettings(b.cfg);
    Track tb(b.cfg);
    if (!create(b)) fail("setup", "instantiation after the restart failed");
    if (CH.chance(1, 3)) {
        Weights wb = w;
        wb.stateSlots = false;
        history(b, tb, wb, 0, 5);
    }
    bool had = CH.chance(1, 3);
    if (had) { r = step(b, tb, get); if (!r.ok()) fail("get-state", "an FMU state could not be taken"); }
    int tries = CH.chance(1, 2) ? CH.range(1, 2) : 0;
    for (int i = 0; i < tries; i++) {
        // torn, truncated or extended bytes
        Op d2 = deser;
        int size = (int)b.bytes[1].size();
        switch (CH.pick(6)) {
        case 0: d2.wrong = -(1 + (int)CH.pick(8)); break;
        case 1: d2.wrong = -(int)(1 + CH.pick((uint64_t)size)); break;
        case 2: d2.wrong = 1 + (int)CH.pick(8); break;
        case 3: d2.wrong = (int)CH.pick((uint64_t)size) + 1; break;
        case 4: d2.wrong = size * (1 + (int)CH.pick(3)); break;              // written more than once
        default: {                                                           // whole blocks lost or added
            int block = 8 << CH.pick(14);
            d2.wrong = CH.chance(1, 2) && block <= size ? -block : block;
        }
        }
        fault(d2.wrong < 0 ? "truncated_bytes" : "extended_bytes");
        r = step(b, tb, d2);
        if (r.ok()) fail("wrong-length", "bytes of length %d (serialized size %d) were accepted", size + d2.wrong, size);
        if (CH.chance(1, 2)) { r = step(b, tb, Op{OReset}); if (!r.ok()) fail("reset", "Reset failed after refused bytes"); }
    }
    r = step(b, tb, deser);
    if (!r.ok()) fail("deserialize", "deserializing complete bytes failed with %s", statusName[r.status]);
    Op size{OSerSize};
    size.slot = 1;
    r = exec(b, size);
    if (!r.ok() || r.num[0] != b.bytes[1].size()) fail("serialize-size", "the serialized size of the loaded state is not the length of the bytes");
    Op again = ser;
    again.i = 3;
    r = exec(b, again);
    if (!r.ok()) fail("serialize", "serializing a loaded FMU state failed");
    int rounds = CH.range(1, 2);
    for (int i = 0; i < rounds; i++) {
        r = step(b, tb, set);
        if (!r.ok()) fail("set-state", "setting the loaded FMU state failed");
        sameSettings(b, tb, at);
        tr("--- restored");
        replay(b, c, n, "continuation", "after loading the serialized FMU state");
    }
    if (CH.chance(1, 3)) {
        // the logging settings stay those of the new instance
        r = step(b, tb, Op{OReset});
        if (!r.ok()) fail("reset", "Reset failed");
        debug.f = CH.chance(1, 2);
        r = step(b, tb, debug);
        if (!r.ok()) fail("debug", "the logging settings could not be changed");
        r = step(b, tb, set);
        if (!r.ok()) fail("set-state", "setting the loaded FMU state failed");
        size_t errors = 0;
        for (int i = 0; i < 2; i++) {
            r = exec(b, Op{OExitInit});
            if (r.status != 3) continue;
            for (auto& l : r.logs) errors += l.category == "logStatusError";
            if (b.cfg.logger && debug.f && !errors) fail("log-settings", "errors are no longer logged after the FMU state was set");
            if (!debug.f && errors) fail("log-settings", "errors are logged again after the FMU state was set");
        }
        probe("log_settings_after_restore");
    }
    for (auto& l : b.logs) if (!l.nameOk) fail("name", "a message was delivered under a name other than that of the new instance");
    if (!CH.chance(1, 2) && a->c) destroy(*a);
    destroy(b);
    if (liveAllocs(2)) fail("leak", "after freeing everything %zu allocations remain:%s", liveAllocs(2), describeLive().c_str());
}

void propC07() {
    prepFiles();
    Weights w = swarm();
    Instance a;
    a.cfg = genCfg();
    a.cfg.name = "used";
    Track t(a.cfg);
    if (!create(a)) fail("setup", "instantiation failed");
    Weights wh = w;
    if (CH.chance(1, 3)) wh.illegal = 3;
    wh.term = CH.chance(1, 3) ? 2 : 0;
    wh.maxSteps = (int[]){60, 600, 2000}[CH.pick(3)];
    int resets = CH.range(1, 2);
    for (int i = 0; i < resets; i++) {
        history(a, t, wh, 1, 22, CH.chance(1, 3));
        tr("--- reset in mode %s", modeName[t.mode]);
        Mode before = t.mode;
        Res r = step(a, t, Op{OReset});
        if (!r.ok()) fail("reset", "Reset failed in mode %s", modeName[before]);
        feature(hmix(0x7e5e7, (uint64_t)before * 16 + hstr(a.cfg.m->name) % 1000));
    }
    Cont c = record(a, t, w, 1, 14);
    Instance b;
    b.cfg = a.cfg;
    b.cfg.name = "new";
    if (!create(b)) fail("setup", "instantiation failed");
    tr("--- the same on a new instance");
    for (size_t i = 0; i < c.ops.size(); i++) {
        fileIs(c.file[i]);
        Res r = exec(b, c.ops[i]);
        fileIs(0);
        std::string why;
        // here the new instance is the reference
        if (!same(c.ops[i], r, c.res[i], &why)) fail("reset-differs", "after reset, call %zu: %s (on a new instance)", i + 1, why.c_str());
    }
    destroy(a);
    destroy(b);
    if (liveAllocs()) fail("leak", "after freeing everything %zu allocations remain:%s", liveAllocs(), describeLive().c_str());
}
