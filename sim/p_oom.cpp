// Failing allocations inside an FMU (C12): a script is executed without faults and again
// with failing allocations; what does not fail must give the same results.
#include "props.h"

namespace {

struct Script {
    std::vector<Op> ops;
    std::vector<Res> res;
    size_t save = 0;            // index of the call that takes the state in slot 1
};

Script record(Instance& in, const Weights& w) {
    Script s;
    Track t(in.cfg);
    auto add = [&](const Op& o) {
        s.ops.push_back(o);
        s.res.push_back(step(in, t, o));
    };
    for (int i = 0; CH.again(i, 0, 12); i++) add(genOp(in, t, w));
    Op g{OGetState};
    g.slot = 1;
    s.save = s.ops.size();
    add(g);
    if (!s.res.back().ok()) fail("get-state", "an FMU state could not be taken in mode %s", modeName[t.mode]);
    for (int i = 0; CH.again(i, 0, 12); i++) add(genOp(in, t, w));
    if (in.cfg.ver == 3 || t.mode != Inst_) for (auto& o : readAllOps(in.cfg, t.d)) add(o);
    return s;
}

void compare(const Op& o, const Res& want, const Res& got, const char* when) {
    std::string why;
    if (!same(o, want, got, &why)) fail("result", "%s: %s", when, why.c_str());
    if (got.faults) return;
    bool logs = want.logs.size() == got.logs.size();
    for (size_t i = 0; logs && i < want.logs.size(); i++) logs = want.logs[i].category == got.logs[i].category && want.logs[i].message == got.logs[i].message;
    if (!logs) fail("messages", "%s: %s delivered %zu messages instead of %zu%s%s", when, describe(o, got).c_str(), got.logs.size(), want.logs.size(),
                    want.logs.empty() ? "" : ", without the fault first: ", want.logs.empty() ? "" : want.logs[0].message.c_str());
    if (!want.logs.empty()) probe("messages_compared");
}

// without faults
void rerun(Instance& in, const Script& s, size_t from, const char* when) {
    for (size_t i = from; i < s.ops.size(); i++) compare(s.ops[i], s.res[i], exec(in, s.ops[i]), when);
}

// whether the continuation depends on states saved before it
bool usesStates(const Script& s) {
    for (size_t k = s.save + 1; k < s.ops.size(); k++) {
        OpK o = s.ops[k].k;
        if (o == OSetState || o == OFreeState || o == OSer || o == OSerSize || o == ODeser) return true;
    }
    return false;
}

void freeSlots(Instance& in) {
    while (!in.slots.empty()) {
        Op o{OFreeState};
        o.slot = in.slots.begin()->first;
        Res r = exec(in, o);
        if (!r.ok()) fail("free-state", "%s", describe(o, r).c_str());
    }
    in.bytes.clear();
}

void reset(Instance& in, const char* when) {
    Res r = exec(in, Op{OReset});
    if (!r.ok()) fail("reset", "Reset failed %s", when);
}

}

void propC12() {
    vfs["/unzipped/resources/y.txt"] = VFile{"abc", true};
    auto weights = [] {
        Weights w = swarm();
        w.state = 3;
        w.ser = 3;
        w.illegal = CH.chance(1, 3) ? 1 : 0;
        w.maxSteps = std::min(w.maxSteps, 60);
        w.log = 0;
        w.reset = 0;
        return w;
    };
    // a bystander with a saved state
    Instance c;
    c.cfg = genCfg();
    c.cfg.name = "bystander";
    if (!create(c)) fail("setup", "instantiation failed");
    Script sc = record(c, weights());
    // the script without faults
    Instance a;
    a.cfg = genCfg();
    a.cfg.name = "instance";
    if (!create(a)) fail("setup", "instantiation failed");
    Script s = record(a, weights());
    destroy(a);
    tr("--- now with failing allocations");

    const int spread = (int[]){6, 1, 20}[CH.weighted({2, 1, 1})];
    allocNextFail = [&]() -> int64_t { return (int64_t)CH.pick((uint64_t)spread); };
    auto faults = [&](bool on) { allocFailIn = on ? (int64_t)CH.pick((uint64_t)spread) : -1; };

    Instance b;
    b.cfg = a.cfg;
    for (int k = 0;; k++) {
        faults(k < 3);
        uint64_t failed = allocStats().failed;
        size_t live = liveAllocs();
        bool ok = create(b);
        faults(false);
        if (ok) {
            if (allocStats().failed != failed) probe("created_despite_failure");
            break;
        }
        if (allocStats().failed == failed) fail("instantiation", "no instance was created although no allocation failed");
        if (liveAllocs() != live) fail("leak", "a failed instantiation left %zu allocations:%s", liveAllocs() - live, describeLive().c_str());
        probe("instantiation_failed");
    }
    for (int round = 0; CH.again(round, 1, 4); round++) {
        // every call either fails or does what it did without faults
        size_t i = 0;
        bool failed = false;
        for (; i < s.ops.size() && !failed; i++) {
            faults(true);
            Res r = exec(b, s.ops[i]);
            faults(false);
            if (r.faults && !r.ok() && s.res[i].ok()) { failed = true; probe("call_failed"); break; }
            if (r.faults) probe("call_survived");
            compare(s.ops[i], s.res[i], r, r.faults ? "with a failing allocation in this call" : "after failing allocations in other calls");
        }
        if (failed && i > s.save && s.ops[i].slot != 1 && b.slots.count(1) && CH.chance(1, 2)) {
            Op o{OSetState};
            o.slot = 1;
            Res r = exec(b, o);
            if (!r.ok()) fail("set-state", "a state saved before the failure could not be set");
            if (usesStates(s)) probe("continuation_uses_states");
            else { rerun(b, s, s.save + 1, "after restoring a state saved before the failure"); probe("restored_after_failure"); }
        }
        freeSlots(b);
        reset(b, "after a failing allocation");
    }
    rerun(b, s, 0, "after a reset that followed failing allocations");
    freeSlots(b);
    Op o{OSetState};
    o.slot = 1;
    if (!exec(c, o).ok()) fail("set-state", "the bystander's state could not be set");
    if (!usesStates(sc)) rerun(c, sc, sc.save + 1, "another instance");
    destroy(b);
    destroy(c);
    if (liveAllocs()) fail("leak", "after freeing everything %zu allocations remain:%s", liveAllocs(), describeLive().c_str());
    allocNextFail = nullptr;
}
