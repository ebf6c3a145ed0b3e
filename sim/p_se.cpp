// Scheduled Execution under every legal preemption: C01, C02, C03.
// One simulated CPU. The code of a partition is instrumented so that every memory access
// and every callback is a point at which the scheduler may run a partition of higher
// priority to completion, unless preemption is locked.
#include "props.h"

namespace {

enum { BASE = 4 };                        // priority of the importer's own code

struct Act { int p; uint64_t acc; int64_t until; };

struct World {
    Lib* l; void* c;
    bool withLocks, logging;
    std::vector<Act> st;
    bool locked = false, atomic = false, enabled = false;
    int budget = 60;
    int maxGap = 40;
    int preferred = 0;                    // a partition preferred by this run
    // reference model
    int started[4] = {0}, returned[4] = {0};
    int total() { return returned[1] + returned[2] + returned[3]; }
    int totalStarted() { return started[1] + started[2] + started[3]; }
    int32_t result2 = 0, input2 = 0;
    std::vector<int32_t> late;            // values written by tasks of the highest priority, in order
    bool p3done = false;
    int countdowns = 0;                   // causes
    int outReports = 0, countdownReports = 0;
    int lockCalls = 0, unlockCalls = 0, notified = 0, logCalls = 0;
    int env = 0;
    std::vector<std::string> effects;     // for comparing with and without lock callbacks
    bool burst = false;                   // many activations in a row, not traced one by one
    bool large = false;                   // large and negative inputs
    bool busy = false;                    // the importer does not poll in the callback but some time later
    bool judge1, judge2, judge3;
};
World* W;

void say(const char* what, int p) {
    tr("%*s%s %d", (int)W->st.size() * 2, "", what, p);
}

int32_t geti(uint32_t vr) {
    bool a = W->atomic;
    W->atomic = true;
    int32_t v = -12345;
    int s = W->l->f3.GetInt32(W->c, &vr, 1, &v, 1);
    W->atomic = a;
    if (s != 0) failLater("read", "reading variable %u during execution failed with status %d", vr, s);
    return v;
}

int64_t drawGap() {
    if (W->budget <= 0) return -1;
    int64_t g = (int64_t)CH.pick((uint64_t)W->maxGap);
    return g == 0 ? -1 : g;
}

void poll() {
    // the importer polls atomically (preemption is off in its own critical section)
    bool a = W->atomic;
    W->atomic = true;
    uint32_t out = 1005, cd = 1003;
    fmi3Clock v = false;
    int s = W->l->f3.GetClock(W->c, &out, 1, &v);
    if (s != 0) failLater("poll", "GetClock failed with status %d", s);
    double iv = -1;
    fmi3IntervalQualifier q = fmi3IntervalNotYetKnown;
    s = W->l->f3.GetIntervalDecimal(W->c, &cd, 1, &iv, &q);
    if (s != 0) failLater("poll", "GetIntervalDecimal failed with status %d", s);
    if (v) W->outReports++;
    if (q == fmi3IntervalChanged) {
        W->countdownReports++;
        if (W->judge2 && iv != 0) failLater("countdown-value", "the changed countdown interval is %g instead of 0", iv);
    }
    W->atomic = a;
    if (W->burst) return;
    W->effects.push_back(fmtStr("poll %d %d", v ? 1 : 0, (int)q));
    tr("%*spoll outClock=%d qualifier=%d", (int)W->st.size() * 2, "", v ? 1 : 0, (int)q);
}

void clockUpdate(fmi3InstanceEnvironment env) {
    if (env != &W->env) failLater("environment", "clock update delivered to a wrong environment");
    W->notified++;
    if (!W->burst) W->effects.push_back("clockUpdate");
    if (W->judge3 && W->locked) failLater("callback-locked", "the clock-update callback was invoked while preemption was locked");
    seamPoint(6);                        // may be preempted before it polls
    if (!W->busy) poll();
    seamPoint(6);
}

void logger(fmi3InstanceEnvironment env, fmi3Status, fmi3String, fmi3String) {
    if (env != &W->env) failLater("environment", "log message delivered to a wrong environment");
    W->logCalls++;
    W->effects.push_back("log");
    if (W->judge3 && W->locked) failLater("callback-locked", "the log callback was invoked while preemption was locked");
    seamPoint(4);
}

void lockCb() {
    W->lockCalls++;
    if (!W->withLocks) { failLater("lock", "a lock callback that was not supplied was called"); return; }
    if (W->locked && W->judge3) failLater("lock-twice", "lockPreemption was called while preemption was already locked");
    seamPoint(7);                        // the last instant before the lock takes effect
    W->locked = true;
}

void unlockCb() {
    W->unlockCalls++;
    if (!W->locked && W->judge3) failLater("unlock-twice", "unlockPreemption was called while preemption was not locked");
    W->locked = false;
    seamPoint(8);                        // the first instant after it
}

void task(int p);

void hook(const void*, int, bool) {
    if (!W->enabled || W->atomic || W->st.empty()) return;
    size_t k = W->st.size() - 1;
    W->st[k].acc++;
    if (W->st[k].until < 0) return;
    if (W->st[k].until > 0) { W->st[k].until--; if (W->st[k].until > 0) return; }
    if (W->locked) { probe("preemption_deferred_by_lock"); return; }   // stays pending until unlocked
    int top = W->st[k].p;
    if (top <= 1) { W->st[k].until = -1; return; }
    // choose who preempts: any partition of higher priority
    int p = 1 + (int)CH.pick((uint64_t)(top - 1));
    W->budget--;
    fault("preemption");
    if (W->st.size() >= 3) probe("preemption_depth_3");
    schedPoint(hmix(hmix((uint64_t)top, W->st[k].acc), (uint64_t)p));
    feature(hmix(hmix(0x5e, (uint64_t)top * 16 + (uint64_t)p), hmix(W->st[k].acc, W->st.size())));
    bool more;
    do {
        task(p);
        more = W->budget > 0 && CH.chance(1, 5);
        if (more) { W->budget--; p = 1 + (int)CH.pick((uint64_t)(top - 1)); probe("repeated_preemption"); }
    } while (more);
    W->st[k].until = drawGap();
}

// input2 written by the importer's task for partition p (1 or 2)
void writeInput(int p) {
    World& w = *W;
    size_t k = w.late.size();
    int32_t v = CH.range(1, 50);
    if (w.large) v = v * (CH.chance(1, 2) ? 100003 : -7777);
    uint32_t vr = 2006;
    int s = w.l->f3.SetInt32(w.c, &vr, 1, &v, 1);
    if (s != 0) failLater("set", "setting input2 failed with status %d", s);
    tr("%*spriority %d writes input2 = %d", (int)w.st.size() * 2, "", p, v);
    int32_t now = geti(2006);
    bool raced = w.late.size() > k;       // overtaken by a write of higher priority during the call
    if (w.judge1 && now != v && !(raced && now == w.late.back())) failLater("set", "input2 is %d after %d was written to it", now, v);
    w.input2 = now;
    if (p == 1) {
        w.late.push_back(v);
        if (w.st.size() >= 2 && w.st[w.st.size() - 2].p == 2) probe("input_written_by_preempting_task");
    }
}

// one activation by the importer's task for partition p
void task(int p) {
    World& w = *W;
    w.st.push_back(Act{p, 0, drawGap()});
    if (p == 2) {
        int sets = CH.range(0, 2);
        for (int i = 0; i < sets; i++) writeInput(2);
    }
    if (p == 1 && CH.chance(1, 4)) writeInput(1);
    double t = CH.chance(1, 2) ? 4.0 + (double)CH.range(0, 9) / 10.0 : (double)CH.range(0, 99) / 10.0;
    if (CH.chance(1, 10)) t += 10 * CH.range(1, 30);
    if (CH.chance(1, 12)) t = -t;
    if (CH.chance(1, 12)) t += CH.chance(1, 2) ? 0.0999999999 : -1e-9;
    bool cd = p == 1 && t >= 4 && t < 5;
    int t0 = geti(2004), r0 = w.outReports, c0 = w.countdownReports;
    w.started[p]++;
    tr("%*sactivate partition %d at %g", (int)w.st.size() * 2, "", p, t);
    if (cd) w.countdowns++;
    simTime(0.1);
    countCall();
    bool lockedBefore = w.locked;
    const int32_t before = w.input2;
    const size_t written = w.late.size();
    int s = w.l->f3.ActivateModelPartition(w.c, 1000u + (uint32_t)p, t);
    if (w.judge3 && w.locked != lockedBefore) failLater("lock-leak", "partition %d returned with preemption locked", p);
    w.locked = lockedBefore;
    w.returned[p]++;
    tr("%*spartition %d returned", (int)w.st.size() * 2, "", p);
    w.effects.push_back(fmtStr("P%d status %d", p, s));
    if (s != 0) failLater("activation", "activating partition %d failed with status %d", p, s);
    if (p == 3) w.p3done = true;
    // checks at the return of this activation (higher priorities are all done)
    bool a = w.atomic;
    w.atomic = true;
    int t1 = geti(2004);
    if (w.judge1) {
        int own = geti(2000u + (uint32_t)p);
        if (own != w.returned[p]) failLater("tick-count", "inClock%d ticks are %d after %d activations returned", p, own, w.returned[p]);
        if (t1 < w.total() || t1 > w.totalStarted()) failLater("total", "the total tick count is %d although %d activations returned and %d were started", t1, w.total(), w.totalStarted());
        if (p == 2) {
            // the input is consumed at one instant: before, between or after the writes of preempting tasks
            int32_t r = geti(2005), i = geti(2006);
            bool explained = false;
            for (size_t j = written; j <= w.late.size() && !explained; j++) {
                int32_t v = j == written ? before : w.late[j - 1];
                int32_t left = j < w.late.size() ? w.late.back() : 0;
                explained = r == (int32_t)((uint32_t)w.result2 + (uint32_t)v) && i == left;
            }
            if (!explained) failLater("input2", "after the activation of inClock2 result2 is %d (before: %d) and input2 is %d (before: %d, %zu writes during the activation)", r, w.result2, i, before, w.late.size() - written);
        }
        if (p == 3 && geti(2007) != 1000) failLater("output3", "output3 was not set");
    }
    if (w.judge2) {
        int due = t1 / 5 - t0 / 5;
        if (w.outReports - r0 < due) failLater("outclock-lost", "the total tick count passed a multiple of five (%d -> %d) during partition %d but the output clock was not reported before it returned", t0, t1, p);
        if (w.outReports > t1 / 5) failLater("outclock-extra", "the output clock was reported %d times with a total tick count of %d", w.outReports, t1);
        if (p == 1 && w.countdownReports - c0 != (cd ? 1 : 0)) failLater("countdown", "activation of inClock1 at %g reported a changed countdown interval %d times", t, w.countdownReports - c0);
    }
    if (p == 2) { w.result2 = geti(2005); w.input2 = geti(2006); }
    w.atomic = a;
    if (p == 1 && CH.chance(1, 6)) writeInput(1);
    w.effects.push_back(fmtStr("total %d", t1));
    w.st.pop_back();
}

void quiescent() {
    World& w = *W;
    w.atomic = true;
    checkLater();
    if (w.judge1) {
        for (int p = 1; p <= 3; p++) {
            int v = geti(2000u + (uint32_t)p);
            if (v != w.returned[p]) fail("tick-count", "inClock%d ticks are %d after %d activations", p, v, w.returned[p]);
        }
        if (geti(2004) != w.total()) fail("total", "the total tick count is %d after %d activations", geti(2004), w.total());
        if (geti(2005) != w.result2) fail("result2", "result2 is %d instead of %d", geti(2005), w.result2);
        if (geti(2006) != w.input2) fail("input2", "input2 is %d instead of %d", geti(2006), w.input2);
        if (geti(2007) != (w.p3done ? 1000 : 0)) fail("output3", "output3 is %d", geti(2007));
    }
    if (w.judge2) {
        int due = w.total() / 5;
        if (w.outReports != due) fail("outclock", "the output clock was reported %d times although the total tick count became a multiple of five %d times", w.outReports, due);
        if (w.countdownReports != w.countdowns) fail("countdown", "the countdown interval was reported changed %d times with %d causes", w.countdownReports, w.countdowns);
        int o0 = w.outReports, c0 = w.countdownReports;
        if (CH.chance(1, 2)) {
            poll();
            if (w.outReports != o0) fail("outclock-late", "a pending output clock tick was found after all activations had returned");
            if (w.countdownReports != c0) fail("countdown-late", "a pending countdown interval was found after all activations had returned");
        }
    }
    if (w.judge3) {
        if (w.locked) fail("lock-leak", "preemption is locked although no partition is running");
        if (w.lockCalls != w.unlockCalls) fail("lock-balance", "%d lock and %d unlock calls", w.lockCalls, w.unlockCalls);
    }
    checkLater();
    w.atomic = false;
}

bool start(World& w) {
    w.l = lib(model("Clocks"), 3);
    w.c = w.l->f3.InstantiateScheduledExecution("clocks", model("Clocks")->token, "", false, w.logging, &w.env, logger, clockUpdate, w.withLocks ? lockCb : nullptr, w.withLocks ? unlockCb : nullptr);
    if (!w.c) fail("setup", "the Clocks FMU could not be instantiated");
    if (w.l->f3.EnterInitializationMode(w.c, false, 0, 0, false, 0) != fmi3OK) fail("setup", "EnterInitializationMode failed");
    if (w.l->f3.ExitInitializationMode(w.c) != fmi3OK) fail("setup", "ExitInitializationMode failed");
    return true;
}

void resetModel(World& w) {
    for (int p = 1; p <= 3; p++) w.started[p] = w.returned[p] = 0;
    w.result2 = w.input2 = 0;
    w.p3done = false;
    w.countdowns = w.outReports = w.countdownReports = 0;
}

struct Saved { int started[4], returned[4]; int32_t result2, input2; bool p3done; int countdowns, outReports, countdownReports; };

Saved save(World& w) {
    Saved s;
    memcpy(s.started, w.started, sizeof s.started);
    memcpy(s.returned, w.returned, sizeof s.returned);
    s.result2 = w.result2; s.input2 = w.input2; s.p3done = w.p3done; s.countdowns = w.countdowns; s.outReports = w.outReports; s.countdownReports = w.countdownReports;
    return s;
}

void load(World& w, const Saved& s) {
    memcpy(w.started, s.started, sizeof s.started);
    memcpy(w.returned, s.returned, sizeof s.returned);
    w.result2 = s.result2; w.input2 = s.input2; w.p3done = s.p3done; w.countdowns = s.countdowns; w.outReports = s.outReports; w.countdownReports = s.countdownReports;
}

void common(bool j1, bool j2, bool j3) {
    World w;
    W = &w;
    w.judge1 = j1;
    w.judge2 = j2;
    w.judge3 = j3;
    w.withLocks = true;
    w.logging = CH.chance(1, 2);
    w.maxGap = (int[]){40, 12, 80}[CH.weighted({3, 2, 1})];
    w.budget = CH.range(0, 60);
    start(w);
    accessHook = hook;
    w.st.push_back(Act{BASE, 0, -1});
    w.large = CH.chance(1, 3);
    w.busy = !j2 && CH.chance(1, 3);
    if (w.busy) probe("tick_read_later");
    int acts = CH.range(1, 14);
    if (CH.chance(1, 40)) { acts *= 30; probe("long_history"); }
    fmi3FMUState fs = nullptr;
    Saved sv{};
    w.enabled = true;
    for (int i = 0; i < acts; i++) {
        switch (CH.weighted({48, 3, 3, 6, 3, j3 ? 6 : 0, 1})) {
        case 0: {
            // lowest priority first: it can be preempted most
            int p = 3 - (int)CH.pick(3);
            w.st[0].until = -1;
            task(p);
            if (w.busy && CH.chance(1, 3)) poll();
            quiescent();
            break;
        }
        case 1: {
            // the importer reads while partitions preempt it
            w.st[0].until = drawGap();
            uint32_t vr[] = {2004, 2001, 2002, 2003};
            int32_t v[4];
            if (w.l->f3.GetInt32(w.c, vr, 4, v, 4) != fmi3OK) failLater("read", "reading the counters failed");
            w.st[0].until = -1;
            quiescent();
            break;
        }
        case 2: {
            // input2 written by the importer's task of inClock2: only inClock1 can preempt it
            w.st.push_back(Act{2, 0, drawGap()});
            writeInput(2);
            w.st.pop_back();
            quiescent();
            break;
        }
        case 3: {
            w.atomic = true;
            if (!fs || CH.chance(1, 2)) {
                if (w.l->f3.GetFMUState(w.c, &fs) != fmi3OK) fail("state", "GetFMUState failed");
                sv = save(w);
                tr("  save");
            } else {
                if (w.l->f3.SetFMUState(w.c, fs) != fmi3OK) fail("state", "SetFMUState failed");
                load(w, sv);
                tr("  restore");
                probe("state_restored");
            }
            w.atomic = false;
            quiescent();
            break;
        }
        case 4: {
            w.atomic = true;
            if (w.l->f3.Reset(w.c) != fmi3OK) fail("reset", "Reset failed");
            if (w.l->f3.EnterInitializationMode(w.c, false, 0, 0, false, 0) != fmi3OK) fail("setup", "EnterInitializationMode failed after reset");
            if (w.l->f3.ExitInitializationMode(w.c) != fmi3OK) fail("setup", "ExitInitializationMode failed after reset");
            resetModel(w);
            tr("  reset");
            w.atomic = false;
            quiescent();
            break;
        }
        case 5: {
            // an activation that fails: unknown clock, then the instance is reset
            w.st.push_back(Act{3, 0, -1});
            uint32_t vr = (uint32_t[]){1005, 4711, 1000, 1004}[CH.pick(4)];
            int s = w.l->f3.ActivateModelPartition(w.c, vr, 1.0);
            fault("failing_activation");
            if (s == 0) fail("activation", "activating the unknown clock %u succeeded", vr);
            if (w.locked) fail("lock-leak", "a failed activation returned with preemption locked");
            w.st.pop_back();
            w.atomic = true;
            if (CH.chance(1, 2)) {
                // now also in a mode in which activations are refused
                int s2 = w.l->f3.ActivateModelPartition(w.c, 1002, 1.0);
                if (s2 == 0) { w.returned[2]++; w.started[2]++; }
                if (w.locked) fail("lock-leak", "a refused activation returned with preemption locked");
            }
            if (w.l->f3.Reset(w.c) != fmi3OK) fail("reset", "Reset failed");
            if (w.l->f3.EnterInitializationMode(w.c, false, 0, 0, false, 0) != fmi3OK) fail("setup", "EnterInitializationMode failed after reset");
            if (w.l->f3.ExitInitializationMode(w.c) != fmi3OK) fail("setup", "ExitInitializationMode failed after reset");
            resetModel(w);
            w.atomic = false;
            quiescent();
            break;
        }
        default: {
            // many ticks of one clock in a row, without preemption
            int p = 1 + (int)CH.pick(3);
            int n = (int[]){10, 150, 300, 33000, 70000}[CH.weighted({100, 300, 100, 2, 1})];
            tr("  %d activations of partition %d", n, p);
            w.atomic = w.burst = true;
            for (int j = 0; j < n; j++)
                if (w.l->f3.ActivateModelPartition(w.c, 1000u + (uint32_t)p, 1.0) != fmi3OK) fail("activation", "activation %d of partition %d in a row failed", j + 1, p);
            w.burst = false;
            w.started[p] += n;
            w.returned[p] += n;
            if (p == 2) { w.result2 = (int32_t)((uint32_t)w.result2 + (uint32_t)w.input2); w.input2 = 0; }
            if (p == 3) w.p3done = true;
            simTime(0.1 * n);
            probe(n > 30000 ? "many_thousand_ticks" : "many_ticks");
            w.atomic = false;
            quiescent();
            break;
        }
        }
    }
    w.enabled = false;
    accessHook = nullptr;
    if (fs) w.l->f3.FreeFMUState(w.c, &fs);
    w.l->f3.FreeInstance(w.c);
    checkLater();
}

// the same activations with and without lock callbacks, without preemption
std::vector<std::string> sequence(bool locks, const std::vector<std::pair<int, double>>& seq) {
    World w;
    W = &w;
    w.judge1 = w.judge2 = false;
    w.judge3 = true;
    w.withLocks = locks;
    w.logging = false;
    start(w);
    w.atomic = true;
    for (auto& s : seq) {
        int st;
        if (s.first < 0) {
            uint32_t vr = 2006;
            int32_t v = (int32_t)s.second;
            st = w.l->f3.SetInt32(w.c, &vr, 1, &v, 1);
        } else st = w.l->f3.ActivateModelPartition(w.c, (uint32_t)s.first, s.second);
        w.effects.push_back(fmtStr("%d: status %d", s.first, st));
        if (w.locked) fail("lock-leak", "an activation returned with preemption locked");
    }
    for (uint32_t vr = 2001; vr <= 2007; vr++) w.effects.push_back(fmtStr("%u = %d", vr, geti(vr)));
    checkLater();
    if (!locks && (w.lockCalls || w.unlockCalls)) fail("lock", "a lock callback that was not supplied was called");
    w.l->f3.FreeInstance(w.c);
    return w.effects;
}

}

void propC01() { common(true, false, false); }
void propC02() { common(false, true, false); }
void propC03() {
    if (CH.chance(1, 4)) {
        std::vector<std::pair<int, double>> seq;
        int n = CH.range(1, 25);
        for (int i = 0; i < n; i++) {
            if (CH.chance(1, 4)) seq.push_back({-1, (double)CH.range(1, 50)});
            else seq.push_back({1001 + (int)CH.pick(3), (double)CH.range(0, 99) / 10});
        }
        auto a = sequence(true, seq), b = sequence(false, seq);
        probe("without_lock_callbacks");
        for (size_t i = 0; i < std::max(a.size(), b.size()); i++)
            if (i >= a.size() || i >= b.size() || a[i] != b[i])
                fail("no-locks", "without lock callbacks: %s instead of %s", i < b.size() ? b[i].c_str() : "nothing", i < a.size() ? a[i].c_str() : "nothing");
        return;
    }
    common(false, false, true);
}
