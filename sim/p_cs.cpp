// Co-simulation: independence of the communication schedule (C08), events (C09) and
// intermediate updates (C15). A reference instance is stepped from one point of the solver
// grid to the next and compared with the published equations point by point; a second
// instance follows an arbitrary communication schedule and must pass through the same
// points.
#include "props.h"
#include "ref.h"

namespace {

bool f64Only(const Cfg& c) { return std::string(c.m->name) == "Roberts"; }

}

Plan genPlan(const Cfg& c, bool toTermination) {
    Plan p;
    std::string n = c.m->name;
    const double h = c.m->h;
    if (n == "Stair") {
        static const double st[] = {0, -1, 0.2, 0.4, 0.6, 0.8, -2};
        p.start = st[CH.pick(7)];
    } else p.start = CH.chance(1, 2) ? (double)CH.range(-16, 40) / 4.0 : 0;
    static const int len[] = {12, 60, 400, 1500};
    int mx = len[CH.weighted({3, 3, 2, 1})];
    p.n = 1 + (int)CH.pick((uint64_t)mx);
    if (n == "Stair") {
        p.n = std::min(p.n, 60);
        if (toTermination) p.n = std::max(p.n, 20 + (int)CH.pick(50));
    }
    if (n == "Dahlquist" || n == "Resource" || n == "Feedthrough") p.n = std::min(p.n, 100);
    if (n == "VanDerPol" || n == "StateSpace" || n == "Roberts") p.n = std::min(p.n, 400);
    std::vector<const Var*> si, ss;
    for (auto v : varsOf(c)) {
        if (setAllowed(c, *v, Init_) == XOk) si.push_back(v);
        if (setAllowed(c, *v, Step_) == XOk && v->kind != KState) ss.push_back(v);
    }
    if (!si.empty()) {
        for (int k = 0; CH.again(k, 0, 3); k++) p.inst.push_back(opSet(c, *CH.of(si), Dims(), false));
        for (int k = 0; CH.again(k, 0, 3); k++) p.init.push_back(opSet(c, *CH.of(si), Dims(), false));
    }
    if (n == "BouncingBall" && CH.chance(2, 3)) {
        // low, fast balls bounce often
        Op o{OSet};
        o.vr = {1};
        o.num = {dbits((double)(1 + CH.pick(40)) / 1000.0)};
        p.init.push_back(o);
    }
    if (!ss.empty())
        for (int k = 0; CH.again(k, 0, 3); k++) p.inputs[(int)CH.pick((uint64_t)p.n)].push_back(opSet(c, *CH.of(ss), Dims(), false));
    p.stopDef = CH.chance(1, 2);
    p.stop = p.start + (p.n + 2) * h;
    if (f64Only(c)) p.stop = p.start + (p.n + 40) * h;
    return p;
}

namespace {

void begin(Instance& in, Track& t, const Plan& p) {
    if (!create(in)) fail("setup", "instantiation failed");
    for (auto& o : p.inst) if (!step(in, t, o).ok()) fail("setup", "%s failed", describe(o).c_str());
    Op e{OEnterInit};
    e.a = p.start;
    e.f = p.stopDef;
    e.b = p.stop;
    if (!step(in, t, e).ok()) fail("setup", "EnterInitializationMode failed");
    for (auto& o : p.init) if (!step(in, t, o).ok()) fail("setup", "%s failed", describe(o).c_str());
    if (!step(in, t, Op{OExitInit}).ok()) fail("setup", "ExitInitializationMode failed");
    if (t.mode == Event_) {
        // event mode: the initial event iteration
        if (!step(in, t, Op{OUpdate}).ok()) fail("setup", "UpdateDiscreteStates failed");
        if (!step(in, t, Op{OEnterStep}).ok()) fail("setup", "EnterStepMode failed");
    }
}

Op stepOp(double from, double size) {
    Op o{ODoStep};
    o.a = from;
    o.b = size;
    o.g = true;
    return o;
}

double lastTime(Instance& in, const Track& t, const Res& r) {
    if (in.cfg.ver == 3) return bitsd(r.num[3]);
    (void)t;
    Op o{OStatus};
    o.i = 1;
    Res s = exec(in, o);
    if (!s.ok()) fail("last-time", "the last successful time could not be read");
    return bitsd(s.num[0]);
}

bool terminatedFlag(Instance& in) {
    Op o{OStatus};
    o.i = 3;
    Res s = exec(in, o);
    if (!s.ok()) fail("terminated-status", "the termination status could not be read");
    return s.num[0] != 0;
}

double gridTime(const Plan& p, const Cfg& c, int k) { return p.start + k * c.m->h; }

// index of the grid point at this time; fails if it is none
int indexOf(const Plan& p, const Cfg& c, double t, const char* what) {
    double x = (t - p.start) / c.m->h;
    int k = (int)std::lround(x);
    if (!near(t, gridTime(p, c, k), f64Only(c) ? 1e-10 : 1e-9)) fail("grid", "%s is %.17g, which is not a point of the solver grid", what, t);
    return k;
}

}

// now and then the simulation ends exactly at its stop time, which may be an event
static void endAtStop(Plan& p, const Cfg& c, const Grid& g) {
    int n = std::min(p.n, (int)g.pts.size() - 1);
    if (f64Only(c) || n < 1 || CH.chance(2, 3)) return;
    if (CH.chance(1, 2)) {
        std::vector<int> ev;
        for (int k = 1; k <= n; k++) if (g.pts[(size_t)k].event) ev.push_back(k);
        if (!ev.empty()) { n = CH.of(ev); probe("stop_time_at_event"); }
    }
    p.n = n;
    p.stopDef = p.atStop = true;
    p.stop = gridTime(p, c, n);
    probe("ends_at_stop_time");
}

Grid reference(const Cfg& base, const Plan& p) {
    Grid g;
    Instance a;
    a.cfg = base;
    a.cfg.name = "grid";
    a.cfg.eventMode = a.cfg.early = a.cfg.iu = false;
    a.cfg.iuRead.clear();
    const Cfg& c = a.cfg;
    const bool rob = f64Only(c);
    if (rob) {
        a.cfg.iu = true;
        for (auto v : varsOf(c)) if (v->t == F64) a.cfg.iuRead.push_back(v->vr);
    }
    Track t(c);
    begin(a, t, p);
    quietCalls = true;
    auto add = [&](const Pt& pt, bool ev) {
        GPt q;
        q.pre = q.post = pt;
        q.event = ev;
        g.pts.push_back(q);
    };
    add(readPoint(a, t, rob), false);
    if (rob) {
        // the solver step is below the tolerance of communication points: observe it from inside
        Pt full = readPoint(a, t, false);
        if (p.inst.size() + p.init.size() == 0 && full.v[1] != 0) fail("setup", "dae");
        g.pts[0].pre.v[1] = g.pts[0].post.v[1] = full.v[1];
        Op s = stepOp(p.start, (p.n + 25) * c.m->h);
        Res r = step(a, t, s);
        if (!r.ok()) fail("step", "%s failed", describe(s).c_str());
        Op all = opAll(c, t.d, F64);
        for (auto& iu : r.ius) {
            Res rr;
            rr.num = iu.vals;
            Pt pt = pointOf(c, t.d, {all}, {rr});
            pt.v[1] = full.v[1];
            bool ev;
            if (!near(pt.t, gridTime(p, c, (int)g.pts.size()), 1e-10)) fail("grid", "solver step %zu is at time %.17g", g.pts.size(), pt.t);
            checkEuler(c, t.d, g.pts.back().post, pt, &ev);
            checkEquations(c, t.d, pt);
            add(pt, false);
        }
        if ((int)g.pts.size() <= p.n) fail("grid", "only %zu solver steps for a communication step of %d", g.pts.size() - 1, p.n + 25);
        destroy(a);
        quietCalls = false;
        return g;
    }
    checkEquations(c, t.d, g.pts[0].pre);
    for (int k = 0; k < p.n; k++) {
        auto it = p.inputs.find(k);
        if (it != p.inputs.end()) {
            for (auto& o : it->second) if (!step(a, t, o).ok()) fail("input", "%s failed", describe(o).c_str());
            g.pts[(size_t)k].post = readPoint(a, t);
            checkEquations(c, t.d, g.pts[(size_t)k].post);
        }
        Op s = stepOp(t.cp, c.m->h);
        Res r = step(a, t, s);
        bool term = false;
        if (c.ver == 2) {
            if (r.status != 0 && r.status != 2) fail("step", "%s returned %s", describe(s).c_str(), statusName[r.status]);
            term = r.status == 2;
            if (terminatedFlag(a) != term) fail("terminated-status", "the termination status is %d after a step that returned %s", !term, statusName[r.status]);
        } else {
            if (!r.ok()) fail("step", "%s returned %s", describe(s).c_str(), statusName[r.status]);
            term = r.num[1] != 0;
            if (r.num[0]) fail("event-needed", "event handling is requested although event mode is not used");
            if (r.num[2]) fail("early-return", "early return reported although it is not allowed");
        }
        double lt = lastTime(a, t, r);
        int idx = indexOf(p, c, lt, "the last successful time");
        if (idx != k + 1) fail("grid", "a communication step of one solver step from point %d ended at point %d", k, idx);
        Pt pt = readPoint(a, t);
        if (dbits(pt.t) != dbits(lt)) fail("grid", "time is %.17g but the last successful time is %.17g", pt.t, lt);
        bool ev;
        checkEuler(c, t.d, g.pts[(size_t)k].post, pt, &ev);
        checkEquations(c, t.d, pt);
        add(pt, ev);
        bool expTerm = std::string(c.m->name) == "Stair" && ev && pt.v.at(1) >= 10;
        if (term != expTerm) fail("terminate", "termination %s at time %.17g", term ? "requested" : "not requested", pt.t);
        if (ev) probe("event_in_reference");
        if (term) {
            g.term = k + 1;
            g.pts.back().term = true;
            probe("termination");
            break;
        }
    }
    quietCalls = false;
    destroy(a);
    return g;
}

namespace {

void compareAt(Instance& in, const Track& t, const Grid& g, int k, bool post, const char* what) {
    const Cfg& c = in.cfg;
    Pt pt = readPoint(in, t, f64Only(c));
    const Pt& want = post ? g.pts[(size_t)k].post : g.pts[(size_t)k].pre;
    if (!(pt == want)) fail("schedule", "%s at grid point %d: %s", what, k, diff(pt, want, c, t.d, f64Only(c)).c_str());
    if (std::string(c.m->name) == "BouncingBall" && t.mode == Step_ && CH.chance(1, 8)) {
        Op o{OOutDer};
        o.vr = {1, 3};
        if (CH.chance(1, 2)) std::swap(o.vr[0], o.vr[1]);
        o.num = {1, 1};
        Res r = exec(in, o);
        if (!r.ok()) fail("output-derivative", "%s", describe(o, r).c_str());
        for (size_t i = 0; i < 2; i++)
            if (dbits(pt.v.at(o.vr[i] == 1 ? 3 : 5)) != r.num.at(i)) fail("output-derivative", "%s: derivative %zu is %.17g at h = %.17g, v = %.17g", describe(o).c_str(), i, bitsd(r.num[i]), pt.v.at(1), pt.v.at(3));
        probe("output_derivative");
    }
}

// an importer that repeats steps from a saved FMU state
struct Rollback {
    bool have = false;
    int left = 3, k = 0;
    Track t;
    explicit Rollback(const Track& x) : t(x) {}
    void offer(Instance& in, Track& cur, int& kc, const Grid& g) {
        if (!have && CH.chance(1, 10)) {
            Op o{OGetState};
            o.slot = 2;
            if (!exec(in, o).ok()) fail("get-state", "an FMU state could not be taken");
            have = true;
            k = kc;
            t = cur;
        } else if (have && left > 0 && CH.chance(1, 6)) {
            Op o{OSetState};
            o.slot = 2;
            fault("step_rolled_back");
            if (!exec(in, o).ok()) fail("set-state", "the FMU state could not be restored");
            left--;
            cur = t;
            kc = k;
            compareAt(in, cur, g, kc, true, "after rolling back");
            if (CH.chance(1, 2)) {
                Op f{OFreeState};
                f.slot = 2;
                if (!exec(in, f).ok()) fail("free-state", "the FMU state could not be freed");
                have = false;
            }
        }
    }
};

struct Target { int k; double t; };

// the next communication point, at most the next point with inputs
Target genTarget(const Plan& p, const Cfg& c, int k, double cp, int limit) {
    const double h = c.m->h;
    static const double fr[] = {0, 0, 0.25, 0.5, 0.75, 1e-9};
    for (int tries = 0;; tries++) {
        int span = limit - k;
        int j;
        switch (CH.weighted({3, 2, 2, 1})) {
        case 0: j = std::min(span, 1 + (int)CH.pick(8)); break;
        case 1: j = std::min(span, 1); break;
        case 2: j = (int)CH.pick((uint64_t)span + 1); break;
        default: j = span; break;
        }
        double f = fr[CH.pick(6)];
        double t = p.start + (k + j + f) * h;
        if (p.atStop && k + j >= p.n) t = p.stop;
        if (t > cp + 1e-3 * h) {
            schedPoint(hmix((uint64_t)j, dbits(f)));
            return {k + j, t};
        }
        if (tries > 3) return {k + 1, p.start + (k + 1) * h};
    }
}

int nextInput(const Plan& p, int k) {
    auto it = p.inputs.upper_bound(k);
    return it == p.inputs.end() ? p.n : std::min(p.n, it->first);
}

void applyInputs(Instance& in, Track& t, const Plan& p, const Grid& g, int k) {
    auto it = p.inputs.find(k);
    if (it == p.inputs.end()) return;
    for (auto& o : it->second) if (!step(in, t, o).ok()) fail("input", "%s failed", describe(o).c_str());
    compareAt(in, t, g, k, true, "after setting inputs");
}

void checkBound(const Plan& p, const Cfg& c, double lt, double target) {
    double tol = 1e-5 * std::max(1.0, std::fabs(target)) * 1.01;
    if (lt > target + tol) fail("beyond-target", "the step to %.17g ended at %.17g", target, lt);
    if (lt < target - c.m->h - tol) fail("short-of-target", "the step to %.17g ended at %.17g", target, lt);
    (void)p;
}

const std::vector<std::string> csModels = {"BouncingBall", "Dahlquist", "VanDerPol", "Stair", "Feedthrough", "Roberts", "StateSpace", "Resource"};

void prepFiles() { vfs["/unzipped/resources/y.txt"] = VFile{"abc", true}; }

}

namespace {

// more solver steps than fit into 16 bits, in one communication step and in several
void longSteps() {
    Instance in[2];
    Cfg c = genCfg({"Dahlquist", "VanDerPol", "BouncingBall", "StateSpace", "Feedthrough", "Resource"}, CS);
    c.eventMode = c.early = c.iu = false;
    c.iuRead.clear();
    Plan p = genPlan(c, false);
    const int n = 66000 + 100 * (int)CH.pick(40);
    p.stopDef = false;
    Pt end[2];
    for (int i = 0; i < 2; i++) {
        in[i].cfg = c;
        Track t(c);
        begin(in[i], t, p);
        int parts = i ? 1 + (int)CH.pick(5) : 1, k = 0;
        for (int j = 0; j < parts; j++) {
            int to = j + 1 < parts ? k + (n - k) / 2 : n;
            Op s = stepOp(t.cp, gridTime(p, c, to) - t.cp);
            Res r = step(in[i], t, s);
            if (!r.ok()) fail("step", "%s returned %s", describe(s).c_str(), statusName[r.status]);
            double lt = lastTime(in[i], t, r);
            if (!near(lt, gridTime(p, c, to))) fail("grid", "the step to %.17g ended at %.17g", gridTime(p, c, to), lt);
            k = to;
        }
        end[i] = readPoint(in[i], t);
        destroy(in[i]);
        if (i && !(end[0] == end[1])) fail("schedule", "after %d solver steps: %s", n, diff(end[1], end[0], c, t.d).c_str());
    }
    probe("more_than_65536_solver_steps");
}

}

void propC08() {
    prepFiles();
    if (CH.chance(1, 100)) { longSteps(); return; }
    Instance b;
    b.cfg = genCfg(csModels, CS);
    b.cfg.eventMode = b.cfg.early = false;
    b.cfg.name = "schedule";
    const Cfg& c = b.cfg;
    Plan p = genPlan(c, false);
    Grid g = reference(c, p);
    endAtStop(p, c, g);
    int n = std::min(p.n, (int)g.pts.size() - 1);
    if (g.term >= 0) n = std::min(n, g.term - 1);
    if (n < 1) return;
    int rounds = CH.range(1, 2);
    for (int round = 0; round < rounds; round++) {
        Instance in;
        in.cfg = c;
        Track t(c);
        begin(in, t, p);
        int k = 0;
        compareAt(in, t, g, 0, false, "after initialization");
        applyInputs(in, t, p, g, 0);
        Rollback rb(t);
        while (k < n) {
            rb.offer(in, t, k, g);
            int limit = std::min(n, nextInput(p, k));
            Target tg = genTarget(p, c, k, t.cp, limit);
            Op s = stepOp(t.cp, tg.t - t.cp);
            Res r = step(in, t, s);
            if (!r.ok()) fail("step", "%s returned %s", describe(s).c_str(), statusName[r.status]);
            double lt = lastTime(in, t, r);
            int k2 = indexOf(p, c, lt, "the last successful time");
            checkBound(p, c, lt, tg.t);
            if (k2 < k) fail("grid", "time went back from point %d to point %d", k, k2);
            if (k2 >= (int)g.pts.size()) fail("grid", "the step went beyond the reference");
            if (!f64Only(c) && k2 != tg.k) fail("grid", "the step to %.17g ended at grid point %d instead of %d", tg.t, k2, tg.k);
            if (k2 == k) probe("step_without_solver_step");
            compareAt(in, t, g, k2, k2 == k, "after the step");
            feature(hmix(0xC08, hmix(hstr(c.m->name), (uint64_t)(k2 - k))));
            if (k2 != k) applyInputs(in, t, p, g, k2);
            k = k2;
        }
        destroy(in);
        tr("--- next schedule");
    }
}

namespace {

// one communication schedule of an instance that handles its events itself
void eventSchedule(Instance& in, const Plan& p, const Grid& g, bool iuCheck) {
    const Cfg& c = in.cfg;
    Track t(c);
    begin(in, t, p);
    const bool stair = std::string(c.m->name) == "Stair";
    int n = std::min(p.n, (int)g.pts.size() - 1);
    int k = 0;
    size_t iusSeen = in.ius.size();
    if (iusSeen) fail("intermediate-outside", "an intermediate update was delivered before the first step");
    compareAt(in, t, g, 0, false, "after initialization");
    applyInputs(in, t, p, g, 0);
    Rollback rb(t);
    const int past = (int)CH.pick(12);    // steps may be requested beyond a termination
    while (k < n) {
        rb.offer(in, t, k, g);
        if (!iuCheck && CH.chance(1, 8)) {
            // a request that must be refused
            Op get{OGetState}, set{OSetState};
            get.slot = set.slot = 1;
            if (!exec(in, get).ok()) fail("get-state", "an FMU state could not be taken");
            Pt before = readPoint(in, t);
            Op s = stepOp(t.cp, c.m->h);
            switch (CH.pick(p.stopDef ? 10 : 9)) {
            case 0: s.a += 0.5; break;
            case 1: s.a -= 0.5; break;
            case 2: s.b = 0; break;
            case 3: s.b = -c.m->h; break;
            case 4: s.b = -1e-9; break;
            case 5: s.b = NAN; break;
            case 6: s.a = NAN; break;
            case 7: s.a = CH.chance(1, 2) ? INFINITY : -INFINITY; break;
            case 8: s.b = p.stopDef ? INFINITY : -INFINITY; break;
            default: s.b = p.stop - t.cp + (CH.chance(1, 2) ? 1.0 : 0.05); break;
            }
            fault("invalid_step_request");
            Res r = exec(in, s);
            if (r.status != 3) fail("invalid-step", "%s at communication point %.17g%s returned %s", describe(s).c_str(), t.cp, p.stopDef ? fmtStr(" with stop time %.17g", p.stop).c_str() : "", statusName[r.status]);
            Pt after = readPoint(in, t);
            if (!(after == before)) fail("invalid-step", "a refused step changed something: %s", diff(after, before, c, t.d).c_str());
            if (!exec(in, set).ok()) fail("set-state", "the FMU state could not be restored");
        }
        if (c.eventMode && CH.chance(1, 6)) {
            // event mode without an event
            if (!step(in, t, Op{OEnterEvent}).ok()) fail("event-mode", "EnterEventMode failed");
            for (int i = 0; CH.again(i, 0, 2); i++) {
                Res r = step(in, t, Op{OUpdate});
                if (!r.ok()) fail("event-mode", "UpdateDiscreteStates failed");
                if (r.num[1]) fail("terminate", "termination requested without an event");
            }
            if (!step(in, t, Op{OEnterStep}).ok()) fail("event-mode", "EnterStepMode failed");
            compareAt(in, t, g, k, true, "after event mode without an event");
            probe("event_mode_without_event");
        }
        int limit = std::min(n, nextInput(p, k));
        if (g.term >= 0 && limit == g.term) limit = p.stopDef ? std::min(p.atStop ? p.n : p.n + 1, g.term + past) : g.term + past;
        Target tg = genTarget(p, c, k, t.cp, limit);
        Op s = stepOp(t.cp, tg.t - t.cp);
        size_t ius0 = in.ius.size();
        if (ius0 != iusSeen) fail("intermediate-outside", "an intermediate update was delivered outside a step");
        Res r = step(in, t, s);
        std::string ds = describe(s, r);
        iusSeen = in.ius.size();
        // what must happen
        int firstEv = -1;
        for (int j = k + 1; j <= tg.k && j < (int)g.pts.size(); j++) if (g.pts[(size_t)j].event) { firstEv = j; break; }
        bool hasTerm = g.term > k && g.term <= tg.k;
        int k2;
        if (c.ver == 2) {
            if (r.status != (hasTerm ? 2 : 0)) fail("step", "%s (%s)", ds.c_str(), hasTerm ? "the model terminates in this step" : "no termination in this step");
            k2 = indexOf(p, c, lastTime(in, t, r), "the last successful time");
            if (k2 != (hasTerm ? g.term : tg.k)) fail("stopped-at", "%s ended at grid point %d instead of %d", ds.c_str(), k2, hasTerm ? g.term : tg.k);
            if (terminatedFlag(in) != hasTerm) fail("terminated-status", "%s: the termination status is %d", ds.c_str(), !hasTerm);
            compareAt(in, t, g, k2, k2 == k, "after the step");
            if (hasTerm) { probe("termination_reported"); return; }
        } else {
            if (!r.ok()) fail("step", "%s", ds.c_str());
            bool need = r.num[0], term = r.num[1], early = r.num[2];
            for (int i = 0; i < 3; i++) if (r.num[(size_t)i] > 1) fail("output", "%s did not set its outputs", ds.c_str());
            k2 = indexOf(p, c, bitsd(r.num[3]), "the last successful time");
            if (early && !c.early) fail("early-return", "%s returned early although it is not allowed", ds.c_str());
            int expect = tg.k;
            if (c.early && firstEv >= 0) expect = firstEv;
            bool expTerm = hasTerm && !c.eventMode && g.term <= expect;
            if (expTerm) expect = g.term;
            bool late = c.eventMode && !c.early && hasTerm && g.term < tg.k;    // handled inside the step
            if (late) {
                if (!term) fail("terminate", "%s did not report the termination", ds.c_str());
                if (k2 != g.term && k2 != g.term + 1) fail("stopped-at", "%s ended at grid point %d instead of %d", ds.c_str(), k2, g.term);
                probe("termination_within_a_step");
                return;
            }
            if (k2 != expect) fail("stopped-at", "%s ended at grid point %d instead of %d%s", ds.c_str(), k2, expect, firstEv < 0 ? " (no event)" : "");
            if (k2 < tg.k && c.early && !early) fail("early-return", "%s stopped short at grid point %d without saying so", ds.c_str(), k2);
            if (early && !(k2 > k && (g.pts[(size_t)k2].event || g.pts[(size_t)k2].term))) fail("early-return", "%s returned early without an event", ds.c_str());
            bool expNeed = c.eventMode && k2 > k && g.pts[(size_t)k2].event;
            if (need != expNeed) fail("event-needed", "%s %s event handling (%s)", ds.c_str(), need ? "asks for" : "does not ask for", expNeed ? "an event is pending" : "no event is pending");
            if (term != expTerm) fail("terminate", "%s %s", ds.c_str(), term ? "asks to terminate" : "does not report the termination");
            if (iuCheck) {
                if (!c.iu && !r.ius.empty()) fail("intermediate-outside", "an intermediate update was delivered without a callback");
                if (c.iu && (int)r.ius.size() != k2 - k) fail("intermediate-count", "%zu intermediate updates for %d solver steps", r.ius.size(), k2 - k);
                Op all{OGet};
                all.t = F64;
                all.vr = c.iuRead;
                for (size_t i = 0; c.iu && i < r.ius.size(); i++) {
                    IuRec& iu = r.ius[i];
                    int j = k + 1 + (int)i;
                    if (!iu.envOk) fail("intermediate-environment", "an intermediate update was delivered to the wrong environment or outside a step");
                    if (!near(iu.time, gridTime(p, c, j))) fail("intermediate-time", "intermediate update %zu has the time %.17g instead of %.17g", i + 1, iu.time, gridTime(p, c, j));
                    if (iu.status > 1) fail("intermediate-read", "reading variables in an intermediate update failed");
                    if (c.iuRead.empty()) continue;
                    Res rr;
                    rr.num = iu.vals;
                    Pt pt = pointOf(c, t.d, {all}, {rr});
                    if (dbits(pt.t) != dbits(iu.time)) fail("intermediate-read", "time reads %.17g in the intermediate update at %.17g", pt.t, iu.time);
                    const GPt& q = g.pts[(size_t)j];
                    if (!q.event) {
                        for (uint32_t vr : c.iuRead) {
                            const Var* v = c.m->var(vr);
                            if (v->dims ? pt.arr[vr] != q.pre.arr.at(vr) : dbits(pt.v[vr]) != dbits(q.pre.v.at(vr)))
                                fail("intermediate-read", "%s in the intermediate update at %.17g is not the value at that time", v->name, iu.time);
                        }
                    } else if (!stair) {
                        bool ev;
                        checkEuler(c, t.d, g.pts[(size_t)j - 1].post, pt, &ev, false);
                    }
                }
            }
            if (need) {
                Pt pend = readPoint(in, t);
                bool ev;
                checkEuler(c, t.d, g.pts[(size_t)k2 - 1].post, pend, &ev, false);
                if (!step(in, t, Op{OEnterEvent}).ok()) fail("event-mode", "EnterEventMode failed");
                bool terminate = false;
                for (int i = 0; CH.again(i, 1, 3); i++) {
                    Res u = step(in, t, Op{OUpdate});
                    if (!u.ok()) fail("event-mode", "UpdateDiscreteStates failed");
                    terminate = u.num[1];
                    if (i) probe("repeated_update");
                }
                if (terminate != (g.term == k2)) fail("terminate", "UpdateDiscreteStates at grid point %d %s", k2, terminate ? "asks to terminate" : "does not report the termination");
                if (terminate) { probe("termination_reported"); return; }
                if (!step(in, t, Op{OEnterStep}).ok()) fail("event-mode", "EnterStepMode failed");
                probe("event_handled_in_event_mode");
            }
            compareAt(in, t, g, k2, k2 == k, need ? "after event handling" : "after the step");
            if (expTerm) { probe("termination_reported"); return; }
            if (early) probe("early_return");
        }
        feature(hmix(0xC09, hmix(hstr(c.m->name), (uint64_t)(c.eventMode * 64 + c.early * 32 + std::min(k2 - k, 15)) * 2 + (firstEv >= 0))));
        if (k2 != k) applyInputs(in, t, p, g, k2);
        k = k2;
    }
    if (p.atStop && near(t.cp, p.stop) && CH.chance(1, 2)) {
        Op s = stepOp(t.cp, c.m->h * (double)(1 + CH.pick(4)));
        fault("step_beyond_stop_time");
        Res r = exec(in, s);
        if (r.status != 3) fail("invalid-step", "%s at the stop time returned %s", describe(s).c_str(), statusName[r.status]);
    }
    if (in.ius.size() != iusSeen) fail("intermediate-outside", "an intermediate update was delivered outside a step");
    destroy(in);
}

}

void propC09() {
    prepFiles();
    Instance b;
    b.cfg = genCfg(CH.chance(1, 6) ? std::vector<std::string>{"StateSpace", "Feedthrough"} : std::vector<std::string>{"BouncingBall", "Stair"}, CS);
    b.cfg.name = "schedule";
    b.cfg.iu = false;
    Plan p = genPlan(b.cfg, true);
    Grid g = reference(b.cfg, p);
    endAtStop(p, b.cfg, g);
    eventSchedule(b, p, g, false);
}

void propC15() {
    prepFiles();
    Instance b;
    b.cfg = genCfg({"BouncingBall", "Dahlquist", "VanDerPol", "Stair", "Feedthrough", "StateSpace", "Resource"}, CS, 3);
    b.cfg.name = "schedule";
    b.cfg.iu = CH.chance(7, 8);
    b.cfg.iuRead.clear();
    if (b.cfg.iu && CH.chance(5, 6)) {
        for (auto v : varsOf(b.cfg)) if (v->t == F64 && (v->vr == 0 || b.cfg.m->nz > 0 || CH.chance(2, 3))) b.cfg.iuRead.push_back(v->vr);
    }
    Plan p = genPlan(b.cfg, true);
    Grid g = reference(b.cfg, p);
    endAtStop(p, b.cfg, g);
    size_t others = 0;
    std::vector<Op> reads;
    if (b.cfg.iu && CH.chance(1, 2)) reads = readAllOps(b.cfg, Dims());
    if (!reads.empty())
        b.onIu = [&](double) {
            // reads of every type, with the callback still running
            Instance tmp;
            tmp.cfg = b.cfg;
            tmp.l = b.l;
            tmp.c = b.c;
            bool q = quietCalls;
            quietCalls = true;
            for (auto& o : reads) { others++; if (!exec(tmp, o).ok()) failLater("intermediate-read", "%s failed in an intermediate update", describe(o).c_str()); }
            quietCalls = q;
        };
    eventSchedule(b, p, g, true);
    if (others) probe("reads_of_all_types_in_callback");
}
