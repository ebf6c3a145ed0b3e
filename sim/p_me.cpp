// Model Exchange (C10): an importer with an Euler integrator that makes trial evaluations,
// rejects steps, repeats and reorders queries and iterates events.
#include "props.h"
#include "ref.h"

namespace {

struct Snap {
    Pt all;
    std::vector<uint64_t> x, dx, z, nom;   // (the nominal values are read now and then)
    bool operator==(const Snap& o) const { return all == o.all && x == o.x && dx == o.dx && z == o.z && (nom == o.nom || nom.empty() || o.nom.empty()); }
};

std::vector<uint64_t> query(Instance& in, const Track& t, OpK k) {
    Op o{k};
    o.n = k == OGetInds ? (size_t)in.cfg.m->nz : (size_t)t.nx();
    if (!o.n) return {};
    Res r = exec(in, o);
    if (!r.ok()) fail("query", "%s", describe(o, r).c_str());
    return r.num;
}

// directional and adjoint derivatives belong to the current point, whatever was asked before
void jacobian(Instance& in, const Pt& at) {
    const double x0 = at.v.at(1), x1 = at.v.at(3), mu = at.v.at(5);
    auto d = [&](uint32_t u, uint32_t k) { return u == 2 ? (k == 3 ? 1.0 : 0.0) : k == 1 ? -2 * x0 * x1 * mu - 1 : mu * (1 - x0 * x0); };
    Op o{in.cfg.ver == 3 && CH.chance(1, 2) ? OAdjDer : ODirDer};
    static const std::vector<std::vector<uint32_t>> us = {{2, 4}, {4, 2}, {4}, {2}}, ks = {{1, 3}, {3, 1}, {1}, {3}};
    o.vr = us[CH.pick(4)];
    o.vr2 = ks[CH.pick(4)];
    const bool adj = o.k == OAdjDer;
    const auto &seeded = adj ? o.vr : o.vr2, &rows = adj ? o.vr2 : o.vr;
    for (size_t i = 0; i < seeded.size(); i++) o.num.push_back(dbits((double)CH.range(-8, 8) / 4));
    Res r = exec(in, o);
    if (!r.ok()) fail("query", "%s", describe(o, r).c_str());
    for (size_t i = 0; i < rows.size(); i++) {
        double want = 0;
        for (size_t j = 0; j < seeded.size(); j++) want += bitsd(o.num[j]) * (adj ? d(seeded[j], rows[i]) : d(rows[i], seeded[j]));
        if (!near(bitsd(r.num.at(i)), want)) fail("jacobian", "%s: sensitivity %zu is %.17g instead of %.17g", describe(o).c_str(), i, bitsd(r.num[i]), want);
    }
    probe(adj ? "adjoint_derivative" : "directional_derivative");
}

// everything that can be asked, in any order and possibly more than once
Snap snap(Instance& in, Track& t) {
    Snap s;
    bool q = quietCalls;
    quietCalls = true;
    int have = 0;
    int first = (int)CH.pick(4);
    bool down = CH.chance(1, 2);
    for (int i = 0; i < 4; i++) {
        int w = down ? (first + 4 - i) % 4 : (first + i) % 4;
        have |= 1 << w;
        switch (w) {
        case 0: s.all = readPoint(in, t); break;
        case 1: s.x = query(in, t, OGetStates); break;
        case 2: s.dx = query(in, t, OGetDers); break;
        case 3: s.z = query(in, t, OGetInds); break;
        }
    }
    if (CH.chance(1, 4)) {
        if (query(in, t, OGetDers) != s.dx || query(in, t, OGetInds) != s.z || query(in, t, OGetStates) != s.x) fail("repeated-query", "a repeated query gave another answer at time %.17g", s.all.t);
        probe("repeated_query");
    }
    if (CH.chance(1, 4)) {
        // nominal values are positive and change only when an event says so, which no model does
        s.nom = query(in, t, OGetNoms);
        static std::vector<uint64_t> first;
        if (first.size() != s.nom.size()) first = s.nom;
        for (size_t i = 0; i < s.nom.size(); i++) {
            if (!(bitsd(s.nom[i]) > 0)) fail("nominals", "the nominal value of state %zu is %.17g", i, bitsd(s.nom[i]));
            if (s.nom[i] != first[i]) fail("nominals", "the nominal value of state %zu is %.17g at time %.17g and was %.17g", i, bitsd(s.nom[i]), s.all.t, bitsd(first[i]));
        }
    }
    if (std::string(in.cfg.m->name) == "VanDerPol" && CH.chance(1, 3)) {
        jacobian(in, s.all);
        if (CH.chance(1, 4) && query(in, t, OGetDers) != s.dx) fail("repeated-query", "a directional derivative changed the derivatives at time %.17g", s.all.t);
    }
    quietCalls = q;
    return s;
}

// the answers follow the equations
void judge(const Cfg& c, const Track& t, const Snap& s, double time) {
    checkEquations(c, t.d, s.all);
    if (!near(s.all.t, time, 1e-15)) fail("time", "time is %.17g but was set to %.17g", s.all.t, time);
    std::vector<uint64_t> sx, sd;
    if (std::string(c.m->name) == "StateSpace") {
        auto x = s.all.arr.find(11), d = s.all.arr.find(12);
        if (x != s.all.arr.end()) for (double v : x->second) sx.push_back(dbits(v));
        if (d != s.all.arr.end()) for (double v : d->second) sd.push_back(dbits(v));
    } else {
        for (uint32_t vr : stateVrs(*c.m)) sx.push_back(dbits(s.all.v.at(vr)));
        for (uint32_t vr : derVrs(*c.m)) sd.push_back(dbits(s.all.v.at(vr)));
    }
    for (size_t i = 0; i < s.x.size(); i++) if (!near(bitsd(s.x[i]), bitsd(sx[i]))) fail("states", "state %zu is %.17g but the variable is %.17g", i, bitsd(s.x[i]), bitsd(sx[i]));
    for (size_t i = 0; i < s.dx.size(); i++) if (!near(bitsd(s.dx[i]), bitsd(sd[i]))) fail("derivatives", "derivative %zu is %.17g but the variable is %.17g", i, bitsd(s.dx[i]), bitsd(sd[i]));
    std::vector<double> z = refIndicators(*c.m, s.all.v);
    for (size_t i = 0; i < z.size() && i < s.z.size(); i++)
        if (!near(bitsd(s.z[i]), z[i])) fail("indicators", "event indicator %zu is %.17g at time %.17g instead of %.17g", i, bitsd(s.z[i]), time, z[i]);
}

Op setTime(double t) { Op o{OSetTime}; o.a = t; return o; }
Op setStates(const std::vector<uint64_t>& x) { Op o{OSetStates}; o.num = x; return o; }

void must(Instance& in, Track& t, const Op& o) {
    Res r = step(in, t, o);
    if (!r.ok()) fail("call", "%s", describe(o, r).c_str());
}

// trial evaluations as an adaptive or implicit solver makes them; afterwards the point is set again
void trials(Instance& in, Track& t, const Plan& p, double time, const std::vector<uint64_t>& x, const std::vector<const Var*>& inputs) {
    (void)p;
    for (int i = 0; CH.again(i, 1, 4); i++) {
        switch (CH.weighted({3, 3, 1})) {
        case 0: must(in, t, setTime(time + (double)CH.range(-20, 40) / 16.0 * in.cfg.m->h)); break;
        case 1:
            if (!x.empty()) {
                std::vector<uint64_t> y = x;
                for (auto& u : y) if (CH.chance(2, 3)) u = dbits(bitsd(u) * (1.0 + (double)CH.range(-8, 8) / 16.0) + (double)CH.range(-4, 4) / 8.0);
                must(in, t, setStates(y));
            }
            break;
        default: break;
        }
        if (CH.chance(1, 2)) {
            static const OpK ks[] = {OGetDers, OGetInds, OGetStates};
            query(in, t, ks[CH.pick(3)]);
        }
        if (CH.chance(1, 3)) {
            Snap s = snap(in, t);
            judge(in.cfg, t, s, t.time);
        }
        if (!inputs.empty() && CH.chance(1, 4)) {
            // an input is varied and set back
            const Var* v = CH.of(inputs);
            Op g = opGet(in.cfg, t.d, {v});
            Res old = exec(in, g);
            if (!old.ok()) fail("call", "%s", describe(g, old).c_str());
            Op s = opSet(in.cfg, *v, t.d, false), back = s;
            back.num = old.num;
            must(in, t, s);
            if (CH.chance(1, 2)) { Snap sn = snap(in, t); judge(in.cfg, t, sn, t.time); }
            must(in, t, back);
            probe("input_varied_and_restored");
        }
    }
    // in either order
    bool xFirst = CH.chance(1, 2);
    if (xFirst && !x.empty()) must(in, t, setStates(x));
    must(in, t, setTime(time));
    if (!xFirst && !x.empty()) must(in, t, setStates(x));
    fault("rejected_solver_step");
}

}

void propC10() {
    vfs["/unzipped/resources/y.txt"] = VFile{"abc", true};
    Instance in;
    in.cfg = genCfg({"BouncingBall", "Dahlquist", "VanDerPol", "Stair", "Feedthrough", "Roberts", "StateSpace", "Resource"}, ME);
    in.cfg.name = "me";
    const Cfg& c = in.cfg;
    const std::string n = c.m->name;
    const double h = c.m->h;
    Plan p = genPlan(c, true);
    p.n = std::min(p.n, n == "Stair" ? 60 : 250);
    // co-simulation of the same plan is the other side of the comparison
    Grid g;
    bool withCs = CH.chance(1, 2) && n != "Roberts";
    if (withCs) {
        Cfg cs = c;
        cs.type = CS;
        g = reference(cs, p);
        if (g.term >= 0) p.n = std::min(p.n, g.term);
        tr("--- model exchange");
    }
    Track t(c);
    if (!create(in)) fail("setup", "instantiation failed");
    for (auto& o : p.inst) must(in, t, o);
    Op e{OEnterInit};
    e.a = p.start;
    e.f = p.stopDef;
    e.b = p.stop;
    must(in, t, e);
    for (auto& o : p.init) must(in, t, o);
    must(in, t, Op{OExitInit});
    auto update = [&](bool* terminate) {
        Snap first, before = snap(in, t);
        int rounds = 0;
        for (int i = 0; CH.again(i, 1, 3); i++) {
            Res r = step(in, t, Op{OUpdate});
            if (!r.ok()) fail("call", "UpdateDiscreteStates failed");
            if (r.num[0]) fail("update", "UpdateDiscreteStates asks for another iteration");
            if (r.num[2]) fail("nominals", "UpdateDiscreteStates reports changed nominal values");
            if (i == 0) {
                first = snap(in, t);
                if (first.x != before.x && !r.num[3]) fail("values-changed", "UpdateDiscreteStates changed continuous states without saying so");
            }
            else if (!(snap(in, t) == first)) fail("repeated-update", "a further UpdateDiscreteStates at time %.17g changed something", t.time);
            *terminate = r.num[1];
            if (n == "Stair") {
                double next = bitsd(r.num[5]), due = std::max(std::floor(t.time + 1e-6) + 1, 1.0);
                if (!r.num[4] || std::fabs(next - due) > 1e-9) fail("next-event", "the next event is announced for %.17g instead of %g", r.num[4] ? next : NAN, due);
            } else if (r.num[4]) fail("next-event", "a time event is announced for %.17g but the model has none", bitsd(r.num[5]));
            rounds++;
        }
        if (rounds > 1) probe("repeated_update");
        return first;
    };
    bool term = false;
    Snap cur = update(&term);
    if (term) fail("terminate", "termination requested at the start");
    must(in, t, Op{OEnterCont});
    std::vector<const Var*> inputs;
    for (auto v : varsOf(c)) if (v->kind == KInC && v->t == F64) inputs.push_back(v);
    int trialEvery = 1 + (int)CH.pick(8);
    const bool inexact = CH.chance(1, 3);
    double prevTime = p.start;
    for (int k = 0; k < p.n; k++) {
        auto it = p.inputs.find(k);
        if (it != p.inputs.end() && withCs) {
            // inputs and tunable parameters, where event mode is needed for them
            must(in, t, Op{OEnterEvent});
            for (auto& o : it->second) must(in, t, o);
            must(in, t, Op{OEnterCont});
            cur = snap(in, t);
            judge(c, t, cur, prevTime);
        }
        Pt before = cur.all;
        double time = p.start + (k + 1) * h;
        // a time event that was located only approximately
        if (n == "Stair" && inexact && CH.chance(1, 2)) time += (double)CH.range(-5, 5) * 1e-7;
        // the step
        std::vector<uint64_t> x = cur.x;
        for (size_t i = 0; i < x.size(); i++) x[i] = dbits(bitsd(x[i]) + h * bitsd(cur.dx[i]));
        std::vector<uint64_t> zPrev = cur.z;
        if (CH.chance(1, 2)) {
            must(in, t, setTime(time));
            if (!x.empty()) must(in, t, setStates(x));
        } else {
            if (!x.empty()) must(in, t, setStates(x));
            must(in, t, setTime(time));
        }
        Snap s;
        bool seen = false;
        if (CH.chance(1, 2)) { s = snap(in, t); judge(c, t, s, time); seen = true; }
        if (CH.pick((uint64_t)trialEvery) == 1 || (trialEvery == 1 && CH.chance(1, 2))) {
            trials(in, t, p, time, x, inputs);
            if (seen && !(snap(in, t) == s)) fail("trial", "trial evaluations changed the answers at time %.17g", time);
        }
        if (!seen) { s = snap(in, t); judge(c, t, s, time); }
        if (s.x != x) fail("states", "the continuous states are not those that were set");
        must(in, t, Op{OCompleted});
        if (CH.chance(1, 8) && !(snap(in, t) == s)) fail("completed", "CompletedIntegratorStep changed something");
        bool ev;
        checkEuler(c, t.d, before, s.all, &ev, false);
        bool timeEvent = t.nextEventDef && time >= t.nextEvent - 1e-6;
        bool stateEvent = false;
        for (size_t i = 0; i < s.z.size(); i++) stateEvent |= (bitsd(zPrev[i]) > 0) != (bitsd(s.z[i]) > 0);
        if (n == "Stair" && timeEvent != ev) fail("time-event", "%s time event at %.17g", ev ? "no" : "a", time);
        if (n == "BouncingBall" && ev && !stateEvent) fail("state-event", "the event indicator did not cross zero at a bounce");
        bool handle = timeEvent || stateEvent || CH.chance(1, 12);
        if (handle) {
            must(in, t, Op{OEnterEvent});
            Snap u = update(&term);
            bool ev2;
            if (timeEvent || stateEvent) {
                checkEuler(c, t.d, before, u.all, &ev2, true);
                if (ev) probe("event_handled");
            } else {
                if (!(u == s)) fail("event-mode", "event mode without an event changed something at time %.17g", time);
                probe("event_mode_without_event");
            }
            judge(c, t, u, time);
            bool expTerm = n == "Stair" && ev && u.all.v.at(1) >= 10;
            if (term != expTerm) fail("terminate", "termination %s at time %.17g", term ? "requested" : "not requested", time);
            must(in, t, Op{OEnterCont});
            Snap after = snap(in, t);
            if (!(after == u)) fail("event-mode", "leaving event mode changed something");
            cur = after;
        } else cur = s;
        if (withCs && k + 1 < (int)g.pts.size()) {
            const Pt& w = g.pts[(size_t)k + 1].pre;
            for (auto& kv : w.v) if (!near(cur.all.v[kv.first], kv.second, 1e-6)) fail("co-simulation", "%s is %.17g at time %.17g but %.17g in co-simulation", c.m->var(kv.first)->name, cur.all.v[kv.first], time, kv.second);
            for (auto& kv : w.arr)
                for (size_t i = 0; i < kv.second.size(); i++)
                    if (!near(cur.all.arr[kv.first][i], kv.second[i], 1e-6)) fail("co-simulation", "%s differs from co-simulation at time %.17g", c.m->var(kv.first)->name, time);
        }
        prevTime = time;
        simTime(h);
        if (term) { probe("termination"); break; }
    }
    destroy(in);
}
