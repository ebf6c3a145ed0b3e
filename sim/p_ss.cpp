// Structural changes of StateSpace (C14): a model with the sizes and arrays as they were
// set predicts every read, derivative, output and solver step.
#include "props.h"
#include "ref.h"

namespace {

struct Ref {
    Dims d;
    std::map<uint32_t, std::vector<double>> a;   // 4..9 and 11; absent: not known (resized since it was set)
};

bool uses(uint32_t vr, uint32_t size) {
    switch (vr) {
    case 4: case 8: case 11: return size == 2;
    case 5: return size == 1 || size == 2;
    case 6: return size == 2 || size == 3;
    case 7: return size == 1 || size == 3;
    case 9: return size == 1;
    default: return false;
    }
}

struct Sim {
    Instance in;
    Track t;
    Ref ref;
    std::map<int, Ref> saved;
    explicit Sim(const Cfg& c) : t(c) { in.cfg = c; fresh(); }

    void fresh() {
        ref = Ref();
        std::vector<double> id = {1, 0, 0, 0, 1, 0, 0, 0, 1};
        for (uint32_t vr = 4; vr <= 7; vr++) ref.a[vr] = id;
        ref.a[8] = ref.a[11] = {0, 0, 0};
        ref.a[9] = {1, 2, 3};
    }

    Res ok(const Op& o) {
        Mode m = t.mode;
        Res r = step(in, t, o);
        if (!r.ok()) fail("refused", "%s in mode %s", describe(o, r).c_str(), modeName[m]);
        return r;
    }

    void bad(const Op& o, const char* why) {
        Mode m = t.mode;
        Res r = exec(in, o);
        if (r.status != 3) fail("accepted", "%s in mode %s: %s", describe(o, r).c_str(), modeName[m], why);
        ok(Op{OReset});
        fresh();
    }

    std::vector<double> read(uint32_t vr) {
        const Var* v = in.cfg.m->var(vr);
        Res r = ok(opGet(in.cfg, t.d, {v}));
        std::vector<double> x;
        for (uint64_t b : r.num) x.push_back(bitsd(b));
        return x;
    }

    // reads an array alone or together with others and compares; an unknown one is adopted
    void look(const std::vector<uint32_t>& vrs) {
        std::vector<const Var*> vs;
        for (uint32_t vr : vrs) vs.push_back(in.cfg.m->var(vr));
        Res r = ok(opGet(in.cfg, t.d, vs));
        size_t k = 0;
        for (uint32_t vr : vrs) {
            size_t n = arraySize(*in.cfg.m->var(vr), t.d);
            std::vector<double> x;
            for (size_t i = 0; i < n; i++) x.push_back(bitsd(r.num.at(k++)));
            if (vr == 10 || vr == 12) continue;
            auto it = ref.a.find(vr);
            if (it == ref.a.end()) { ref.a[vr] = x; probe("unknown_array_adopted"); continue; }
            if (it->second.size() != n) fail("internal", "reference has %zu elements", it->second.size());
            for (size_t i = 0; i < n; i++) {
                bool same = vr == 11 ? near(x[i], it->second[i]) : dbits(x[i]) == dbits(it->second[i]);
                if (!same) fail("read-back", "%s[%zu] is %.17g instead of %.17g (m=%d n=%d r=%d)", in.cfg.m->var(vr)->name, i, x[i], it->second[i], t.d.m, t.d.n, t.d.r);
            }
            if (vr == 11) it->second = x;     // do not let rounding differences grow
        }
    }

    void sizes() {
        Op o{OGet};
        o.t = U64;
        o.vr = {1, 2, 3};
        o.n = 3;
        Res r = ok(o);
        if ((int)r.num[0] != ref.d.m || (int)r.num[1] != ref.d.n || (int)r.num[2] != ref.d.r)
            fail("sizes", "m, n, r are %lld, %lld, %lld instead of %d, %d, %d", (long long)r.num[0], (long long)r.num[1], (long long)r.num[2], ref.d.m, ref.d.n, ref.d.r);
    }

    Pt known() {
        for (uint32_t vr : {4u, 5u, 6u, 7u, 9u, 11u}) if (!ref.a.count(vr)) look({vr});
        Pt p;
        p.arr = ref.a;
        return p;
    }

    void equations() {
        Pt p = known();
        std::vector<double> dx = ssDer(t.d, p, p.arr.at(11)), y = ssOut(t.d, p, p.arr.at(11));
        auto cmp = [&](const char* what, const std::vector<double>& got, const std::vector<double>& want) {
            if (got.size() != want.size()) fail("equations", "%s has %zu elements instead of %zu", what, got.size(), want.size());
            for (size_t i = 0; i < got.size(); i++)
                if (!near(got[i], want[i])) fail("equations", "%s[%zu] is %.17g, the equations give %.17g (m=%d n=%d r=%d)", what, i, got[i], want[i], t.d.m, t.d.n, t.d.r);
        };
        cmp("der(x)", read(12), dx);
        cmp("y", read(10), y);
        if (in.cfg.type == ME && (t.mode == Event_ || t.mode == Cont_)) {
            Op o{OGetDers};
            o.n = (size_t)t.d.n;
            if (o.n) {
                Res r = ok(o);
                std::vector<double> g;
                for (uint64_t b : r.num) g.push_back(bitsd(b));
                cmp("the derivative vector", g, dx);
            }
            Res r = ok(Op{OGetNx});
            if ((int)r.num.at(0) != t.d.n) fail("sizes", "the number of continuous states is %lld instead of %d", (long long)r.num[0], t.d.n);
        }
        if (t.d.m != t.d.n || t.d.n != t.d.r) probe("non_square");
        if (!t.d.m || !t.d.n || !t.d.r) probe("size_zero");
    }

    void setSizes() {
        Op o{OSet};
        o.t = U64;
        uint32_t first = 1 + (uint32_t)CH.pick(3), n = 1 + (uint32_t)CH.pick(3);
        for (uint32_t i = 0; i < n; i++) {
            o.vr.push_back(1 + (first - 1 + i) % 3);
            o.num.push_back(CH.pick(6));
        }
        if (CH.chance(1, 12)) {
            o.num[CH.pick(n)] = CH.chance(1, 2) ? 6 : 6 + CH.bits(40);
            fault("size_too_large");
            bad(o, "sizes are limited to 5");
            return;
        }
        ok(o);
        for (size_t i = 0; i < o.vr.size(); i++) {
            int& x = o.vr[i] == 1 ? ref.d.m : o.vr[i] == 2 ? ref.d.n : ref.d.r;
            if (x == (int)o.num[i]) continue;
            x = (int)o.num[i];
            for (uint32_t vr : {4u, 5u, 6u, 7u, 8u, 9u, 11u}) if (uses(vr, o.vr[i])) ref.a.erase(vr);
        }
        if (t.mode == Reconf_) probe("resized_during_simulation");
        feature(hmix(0xC14, (uint64_t)(ref.d.m * 100 + ref.d.n * 10 + ref.d.r) * 8 + (uint64_t)t.mode));
    }

    void set(uint32_t vr) {
        const Var* v = in.cfg.m->var(vr);
        Op o = opSet(in.cfg, *v, t.d, false);
        ok(o);
        std::vector<double> x;
        for (uint64_t b : o.num) x.push_back(bitsd(b));
        ref.a[vr] = x;
        // the state starts at x0
        if (vr == 8 && t.mode == Init_) ref.a[11] = x;
        if (vr == 8 && t.mode == Inst_) ref.a.erase(11);
    }

    void euler(int k) {
        Pt p = known();
        std::vector<double> x = p.arr.at(11);
        for (int i = 0; i < k; i++) {
            std::vector<double> dx = ssDer(t.d, p, x);
            for (size_t j = 0; j < x.size(); j++) x[j] += in.cfg.m->h * dx[j];
        }
        ref.a[11] = x;
    }
};

}

void propC14() {
    Cfg c = genCfg({"StateSpace"}, -1, 3);
    c.name = "instance";
    c.iuRead.clear();
    Sim s(c);
    if (!create(s.in)) fail("setup", "instantiation failed");
    const std::vector<uint32_t> settable = {4, 5, 6, 7, 9}, arrays = {4, 5, 6, 7, 8, 9, 11};
    for (int i = 0; CH.again(i, 6, 45); i++) {
        Track& t = s.t;
        // in configuration the arrays are resized but not yet set
        bool conf = t.mode == Conf_ || t.mode == Reconf_;
        switch (CH.weighted({6, 3, 3, 3, 1, 1})) {
        case 0:
            // towards and through the simulation
            switch (t.mode) {
            case Inst_:
                if (CH.chance(1, 2)) { s.ok(Op{OEnterConf}); break; }
                s.ok(Op{OEnterInit});
                s.ref.a.erase(11);
                s.look({8});
                s.ref.a[11] = s.ref.a[8];
                probe("started_at_x0");
                break;
            case Conf_: s.setSizes(); if (t.mode == Conf_ && CH.chance(1, 2)) s.ok(Op{OExitConf}); break;
            case Init_: s.ok(Op{OExitInit}); break;
            case Event_:
                if (CH.chance(1, 3)) { s.ok(Op{OEnterConf}); break; }
                s.ok(Op{OUpdate});
                s.ok(c.type == ME ? Op{OEnterCont} : Op{OEnterStep});
                break;
            case Cont_: {
                if (CH.chance(1, 3)) { s.ok(Op{OEnterEvent}); break; }
                Op o{OSetTime};
                o.a = t.time + c.m->h;
                s.ok(o);
                if (t.d.n == 0) break;
                s.euler(1);
                Op x{OSetStates};
                for (double v : s.ref.a[11]) x.num.push_back(dbits(v));
                s.ok(x);
                break;
            }
            case Step_: {
                if (!c.eventMode && CH.chance(1, 3)) { s.ok(Op{OEnterConf}); break; }
                if (c.eventMode && CH.chance(1, 4)) { s.ok(Op{OEnterEvent}); break; }
                int k = CH.range(1, 30);
                Op o{ODoStep};
                o.a = t.cp;
                o.b = k * c.m->h;
                o.g = true;
                s.known();
                double before = s.read(0)[0];
                Res r = s.ok(o);
                double after = bitsd(r.num[3]);
                k = (int)std::lround((after - before) / c.m->h);
                s.euler(k);
                if (t.d.n) s.look({11});
                probe("steps");
                break;
            }
            case Reconf_: {
                s.setSizes();
                if (t.mode != Reconf_ || CH.chance(1, 2)) break;
                if (c.type == CS && c.eventMode) {
                    // whichever of the two modes of co-simulation follows, simulation must go on
                    s.ok(Op{OExitConf});
                    Op g{OGetState};
                    g.slot = 1;
                    s.ok(g);
                    Res r = exec(s.in, Op{OEnterStep});
                    if (r.ok()) { t.mode = Step_; break; }
                    g.k = OSetState;
                    s.ok(g);
                    t.mode = Step_;
                    Op o{ODoStep};
                    o.a = t.cp;
                    o.b = c.m->h;
                    o.g = true;
                    s.known();
                    s.ok(o);
                    s.euler(1);
                } else s.ok(Op{OExitConf});
                break;
            }
            default: break;
            }
            break;
        case 1:
            if (t.mode == Conf_ || t.mode == Reconf_) { s.setSizes(); break; }
            if (t.mode == Cont_) { s.set(9); break; }
            if ((t.mode == Inst_ || t.mode == Init_) && CH.chance(1, 3)) { s.set(8); break; }
            if (c.type == ME && t.mode == Event_ && CH.chance(1, 4)) { s.set(11); break; }
            s.set(CH.of(settable));
            break;
        case 2: {
            if (conf) { s.sizes(); break; }
            std::vector<uint32_t> vrs = {CH.of(arrays)};
            for (int k = (int)CH.pick(4); k > 0; k--) vrs.push_back(4 + (uint32_t)CH.pick(9));
            s.look(vrs);
            break;
        }
        case 3:
            s.sizes();
            if (!conf) s.equations();
            break;
        case 4: {
            // saved states carry the sizes
            if (s.saved.empty() || CH.chance(1, 2)) {
                Op g{OGetState};
                g.slot = 10 + (int)CH.pick(2);
                s.ok(g);
                s.saved[g.slot] = s.ref;
            } else {
                auto it = s.saved.begin();
                if (s.saved.size() > 1 && CH.chance(1, 2)) ++it;
                Op g{OSetState};
                g.slot = it->first;
                s.ok(g);
                s.ref = it->second;
                if (s.ref.d.m != t.d.m || s.ref.d.n != t.d.n || s.ref.d.r != t.d.r) fail("internal", "track and reference disagree");
                probe("sizes_restored");
            }
            break;
        }
        default:
            switch (CH.pick(3)) {
            case 0: s.ok(Op{OReset}); s.fresh(); break;
            case 1:
                if (!conf) {
                    Op o{OSet};
                    o.t = U64;
                    o.vr = {1 + (uint32_t)CH.pick(3)};
                    o.num = {CH.pick(6)};
                    fault("size_set_outside_configuration");
                    s.bad(o, "sizes can only be set in configuration");
                }
                break;
            default:
                if (!conf && t.mode != Cont_) {
                    const Var* v = c.m->var(CH.of(settable));
                    Op o = opSet(c, *v, t.d, false);
                    size_t n = o.num.size();
                    o.num.resize(CH.pick(26), dbits(1));
                    if (o.num.size() == n) break;
                    fault("wrong_number_of_values");
                    s.bad(o, "the number of values differs from the number of elements");
                }
            }
        }
    }
    destroy(s.in);
    if (liveAllocs()) fail("leak", "after freeing the instance %zu allocations remain:%s", liveAllocs(), describeLive().c_str());
}
