// Variables read back what was last set (C19): a map of the last value set to every
// independent variable predicts every read, whatever happens in between.
#include "props.h"

namespace {

struct Val {
    std::vector<uint64_t> num;
    std::string str;
    bool known = true;
};
typedef std::map<std::pair<int, uint32_t>, Val> Values;      // by type and value reference

bool is(const Cfg& c, const char* n) { return std::string(c.m->name) == n; }

// the variable an output of Feedthrough follows
const Var* source(const Cfg& c, const Var& v) {
    if (!is(c, "Feedthrough") || v.kind != KOut) return &v;
    for (auto x : varsOf(c)) if (x->t == v.t && x->vr == v.vr - 1) return x;
    return &v;
}

bool independent(const Cfg& c, const Var& v, Mode m) {
    switch (v.kind) {
    case KConst: case KTun: case KInC: case KInD: case KX0: case KStruct: return true;
    case KFixed: return !(is(c, "BouncingBall") && v.vr == 5) || m == Inst_ || m == Init_;     // g becomes 0 when the ball comes to rest
    case KState: return !v.dims && (m == Inst_ || m == Init_);
    case KOut: return source(c, v) != &v;
    default: return false;
    }
}

Values startValues(const Cfg& c) {
    Values r;
    for (auto v : varsOf(c)) {
        Val& x = r[{v->t, v->vr}];
        size_t n = arraySize(*v, Dims());
        for (size_t i = 0; i < n; i++) {
            double d = v->start;
            if (v->dims >= 1 && v->dims <= 4) d = i % 4 == 0;
            if (v->dims == 6) d = (double)(i + 1);
            if (v->t == F64) x.num.push_back(dbits(d));
            else if (v->t == F32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); x.num.push_back(u); }
            else x.num.push_back((uint64_t)d);
        }
        if (v->sstart) x.str = v->sstart;
    }
    return r;
}

const Var* find(const Cfg& c, Type t, uint32_t vr) {
    for (auto v : varsOf(c)) if (v->t == t && v->vr == vr) return v;
    return nullptr;
}

struct Side {
    Instance in;
    Track t;
    Values now;
    std::map<int, Values> slots, bytes;
    Weights w;
    explicit Side(const Cfg& c) : t(c) { in.cfg = c; now = startValues(c); }

    Res run(const Op& o) {
        Mode m = t.mode;
        Res r = step(in, t, o);
        bool disc = o.k == ODoStep && in.cfg.ver == 2 && r.status == 2;
        if (!r.ok() && !disc && o.k != OStatus) {
            if (o.k == OSet || o.k == OGet) fail("refused", "%s in mode %s", describe(o, r).c_str(), modeName[m]);
            t.mode = Term_;
            return r;
        }
        switch (o.k) {
        case OSet: {
            size_t k = 0;
            for (size_t i = 0; i < o.vr.size(); i++) {
                const Var* v = find(in.cfg, o.t, o.vr[i]);
                Val& x = now[{o.t, o.vr[i]}];
                if (o.t == STR || o.t == BIN) x.str = o.str[i];
                else {
                    size_t n = arraySize(*v, t.d);
                    x.num.assign(o.num.begin() + (long)k, o.num.begin() + (long)(k + n));
                    k += n;
                }
            }
            break;
        }
        case OGet: compare(o, r); break;
        case OReset: now = startValues(in.cfg); break;
        case OGetState: slots[o.slot] = now; break;
        case OSetState: now = slots[o.slot]; break;
        case OSer: bytes[o.i] = slots[o.slot]; break;
        case ODeser: slots[o.slot] = bytes[o.i]; break;
        default: break;
        }
        return r;
    }

    void compare(const Op& o, const Res& r) {
        size_t k = 0, s = 0;
        for (uint32_t vr : o.vr) {
            const Var* v = find(in.cfg, o.t, vr);
            const Var* src = source(in.cfg, *v);
            Val& x = now[{src->t, src->vr}];
            size_t n = arraySize(*v, t.d);
            bool judged = independent(in.cfg, *v, t.mode);
            if (o.t == STR || o.t == BIN) {
                if (judged && r.str.at(s) != x.str)
                    fail("value", "%s reads %zu characters \"%s\" instead of %zu characters \"%s\" in mode %s", v->name, r.str[s].size(), r.str[s].c_str(), x.str.size(), x.str.c_str(), modeName[t.mode]);
                s++;
                continue;
            }
            for (size_t i = 0; i < n; i++, k++) {
                if (!judged) continue;
                if (r.num.at(k) != x.num.at(i))
                    fail("value", "%s[%zu] reads %s instead of %s in mode %s", v->name, i,
                         o.t == F64 ? dstr(bitsd(r.num[k])).c_str() : fmtStr("%llx", (unsigned long long)r.num[k]).c_str(),
                         o.t == F64 ? dstr(bitsd(x.num[i])).c_str() : fmtStr("%llx", (unsigned long long)x.num[i]).c_str(), modeName[t.mode]);
            }
            if (judged && v->kind == KOut) probe("feedthrough");
        }
    }

    // several variables of one type in one call, in any order, also repeated
    void setGroup() {
        std::vector<const Var*> ok;
        for (auto v : varsOf(in.cfg)) if (setAllowed(in.cfg, *v, t.mode) == XOk) ok.push_back(v);
        if (ok.empty()) return;
        const Var* v0 = CH.of(ok);
        std::vector<const Var*> sameType, vs = {v0};
        for (auto v : ok) if (v->t == v0->t) sameType.push_back(v);
        for (int i = 0; CH.again(i, 0, 5); i++) vs.push_back(CH.of(sameType));
        Op o{OSet};
        o.t = v0->t;
        for (auto v : vs) {
            Op p = opSet(in.cfg, *v, t.d, w.wildValues);
            o.vr.push_back(v->vr);
            o.num.insert(o.num.end(), p.num.begin(), p.num.end());
            o.str.insert(o.str.end(), p.str.begin(), p.str.end());
        }
        run(o);
        if (vs.size() > 1) probe("grouped_set");
    }

    void getGroup() {
        if (in.cfg.ver == 2 && t.mode == Inst_) return;
        std::vector<const Var*> all = varsOf(in.cfg), sameType;
        const Var* v0 = CH.of(all);
        for (auto v : all) if (v->t == v0->t) sameType.push_back(v);
        std::vector<const Var*> vs = {v0};
        for (int i = 0; CH.again(i, 0, 6); i++) vs.push_back(CH.of(sameType));
        run(opGet(in.cfg, t.d, vs));
    }

    void readAll() {
        if (in.cfg.ver == 2 && t.mode == Inst_) return;
        for (auto& o : readAllOps(in.cfg, t.d)) run(o);
    }
};

}

void propC19() {
    static const std::vector<std::string> names = {"Feedthrough", "BouncingBall", "Dahlquist", "VanDerPol", "Stair", "Roberts", "StateSpace"};
    std::vector<std::string> which = names;
    if (CH.chance(1, 2)) which = {"Feedthrough"};
    int n = 1 + CH.weighted({3, 1});
    std::vector<Side*> sides;
    for (int i = 0; i < n; i++) {
        Cfg c = genCfg(which);
        c.name = fmtStr("instance%d", i);
        Side* s = new Side(c);
        s->w = swarm();
        s->w.reconfig = false;
        s->w.set = 0;
        if (i == 0) s->w.illegal = 0;
        else s->w.illegal = 3;
        if (!create(s->in)) fail("setup", "instantiation failed");
        sides.push_back(s);
    }
    for (int i = 0; CH.again(i, 6, 45); i++) {
        Side& s = *sides[n > 1 ? CH.pick(2) : 0];
        if (&s != sides[0]) {
            // the other instance may do anything, also wrong things
            Op o = genOp(s.in, s.t, s.w);
            Res r = step(s.in, s.t, o);
            if (r.status == 3) fault("error_in_other_instance");
            continue;
        }
        switch (CH.weighted({4, 4, 3, 1})) {
        case 0: s.setGroup(); break;
        case 1: s.run(genOp(s.in, s.t, s.w)); break;
        case 2: s.getGroup(); break;
        default: s.readAll();
        }
        if (s.t.mode == Term_) s.run(Op{OReset});
    }
    sides[0]->readAll();
    for (auto s : sides) destroy(s->in);
    if (liveAllocs()) fail("leak", "after freeing the instances %zu allocations remain:%s", liveAllocs(), describeLive().c_str());
    for (auto s : sides) delete s;
}
