// Logging (C16): messages follow the settings, and the settings change nothing else.
#include "props.h"
#include "proto.h"

namespace {

enum { Off, On, Open };      // Open: the standard leaves it open

struct Side {
    Instance in;
    Track t;
    int ev, er;
    explicit Side(const Cfg& c) : t(c) {
        in.cfg = c;
        initial();
    }
    void initial() {
        ev = in.cfg.logging ? On : Off;
        er = in.cfg.logging ? On : Open;
    }
};

std::vector<Side*> all;

Res run(Side& s, const Op& o) {
    std::vector<size_t> before;
    for (auto x : all) before.push_back(x->in.logs.size());
    Mode m = s.t.mode;
    int ev = s.ev, er = s.er;
    Res r = step(s.in, s.t, o);
    for (size_t i = 0; i < all.size(); i++)
        if (all[i] != &s && all[i]->in.logs.size() != before[i])
            fail("wrong-instance", "%s on %s delivered a message to %s", describe(o).c_str(), s.in.cfg.name.c_str(), all[i]->in.cfg.name.c_str());
    bool setting = o.k == OSetDebug && !o.nullInstance;
    if (setting && r.ok()) {
        bool e = o.str.empty(), f = o.str.empty();
        for (auto& c : o.str) {
            if (c == "logEvents") e = true;
            else if (c == "logStatusError") f = true;
            else fail("unknown-category", "%s was accepted", describe(o, r).c_str());
        }
        if (e) s.ev = o.f ? On : Off;
        if (f) s.er = o.f ? On : Off;
    } else if (setting) {
        // some of the categories may have been set
        if (s.ev != (o.f ? On : Off)) s.ev = Open;
        if (s.er != (o.f ? On : Off)) s.er = Open;
    }
    int errors = 0;
    for (auto& l : r.logs) {
        if (!l.nameOk) fail("name", "%s: the message \"%s\" was delivered under another name", describe(o, r).c_str(), l.message.c_str());
        if (l.category == "logEvents") {
            if (ev == Off && s.ev == Off) fail("disabled", "%s: an event message was delivered while events are not logged: \"%s\"", describe(o, r).c_str(), l.message.c_str());
            probe("event_message");
        } else if (l.category == "logStatusError") {
            if (er == Off && s.er == Off) fail("disabled", "%s: an error message was delivered while errors are not logged: \"%s\"", describe(o, r).c_str(), l.message.c_str());
            if (l.status == 3) errors++;
        } else fail("category", "%s: a message was delivered in the unknown category %s", describe(o, r).c_str(), l.category.c_str());
    }
    if (r.status == 3 && !o.nullInstance && s.in.cfg.logger && er == On && s.er == On) {
        if (!errors) fail("silent", "%s in mode %s was rejected without an error message", describe(o, r).c_str(), modeName[m]);
        probe("error_message");
    }
    if (o.k == OReset && r.ok()) {
        int ev1 = s.ev, er1 = s.er;
        s.initial();
        if (ev1 != s.ev) s.ev = Open;
        if (er1 != s.er) s.er = Open;
    }
    return r;
}

Op genDebug() {
    Op o{OSetDebug};
    o.f = CH.chance(1, 2);
    int k = (int)CH.pick(4);
    if (k & 1) o.str.push_back("logEvents");
    if (k & 2) o.str.push_back("logStatusError");
    if (k == 3 && CH.chance(1, 2)) std::swap(o.str[0], o.str[1]);
    return o;
}

}

void propC16() {
    vfs["/unzipped/resources/y.txt"] = VFile{"abc", true};
    all.clear();
    Weights w = swarm();
    w.illegal = 1;
    w.wildValues = false;
    w.log = 0;
    w.state = 3;
    w.maxSteps = std::min(w.maxSteps, 60);
    auto add = [&](const Cfg& c, const char* name) {
        Side* s = new Side(c);
        s->in.cfg.name = s->t.cfg.name = name;
        if (c.ver == 3) s->in.cfg.logger = CH.chance(5, 6);
        s->in.cfg.logging = CH.chance(1, 2);
        s->initial();
        if (!create(s->in)) fail("setup", "instantiation failed");
        all.push_back(s);
        return s;
    };
    Cfg c = genCfg();
    if (!strcmp(c.m->name, "Resource") && CH.chance(1, 3)) {
        // no such file: every read is rejected, with the path in the message
        std::string deep;
        for (uint64_t n = CH.range(1, 300); n; n--) deep += "/directory";
        c.res = deep + "/";
        probe("missing_file_with_long_path");
    }
    Side& a = *add(c, "first");
    Side& twin = *add(c, "second");       // the same calls, other settings
    Side* other = CH.chance(1, 2) ? add(genCfg(), "third") : nullptr;
    for (int i = 0; CH.again(i, 4, 40); i++) {
        if (CH.chance(1, 4)) run(*all[CH.pick(all.size())], genDebug());
        if (other && CH.chance(1, 4)) {
            run(*other, genOp(other->in, other->t, w));
            continue;
        }
        Op o{OReset};
        switch (CH.weighted({6, 2, 2, 1})) {
        case 0: o = genOp(a.in, a.t, w); break;
        case 1: o = anyCall(a.in, a.t); break;
        case 2:
            if (!malformed(a.in, a.t, &o)) continue;
            break;
        default:
            if (CH.chance(1, 4)) {
                // a category the FMU does not have, of any length
                o = Op{OSetDebug};
                o.f = true;
                if (CH.chance(1, 3)) o.str.push_back("logEvents");
                static const char* close[] = {"log", "logE", "logEvent", "logEvents2", "logStatus", "logStatusErro", "logStatusErrors", "logAll", "LOGEVENTS", " logEvents", ""};
                if (CH.chance(1, 3)) { o.str.push_back(formatMark); probe("conversion_in_category"); }
                else if (CH.chance(1, 2)) o.str.push_back(close[CH.pick(11)]);
                else o.str.push_back(std::string(CH.chance(1, 2) ? CH.range(1, 40) : CH.range(1, 5000), "xy%sZ"[CH.pick(5)]));
                if (CH.chance(1, 3)) o.str.push_back("logStatusError");
                probe("unknown_category");
                break;
            }
            // functions the model does not offer
            if (c.ver == 2) { o.k = CH.chance(1, 2) ? OCancel : OInDer; o.vr = {7}; break; }
            switch (CH.pick(5)) {
            case 0: o.k = OGetClock; o.vr = {1005}; break;
            case 1: o.k = OSetClock; o.vr = {1001}; break;
            case 2: o.k = OGetInterval; o.vr = {1003}; break;
            case 3: o.k = OActivate; o.vr = {1001 + (uint32_t)CH.pick(5)}; break;
            default: o.k = OMisc; o.i = (int)CH.pick(8);
            }
        }
        if (c.ver == 3 && (o.k == OSetup || o.k == OStatus || o.k == OCancel || o.k == OInDer)) continue;
        if (c.ver == 2 && (o.k == OEnterStep || o.k == OEnterConf || o.k == OExitConf || o.k == OActivate || o.k == OGetNx || o.k == OGetNz || o.k == OMisc)) continue;
        if ((o.k == OSetState || o.k == OFreeState || o.k == OSer || o.k == OSerSize) && (!a.in.slots.count(o.slot) || !twin.in.slots.count(o.slot))) continue;
        if (o.k == ODeser && (!a.in.bytes.count(o.i) || !twin.in.bytes.count(o.i))) continue;
        Res r = run(a, o), q = run(twin, o);
        std::string why;
        if (!same(o, r, q, &why)) fail("influence", "with other logging settings: %s", why.c_str());
        if (r.status == 3) fault("rejected_call");
        twin.t.mode = a.t.mode;
        if (r.status == 3 && (o.k == OMisc || o.k == OStatus || o.k == OCancel || o.k == OInDer || o.k == OSetDebug || (o.k == OSet && o.t == U64 && o.wrong) || CH.chance(1, 3)) && !o.nullInstance) {
            r = run(a, Op{OReset});
            q = run(twin, Op{OReset});
            if (!r.ok() || !q.ok()) fail("reset", "Reset failed");
        }
    }
    for (auto s : all) destroy(s->in);
    if (liveAllocs()) fail("leak", "after freeing the instances %zu allocations remain:%s", liveAllocs(), describeLive().c_str());
}
