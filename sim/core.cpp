#include "core.h"
#include "seams.h"

Chooser CH;
uint64_t* choiceSink;
uint64_t* choiceSinkCount;
uint64_t choiceSinkMax;

uint64_t Chooser::next() {
    uint64_t z = (st += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint64_t Chooser::pick(uint64_t n) {
    uint64_t v;
    if (replay) {
        v = pos < src.size() ? src[pos] : 0;
        pos++;
        if (n && v >= n) v %= n;
    } else {
        v = next();
        if (n) v %= n;
    }
    log.push_back(v);
    if (choiceSink && *choiceSinkCount < choiceSinkMax) choiceSink[(*choiceSinkCount)++] = v;
    return v;
}

bool Chooser::chance(unsigned num, unsigned den) {
    if (num == 0) return false;
    return pick(den) >= den - num;
}

int Chooser::weighted(const std::vector<int>& w) {
    int sum = 0;
    for (int x : w) sum += x;
    if (sum <= 0) return 0;
    int r = (int)pick((uint64_t)sum);
    for (size_t i = 0; i < w.size(); i++) {
        if (r < w[i]) return (int)i;
        r -= w[i];
    }
    return (int)w.size() - 1;
}

// ---------------------------------------------------------------- violations

static std::string vfmt(const char* fmt, va_list ap) {
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    std::string s(n > 0 ? n : 0, '\0');
    if (n > 0) vsnprintf(&s[0], n + 1, fmt, ap);
    return s;
}

std::string fmtStr(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::string s = vfmt(fmt, ap);
    va_end(ap);
    return s;
}

std::string dstr(double d) { return fmtStr("%.17g", d); }

void fail(const char* code, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::string s = vfmt(fmt, ap);
    va_end(ap);
    throw Violation{code, s};
}

static bool havePending;
static Violation pendingV;

void failLater(const char* code, const char* fmt, ...) {
    if (havePending) return;
    va_list ap;
    va_start(ap, fmt);
    pendingV = Violation{code, vfmt(fmt, ap)};
    va_end(ap);
    havePending = true;
}

const char* knownFinding(const std::string& code, const std::string& message) {
    static std::vector<std::vector<std::string>> list;   // id, code, parts of the message
    static bool loaded;
    if (!loaded) {
        loaded = true;
        const char* e = getenv("SIM_KNOWN");
        std::vector<std::string> f(1);
        for (; e && *e; e++) {
            if (*e == '\n') { list.push_back(f); f.assign(1, ""); }
            else if (*e == '\t') f.push_back("");
            else f.back() += *e;
        }
    }
    for (auto& f : list) {
        bool all = f.size() > 2 && f[1] == code;
        for (size_t i = 2; all && i < f.size(); i++) all = message.find(f[i]) != std::string::npos;
        if (all) return f[0].c_str();
    }
    return nullptr;
}

void failUnlessKnown(const char* code, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::string s = vfmt(fmt, ap);
    va_end(ap);
    const char* id = knownFinding(code, s);
    if (!id) throw Violation{code, s};
    tr("known finding %s: %s", id, s.c_str());
    ST.known[id]++;
}

void checkLater() {
    if (havePending) {
        havePending = false;
        throw pendingV;
    }
}

// ---------------------------------------------------------------- trace

void (*traceSink)(const std::string&) = nullptr;
static uint64_t thash;

uint64_t hstr(const char* s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}

void tr(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::string s = vfmt(fmt, ap);
    va_end(ap);
    thash = hmix(thash, hstr(s.c_str()));
    if (traceSink) traceSink(s);
}

void trBits(uint64_t h) { thash = hmix(thash, h); }

uint64_t traceHash() { return thash; }

// ---------------------------------------------------------------- statistics

RunStats ST;

void (*faultSink)(const char* kind) = nullptr;

void fault(const char* kind) { ST.faults[kind]++; if (faultSink) faultSink(kind); tr("! fault %s", kind); }
void probe(const char* name) { ST.probes[name]++; }
void feature(uint64_t h) { ST.features.insert(h); }
void schedPoint(uint64_t what) { ST.schedHash = hmix(ST.schedHash, what); ST.switches++; }
void simTime(double dt) { if (dt > 0 && dt < 1e9) ST.simSeconds += dt; }
void countCall() { ST.calls++; }

void resetRun() {
    thash = 0;
    havePending = false;
    ST = RunStats();
    seamsReset();
}
