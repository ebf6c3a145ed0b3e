// Core of the simulator: seeded choices, trace, violations and run statistics.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

// ---------------------------------------------------------------- choices

// Every nondeterministic decision of a run is one call of pick(). In search mode the
// value comes from the seeded generator, in replay mode from a recorded list (0 when
// the list is exhausted). By convention 0 is the simplest alternative, so that a list
// can be minimised by shortening it and making its entries smaller.
class Chooser {
public:
    void seed(uint64_t s) { replay = false; st = s; log.clear(); }
    void load(const std::vector<uint64_t>& l) { replay = true; src = l; pos = 0; log.clear(); }
    uint64_t pick(uint64_t n);                  // 0 .. n-1
    bool chance(unsigned num, unsigned den);    // true with probability num/den; false is "simple"
    int range(int lo, int hi) { return lo + (int)pick((uint64_t)(hi - lo + 1)); }
    int weighted(const std::vector<int>& w);    // index, by weight
    // loop control: at least lo and at most hi rounds, uniformly; one choice per round, so
    // that a round can be cut out of the list together with the choice that asked for it
    bool again(int i, int lo, int hi) { return i < lo || (i < hi && pick((uint64_t)(hi - i + 1)) != 0); }
    template <class T> const T& of(const std::vector<T>& v) { return v[pick(v.size())]; }
    uint64_t bits(int n) { return n >= 64 ? pick(0) : pick(1ull << n); }  // pick(0) = full 64 bit
    std::vector<uint64_t> log;
    bool replay = false;
private:
    uint64_t next();
    uint64_t st = 0;
    std::vector<uint64_t> src;
    size_t pos = 0;
};
extern Chooser CH;
// where choices are also stored so that they survive a crash of the run
extern uint64_t* choiceSink;
extern uint64_t* choiceSinkCount;
extern uint64_t choiceSinkMax;

// ---------------------------------------------------------------- violations

struct Violation { std::string code, message; };
[[noreturn]] void fail(const char* code, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// to be used inside callbacks that are called by code under test (no unwinding through it)
void failLater(const char* code, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void checkLater();   // throws what failLater recorded
// a violation after which the run can go on if it is a known finding
void failUnlessKnown(const char* code, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// the known finding a violation belongs to, or null (the findings of the property are in SIM_KNOWN)
const char* knownFinding(const std::string& code, const std::string& message);

// ---------------------------------------------------------------- trace

// One line per event. The hash covers everything; the text is kept only when wanted.
void tr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void trBits(uint64_t h);   // into the hash only
extern void (*traceSink)(const std::string&);   // null: the text is not kept
extern void (*faultSink)(const char* kind);
uint64_t traceHash();

// ---------------------------------------------------------------- statistics

void fault(const char* kind);                    // a fault was actually injected
void probe(const char* name);                    // a rare condition was reached
void feature(uint64_t h);                        // abstract state or transition seen
void schedPoint(uint64_t what);                  // contributes to the interleaving hash
void simTime(double dt);                         // simulated seconds
void countCall();                                // a call into real code
struct RunStats {
    std::map<std::string, uint64_t> faults, probes, known;
    std::set<uint64_t> features;
    uint64_t schedHash = 1469598103934665603ull, switches = 0, calls = 0;
    double simSeconds = 0;
};
extern RunStats ST;

inline uint64_t hmix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}
uint64_t hstr(const char* s);

std::string fmtStr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string dstr(double d);
inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }

// ---------------------------------------------------------------- properties

typedef void (*PropFn)();
struct PropDef { const char* id; PropFn fn; };
const PropDef* findProp(const char* id);
void resetRun();   // called at the start of every run
