// Command line of the simulator.
//   sim run PROPERTY SEED START STRIDE COUNT SECONDS LIBDIR OUT     search (worker)
//   sim one PROPERTY LIBDIR FILE [-v]                               one recorded execution
//   sim shrink PROPERTY LIBDIR IN OUT SECONDS                       minimise a recorded execution
// FILE, IN and OUT hold one choice per line.
#include "core.h"
#include "fmu.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <cstdlib>
#include <algorithm>
#include <unordered_set>

static const uint64_t MAXCHOICES = 400000;
static const size_t MAXFEAT = 20000;

struct Shared {
    volatile uint64_t done;          // 1: finished, property held; 2: violation
    uint64_t hash, schedHash, switches, calls;
    double simSeconds;
    char code[64];
    char message[4000];
    uint64_t nFeat;
    uint64_t feat[MAXFEAT];
    struct { char name[64]; uint64_t count; } faults[64];   // (counted as they happen: the run may crash)
    uint64_t nFaults;
    char counters[16384];            // "p name count\n" / "k name count\n"
    uint64_t nTrace;
    char trace[1 << 20];
    uint64_t nChoices;
    uint64_t choices[MAXCHOICES];
};

static Shared* sh;
static int errFd;
static int cpuLimit = 8;

struct Outcome {
    bool violation = false;
    std::string code, message;
    std::vector<uint64_t> choices;
};

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

static void child(const PropDef* p, uint64_t seed, const std::vector<uint64_t>* list) {
    struct itimerval tv = {{0, 0}, {cpuLimit, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(errFd, 2);
    choiceSink = sh->choices;
    choiceSinkCount = &sh->nChoices;
    choiceSinkMax = MAXCHOICES;
    faultSink = [](const char* kind) {
        uint64_t i = 0;
        while (i < sh->nFaults && strcmp(sh->faults[i].name, kind)) i++;
        if (i == sh->nFaults) {
            if (i == sizeof sh->faults / sizeof sh->faults[0]) return;
            snprintf(sh->faults[i].name, sizeof sh->faults[i].name, "%s", kind);
            sh->faults[i].count = 0;
            sh->nFaults++;
        }
        sh->faults[i].count++;
    };
    resetRun();
    if (list) CH.load(*list);
    else CH.seed(seed);
    uint64_t result = 1;
    try {
        p->fn();
        checkLater();
    } catch (Violation& v) {
        snprintf(sh->code, sizeof sh->code, "%s", v.code.c_str());
        snprintf(sh->message, sizeof sh->message, "%s", v.message.c_str());
        tr("VIOLATION %s: %s", v.code.c_str(), v.message.c_str());
        result = 2;
    } catch (std::exception& e) {
        // an answer of the code under test that no model of the simulator can interpret
        snprintf(sh->code, sizeof sh->code, "uninterpretable");
        snprintf(sh->message, sizeof sh->message, "the results could not be interpreted: %s", e.what());
        tr("VIOLATION uninterpretable: %s", e.what());
        result = 2;
    }
    sh->hash = hmix(traceHash(), ST.schedHash);
    sh->schedHash = ST.schedHash;
    sh->switches = ST.switches;
    sh->calls = ST.calls;
    sh->simSeconds = ST.simSeconds;
    for (uint64_t f : ST.features) if (sh->nFeat < MAXFEAT) sh->feat[sh->nFeat++] = f;
    std::string c;
    for (auto& e : ST.probes) c += fmtStr("p %s %llu\n", e.first.c_str(), (unsigned long long)e.second);
    for (auto& e : ST.known) c += fmtStr("k %s %llu\n", e.first.c_str(), (unsigned long long)e.second);
    snprintf(sh->counters, sizeof sh->counters, "%s", c.c_str());
    sh->done = result;
    _exit(0);
}

static std::string scrub(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size();) {
        if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') {
            r += "0x?";
            i += 2;
            while (i < s.size() && isxdigit((unsigned char)s[i])) i++;
        } else r += s[i++];
    }
    return r;
}

static Outcome runOne(const PropDef* p, uint64_t seed, const std::vector<uint64_t>* list) {
    sh->done = 0;
    sh->hash = sh->schedHash = sh->switches = sh->calls = 0;
    sh->simSeconds = 0;
    sh->nFeat = sh->nTrace = sh->nChoices = sh->nFaults = 0;
    sh->code[0] = sh->message[0] = sh->counters[0] = 0;
    if (ftruncate(errFd, 0)) {}
    lseek(errFd, 0, SEEK_SET);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) child(p, seed, list);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    Outcome o;
    if (sh->done == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.violation = true;
    o.choices.assign(sh->choices, sh->choices + sh->nChoices);
    if (sh->done == 2) {
        o.code = sh->code;
        o.message = sh->message;
        return o;
    }
    // the run ended abnormally
    sh->hash = sh->nTrace ? hstr(std::string(sh->trace, sh->nTrace).c_str()) : 0;
    char buf[8192];
    lseek(errFd, 0, SEEK_SET);
    ssize_t n = read(errFd, buf, sizeof buf - 1);
    buf[n > 0 ? n : 0] = 0;
    std::string e = buf;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        o.code = "memory-error";
        size_t k = e.find("ERROR: AddressSanitizer: ");
        std::string kind = k == std::string::npos ? "" : e.substr(k + 25, e.find_first_of(" \n", k + 25) - k - 25);
        std::string frames;
        size_t pos = 0;
        int cnt = 0;
        while (cnt < 4 && (pos = e.find("    #", pos)) != std::string::npos) {
            size_t in = e.find(" in ", pos), eol = e.find('\n', pos);
            if (in != std::string::npos && in < eol) { frames += " <- " + e.substr(in + 4, eol - in - 4); cnt++; }
            pos = eol;
        }
        o.message = scrub("address sanitizer: " + kind + frames);
        if (kind == "SEGV") o.code = "crash";
    } else if (WIFSIGNALED(st)) {
        int sig = WTERMSIG(st);
        o.code = sig == SIGPROF ? "hang" : "crash";
        o.message = sig == SIGPROF ? fmtStr("the call did not return within %d s of CPU time", cpuLimit) : fmtStr("terminated by signal %d (%s)", sig, strsignal(sig));
        if (sig == SIGKILL) o.code = "error";
    } else {
        o.code = "crash";
        o.message = fmtStr("exit status %d", WEXITSTATUS(st)) + " " + scrub(e.substr(0, 300));
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) o.code = "error";
    }
    return o;
}

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) r += fmtStr("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}

static uint64_t mix(uint64_t seed, uint64_t i) {
    uint64_t z = seed * 0x9e3779b97f4a7c15ull + i * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static std::vector<uint64_t> readChoices(const char* f) {
    std::vector<uint64_t> v;
    FILE* fp = fopen(f, "r");
    if (!fp) { perror(f); exit(3); }
    unsigned long long u;
    while (fscanf(fp, "%llu", &u) == 1) v.push_back(u);
    fclose(fp);
    return v;
}

static void writeChoices(const char* f, const std::vector<uint64_t>& v) {
    FILE* fp = fopen(f, "w");
    for (uint64_t u : v) fprintf(fp, "%llu\n", (unsigned long long)u);
    fclose(fp);
}

static int cmdRun(char** a) {
    const PropDef* p = findProp(a[0]);
    uint64_t seed = strtoull(a[1], nullptr, 10), start = strtoull(a[2], nullptr, 10), stride = strtoull(a[3], nullptr, 10), count = strtoull(a[4], nullptr, 10);
    double wall = atof(a[5]);
    const char* out = a[7];
    const char* listHashes = getenv("SIM_HASHES");
    std::map<std::string, uint64_t> faults, probes, faultRuns, known;
    std::unordered_set<uint64_t> feats, scheds, hashes;
    uint64_t runs = 0, calls = 0, switches = 0, choices = 0, faultyRuns = 0;
    double simS = 0, t0 = now();
    std::string viol = "[", hl = "[", samples = "[";
    int nviol = 0;
    std::map<std::string, int> perCode;
    for (uint64_t i = start; i < count; i += stride) {
        if (now() - t0 > wall) break;
        uint64_t s = mix(seed, i);
        Outcome o = runOne(p, s, nullptr);
        runs++;
        calls += sh->calls;
        switches += sh->switches;
        choices += sh->nChoices;
        simS += sh->simSeconds;
        for (uint64_t k = 0; k < sh->nFaults; k++) {
            faults[sh->faults[k].name] += sh->faults[k].count;
            faultRuns[sh->faults[k].name]++;
        }
        for (char* l = strtok(sh->counters, "\n"); l; l = strtok(nullptr, "\n")) {
            char nm[200];
            unsigned long long n;
            if (sscanf(l + 2, "%199s %llu", nm, &n) != 2) continue;
            if (l[0] == 'k') known[nm]++;
            else probes[nm] += n;
        }
        faultyRuns += sh->nFaults > 0;
        for (uint64_t k = 0; k < sh->nFeat; k++) feats.insert(sh->feat[k]);
        scheds.insert(sh->schedHash);
        hashes.insert(sh->hash);
        if (listHashes) hl += fmtStr("%s[%llu, \"%016llx\"]", hl.size() > 1 ? "," : "", (unsigned long long)i, (unsigned long long)sh->hash);
        if (runs <= 2) samples += fmtStr("%s{\"index\": %llu, \"seed\": \"%016llx\", \"choices\": %llu, \"calls\": %llu, \"hash\": \"%016llx\"}", samples.size() > 1 ? "," : "", (unsigned long long)i, (unsigned long long)s, (unsigned long long)sh->nChoices, (unsigned long long)sh->calls, (unsigned long long)sh->hash);
        const char* id = o.violation ? knownFinding(o.code, o.message) : nullptr;
        if (id) known[id]++;
        else if (o.violation) {
            // keep a few per kind
            if (perCode[o.code]++ < 3) {
                std::string cf = fmtStr("%s.v%d", out, nviol);
                writeChoices(cf.c_str(), o.choices);
                viol += fmtStr("%s{\"index\": %llu, \"seed\": \"%016llx\", \"code\": %s, \"message\": %s, \"choices\": %s, \"hash\": \"%016llx\"}", nviol ? "," : "", (unsigned long long)i, (unsigned long long)s, jstr(o.code).c_str(), jstr(o.message).c_str(), jstr(cf).c_str(), (unsigned long long)sh->hash);
                nviol++;
            }
            if (nviol >= 8 || perCode[o.code] >= 20 || o.code == "hang") break;
        }
    }
    FILE* fp = fopen(out, "w");
    fprintf(fp, "{\"runs\": %llu, \"calls\": %llu, \"switches\": %llu, \"choices\": %llu, \"sim_seconds\": %.9g, \"faulty_runs\": %llu, \"wall\": %.3f,\n", (unsigned long long)runs, (unsigned long long)calls, (unsigned long long)switches, (unsigned long long)choices, simS, (unsigned long long)faultyRuns, now() - t0);
    auto dump = [&](const char* n, const std::map<std::string, uint64_t>& m) {
        fprintf(fp, "\"%s\": {", n);
        bool first = true;
        for (auto& e : m) { fprintf(fp, "%s%s: %llu", first ? "" : ", ", jstr(e.first).c_str(), (unsigned long long)e.second); first = false; }
        fprintf(fp, "},\n");
    };
    auto dumpSet = [&](const char* n, const std::unordered_set<uint64_t>& m) {
        fprintf(fp, "\"%s\": [", n);
        bool first = true;
        for (uint64_t u : m) { fprintf(fp, "%s%llu", first ? "" : ",", (unsigned long long)u); first = false; }
        fprintf(fp, "],\n");
    };
    dump("faults", faults);
    dump("fault_runs", faultRuns);
    dump("probes", probes);
    dump("known", known);
    dumpSet("features", feats);
    dumpSet("schedules", scheds);
    dumpSet("hashes", hashes);
    fprintf(fp, "\"hash_list\": %s],\n\"samples\": %s],\n\"violations\": %s]}\n", hl.c_str(), samples.c_str(), viol.c_str());
    fclose(fp);
    return 0;
}

static int cmdOne(int argc, char** a) {
    const PropDef* p = findProp(a[0]);
    std::vector<uint64_t> c = readChoices(a[2]);
    // (in shared memory: the trace of a run that crashes is complete too)
    traceSink = [](const std::string& s) {
        if (sh->nTrace + s.size() + 1 >= sizeof sh->trace) return;
        memcpy(sh->trace + sh->nTrace, s.data(), s.size());
        sh->nTrace += s.size();
        sh->trace[sh->nTrace++] = '\n';
    };
    Outcome o = runOne(p, 0, &c);
    bool v = argc > 3;
    printf("{\"violation\": %s, \"code\": %s, \"message\": %s, \"hash\": \"%016llx\", \"trace\": [", o.violation ? "true" : "false", jstr(o.code).c_str(), jstr(o.message).c_str(), (unsigned long long)sh->hash);
    std::string t(sh->trace, sh->nTrace);
    size_t pos = 0;
    bool first = true;
    while (pos < t.size()) {
        size_t e = t.find('\n', pos);
        if (e == std::string::npos) e = t.size();
        printf("%s%s", first ? "" : ",\n", jstr(t.substr(pos, e - pos)).c_str());
        first = false;
        pos = e + 1;
    }
    printf("]}\n");
    (void)v;
    return 0;
}

static int cmdShrink(char** a) {
    const PropDef* p = findProp(a[0]);
    std::vector<uint64_t> best = readChoices(a[2]);
    double limit = now() + atof(a[4]);
    cpuLimit = 3;
    Outcome o0 = runOne(p, 0, &best);
    if (!o0.violation) { fprintf(stderr, "does not reproduce\n"); return 4; }
    const std::string code = o0.code;
    int attempts = 0;
    auto bad = [&](const std::vector<uint64_t>& c) {
        attempts++;
        Outcome o = runOne(p, 0, &c);
        return o.violation && o.code == code && !knownFinding(o.code, o.message);
    };
    auto timeUp = [&]() { return now() > limit || attempts > 4000; };
    // drop unused tail
    auto trim = [&]() { while (!best.empty() && best.back() == 0) best.pop_back(); };
    bool progress = true;
    while (progress && !timeUp()) {
        progress = false;
        // truncate
        for (size_t cut = best.size() / 2; cut >= 1 && !timeUp();) {
            if (cut <= best.size()) {
                std::vector<uint64_t> c(best.begin(), best.end() - (long)cut);
                if (bad(c)) { best = c; progress = true; continue; }
            }
            cut /= 2;
        }
        trim();
        // delete chunks
        for (size_t w = std::max<size_t>(1, best.size() / 2); w >= 1 && !timeUp(); w /= 2) {
            for (size_t i = best.size(); i-- > 0 && !timeUp();) {
                if (w > 1 && i % std::max<size_t>(1, w / 2)) continue;
                if (i + w > best.size()) continue;
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + w));
                if (bad(c)) { best = c; progress = true; }
            }
            if (w == 1) break;
        }
        // smaller values
        for (size_t i = 0; i < best.size() && !timeUp(); i++) {
            if (!best[i]) continue;
            std::vector<uint64_t> c = best;
            c[i] = 0;
            if (bad(c)) { best = c; progress = true; continue; }
            uint64_t lo = 0, hi = best[i];
            while (hi - lo > 1 && !timeUp()) {
                uint64_t mid = lo + (hi - lo) / 2;
                c[i] = mid;
                if (bad(c)) { best = c; hi = mid; progress = true; } else lo = mid;
            }
        }
        trim();
    }
    writeChoices(a[3], best);
    printf("{\"attempts\": %d, \"choices\": %zu}\n", attempts, best.size());
    return 0;
}

void preloadImporter();

int main(int argc, char** argv) {
    if (argc < 4) { fprintf(stderr, "usage: sim run|one|shrink ...\n"); return 3; }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    errFd = memfd_create("stderr", 0);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    std::string cmd = argv[1];
    if (!findProp(argv[2])) { fprintf(stderr, "unknown property %s\n", argv[2]); return 3; }
    libDir = cmd == "run" ? argv[8] : argv[3];
    preloadLibs();
    preloadImporter();
    if (cmd == "run") return cmdRun(argv + 2);
    if (cmd == "one") return cmdOne(argc - 2, argv + 2);
    if (cmd == "shrink") return cmdShrink(argv + 2);
    return 3;
}
