// The example simulation programs as a whole (C23): program, importer library and FMU are the
// real code; files, allocator and loader are simulated, fail, and survive a killed process.
#include "props.h"
#include "seams.h"
#include <csetjmp>
#include <dlfcn.h>
#include <unistd.h>

namespace {

struct Prog {
    const char* name;       // of the program
    const char* model;
    int ver;
    const char* out;        // result file, null: none
    double last;            // time of the last row
    int weight;
};

const std::vector<Prog> progs = {
    {"Resource_me", "Resource", 3, "Resource_me_out.csv", 1, 6},
    {"Resource_cs", "Resource", 3, "Resource_cs_out.csv", 1, 6},
    {"Resource_me", "Resource", 2, "Resource_me_out.csv", 1, 6},
    {"Resource_cs", "Resource", 2, "Resource_cs_out.csv", 1, 6},
    {"Feedthrough_me", "Feedthrough", 3, "Feedthrough_me_out.csv", 2, 8},
    {"Feedthrough_cs", "Feedthrough", 3, "Feedthrough_cs_out.csv", 2, 8},
    {"Feedthrough_me", "Feedthrough", 2, "Feedthrough_me_out.csv", 2, 8},
    {"Feedthrough_cs", "Feedthrough", 2, "Feedthrough_cs_out.csv", 2, 8},
    {"Stair_me", "Stair", 3, "Stair_me_out.csv", 9, 6},
    {"Stair_cs", "Stair", 3, "Stair_cs_out.csv", 8.8, 6},
    {"Stair_me", "Stair", 2, "Stair_me_out.csv", 9, 6},
    {"Stair_cs", "Stair", 2, "Stair_cs_out.csv", 9, 6},
    {"Dahlquist_me", "Dahlquist", 3, "Dahlquist_me_out.csv", 10, 1},
    {"Dahlquist_me_nx", "Dahlquist", 3, "Dahlquist_me_out.csv", 10, 6},
    {"Dahlquist_cs", "Dahlquist", 3, "Dahlquist_cs_out.csv", 10, 6},
    {"Dahlquist_me", "Dahlquist", 2, "Dahlquist_me_out.csv", 10, 1},
    {"Dahlquist_me_nx", "Dahlquist", 2, "Dahlquist_me_out.csv", 10, 6},
    {"Dahlquist_cs", "Dahlquist", 2, "Dahlquist_cs_out.csv", 10, 6},
    {"jacobian", "VanDerPol", 3, nullptr, 0, 4},
    {"import_shared_library", "VanDerPol", 3, nullptr, 0, 4},
    {"import_static_library", "VanDerPol", 3, nullptr, 0, 2},
    {"scs_synchronous", "Clocks", 3, "scs_synchronous_out.csv", 9, 8},
    {"cs_reconfiguration", "StateSpace", 3, "cs_reconfiguration_out.csv", 1, 8},
    {"cs_early_return", "BouncingBall", 3, "cs_early_return_out.csv", 2.994, 4},
    {"cs_event_mode", "BouncingBall", 3, "cs_event_mode_out.csv", 2.994, 4},
    {"cs_intermediate_update", "BouncingBall", 3, "cs_intermediate_update_out.csv", 3, 1},
    {"VanDerPol_me", "VanDerPol", 3, "VanDerPol_me_out.csv", 20, 1},
    {"VanDerPol_me_nx", "VanDerPol", 3, "VanDerPol_me_out.csv", 20, 1},
    {"VanDerPol_cs", "VanDerPol", 3, "VanDerPol_cs_out.csv", 20, 1},
    {"VanDerPol_me", "VanDerPol", 2, "VanDerPol_me_out.csv", 20, 1},
    {"VanDerPol_me_nx", "VanDerPol", 2, "VanDerPol_me_out.csv", 20, 1},
    {"VanDerPol_cs", "VanDerPol", 2, "VanDerPol_cs_out.csv", 20, 1},
    {"BouncingBall_me", "BouncingBall", 3, "BouncingBall_me_out.csv", 3, 1},
    {"BouncingBall_me_nx", "BouncingBall", 3, "BouncingBall_me_out.csv", 3, 1},
    {"BouncingBall_cs", "BouncingBall", 3, "BouncingBall_cs_out.csv", 3, 1},
    {"BouncingBall_me", "BouncingBall", 2, "BouncingBall_me_out.csv", 3, 1},
    {"BouncingBall_me_nx", "BouncingBall", 2, "BouncingBall_me_out.csv", 3, 1},
    {"BouncingBall_cs", "BouncingBall", 2, "BouncingBall_cs_out.csv", 3, 1},
    {"StateSpace_me", "StateSpace", 3, "StateSpace_me_out.csv", 10, 1},
    {"StateSpace_me_nx", "StateSpace", 3, "StateSpace_me_out.csv", 10, 1},
    {"StateSpace_cs", "StateSpace", 3, "StateSpace_cs_out.csv", 10, 1},
};

// ---------------------------------------------------------------- the process

jmp_buf killed;
int64_t killIn;             // seam points until the process is killed, -1: never
uint64_t points;

void atPoint(const void*, int kind, bool) {
    points++;
    schedPoint((uint64_t)kind);
    if (killIn < 0) return;
    if (killIn-- > 0) return;
    fault("process_killed");
    longjmp(killed, 1);
}

int lookups;
int lookupFails;            // which symbol lookup fails, -1: none
bool loadFails;
std::set<void*> loaded;

struct Result { bool killed = false; int status = 0; };

// runs the program once, in a process of its own
Result execute(const Prog& p) {
    Lib* l = lib(model(p.model), p.ver);
    reloadLib(l);
    std::string path = fmtStr("%s/ex-%s%d.so", libDir.c_str(), p.name, p.ver);
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "cannot load %s: %s\n", path.c_str(), dlerror()); _exit(3); }
    typedef int Main(int, char**);
    Main* m = (Main*)dlsym(h, "example_main");
    if (!m) { fprintf(stderr, "no main in %s\n", path.c_str()); _exit(3); }
    lookups = 0;
    points = 0;
    loaded.clear();
    std::string want = fmtStr("%s/binaries/%s/%s.so", p.model, p.ver == 2 ? "linux64" : "x86_64-linux", p.model);
    loader.open = [&, want](const char* f) -> void* {
        seamPoint(5);
        if (loadFails) { loadFails = false; fault("load_failure"); return nullptr; }
        tr("  load %s", f);
        if (want != f) { failLater("wrong-library", "the program loads %s", f); return nullptr; }
        loaded.insert(l->h);
        return l->h;
    };
    loader.sym = [&](void* hd, const char* s) -> void* {
        seamPoint(6);
        if (!loaded.count(hd)) { failLater("handle", "%s is looked up in a library that is not loaded", s); return nullptr; }
        if (lookups++ == lookupFails) { lookupFails = -1; fault("symbol_lookup_failure"); tr("  %s is not found", s); return nullptr; }
        return dlsym(hd, s);
    };
    loader.close = [&](void* hd) {
        seamPoint(7);
        if (!loaded.erase(hd)) failLater("handle", "a library that is not loaded was unloaded");
    };
    accessHook = atPoint;
    char name[64];
    snprintf(name, sizeof name, "%s", p.name);
    char* argv[2] = {name, nullptr};
    tr("start %s (FMI %d)", p.name, p.ver);
    countCall();
    Result r;
    // (a jump back, not an exception: there are C frames in between)
    volatile bool back = false;
    if (setjmp(killed) == 0) r.status = m(1, argv);
    else back = true;
    accessHook = nullptr;
    r.killed = back;
    if (r.killed) {
        tr("killed at seam point %llu", (unsigned long long)points);
        crashFiles();
        dropHeap(0);
    } else {
        tr("exit status %d, %zu files open, %zu allocations", r.status, openFiles(), liveAllocs());
    }
    checkLater();
    dlclose(h);
    return r;
}

std::string contents(const Prog& p) { return p.out && vfs.count(p.out) && vfs[p.out].exists ? vfs[p.out].content : ""; }

std::string difference(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return fmtStr("%zu bytes instead of %zu, equal up to byte %zu", a.size(), b.size(), i);
}

// the rows of the result, as the equations of the model give them
void checkRows(const Prog& p, const std::string& file) {
    struct Grid { double h, v, preH, preV; };
    std::vector<Grid> ball;
    std::vector<std::pair<double, double>> vdp;
    std::string m = p.model;
    if (m == "BouncingBall") {
        double h = 1, v = 0, g = -9.81;
        ball.push_back({h, v, h, v});
        for (int i = 1; i <= 3000; i++) {
            double h1 = h + 1e-3 * v, v1 = v + 1e-3 * g;
            h = h1; v = v1;
            if (h <= 0 && v < 0) {
                h = 0;
                v = -0.7 * v;
                if (v < 0.1) v = g = 0;
            }
            ball.push_back({h, v, h1, v1});
        }
    } else if (m == "VanDerPol") {
        double a = 2, b = 0;
        for (int i = 0; i <= 2000; i++) {
            vdp.push_back({a, b});
            double da = b, db = (1 - a * a) * b - a;
            a += 1e-2 * da; b += 1e-2 * db;
        }
    }
    // the programs for Model Exchange with states, as the build makes them
    bool integrates = p.name == m + "_me" && (m == "BouncingBall" || m == "VanDerPol" || m == "Dahlquist" || m == "StateSpace");
    auto eq = [](double x, double y) { return std::fabs(x - y) <= 2e-5 * std::fabs(y) + 2e-5; };
    size_t pos = file.find('\n') + 1, columns = 1, line = 1;
    for (char c : file.substr(0, pos)) columns += c == ',';
    double before = 0;
    static const std::map<std::string, double> gaps = {{"BouncingBall", 1e-3}, {"Dahlquist", 0.1}, {"Feedthrough", 0.1}, {"Resource", 1}, {"Stair", 0.2}, {"StateSpace", 1e-3}, {"VanDerPol", 1e-2}, {"Clocks", 1}, {"cs_early_return", 1e-2}, {"cs_event_mode", 1e-2}, {"cs_reconfiguration", 0.1}};
    const double gap = gaps.at(gaps.count(p.name) ? p.name : m);
    std::vector<double> start;
    while (pos < file.size()) {
        size_t end = file.find('\n', pos);
        std::string row = file.substr(pos, end - pos);
        pos = end + 1;
        line++;
        std::vector<double> f;
        std::vector<std::string> text;
        for (size_t i = 0; i <= row.size();) {
            size_t e = std::min(row.find(',', i), row.size());
            text.push_back(row.substr(i, e - i));
            f.push_back(strtod(text.back().c_str(), nullptr));
            i = e + 1;
        }
        if (m == "Feedthrough" && p.ver == 2 && text.size() == columns + 1 && text[columns - 1].empty()) {
            failUnlessKnown("columns", "line %zu of the result of %s (FMI 2) has an empty column that is not in the header: %s", line, p.name, row.c_str());
            text.erase(text.begin() + (long)columns - 1);
            f.erase(f.begin() + (long)columns - 1);
        }
        if (text.size() != columns) fail("rows", "line %zu of the result of %s has %zu columns: %s", line, p.name, text.size(), row.c_str());
        double t = f[0];
        if (line == 2) start = f;
        bool ok = t >= before && t <= before + gap * 1.01;   // no row is missing
        before = t;
        if (m == "BouncingBall") {
            size_t k = (size_t)std::lround(t / 1e-3);
            ok = ok && k < ball.size() && ((eq(f[1], ball[k].h) && eq(f[2], ball[k].v)) || (eq(f[1], ball[k].preH) && eq(f[2], ball[k].preV)));
        } else if (m == "VanDerPol") {
            size_t k = (size_t)std::lround(t / 1e-2);
            ok = ok && k < vdp.size() && eq(f[1], vdp[k].first) && eq(f[2], vdp[k].second);
        } else if (m == "Dahlquist") {
            ok = ok && eq(f[1], std::pow(0.9, std::round(t / 0.1)));
        } else if (m == "Stair") {
            double c = std::floor(t + 1e-6) + 1;
            ok = ok && (f[1] == c || (f[1] == c - 1 && std::fabs(t - std::round(t)) < 1e-6));
        } else if (m == "Resource") {
            ok = ok && f[1] == 'a';
        } else if (m == "Clocks") {
            static const int want[10][4] = {{1, 1, 0, 2}, {2, 2, 0, 4}, {3, 2, 0, 5}, {4, 2, 0, 6}, {5, 2, 1, 8}, {6, 2, 1, 9}, {7, 2, 1, 10}, {8, 2, 1, 11}, {9, 3, 1, 13}, {10, 4, 1, 15}};
            int k = (int)std::lround(t);
            ok = ok && k >= 0 && k < 10;
            for (size_t i = 0; ok && i < 4; i++) ok = f[i + 1] == want[k][i];
        } else if (m == "StateSpace") {
            std::vector<double> y;
            const char* s = text[1].c_str();
            for (char* e = nullptr;; s = e) {
                double d = strtod(s, &e);
                if (e == s) break;
                y.push_back(d);
            }
            bool re = !strcmp(p.name, "cs_reconfiguration");
            ok = ok && y.size() == (re && t < 0.55 ? 2u : 3u);
            for (size_t i = 0; ok && i < y.size(); i++) ok = eq(y[i], re ? t + (double)i : (double)(i + 1) * std::pow(1.001, std::round(t / 1e-3)));
        } else if (m == "Feedthrough") {
            // what the program sets before each row
            bool me = strstr(p.name, "_me"), late = me ? t > 1 + 1e-6 : t > 1.05;
            double x = me ? t : t - 0.1;
            double c = x < 0.5 + 1e-6 ? 0 : x < 1 ? 2 - 2 * (x - 0.5) : 1;
            if (me && (std::fabs(t - 1) < 1e-6 || std::fabs(t - 0.5) < 1e-6)) continue;   // before or after the event
            size_t fc = p.ver == 2 ? 1 : 3;
            if (p.ver == 2 && late && f[fc + 1] == 0) {
                failUnlessKnown("discrete", "line %zu of the result of %s (FMI 2): the discrete output does not follow its input: %s", line, p.name, row.c_str());
                f[fc + 1] = 1;
            }
            ok = ok && eq(f[fc], c) && eq(f[fc + 1], late ? 1 : 0);
            if (p.ver == 3) ok = ok && eq(f[1], c) && eq(f[2], late ? 1 : 0);
            std::string str = text[columns - (p.ver == 2 ? 2 : 3)];
            if (str[0] == '%') {
                failUnlessKnown("string", "line %zu of the result of %s: there is a %% before the string: %s", line, p.name, row.c_str());
                str.erase(0, 1);
            }
            ok = ok && str == (late ? "\"FMI is still awesome!\"" : t == 0 && !me ? "\"Set me!\"" : "\"FMI is awesome!\"");
            if (p.ver == 3) ok = ok && text[columns - 2] == (late ? "626172" : "666f6f") && text[12] == (late ? "18446744073709551615" : "0");
            ok = ok && text[p.ver == 2 ? 3 : 9] == (late ? "2147483647" : t == 0 && !me ? "0" : "-2147483648");
        }
        if (!ok && integrates && f.size() > 1 && std::equal(f.begin() + 1, f.end(), start.begin() + 1)) {
            failUnlessKnown("states", "line %zu of the result of %s still has the start values of the states: %s", line, p.name, row.c_str());
            return;
        }
        if (!ok) fail("rows", "line %zu of the result of %s is not what the model gives: %s", line, p.name, row.c_str());
    }
}

int64_t point(uint64_t a, uint64_t b, uint64_t c) {
    int k = CH.weighted({3, 2, 1});
    return (int64_t)CH.pick(k == 0 ? a : k == 1 ? b : c);
}

}

void propC23() {
    std::vector<int> w;
    for (auto& p : progs) w.push_back(p.weight);
    const Prog& p = progs[(size_t)CH.weighted(w)];

    // the durable state before the run
    std::string dir = std::string("/work/") + p.model + "/resources";
    vfs[dir + "/y.txt"] = vfs[dir + "//y.txt"] = VFile{"a", true};
    realPath = [&](const std::string& s) { return "/work/" + s; };
    if (p.out && CH.chance(1, 2)) vfs[p.out] = VFile{CH.chance(1, 2) ? "old\n" : std::string(20000 + CH.pick(200000), 'o'), true};

    // what will fail
    killIn = -1;
    lookupFails = -1;
    loadFails = false;
    int n = CH.weighted({2, 6, 2, 1});
    int fileFails = -1, fileKind = 0, files = 0;
    for (int i = 0; i < n; i++) {
        switch (CH.weighted({8, 1, 2, 2, 4, 10, 4, 6})) {
        case 0:
            allocFailIn = point(14, 60, 600);
            if (CH.chance(1, 3)) allocNextFail = []() -> int64_t { return CH.chance(1, 2) ? (int64_t)CH.pick(20) : -1; };
            break;
        case 1: loadFails = true; break;
        case 2: lookupFails = (int)CH.pick(90); break;
        case 3: realPath = [](const std::string&) -> std::string { fault("realpath_failure"); return ""; }; break;
        case 4: fileFails = (int)CH.pick(4); fileKind = 1 + (int)CH.pick(3); break;
        case 5:
            writeLimit = point(30, 3000, 60000);
            writeRecovers = CH.chance(1, 4);
            break;
        case 6: closeFails = (int)CH.pick(3); break;
        default: killIn = point(50, 200, 1000);
        }
    }
    fileFault = [&](const std::string&) -> int { return files++ == fileFails ? fileKind : 0; };

    Result r = execute(p);
    uint64_t fired = 0;
    for (auto& e : ST.faults) fired += e.second;
    bool writeFailed = ST.faults.count("write_failure") || ST.faults.count("close_failure");
    std::string got = contents(p);
    uint64_t ff = hstr(p.name);
    for (auto& e : ST.faults) ff = hmix(ff, hstr(e.first.c_str()));
    feature(hmix(hmix(ff, (uint64_t)p.ver), r.killed ? 99 : (uint64_t)r.status));

    // no more faults
    allocFailIn = -1;
    allocNextFail = nullptr;
    killIn = -1;
    lookupFails = -1;
    loadFails = false;
    fileFault = nullptr;
    writeLimit = -1;
    closeFails = -1;
    realPath = [&](const std::string& s) { return "/work/" + s; };

    if (!r.killed) {
        if (openFiles()) fail("file-leak", "%zu files are open at the end of %s", openFiles(), p.name);
        if (r.status != 4 && liveAllocs()) fail("leak", "%zu allocations remain at the end of %s:%s", liveAllocs(), p.name, describeLive().c_str());
        if (!fired && r.status != 0) failUnlessKnown("refused", "%s fails with exit status %d although nothing failed", p.name, r.status);
        if (r.status != 0) probe("failure_reported");
        else if (fired) probe("fault_survived");
    }
    dropHeap(0);
    if (!r.killed && r.status != 0 && !CH.chance(1, 4)) return;

    // the next run, from the durable state
    if (CH.chance(1, 3) && p.out) vfs.erase(p.out);
    Result s = execute(p);
    if (s.status != 0) failUnlessKnown("restart", "%s fails with exit status %d after the faults have ended", p.name, s.status);
    if (openFiles() || liveAllocs()) fail("leak", "%zu files and %zu allocations remain at the end of %s", openFiles(), liveAllocs(), p.name);
    if (!p.out || s.status != 0) return;
    std::string whole = contents(p);
    trBits(hstr(whole.c_str()));
    simTime(p.last);
    // complete: the last row is the one of the stop time
    size_t row = whole.size() > 1 ? whole.rfind('\n', whole.size() - 2) : std::string::npos;
    if (row == std::string::npos || whole.back() != '\n') fail("incomplete", "the result file of %s does not end with a row", p.name);
    double last = strtod(whole.c_str() + row + 1, nullptr);
    if (!(std::fabs(last - p.last) <= 1e-3 * p.last)) fail("incomplete", "the last row of the result file of %s is for time %g, not %g", p.name, last, p.last);
    checkRows(p, whole);
    if (r.killed) {
        probe("restarted");
        // what the killed run left is a beginning of the result, or what was there before
        if (!got.empty() && got.compare(0, 3, "old") != 0 && got[0] != 'o' && whole.compare(0, got.size(), got) != 0)
            fail("torn", "the result file left by a killed %s is not a beginning of the complete one: %s", p.name, difference(got, whole).c_str());
    } else if (r.status == 0 && got != whole) {
        failUnlessKnown("result", "%s reports success but its result file is not the complete one: %s%s", p.name, difference(got, whole).c_str(), writeFailed ? " (a write failed)" : "");
    }
}
