// C04: several instances in one process, each driven by its own simulated thread, switched
// at any memory access of FMU code. Every thread must observe what it observed alone.
#include "props.h"
#include <ucontext.h>
#include <cstdlib>

namespace {

struct Script { Cfg cfg; std::vector<Op> ops; std::vector<Res> res; bool created = false; };

struct Thread {
    ucontext_t ctx;
    char* stack = nullptr;
    bool done = false;
    Script* s = nullptr;
    Instance in;
    size_t pos = 0;
    std::string err;
};

std::vector<Thread*> threads;
ucontext_t mainCtx;
int cur = -1;
int64_t gap = -1;
int budget, maxGap;
uint64_t accs;

int64_t draw() { return budget-- > 0 ? (int64_t)CH.pick((uint64_t)maxGap) : -1; }

void switchAway() {
    Thread* t = threads[(size_t)cur];
    swapcontext(&t->ctx, &mainCtx);
}

void hook(const void*, int, bool) {
    if (cur < 0) return;
    accs++;
    if (gap < 0) return;
    if (gap-- > 0) return;
    switchAway();
}

void body() {
    Thread* t = threads[(size_t)cur];
    Script& s = *t->s;
    try {
        t->in.cfg = s.cfg;
        bool ok = create(t->in);
        if (ok != s.created) t->err = "instantiation differs";
        if (ok) {
            for (; t->pos < s.ops.size() && t->err.empty(); t->pos++) {
                Res r = exec(t->in, s.ops[t->pos]);
                const Res& e = s.res[t->pos];
                std::string why;
                if (!same(s.ops[t->pos], e, r, &why)) t->err = why;
                else if (!(r.logs == e.logs)) t->err = describe(s.ops[t->pos]) + ": different log messages";
            }
            destroy(t->in);
        }
    } catch (Violation& v) {
        t->err = v.code + ": " + v.message;
    }
    t->done = true;
    swapcontext(&t->ctx, &mainCtx);
}

}

void propC04() {
    int n = CH.range(2, 4);
    std::vector<Script> sc((size_t)n);
    bool sameModel = CH.chance(2, 3);
    Weights w = swarm();
    w.maxSteps = std::min(w.maxSteps, 30);
    for (int i = 0; i < n; i++)
        vfs[fmtStr("/unzipped%d/resources/y.txt", i)] = VFile{std::string(1, (char)('A' + i)), true};
    Cfg first;
    std::set<Lib*> used;
    for (int i = 0; i < n; i++) {
        Script& s = sc[(size_t)i];
        if (i && sameModel) s.cfg = genCfg({first.m->name}, first.type == SE ? -1 : CH.chance(1, 2) ? first.type : -1, CH.chance(3, 4) ? first.ver : -1);
        else s.cfg = genCfg();
        if (i == 0) first = s.cfg;
        s.cfg.name = CH.chance(1, 4) ? "same" : fmtStr("thread%d", i);
        s.cfg.res = s.cfg.ver == 2 ? fmtStr("file:///unzipped%d/resources", i) : fmtStr("/unzipped%d/resources/", i);
        used.insert(lib(s.cfg.m, s.cfg.ver));
        // alone, in a process of its own
        for (Lib* l : used) reloadLib(l);
        Instance in;
        in.cfg = s.cfg;
        Track t(s.cfg);
        s.created = create(in);
        if (!s.created) continue;
        int k = CH.range(2, 14);
        for (int j = 0; j < k; j++) {
            Op o = genOp(in, t, w);
            s.ops.push_back(o);
            s.res.push_back(step(in, t, o));
        }
        destroy(in);
    }
    for (Lib* l : used) reloadLib(l);
    tr("--- interleaved");
    threads.clear();
    budget = CH.range(1, 400);
    maxGap = (int[]){30, 300, 4}[CH.weighted({3, 1, 1})];
    for (int i = 0; i < n; i++) {
        Thread* t = new Thread();
        t->s = &sc[(size_t)i];
        t->stack = (char*)malloc(512 * 1024);
        getcontext(&t->ctx);
        t->ctx.uc_stack.ss_sp = t->stack;
        t->ctx.uc_stack.ss_size = 512 * 1024;
        t->ctx.uc_link = nullptr;
        makecontext(&t->ctx, body, 0);
        threads.push_back(t);
    }
    accessHook = hook;
    for (;;) {
        std::vector<int> run;
        for (int i = 0; i < n; i++) if (!threads[(size_t)i]->done) run.push_back(i);
        if (run.empty()) break;
        int next = run.size() > 1 ? CH.of(run) : run[0];
        gap = run.size() > 1 ? draw() : -1;
        if (next != cur) {
            fault("context_switch");
            Thread* t = threads[(size_t)next];
            OpK k = t->pos < t->s->ops.size() ? t->s->ops[t->pos].k : NOPS;
            OpK pk = cur >= 0 && threads[(size_t)cur]->pos < threads[(size_t)cur]->s->ops.size() ? threads[(size_t)cur]->s->ops[threads[(size_t)cur]->pos].k : NOPS;
            schedPoint(hmix(hmix((uint64_t)next, accs), (uint64_t)k));
            feature(hmix(0x150, (uint64_t)k * 64 + (uint64_t)pk));
        }
        cur = next;
        swapcontext(&mainCtx, &threads[(size_t)next]->ctx);
        for (auto t : threads) if (!t->err.empty()) {
            accessHook = nullptr;
            cur = -1;
            fail("interference", "instance %s (%s): %s", t->s->cfg.name.c_str(), t->s->cfg.m->name, t->err.c_str());
        }
    }
    cur = -1;
    accessHook = nullptr;
    checkLater();
}
