#include "ref.h"
#include <cmath>
#include <cfloat>
#include <algorithm>

bool near(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

Pt pointOf(const Cfg& c, const Dims& d, const std::vector<Op>& ops, const std::vector<Res>& res) {
    Pt p;
    for (size_t k = 0; k < ops.size(); k++) {
        const Op& o = ops[k];
        const Res& r = res[k];
        p.bits.insert(p.bits.end(), r.num.begin(), r.num.end());
        p.str.insert(p.str.end(), r.str.begin(), r.str.end());
        size_t pos = 0;
        for (uint32_t vr : o.vr) {
            const Var* var = nullptr;
            for (auto& v : c.m->vars) if (v.vr == vr && v.t == o.t) var = &v;
            size_t n = var ? arraySize(*var, d) : 1;
            if (o.t == F64) {
                std::vector<double> a;
                for (size_t i = 0; i < n; i++) a.push_back(bitsd(r.num[pos + i]));
                if (var && var->dims) p.arr[vr] = a;
                else p.v[vr] = a[0];
                if (vr == 0) p.t = a[0];
            } else if (o.t == I32) p.v[vr] = (double)(int32_t)r.num[pos];
            else if (o.t == BOO) p.v[vr] = (double)(r.num[pos] != 0);
            pos += n;
        }
    }
    return p;
}

Pt readPoint(Instance& in, const Track& t, bool f64Only) {
    std::vector<Op> ops;
    std::vector<Res> res;
    for (auto& o : readAllOps(in.cfg, t.d)) {
        if (f64Only && o.t != F64) continue;
        bool q = quietCalls;
        quietCalls = true;
        Res r = exec(in, o);
        quietCalls = q;
        if (!r.ok()) fail("read", "reading all variables failed: %s", describe(o, r).c_str());
        ops.push_back(o);
        res.push_back(r);
    }
    return pointOf(in.cfg, t.d, ops, res);
}

std::string diff(const Pt& got, const Pt& want, const Cfg& c, const Dims& d, bool f64Only) {
    size_t i = 0, s = 0;
    for (auto& o : readAllOps(c, d)) {
        if (f64Only && o.t != F64) continue;
        for (uint32_t vr : o.vr) {
            const Var* var = nullptr;
            for (auto& v : c.m->vars) if (v.vr == vr && v.t == o.t) var = &v;
            size_t n = var ? arraySize(*var, d) : 1;
            if (o.t == STR || o.t == BIN) {
                if (got.str[s] != want.str[s]) return fmtStr("%s differs", var ? var->name : "?");
                s++;
                continue;
            }
            for (size_t k = 0; k < n; k++, i++)
                if (got.bits[i] != want.bits[i])
                    return o.t == F64 ? fmtStr("%s[%zu] is %.17g instead of %.17g", var ? var->name : "?", k, bitsd(got.bits[i]), bitsd(want.bits[i]))
                                      : fmtStr("%s is %lld instead of %lld", var ? var->name : "?", (long long)got.bits[i], (long long)want.bits[i]);
        }
    }
    return "";
}

std::vector<double> ssDer(const Dims& d, const Pt& p, const std::vector<double>& x) {
    std::vector<double> r((size_t)d.n, 0.0);
    auto& A = p.arr.at(4);
    auto& B = p.arr.at(5);
    auto& u = p.arr.at(9);
    for (int i = 0; i < d.n; i++) {
        for (int j = 0; j < d.n; j++) r[(size_t)i] += A[(size_t)(i * d.n + j)] * x[(size_t)j];
        for (int j = 0; j < d.m; j++) r[(size_t)i] += B[(size_t)(i * d.m + j)] * u[(size_t)j];
    }
    return r;
}

std::vector<double> ssOut(const Dims& d, const Pt& p, const std::vector<double>& x) {
    std::vector<double> r((size_t)d.r, 0.0);
    auto& C = p.arr.at(6);
    auto& D = p.arr.at(7);
    auto& u = p.arr.at(9);
    for (int i = 0; i < d.r; i++) {
        for (int j = 0; j < d.n; j++) r[(size_t)i] += C[(size_t)(i * d.n + j)] * x[(size_t)j];
        for (int j = 0; j < d.m; j++) r[(size_t)i] += D[(size_t)(i * d.m + j)] * u[(size_t)j];
    }
    return r;
}

static void expect(const char* what, double got, double want, double t) {
    if (!near(got, want)) fail("equations", "%s is %.17g at time %.17g, the equations give %.17g", what, got, t, want);
}

static void expectVec(const char* what, const std::vector<double>& got, const std::vector<double>& want, double t) {
    if (got.size() != want.size()) fail("equations", "%s has %zu elements instead of %zu", what, got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++)
        if (!near(got[i], want[i])) fail("equations", "%s[%zu] is %.17g at time %.17g, the equations give %.17g", what, i, got[i], t, want[i]);
}

// missing arrays (size zero) are empty
static Pt complete(const Pt& p) {
    Pt q = p;
    for (uint32_t vr = 4; vr <= 12; vr++) q.arr[vr];
    return q;
}

void checkEquations(const Cfg& c, const Dims& d, const Pt& p) {
    std::string n = c.m->name;
    if (n == "StateSpace") {
        Pt q = complete(p);
        expectVec("der(x)", q.arr[12], ssDer(d, q, q.arr[11]), p.t);
        expectVec("y", q.arr[10], ssOut(d, q, q.arr[11]), p.t);
        return;
    }
    std::vector<double> dx;
    refDerivatives(*c.m, p.v, dx);
    std::vector<uint32_t> ders = derVrs(*c.m);
    for (size_t i = 0; i < dx.size(); i++) expect(c.m->var(ders[i])->name, p.v.at(ders[i]), dx[i], p.t);
    if (n == "Roberts") expect("r", p.v.at(8), p.v.at(2) + p.v.at(4) + p.v.at(6) - 1.0, p.t);
    if (n == "Roberts" && p.v.count(1) && p.v.at(1) == 0) expect("y3", p.v.at(6), 1.0 - p.v.at(2) - p.v.at(4), p.t);
    if (n == "BouncingBall") expect("v_min", p.v.at(7), 0.1, p.t);
}

void checkEuler(const Cfg& c, const Dims& d, const Pt& a, const Pt& b, bool* event, bool handled) {
    std::string n = c.m->name;
    const double h = c.m->h;
    *event = false;
    if (n == "StateSpace") {
        Pt q = complete(a), r = complete(b);
        std::vector<double> x = q.arr[11], dx = ssDer(d, q, x);
        for (size_t i = 0; i < x.size(); i++) x[i] += h * dx[i];
        expectVec("x", r.arr[11], x, b.t);
        return;
    }
    if (n == "Stair") {
        double r = std::round(b.t);
        *event = r >= 1 && std::fabs(b.t - r) < 1e-6;
        expect("counter", b.v.at(1), a.v.at(1) + (*event && handled ? 1 : 0), b.t);
        return;
    }
    std::vector<double> dx;
    refDerivatives(*c.m, a.v, dx);
    std::vector<uint32_t> sv = stateVrs(*c.m);
    if (n == "BouncingBall") {
        double hh = a.v.at(1) + h * dx[0], v = a.v.at(3) + h * dx[1], g = a.v.at(5), e = a.v.at(6);
        bool ev = hh <= 0 && v < 0;
        // too close to call: follow the implementation
        if (std::fabs(hh) < 1e-12 && v < 0) ev = handled ? b.v.at(3) > 0 || (b.v.at(3) == 0 && b.v.at(5) == 0) : b.v.at(1) <= 0;
        *event = ev;
        if (ev && handled) {
            hh = DBL_MIN;
            v = -v * e;
            bool stop = v < 0.1;
            if (std::fabs(v - 0.1) < 1e-9) stop = b.v.at(3) == 0;
            if (stop) v = g = 0;
        }
        expect("h", b.v.at(1), hh, b.t);
        expect("v", b.v.at(3), v, b.t);
        expect("g", b.v.at(5), g, b.t);
        expect("e", b.v.at(6), e, b.t);
        if (ev && handled && !(b.v.at(1) > 0)) fail("equations", "h is %.17g after a bounce", b.v.at(1));
        return;
    }
    for (size_t i = 0; i < sv.size(); i++) expect(c.m->var(sv[i])->name, b.v.at(sv[i]), a.v.at(sv[i]) + h * dx[i], b.t);
}
