// The Resource FMU and its file (C13): files appear, disappear and fail; what is read must
// be the first character of the right file.
#include "props.h"

namespace {

const char* hex = "0123456789ABCDEF";
const char* hexl = "0123456789abcdef";

std::string encode(const std::string& p, bool everything) {
    std::string r;
    for (unsigned char ch : p) {
        bool plain = isalnum(ch) || ch == '/' || ch == '-' || ch == '_' || ch == '.' || ch == '~';
        if (plain && !(everything && ch != '/' && CH.chance(1, 3))) { r += (char)ch; continue; }
        const char* h = CH.chance(1, 2) ? hexl : hex;
        r += '%';
        r += h[ch >> 4];
        r += h[ch & 15];
    }
    return r;
}

// a directory of the simulated file system, without a slash at the end
std::string genDir() {
    std::string d = "/";
    int style = CH.weighted({4, 3, 2});
    size_t len = style == 0 ? 4 + CH.pick(20) : style == 1 ? CH.pick(200) + 1 : 3900 + CH.pick(400);
    if (style == 2) {
        // around the limit of the path buffer
        if (CH.chance(2, 3)) len = 4080 + CH.pick(24);
        unsigned x = (unsigned)CH.pick(26);
        for (size_t i = 0; i < len; i++) d += i % 100 == 99 ? '/' : (char)('a' + (x + i) % 26);
        probe("long_location");
    } else {
        static const char chars[] = "abcxyzABC019-_. %#?+&=@()[]{}~!$',;\xc3\xa4\xe2\x82\xac";
        for (size_t i = 0; i < std::min(len, (size_t)24); i++) d += CH.chance(1, 6) && d.back() != '/' ? '/' : chars[CH.pick(sizeof chars - 1)];
        while (d.size() < len) d += 'q';
    }
    while (d.size() > 1 && d.back() == '/') d.pop_back();
    if (d == "/") d = "/d";
    return d;
}

struct Site {
    Instance in;
    Track t;
    std::string file;       // what the location means
    char first;
    bool readable = true;   // location short enough to be accepted
    explicit Site(const Cfg& c) : t(c) { in.cfg = c; }
};

}

void propC13() {
    int n = 1 + CH.weighted({3, 1});
    std::vector<Site*> sites;
    static const char firsts[] = "aZ09 \t\n\r\x01\x7f%/";
    for (int i = 0; i < n; i++) {
        Cfg c = genCfg({"Resource"});
        c.name = fmtStr("instance%d", i);
        std::string dir = genDir();
        Site* s = new Site(c);
        s->first = CH.chance(1, 2) ? firsts[CH.pick(sizeof firsts - 1)] : (char)(1 + CH.pick(127));
        if (c.ver == 3) s->in.cfg.res = dir + "/";
        else {
            bool all = CH.chance(1, 3);
            s->in.cfg.res = std::string(CH.chance(1, 2) ? "file://" : "file:") + encode(dir, all);
        }
        s->file = dir + "/y.txt";
        s->readable = s->in.cfg.res.size() <= 4000;
        s->t.cfg = s->in.cfg;
        // what a wrong or truncated path would find instead
        for (size_t k = 4089; k <= 4097; k++) if (s->file.size() > k) vfs[s->file.substr(0, k)] = VFile{"#", true};
        vfs["y.txt"] = vfs["/y.txt"] = VFile{"#", true};
        if (c.ver == 2) {
            std::string raw = s->in.cfg.res.substr(5);
            for (const std::string& p : {raw + "/y.txt", s->in.cfg.res + "/y.txt", raw.substr(0, 4095)}) vfs[p] = VFile{"#", true};
        }
        if (s->first == '#') s->first = 'x';
        sites.push_back(s);
    }
    for (auto s : sites) vfs[s->file] = VFile{std::string(1, s->first) + "bc", true};
    for (size_t i = 1; i < sites.size(); i++) if (sites[i]->file == sites[0]->file) sites[i]->first = sites[0]->first;
    for (auto s : sites) vfs[s->file] = VFile{std::string(1, s->first) + (CH.chance(1, 2) ? "bc" : ""), true};

    unsigned rate = (unsigned)(int[]){0, 2, 5}[CH.weighted({2, 2, 1})];
    uint64_t fired = 0;
    bool on = true;
    fileFault = [&](const std::string&) -> int {
        if (!on || !rate || !CH.chance(rate, 10)) return 0;
        fired++;
        return 1 + (int)CH.pick(3);
    };
    if (CH.chance(1, 10)) {
        // locations that cannot be used at all
        Instance bad;
        bad.cfg = sites[0]->in.cfg;
        bad.cfg.name = "bad";
        static const char* locs[] = {"http://host/resources", "ftp:/x", "", "resources", "fil", "FILE", "file:"};
        bad.cfg.res = bad.cfg.ver == 2 ? locs[CH.pick(7)] : "/no/such/dir/";
        on = false;
        bool malformed = bad.cfg.ver == 2 && CH.chance(1, 2);
        if (malformed) {
            // a broken escape sequence: what it means is open, but nothing else may be touched
            bad.cfg.res = std::string("file:/") + std::string((size_t)CH.range(1, CH.chance(1, 2) ? 30 : 4110), 'm') + CH.of<std::string>({"%", "%4", "%zz", "%%", "%4%"});
            probe("broken_escape_sequence");
        }
        fault("unusable_location");
        if (create(bad)) {
            Track t(bad.cfg);
            Res r = step(bad, t, Op{OEnterInit});
            if (r.ok()) {
                Op o{OGet};
                o.t = I32;
                o.vr = {1};
                o.n = 1;
                r = step(bad, t, o);
                if (r.ok() && !malformed) fail("accepted", "y could be read although the resource location is \"%s\"", bad.cfg.res.c_str());
            }
            destroy(bad);
        }
        on = true;
    }
    for (auto s : sites) if (!create(s->in)) fail("setup", "instantiation failed");

    Op get{OGet};
    get.t = I32;
    get.vr = {1};
    get.n = 1;
    auto run = [&](Site& s, const Op& o) {
        uint64_t before = fired;
        bool there = vfs[s.file].exists && !vfs[s.file].content.empty();
        Res r = step(s.in, s.t, o);
        if (openFiles()) fail("file-leak", "%zu files are open after %s", openFiles(), describe(o).c_str());
        if (!r.ok()) {
            bool disc = r.status == 2;
            if (!disc && there && fired == before && s.readable) fail("refused", "%s although the file is there", describe(o, r).c_str());
            s.t.mode = Term_;
            if (fired != before || !there) probe("failure_reported");
            return false;
        }
        if (o.k == OGet && o.t == I32) {
            if ((int32_t)r.num.at(0) != (int32_t)s.first)
                fail("value", "y is %d, the first character of the file is %d (file %s, %s)", (int)(int32_t)r.num[0], (int)s.first, there ? "there" : "missing or empty", fired != before ? "the read failed" : "no read failed");
            probe("value_read");
        }
        return true;
    };
    Weights w = swarm();
    w.illegal = w.term = 0;
    for (int i = 0; CH.again(i, 4, 30); i++) {
        Site& s = *sites[n > 1 ? CH.pick(2) : 0];
        switch (CH.weighted({5, 4, 1})) {
        case 0:
            if (s.t.mode == Inst_ && s.in.cfg.ver == 2) { run(s, Op{OEnterInit}); break; }
            run(s, get);
            break;
        case 1: {
            Op o = genOp(s.in, s.t, w);
            if (o.k == OStatus) break;
            run(s, o);
            break;
        }
        default: {
            VFile& f = vfs[s.file];
            switch (CH.pick(3)) {
            case 0: f.exists = !f.exists; if (!f.exists) fault("file_missing"); else probe("file_back"); break;
            case 1: f.content.clear(); fault("file_empty"); break;
            default: f.exists = true; f.content = std::string(1, s.first); probe("file_back");
            }
        }
        }
        if (s.t.mode == Term_) {
            Res r = step(s.in, s.t, Op{OReset});
            if (!r.ok()) fail("reset", "Reset failed");
        }
    }
    // recovery: with the file back and without faults everything works
    on = false;
    for (auto s : sites) vfs[s->file] = VFile{std::string(1, s->first) + "z", true};
    for (auto s : sites) {
        if (!s->readable) continue;
        if (s->t.mode != Inst_) { Res r = step(s->in, s->t, Op{OReset}); if (!r.ok()) fail("reset", "Reset failed"); }
        if (!run(*s, Op{OEnterInit})) fail("recovery", "initialization failed after the faults ended");
        if (!run(*s, get)) fail("recovery", "reading y failed after the faults ended");
        if (!run(*s, Op{OExitInit})) fail("recovery", "initialization failed after the faults ended");
    }
    for (auto s : sites) destroy(s->in);
    if (liveAllocs()) fail("leak", "after freeing the instances %zu allocations remain:%s", liveAllocs(), describeLive().c_str());
    fileFault = nullptr;
    for (auto s : sites) delete s;
}
