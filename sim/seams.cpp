#include "seams.h"
#include <cerrno>
#include <cstdlib>
#include <dlfcn.h>
#include <unordered_map>
#include <algorithm>

// ---------------------------------------------------------------- allocator

namespace {
struct Rec { size_t size; int owner; uint64_t seq; };
std::unordered_map<const void*, Rec>* tab;
uint64_t nCalls, nFailed;
uint64_t seqNo;
}

int allocOwner;
int64_t allocFailIn = -1;
std::function<int64_t()> allocNextFail;

static std::unordered_map<const void*, Rec>& T() {
    if (!tab) tab = new std::unordered_map<const void*, Rec>();
    return *tab;
}

AllocStats allocStats() { return {nCalls, nFailed, T().size()}; }

size_t liveAllocs(int owner) {
    if (owner < 0) return T().size();
    size_t n = 0;
    for (auto& e : T()) n += e.second.owner == owner;
    return n;
}

std::string describeLive() {
    std::vector<Rec> v;
    for (auto& e : T()) v.push_back(e.second);
    std::sort(v.begin(), v.end(), [](const Rec& a, const Rec& b) { return a.seq < b.seq; });
    std::string s;
    for (auto& r : v) s += fmtStr(" [allocation %llu, %zu bytes]", (unsigned long long)r.seq, r.size);
    return s;
}

bool isLive(const void* p) { return T().count(p) > 0; }

AccessHook accessHook;
void seamPoint(int kind) { if (accessHook) accessHook(nullptr, kind, false); }

static bool failNow() {
    nCalls++;
    if (nCalls > 3000000) failLater("livelock", "more than 3 million allocations in one run");
    if (allocFailIn < 0) return false;
    if (allocFailIn > 0) { allocFailIn--; return false; }
    nFailed++;
    fault("allocation_failure");
    allocFailIn = allocNextFail ? allocNextFail() : -1;
    errno = ENOMEM;
    return true;
}

static void* give(size_t n, int fill) {
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    memset(p, fill, n);
    T()[p] = Rec{n, allocOwner, ++seqNo};
    return p;
}

static void take(void* p) {
    auto it = T().find(p);
    if (it != T().end()) {
        memset(p, 0xDD, it->second.size);
        T().erase(it);
    }
    free(p);   // an unknown pointer reaches the real allocator, which detects misuse
}

void dropHeap(int owner) {
    std::vector<void*> v;
    for (auto& e : T()) if (e.second.owner == owner) v.push_back(const_cast<void*>(e.first));
    for (void* p : v) take(p);
}

#define EXPORT extern "C" __attribute__((visibility("default")))

EXPORT void* __wrap_malloc(size_t n) { seamPoint(1); return failNow() ? nullptr : give(n, 0xA5); }

EXPORT void* __wrap_calloc(size_t a, size_t b) {
    seamPoint(1);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    return failNow() ? nullptr : give(n, 0);
}

EXPORT void* __wrap_realloc(void* p, size_t n) {
    seamPoint(1);
    if (failNow()) return nullptr;
    void* q = give(n, 0xA5);
    if (p) {
        auto it = T().find(p);
        if (it != T().end()) {
            memcpy(q, p, std::min(n, it->second.size));
            take(p);
        } else {
            free(p);   // misuse: detected by the real allocator
        }
    }
    return q;
}

EXPORT void* __wrap_reallocarray(void* p, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    return __wrap_realloc(p, n);
}

EXPORT void* __wrap_aligned_alloc(size_t, size_t n) { return __wrap_malloc(n); }

EXPORT void __wrap_free(void* p) { seamPoint(2); if (p) take(p); }

EXPORT char* __wrap_strdup(const char* s) {
    seamPoint(1);
    if (failNow()) return nullptr;
    size_t n = strlen(s) + 1;
    char* q = (char*)give(n, 0);
    memcpy(q, s, n);
    return q;
}

EXPORT char* __wrap_strndup(const char* s, size_t m) {
    seamPoint(1);
    if (failNow()) return nullptr;
    size_t n = strnlen(s, m);
    char* q = (char*)give(n + 1, 0);
    memcpy(q, s, n);
    return q;
}

// ---------------------------------------------------------------- files

std::map<std::string, VFile> vfs;
std::function<int(const std::string&)> fileFault;

namespace {
struct Cookie { std::string data; size_t pos; bool err; bool eof; std::string path; };
std::set<FILE*>* files;
std::set<FILE*>& F() { if (!files) files = new std::set<FILE*>(); return *files; }
uint64_t nOpen;

ssize_t ckRead(void* c, char* buf, size_t n) {
    Cookie* k = (Cookie*)c;
    if (k->err) { errno = EIO; return -1; }
    if (k->eof) return 0;
    size_t m = std::min(n, k->data.size() - k->pos);
    memcpy(buf, k->data.data() + k->pos, m);
    k->pos += m;
    return (ssize_t)m;
}
int ckSeek(void* c, off64_t* off, int whence) {
    Cookie* k = (Cookie*)c;
    off64_t p = whence == SEEK_SET ? *off : whence == SEEK_CUR ? (off64_t)k->pos + *off : (off64_t)k->data.size() + *off;
    if (p < 0) { errno = EINVAL; return -1; }
    k->pos = std::min((size_t)p, k->data.size());
    *off = (off64_t)k->pos;
    return 0;
}
int ckClose(void* c) { delete (Cookie*)c; return 0; }
ssize_t ckWrite(void* c, const char* buf, size_t n) {
    seamPoint(8);
    VFile& f = vfs[((Cookie*)c)->path];
    size_t m = n;
    if (writeLimit >= 0 && (int64_t)n > writeLimit) {
        m = (size_t)writeLimit;
        fault("write_failure");
        errno = ENOSPC;
    }
    if (writeLimit >= 0) writeLimit = m < n && writeRecovers ? -1 : writeLimit - (int64_t)m;
    f.content.append(buf, m);
    return (ssize_t)m;
}
int ckCloseWritten(void* c) {
    delete (Cookie*)c;
    if (closeFails < 0 || closeFails-- > 0) return 0;
    fault("close_failure");
    errno = EIO;
    return -1;
}
}

int64_t writeLimit = -1;
bool writeRecovers;
int closeFails = -1;
std::function<std::string(const std::string&)> realPath;
void crashFiles() { F().clear(); }

size_t openFiles() { return F().size(); }
uint64_t openCount() { return nOpen; }

EXPORT FILE* __wrap_fopen(const char* path, const char* mode) {
    seamPoint(3);
    std::string p = path ? path : "";
    nOpen++;
    int f = fileFault ? fileFault(p) : 0;
    if (f == 1) { fault("open_failure"); errno = EMFILE; return nullptr; }
    if (mode[0] == 'w') {
        tr("  open %s for writing", p.c_str());
        vfs[p] = VFile{"", true};
        cookie_io_functions_t io = {nullptr, ckWrite, nullptr, ckCloseWritten};
        FILE* fp = fopencookie(new Cookie{"", 0, false, false, p}, "w", io);
        F().insert(fp);
        return fp;
    }
    auto it = vfs.find(p);
    tr("  open %s -> %s", p.size() > 200 ? fmtStr("(%zu characters)", p.size()).c_str() : p.c_str(), it != vfs.end() && it->second.exists ? "found" : "missing");
    if (it == vfs.end() || !it->second.exists || mode[0] != 'r') { errno = ENOENT; return nullptr; }
    Cookie* c = new Cookie{it->second.content, 0, false, false, p};
    if (f == 2) { fault("read_error"); c->err = true; }
    if (f == 3) { fault("premature_end_of_file"); c->eof = true; }
    cookie_io_functions_t io = {ckRead, nullptr, ckSeek, ckClose};
    FILE* fp = fopencookie(c, "r", io);
    F().insert(fp);
    return fp;
}
EXPORT FILE* __wrap_fopen64(const char* path, const char* mode) { return __wrap_fopen(path, mode); }

EXPORT int __wrap_fclose(FILE* fp) {
    seamPoint(3);
    if (!F().count(fp)) { failLater("file-close", "a file that is not open was closed"); return EOF; }
    F().erase(fp);
    return fclose(fp);
}

EXPORT char* __wrap_realpath(const char* path, char* out) {
    seamPoint(9);
    std::string r = realPath && path ? realPath(path) : "";
    if (r.empty()) { errno = ENOENT; return nullptr; }
    if (!out) { out = (char*)__wrap_malloc(4096); if (!out) return nullptr; }
    snprintf(out, 4096, "%s", r.c_str());
    return out;
}

// ---------------------------------------------------------------- loader

LoaderPolicy loader;

EXPORT void* __wrap_dlopen(const char* path, int) { return loader.open ? loader.open(path) : nullptr; }
EXPORT void* __wrap_dlsym(void* h, const char* s) { return loader.sym ? loader.sym(h, s) : nullptr; }
EXPORT int __wrap_dlclose(void* h) { if (loader.close) loader.close(h); return 0; }
EXPORT char* __wrap_dlerror() { static char msg[] = "simulated loader error"; return msg; }

// ---------------------------------------------------------------- scheduling points

#define ACC(a, n, w) do { if (accessHook) accessHook((const void*)(a), (n), (w)); } while (0)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
#define RW(n) \
EXPORT void __tsan_read##n(void* p) { ACC(p, n, false); } \
EXPORT void __tsan_write##n(void* p) { ACC(p, n, true); } \
EXPORT void __tsan_read_write##n(void* p) { ACC(p, n, true); } \
EXPORT void __tsan_unaligned_read##n(void* p) { ACC(p, n, false); } \
EXPORT void __tsan_unaligned_write##n(void* p) { ACC(p, n, true); } \
EXPORT void __tsan_unaligned_read_write##n(void* p) { ACC(p, n, true); } \
EXPORT void __tsan_volatile_read##n(void* p) { ACC(p, n, false); } \
EXPORT void __tsan_volatile_write##n(void* p) { ACC(p, n, true); } \
EXPORT void __tsan_unaligned_volatile_read##n(void* p) { ACC(p, n, false); } \
EXPORT void __tsan_unaligned_volatile_write##n(void* p) { ACC(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, unsigned long n) { ACC(p, (int)n, false); }
EXPORT void __tsan_write_range(void* p, unsigned long n) { ACC(p, (int)n, true); }
EXPORT void __tsan_vptr_update(void** p, void*) { ACC(p, 8, true); }
EXPORT void __tsan_vptr_read(void** p) { ACC(p, 8, false); }
EXPORT void* __tsan_memcpy(void* d, const void* s, unsigned long n) { ACC(s, (int)n, false); ACC(d, (int)n, true); return memcpy(d, s, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, unsigned long n) { ACC(s, (int)n, false); ACC(d, (int)n, true); return memmove(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, unsigned long n) { ACC(d, (int)n, true); return memset(d, c, n); }
// atomics: one indivisible access each
#define ATOM(bits, T) \
EXPORT T __tsan_atomic##bits##_load(const volatile T* a, int) { ACC(a, bits / 8, false); return *a; } \
EXPORT void __tsan_atomic##bits##_store(volatile T* a, T v, int) { ACC(a, bits / 8, true); *a = v; } \
EXPORT T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { ACC(a, bits / 8, true); T o = *a; *a = v; return o; } \
EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { ACC(a, bits / 8, true); T o = *a; *a = (T)(o + v); return o; } \
EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { ACC(a, bits / 8, true); T o = *a; *a = (T)(o - v); return o; } \
EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { ACC(a, bits / 8, true); T o = *a; *a = (T)(o | v); return o; } \
EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { ACC(a, bits / 8, true); T o = *a; *a = (T)(o & v); return o; } \
EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { ACC(a, bits / 8, true); T o = *a; *a = (T)(o ^ v); return o; } \
EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { ACC(a, bits / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { ACC(a, bits / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { ACC(a, bits / 8, true); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

void seamsReset() {
    // every run is a new process, so this only sets defaults
    allocOwner = 0;
    allocFailIn = -1;
    allocNextFail = nullptr;
    vfs.clear();
    fileFault = nullptr;
    writeLimit = -1;
    writeRecovers = false;
    closeFails = -1;
    realPath = nullptr;
    loader = LoaderPolicy();
    accessHook = nullptr;
    nCalls = nFailed = seqNo = nOpen = 0;
    T().clear();
    F().clear();
}
