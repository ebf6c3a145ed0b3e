// Seams between the code under test and its environment: allocator, files, loader,
// memory accesses.
#pragma once
#include "core.h"

void seamsReset();

// ---------------------------------------------------------------- allocator
struct AllocStats { uint64_t calls, failed, live; };
AllocStats allocStats();
extern int allocOwner;                   // tag given to new allocations
size_t liveAllocs(int owner = -1);
std::string describeLive();
void dropHeap(int owner);                // crash: everything the owner allocated is gone
bool isLive(const void* p);

// Failing allocations: countdown to the next failure, then `allocNextFail` decides how
// many allocations succeed before the following one (negative: no more failures).
extern int64_t allocFailIn;              // -1: no failure
extern std::function<int64_t()> allocNextFail;

// ---------------------------------------------------------------- files
struct VFile {
    std::string content;
    bool exists = true;
};
extern std::map<std::string, VFile> vfs;
// 0: normal, 1: open fails, 2: read error at first read, 3: end of file at first read
extern std::function<int(const std::string&)> fileFault;
// files opened for writing: what reaches them is durable, what is still buffered is not
extern int64_t writeLimit;               // bytes until a write fails, -1: never
extern bool writeRecovers;               // writes after the failed one succeed
extern int closeFails;                   // which close of a written file fails, -1: none
extern std::function<std::string(const std::string&)> realPath;   // "": fails
void crashFiles();                       // crash: files are no longer open, buffers are lost
size_t openFiles();
uint64_t openCount();

// ---------------------------------------------------------------- loader
struct LoaderPolicy {
    std::function<void*(const char* path)> open;               // returns handle or null
    std::function<void*(void* handle, const char* sym)> sym;
    std::function<void(void* handle)> close;
};
extern LoaderPolicy loader;

// ---------------------------------------------------------------- scheduling points
// Called before every memory access of instrumented code and in every seam.
typedef void (*AccessHook)(const void* addr, int size, bool write);
extern AccessHook accessHook;
void seamPoint(int kind);
