// Simulator kernel: recorded choices, event log, verdict, simulated time, device heap, forked runs.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <functional>
#include "ref.h"

namespace sim {
typedef ref::Bytes Bytes; typedef uint64_t u64; typedef uint32_t u32;

// ---------------------------------------------------------------- choices (the only source of nondeterminism)
u32 choose(u32 n);                       // 0..n-1, recorded; 0 is always the simplest choice
inline bool chance(u32 num,u32 den){ return choose(den)>=den-num; } // true with num/den; shrinks to false
Bytes blob(size_t n);                    // n bytes from one recorded choice (choice 0 gives an incrementing pattern)
u64 word64();                            // boundary-biased 64 bit value
u32 word32();
size_t oneOf(std::initializer_list<size_t> l);

// ---------------------------------------------------------------- log, counters, verdict
void L(const char*fmt,...) __attribute__((format(printf,1,2)));   // event log (hashed; text kept for replay and samples)
void count(const char*name,u64 n=1);     // fault.* / probe.* / sched.* counters, per run
void nontrivial();                       // this run perturbed something that mattered
void fail(const char*cls,const char*fmt,...) __attribute__((format(printf,2,3),noreturn)); // property violated
void harness(const char*fmt,...) __attribute__((format(printf,1,2),noreturn));             // the check itself is broken
#define CHECK(c,cls,...) do{ if(!(c)) sim::fail(cls,__VA_ARGS__); }while(0)
std::string hx(const Bytes&); std::string hx(const void*,size_t);

// ---------------------------------------------------------------- simulated time = basic blocks of library code executed
extern u64 g_steps;                      // device steps so far in this run
extern u64 g_step_hook_at; extern void (*g_step_hook)(); // called when g_steps reaches g_step_hook_at
void*shared(size_t n);                   // memory shared with nested images
void image(const std::function<void()>&f); // run f in a copy of this process image; nothing but shared memory, log and verdict survives
void dropImage() __attribute__((noreturn)); // power loss: drop the current image
void watchStatics(u64*steps,u32 max);     // from here on, note at which steps the library writes its own statics
u32 staticsSeen();
void budget(u64 steps);                  // more than this many further steps => "hang"

// ---------------------------------------------------------------- device heap
struct Dev{ int old; Dev(); ~Dev(); };   // library code runs: allocations are tracked and may fail, steps count
struct Host{ int old; Host(); ~Host(); };// simulator code runs
struct HeapPlan{ bool on=false; u64 failAt=0, failLen=0; size_t failAbove=0; size_t cap=0; }; // failAt: 1-based ordinal of device allocation
extern HeapPlan g_heap; extern u64 g_allocs, g_allocFailures; extern size_t g_liveBytes;
size_t liveBlocks(); void checkNoLeak(const char*when); void forgetLive();
extern void (*g_onFree)(void*p,size_t n,char kind); // called before a device block is released
extern void (*g_onAllocSite)(size_t n);
// ---------------------------------------------------------------- runs
typedef void (*Scenario)();
struct Reg{ Reg(const char*prop,Scenario); };
Scenario find(const char*prop);
extern bool g_variantZero;               // build variant: uninitialised memory reads as zero / as pattern
}
