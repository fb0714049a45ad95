// Internal runtime header.
#pragma once
#include "dst.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <dlfcn.h>

namespace dst {

#define REAL(ret, name, ...) typedef ret (*name##_fn)(__VA_ARGS__); \
    static name##_fn real_##name() { static name##_fn f; if (!f) f = (name##_fn)dlsym(RTLD_NEXT, #name); return f; }

static inline u64 mix64(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static inline u64 hstr(const char* s) { u64 h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull; return mix64(h); }
struct Rng { u64 s; u64 next() { s += 0x9e3779b97f4a7c15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; } };

const int MAXT = 128;
enum State { RUNNABLE, BLOCKED, DEAD };
enum Wake { WK_NONE = 0, WK_WOKEN, WK_TIMEOUT, WK_SIGNAL, WK_CANCEL };

struct Task {
    int id; pthread_t th; int go; State st; const void* key; const char* what;
    u64 deadline; bool dl_real; Wake why; bool cancellable, interruptible;
    void* (*fn)(void*); void* arg; void* ret;
    bool finished, detached, joined, cancel_pending, cancel_off, cancel_async, exiting;
    bool in_handler; u64 sigpend; u64 stalled_until; i64 prio; char name[20]; int rt_depth; u64 waitseq, lastN; bool idle;
};

extern bool g_active;          // the simulation is running (after the snapshot)
extern bool g_child;           // forked helper process of the simulation: no scheduling
extern Task g_tasks[MAXT]; extern int g_ntasks; extern Task* g_cur;
extern i64 g_cd, g_cd0; extern int g_rt; extern u64 g_N, g_vt; extern i64 g_realoff; extern u64 g_hash, g_shash;
extern u64 g_cost_mem, g_cost_op;

void rt_enter(); void rt_leave();
struct RtGuard { RtGuard() { rt_enter(); } ~RtGuard() { rt_leave(); } };

void op(const char* what, u64 cost = 0);          // a scheduling point (inside RtGuard)
Wake block(const void* key, u64 deadline, const char* what, bool cancellable, bool interruptible, bool dl_real = false);
int  wake(const void* key, int n);
void testcancel();
void fold(u64 v);
void finish_run(int why, int code) __attribute__((noreturn));
void start_sched(u64 seed, bool replay);
void raise_async(int sig);                        // signal to the main task
void sched_dump_state(std::string& out);

// shared result region
struct NV { char name[40]; u64 n; };
struct TapeE { u64 N; int id; int pad; };
struct FaultE { char kind[24]; u32 occ, val; };
struct PlanE { char label[48]; i64 val, n; };
struct Viol { char prop[8]; char cls[200]; char msg[3000]; u64 N, vt; };
struct Result {
    volatile int verdict;       // 0 none, 1 finished, 3 harness error
    int why, code; char err[1000];
    u64 hash, shash, N, vt, steps, switches; int ntasks;
    int nviol; Viol viol[12];
    int nprobe; NV probe[200];
    int nfk; NV fk[48];
    u32 ntape, nfault, nplan;
    bool tape_overflow;
    TapeE tape[1 << 19]; FaultE faults[1 << 14]; PlanE plan[4096];
    u32 loglen; char log[8 << 20];
};
extern Result* R;

struct Spec {
    std::string world; u64 seed = 0; bool replay = false, want_log = false;
    std::map<std::string, std::string> opts; std::map<std::string, i64> plan;
    std::vector<FaultE> faults; std::vector<TapeE> tape; bool fault_replay = false, sched_replay = false;
};
extern Spec spec;
extern World* g_world;

void net_reset_all(); void io_reset_all();
bool net_isfd(int fd);
int net_new_eventfd();
void heap_activate();
void set_crash_handlers();
ssize_t raw_write(int fd, const void* b, size_t n);
void at_crash_signal(int sig, void* addr);
bool is_trick_caller(void* ra);
}
