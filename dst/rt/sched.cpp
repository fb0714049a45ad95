// Scheduler, virtual time, signals and the pthread/semaphore/futex seam.
#include <sys/mman.h>
#include "rt.h"
#include <algorithm>
#include <queue>
#include <linux/futex.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <sched.h>
#include <limits.h>
#include <fcntl.h>

namespace dst {
REAL(void, pthread_exit, void*) REAL(int, pthread_join, pthread_t, void**) REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
bool g_active, g_child; Task g_tasks[MAXT]; int g_ntasks = 1; Task* g_cur = &g_tasks[0];
i64 g_cd = INT64_MAX / 2, g_cd0 = INT64_MAX / 2; int g_rt; u64 g_N, g_vt; i64 g_realoff = 1700000000ll * 1000000000ll; u64 g_hash, g_shash;
u64 g_cost_mem = 5, g_cost_op = 300;
Result* R; Spec spec; World* g_world;

static u64 g_next_preempt = UINT64_MAX, g_last_switch, g_vt_limit = 3600 * SEC, g_n_limit = 30000000;
static u64 g_fair = 20000; static bool g_replay, g_fairmode;
enum Policy { P_NONE, P_RAND, P_PCT }; static Policy g_pol; static u64 g_mean; static Rng g_rng;
static std::vector<u64>* g_pctpts; static size_t g_pcti; static i64 g_lowprio;
static size_t g_tapei; static u64 g_wseq; static pthread_t g_zombie; static bool g_have_zombie;
static bool g_limit_hit; static u64 g_last_op;
struct Ev { u64 t, s; std::function<void()> f; bool operator<(const Ev& o) const { return t != o.t ? t > o.t : s > o.s; } };
static std::priority_queue<Ev>* g_ev; static u64 g_evseq;
static u64 g_itimer_t, g_itimer_iv, g_itimer_gen; static struct sigaction g_sa[65]; static sigset_t g_mask;

static long sysfutex(int* a, int o, int v) { return syscall(SYS_futex, a, o, v, 0, 0, 0); }
static long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r; }
static void park(Task* t) { while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) rawsys(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0); __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE); }
static void unpark(Task* t) { __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); rawsys(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1); }
ssize_t raw_write(int fd, const void* b, size_t n) { return rawsys(SYS_write, fd, (long)b, n); }

static inline void flush_cd() { i64 used = g_cd0 - g_cd; if (used > 0) { g_N += used; g_vt += (u64)used * g_cost_mem; } g_cd0 = g_cd; }
static void set_cd() {
    u64 n = 2000000;
    if (g_next_preempt != UINT64_MAX) n = std::min(n, g_next_preempt > g_N ? g_next_preempt - g_N : 1);
    u64 lf = g_last_switch + g_fair; n = std::min(n, lf > g_N ? lf - g_N : 1);
    u64 t = UINT64_MAX; if (g_ev && !g_ev->empty()) t = g_ev->top().t;
    for (int i = 0; i < g_ntasks; i++) { Task& k = g_tasks[i]; if (k.st == BLOCKED && k.deadline < t) t = k.deadline; if (k.st == RUNNABLE && k.stalled_until > g_vt && k.stalled_until < t) t = k.stalled_until; }
    if (t != UINT64_MAX) { u64 d = t > g_vt ? (t - g_vt + g_cost_mem - 1) / g_cost_mem : 1; n = std::min(n, d); }
    if (!n) n = 1;
    g_cd0 = g_cd = (i64)n;
}
static __thread bool tl_dead;   // the task has ended; its real thread is still unwinding
void rt_enter() { if (tl_dead) return; if (g_rt++ == 0 && g_active) { flush_cd(); g_cd0 = g_cd = INT64_MAX / 2; } }
void rt_leave() { if (tl_dead) return; if (--g_rt == 0 && g_active) set_cd(); }
void fold(u64 v) { g_hash = mix64(g_hash ^ v); }
void step(const char* tag, u64 v) { fold(hstr(tag) ^ v); }
u64 now() { return g_vt; }
u64 seqno() { return g_N; }
int self() { return g_cur->id; }
int ntasks() { return g_ntasks; }
bool task_alive(int id) { return id >= 0 && id < g_ntasks && g_tasks[id].st != DEAD; }
std::string task_name(int id) { return g_tasks[id].name; }
int find_task(const char* s) { for (int i = 0; i < g_ntasks; i++) if (strstr(g_tasks[i].name, s)) return i; return -1; }
std::string task_dump() {
    std::string o; char b[200];
    for (int i = 0; i < g_ntasks; i++) { Task& t = g_tasks[i]; if (t.st == DEAD) continue;
        snprintf(b, sizeof b, "[%d %s %s%s%s] ", t.id, t.name, t.st == RUNNABLE ? "runnable" : "blocked in ", t.st == BLOCKED ? t.what : "", t.st == BLOCKED && t.deadline != UINT64_MAX ? "(timed)" : ""); o += b; }
    return o;
}
void at(u64 t, std::function<void()> f) { RtGuard g; if (!g_ev) g_ev = new std::priority_queue<Ev>; g_ev->push(Ev{t < g_vt ? g_vt : t, g_evseq++, std::move(f)}); }
void set_limits(u64 vt, u64 n) { g_vt_limit = vt; g_n_limit = n; }

static u64 g_skipped; u64 skipped() { return g_skipped; }
static void fire_events() {
    for (;;) {
        bool any = false;
        if (g_ev && !g_ev->empty() && g_ev->top().t <= g_vt) { Ev e = g_ev->top(); g_ev->pop(); fold(0x1111 ^ e.t); e.f(); any = true; }
        for (int i = 0; i < g_ntasks; i++) { Task& k = g_tasks[i];
            if (k.st == BLOCKED && k.deadline <= g_vt) { k.st = RUNNABLE; k.why = WK_TIMEOUT; k.deadline = UINT64_MAX; any = true; } }
        if (!any) return;
    }
}
static inline bool ready(Task& k) { return k.st == RUNNABLE && k.stalled_until <= g_vt; }
static void tape_add(int id) { if (!R) return; if (R->ntape < sizeof R->tape / sizeof R->tape[0]) { R->tape[R->ntape].N = g_N; R->tape[R->ntape].id = id; R->ntape++; } else R->tape_overflow = true; }
static int tape_get() {   // replay: forced choice at this step, or -1
    while (g_tapei < spec.tape.size() && spec.tape[g_tapei].N < g_N) g_tapei++;
    if (g_tapei < spec.tape.size() && spec.tape[g_tapei].N == g_N) return spec.tape[g_tapei++].id;
    return -1;
}
static void next_preempt() {
    if (g_replay) { while (g_tapei < spec.tape.size() && spec.tape[g_tapei].N <= g_N) g_tapei++; g_next_preempt = g_tapei < spec.tape.size() ? spec.tape[g_tapei].N : UINT64_MAX; return; }
    if (g_fairmode) { g_next_preempt = g_N + 2000; return; }
    if (g_pol == P_RAND) { u64 m = g_mean; g_next_preempt = g_N + 1 + g_rng.below(2 * m); }
    else if (g_pol == P_PCT) g_next_preempt = g_pcti < g_pctpts->size() ? std::max((*g_pctpts)[g_pcti], g_N + 1) : UINT64_MAX;
    else g_next_preempt = UINT64_MAX;
}
static Task* cyclic_next(int from) { for (int i = 1; i <= g_ntasks; i++) { Task& k = g_tasks[(from + i) % g_ntasks]; if (ready(k)) return &k; } return nullptr; }
static Task* policy_pick(bool preempt) {
    Task* c[MAXT]; int n = 0; for (int i = 0; i < g_ntasks; i++) if (ready(g_tasks[i])) c[n++] = &g_tasks[i];
    if (n == 1) return c[0];
    if (g_fairmode) return cyclic_next(g_cur->id);
    if (g_pol == P_RAND) return c[g_rng.below(n)];
    if (g_pol == P_PCT) { Task* o = nullptr; for (int i = 0; i < n; i++) if (c[i]->lastN + 8 * g_fair < g_N && (!o || c[i]->lastN < o->lastN)) o = c[i]; if (o && o != g_cur) return o;   // priorities must not starve a task for ever
        Task* b = c[0]; for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i]; return b; }
    return preempt ? g_cur : cyclic_next(g_cur->id);
}
static void run_handlers();
static void switch_to(Task* t) {
    Task* me = g_cur; if (t == me) return;
    if (R) R->switches++;
    g_last_switch = g_N; g_shash = mix64(g_shash ^ (u64)(t->id + 1)); fold(t->id);
    if (spec.want_log) logf("switch to %d", t->id);
    me->lastN = t->lastN = g_N; me->rt_depth = g_rt; g_cur = t; g_rt = t->rt_depth;
    unpark(t); park(me);
    if (g_have_zombie) { g_have_zombie = false; void* r; real_pthread_join()(g_zombie, &r); }
}
static void check_limits() {
    if ((g_vt > g_vt_limit || g_N > g_n_limit) && !g_limit_hit) { g_limit_hit = true; finish_run(W_LIMIT, g_vt > g_vt_limit ? 0 : 1); }
}
// the running task cannot or should not continue; choose who does
static void resched_blocked() {
    for (;;) {
        fire_events(); check_limits();
        bool any = false; for (int i = 0; i < g_ntasks; i++) if (ready(g_tasks[i])) { any = true; break; }
        if (any) break;
        u64 t = UINT64_MAX; if (g_ev && !g_ev->empty()) t = g_ev->top().t;
        for (int i = 0; i < g_ntasks; i++) { Task& k = g_tasks[i]; if (k.st == BLOCKED && k.deadline < t) t = k.deadline; if (k.st == RUNNABLE && k.stalled_until < t) t = k.stalled_until; }
        if (t == UINT64_MAX) finish_run(W_DEADLOCK, 0);
        if (t > g_vt) g_vt = t;
    }
    Task* d = cyclic_next(g_cur->id), *ch = d;
    if (g_replay) { int id = tape_get(); if (id >= 0 && id < g_ntasks && ready(g_tasks[id])) ch = &g_tasks[id]; }
    else ch = policy_pick(false);
    if (ch != d) tape_add(ch->id);
    next_preempt();
    if (ch == g_cur) return;
    switch_to(ch);
}
static void maybe_preempt() {
    if (g_N > g_n_limit || g_vt > g_vt_limit) check_limits();
    if (g_cur->stalled_until > g_vt) { resched_blocked(); return; }
    if (g_N > g_last_op + 4 * g_fair) { g_last_op = g_N - 3 * g_fair;   // nothing but busy-waiting and polling goes on: skip ahead to the next timed event
        u64 t = UINT64_MAX; if (g_ev && !g_ev->empty()) t = g_ev->top().t;
        for (int i = 0; i < g_ntasks; i++) { Task& k = g_tasks[i]; if (k.st == BLOCKED && k.deadline < t) t = k.deadline; if (k.st == RUNNABLE && k.stalled_until > g_vt && k.stalled_until < t) t = k.stalled_until; }
        if (t != UINT64_MAX && t > g_vt) { u64 o = g_vt; g_vt = std::min(std::max(t, g_vt + MS), g_vt + 10 * MS); g_skipped += g_vt - o; }   // (timed events may come up to 1 ms late here)
        fire_events();
    }
    bool due = g_N >= g_next_preempt;
    if (due) {
        Task* ch = g_cur;
        if (g_replay) { int id = tape_get(); if (id >= 0 && id < g_ntasks && ready(g_tasks[id])) ch = &g_tasks[id]; }
        else { if (g_pol == P_PCT && !g_fairmode) { g_cur->prio = --g_lowprio; g_pcti++; } ch = policy_pick(true); }
        next_preempt();
        if (ch != g_cur) { tape_add(ch->id); switch_to(ch); return; }
        if (g_fairmode) { }
    }
    if (g_N > g_last_switch + g_fair) {      // a spinning task must not starve the others
        g_last_switch = g_N;
        if (g_pol == P_PCT && !g_replay) g_cur->prio = --g_lowprio;
        Task* d = cyclic_next(g_cur->id), *ch = d;
        if (g_replay) { int id = tape_get(); if (id >= 0 && id < g_ntasks && ready(g_tasks[id])) ch = &g_tasks[id]; }
        else if (!g_fairmode) ch = policy_pick(false);
        if (ch != d) tape_add(ch->id);
        if (ch && ch != g_cur) switch_to(ch);
    }
}
static void tail() { if (g_cur->sigpend && !g_cur->in_handler) run_handlers(); if (g_cur->cancel_pending && g_cur->cancel_async && !g_cur->cancel_off) testcancel(); }
void op(const char* what, u64 cost) {
    if (tl_dead) return;
    if (!g_active || g_child) { g_vt += 50; return; }
    if (spec.want_log) logf("op %s", what);
    if (strcmp(what, "nanosleep")) g_last_op = g_N; g_N++; g_vt += g_cost_op + cost; fold(hstr(what) ^ (u64)g_cur->id << 56);
    fire_events(); maybe_preempt(); tail();
}
void preempt_point() { RtGuard g; op("pp"); }
static void slow_point() {
    if (tl_dead) return;
    if (!g_active) { g_cd = g_cd0 = INT64_MAX / 2; return; }
    if (g_rt) { g_cd = g_cd0 = INT64_MAX / 2; return; }
    RtGuard g; fire_events(); maybe_preempt(); tail();
}
Wake block(const void* key, u64 dl, const char* what, bool canc, bool intr, bool dlreal) {
    Task* me = g_cur;
    if (!g_active || g_child) {
        if (dl != UINT64_MAX) { if (dl > g_vt) g_vt = dl; return WK_TIMEOUT; }
        if (g_child) rawsys(SYS_exit_group, 99);
        fprintf(stderr, "dst: block(%s) before the simulation started\n", what); _exit(97);
    }
    g_N++; if (canc && me->cancel_pending && !me->cancel_off && !me->exiting) return WK_CANCEL;
    if (intr && me->sigpend && !me->in_handler) return WK_SIGNAL;
    me->st = BLOCKED; me->key = key; me->deadline = dl; me->dl_real = dlreal; me->what = what; me->why = WK_NONE; me->cancellable = canc; me->interruptible = intr; me->waitseq = ++g_wseq;
    resched_blocked();
    while (me->st == BLOCKED) resched_blocked();
    me->deadline = UINT64_MAX; me->key = nullptr;
    return me->why;
}
int wake(const void* key, int n) {
    int c = 0;
    while (c < n) { Task* b = nullptr; for (int i = 0; i < g_ntasks; i++) { Task& k = g_tasks[i]; if (k.st == BLOCKED && k.key == key && (!b || k.waitseq < b->waitseq)) b = &k; }
        if (!b) break; b->st = RUNNABLE; b->why = WK_WOKEN; b->deadline = UINT64_MAX; b->key = nullptr; c++; }
    return c;
}
void testcancel() {
    Task* me = g_cur;
    if (me->cancel_pending && !me->cancel_off && !me->exiting) { me->exiting = true; if (spec.want_log) logf("cancelled"); real_pthread_exit()(PTHREAD_CANCELED); }
}
void burn(u64 ns) { RtGuard g; if (!g_active) return; u64 end_ = g_vt + ns; while (g_vt < end_) { u64 nx = end_; if (g_ev && !g_ev->empty() && g_ev->top().t > g_vt) nx = std::min(nx, g_ev->top().t);
    for (int i = 0; i < g_ntasks; i++) if (g_tasks[i].st == BLOCKED && g_tasks[i].deadline > g_vt) nx = std::min(nx, g_tasks[i].deadline); u64 d = nx - g_vt; g_vt = nx; (void)d; g_N++; u64 before = g_vt; fire_events(); maybe_preempt(); tail(); if (g_vt > before) end_ += g_vt - before; } }
void compute(u64 ns) { RtGuard g; if (!g_active || !ns) return; u64 e = g_vt + ns; while (g_vt < e) block(&g_cur->go, e, "compute", false, false); tail(); }
void stall_task(int id, u64 ns) { if (id < 0 || id >= g_ntasks) return; g_tasks[id].stalled_until = std::max(g_tasks[id].stalled_until, g_vt + ns); }
void clock_jump(i64 ns) { g_realoff += ns; for (int i = 0; i < g_ntasks; i++) if (g_tasks[i].st == BLOCKED && g_tasks[i].dl_real && g_tasks[i].deadline != UINT64_MAX) { i64 d = (i64)g_tasks[i].deadline - ns; g_tasks[i].deadline = d < 0 ? 0 : d; } }
void sched_policy_fair() { RtGuard g; g_fairmode = true; if (!g_replay) next_preempt(); }

void start_sched(u64 seed, bool replay) {
    g_replay = replay; g_rng.s = mix64(seed ^ 0x5ced); g_hash = g_shash = mix64(seed); g_N = 0; g_vt = 0; g_last_switch = 0;
    Task& m = g_tasks[0]; m.id = 0; m.th = pthread_self(); m.st = RUNNABLE; m.deadline = UINT64_MAX; strcpy(m.name, "main"); m.prio = 1000 + g_rng.below(1000);
    std::string p = opt("policy");
    u64 k = g_rng.below(100);
    static const u64 means[] = {30, 200, 1500, 10000, 80000};
    if (p == "none" || (p.empty() && k < 8)) g_pol = P_NONE;
    else if (p == "rand" || (p.empty() && k < 75)) { g_pol = P_RAND; g_mean = means[g_rng.below(5)]; }
    else { g_pol = P_PCT; g_pctpts = new std::vector<u64>; int d = 1 + g_rng.below(6); u64 est = 1000ull << g_rng.below(12); for (int i = 0; i < d; i++) g_pctpts->push_back(1 + g_rng.below(est)); std::sort(g_pctpts->begin(), g_pctpts->end()); }
    g_lowprio = 0; g_cost_mem = 1 + g_rng.below(3) * 8; g_cost_op = 100 + 400 * g_rng.below(4);
    if (!replay) { } g_fair = 20000;
    g_active = true; next_preempt(); g_cd0 = g_cd = INT64_MAX / 2;
}
// ---------------------------------------------------------------- signals
void raise_signal(int s) { RtGuard g; raise_async(s); }
void raise_async(int sig) {
    if (sig <= 0 || sig > 64) return;
    Task* t = &g_tasks[0]; if (g_sa[sig].sa_handler == SIG_IGN) return;
    if (g_sa[sig].sa_handler == SIG_DFL) { if (sig == SIGALRM || sig == SIGTERM || sig == SIGINT || sig == SIGHUP || sig == SIGPIPE) { violation("", "killed-by-signal", "signal %d with the default action", sig); finish_run(W_SIGNAL, sig); } return; }
    t->sigpend |= 1ull << (sig - 1);
    if (t->st == BLOCKED && t->interruptible && !t->in_handler) { t->st = RUNNABLE; t->why = WK_SIGNAL; t->deadline = UINT64_MAX; }
}
static void run_handlers() {
    Task* me = g_cur; me->in_handler = true;
    while (me->sigpend) { int s = __builtin_ctzll(me->sigpend) + 1; me->sigpend &= ~(1ull << (s - 1)); fold(0x516 ^ s);
        auto h = g_sa[s].sa_handler; int depth = g_rt; g_rt = 0; int e = errno; if (g_active) set_cd();
        if (g_sa[s].sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s; g_sa[s].sa_sigaction(s, &si, nullptr); } else h(s);
        flush_cd(); g_cd0 = g_cd = INT64_MAX / 2; g_rt = depth; errno = e; }
    me->in_handler = false;
}
static void arm_itimer(u64 first, u64 iv) {
    u64 gen = ++g_itimer_gen; g_itimer_t = first ? g_vt + first : 0; g_itimer_iv = iv; if (!first) return;
    struct L { static void go(u64 gen) { if (gen != g_itimer_gen) return; raise_async(SIGALRM); if (g_itimer_iv) { g_itimer_t += g_itimer_iv; u64 g2 = gen; at(g_itimer_t, [g2] { go(g2); }); } else g_itimer_t = 0; } };
    at(g_itimer_t, [gen] { L::go(gen); });
}
struct Finisher { Task* t; ~Finisher() {
    if (spec.want_log) logf("thread %d ends", t->id);
    g_rt = 1; if (g_active) flush_cd(); t->finished = true; t->exiting = true; t->st = DEAD; fold(0xdead ^ t->id); wake(t, 1000); g_N++;
    g_zombie = t->th; 
    for (;;) { fire_events(); check_limits(); bool any = false; for (int i = 0; i < g_ntasks; i++) if (ready(g_tasks[i])) any = true; if (any) break;
        u64 tt = UINT64_MAX; if (g_ev && !g_ev->empty()) tt = g_ev->top().t; for (int i = 0; i < g_ntasks; i++) { Task& k = g_tasks[i]; if (k.st == BLOCKED && k.deadline < tt) tt = k.deadline; if (k.st == RUNNABLE && k.stalled_until < tt) tt = k.stalled_until; }
        if (tt == UINT64_MAX) finish_run(W_DEADLOCK, 0); if (tt > g_vt) g_vt = tt; }
    Task* d = cyclic_next(t->id), *ch = d; if (g_replay) { int id = tape_get(); if (id >= 0 && id < g_ntasks && ready(g_tasks[id])) ch = &g_tasks[id]; } else ch = policy_pick(false);
    if (ch != d) tape_add(ch->id); next_preempt();
    if (R) R->switches++; g_last_switch = g_N; g_shash = mix64(g_shash ^ (u64)(ch->id + 1)); g_have_zombie = true; g_cur = ch; g_rt = ch->rt_depth; tl_dead = true; unpark(ch);
} };
static void* tramp(void* a) {
    Task* t = (Task*)a; park(t);
    if (g_have_zombie) { g_have_zombie = false; void* r; real_pthread_join()(g_zombie, &r); }
    Finisher f{t}; rt_leave();
    t->ret = t->fn(t->arg); return t->ret;
}
static Task* by_th(pthread_t th) { for (int i = g_ntasks - 1; i >= 0; i--) if (g_tasks[i].th == th) return &g_tasks[i]; return nullptr; }
static u64 abs_ns(const struct timespec* ts, int clk) { if (ts->tv_sec < 0) return 0; __int128 v = (__int128)ts->tv_sec * SEC + ts->tv_nsec; v -= clk == CLOCK_REALTIME ? (__int128)g_realoff : (__int128)1000 * SEC; if (v < 0) v = 0; if (v > (__int128)(UINT64_MAX / 2)) v = UINT64_MAX / 2; return (u64)v; }
} // namespace dst

using namespace dst;
extern "C" {
// ---------------------------------------------------------------- memory access callbacks
extern unsigned char* dst_shadow; extern uintptr_t dst_heap_lo, dst_heap_hi; void dst_uaf(void* p, int wr, int n, void* ra);
#define TS(name, wr, n) void __tsan_##name(void* p) { uintptr_t o = (uintptr_t)p - dst_heap_lo; if (__builtin_expect(o < dst_heap_hi - dst_heap_lo && dst_shadow[o >> 4], 0)) dst_uaf(p, wr, n, __builtin_return_address(0)); if (__builtin_expect(--g_cd <= 0, 0)) slow_point(); }
TS(read1,0,1) TS(read2,0,2) TS(read4,0,4) TS(read8,0,8) TS(read16,0,16) TS(write1,1,1) TS(write2,1,2) TS(write4,1,4) TS(write8,1,8) TS(write16,1,16)
TS(unaligned_read2,0,2) TS(unaligned_read4,0,4) TS(unaligned_read8,0,8) TS(unaligned_write2,1,2) TS(unaligned_write4,1,4) TS(unaligned_write8,1,8) TS(unaligned_read16,0,16) TS(unaligned_write16,1,16)
TS(volatile_read1,0,1) TS(volatile_read2,0,2) TS(volatile_read4,0,4) TS(volatile_read8,0,8) TS(volatile_write1,1,1) TS(volatile_write2,1,2) TS(volatile_write4,1,4) TS(volatile_write8,1,8)
void __tsan_read_range(void* p, unsigned long n) { uintptr_t o = (uintptr_t)p - dst_heap_lo; if (n && o < dst_heap_hi - dst_heap_lo && dst_shadow[o >> 4]) dst_uaf(p, 0, n, __builtin_return_address(0)); if (--g_cd <= 0) slow_point(); }
void __tsan_write_range(void* p, unsigned long n) { uintptr_t o = (uintptr_t)p - dst_heap_lo; if (n && o < dst_heap_hi - dst_heap_lo && dst_shadow[o >> 4]) dst_uaf(p, 1, n, __builtin_return_address(0)); if (--g_cd <= 0) slow_point(); }
void __tsan_vptr_update(void**, void*) { if (--g_cd <= 0) slow_point(); }
void __tsan_vptr_read(void** p) { if (--g_cd <= 0) slow_point(); }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define AT() do { if (--g_cd <= 0) slow_point(); } while (0)
#define ATOM(sz, T) \
 T __tsan_atomic##sz##_load(const volatile T* a, int) { AT(); return __atomic_load_n(a, 5); } \
 void __tsan_atomic##sz##_store(volatile T* a, T v, int) { AT(); __atomic_store_n(a, v, 5); } \
 T __tsan_atomic##sz##_exchange(volatile T* a, T v, int) { AT(); return __atomic_exchange_n(a, v, 5); } \
 T __tsan_atomic##sz##_fetch_add(volatile T* a, T v, int) { AT(); return __atomic_fetch_add(a, v, 5); } \
 T __tsan_atomic##sz##_fetch_sub(volatile T* a, T v, int) { AT(); return __atomic_fetch_sub(a, v, 5); } \
 T __tsan_atomic##sz##_fetch_and(volatile T* a, T v, int) { AT(); return __atomic_fetch_and(a, v, 5); } \
 T __tsan_atomic##sz##_fetch_or(volatile T* a, T v, int) { AT(); return __atomic_fetch_or(a, v, 5); } \
 T __tsan_atomic##sz##_fetch_xor(volatile T* a, T v, int) { AT(); return __atomic_fetch_xor(a, v, 5); } \
 T __tsan_atomic##sz##_fetch_nand(volatile T* a, T v, int) { AT(); return __atomic_fetch_nand(a, v, 5); } \
 int __tsan_atomic##sz##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { AT(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
 int __tsan_atomic##sz##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { AT(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
 T __tsan_atomic##sz##_compare_exchange_val(volatile T* a, T c, T v, int, int) { AT(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- threads
int pthread_create(pthread_t* out, const pthread_attr_t* at_, void* (*fn)(void*), void* arg) {
    RtGuard g;
    if (!g_active || g_child) { fprintf(stderr, "dst: thread created outside the simulation\n"); return EAGAIN; }
    op("pthread_create");
    if (fault("thread_create")) return EAGAIN;
    if (g_ntasks >= MAXT) { invalid("too many threads"); finish_run(W_STOP, 0); }
    Task* t = &g_tasks[g_ntasks]; memset((void*)t, 0, sizeof *t); t->id = g_ntasks; t->fn = fn; t->arg = arg; t->st = RUNNABLE; t->deadline = UINT64_MAX; t->rt_depth = 1;
    snprintf(t->name, sizeof t->name, "thread%d", t->id); t->prio = 1000 + g_rng.below(1000); if (g_rng.below(2)) t->prio += 1000;
    int ds = PTHREAD_CREATE_JOINABLE; if (at_) pthread_attr_getdetachstate(at_, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED;
    pthread_attr_t a; pthread_attr_init(&a); size_t ssz = 2 << 20; void* stk = mmap(nullptr, ssz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    if (stk == MAP_FAILED) { invalid("stack"); finish_run(W_STOP, 0); } pthread_attr_setstack(&a, stk, ssz);   // never used again, so that a thread's handle stays its own until it is joined
    int r = real_pthread_create()(&t->th, &a, tramp, t); if (r) { invalid("real pthread_create: %d", r); finish_run(W_STOP, 0); }
    *out = t->th; g_ntasks++; if (R) R->ntasks = g_ntasks;
    op("pthread_created"); return 0;
}
int pthread_join(pthread_t th, void** ret) {
    RtGuard g; op("pthread_join"); Task* t = by_th(th);
    if (!t || t->joined || t->detached) return ESRCH; if (t == g_cur) return EDEADLK;
    while (!t->finished) { if (block(t, UINT64_MAX, "pthread_join", true, false) == WK_CANCEL) testcancel(); }
    t->joined = true; if (ret) *ret = t->ret; return 0;
}
int pthread_detach(pthread_t th) { RtGuard g; op("pthread_detach"); Task* t = by_th(th); if (!t) return ESRCH; t->detached = true; return 0; }
int pthread_cancel(pthread_t th) {
    RtGuard g; op("pthread_cancel"); Task* t = by_th(th); if (!t) return ESRCH; if (t->finished) return 0;
    t->cancel_pending = true; if (t->st == BLOCKED && t->cancellable && !t->cancel_off && !t->exiting) { t->st = RUNNABLE; t->why = WK_CANCEL; t->deadline = UINT64_MAX; }
    if (t == g_cur && t->cancel_async) testcancel(); return 0;
}
void pthread_testcancel() { RtGuard g; op("testcancel"); testcancel(); }
int pthread_setcancelstate(int s, int* old) { Task* t = g_cur; if (old) *old = t->cancel_off ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE; t->cancel_off = s == PTHREAD_CANCEL_DISABLE; return 0; }
int pthread_setcanceltype(int s, int* old) { Task* t = g_cur; if (old) *old = t->cancel_async ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED; t->cancel_async = s == PTHREAD_CANCEL_ASYNCHRONOUS; return 0; }
int pthread_kill(pthread_t th, int sig) { RtGuard g; op("pthread_kill"); Task* t = by_th(th); if (!t || t->finished) return ESRCH; if (!sig) return 0; if (t->id == 0) raise_async(sig); return 0; }
int pthread_setname_np(pthread_t th, const char* n) { Task* t = by_th(th); if (strlen(n) > 15) return ERANGE; if (t) snprintf(t->name, sizeof t->name, "%s", n); return 0; }
int pthread_setschedparam(pthread_t, int, const struct sched_param*) { return 0; }
int pthread_getschedparam(pthread_t, int* p, struct sched_param* s) { if (p) *p = SCHED_OTHER; if (s) s->sched_priority = 0; return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
int sched_setaffinity(pid_t, size_t, const cpu_set_t*) noexcept { return 0; }
int sched_setscheduler(pid_t, int, const struct sched_param*) noexcept { return 0; }
int sched_yield() noexcept { RtGuard g; if (!g_active || g_child) return 0; op("sched_yield"); if (!g_replay && g_pol == P_PCT) g_cur->prio = --g_lowprio; g_N++; resched_blocked(); return 0; }
int mlockall(int) noexcept { return 0; } int munlockall() noexcept { return 0; }
int prctl(int o, ...) noexcept { return 0; }

// ---------------------------------------------------------------- mutexes: state lives in the object
static int mx_lock(pthread_mutex_t* m, u64 dl, bool tryit, bool pt) {
    RtGuard g; int kind = m->__data.__kind & 3, me = g_cur->id + 1;
    if (pt) op(tryit ? "mutex_trylock" : "mutex_lock");
    if (m->__data.__lock && m->__data.__owner == me) {
        if (kind == 1) { m->__data.__count++; return 0; }
        if (tryit) return EBUSY;
        if (kind == 2) return EDEADLK;
    }
    while (m->__data.__lock) { if (tryit) return EBUSY; Wake w = block(m, dl, "mutex_lock", false, false); if (w == WK_TIMEOUT) return ETIMEDOUT; }
    m->__data.__lock = 1; m->__data.__owner = me; m->__data.__count = 1; fold((u64)(uintptr_t)m ^ me); return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept(false) { return mx_lock(m, UINT64_MAX, false, true); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept(false) { return mx_lock(m, UINT64_MAX, true, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept(false) { return mx_lock(m, abs_ns(ts, CLOCK_REALTIME), false, true); }
static int mx_unlock(pthread_mutex_t* m, bool pt) {
    RtGuard g; int kind = m->__data.__kind & 3; 
    if (kind == 1 || kind == 2) { if (!m->__data.__lock || m->__data.__owner != g_cur->id + 1) return EPERM; if (kind == 1 && --m->__data.__count) return 0; }
    m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__count = 0; wake(m, 1); if (pt) op("mutex_unlock"); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept(false) { return mx_unlock(m, true); }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (m->__data.__lock) return EBUSY; m->__data.__kind = -1; return 0; }

// ---------------------------------------------------------------- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept { memset((void*)c, 0, sizeof *c); clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k); ((int*)c)[0] = k; return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, u64 dl, bool dlreal) {
    RtGuard g; op("cond_wait"); if (g_cur->cancel_pending && !g_cur->cancel_off) testcancel();
    u32 v; bool sp = g_active && fault("spurious_wakeup", &v); if (sp && (v & 1)) { mx_unlock(m, true); mx_lock(m, UINT64_MAX, false, false); return 0; }
    if (sp) { u64 d = g_vt + (u64)(v >> 1) % 20000 * US; if (d < dl) dl = d, dlreal = false; else sp = false; }
    unsigned cnt = 1; if ((m->__data.__kind & 3) == 1) { cnt = m->__data.__count; m->__data.__count = 1; }
    mx_unlock(m, false);
    Wake w = block(c, dl, "cond_wait", true, false, dlreal);
    mx_lock(m, UINT64_MAX, false, false); if ((m->__data.__kind & 3) == 1) m->__data.__count = cnt;
    if (w == WK_CANCEL) testcancel();
    return w == WK_TIMEOUT && !sp ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, UINT64_MAX, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { int k = ((int*)c)[0]; return cwait(c, m, abs_ns(ts, k), k == CLOCK_REALTIME); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return cwait(c, m, abs_ns(ts, k), k == CLOCK_REALTIME); }
int pthread_cond_signal(pthread_cond_t* c) noexcept(false) { RtGuard g; op("cond_signal"); int n = wake(c, 1); fold(n); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept(false) { RtGuard g; op("cond_broadcast"); wake(c, 1000); return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    RtGuard g; if (*o == 2) return 0; op("once");
    while (*o != 2) { if (*o == 0) { *o = 1; int d = g_rt; g_rt = 0; if (g_active) set_cd(); f(); flush_cd(); g_cd0 = g_cd = INT64_MAX / 2; g_rt = d; *o = 2; wake(o, 1000); } else block(o, UINT64_MAX, "once", false, false); }
    return 0;
}
int __cxa_guard_acquire(char* gd) {
    if (__atomic_load_n(gd, 2)) return 0;
    RtGuard g; while (gd[1]) { if (g_active) block(gd, UINT64_MAX, "static-init", false, false); else return 0; }
    if (gd[0]) return 0; gd[1] = 1; return 1;
}
void __cxa_guard_release(char* gd) { RtGuard g; gd[0] = 1; gd[1] = 0; wake(gd, 1000); }
void __cxa_guard_abort(char* gd) { RtGuard g; gd[1] = 0; wake(gd, 1000); }

// ---------------------------------------------------------------- semaphores
int sem_init(sem_t* s, int, unsigned v) noexcept { memset((void*)s, 0, sizeof *s); ((u32*)s)[0] = v; return 0; }
int sem_destroy(sem_t*) noexcept { return 0; }
int sem_getvalue(sem_t* s, int* v) noexcept { *v = ((u32*)s)[0]; return 0; }
int sem_post(sem_t* s) noexcept(false) { RtGuard g; bool h = g_cur->in_handler; ((u32*)s)[0]++; wake(s, 1); if (!h) op("sem_post"); return 0; }
int sem_trywait(sem_t* s) noexcept(false) { RtGuard g; op("sem_trywait"); if (((u32*)s)[0]) { ((u32*)s)[0]--; return 0; } errno = EAGAIN; return -1; }
static int swait(sem_t* s, u64 dl, bool dlreal) {
    RtGuard g; op("sem_wait"); testcancel();
    while (!((u32*)s)[0]) { Wake w = block(s, dl, "sem_wait", true, true, dlreal); if (w == WK_CANCEL) testcancel(); if (w == WK_TIMEOUT) { errno = ETIMEDOUT; return -1; }
        if (w == WK_SIGNAL) { tail(); if (!((u32*)s)[0]) { errno = EINTR; return -1; } } }
    ((u32*)s)[0]--; return 0;
}
int sem_wait(sem_t* s) { return swait(s, UINT64_MAX, false); }
int sem_timedwait(sem_t* s, const struct timespec* ts) { return swait(s, abs_ns(ts, CLOCK_REALTIME), true); }
int sem_clockwait(sem_t* s, clockid_t k, const struct timespec* ts) { return swait(s, abs_ns(ts, k), k == CLOCK_REALTIME); }
struct NamedSem { char name[200]; sem_t* s; }; static NamedSem g_named[64];
sem_t* sem_open(const char* n, int fl, ...) noexcept { unsigned v = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); va_arg(ap, int); v = va_arg(ap, unsigned); va_end(ap); }
    NamedSem* e = nullptr; for (auto& x : g_named) { if (x.s && !strcmp(x.name, n)) return x.s; if (!x.s && !e) e = &x; }
    if (!(fl & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    snprintf(e->name, sizeof e->name, "%s", n); e->s = (sem_t*)calloc(1, sizeof(sem_t)); ((u32*)e->s)[0] = v; return e->s; }
int sem_close(sem_t*) noexcept { return 0; }
int sem_unlink(const char* n) noexcept { for (auto& x : g_named) if (x.s && !strcmp(x.name, n)) { x.name[0] = 0; x.s = nullptr; return 0; } errno = ENOENT; return -1; }

// ---------------------------------------------------------------- futex and friends
long syscall(long n, ...) noexcept(false) {
    va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
    if (n == SYS_gettid) return 5000 + g_cur->id;
    if (n == SYS_futex && g_active) {
        RtGuard g; int opc = a[1] & FUTEX_CMD_MASK; int* p = (int*)a[0];
        if (opc == FUTEX_WAIT || opc == FUTEX_WAIT_BITSET) { op("futex_wait"); if (__atomic_load_n(p, 5) != (int)a[2]) { errno = EAGAIN; return -1; }
            u64 dl = UINT64_MAX; if (a[3]) { auto ts = (struct timespec*)a[3]; dl = opc == FUTEX_WAIT ? g_vt + ts->tv_sec * SEC + ts->tv_nsec : abs_ns(ts, (a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC); }
            u32 v; bool sp = fault("spurious_wakeup", &v); if (sp && (v & 1)) return 0;
            if (sp) { u64 d = g_vt + (u64)(v >> 1) % 20000 * US; if (d < dl) dl = d; else sp = false; }
            Wake w = block(p, dl, "futex_wait", false, true); if (w == WK_TIMEOUT) { if (sp) return 0; errno = ETIMEDOUT; return -1; } if (w == WK_SIGNAL) { tail(); errno = EINTR; return -1; } return 0; }
        if (opc == FUTEX_WAKE || opc == FUTEX_WAKE_BITSET) { op("futex_wake"); return wake(p, (int)a[2]); }
        errno = ENOSYS; return -1;
    }
    long r = rawsys(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
// ---------------------------------------------------------------- time
static void put_ts(struct timespec* ts, u64 v) { ts->tv_sec = v / SEC; ts->tv_nsec = v % SEC; }
static u64 rd_clock(int k) {
    RtGuard g; if (g_active && !g_child) { g_vt += 60; g_N++; fire_events(); maybe_preempt(); tail(); } else g_vt += 20;
    switch (k) { case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: return g_vt + g_realoff; default: return g_vt + 1000 * SEC; }
}
int clock_gettime(clockid_t k, struct timespec* ts) noexcept(false) { put_ts(ts, rd_clock(k)); return 0; }
int clock_getres(clockid_t, struct timespec* ts) noexcept { if (ts) { ts->tv_sec = 0; ts->tv_nsec = 1; } return 0; }
int gettimeofday(struct timeval* tv, void*) noexcept(false) { u64 v = rd_clock(CLOCK_REALTIME); if (tv) { tv->tv_sec = v / SEC; tv->tv_usec = v % SEC / 1000; } return 0; }
time_t time(time_t* t) noexcept(false) { time_t v = rd_clock(CLOCK_REALTIME) / SEC; if (t) *t = v; return v; }
clock_t clock() noexcept(false) { return rd_clock(CLOCK_PROCESS_CPUTIME_ID) / 1000; }
clock_t times(struct tms* b) noexcept(false) { u64 v = rd_clock(CLOCK_MONOTONIC); if (b) { b->tms_utime = v / 10000000; b->tms_stime = 0; b->tms_cutime = b->tms_cstime = 0; } return v / 10000000; }
int getrusage(__rusage_who_t, struct rusage* r) noexcept { memset(r, 0, sizeof *r); u64 v = g_vt; r->ru_utime.tv_sec = v / SEC; r->ru_utime.tv_usec = v % SEC / 1000; return 0; }
static int dosleep(u64 ns, const char* w) { RtGuard g; op(w); testcancel(); if (!g_active || g_child) { g_vt += ns; return 0; } u64 end_ = g_vt + ns + 50 * US; u32 v;  /* timer slack */
    if (fault("oversleep", &v)) end_ += (u64)(v % 2000) * US;
    Wake k = block(&g_cur->go, end_, w, true, true); if (k == WK_CANCEL) testcancel(); if (k == WK_SIGNAL) { tail(); return g_vt < end_ ? (int)std::min<u64>((end_ - g_vt) / 1000 + 1, INT_MAX) : 0; } return 0; }
int usleep(useconds_t us) { if (dosleep((u64)us * 1000, "usleep")) { errno = EINTR; return -1; } return 0; }
unsigned sleep(unsigned s) { return dosleep((u64)s * SEC, "sleep") / 1000000; }
int nanosleep(const struct timespec* t, struct timespec* rem) { if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000 || t->tv_sec < 0) { errno = EINVAL; return -1; } int r = dosleep((u64)t->tv_sec * SEC + t->tv_nsec, "nanosleep"); if (r) { if (rem) { rem->tv_sec = r / 1000000; rem->tv_nsec = r % 1000000 * 1000; } errno = EINTR; return -1; } return 0; }
int clock_nanosleep(clockid_t k, int fl, const struct timespec* t, struct timespec* rem) { u64 d; if (fl & TIMER_ABSTIME) { u64 a = abs_ns(t, k); d = a > g_vt ? a - g_vt : 0; } else d = (u64)t->tv_sec * SEC + t->tv_nsec; return dosleep(d, "clock_nanosleep") ? EINTR : 0; }
int setitimer(__itimer_which_t w, const struct itimerval* n, struct itimerval* o) noexcept(false) { RtGuard g; op("setitimer"); if (o) { memset(o, 0, sizeof *o); if (g_itimer_t > g_vt) { u64 d = g_itimer_t - g_vt; o->it_value.tv_sec = d / SEC; o->it_value.tv_usec = d % SEC / 1000; } o->it_interval.tv_sec = g_itimer_iv / SEC; o->it_interval.tv_usec = g_itimer_iv % SEC / 1000; }
    if (w != ITIMER_REAL) return 0; if (n) { if (n->it_value.tv_usec < 0 || n->it_value.tv_usec >= 1000000 || n->it_interval.tv_usec < 0 || n->it_interval.tv_usec >= 1000000 || n->it_value.tv_sec < 0) { errno = EINVAL; return -1; } arm_itimer((u64)n->it_value.tv_sec * SEC + n->it_value.tv_usec * US, (u64)n->it_interval.tv_sec * SEC + n->it_interval.tv_usec * US); } return 0; }
unsigned alarm(unsigned s) noexcept(false) { RtGuard g; unsigned old = g_itimer_t > g_vt ? (g_itimer_t - g_vt + SEC - 1) / SEC : 0; if (g_active) arm_itimer((u64)s * SEC, 0); return old; }
// ---------------------------------------------------------------- signals
int sigaction(int s, const struct sigaction* n, struct sigaction* o) noexcept { if (s <= 0 || s > 64) { errno = EINVAL; return -1; } if (o) *o = g_sa[s]; if (n) g_sa[s] = *n; return 0; }
sighandler_t signal(int s, sighandler_t h) noexcept { if (s <= 0 || s > 64) { errno = EINVAL; return SIG_ERR; } sighandler_t o = g_sa[s].sa_handler; memset(&g_sa[s], 0, sizeof g_sa[s]); g_sa[s].sa_handler = h; g_sa[s].sa_flags = SA_RESTART; return o; }
int raise(int s) noexcept(false) { RtGuard g; if (g_active && !g_child) { if (s == SIGABRT) abort(); g_cur->sigpend |= 1ull << (s - 1); tail(); return 0; } return 0; }
int kill(pid_t p, int s) noexcept(false) { RtGuard g; op("kill"); extern int dst_kill(pid_t, int); if (p == 4242) { if (s) raise_async(s); tail(); return 0; } return dst_kill(p, s); }
int pthread_sigmask(int, const sigset_t*, sigset_t* o) noexcept { if (o) *o = g_mask; return 0; }
int sigprocmask(int, const sigset_t*, sigset_t* o) noexcept { if (o) *o = g_mask; return 0; }
pid_t getpid() noexcept { return 4242; } pid_t getppid() noexcept { return 4241; } pid_t gettid() noexcept { return 5000 + g_cur->id; }
}
extern "C" void dst_main_done();
