// Process entry, template/fork server, plan and fault draws, verdicts.
#include "rt.h"
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>
#include <execinfo.h>
#include <fcntl.h>
#include <algorithm>
#include <unordered_map>
int trick_main(int, char**);
namespace dst {
void heap_init(); extern int g_side; void rand_seed(u64); struct Side { Side() { g_side++; } ~Side() { g_side--; } }; std::string backtrace_str(int);
static std::vector<World>* g_worlds; static const int CIN = 200, COUT = 201; static bool g_off, g_replay_plan;
struct FK { u32 rate = 0, occ = 0; }; static std::map<std::string, FK>* g_fk; static std::map<std::pair<std::string, u32>, u32>* g_freplay;
void register_world(const World& w) { if (!g_worlds) g_worlds = new std::vector<World>; g_worlds->push_back(w); }
const char* why_name(int w) { static const char* n[] = {"exit", "deadlock", "limit", "signal", "crashpoint", "stop"}; return n[w]; }
std::string fmt(const char* f, ...) { va_list a; va_start(a, f); char* b = nullptr; int n = vasprintf(&b, f, a); va_end(a); std::string s(b, n); free(b); return s; }
i64 pick(const char* label, i64 n) {
    RtGuard g; i64 v; auto it = spec.plan.find(label);
    if (it != spec.plan.end()) { v = it->second; if (v >= n) v = n - 1; if (v < 0) v = 0; } else v = n > 0 ? (i64)(mix64(mix64(spec.seed) ^ hstr(label)) % (u64)n) : 0;
    if (R->nplan < 4096) { PlanE& p = R->plan[R->nplan++]; snprintf(p.label, sizeof p.label, "%s", label); p.val = v; p.n = n; }
    fold(hstr(label) ^ v); return v;
}
i64 pickf(i64 n, const char* f, ...) { char b[48]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return pick(b, n); }
std::string opt(const char* k, const char* d) { auto i = spec.opts.find(k); return i == spec.opts.end() ? d : i->second; }
i64 opti(const char* k, i64 d) { auto i = spec.opts.find(k); return i == spec.opts.end() ? d : atoll(i->second.c_str()); }
static void bump(NV* t, int& n, int cap, const char* name, u64 k) { for (int i = 0; i < n; i++) if (!strcmp(t[i].name, name)) { t[i].n += k; return; } if (n < cap) { snprintf(t[n].name, 40, "%s", name); t[n++].n = k; } }
void probe(const char* n, u64 k) { if (R) bump(R->probe, R->nprobe, 200, n, k); }
void note_step(u64 n) { if (R) R->steps += n; }
void fault_rate(const char* k, u32 r) { RtGuard g; (*g_fk)[k].rate = r; }
u64 fault_count(const char* k) { if (R) for (int i = 0; i < R->nfk; i++) if (!strcmp(R->fk[i].name, k)) return R->fk[i].n; return 0; }
void faults_off() { g_off = true; }
bool fault(const char* kind, u32* val) {
    if (!g_active || g_off || g_child) return false;
    FK& k = (*g_fk)[kind]; u32 occ = k.occ++; u32 v; bool fire;
    if (spec.fault_replay) { auto i = g_freplay->find({kind, occ}); fire = i != g_freplay->end(); v = fire ? i->second : 0; }
    else { u64 h = mix64(mix64(spec.seed ^ 0xfa17) ^ hstr(kind) ^ ((u64)occ << 20)); fire = h % 1000000 < k.rate; v = (u32)(h >> 32); }
    if (!fire) return false; if (val) *val = v;
    if (R->nfault < sizeof R->faults / sizeof R->faults[0]) { FaultE& e = R->faults[R->nfault++]; snprintf(e.kind, sizeof e.kind, "%s", kind); e.occ = occ; e.val = v; }
    bump(R->fk, R->nfk, 48, kind, 1); fold(hstr(kind) ^ occ); return true;
}
void violation(const char* prop, const char* cls, const char* f, ...) {
    RtGuard g; static std::string pk = "prop"; if (!*prop) { auto o = spec.opts.find(pk); if (o != spec.opts.end()) prop = o->second.c_str(); else if (g_world && g_world->prop) prop = g_world->prop; }
    for (int i = 0; i < R->nviol; i++) if (!strcmp(R->viol[i].prop, prop) && !strcmp(R->viol[i].cls, cls)) return;
    if (R->nviol >= 12) return; Viol& v = R->viol[R->nviol]; snprintf(v.prop, sizeof v.prop, "%s", prop); snprintf(v.cls, sizeof v.cls, "%s", cls);
    va_list a; va_start(a, f); vsnprintf(v.msg, sizeof v.msg, f, a); va_end(a); v.N = g_N; v.vt = g_vt; R->nviol++; fold(hstr(cls));
}
bool violated(const char* p) { for (int i = 0; i < R->nviol; i++) if (!strcmp(R->viol[i].prop, p)) return true; return false; }
void invalid(const char* f, ...) { if (R->verdict == 3) return; va_list a; va_start(a, f); vsnprintf(R->err, sizeof R->err, f, a); va_end(a); R->verdict = 3; }
void logf(const char* f, ...) { if (!R || !spec.want_log) return; static char b[4096]; int k = snprintf(b, 200, "%12.6f N%-9llu t%-2d ", g_vt / 1e9, (unsigned long long)g_N, g_cur->id); va_list a; va_start(a, f); int n = vsnprintf(b + k, sizeof b - k - 2, f, a); va_end(a); if (n > (int)sizeof b - k - 3) n = sizeof b - k - 3; b[k + n] = '\n'; n += k + 1; if (R->loglen + n < sizeof R->log) { memcpy(R->log + R->loglen, b, n); R->loglen += n; } }
void end_run(int w, int c) { finish_run(w, c); }
void finish_run(int why, int code) {
    static bool once; if (once) { syscall(SYS_exit_group, 0); } once = true;
    g_rt++; R->why = why; R->code = code; R->N = g_N; R->vt = g_vt; 
    logf("run ends: %s %d; %s", why_name(why), code, task_dump().c_str());
    if (g_world && why != W_SIGNAL && R->verdict != 3) { R->verdict = 0; g_active = false; g_world->finish(why, code); }
    R->hash = g_hash; R->shash = g_shash; if (R->verdict != 3) R->verdict = 1;
    syscall(SYS_exit_group, 0); __builtin_unreachable();
}
void at_crash_signal(int sig, void* addr) {
    static int depth; if (depth++) syscall(SYS_exit_group, 98); g_side++;   // (the heap may be locked or damaged)
    if (g_child) syscall(SYS_exit_group, 128 + sig);
    if (!g_active) { if (R && R->verdict == 0) { snprintf(R->err, sizeof R->err, "signal %d outside the simulated part: %s", sig, backtrace_str(8).c_str()); R->verdict = 3; } else fprintf(stderr, "dst: signal %d: %s\n", sig, backtrace_str(10).c_str()); syscall(SYS_exit_group, 98); }
    g_rt++; std::string all = backtrace_str(8), top; std::string rest = all; 
    // the first frame that is not a system library routine names the class
    for (size_t p = 0; p < all.size();) { size_t q = all.find(" < ", p); std::string fr = all.substr(p, q == std::string::npos ? q : q - p); if (fr.find("Trick") != std::string::npos || fr.compare(0, 3, "tc_") == 0 || fr.find("DR") == 0) { top = fr; break; } if (q == std::string::npos) break; p = q + 3; }
    if (top.empty()) top = all.substr(0, all.find(" < "));
    violation("", fmt("crash signal %d in %s", sig, top.c_str()).c_str(), "signal %d in task %s: %s", sig, g_cur->name, all.c_str());
    finish_run(W_SIGNAL, sig);
}
static void real_handler(int s, siginfo_t* si, void*) { at_crash_signal(s, si->si_addr); }
void set_crash_handlers() {
    typedef int (*sa_t)(int, const struct sigaction*, struct sigaction*); sa_t f = (sa_t)dlsym(RTLD_NEXT, "sigaction");
    static char* st = (char*)mmap(0, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); stack_t ss; ss.ss_sp = st; ss.ss_size = 1 << 18; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = real_handler; a.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) f(s, &a, 0);
    a.sa_handler = SIG_IGN; a.sa_flags = 0; f(SIGPIPE, &a, 0);
}
static FILE* g_cin; 
static bool read_line(std::string& l) { static char buf[1 << 16]; static int n, p; l.clear(); for (;;) { if (p == n) { n = syscall(SYS_read, CIN, buf, sizeof buf); p = 0; if (n <= 0) { n = 0; return false; } } char c = buf[p++]; if (c == '\n') return true; l += c; } }
static void put(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t r = raw_write(COUT, s.data() + o, s.size() - o); if (r <= 0) _exit(1); o += r; } }
static std::string js(const char* s, size_t n) { std::string o = "\""; for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::string js(const char* s) { return js(s, strlen(s)); }
static void rmtree(const std::string& p, bool self) { DIR* d = opendir(p.c_str()); if (!d) return; while (struct dirent* e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string q = p + "/" + n; struct stat st; if (!lstat(q.c_str(), &st) && S_ISDIR(st.st_mode)) rmtree(q, true); else unlink(q.c_str()); } closedir(d); if (self) rmdir(p.c_str()); }
static void wipe_out() { std::string o = outdir(); if (o.size() > 10 && o.find("dstrun") != std::string::npos) rmtree(o, false); }
static u64 wall_ms() { struct timespec ts; long r; asm volatile("syscall" : "=a"(r) : "a"(SYS_clock_gettime), "D"(1), "S"(&ts) : "rcx", "r11", "memory"); return ts.tv_sec * 1000ull + ts.tv_nsec / 1000000; }
static void nap() { struct timespec ts = {0, 200000}; long r; asm volatile("syscall" : "=a"(r) : "a"(SYS_nanosleep), "D"(&ts), "S"(0) : "rcx", "r11", "memory"); }
static std::string* g_code;
// the CPU time a run has used: a loaded machine must not look like a hang
static u64 cpu_ms(pid_t p) { struct timespec ts = {}; long r; asm volatile("syscall" : "=a"(r) : "a"(SYS_clock_gettime), "D"((long)(int)((~(unsigned)p << 3) | 2)), "S"(&ts) : "rcx", "r11", "memory"); return r == 0 ? ts.tv_sec * 1000ull + ts.tv_nsec / 1000000 : 0; }
static int g_detail; static u64 g_wall_limit = 60000;
static void emit() {
    std::string o = fmt("{\"verdict\":%d,\"why\":\"%s\",\"code\":%d,\"hash\":\"%016llx\",\"shash\":\"%016llx\",\"N\":%llu,\"vt\":%llu,\"steps\":%llu,\"sw\":%llu,\"tasks\":%d,\"err\":%s", R->verdict, why_name(R->why), R->code, (unsigned long long)R->hash, (unsigned long long)R->shash, (unsigned long long)R->N, (unsigned long long)R->vt, (unsigned long long)R->steps, (unsigned long long)R->switches, R->ntasks, js(R->err).c_str());
    o += ",\"viol\":["; for (int i = 0; i < R->nviol; i++) o += fmt("%s{\"p\":%s,\"c\":%s,\"m\":%s,\"N\":%llu,\"vt\":%llu}", i ? "," : "", js(R->viol[i].prop).c_str(), js(R->viol[i].cls).c_str(), js(R->viol[i].msg).c_str(), (unsigned long long)R->viol[i].N, (unsigned long long)R->viol[i].vt);
    o += "],\"probe\":{"; for (int i = 0; i < R->nprobe; i++) o += fmt("%s%s:%llu", i ? "," : "", js(R->probe[i].name).c_str(), (unsigned long long)R->probe[i].n);
    o += "},\"fk\":{"; for (int i = 0; i < R->nfk; i++) o += fmt("%s%s:%llu", i ? "," : "", js(R->fk[i].name).c_str(), (unsigned long long)R->fk[i].n);
    o += "}";
    if (g_detail) {
        o += fmt(",\"tape_overflow\":%d,\"tape\":[", R->tape_overflow); for (u32 i = 0; i < R->ntape; i++) o += fmt("%s[%llu,%d]", i ? "," : "", (unsigned long long)R->tape[i].N, R->tape[i].id);
        o += "],\"faults\":["; for (u32 i = 0; i < R->nfault; i++) o += fmt("%s[%s,%u,%u]", i ? "," : "", js(R->faults[i].kind).c_str(), R->faults[i].occ, R->faults[i].val);
        o += "],\"plan\":["; for (u32 i = 0; i < R->nplan; i++) o += fmt("%s[%s,%lld,%lld]", i ? "," : "", js(R->plan[i].label).c_str(), (long long)R->plan[i].val, (long long)R->plan[i].n); o += "]";
    }
    if (spec.want_log) o += ",\"log\":" + js(R->log, R->loglen);
    put(o + "}\n");
}
}
namespace dst { static std::map<int, std::function<int(int, int)>>* g_calls; void on_call(int n, std::function<int(int, int)> f) { RtGuard g; if (!g_calls) g_calls = new std::map<int, std::function<int(int, int)>>; (*g_calls)[n] = f; } }
using namespace dst;
extern "C" int dst_call(int n, int a, int b) { if (!g_calls || !g_calls->count(n)) return -1; return (*g_calls)[n](a, b); }
extern "C" const char* dst_snapshot() {
    // the template: one forked child per simulated run
    rt_enter(); g_side++; put("{\"ready\":1}\n");
    for (;;) {
        Spec s; g_detail = 0; g_wall_limit = 60000; std::string l; bool got = false;
        while (read_line(l)) { if (l == "end") { got = true; break; }
            size_t sp = l.find(' '); std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
            if (k == "world") s.world = v; else if (k == "seed") s.seed = strtoull(v.c_str(), 0, 10); else if (k == "detail") g_detail = 1; else if (k == "log") s.want_log = true; else if (k == "wall") g_wall_limit = atoll(v.c_str());
            else if (k == "opt") { size_t q = v.find(' '); s.opts[v.substr(0, q)] = q == std::string::npos ? "" : v.substr(q + 1); }
            else if (k == "plan") { size_t q = v.rfind(' '); s.plan[v.substr(0, q)] = atoll(v.c_str() + q + 1); }
            else if (k == "faultmode") s.fault_replay = true; else if (k == "schedmode") s.sched_replay = true;
            else if (k == "fault") { FaultE e; memset(&e, 0, sizeof e); sscanf(v.c_str(), "%23s %u %u", e.kind, &e.occ, &e.val); s.faults.push_back(e); }
            else if (k == "sched") { TapeE e; unsigned long long n; sscanf(v.c_str(), "%llu %d", &n, &e.id); e.N = n; s.tape.push_back(e); } }
        if (!got) syscall(SYS_exit_group, 0);
        std::sort(s.tape.begin(), s.tape.end(), [](const TapeE& a, const TapeE& b) { return a.N < b.N; });
        wipe_out();
        size_t head = offsetof(Result, tape); memset((void*)R, 0, head); R->loglen = 0;
        typedef pid_t (*fk_t)(); static fk_t rf = (fk_t)dlsym(RTLD_NEXT, "fork"); typedef pid_t (*wp_t)(pid_t, int*, int); static wp_t wp = (wp_t)dlsym(RTLD_NEXT, "waitpid");
        pid_t p = rf();
        if (p == 0) {
            spec = s; g_world = nullptr; for (auto& w : *g_worlds) if (s.world == w.name) g_world = &w;
            if (!g_world) { invalid("no world %s", s.world.c_str()); syscall(SYS_exit_group, 0); }
            g_fk = new std::map<std::string, FK>; g_freplay = new std::map<std::pair<std::string, u32>, u32>; for (auto& f : s.faults) (*g_freplay)[{f.kind, f.occ}] = f.val;
            g_side--; rand_seed(mix64(s.seed ^ 0x7a11));
            net_reset_all(); io_reset_all(); set_limits(g_world->vt_limit, g_world->n_limit);
            start_sched(s.seed, s.sched_replay); heap_activate();
            g_code = new std::string(g_world->setup()); rt_leave(); return g_code->c_str();
        }
        u64 t0 = wall_ms(); int st = 0; bool to = false;
        for (;;) { pid_t r = wp(p, &st, WNOHANG); if (r == p) break; if (cpu_ms(p) > g_wall_limit || wall_ms() - t0 > 600000) { to = true; ::syscall(SYS_kill, p, SIGKILL); wp(p, &st, 0); break; } nap(); }
        spec = s;
        if (to) { snprintf(R->err, sizeof R->err, "run exceeded its CPU time limit"); R->verdict = 3; }
        else if (R->verdict == 0) { snprintf(R->err, sizeof R->err, "run ended without a verdict, status %x", st); R->verdict = 3; }
        emit();
    }
}
int main(int argc, char** argv, char** envp) {
    if (!getenv("DST_REEXEC") || !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (getenv("DST_REEXEC")) return 95; personality(ADDR_NO_RANDOMIZE); setenv("DST_REEXEC", "1", 1); setenv("PYTHONHASHSEED", "0", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("TZ", "UTC", 1); setenv("LC_ALL", "C", 1); execve("/proc/self/exe", argv, environ); return 94; }
    heap_init(); dup2(0, CIN); dup2(1, COUT); const char* lg = getenv("DST_STDOUT"); int n = open(lg ? lg : "/dev/null", O_RDWR | O_CREAT | O_APPEND, 0666); dup2(n, 0); dup2(n, 1); dup2(n, 2);
    cpu_set_t cs; CPU_ZERO(&cs); const char* c = getenv("DST_CPU"); if (c) { CPU_SET(atoi(c), &cs); syscall(SYS_sched_setaffinity, 0, sizeof cs, &cs); }
    R = (Result*)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    void* pc[4]; backtrace(pc, 4); set_crash_handlers();
    io_reset_all();
    int r = trick_main(argc, argv);
    RtGuard g; if (!g_active) { fprintf(stderr, "dst: main returned %d before the simulation started\n", r); syscall(SYS_exit_group, 96); }
    finish_run(W_EXIT, r);
}
