// Allocator seam: quarantine with shadow marks (use after free / double free), poisoning, allocation faults.
#include "rt.h"
#include <malloc.h>
#include <sys/mman.h>
#include <execinfo.h>
#include <cxxabi.h>
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
extern char end; unsigned char* dst_shadow; uintptr_t dst_heap_lo, dst_heap_hi;
}
using namespace dst;
namespace dst {
static bool g_heap_on; static const size_t QMAX = 1 << 20; static void** g_q; static size_t g_qh, g_qt, g_qbytes; static const size_t QBYTES = 192u << 20;
static u64 g_allocs; static unsigned char* g_can; static const u64 CMAG = 0x5ca1ab1e0ddba11ull;
void heap_init() {   // called once at process start, before the template is built
    mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); mallopt(M_PERTURB, 0x5a);
}
void heap_activate() {
    dst_heap_lo = ((uintptr_t)sbrk(0) & ~0xfffull) ; 
    dst_heap_lo = ((uintptr_t)&end) & ~0xffful; size_t span = 4ull << 30;
    dst_shadow = (unsigned char*)mmap(0, span >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_can = (unsigned char*)mmap(0, span >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_q = (void**)mmap(0, QMAX * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    dst_heap_hi = dst_heap_lo + span; g_heap_on = true;
}
static inline bool inheap(void* p) { return (uintptr_t)p - dst_heap_lo < dst_heap_hi - dst_heap_lo; }
static void clear_shadow(void* p) { if (!inheap(p)) return; size_t n = malloc_usable_size(p); memset(dst_shadow + (((uintptr_t)p - dst_heap_lo) >> 4), 0, (n + 15) >> 4); }
// bytes after a block: guard bytes up to the last word of the chunk, which holds the length
static void guard_set(void* p, size_t n) { if (!inheap(p)) return; size_t u = malloc_usable_size(p); unsigned char* c = (unsigned char*)p; memset(c + n, 0xa7, u - 8 - n); u64 v = n ^ CMAG; memcpy(c + u - 8, &v, 8); g_can[((uintptr_t)p - dst_heap_lo) >> 4] = 1; }
static bool guard_ok(void* p) { unsigned char& f = g_can[((uintptr_t)p - dst_heap_lo) >> 4]; if (!f) return true; f = 0; size_t u = malloc_usable_size(p); unsigned char* c = (unsigned char*)p; u64 v; memcpy(&v, c + u - 8, 8); v ^= CMAG; if (v > u - 8) return false; for (size_t i = v; i < u - 8; i++) if (c[i] != 0xa7) return false; return true; }
std::string symbolize(void* const* pc, int n, int skip, int want) {
    std::string out;
    for (int i = skip, k = 0; i < n && k < want; i++) { Dl_info di; if (!dladdr((char*)pc[i] - 1, &di) || !di.dli_sname) continue;
        int st; char* d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st); std::string s = d ? d : di.dli_sname; if (d) free(d);
        size_t pp = s.find('('); if (pp != std::string::npos && pp) s.resize(pp);
        if (s.find("dst::") == 0 || s.find("dst_") == 0 || s.find("__tsan") == 0) continue;
        if (k) out += " < "; out += s; k++; }
    return out;
}
std::string backtrace_str(int want) { void* pc[40]; int n = backtrace(pc, 40); return symbolize(pc, n, 0, want); }
std::string crash_where() { return backtrace_str(6); }
static bool g_in_report; extern int g_side;
static void report(const char* kind, void* p, const char* detail) {
    if (g_in_report || !g_active) return; g_in_report = true; RtGuard g; g_side++;
    void* pc[40]; int n = backtrace(pc, 40); std::string top = symbolize(pc, n, 0, 1), all = symbolize(pc, n, 0, 7);
    violation("", (std::string(kind) + " in " + top).c_str(), "%s %s: %s [task %s]", kind, detail, all.c_str(), g_cur->name);
    g_in_report = false; g_side--;
}
}
// ---- side arena: the runtime's own input and output must not move the simulated heap
namespace dst {
int g_side; static char *sa_lo, *sa_cur, *sa_hi; static void* sa_free[48];
static void* side_alloc(size_t n) {
    if (!sa_lo) { size_t sz = 2ull << 30; sa_lo = sa_cur = (char*)mmap((void*)0x600000000000ull, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); sa_hi = sa_lo + sz; }
    int k = 5; while ((1ull << k) < n + 16) k++;
    void* p = sa_free[k]; if (p) { sa_free[k] = *(void**)p; return p; }
    if (sa_cur + (1ull << k) > sa_hi) return nullptr; char* c = sa_cur; sa_cur += 1ull << k; *(size_t*)c = k; return c + 16;
}
static inline bool inside(void* p) { return (char*)p >= sa_lo && (char*)p < sa_hi && sa_lo; }
static size_t side_size(void* p) { return (1ull << *(size_t*)((char*)p - 16)) - 16; }
static void side_free(void* p) { int k = *(size_t*)((char*)p - 16); *(void**)p = sa_free[k]; sa_free[k] = p; }
static u64 g_rand = 0x1234567; void rand_seed(u64 s) { g_rand = s; }
static void fill_random(void* b, size_t n) { unsigned char* p = (unsigned char*)b; for (size_t i = 0; i < n; i++) { if (i % 8 == 0) g_rand = mix64(g_rand); p[i] = g_rand >> (i % 8 * 8); } }
}
extern "C" {
// randomness is decided by the simulator (library hash salts would otherwise move the heap)
ssize_t getrandom(void* b, size_t n, unsigned) { fill_random(b, n); return n; }
int getentropy(void* b, size_t n) noexcept { fill_random(b, n); return 0; }
uint32_t arc4random() noexcept { uint32_t v; fill_random(&v, 4); return v; }
void arc4random_buf(void* b, size_t n) noexcept { fill_random(b, n); }
uint32_t arc4random_uniform(uint32_t n) noexcept { return n ? arc4random() % n : 0; }
void dst_uaf(void* p, int wr, int n, void* ra) { if (!g_active || g_child) return; report("use-after-free", p, wr ? "write" : "read");
    finish_run(W_SIGNAL, 0); }
bool dst_alloc_may_fail;
void* malloc(size_t n) { if (g_side) return side_alloc(n); if (!g_heap_on || g_child) return __libc_malloc(n); void* p = __libc_malloc(n + 9); if (p) { clear_shadow(p); guard_set(p, n); } return p; }
void* calloc(size_t a, size_t b) { if (g_side) { void* p = side_alloc(a * b); if (p) memset(p, 0, a * b); return p; } if (!g_heap_on || g_child) return __libc_calloc(a, b); size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = malloc(n); if (p) memset(p, 0, n); return p; }
void free(void* p) {
    if (!p) return; if (inside(p)) { side_free(p); return; } if (!g_heap_on || g_child) { __libc_free(p); return; }
    if (!inheap(p)) { __libc_free(p); return; }
    size_t n = malloc_usable_size(p), o = ((uintptr_t)p - dst_heap_lo) >> 4;
    if (dst_shadow[o]) { report("double-free", p, ""); if (g_active) finish_run(W_SIGNAL, 0); return; }
    if (!guard_ok(p)) { report("heap-overflow", p, "found when the block is freed"); if (g_active) finish_run(W_SIGNAL, 0); }
    memset(dst_shadow + o, 1, n >= 16 ? n >> 4 : 1); memset(p, 0xdd, n);
    g_q[g_qh++ % QMAX] = p; g_qbytes += n;
    while (g_qh - g_qt >= QMAX || g_qbytes > QBYTES) { void* v = g_q[g_qt++ % QMAX]; g_qbytes -= malloc_usable_size(v); clear_shadow(v); __libc_free(v); }
}
void* realloc(void* p, size_t n) {
    if (g_side || inside(p)) { if (!p) return malloc(n); if (!n) { free(p); return nullptr; } size_t o = inside(p) ? side_size(p) : malloc_usable_size(p); if (inside(p) && o >= n) return p; void* q = malloc(n); if (!q) return nullptr; memcpy(q, p, o < n ? o : n); free(p); return q; }
    if (!g_heap_on || g_child) return __libc_realloc(p, n);
    if (!p) return malloc(n); if (!n) { free(p); return nullptr; }
    size_t o = malloc_usable_size(p); void* q = malloc(n); if (!q) return nullptr; memcpy(q, p, o < n ? o : n); free(p); return q;
}
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (g_heap_on && p) clear_shadow(p); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
void* valloc(size_t n) { return memalign(4096, n); }
void cfree(void* p) { free(p); }
}
