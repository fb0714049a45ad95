// Files, processes and exit paths.
#include "rt.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/ioctl.h>
#include <dirent.h>
#include <link.h>
#include <algorithm>
namespace dst {
IoStats iostats; static std::map<int, std::string>* g_track; static u64 g_crash_at = UINT64_MAX; static i64 g_crash_keep; static std::function<bool(const std::string&)>* g_filter; static std::function<void(const std::string&, const void*, size_t)>* g_onw;
static std::string* g_out; static std::vector<std::string>* g_systems; static std::map<int, int>* g_kids; static int g_kid = 6000;
static uintptr_t cxx_lo, cxx_hi;
std::string outdir() { return g_out ? *g_out : ""; }
std::vector<std::string>& systems() { if (!g_systems) g_systems = new std::vector<std::string>; return *g_systems; }
void io_reset_all() { g_track = new std::map<int, std::string>; g_kids = new std::map<int, int>; if (!g_out) { const char* o = getenv("DST_OUT"); g_out = new std::string(o ? o : "/nonexistent"); }
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) { if (i->dlpi_name && strstr(i->dlpi_name, "libstdc++")) for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) { uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz; if (!cxx_lo || a < cxx_lo) cxx_lo = a; if (b > cxx_hi) cxx_hi = b; } return 0; }, nullptr); }
void io_crash_at_write(u64 k, i64 keep) { g_crash_at = k; g_crash_keep = keep; }
void io_managed_filter(std::function<bool(const std::string&)> f) { g_filter = new std::function<bool(const std::string&)>(f); }
void on_write(std::function<void(const std::string&, const void*, size_t)> f) { g_onw = new std::function<void(const std::string&, const void*, size_t)>(f); }
static bool managed(const char* p) { return g_active && g_out && !strncmp(p, g_out->c_str(), g_out->size()); }
static bool track_open(const char* p, int fl) { return managed(p) && (fl & O_ACCMODE) != O_RDONLY; }
REAL(int, open64, const char*, int, ...); REAL(int, close, int); REAL(ssize_t, write, int, const void*, size_t); REAL(ssize_t, writev, int, const struct iovec*, int); REAL(ssize_t, read, int, void*, size_t); REAL(FILE*, fopen64, const char*, const char*); REAL(pid_t, fork, void); REAL(pid_t, waitpid, pid_t, int*, int);
static bool open_fault(const char* p) { if (!g_active || g_child || (g_filter && !(*g_filter)(p))) return false; if (fault("open_fail")) { errno = EMFILE; return true; } return false; }
// decides what happens to one write of n bytes to a tracked file: >=0 bytes to really write, <0 -errno
static ssize_t plan_write(const std::string& path, const char* b, size_t n, int fd, bool may_yield) {
    if (g_filter && !(*g_filter)(path)) return n;
    u64 k = iostats.writes++; u32 v; fold(hstr("write") ^ n);
    if (k == g_crash_at) { i64 kp = g_crash_keep < 0 ? (i64)n : std::min<i64>(g_crash_keep, n); if (fd >= 0 && kp > 0) raw_write(fd, b, kp); finish_run(W_CRASHPOINT, (int)k); }
    if (fault("disk_enospc")) return -ENOSPC; if (fault("disk_eio")) return -EIO; if (fault("disk_eintr")) return -EINTR;
    if (n > 1 && fault("disk_short", &v)) return 1 + v % (n - 1);
    return n;
}
static const std::string* tracked(int fd) { if (!g_active || g_child || !g_track) return nullptr; auto i = g_track->find(fd); return i == g_track->end() ? nullptr : &i->second; }
std::string read_file(const std::string& p) { std::string o; int fd = real_open64()(p.c_str(), O_RDONLY); if (fd < 0) return o; char b[65536]; ssize_t n; while ((n = real_read()(fd, b, sizeof b)) > 0) o.append(b, n); real_close()(fd); return o; }
bool file_exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
std::vector<std::string> list_dir(const std::string& p) { std::vector<std::string> v; DIR* d = opendir(p.c_str()); if (!d) return v; while (struct dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(d); std::sort(v.begin(), v.end()); return v; }
struct Cookie { int fd; std::string path; };
static ssize_t ck_write(void* c, const char* b, size_t n) { Cookie* k = (Cookie*)c; g_rt++; ssize_t r = g_active && !g_child ? plan_write(k->path, b, n, k->fd, false) : n; g_rt--; if (r < 0) { errno = -r; return 0; } return raw_write(k->fd, b, r); }
static ssize_t ck_read(void* c, char* b, size_t n) { return real_read()(((Cookie*)c)->fd, b, n); }
static int ck_seek(void* c, off64_t* o, int w) { off64_t r = lseek64(((Cookie*)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { Cookie* k = (Cookie*)c; int r = real_close()(k->fd); delete k; return r; }
static FILE* do_fopen(const char* p, const char* m, void* ra) {
    if (!managed(p) || !strpbrk(m, "wa+")) return real_fopen64()(p, m);
    RtGuard g; op("fopen"); iostats.opens++; if (open_fault(p)) return nullptr;
    if ((uintptr_t)ra >= cxx_lo && (uintptr_t)ra < cxx_hi) { FILE* f = real_fopen64()(p, m); if (f && !g_child) (*g_track)[fileno(f)] = p; return f; }
    int fl = strchr(m, '+') ? O_RDWR : O_WRONLY; fl |= strchr(m, 'w') ? O_CREAT | O_TRUNC : strchr(m, 'a') ? O_CREAT | O_APPEND : 0; int fd = real_open64()(p, fl, 0666); if (fd < 0) return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; return fopencookie(new Cookie{fd, p}, m, io);
}
}
using namespace dst;
extern "C" {
int dst_net_close(int); ssize_t dst_net_read(int, void*, size_t); ssize_t dst_net_write(int, const void*, size_t); int dst_net_fcntl(int, int, long); int dst_net_ioctl(int, unsigned long, void*);
static int do_open(const char* p, int fl, int mode) { if (track_open(p, fl)) { RtGuard g; op("open"); iostats.opens++; if (open_fault(p)) return -1; int fd = real_open64()(p, fl, mode); if (fd >= 0 && !g_child) (*g_track)[fd] = p; return fd; } return real_open64()(p, fl, mode); }
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(p, fl, m); }
int creat(const char* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE* fopen(const char* p, const char* m) { return do_fopen(p, m, __builtin_return_address(0)); }
FILE* fopen64(const char* p, const char* m) { return do_fopen(p, m, __builtin_return_address(0)); }
int close(int fd) { if (net_isfd(fd)) { RtGuard g; return dst_net_close(fd); } if (tracked(fd)) { RtGuard g; op("fclose"); g_track->erase(fd); } return real_close()(fd); }
ssize_t write(int fd, const void* b, size_t n) {
    if (net_isfd(fd)) { RtGuard g; return dst_net_write(fd, b, n); }
    if (const std::string* p = tracked(fd)) { RtGuard g; std::string pp = *p; op("fwrite"); ssize_t r = plan_write(pp, (const char*)b, n, fd, true); if (r < 0) { errno = -r; return -1; } iostats.bytes += r; if (g_onw) (*g_onw)(pp, b, r); return real_write()(fd, b, r); }
    return real_write()(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (tracked(fd) || net_isfd(fd)) { std::string s; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len); return write(fd, s.data(), s.size()); }
    return real_writev()(fd, v, c); }
ssize_t read(int fd, void* b, size_t n) { if (net_isfd(fd)) { RtGuard g; return dst_net_read(fd, b, n); } return real_read()(fd, b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); if (net_isfd(fd)) return dst_net_fcntl(fd, cmd, x); static int (*f)(int, int, ...); if (!f) f = (int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl"); return f(fd, cmd, x); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return fcntl(fd, cmd, x); }
int ioctl(int fd, unsigned long rq, ...) noexcept { va_list a; va_start(a, rq); void* x = va_arg(a, void*); va_end(a); if (net_isfd(fd)) return dst_net_ioctl(fd, rq, x); static int (*f)(int, unsigned long, ...); if (!f) f = (int (*)(int, unsigned long, ...))dlsym(RTLD_NEXT, "ioctl"); return f(fd, rq, x); }
// ---------------------------------------------------------------- processes
pid_t fork() noexcept {
    if (!g_active || g_child) return real_fork()();
    RtGuard g; op("fork"); if (fault("fork_fail")) { errno = EAGAIN; return -1; }
    pid_t p = real_fork()();
    if (p == 0) { g_child = true; for (int i = 0; i < g_ntasks; i++) if (&g_tasks[i] != g_cur) g_tasks[i].st = DEAD; return 0; }
    int st = 0; for (int i = 0; i < 20000; i++) { pid_t r = real_waitpid()(p, &st, WNOHANG); if (r == p) { int v = ++g_kid; (*g_kids)[v] = st; fold(st); if (WIFEXITED(st) && WEXITSTATUS(st) == 99) violation("", "forked child blocks forever", "a forked helper process waits for a lock or event that nobody can signal"); if (WIFSIGNALED(st)) violation("", "forked child crashes", "a forked helper process died with signal %d", WTERMSIG(st)); g_vt += 2 * MS; return v; }
        struct timespec ts = {0, 1000000}; long rr; register long r10 asm("r10") = 0; asm volatile("syscall" : "=a"(rr) : "a"(SYS_nanosleep), "D"(&ts), "S"(0) : "rcx", "r11", "memory"); }
    invalid("forked helper did not end"); finish_run(W_STOP, 0);
}
pid_t waitpid(pid_t p, int* st, int fl) { if (!g_active) return real_waitpid()(p, st, fl); RtGuard g; op("waitpid"); auto i = p > 0 ? g_kids->find(p) : g_kids->begin(); if (i == g_kids->end()) { errno = ECHILD; return -1; } p = i->first; if (st) *st = i->second; g_kids->erase(i); return p; }
pid_t wait(int* st) { return waitpid(-1, st, 0); }
int dst_kill(pid_t, int) { return 0; }
int system(const char* c) { RtGuard g; if (!c) return 1; op("system"); if (g_active) { systems().push_back(c); return 0; } return 0; }
void exit(int c) noexcept { if (g_child) { fflush(0); syscall(SYS_exit_group, c); } if (g_active) { RtGuard g; finish_run(W_EXIT, c); } fflush(0); syscall(SYS_exit_group, c); __builtin_unreachable(); }
void _exit(int c) { if (g_active && !g_child) { RtGuard g; finish_run(W_EXIT, c); } syscall(SYS_exit_group, c); __builtin_unreachable(); }
void _Exit(int c) noexcept { _exit(c); }
void abort() noexcept { at_crash_signal(SIGABRT, nullptr); syscall(SYS_exit_group, 134); __builtin_unreachable(); }
}
