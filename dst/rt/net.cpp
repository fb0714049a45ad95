// Virtual network: every socket of the code under test is simulated.
#include "rt.h"
#include <deque>
#include <set>
#include <algorithm>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/eventfd.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <fcntl.h>

namespace dst {
NetCfg netcfg;
static const int FD0 = 300, NFD = 700;
struct Conn {
    u32 ip = 0x7f000001; int id = 0; int lport = 0, rport = 0; ConnCb cb; bool inbound = false;
    int fd = -1; bool code_closed = false, code_wr_shut = false, code_rd_shut = false, accepted = false, established = false, refused = false;
    std::string rx; bool fin_in = false, rst_in = false; std::string actor_q; bool actor_closed = false, actor_fin_q = false;
    u64 last_in = 0, last_out = 0; size_t unacked = 0, win_out, win_in, inflight_in = 0; std::string abuf; bool reading = true, told_close = false; u64 rate = 0; bool draining = false; u64 nread = 0, nsent = 0;
};
struct Dgram { std::string d; int srcport; u32 ip; };
struct Sock { int type = 0; bool nb = false; bool listening = false; int backlog = 0; int port = 0; bool bound = false; std::deque<Conn*>* q = nullptr; Conn* c = nullptr; std::deque<Dgram>* dq = nullptr; int kind = 0; u64 ev = 0; u64 rcvto = 0; int gen = 0; int dport = 0; bool shut = false; bool connecting = false; };
static Sock* g_fd[NFD]; static int g_connid, g_ephem, g_ephem2;
static std::map<int, std::function<ConnCb(Conn*)>>* g_alisten; static std::map<int, std::function<void(const std::string&, int)>>* g_audp;
static const char NETKEY = 0;
bool net_isfd(int fd) { return fd >= FD0 && fd < FD0 + NFD; }
static Sock* S(int fd) { return net_isfd(fd) ? g_fd[fd - FD0] : nullptr; }
void net_reset_all() { g_ephem = 40000; g_ephem2 = 50000; if (!g_alisten) { g_alisten = new std::map<int, std::function<ConnCb(Conn*)>>; g_audp = new std::map<int, std::function<void(const std::string&, int)>>; } }
void wake_net() { wake(&NETKEY, 1000); }
static int newfd(Sock* s) { for (int i = 0; i < NFD; i++) if (!g_fd[i]) { g_fd[i] = s; s->gen++; return FD0 + i; } errno = EMFILE; return -1; }
int net_open_fds(bool conns) { int n = 0; for (int i = 0; i < NFD; i++) if (g_fd[i] && (!conns || g_fd[i]->c)) n++; return n; }
int net_local_port(int fd) { Sock* s = S(fd); return s ? s->port : -1; }
std::vector<int> net_listening_ports() { std::vector<int> v; for (int i = 0; i < NFD; i++) if (g_fd[i] && g_fd[i]->listening) v.push_back(g_fd[i]->port); return v; }
std::string net_dump() { std::string o; for (int i = 0; i < NFD; i++) if (g_fd[i]) { Sock* s = g_fd[i]; o += fmt("fd%d kind%d port%d%s%s; ", FD0 + i, s->kind, s->port, s->listening ? " listening" : "", s->c ? fmt(" conn%d rx%zu", s->c->id, s->c->rx.size()).c_str() : ""); } return o; }
static u64 lat(const char* w) { u64 lo = netcfg.lat_lo, hi = netcfg.lat_hi; if (hi <= lo) return lo; static u64 ctr; return lo + mix64(spec.seed * 31 + ++ctr) % (hi - lo); }
static void tell_close(Conn* c, int why) { if (c->told_close) return; c->told_close = true; if (c->cb.on_close) c->cb.on_close(c, why); }

// ---- actor -> code
static void pump_in(Conn* c) {
    while (!c->actor_q.empty() && c->rx.size() + c->inflight_in < c->win_in) {
        size_t n = std::min(c->actor_q.size(), c->win_in - c->rx.size() - c->inflight_in);
        if (netcfg.seg_max > 0) { static u64 ctr; n = std::min<size_t>(n, 1 + mix64(spec.seed * 77 + ++ctr) % netcfg.seg_max); }
        std::string d = c->actor_q.substr(0, n); c->actor_q.erase(0, n); c->inflight_in += n;
        u64 t = std::max(c->last_in, g_vt + lat("in")); c->last_in = t;
        at(t, [c, d] { c->inflight_in -= d.size(); if (c->code_closed || c->rst_in) { return; } c->rx += d; fold(hstr("rx") ^ d.size()); wake_net(); });
    }
    if (c->actor_q.empty() && c->actor_fin_q) { c->actor_fin_q = false; u64 t = std::max(c->last_in, g_vt + lat("in")); c->last_in = t; at(t, [c] { c->fin_in = true; wake_net(); }); }
}
void net_send(Conn* c, const std::string& d) { if (c->actor_closed || c->rst_in) return; c->actor_q += d; c->nsent += d.size(); if (c->established) pump_in(c); }
void net_shutdown_wr(Conn* c) { if (c->actor_closed) return; c->actor_fin_q = true; pump_in(c); }
void net_close(Conn* c) { if (c->actor_closed) return; c->actor_closed = true; c->told_close = true; c->actor_fin_q = true; if (c->established) pump_in(c); c->unacked = 0; wake_net(); }
void net_reset(Conn* c) { if (c->rst_in) return; c->actor_closed = true; c->told_close = true; u64 t = g_vt + lat("in"); at(t, [c] { c->rst_in = true; c->rx.clear(); wake_net(); }); }
bool net_open(Conn* c) { return !c->actor_closed && !c->told_close && !c->rst_in; }
size_t net_unread(Conn* c) { return c->actor_q.size() + c->inflight_in + c->rx.size(); }
static void drain(Conn* c) {
    if (c->draining || !c->reading || c->abuf.empty()) return;
    if (!c->rate) { std::string d; d.swap(c->abuf); c->unacked -= std::min(c->unacked, d.size()); wake_net(); if (c->cb.on_data && !c->actor_closed) c->cb.on_data(c, d); return; }
    c->draining = true; size_t n = std::min<size_t>(c->abuf.size(), 256);
    at(g_vt + c->rate * n / 1024 + 1, [c, n] { c->draining = false; if (!c->reading) return; std::string d = c->abuf.substr(0, n); c->abuf.erase(0, n); c->unacked -= std::min(c->unacked, d.size()); wake_net(); if (c->cb.on_data && !c->actor_closed) c->cb.on_data(c, d); drain(c); });
}
void net_set_reading(Conn* c, bool on) { c->reading = on; if (on) drain(c); }
void net_set_ip(Conn* c, const char* ip) { c->ip = ntohl(inet_addr(ip)); }
void net_set_rate(Conn* c, u64 r) { c->rate = r; }
void net_set_window(Conn* c, size_t o, size_t i) { c->win_out = o; c->win_in = i; }
Conn* net_connect(int port, const ConnCb& cb, u64 latency) {
    Conn* c = new Conn; c->id = ++g_connid; c->cb = cb; c->lport = port; c->rport = ++g_ephem2; c->win_out = netcfg.win_out; c->win_in = netcfg.win_in; c->inbound = true;
    at(g_vt + latency + lat("syn"), [c, port] {
        if (c->actor_closed) return;
        Sock* l = nullptr; for (int i = 0; i < NFD; i++) if (g_fd[i] && g_fd[i]->listening && g_fd[i]->port == port) l = g_fd[i];
        if (!l || (int)l->q->size() > l->backlog) { c->refused = true; at(g_vt + lat("r"), [c] { tell_close(c, 2); }); return; }
        c->established = true; l->q->push_back(c); wake_net();
        at(g_vt + lat("synack"), [c] { if (c->actor_closed) return; if (c->cb.on_open) c->cb.on_open(c); pump_in(c); }); });
    return c;
}
void net_listen(int port, std::function<ConnCb(Conn*)> f) { (*g_alisten)[port] = std::move(f); }
void net_unlisten(int port) { g_alisten->erase(port); }
// ---- code -> actor
static void deliver_out(Conn* c, const std::string& d) {
    u64 t = std::max(c->last_out, g_vt + lat("out")); c->last_out = t;
    at(t, [c, d] { if (c->actor_closed) { at(g_vt + lat("rst"), [c] { if (!c->rst_in) { c->rst_in = true; wake_net(); } }); return; } c->abuf += d; drain(c); });
}
static void code_fin(Conn* c, bool rst) { u64 t = std::max(c->last_out, g_vt + lat("out")); c->last_out = t; at(t, [c, rst] { if (c->actor_closed) return; struct W { static void go(Conn* c, bool rst, int n) { if (!rst && !c->abuf.empty()) { if (!c->reading && n > 500) c->abuf.clear(); else { at(g_vt + 1000000, [c, rst, n] { go(c, rst, n + 1); }); return; } } tell_close(c, rst ? 1 : 0); } }; W::go(c, rst, 0); }); }
static void close_conn(Conn* c) { if (c->code_closed) return; c->code_closed = true; if (!c->accepted && c->inbound) { code_fin(c, true); return; } code_fin(c, !c->rx.empty() || c->rst_in); }
// ---- UDP
void udp_bind_actor(int port, std::function<void(const std::string&, int)> cb) { (*g_audp)[port] = std::move(cb); }
void udp_send_to_code(int port, const std::string& data, int srcport, const char* ip) {
    u32 a = inet_addr(ip); int copies = 1; u32 v; if (fault("udp_loss")) return; if (fault("udp_dup")) copies = 2;
    for (int k = 0; k < copies; k++) { u64 d = lat("udp"); static std::map<int, u64> last; if (fault("udp_reorder", &v)) d += (v % 50) * MS; else last[port] = g_vt + (d = std::max(g_vt + d, last[port]) - g_vt);
        at(g_vt + d, [=] { for (int i = 0; i < NFD; i++) { Sock* s = g_fd[i]; if (s && s->kind == 2 && s->bound && s->port == port && s->dq->size() < 64) { s->dq->push_back(Dgram{data, srcport, a}); wake_net(); } } }); }
}
static int new_event_sock() { Sock* s = new Sock; s->kind = 3; return newfd(s); }
int net_new_eventfd() { return new_event_sock(); }
static bool readable(Sock* s) {
    if (s->kind == 3) return s->ev > 0; if (s->kind == 2) return !s->dq->empty() || s->shut;
    if (s->listening) return !s->q->empty(); if (s->c) return !s->c->rx.empty() || s->c->fin_in || s->c->rst_in || s->c->code_rd_shut; return true;
}
static size_t room(Conn* c) { size_t r = c->win_out > c->unacked ? c->win_out - c->unacked : 0; if (netcfg.nb_chunk) r = r / netcfg.nb_chunk * netcfg.nb_chunk; return r; }
static bool writable(Sock* s) { if (s->kind == 1 && s->connecting) return false; if (s->c) return room(s->c) > 0 || s->c->rst_in || s->c->code_wr_shut; return !s->listening; }
static bool errcond(Sock* s) { return s->c && s->c->rst_in; }
static Wake waitnet(u64 dl, const char* w) { return block(&NETKEY, dl, w, true, true); }
static ssize_t do_recv(int fd, Sock* s, void* b, size_t n, int fl, struct sockaddr_in* from) {
    u64 dl = s->rcvto ? g_vt + s->rcvto : UINT64_MAX; bool nb = s->nb || (fl & MSG_DONTWAIT);
    if (s->kind == 3) { while (!s->ev) { if (nb) { errno = EAGAIN; return -1; } Wake w = waitnet(UINT64_MAX, "eventfd"); if (w == WK_CANCEL) testcancel(); if (w == WK_SIGNAL) { errno = EINTR; return -1; } } if (n < 8) { errno = EINVAL; return -1; } memcpy(b, &s->ev, 8); s->ev = 0; return 8; }
    if (s->kind == 2) {
        for (;;) { if (!s->dq->empty()) { Dgram d = s->dq->front(); if (!(fl & MSG_PEEK)) s->dq->pop_front(); size_t k = std::min(n, d.d.size()); memcpy(b, d.d.data(), k); if (from) { memset(from, 0, sizeof *from); from->sin_family = AF_INET; from->sin_port = htons(d.srcport); from->sin_addr.s_addr = d.ip; } return (fl & MSG_TRUNC) ? d.d.size() : k; }
            if (s->shut) return 0; if (nb) { errno = EAGAIN; return -1; }
            Wake w = waitnet(dl, "recvfrom"); if (w == WK_CANCEL) testcancel(); if (w == WK_TIMEOUT) { errno = EAGAIN; return -1; } if (w == WK_SIGNAL) { errno = EINTR; return -1; } }
    }
    Conn* c = s->c; if (!c) { errno = ENOTCONN; return -1; }
    if (fault("recv_eintr")) { errno = EINTR; return -1; }
    for (;;) {
        if (c->rst_in) { c->rx.clear(); errno = ECONNRESET; return -1; }
        if (!c->rx.empty() && !((fl & MSG_WAITALL) && c->rx.size() < n && !c->fin_in && !nb)) { size_t k = std::min(n, c->rx.size()); memcpy(b, c->rx.data(), k); if (from) { memset(from, 0, sizeof *from); from->sin_family = AF_INET; from->sin_addr.s_addr = htonl(0x7f000001); from->sin_port = htons(c->rport); }
            if (!(fl & MSG_PEEK)) { c->rx.erase(0, k); c->nread += k; pump_in(c); } return k; }
        if (c->fin_in || c->code_rd_shut) return 0; if (n == 0) return 0; if (nb) { errno = EAGAIN; return -1; }
        Wake w = waitnet(dl, "recv"); if (w == WK_CANCEL) testcancel(); if (w == WK_TIMEOUT) { errno = EAGAIN; return -1; } if (w == WK_SIGNAL) { errno = EINTR; return -1; }
    }
}
static ssize_t do_send(int fd, Sock* s, const void* b, size_t n, int fl, const struct sockaddr_in* to) {
    if (s->kind == 3) { u64 v; memcpy(&v, b, 8); s->ev += v; wake_net(); return 8; }
    if (s->kind == 2) { int port = to ? ntohs(to->sin_port) : s->dport; std::string d((const char*)b, n); int sp = s->port ? s->port : (s->port = ++g_ephem); auto it = g_audp->find(port); u32 v; if (fault("udp_send_err")) { errno = ENOBUFS; return -1; } if (it != g_audp->end() && !fault("udp_loss")) { auto f = it->second; u64 dl = lat("udp"); static std::map<int, u64> last; if (fault("udp_reorder", &v)) dl += (v % 50) * MS; else last[port] = g_vt + (dl = std::max(g_vt + dl, last[port]) - g_vt); at(g_vt + dl, [f, d, sp] { f(d, sp); }); if (fault("udp_dup")) at(g_vt + dl + lat("dup"), [f, d, sp] { f(d, sp); }); }
        return n; }
    Conn* c = s->c; if (!c || !c->established) { errno = ENOTCONN; return -1; }
    bool nb = s->nb || (fl & MSG_DONTWAIT); size_t done = 0; const char* p = (const char*)b;
    if (fault("send_eintr")) { errno = EINTR; return -1; }
    for (;;) {
        if (c->rst_in || c->code_wr_shut) { if (done) return done; if (!(fl & MSG_NOSIGNAL)) { raise_async(SIGPIPE); } errno = EPIPE; return -1; }
        size_t r = c->actor_closed ? n - done : room(c); u32 v; if (r > n - done) r = n - done;
        if (r) { if (nb && r > 1 && fault("send_partial", &v)) r = 1 + v % (r - 1); std::string d(p + done, r); c->unacked += r; done += r; deliver_out(c, d); fold(hstr("tx") ^ r); if (done == n || nb) return done; }
        else if (n == 0) return 0;
        else if (nb) { if (done) return done; errno = EAGAIN; return -1; }
        else { Wake w = waitnet(UINT64_MAX, "send"); if (w == WK_CANCEL) testcancel(); if (w == WK_SIGNAL) { if (done) return done; errno = EINTR; return -1; } }
    }
}
} // namespace dst
using namespace dst;
#define NEEDFD(s) Sock* s = S(fd); if (!s) { errno = net_isfd(fd) ? EBADF : ENOTSOCK; return -1; }
extern "C" {
int socket(int dom, int type, int) noexcept { RtGuard g; op("socket"); if (fault("socket_fail")) { errno = EMFILE; return -1; } if (dom != AF_INET) { errno = EAFNOSUPPORT; return -1; } Sock* s = new Sock; s->type = type & 0xff; s->kind = s->type == SOCK_DGRAM ? 2 : 1; if (s->kind == 2) s->dq = new std::deque<Dgram>; s->nb = type & SOCK_NONBLOCK; return newfd(s); }
int bind(int fd, const struct sockaddr* a, socklen_t) noexcept { RtGuard g; op("bind"); NEEDFD(s) int p = ntohs(((struct sockaddr_in*)a)->sin_port); if (fault("bind_fail")) { errno = EADDRINUSE; return -1; }
    if (p && s->kind == 1) for (int i = 0; i < NFD; i++) if (g_fd[i] && g_fd[i] != s && g_fd[i]->kind == 1 && g_fd[i]->bound && g_fd[i]->port == p && !g_fd[i]->c) { errno = EADDRINUSE; return -1; }
    s->port = p ? p : ++g_ephem; s->bound = true; return 0; }
int listen(int fd, int n) noexcept { RtGuard g; op("listen"); NEEDFD(s) s->listening = true; s->backlog = n < 1 ? 1 : n; if (!s->q) s->q = new std::deque<Conn*>; if (!s->port) { s->port = ++g_ephem; s->bound = true; } return 0; }
int accept(int fd, struct sockaddr* a, socklen_t* l) { RtGuard g; op("accept"); testcancel(); NEEDFD(s) if (!s->listening) { errno = EINVAL; return -1; } if (fault("accept_fail")) { errno = ECONNABORTED; return -1; } if (fault("accept_emfile")) { errno = EMFILE; return -1; }
    while (s->q->empty()) { if (s->shut) { errno = EINVAL; return -1; } if (s->nb) { errno = EAGAIN; return -1; } Wake w = waitnet(UINT64_MAX, "accept"); if (w == WK_CANCEL) testcancel(); if (w == WK_SIGNAL) { errno = EINTR; return -1; } }
    Conn* c = s->q->front(); s->q->pop_front(); c->accepted = true; Sock* n = new Sock; n->kind = 1; n->type = SOCK_STREAM; n->c = c; n->port = s->port; n->bound = true; c->fd = newfd(n); if (a && l) { struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_port = htons(c->rport); sa.sin_addr.s_addr = htonl(c->ip); memcpy(a, &sa, std::min<size_t>(*l, sizeof sa)); *l = sizeof sa; } return c->fd; }
int accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) { int r = accept(fd, a, l); if (r >= 0 && (fl & SOCK_NONBLOCK)) S(r)->nb = true; return r; }
int connect(int fd, const struct sockaddr* a, socklen_t) { RtGuard g; op("connect"); testcancel(); NEEDFD(s) int p = ntohs(((struct sockaddr_in*)a)->sin_port); if (s->kind == 2) { s->dport = p; return 0; } if (s->c && s->c->established) { errno = EISCONN; return -1; }
    if (fault("connect_fail")) { block(&g_cur->go, g_vt + lat("c"), "connect", true, false); errno = ECONNREFUSED; return -1; }
    block(&g_cur->go, g_vt + lat("syn") * 2, "connect", true, false); testcancel();
    auto it = g_alisten->find(p); if (it == g_alisten->end()) { errno = ECONNREFUSED; return -1; }
    Conn* c = new Conn; c->id = ++g_connid; c->lport = ++g_ephem; c->rport = p; c->win_out = netcfg.win_out; c->win_in = netcfg.win_in; c->established = c->accepted = true; s->c = c; s->port = c->lport; s->bound = true; c->fd = fd; c->last_out = g_vt; c->cb = it->second(c); at(g_vt + lat("o"), [c] { if (c->cb.on_open && !c->actor_closed) c->cb.on_open(c); }); return 0; }
ssize_t recv(int fd, void* b, size_t n, int fl) { RtGuard g; op("recv"); testcancel(); NEEDFD(s) return do_recv(fd, s, b, n, fl, nullptr); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { RtGuard g; op("recvfrom"); testcancel(); NEEDFD(s) struct sockaddr_in f; memset(&f, 0, sizeof f); ssize_t r = do_recv(fd, s, b, n, fl, &f); if (r >= 0 && a && l) { memcpy(a, &f, std::min<size_t>(*l, sizeof f)); *l = sizeof f; } return r; }
ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int fl) { return recv(fd, b, n, fl); }
ssize_t send(int fd, const void* b, size_t n, int fl) { RtGuard g; op("send"); testcancel(); NEEDFD(s) return do_send(fd, s, b, n, fl, nullptr); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t) { RtGuard g; op("sendto"); testcancel(); NEEDFD(s) return do_send(fd, s, b, n, fl, (const struct sockaddr_in*)a); }
int shutdown(int fd, int how) noexcept { RtGuard g; op("shutdown"); NEEDFD(s) if (s->listening || s->kind == 2) { s->shut = true; wake_net(); return 0; } if (!s->c) { errno = ENOTCONN; return -1; } if (how != SHUT_RD) { if (!s->c->code_wr_shut) { s->c->code_wr_shut = true; code_fin(s->c, false); } } if (how != SHUT_WR) s->c->code_rd_shut = true; wake_net(); return 0; }
int dst_net_close(int fd) { Sock* s = S(fd); if (!s) { errno = EBADF; return -1; } op("close"); s = S(fd); if (!s) { errno = EBADF; return -1; } g_fd[fd - FD0] = nullptr; if (s->c) close_conn(s->c); if (s->listening) { for (Conn* c : *s->q) close_conn(c); s->q->clear(); s->listening = false; } wake_net(); return 0; }
ssize_t dst_net_read(int fd, void* b, size_t n) { NEEDFD(s) op("read"); testcancel(); return do_recv(fd, s, b, n, 0, nullptr); }
ssize_t dst_net_write(int fd, const void* b, size_t n) { NEEDFD(s) op("write"); testcancel(); return do_send(fd, s, b, n, 0, nullptr); }
int eventfd(unsigned v, int) noexcept { RtGuard g; int fd = new_event_sock(); S(fd)->ev = v; return fd; }
int setsockopt(int fd, int lv, int o, const void* v, socklen_t) noexcept { RtGuard g; NEEDFD(s) if (lv == SOL_SOCKET && o == SO_RCVTIMEO) { auto tv = (struct timeval*)v; s->rcvto = tv->tv_sec * SEC + tv->tv_usec * US; } return 0; }
int getsockopt(int fd, int lv, int o, void* v, socklen_t* l) noexcept { NEEDFD(s) if (v && l && *l >= 4) { *(int*)v = o == SO_TYPE ? s->type : o == SO_ERROR ? (s->c && s->c->rst_in ? ECONNRESET : 0) : (o == SO_SNDBUF || o == SO_RCVBUF) ? 65536 : 0; *l = 4; } return 0; }
int getsockname(int fd, struct sockaddr* a, socklen_t* l) noexcept { NEEDFD(s) struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_port = htons(s->port); sa.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &sa, std::min<size_t>(*l, sizeof sa)); *l = sizeof sa; return 0; }
int getpeername(int fd, struct sockaddr* a, socklen_t* l) noexcept { NEEDFD(s) if (!s->c || s->c->rst_in) { errno = ENOTCONN; return -1; } struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_port = htons(s->c->rport); sa.sin_addr.s_addr = htonl(s->c->ip); memcpy(a, &sa, std::min<size_t>(*l, sizeof sa)); *l = sizeof sa; return 0; }
static int poll_once(struct pollfd* p, nfds_t n) { int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; Sock* s = S(p[i].fd); if (!s) { if (net_isfd(p[i].fd)) { p[i].revents = POLLNVAL; c++; } continue; } if ((p[i].events & POLLIN) && readable(s)) p[i].revents |= POLLIN; if ((p[i].events & POLLOUT) && writable(s)) p[i].revents |= POLLOUT; if (errcond(s)) p[i].revents |= POLLERR | POLLHUP; else if (s->c && s->c->fin_in && s->c->code_wr_shut) p[i].revents |= POLLHUP; if (p[i].revents) c++; } return c; }
int poll(struct pollfd* p, nfds_t n, int ms) { RtGuard g; op("poll"); testcancel(); u64 dl = ms < 0 ? UINT64_MAX : g_vt + (u64)ms * MS; for (;;) { int c = poll_once(p, n); if (c) return c; if (ms == 0) return 0; if (g_vt >= dl) return 0; Wake w = waitnet(dl, "poll"); if (w == WK_CANCEL) testcancel(); if (w == WK_SIGNAL) { errno = EINTR; return -1; } } }
int __poll_chk(struct pollfd* p, nfds_t n, int ms, size_t) { return poll(p, n, ms); }
int select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    RtGuard g; op("select"); testcancel(); u64 dl = tv ? g_vt + tv->tv_sec * SEC + tv->tv_usec * US : UINT64_MAX; fd_set ri, wi; FD_ZERO(&ri); FD_ZERO(&wi); if (r) ri = *r; if (w) wi = *w;
    for (;;) {
        int c = 0; fd_set ro, wo; FD_ZERO(&ro); FD_ZERO(&wo);
        for (int fd = 0; fd < nfds; fd++) { bool ir = r && FD_ISSET(fd, &ri), iw = w && FD_ISSET(fd, &wi); if (!ir && !iw) continue; if (!net_isfd(fd)) continue; Sock* s = S(fd); if (!s) { errno = EBADF; return -1; } if (ir && readable(s)) { FD_SET(fd, &ro); c++; } if (iw && writable(s)) { FD_SET(fd, &wo); c++; } }
        if (c || g_vt >= dl) { if (r) *r = ro; if (w) *w = wo; if (e) FD_ZERO(e); return c; }
        Wake k = waitnet(dl, "select"); if (k == WK_CANCEL) testcancel(); if (k == WK_SIGNAL) { errno = EINTR; return -1; }
    }
}
int dst_net_fcntl(int fd, int cmd, long arg) { NEEDFD(s) if (cmd == F_GETFL) return O_RDWR | (s->nb ? O_NONBLOCK : 0); if (cmd == F_SETFL) { s->nb = arg & O_NONBLOCK; return 0; } return 0; }
int dst_net_ioctl(int fd, unsigned long rq, void* arg) { NEEDFD(s) if (rq == FIONREAD) { *(int*)arg = s->c ? s->c->rx.size() : s->dq && !s->dq->empty() ? s->dq->front().d.size() : 0; return 0; } if (rq == FIONBIO) { s->nb = *(int*)arg; return 0; } errno = EINVAL; return -1; }
struct hostent* gethostbyname(const char* n) { static struct hostent h; static char* al[1]; static char* ad[2]; static in_addr a; a.s_addr = htonl(0x7f000001); if (n && *n >= '0' && *n <= '9') { in_addr_t x = inet_addr(n); if (x != INADDR_NONE) a.s_addr = x; } static char nm[64]; snprintf(nm, 64, "%s", n ? n : ""); h.h_name = nm; h.h_aliases = al; h.h_addrtype = AF_INET; h.h_length = 4; ad[0] = (char*)&a; ad[1] = 0; h.h_addr_list = ad; return &h; }
int gethostname(char* b, size_t n) noexcept { snprintf(b, n, "simhost"); return 0; }
int getaddrinfo(const char* node, const char* srv, const struct addrinfo* hints, struct addrinfo** out) { RtGuard g; struct addrinfo* ai = (struct addrinfo*)calloc(1, sizeof *ai + sizeof(struct sockaddr_in)); struct sockaddr_in* sa = (struct sockaddr_in*)(ai + 1); sa->sin_family = AF_INET; sa->sin_port = htons(srv ? atoi(srv) : 0); sa->sin_addr.s_addr = (hints && (hints->ai_flags & AI_PASSIVE) && !node) ? 0 : htonl(0x7f000001); if (node) { in_addr_t x = inet_addr(node); if (x != INADDR_NONE) sa->sin_addr.s_addr = x; } ai->ai_family = AF_INET; ai->ai_socktype = hints ? hints->ai_socktype : SOCK_STREAM; ai->ai_addrlen = sizeof *sa; ai->ai_addr = (struct sockaddr*)sa; *out = ai; return 0; }
void freeaddrinfo(struct addrinfo* a) noexcept { free(a); }
}
