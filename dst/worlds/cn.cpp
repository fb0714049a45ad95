// Client connections: framing of lines and datagrams, whole messages out, nothing written outside a buffer. N02.
#include "common.hh"
#include <stdarg.h>
#include "trick/TCPConnection.hh"
#include "trick/UDPConnection.hh"
#include "trick/MulticastGroup.hh"
#include "trick/TCPClientListener.hh"
#include <thread>
#include <unistd.h>
#include <sys/socket.h>
using namespace w;
namespace {
enum { F_TCP = 1, F_UDP = 2, F_MC = 4, F_NETF = 8, F_END = 16, F_FAIL = 32, F_BIG = 64, F_WR = 128, F_LEN = 256 };
int feat; const int MAXC = 200000;
inline u64 mx(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ x >> 33; }
void bad(const char* c, const char* f, ...) __attribute__((format(printf, 2, 3)));
void bad(const char* c, const char* f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); violation("N02", c, "%s", b); }
// any bytes, with returns and zeros among them
std::string noise(u64 seed, int n) { std::string s(n, 0); for (int i = 0; i < n; i++) { unsigned char c = mx(seed * 7919 + i / 8) >> (i % 8 * 8); if (c == '\n') c = 'n'; if (c > 250) c = '\r'; s[i] = c; } return s; }
std::string strip(const std::string& s) { std::string o; for (char c : s) if (c != '\r') o += c; return o; }
std::string show(const std::string& s) { std::string o = fmt("%zu bytes '", s.size()); for (size_t i = 0; i < s.size() && i < 24; i++) o += isprint((unsigned char)s[i]) ? std::string(1, s[i]) : fmt("\\%02x", (unsigned char)s[i]); return o + "'"; }
bool faulty(std::initializer_list<const char*> k) { for (auto x : k) if (fault_count(x)) return true; return false; }
struct Tcp {
    int id; Trick::TCPClientListener* l; Trick::TCPConnection* c = nullptr; Conn* k = nullptr; bool fin = false, rst = false, up = false; std::string sent, got, out; u64 t_end = 0; bool reader_done = false, gone = false;
    struct W { int thr, n; std::string m; u64 t0, t1; }; std::vector<W> acc; std::string L(const char* x) { return fmt("t%d.%s", id, x); }
};
std::vector<Tcp*> tcps;
int zsize(const char* lb, int i) { static const int Z[] = {1, 12, 60, 0, 300, 3000, 20000, 120}; int z = Z[pickf((feat & F_BIG) ? 8 : 6, "%sz%d", lb, i)]; z += pickf(30, "%sy%d", lb, i); if ((feat & F_BIG) && pickf(12, "%sb%d", lb, i) == 11) z = MAXC - 20 + pickf(40, "%sbb%d", lb, i); return z; }
void peer_end(Tcp* t, int how) { if (t->fin || t->rst) return; t->t_end = now(); if (how == 2) { t->rst = true; net_reset(t->k); } else { t->fin = true; if (how == 1) { t->rst = true; net_close(t->k); } else net_shutdown_wr(t->k); } }
void peer_talk(Tcp* t) {
    std::string l = t->L(""); const char* lb = l.c_str(); int n = 1 + pickf(14, "%sn", lb); u64 at_ = now();
    for (int i = 0; i < n; i++) { at_ += pickf(80, "%sg%d", lb, i) * 100 * US; std::string d; int lines = 1 + pickf(3, "%sl%d", lb, i); for (int j = 0; j < lines; j++) d += noise(t->id * 1000 + i * 10 + j, zsize(lb, i * 4 + j)) + (pickf(8, "%snr%d", lb, i * 4 + j) == 7 ? "\r\n" : "\n"); if (pickf(4, "%sp%d", lb, i) == 3) d += noise(t->id * 999 + i, 1 + pickf(50, "%spz%d", lb, i)); at(at_, [t, d] { if (t->fin || t->rst) return; t->sent += d; net_send(t->k, d); }); }
    if (feat & F_NETF) for (int i = 0; i < 3; i++) if (pickf(2, "%sst%d", lb, i)) { u64 a = now() + pickf(200, "%ssa%d", lb, i) * 100 * US, b = a + (1 + pickf(400, "%ssb%d", lb, i)) * 100 * US; at(a, [t] { net_set_reading(t->k, false); }); at(b, [t] { net_set_reading(t->k, true); }); }
    int how = (feat & F_END) ? pickf(3, "%send", lb) : 0; u64 te = (feat & F_END) && pickf(2, "%sel", lb) ? now() + pickf(500, "%set", lb) * 100 * US : at_ + 100 * MS; at(te, [t, how] { peer_end(t, how); });
}
void writer(Tcp* t, int me) {
    std::string l = fmt("t%d.w%d.", t->id, me); const char* lb = l.c_str(); int n = pickf(12, "%sn", lb);
    for (int i = 0; i < n && !violated("N02"); i++) {
        std::string m = fmt("<%d:%d:", me, i) + noise(t->id * 77 + me * 13 + i, zsize(lb, i) % 30000) + ">"; for (char& c : m) if (c == 0 && pickf(2, "%sk%d", lb, i) == 0) c = 'z';
        u64 t0 = seqno(); int r = pickf(2, "%so%d", lb, i) ? t->c->write(m) : t->c->write(&m[0], m.size()); note_step(); step("wr", r + 1);
        if (r == (int)m.size()) { t->acc.push_back({me, i, m, t0, seqno()}); probe("written"); } else if (r == -1) { probe("refused"); } else { bad("a write returned neither the size of the message nor a failure", "%d of %zu", r, m.size()); return; }
        usleep(pickf(60, "%su%d", lb, i) * 100);
    }
}
void reader(Tcp* t) {
    std::string l = t->L("r."); const char* lb = l.c_str(); int lim = MAXC; if (feat & F_LEN) { static const int M[] = {MAXC, 100, 5000, 500000, 1000}; lim = M[pickf(5, "%slim", lb)]; } int cap = std::min(lim, MAXC); u64 t0 = now();
    while (!violated("N02")) {
        std::string m = "junk"; int r = t->c->read(m, lim); note_step();
        if (r > 0) { step("rd", r); if ((size_t)r != m.size() || m.size() < 2 || m[m.size() - 1] != 0 || m[m.size() - 2] != '\n') { bad("a read did not return complete lines", "%d, %s", r, show(m).c_str()); return; } m.pop_back(); t->got += m; std::string want = strip(t->sent).substr(0, t->got.size()); if (t->got != want) { size_t i = 0; while (i < want.size() && i < t->got.size() && want[i] == t->got[i]) i++; bad("a connection returned something else than was sent", "at byte %zu: %s, expected %s", i, show(t->got.substr(i)).c_str(), show(want.substr(i)).c_str()); return; } probe("lines"); }
        else if (r == 0) { if (m.size()) { bad("a read that returned nothing left a message", "%s", show(m).c_str()); return; } usleep(1000); }
        else {
            // the connection is given up: its peer left, or the line is too long
            std::string s = strip(t->sent); size_t p = 0, longest = 0, cur = 0; for (char c : t->sent) { cur++; if (c == '\n') { longest = std::max(longest, cur); cur = 0; } } longest = std::max(longest, cur); (void)p;
            if (r != -1) bad("a read returned neither a size nor a failure", "%d", r); t->gone = true;
            if (!t->fin && !t->rst && (int)longest < cap) { bad("a connection was given up though its peer is there", "longest line %zu, limit %d", longest, cap); return; }
            if (t->fin && !t->rst && (int)longest < cap) { size_t e = s.rfind('\n'); std::string want = e == std::string::npos ? "" : s.substr(0, e + 1); if (t->got != want) { bad("complete lines that were sent before an orderly close were not returned", "%zu of %zu bytes", t->got.size(), want.size()); return; } probe("closed"); } else probe(t->rst ? "reset" : "too-long");
            return;
        }
        if (now() - t0 > 20 * SEC) { bad("the end of a connection is never seen", "fin %d rst %d", t->fin, t->rst); return; }
    }
}
void tcp_body(Tcp* t) {
    u64 t0 = now(); bool conn = false; while (!(conn = t->l->checkForNewConnections()) && now() - t0 < 5 * SEC) {} note_step();
    if (!conn) { bad("a client that connected is not seen", "session %d", t->id); return; }
    t->c = t->l->setUpNewConnection(); u64 f = fault_count("accept_fail") + fault_count("accept_emfile"); int r = t->c->start();
    if (r) { note_step(); if (fault_count("accept_fail") + fault_count("accept_emfile") == f) bad("a connection could not be accepted", "%d", r); if (t->c->isInitialized()) bad("a connection that failed is said to be there", "session %d", t->id); std::string m; if (t->c->write("x") != -1 || t->c->read(m) > 0) bad("a connection that failed was used", "session %d", t->id); t->l->disconnect(); delete t->l; return; }
    t->up = true; probe("accepted"); if (!t->c->isInitialized()) bad("a connection that was accepted is said not to be there", "session %d", t->id);
    std::vector<std::thread> w; if (feat & F_WR) { int n = 1 + pickf(2, "%s", t->L("nw").c_str()); for (int i = 1; i < n + 1; i++) w.emplace_back(writer, t, i); } reader(t);
    for (auto& x : w) x.join(); note_step();
    // what was accepted is sent on while the peer still reads
    if (!t->rst && !violated("N02") && (feat & F_WR)) { size_t total = 0; for (auto& a : t->acc) total += a.m.size(); u64 e = now(); while (t->out.size() < total && now() - e < 3 * SEC) { std::string m; t->c->read(m); usleep(2000); } }
    if (t->c->disconnect() != 0 || t->c->isInitialized()) bad("a connection could not be closed", "session %d", t->id); if (t->c->disconnect() != -1) bad("a closed connection was closed again", "session %d", t->id); std::string m; if (t->c->write("x") != -1) bad("a closed connection was written to", "session %d", t->id); t->l->disconnect(); delete t->l;
}
void tcp_done(Tcp* t) {
    if (!t->up) return; note_step(); size_t p = 0; std::vector<bool> used(t->acc.size()); std::map<int, int> last; bool cut = false;
    while (p < t->out.size()) { bool hit = false; for (size_t i = 0; i < t->acc.size() && !hit; i++) { auto& a = t->acc[i]; if (used[i]) continue; if (t->out.compare(p, a.m.size(), a.m) == 0) { if (last.count(a.thr) && last[a.thr] > a.n) { bad("messages of one thread were sent out of order", "%d after %d", a.n, last[a.thr]); return; } last[a.thr] = a.n; used[i] = true; p += a.m.size(); hit = true; } }
        if (!hit) { std::string rest = t->out.substr(p); bool part = false; for (size_t i = 0; i < t->acc.size(); i++) if (!used[i] && t->acc[i].m.compare(0, rest.size(), rest) == 0) { part = true; used[i] = true; } if (part && t->rst) { cut = true; break; } bad("what a client received is not a sequence of the messages that were accepted", "at byte %zu of %zu: %s", p, t->out.size(), show(rest).c_str()); return; } }
    if (!t->rst && !cut) for (size_t i = 0; i < t->acc.size(); i++) if (!used[i]) { bad("a message that was accepted was not sent", "%d of writer %d, %zu bytes", t->acc[i].n, t->acc[i].thr, t->acc[i].m.size()); return; }
    if (t->acc.size()) probe("out-compared");
}
// ---- datagrams
struct Udp { int id, port, aport; bool mc; Trick::UDPConnection* u; std::vector<std::pair<std::string, std::string>> sent; std::vector<std::string> wr, got; bool self = false; };
std::vector<Udp*> udps;
void udp_body(Udp* u) {
    std::string l = fmt("u%d.", u->id); const char* lb = l.c_str(); int lim = MAXC; if (feat & F_LEN) { static const int M[] = {MAXC, 100, 2000, 65536, 10}; lim = M[pickf(5, "%slim", lb)]; }
    u64 f = fault_count("socket_fail") + fault_count("bind_fail"); Trick::MulticastGroup* g = u->mc ? new Trick::MulticastGroup : nullptr; u->u = g ? g : new Trick::UDPConnection; int r = g ? g->initialize_with_receiving("", "239.3.14.15", u->port) : u->u->initialize("", u->port); note_step();
    if (r) { if (fault_count("socket_fail") + fault_count("bind_fail") == f) bad("a datagram connection could not be made", "%d", r); else probe("not-made"); u->u->disconnect(); return; }
    if (u->u->start() != 0) { bad("a datagram connection could not be started", "port %d", u->port); return; }
    if (!u->mc && u->u->getPort() != u->port) bad("a datagram connection has a wrong port", "%d", u->u->getPort());
    udp_bind_actor(u->aport, [u](const std::string& d, int) { u->got.push_back(d); });
    int n = 1 + pickf(12, "%sn", lb); u64 t = now() + 100 * MS; int cap = std::min(lim, MAXC);
    for (int i = 0; i < n; i++) {
        t += (2 + pickf(60, "%sg%d", lb, i)) * 100 * US; int kind = pickf(8, "%sk%d", lb, i); std::string d; int lines = 1 + pickf(3, "%sl%d", lb, i); for (int j = 0; j < lines; j++) d += fmt("%d.%d ", i, j) + noise(u->id * 500 + i * 10 + j, zsize(lb, i * 4 + j) % 20000) + "\n";
        if (kind == 1) d = ""; if (kind == 2) { d.pop_back(); for (char& c : d) if (c == '\n') c = ' '; } if (kind == 3) d += "the rest of a line"; bool self = u->mc && kind == 4; if (kind == 5) d = "\n"; if (kind == 6) d = noise(i, cap + 5 > 30000 ? 30000 : cap + 5) + "\n";
        std::string cutd = d.substr(0, std::min<size_t>(d.size(), cap)); size_t e = cutd.rfind('\n'); std::string want = self || e == std::string::npos ? "" : strip(cutd.substr(0, e + 1)) + std::string(1, 0); if (d.size() > (size_t)cap) want = "?" + want; int sp = self ? u->port : u->aport;
        at(t, [u, d, want, sp] { u->sent.push_back({d, want}); udp_send_to_code(u->port, d, sp); });
    }
    u64 last = t; size_t at_i = 0; int wn = 0; std::string endm = "END\n"; at(last + 80 * MS, [u, endm] { for (int k = 0; k < 8; k++) udp_send_to_code(u->port, endm, u->aport); }); bool end = false, heard = false;
    while (now() < last + 3 * SEC && !violated("N02")) {
        std::string m = "junk"; struct { char a[64]; } canary; memset(&canary, 0x77, sizeof canary); int r = u->u->read(m, lim); note_step();
        if (r < 0) { bad("a datagram connection failed though nothing did", "%d", r); break; } if ((size_t)r != m.size()) { if (r == 0) { bad("a read that returned nothing left a message", "%s", show(m).c_str()); break; } bad("a read returned a wrong size", "%d, %s", r, show(m).c_str()); break; }
        if (r == 0) { usleep(500); continue; } step("ud", r); heard = true;
        if (m == std::string("END\n") + std::string(1, 0)) { end = true; break; }
        bool lf = faulty({"udp_loss", "udp_dup", "udp_reorder"}); size_t k = at_i; if (lf) k = 0; for (; k < u->sent.size(); k++) { const std::string& w = u->sent[k].second; if (w == m || w == "?" + m) break; if (!lf && w.size() && w[0] != '?') { k = u->sent.size(); break; } }
        if (k >= u->sent.size()) { bad("a datagram connection returned something else than the next datagram", "%s, expected %s", show(m).c_str(), at_i < u->sent.size() ? show(u->sent[at_i].second).c_str() : "nothing"); break; } at_i = k + 1; probe("datagram");
        if ((feat & F_WR) && pickf(2, "%sw%d", lb, wn)) { std::string o = fmt("reply %d ", wn) + noise(u->id * 31 + wn, zsize(lb, 900 + wn) % 20000); u64 e = fault_count("udp_send_err"); int r = pickf(2, "%so%d", lb, wn) ? u->u->write(o) : u->u->write(&o[0], o.size()); note_step(); if (!u->mc) { if (r == (int)o.size()) u->wr.push_back(o); else if (r != -1 || fault_count("udp_send_err") == e) { bad("a datagram was not written whole", "%d of %zu", r, o.size()); break; } } wn++; }
    }
    if (!violated("N02")) { bool lf = faulty({"udp_loss", "udp_dup", "udp_reorder"}); if (!end && !fault_count("udp_loss")) bad("datagrams that cannot be used keep the next ones from being read", "%zu of %zu were passed", at_i, u->sent.size()); if (end && !lf) for (size_t k = at_i; k < u->sent.size(); k++) if (u->sent[k].second.size() && u->sent[k].second[0] != '?') { bad("a datagram was not read", "%s", show(u->sent[k].second).c_str()); break; } if (end) probe("udp-end"); }
    usleep(80000); if (!violated("N02") && !u->mc && heard) { std::map<std::string, int> c; for (auto& w : u->wr) c[w]++; for (auto& d : u->got) { note_step(); if (!c.count(d)) { bad("a datagram arrived that was not written", "%s", show(d).c_str()); break; } if (--c[d] < 0 && !fault_count("udp_dup")) { bad("a datagram arrived twice", "%s", show(d).c_str()); break; } } if (!fault_count("udp_loss")) for (auto& k : c) if (k.second > 0) { bad("a datagram that was written did not arrive", "%s", show(k.first).c_str()); break; } }
    int fd0 = net_open_fds(); u->u->disconnect(); note_step(); (void)fd0; int x = socket(AF_INET, SOCK_DGRAM, 0); u->u->disconnect(); if (x >= 0 && close(x) != 0) bad("closing a connection again closed the descriptor of another", "fd %d", x); if (u->u->write("x") != -1) bad("a closed connection was written to", "port %d", u->port);
}
void group_body(int id) {      // broadcasting to a list of addresses
    std::string l = fmt("g%d.", id); const char* lb = l.c_str(); Trick::MulticastGroup g; std::vector<std::vector<std::string>*> got; std::vector<std::string> msgs; u64 f = fault_count("socket_fail"); int n = 1 + pickf(3, "%sn", lb);
    for (int i = 0; i < n; i++) { auto v = new std::vector<std::string>; got.push_back(v); udp_bind_actor(9300 + id * 10 + i, [v](const std::string& d, int) { v->push_back(d); }); }
    if (g.broadcast("too early") != -1) bad("a group that is not made was broadcast to", "group %d", id); int r = g.initialize(); note_step(); if (r) { if (fault_count("socket_fail") == f) bad("a group could not be made", "%d", r); if (g.isInitialized()) bad("a group that failed is said to be there", "group %d", id); return; }
    for (int i = 0; i < n; i++) if (g.addAddress("239.3.14.15", 9300 + id * 10 + i)) bad("an address could not be added", "%d", i); if (g.addAddress("not an address", 1) != -1) bad("an address that is none was added", "group %d", id);
    int m = pickf(8, "%sm", lb); for (int k = 0; k < m; k++) { std::string s = fmt("%d: ", k) + noise(id * 100 + k, zsize(lb, k) % 8000); if (pickf(4, "%snul%d", lb, k)) for (char& c : s) if (!c) c = '0'; if (g.broadcast(s) != 0) bad("a broadcast failed", "%zu bytes", s.size()); msgs.push_back(s); if (k == 2) g.restart(); usleep(300); }
    usleep(80000); note_step(); if (!faulty({"udp_loss", "udp_reorder", "udp_dup", "udp_send_err"})) for (int i = 0; i < n; i++) if (*got[i] != msgs) { bad("a broadcast did not reach each address once and whole", "address %d got %zu of %zu", i, got[i]->size(), msgs.size()); break; } else probe("broadcast");
    g.disconnect(); int x = socket(AF_INET, SOCK_DGRAM, 0); g.disconnect(); if (x >= 0 && close(x) != 0) bad("closing a connection again closed the descriptor of another", "fd %d", x);
}
void go() {
    if (feat & F_NETF) { netcfg.seg_max = pick("seg", 3) == 0 ? 0 : 1 + pick("sg", 900); static const size_t W[] = {262144, 4000, 700, 20000}; netcfg.win_out = W[pick("wo", 4)]; netcfg.win_in = W[pick("wi", 4)]; if (chance("f.re", 60)) fault_rate("recv_eintr", 60000); if (chance("f.se", 60)) fault_rate("send_eintr", 60000); if (chance("f.sp", 60)) fault_rate("send_partial", 200000); if (chance("f.lat", 40)) netcfg.lat_hi = 5 * MS; if (feat & F_UDP) { if (chance("f.ul", 30)) fault_rate("udp_loss", 100000); if (chance("f.ud", 30)) fault_rate("udp_dup", 100000); if (chance("f.ur", 30)) fault_rate("udp_reorder", 100000); } }
    else netcfg.lat_hi = netcfg.lat_lo = 50000;
    if (feat & F_FAIL) { if (chance("f.sf", 50)) fault_rate("socket_fail", 200000); if (chance("f.af", 50)) fault_rate("accept_fail", 200000); if (chance("f.bf", 40)) fault_rate("bind_fail", 250000); if (chance("f.us", 40)) fault_rate("udp_send_err", 100000); }
    usleep(200000); int base = net_open_fds(), K = 1 + pick("K", 3); std::vector<std::function<void()>> todo; std::vector<std::thread> th;
    for (int k = 0; k < K; k++) { std::vector<int> kinds; if (feat & F_TCP) kinds.push_back(0); if (feat & F_UDP) kinds.push_back(1); if (feat & F_MC) { kinds.push_back(2); kinds.push_back(3); } int kind = kinds[pickf(kinds.size(), "k%d", k)];
        if (kind == 0) { Tcp* t = new Tcp; t->id = k; tcps.push_back(t); t->l = new Trick::TCPClientListener; u64 f = fault_count("socket_fail") + fault_count("bind_fail"); int port = 9100 + k; note_step(); if (t->l->initialize("", port) != 0) { if (fault_count("socket_fail") + fault_count("bind_fail") == f) bad("a listener could not be made", "port %d", port); if (t->l->isInitialized()) bad("a listener that failed is said to be there", "port %d", port); probe("no-listener"); delete t->l; continue; } if (t->l->getPort() != port) bad("a listener has a wrong port", "%d", t->l->getPort());
            at(now() + pickf(30, "%s", t->L("cw").c_str()) * MS, [t, port] { ConnCb cb; cb.on_open = [t](Conn* c) { peer_talk(t); }; cb.on_data = [t](Conn*, const std::string& d) { t->out += d; }; t->k = net_connect(port, cb); }); todo.push_back([t] { tcp_body(t); }); }
        else if (kind < 3) { Udp* u = new Udp; u->id = k; u->port = 9200 + k; u->aport = 9250 + k; u->mc = kind == 2; udps.push_back(u); todo.push_back([u] { udp_body(u); }); }
        else todo.push_back([k] { group_body(k); }); }
    for (size_t i = 1; i < todo.size(); i++) th.emplace_back(todo[i]); if (todo.size()) todo[0](); for (auto& x : th) x.join(); usleep(400000);
    if (violated("N02")) return; for (Tcp* t : tcps) tcp_done(t); note_step(); if (net_open_fds() != base) violation("N02", "descriptors are left open", "%d before, %d after: %s", base, net_open_fds(), net_dump().substr(0, 300).c_str());
}
std::string setup() { feat = opti("feat", 0); Obj* o = new Obj; machine_faults(1); o->add(0, "initialization", 1, "cn", 65535, 0, 1e37, [](Trick::JobData*) { go(); return 0; }); exec_add_sim_object(o, "cnw"); return "trick.stop(0.5)\n"; }
void fin(int why, int code) { probe(why_name(why)); if (why == W_DEADLOCK || why == W_LIMIT) violation("N02", "a call never returns", "%s", task_dump().substr(0, 300).c_str()); }
Reg r({"cn", setup, fin, 90 * SEC, 30000000, "N02"});
}
