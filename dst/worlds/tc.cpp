// TrickComm: devices of the code under test against peers that stall, split, close and reset. N01.
#include "common.hh"
#include "trick/tc.h"
#include "trick/tc_proto.h"
#include "trick/trick_byteswap.h"
#include "trick/attributes.h"
#include <thread>
#include <unistd.h>
using namespace w;
extern "C" { extern ATTRIBUTES attrDstWire[]; extern ATTRIBUTES attrDstWireIn[]; void init_attrDstWire_c_intf(); void init_attrDstWireIn_c_intf(); }
namespace {
enum { F_HS = 1, F_SWAP = 2, F_PAIR = 4, F_UDP = 8, F_NETF = 16, F_END = 32, F_FAIL = 64 };
int feat; bool drain;
inline u64 mx(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ x >> 33; }
unsigned char byte_at(int stream, u64 i) { return mx(i / 8 * 64 + stream) >> (i % 8 * 8); }
std::string bytes(int stream, u64 from, u64 n) { std::string s(n, 0); for (u64 i = 0; i < n; i++) s[i] = byte_at(stream, from + i); return s; }
typedef unsigned char uch;
// ---- a record and how a machine of the other byte order lays it out
void fill(DstWire& w, u64 k) {
    uch* p = (uch*)&w; for (size_t i = 0; i < sizeof w; i++) p[i] = 0; u64 n = k * 1000; auto R = [&] { return mx(++n); };
    w.c = R(); for (auto& x : w.uc) x = R(); w.s = R(); for (auto& x : w.us) x = R(); w.i = R(); w.u = R(); w.l = R(); w.ull = R(); u32 f = R(); memcpy(&w.f, &f, 4); u64 d = R(); memcpy(&w.d, &d, 8); for (auto& r : w.m) for (auto& x : r) x = R(); w.b = R() & 1; w.e = (DstEnum)(int)R();
    for (auto& x : w.in) { x.a = R(); x.b = R(); x.p = R(); x.q = R(); } w.b1 = R(); w.b2 = R(); w.b3 = R(); w.g = R(); w.b4 = R(); w.b5 = R();
}
struct Img { uch b[sizeof(DstWire)]; bool m[sizeof(DstWire)]; };
void be(Img& o, const DstWire& w, const void* f, int sz, int n) { size_t at = (const uch*)f - (const uch*)&w; for (int i = 0; i < n; i++) for (int k = 0; k < sz; k++) { o.b[at + i * sz + k] = ((const uch*)f)[i * sz + sz - 1 - k]; o.m[at + i * sz + k] = true; } }
void bits(Img& o, size_t at, std::vector<std::pair<u32, int>> v) { u32 x = 0; int used = 0; for (auto& p : v) { x |= (p.first & ((1u << p.second) - 1)) << (32 - used - p.second); used += p.second; } for (int k = 0; k < 4; k++) { o.b[at + k] = x >> (24 - 8 * k); o.m[at + k] = k < (used + 7) / 8; } }
void other(const DstWire& w, Img& o) {
    memset(&o, 0, sizeof o); be(o, w, &w.c, 1, 1); be(o, w, w.uc, 1, 5); be(o, w, &w.s, 2, 1); be(o, w, w.us, 2, 3); be(o, w, &w.i, 4, 1); be(o, w, &w.u, 4, 1); be(o, w, &w.l, 8, 1); be(o, w, &w.ull, 8, 1); be(o, w, &w.f, 4, 1); be(o, w, &w.d, 8, 1); be(o, w, w.m, 4, 6); be(o, w, &w.b, 1, 1); be(o, w, &w.e, 4, 1);
    for (auto& x : w.in) { be(o, w, &x.a, 2, 1); be(o, w, &x.b, 4, 1); bits(o, (uch*)&x.b + 4 - (uch*)&w, {{x.p, 4}, {x.q, 9}}); }
    bits(o, (uch*)&w.g - 4 - (uch*)&w, {{w.b1, 3}, {(u32)w.b2, 7}, {w.b3, 22}}); be(o, w, &w.g, 4, 1); bits(o, (uch*)&w.g + 4 - (uch*)&w, {{w.b4, 5}, {(u32)w.b5, 4}});
}
std::string diff(const DstWire& a, const DstWire& b) {
#define D(x) if (memcmp(&a.x, &b.x, sizeof a.x)) return #x;
#define E(x) if (a.x != b.x) return #x;
    D(c) D(uc) D(s) D(us) D(i) D(u) D(l) D(ull) D(f) D(d) D(m) D(b) D(e) D(g) E(b1) E(b2) E(b3) E(b4) E(b5) for (int k = 0; k < 2; k++) { D(in[k].a) D(in[k].b) E(in[k].p) E(in[k].q) } return "";
}
// ---- sessions
struct Ses {
    int id, kind, port; bool hs, swap, up = false; TCDevice lis, dev; Conn* c = nullptr; int mode; double limit; std::string tag; int cid;
    std::string in; size_t hs_in = 0; bool hs_done = false, hs_bad = false; u64 sent = 0; bool fin = false, rst = false, closed_by_code = false; u64 t_end = 0;   // the peer: bytes in, data sent, how it ended
    u64 rd = 0, wr = 0; bool lost = false; int ins = -1, outs = -1; int in_stream() { return ins < 0 ? id * 4 : ins; } int out_stream() { return outs < 0 ? id * 4 + 1 : outs; } std::string inbuf;
    std::string L(const char* x) { return fmt("s%d.%s", id, x); }
};
std::vector<Ses*> ses;
const char* MODE[] = {"blocking", "non-blocking", "timed", "all-or-nothing"};
void bad(Ses* s, const char* c, const char* f, ...) __attribute__((format(printf, 3, 4)));
void bad(Ses* s, const char* c, const char* f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); violation("N01", c, "session %d, %s: %s", s->id, s->mode >= 0 ? MODE[s->mode] : "", b); }
void devinit(TCDevice* d) { memset(d, 0, sizeof *d); d->socket = TRICKCOMM_INVALID_SOCKET; d->blockio_limit = MAX_BLOCKIO_TIMEOUT_LIMIT; }
bool peer_gone(Ses* s) { return s->fin || s->rst; }
// what a call of the library may return
void judge(Ses* s, bool read, int size, int r, int pend, bool was, u64 dt, u64 sk) {
    note_step(); const char* w = read ? "read" : "write"; int mode = s->dev.blockio_type; bool up = s->dev.socket != TRICKCOMM_INVALID_SOCKET;
    if (r > size || r < -1) { bad(s, "a call returned a count that is out of range", "%s of %d returned %d", w, size, r); return; }
    if (!was) { if (r != -1) bad(s, "a call on a closed device did not fail", "%s of %d returned %d", w, size, r); return; }
    if (!up) {
        s->lost = true; probe(read ? "read-saw-close" : "write-saw-close"); if (!peer_gone(s) && !fault_count("udp_send_err")) bad(s, "a device was disconnected though its peer is there", "%s of %d returned %d", w, size, r);
        if (r == size && size) bad(s, "a device was disconnected by a call that succeeded", "%s of %d", w, size); return;
    }
    switch (mode) {
    case TC_COMM_BLOCKIO: if (r != size) bad(s, "a blocking call did less than asked on an open connection", "%s of %d returned %d", w, size, r); break;
    case TC_COMM_NOBLOCKIO: if (r == 0 && size) bad(s, "a call that moved nothing reported success", "%s of %d", w, size); if (read && pend > 0 && r < std::min(pend, size) && !s->rst) bad(s, "a non-blocking read left bytes that were there", "%d of %d, %d were pending", r, size, pend); break;
    case TC_COMM_ALL_OR_NOTHING: if (r != -1 && r != size) bad(s, "an all-or-nothing call did a part", "%s of %d returned %d", w, size, r); if (read && r == -1 && pend > 0 && !s->rst) bad(s, "an all-or-nothing read found nothing though bytes were there", "of %d, %d pending", size, pend); break;
    case TC_COMM_TIMED_BLOCKIO: { double l = s->dev.blockio_limit * 1e9; if (r == -1) bad(s, "a timed call failed on an open connection", "%s of %d", w, size); else if (r != size && dt < l - 1000) bad(s, "a timed call gave up before its limit", "%s of %d returned %d after %.6f s of %.6f", w, size, r, dt * 1e-9, l * 1e-9); else if (r != size) probe("timed-out"); if (dt > l + 0.5e9 + sk) bad(s, "a timed call took longer than its limit", "%s of %d took %.6f s of %.6f", w, size, dt * 1e-9, l * 1e-9); if (read && r < std::min(pend, size) && !s->rst) bad(s, "a timed read left bytes that were there", "%d of %d, %d were pending", r, size, pend); break; }
    }
    if (r == size && size > 1) probe(read ? "full-read" : "full-write"); else if (r > 0) probe(read ? "part-read" : "part-write"); else if (r < 0) probe("would-block");
}
int do_read(Ses* s, int size) {
    TCDevice* d = &s->dev; bool was = d->socket != TRICKCOMM_INVALID_SOCKET; std::vector<uch> b(size + 16, 0xA5); int pend = was ? tc_pending(d) : 0; u64 t0 = now(), k0 = skipped();
    if (was && (u64)pend > s->sent - s->rd) bad(s, "more bytes are pending than were sent", "%d", pend);
    int r = tc_read(d, (char*)b.data(), size); judge(s, true, size, r, pend, was, now() - t0, skipped() - k0); step("rd", r + 1); int n = std::max(r, 0); if (n > size) return n;
    for (int i = 0; i < n; i++) if (b[i] != byte_at(s->in_stream(), s->rd + i)) { bad(s, "bytes were read that were not sent", "byte %llu", (unsigned long long)s->rd + i); break; }
    for (int i = n; i < size + 16; i++) if (b[i] != 0xA5) { bad(s, i < size ? "a read reported less than it stored" : "a read wrote past the buffer", "byte %d of %d, %d reported", i, size, n); break; }
    s->rd += n; if (s->rd > s->sent) bad(s, "more was read than was sent", "%llu of %llu", (unsigned long long)s->rd, (unsigned long long)s->sent);
    if (was && d->socket == TRICKCOMM_INVALID_SOCKET && s->fin && !s->rst && s->rd != s->sent) bad(s, "an orderly close lost bytes that were sent before it", "%llu of %llu", (unsigned long long)s->rd, (unsigned long long)s->sent);
    return r;
}
int do_write(Ses* s, int size) {
    TCDevice* d = &s->dev; bool was = d->socket != TRICKCOMM_INVALID_SOCKET; std::string b = bytes(s->out_stream(), s->wr, size); u64 t0 = now(), k0 = skipped();
    int r = tc_write(d, &b[0], size); judge(s, false, size, r, 0, was, now() - t0, skipped() - k0); step("wr", r + 1); if (r > 0) s->wr += r; return r;
}
void check_valid(Ses* s) { note_step(); bool up = s->dev.socket != TRICKCOMM_INVALID_SOCKET; int p0 = up ? tc_pending(&s->dev) : 0; bool gone = peer_gone(s); int v = tc_isValid(&s->dev); if (v && !up) bad(s, "a closed device is said to be valid", "tc_isValid"); if (!v && up && !peer_gone(s)) bad(s, "an open connection is said to be invalid", "tc_isValid"); if (up && tc_pending(&s->dev) < p0 && !s->rst) bad(s, "asking whether a device is valid took bytes from it", "%d pending before", p0); (void)gone; }
void disconnect(Ses* s) { if (s->dev.socket == TRICKCOMM_INVALID_SOCKET) return; note_step(); if (tc_disconnect(&s->dev) != TC_SUCCESS || s->dev.socket != TRICKCOMM_INVALID_SOCKET) bad(s, "a device could not be disconnected", "tc_disconnect"); }
// ---- the peer of a session with one device
std::string hello(Ses* s) { std::string h(86, 0); h[0] = s->swap ? TRICK_BIG_ENDIAN : TRICK_LITTLE_ENDIAN; h[1] = 8; h[2] = s->cid >> 24; h[3] = s->cid >> 16; h[4] = s->cid >> 8; h[5] = s->cid; memcpy(&h[6], s->tag.data(), s->tag.size()); return h; }
void peer_end(Ses* s, int how) { if (peer_gone(s)) return; s->t_end = now(); if (how == 2) { s->rst = true; net_reset(s->c); } else { s->fin = true; if (how == 1) { s->rst = true; net_close(s->c); } else net_shutdown_wr(s->c); } logf("peer of session %d ends (%d)", s->id, how); }
std::string peer_data(Ses* s, u64 n) {
    if (!s->swap) { std::string d = bytes(s->in_stream(), s->sent, n); return d; }
    std::string d; while (s->inbuf.size() < s->sent + n) { DstWire w; fill(w, s->in_stream() * 100000 + s->inbuf.size() / sizeof w); Img o; other(w, o); s->inbuf += std::string((char*)o.b, sizeof o.b); } return s->inbuf.substr(s->sent, n);
}
void peer_talk(Ses* s) {     // connection is up and hands are shaken
    int n = pickf(8, "%s", s->L("pn").c_str()); u64 t = now(); int cut = (feat & F_END) ? pickf(n + 2, "%s", s->L("cut").c_str()) : 0;
    for (int i = 0; i < n; i++) { t += pickf(200, "%s%d", s->L("pg").c_str(), i) * 100 * US; static const int Z[] = {1, 20, 700, 3, 150, 9000, 65, 30000}; u64 z = s->swap ? sizeof(DstWire) * (1 + pickf(4, "%s%d", s->L("pz").c_str(), i)) : Z[pickf(8, "%s%d", s->L("pz").c_str(), i)] + pickf(40, "%s%d", s->L("pk").c_str(), i);
        if (cut && i + 1 == cut) { if (s->swap) z = z / 2 + 3; at(t, [s, z] { if (peer_gone(s)) return; std::string d = peer_data(s, z); s->sent += z; net_send(s->c, d); }); break; }
        at(t, [s, z] { if (peer_gone(s) || s->closed_by_code) return; std::string d = peer_data(s, z); s->sent += z; net_send(s->c, d); }); }
    if (feat & F_NETF) for (int i = 0; i < 3; i++) if (pickf(2, "%s%d", s->L("st").c_str(), i)) { u64 a = now() + pickf(400, "%s%d", s->L("sa").c_str(), i) * 100 * US, b = a + (1 + pickf(600, "%s%d", s->L("sb").c_str(), i)) * 100 * US; at(a, [s] { net_set_reading(s->c, false); }); at(b, [s] { net_set_reading(s->c, true); }); }
    int how = (feat & F_END) ? pickf(3, "%s", s->L("end").c_str()) : 0; t += (feat & F_END) && pickf(2, "%s", s->L("el").c_str()) ? pickf(300, "%s", s->L("eg").c_str()) * 100 * US : 150 * MS; at(t, [s, how] { peer_end(s, how); });
}
ConnCb peer_cb(Ses* s, bool client) {
    ConnCb cb; cb.on_open = [s, client](Conn* c) {
        s->c = c; if (!s->hs) { s->hs_done = true; peer_talk(s); return; }
        if (!client) { if (!s->hs_done && (feat & F_END) && pickf(5, "%s", s->L("hsx").c_str()) == 4) { s->hs_bad = true; int how = pickf(3, "%s", s->L("hsh").c_str()); at(now() + pickf(40, "%s", s->L("hst").c_str()) * 50 * US, [s, how] { if (s->hs_done) return; peer_end(s, how ? how : 1); }); } return; }
        std::string h = hello(s); if ((feat & F_END) && pickf(4, "%s", s->L("hsx").c_str()) == 3) { s->hs_bad = true; net_send(c, h.substr(0, pickf(86, "%s", s->L("hsn").c_str()))); int how = pickf(3, "%s", s->L("hsh").c_str()); at(now() + pickf(20, "%s", s->L("hst").c_str()) * 100 * US, [s, how] { peer_end(s, how); }); return; }
        net_send(c, h); };
    cb.on_data = [s, client](Conn*, const std::string& d) {
        s->in += d; if (!s->hs || s->hs_done) return; size_t need = client ? 2 : 86; if (s->in.size() < need) return;
        std::string h = s->in.substr(0, need); s->in.erase(0, need); s->hs_done = true; note_step();
        if (h[0] != TRICK_LITTLE_ENDIAN || h[1] != 8) bad(s, "a handshake sent wrong machine information", "%d %d", h[0], h[1]);
        if (!client) { int id = (uch)h[2] << 24 | (uch)h[3] << 16 | (uch)h[4] << 8 | (uch)h[5]; if (id != s->cid || strncmp(h.data() + 6, s->tag.c_str(), 80)) bad(s, "a handshake sent a wrong identity", "%d %.80s, expected %d %s", id, h.data() + 6, s->cid, s->tag.c_str());
            if (s->hs_bad && peer_gone(s)) return; std::string a(2, 0); a[0] = s->swap ? TRICK_BIG_ENDIAN : TRICK_LITTLE_ENDIAN; a[1] = 8; net_send(s->c, a); s->hs_bad = false; }
        peer_talk(s); };
    cb.on_close = [s](Conn*, int) { s->closed_by_code = true; if (s->c && net_open(s->c)) net_close(s->c); };
    return cb;
}
bool establish(Ses* s, bool acceptor) {
    s->dev.disable_handshaking = s->hs ? TC_COMM_FALSE : TC_COMM_TRUE; s->dev.blockio_type = (TCCommBlocking)s->mode; s->dev.blockio_limit = s->limit; int r; int fds = net_open_fds(); u64 f0 = fault_count("accept_fail") + fault_count("accept_emfile") + fault_count("connect_fail") + fault_count("socket_fail"); (void)fds;
    if (acceptor) { int n = 0; while (pickf(2, "%s", s->L("pl").c_str()) && tc_listen(&s->lis) <= 0 && ++n < 4000) usleep(500); r = tc_accept(&s->lis, &s->dev); }
    else { s->dev.hostname = (char*)"simhost"; s->dev.port = s->port; s->dev.client_id = s->cid; strcpy(s->dev.client_tag, s->tag.c_str()); r = tc_connect(&s->dev); }
    note_step(); bool faulty = fault_count("accept_fail") + fault_count("accept_emfile") + fault_count("connect_fail") + fault_count("socket_fail") > f0; s->up = r == TC_SUCCESS; step("est", r);
    if ((r == TC_SUCCESS) != (s->dev.socket != TRICKCOMM_INVALID_SOCKET)) { bad(s, "a connection call contradicts its device", "returned %d, socket %d", r, s->dev.socket); return false; }
    if (r != TC_SUCCESS) { probe("not-connected"); if (!peer_gone(s) && !faulty) bad(s, "a connection failed though its peer is there", "%s returned %d", acceptor ? "tc_accept" : "tc_connect", r); return false; }
    probe("connected"); if (s->hs && s->hs_bad) { bad(s, "an incomplete handshake was taken for a connection", "%s", acceptor ? "tc_accept" : "tc_connect"); return false; }
    if (acceptor && s->hs) { s->dev.client_tag[TC_TAG_LENGTH - 1] = s->dev.client_tag[TC_TAG_LENGTH - 1]; if (s->dev.client_id != s->cid || !memchr(s->dev.client_tag, 0, TC_TAG_LENGTH) || s->tag.substr(0, 79) != s->dev.client_tag) { bad(s, "an accepted client has a wrong identity", "%d '%.80s', expected %d '%s'", s->dev.client_id, s->dev.client_tag, s->cid, s->tag.c_str()); return false; } }
    if (s->hs && s->dev.byte_info[TC_BYTE_ORDER_NDX] != (s->swap && s->kind < 2 ? TRICK_BIG_ENDIAN : TRICK_LITTLE_ENDIAN)) { bad(s, "the byte order of the peer is wrong", "%d", s->dev.byte_info[TC_BYTE_ORDER_NDX]); return false; }
    if (!s->hs) s->dev.byte_info[TC_BYTE_ORDER_NDX] = s->swap ? TRICK_BIG_ENDIAN : TRICK_LITTLE_ENDIAN;
    if (s->swap) s->dev.byte_info[TC_BYTE_ORDER_NDX] = TRICK_BIG_ENDIAN;
    return true;
}
void set_mode(Ses* s, int m) { if (s->dev.socket == TRICKCOMM_INVALID_SOCKET) return; note_step(); if (tc_blockio(&s->dev, (TCCommBlocking)m) || s->dev.blockio_type != m) bad(s, "a blocking mode could not be set", "%s", MODE[m]); s->mode = m; }
const int SZ[] = {1, 4, 64, 300, 8, 2000, 17, 12000};
DstWire wbuf[16];
void swap_ops(Ses* s) {
    int n = 3 + pickf(10, "%s", s->L("n").c_str()); DstWire got; fill(got, 999999 + s->id); u64 nr = 0, nw = 0; const size_t Z = sizeof(DstWire);
    for (int i = 0; i < n && s->dev.socket != TRICKCOMM_INVALID_SOCKET && !violated("N01"); i++) {
        if (pickf(2, "%s%d", s->L("o").c_str(), i)) {
            DstWire w; fill(w, s->out_stream() * 100000 + nw); u64 t0 = now(), k0 = skipped(); DstWire keep = w; int r = tc_write_byteswap(&s->dev, (char*)&w, Z, attrDstWire); judge(s, false, Z, r, 0, true, now() - t0, skipped() - k0); if (r > 0) s->wr += r; if (r == (int)Z) nw++; if (diff(w, keep).size()) bad(s, "a write changed the data it was given", "%s", diff(w, keep).c_str()); if (r > 0 && r != (int)Z) break;
        } else {
            DstWire old = got; int pend = tc_pending(&s->dev); u64 t0 = now(), k0 = skipped(); int r = tc_read_byteswap(&s->dev, (char*)&got, Z, attrDstWire); judge(s, true, Z, r, pend, true, now() - t0, skipped() - k0); if (r > 0) s->rd += r;
            if (r == (int)Z) { DstWire w; fill(w, s->in_stream() * 100000 + nr++); std::string d = diff(got, w); if (d.size()) bad(s, "a value was changed by byte swapping", "%s of record %llu", d.c_str(), (unsigned long long)nr - 1); probe("record"); } else if (r <= 0 && diff(old, got).size()) bad(s, "a read that got nothing changed the buffer", "%s", diff(old, got).c_str()); else if (r > 0) break;
        }
        if (pickf(3, "%s%d", s->L("b").c_str(), i)) usleep(pickf(200, "%s%d", s->L("bu").c_str(), i) * 100);
    }
}
void single(Ses* s) {
    if (!establish(s, s->kind == 0)) { if (s->kind == 0) tc_disconnect(&s->lis); return; }
    if (s->swap) swap_ops(s);
    else { int n = 4 + pickf(20, "%s", s->L("n").c_str());
        for (int i = 0; i < n && !violated("N01"); i++) {
            int x = pickf(20, "%s%d", s->L("o").c_str(), i); bool was = s->dev.socket != TRICKCOMM_INVALID_SOCKET;
            if (x < 9) do_read(s, pickf(12, "%s%d", s->L("r0").c_str(), i) == 11 ? 0 : SZ[pickf(8, "%s%d", s->L("rz").c_str(), i)] + pickf(5, "%s%d", s->L("ry").c_str(), i)); else if (x < 16) do_write(s, SZ[pickf(8, "%s%d", s->L("rz").c_str(), i)] + pickf(5, "%s%d", s->L("ry").c_str(), i));
            else if (x < 18) check_valid(s); else if (x < 19) set_mode(s, pickf(4, "%s%d", s->L("m").c_str(), i)); else usleep(pickf(100, "%s%d", s->L("u").c_str(), i) * 100);
            if (!was && s->lost) { if (pickf(2, "%s%d", s->L("q").c_str(), i)) break; }
        }
        // what is still to come arrives, whatever happened so far
        if (pickf(3, "%s", s->L("tail").c_str()) && s->dev.socket != TRICKCOMM_INVALID_SOCKET) { set_mode(s, 0); int g = 0; while (s->dev.socket != TRICKCOMM_INVALID_SOCKET && ++g < 2000 && !violated("N01")) do_read(s, 500 + 3000 * (g > 20)); if (s->dev.socket != TRICKCOMM_INVALID_SOCKET && !violated("N01")) bad(s, "the end of the stream was never seen", "%llu of %llu bytes", (unsigned long long)s->rd, (unsigned long long)s->sent); }
    }
    disconnect(s); if (s->kind == 0) tc_disconnect(&s->lis);
}
void single_done(Ses* s) {
    if (!s->up) return; note_step();
    if (s->in.size() > s->wr) { bad(s, "the peer received more than was reported as written", "%zu of %llu", s->in.size(), (unsigned long long)s->wr); return; }
    if (!s->rst && s->in.size() != s->wr) { bad(s, "bytes reported as written did not arrive", "%zu of %llu", s->in.size(), (unsigned long long)s->wr); return; }
    if (!s->swap) { for (size_t i = 0; i < s->in.size(); i++) if ((uch)s->in[i] != byte_at(s->out_stream(), i)) { bad(s, "bytes arrived that were not written", "byte %zu", i); return; } }
    else for (size_t k = 0; (k + 1) * sizeof(DstWire) <= s->in.size(); k++) { DstWire w; fill(w, s->out_stream() * 100000 + k); Img o; other(w, o); for (size_t i = 0; i < sizeof w; i++) if (o.m[i] && (uch)s->in[k * sizeof w + i] != o.b[i]) { bad(s, "a record was sent with a wrong layout", "record %zu, byte %zu: %02x, expected %02x", k, i, (uch)s->in[k * sizeof w + i], o.b[i]); return; } probe("record-out"); }
    probe("stream-compared");
}
// ---- two devices of the code, with a wire between them
struct Pair { Ses* a, * b; Conn* ca = nullptr, * cb = nullptr; bool rst = false, open_a = false, close_a = false; struct Msg { int dir, size; }; std::vector<Msg> m; };
std::vector<Pair*> pairs;
void pair_rst(Pair* p) { p->rst = p->a->rst = p->b->rst = true; if (p->ca) net_reset(p->ca); if (p->cb) net_reset(p->cb); at(now() + 50 * MS, [p] { Conn* k = net_connect(p->a->port, ConnCb()); at(now() + 5 * MS, [k] { net_close(k); }); }); }
void pair_wire(Pair* p) {
    net_listen(p->b->port, [p](Conn* c) { p->cb = c; ConnCb in; in.on_data = [p](Conn*, const std::string& d) { if (p->ca) net_send(p->ca, d); }; in.on_close = [p](Conn*, int) { p->a->fin = true; p->close_a = true; if (p->ca && p->open_a) net_close(p->ca); };
        ConnCb out; out.on_open = [p](Conn* c) { p->open_a = true; if (p->close_a) net_close(c); }; out.on_data = [p](Conn*, const std::string& d) { net_send(p->cb, d); }; out.on_close = [p](Conn*, int) { p->b->fin = true; net_close(p->cb); }; p->ca = net_connect(p->a->port, out); return in; });
}
bool move(Pair* p, Ses* s, bool write, int size) {
    int got = 0, spin = 0; while (got < size && s->dev.socket != TRICKCOMM_INVALID_SOCKET && !violated("N01")) { int want = size - got; if (!s->swap) { int r = write ? do_write(s, want) : do_read(s, want); got += std::max(r, 0); if (r <= 0) usleep(200); } else {
            DstWire* w = &wbuf[s->id % 16]; u64 t0 = now(), k0 = skipped(); int pend = tc_pending(&s->dev); int r; if (write) { fill(*w, s->out_stream() * 100000 + s->wr / sizeof *w); r = tc_write_byteswap(&s->dev, (char*)w, size, attrDstWire); } else r = tc_read_byteswap(&s->dev, (char*)w, size, attrDstWire);
            judge(s, !write, size, r, pend, true, now() - t0, skipped() - k0); if (r > 0) { if (!write && r == size) { DstWire x; fill(x, s->in_stream() * 100000 + s->rd / sizeof x); std::string d = diff(*w, x); if (d.size()) bad(s, "a value was changed by byte swapping", "%s", d.c_str()); probe("record"); } (write ? s->wr : s->rd) += r; if (r != size) return false; got = r; } else usleep(200); }
        if (++spin > 20000) { bad(s, "a message never came through", "%d of %d", got, size); return false; } }
    return got == size;
}
void pair_side(Pair* p, Ses* s, int side) {
    if (!establish(s, side == 0)) { if (side == 1) at(now() + MS, [p] { p->a->fin = p->a->rst = true; if (p->ca) net_close(p->ca); ConnCb c; Conn* k = net_connect(p->a->port, c); at(now() + 5 * MS, [k] { net_close(k); }); }); else { tc_disconnect(&s->lis); p->b->fin = p->b->rst = true; } disconnect(s); return; }
    size_t i = 0; for (; i < p->m.size(); i++) { bool w = p->m[i].dir == side; Ses* o = side ? p->a : p->b; if (w) o->sent += p->m[i].size; if (!move(p, s, w, p->m[i].size)) break; probe("message"); }
    if (i < p->m.size() && !p->rst && !violated("N01") && s->dev.socket == TRICKCOMM_INVALID_SOCKET && !(side ? p->a : p->b)->lost && !(side ? p->a : p->b)->rst) {}
    if (i == p->m.size() && side == (int)(p->m.size() & 1) && s->dev.socket != TRICKCOMM_INVALID_SOCKET) { set_mode(s, 0); do_read(s, 10); if (s->dev.socket != TRICKCOMM_INVALID_SOCKET) bad(s, "bytes were read that were not sent", "after the last message"); }
    if (i < p->m.size()) (side ? p->a : p->b)->rst = true;
    disconnect(s); if (side == 0) tc_disconnect(&s->lis);
}
// ---- datagrams
struct Udp { int id, port; std::vector<std::string> sent; std::vector<int> seen; TCDevice dev; int got_n = 0; std::vector<std::string> got; }; std::vector<Udp*> udps;
void udp_body(Udp* u) {
    std::string l = fmt("u%d.", u->id); int mode = pickf(3, "%smode", l.c_str()); Ses fake; fake.id = 100 + u->id; fake.mode = mode;
    devinit(&u->dev); u->dev.port = u->port; if (u->id & 1) { u->dev.hostname = (char*)"simhost"; u->dev.blockio_type = (TCCommBlocking)mode; u->dev.blockio_limit = 0.02;
        if (tc_init_udp_client(&u->dev) != TC_SUCCESS) { if (!fault_count("socket_fail") && !fault_count("bind_fail")) bad(&fake, "a datagram device could not be made", "client"); return; }
        udp_bind_actor(u->port, [u](const std::string& d, int) { u->got.push_back(d); }); int n = 1 + pickf(10, "%sn", l.c_str());
        for (int i = 0; i < n; i++) { int z = 1 + pickf(1400, "%sz%d", l.c_str(), i); std::string d = fmt("%06d", i) + bytes(400 + u->id, i * 2000, z); u64 e = fault_count("udp_send_err"); int r = tc_write(&u->dev, &d[0], d.size()); note_step(); if (r == (int)d.size()) u->sent.push_back(d); else if (fault_count("udp_send_err") == e) bad(&fake, "a datagram was not written whole", "%d of %zu", r, d.size()); else { if (r > 0) bad(&fake, "a datagram that failed was reported as written", "%d of %zu", r, d.size()); break; } usleep(pickf(40, "%su%d", l.c_str(), i) * 100); }
        usleep(120000); std::map<std::string, int> c; for (auto& d : u->sent) c[d] = 0; for (auto& d : u->got) { note_step(); if (!c.count(d)) { bad(&fake, "a datagram arrived that was not written", "%zu bytes", d.size()); break; } if (++c[d] > 1 && !fault_count("udp_dup")) bad(&fake, "a datagram arrived twice", "%zu bytes", d.size()); }
        if (!fault_count("udp_loss")) for (auto& k : c) if (!k.second) { bad(&fake, "a datagram that was written did not arrive", "%zu bytes", k.first.size()); break; } probe("udp-out", u->got.size());
        if (u->dev.socket != TRICKCOMM_INVALID_SOCKET) tc_disconnect(&u->dev); return; }
    if (tc_init_udp_server(&u->dev) != TC_SUCCESS) { if (!fault_count("socket_fail") && !fault_count("bind_fail")) bad(&fake, "a datagram device could not be made", "server"); if (u->dev.socket != TRICKCOMM_INVALID_SOCKET) tc_disconnect(&u->dev); return; }
    tc_blockio(&u->dev, (TCCommBlocking)mode); tc_set_blockio_timeout_limit(&u->dev, 0.02); u64 t = now(); int n = 1 + pickf(12, "%sn", l.c_str());
    for (int i = 0; i < n; i++) { t += pickf(40, "%sg%d", l.c_str(), i) * 100 * US; int z = pickf(5, "%szz%d", l.c_str(), i) == 4 ? -6 : (int)pickf(1400, "%sz%d", l.c_str(), i); std::string d = z == -6 ? "" : fmt("%06d", i) + bytes(500 + u->id, i * 2000, z); at(t, [u, d] { u->sent.push_back(d); udp_send_to_code(u->port, d, 5555); }); }
    for (int k = 0; k < 40; k++) at(t + 100 * MS + k * 20 * MS, [u] { std::string d = "END"; udp_send_to_code(u->port, d, 5555); }); u->seen.clear(); std::map<std::string, int> cnt; u64 t1 = now();
    for (int k = 0; k < 400000 && now() - t1 < 3 * SEC; k++) {
        char b[2000]; memset(b, 0x5A, sizeof b); int size = pickf(4, "%ss%d", l.c_str(), k % 64) ? 1500 : 8 + pickf(600, "%sy%d", l.c_str(), k % 64); int pend = tc_pending(&u->dev); int r = tc_read(&u->dev, b, size); note_step();
        if (u->dev.socket == TRICKCOMM_INVALID_SOCKET) { bad(&fake, "a datagram device was disconnected by a datagram", "read of %d returned %d", size, r); break; }
        if (r > size) { bad(&fake, "a call returned a count that is out of range", "read of %d returned %d", size, r); break; } if (pend > 0 && r < std::min(pend, size)) { bad(&fake, "a datagram was not read whole", "%d of %d", r, pend); break; }
        for (int i = std::max(r, 0); i < (int)sizeof b; i++) if (b[i] != 0x5A) { bad(&fake, "a read wrote past the buffer", "%d of %d", i, size); break; }
        if (r <= 0) { if (mode == 0 && r < 0) bad(&fake, "a blocking call did less than asked on an open connection", "datagram read returned %d", r); usleep(100); continue; }
        std::string d(b, r); if (d == "END") break; bool ok = false; for (auto& x : u->sent) if (x.substr(0, r) == d && (r == size || r == (int)x.size())) { ok = true; cnt[x]++; break; } if (!ok) { bad(&fake, "bytes were read that were not sent", "datagram of %d", r); break; } probe("udp-in");
    }
    if (!violated("N01") && !fault_count("udp_dup")) for (auto& c : cnt) if (c.second > 1) bad(&fake, "a datagram was read twice", "%zu bytes", c.first.size());
    if (!violated("N01") && !fault_count("udp_loss") && !fault_count("udp_reorder")) for (auto& x : u->sent) if (x.size() && !cnt[x]) { bad(&fake, "a datagram was not read", "%zu bytes", x.size()); break; }
    tc_disconnect(&u->dev);
}
void go() {
    netcfg.seg_max = (feat & F_NETF) ? (pick("seg", 3) == 0 ? 0 : 1 + pick("sg", 700)) : 0; if (feat & F_NETF) { static const size_t W[] = {262144, 4000, 700, 20000}; netcfg.win_out = W[pick("wo", 4)]; netcfg.win_in = W[pick("wi", 4)]; if (chance("f.re", 60)) fault_rate("recv_eintr", 60000); if (chance("f.se", 60)) fault_rate("send_eintr", 60000); if (chance("f.sp", 60)) fault_rate("send_partial", 200000); if (chance("f.lat", 40)) netcfg.lat_hi = 5 * MS; }
    if ((feat & F_UDP) && (feat & F_NETF)) { if (chance("f.ul", 40)) fault_rate("udp_loss", 100000); if (chance("f.ud", 40)) fault_rate("udp_dup", 100000); if (chance("f.ur", 40)) fault_rate("udp_reorder", 100000); }
    if (feat & F_FAIL) { if (chance("f.cf", 50)) fault_rate("connect_fail", 250000); if (chance("f.sf", 30)) fault_rate("socket_fail", 150000); if (chance("f.af", 50)) fault_rate("accept_fail", 150000); if (chance("f.bf", 40)) fault_rate("bind_fail", 250000); if ((feat & F_UDP) && chance("f.us", 40)) fault_rate("udp_send_err", 100000); }
    usleep(200000); int base = net_open_fds(), K = 1 + pick("K", 3); std::vector<std::thread> th; std::vector<std::function<void()>> todo; int id = 0;
    auto mk = [&](int kind, bool swap) { Ses* s = new Ses; s->id = id++; s->kind = kind; s->port = 7100 + s->id; s->swap = swap; s->hs = (feat & F_HS) && pickf(4, "%s", s->L("hs").c_str()); static const int M[] = {0, 1, 2, 3}; s->mode = M[pickf(4, "%s", s->L("mode").c_str())]; if (swap && s->mode == 1) s->mode = 3; s->limit = swap && s->mode == 2 ? 30 : (1 + pickf(80, "%s", s->L("lim").c_str())) * 0.0005; if (s->mode == 0 || s->mode == 3) s->limit = 0.004 * (1 + pickf(10, "%s", s->L("lm2").c_str())); devinit(&s->lis); devinit(&s->dev); static const int T[] = {3, 20, 70, 79}; s->tag = fmt("tag%d_", s->id) + std::string(T[pickf(4, "%s", s->L("tag").c_str())], 'x'); s->tag.resize(std::min<size_t>(s->tag.size(), 79)); s->cid = pickf(2, "%s", s->L("neg").c_str()) ? -7 - s->id : 0x01020304 * (s->id + 1); ses.push_back(s); return s; };
    auto listen = [&](Ses* s) { s->lis.port = s->port; u64 f = fault_count("socket_fail") + fault_count("bind_fail"); int r = tc_init(&s->lis); note_step(); if (r == TC_SUCCESS) return true; probe("no-listener"); if (fault_count("socket_fail") + fault_count("bind_fail") == f) bad(s, "a listening device could not be made", "returned %d", r); if (s->lis.socket != TRICKCOMM_INVALID_SOCKET) bad(s, "a connection call contradicts its device", "tc_init returned %d, socket %d", r, s->lis.socket); return false; };
    for (int k = 0; k < K; k++) {
        int kind = (feat & F_PAIR) && pickf(3, "k%d", k) ? 2 : (feat & F_UDP) && pickf(3, "ku%d", k) ? 3 : pickf(2, "kk%d", k); bool swap = (feat & F_SWAP) && pickf(3, "sw%d", k);
        if (kind == 3) { Udp* u = new Udp; u->id = udps.size(); if (pickf(2, "ux%d", k)) u->id += 10 + (u->id & 1 ? 0 : 1); u->port = 7500 + k; udps.push_back(u); todo.push_back([u] { udp_body(u); }); continue; }
        if (kind < 2) { Ses* s = mk(kind, swap); if (kind == 0) { if (!listen(s)) continue; if (s->lis.port != s->port) bad(s, "a listening device has a wrong port", "%d", s->lis.port); if (feat & F_FAIL) for (int x = 1; x <= 3; x++) { int port = s->port; at(now() + x * 100 * MS, [s, port] { if (!s->c && !s->closed_by_code) { s->fin = s->rst = true; s->hs_bad = true; Conn* c = net_connect(port, ConnCb()); at(now() + 2 * MS, [c] { net_close(c); }); } }); } ; int port = s->port; u64 w = pickf(30, "%s", s->L("cw").c_str()) * MS / 10; at(now() + w, [s, port] { s->c = net_connect(port, peer_cb(s, true)); }); }
            else net_listen(s->port, [s](Conn* c) { s->c = c; return peer_cb(s, false); });
            todo.push_back([s] { single(s); }); continue; }
        Ses* a = mk(2, swap), * b = mk(2, swap); b->hs = a->hs; b->tag = a->tag; a->tag = b->tag; a->cid = b->cid; a->ins = b->out_stream(); b->ins = a->out_stream(); Pair* p = new Pair; p->a = a; p->b = b; pairs.push_back(p); if (!listen(a)) continue; int n = 1 + pickf(8, "pm%d", k); for (int i = 0; i < n; i++) p->m.push_back({(int)pickf(2, "pd%d.%d", k, i), swap ? (int)sizeof(DstWire) : SZ[pickf(8, "pz%d.%d", k, i)]});
        // each stream is named by its sender
        pair_wire(p); if ((feat & F_END) && pickf(2, "pr%d", k)) at(now() + pickf(400, "pt%d", k) * 100 * US, [p] { pair_rst(p); });
        todo.push_back([p] { pair_side(p, p->a, 0); }); todo.push_back([p] { pair_side(p, p->b, 1); });
    }
    for (size_t i = 1; i < todo.size(); i++) th.emplace_back(todo[i]); if (todo.size()) todo[0](); for (auto& t : th) t.join();
    usleep(400000); if (violated("N01")) return; for (Ses* s : ses) if (s->kind < 2) single_done(s);
    for (Pair* p : pairs) if (!p->rst && p->a->up && p->b->up && !p->a->lost) { (void)p; }
    note_step(); if (net_open_fds() != base) violation("N01", "descriptors are left open", "%d before, %d after: %s", base, net_open_fds(), net_dump().substr(0, 300).c_str());
}
std::string setup() { feat = opti("feat", 0); init_attrDstWireIn_c_intf(); init_attrDstWire_c_intf(); Obj* o = new Obj; machine_faults(1); o->add(0, "initialization", 1, "tc", 65535, 0, 1e37, [](Trick::JobData*) { go(); return 0; }); exec_add_sim_object(o, "tcw"); return "trick.stop(0.5)\n"; }
void fin(int why, int code) { probe(why_name(why)); if (why == W_DEADLOCK || why == W_LIMIT) violation("N01", "a call never returns", "%s", task_dump().substr(0, 300).c_str()); }
Reg r({"tc", setup, fin, 60 * SEC, 30000000, "N01"});
}
