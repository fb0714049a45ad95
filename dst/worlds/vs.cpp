// Variable server: simulated clients connect, subscribe, send commands, stall and vanish while the simulation runs.
// V01 values, V02 commands, V03 message stream, V04 sessions and shutdown, V05 access.
#include "common.hh"
#include "trick/VariableServer.hh"
#include "trick/memorymanager_c_intf.h"
using namespace w;
extern Trick::VariableServer* the_vs;
namespace {
enum { F_DATA = 1, F_CMD = 2, F_SLOW = 4, F_CHURN = 8, F_FREEZE = 16, F_RT = 32, F_ACCESS = 64, F_FILE = 128, F_BIG = 256 };
struct Var { std::string name; int kind; int k; bool cm; };     // kind 0 cnt[k] 1 w[k] 2 x 3 time 4 s 5 arr 6 w (all) 7 str 8 row of dst_big 9 dst_set 10 freeze frame 11 mode
struct Ver { size_t cmd; std::vector<Var> vars; int mode; int fm, fo, zm, zo; bool paused; };    // the subscription after command cmd
struct Cl {
    int id = 0; Conn* c = nullptr; bool bin = false, nonames = false, swap = false; int mode = 0; double rate = 0.1; ll cyc = 0; bool up = false, gone = false, fast = true, data = false, quitter = false, vanish = false, allowed = true; int close_why = -1; bool told = false;
    u64 t_conn = 0, t_close = 0; std::string buf, outq; size_t ncmd = 0, acked = 0; std::deque<size_t> fences; std::deque<u64> fence_vt; std::vector<u64> mark_vt; int nsend = 0; u64 quit_vt = 0; std::vector<Ver> vers; std::vector<std::pair<size_t, bool>> pauses; struct Once { size_t first; std::vector<Var> second; double want; }; std::vector<Once> once; int setval = 0; std::string part; int part_nv = 0; bool part_whole = false; std::deque<bool> fence_ok; std::deque<std::pair<size_t, int>> stl; int fm = 1, fo = 0, zm = 1, zo = 0; double maxrate = 0; size_t oncep = 0;
    std::vector<std::pair<size_t, int>> sizes; size_t sizep = 0; size_t nmsg = 0, calm_msgs = 0; std::map<std::string, ll> last; double last_t = -1; size_t last_ver = 0; int late = 0; std::vector<int> marks; bool fin = false; u64 last_rx = 0; bool broken = false; int settle = 0;
    double prev_t = -1; size_t prev_ack = 0; u64 ack_seq = 0; double ack_time = 0; std::string file_left; size_t file_got = 0; std::deque<std::pair<size_t, std::string>> files; bool infile = false; std::string fexp;
};
DstVars* DV; std::vector<Cl*> C; std::vector<std::pair<ll, u64>> hist; ll n; ll mcyc, Tend, Tcalm, sf; bool calm, rt; u64 calm_vt; ll calm_tics; int feat; std::set<ll> frz; u64 wk, shut_vt; bool shut; int leak_checked; u64 last_step_vt, max_gap;
struct Mark { int cl, seq, task; }; std::vector<Mark> marks; int live_at_check = -1, want_at_check = -1, fd_at_check = -1; std::string live_names; int base_fds; bool ended; int access_state = 1; ll* BIG; int nvec; std::map<ll, ll> frame_of; const ll BIG0 = 100000000000ll;


ll n_at(ll t, bool incl) { ll k = 0; size_t lo = 0, hi = hist.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (incl ? hist[m].first <= t : hist[m].first < t) { k = m + 1; lo = m + 1; } else hi = m; } return k; }
void set_vars() {
    n++; hist.push_back({tics(), seqno()});
    DstVars& v = *DV; char b[32]; snprintf(b, 32, "s%07lld", n); 
    for (int k = 0; k < 8; k++) { v.cnt[k] = n * 8 + k; if (k % 3 == 1) preempt_point(); }
    preempt_point(); v.x = n + 0.5; for (int k = 0; k < 4; k++) v.arr[k] = n + 0.25 * k; preempt_point();
    for (int k = 0; k < 64; k++) v.w[k] = (int)(n * 64 + k); preempt_point(); v.s = b; preempt_point(); b[0] = 'c'; memcpy(v.str, b, 10); v.sh = (short)(n & 0x7fff);
    if (feat & F_BIG) { preempt_point(); for (int k = 0; k < 1500; k++) { BIG[k] = BIG0 + n * 1500 + k; if (k == 700) preempt_point(); } }
    int q = n & 1; v.nodes[q].a = (int)(n * 64 + 70); v.pn[0] = &v.nodes[q]; v.nodes[q].b[1] = n + 0.5; v.pnode = &v.nodes[q];
}
Var mkvar(int kind, int k, bool cm = false) { Var v; v.kind = kind; v.k = k; v.cm = cm && kind == 2; static const char* nm[] = {"dst.v.cnt[%d]", "dst.v.w[%d]", "dst.v.x", "time", "dst.v.s", "dst.v.arr", "dst.v.w", "dst.v.str", "dst_big[%d]", "dst_set[%d]", "trick_sys.sched.freeze_frame_count", "trick_sys.sched.mode"}; v.name = fmt(nm[kind], k); return v; }
// variables behind pointers that point elsewhere every step
Var ptrvar(int k) { Var v = mkvar(k ? 2 : 1, k ? 0 : 70); v.name = k ? "dst.v.pnode->b[1]" : "dst.v.pn[0]->a"; return v; }
bool sync_mode(int m) { return m != 0; }
// decode one field into the values of n it was made from; false: it is no value the variable can have
bool dec_n(const Var& v, int idx, double d, ll i, bool isint, std::vector<ll>& out) {
    ll r = -1; bool ok = false;
    switch (v.kind) { case 0: ok = isint && ((i - v.k) % 8 == 0 || i == 0); r = i == 0 && v.k ? 0 : (i - v.k) / 8; break; case 1: ok = isint && ((i - v.k) % 64 == 0 || i == 0); r = i == 0 && v.k ? 0 : (i - v.k) / 64; break;
        case 2: if (v.cm) d /= 100; r = llround(d - 0.5); ok = fabs(d - 0.5 - r) < 1e-6 || d == 0; if (d == 0) r = 0; break; case 5: r = llround(d - 0.25 * idx); ok = fabs(d - 0.25 * idx - r) < 1e-9; if (d == 0) ok = true, r = 0; break;
        case 8: ok = isint && (i == 0 || (i - BIG0 - v.k * 250 - idx) % 1500 == 0); r = i == 0 ? 0 : (i - BIG0 - v.k * 250 - idx) / 1500; break;
        case 6: ok = isint && ((i - idx) % 64 == 0 || i == 0); r = i == 0 && idx ? 0 : (i - idx) / 64; break; }
    if (ok && (r < 0 || r > n)) ok = false; if (ok) out.push_back(r); return ok;
}
bool dec_s(const std::string& s, char lead, std::vector<ll>& out) { if (s.empty()) { out.push_back(0); return true; } if (s.size() != 8 || s[0] != lead) return false; char* e; ll r = strtoll(s.c_str() + 1, &e, 10); if (*e || r < 0 || r > n) return false; out.push_back(r); return true; }
std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> v; size_t p = 0; for (;;) { size_t q = s.find(d, p); if (q == std::string::npos) { v.push_back(s.substr(p)); return v; } v.push_back(s.substr(p, q - p)); p = q + 1; } }
bool num(const std::string& s, double& d, ll& i, bool& isint) { if (s.empty()) return false; char* e; d = strtod(s.c_str(), &e); if (*e) return false; i = strtoll(s.c_str(), &e, 10); isint = !*e; return true; }
double aux[3]; // dst_set, freeze frame, mode of the message decoded last
typedef std::vector<std::pair<std::string, std::vector<ll>>> Vals;   // per variable, the n of each element
bool dec_ascii(const std::vector<Var>& vars, const std::vector<std::string>& f, Vals& out, double& tm) {
    if (f.size() != vars.size() + 1) return false; out.clear(); tm = -1;
    for (size_t k = 0; k < vars.size(); k++) { const Var& v = vars[k]; std::string s = f[k + 1]; std::vector<ll> ns; if (v.cm) { size_t p = s.find(" {"); if (p == std::string::npos || s.substr(p) != " {cm}") return false; s = s.substr(0, p); }
        if (v.kind == 3) { double d; ll i; bool b; if (s.size() > 4 && s.substr(s.size() - 4) == " {s}") s = s.substr(0, s.size() - 4); if (!num(s, d, i, b)) return false; tm = d; continue; }
        if (v.kind >= 9) { double d; ll i; bool b; if (!num(s, d, i, b)) return false; aux[v.kind - 9] = d; continue; }
        if (v.kind == 4) { if (!dec_s(s, 's', ns)) return false; } else if (v.kind == 7) { if (!dec_s(s, 'c', ns)) return false; }
        else { auto e = split(s, ','); size_t want = v.kind == 5 ? 4 : v.kind == 6 ? 64 : v.kind == 8 ? 250 : 1; if (e.size() != want) return false; for (size_t j = 0; j < want; j++) { double d; ll i; bool b; if (!num(e[j], d, i, b) || !dec_n(v, j, d, i, b, ns)) return false; } }
        out.push_back({v.name, ns}); }
    return true;
}
template <class X> X rd(const char* p, bool swap) { X x; char b[sizeof(X)]; memcpy(b, p, sizeof(X)); if (swap) std::reverse(b, b + sizeof(X)); memcpy(&x, b, sizeof(X)); return x; }
std::string bin_err;
bool dec_bin(Cl* c, const std::vector<Var>& vars0, const std::string& body, int nv, Vals& out, double& tm, bool prefix = false) {
    if (prefix ? nv >= (int)vars0.size() : nv != (int)vars0.size()) return false; std::vector<Var> vars(vars0.begin(), vars0.begin() + nv); out.clear(); tm = -1; size_t p = 0; auto need = [&](size_t k) { return p + k <= body.size(); };
    for (auto& v : vars) {
        if (!c->nonames) { if (!need(4)) return false; int l = rd<int>(&body[p], c->swap); p += 4; if (l < 0 || !need(l) || body.substr(p, l) != v.name) return false; p += l; }
        if (!need(8)) return false; int ty = rd<int>(&body[p], c->swap), sz = rd<int>(&body[p + 4], c->swap); (void)ty; p += 8; if (sz < 0 || !need(sz)) return false; std::vector<ll> ns;
        const char* q = &body[p];
        switch (v.kind) { case 0: if (sz != 8 || !dec_n(v, 0, 0, rd<ll>(q, c->swap), true, ns)) return false; break; case 1: if (sz != 4 || !dec_n(v, 0, 0, rd<int>(q, c->swap), true, ns)) return false; break;
            case 2: { double d = rd<double>(q, c->swap); Var u = v; u.cm = false; if (sz != 8 || !dec_n(u, 0, d, 0, false, ns)) return false; break; } case 3: if (sz != 8) return false; tm = rd<double>(q, c->swap); break;
            case 4: { if (sz < 1 || q[sz - 1]) return false; if (!dec_s(std::string(q), 's', ns)) return false; break; } case 7: { if (sz != 32) return false; if (!dec_s(std::string(q, strnlen(q, 32)), 'c', ns)) return false; break; }
            case 5: if (sz != 32) return false; for (int j = 0; j < 4; j++) if (!dec_n(v, j, rd<double>(q + 8 * j, c->swap), 0, false, ns)) return false; break;
            case 9: if (sz != 8) return false; aux[0] = rd<double>(q, c->swap); break; case 10: if (sz != 8) return false; aux[1] = rd<ll>(q, c->swap); break; case 11: if (sz != 4) return false; aux[2] = rd<int>(q, c->swap); break;
            case 8: if (sz != 2000) return false; for (int j = 0; j < 250; j++) if (!dec_n(v, j, 0, rd<ll>(q + 8 * j, c->swap), true, ns)) return false; break;
            case 6: if (sz != 256) return false; for (int j = 0; j < 64; j++) if (!dec_n(v, j, 0, rd<int>(q + 4 * j, c->swap), true, ns)) return false; break; }
        p += sz; if (v.kind != 3 && v.kind < 9) out.push_back({v.name, ns});
    }
    return p == body.size();
}
std::string show(const std::string& s) { std::string o; for (char ch : s.substr(0, 160)) o += isprint((unsigned char)ch) ? std::string(1, ch) : fmt("\\x%02x", (unsigned char)ch); return o; }
// one VS_VAR_LIST message; try every version of the subscription it can stem from
void on_data_msg(Cl* c, std::function<bool(const Ver&, Vals&, double&)> dec, const std::string& raw) {
    note_step(); c->nmsg++; if (calm) c->calm_msgs++; probe(c->bin ? "binary-data-message" : "ascii-data-message");
    size_t first = 0; for (size_t k = 0; k < c->vers.size(); k++) if (c->vers[k].cmd <= c->acked) first = k;
    bool paused = false, can = false; for (auto& p : c->pauses) { if (p.first <= c->acked) paused = p.second; else if (!p.second) can = true; }
    if (paused && !can) { probe("message-after-pause"); if (++c->late > 1 + c->nsend) { violation("V01", "a paused client was sent data", "client %d: %s", c->id, show(raw).c_str()); return; } } else c->late = 0;
    std::string why = "it matches no subscription the client can have"; const char* cls = "a message does not match the client's subscription"; 
    for (size_t k = first; k < c->vers.size(); k++) { const Ver& v = c->vers[k]; Vals vals; double tm; if (v.vars.empty() || !dec(v, vals, tm)) continue;
        bool ok = true; std::string w2; const char* c2 = "";
        if (sync_mode(v.mode)) {
            ll n0 = -1; for (auto& p : vals) for (ll x : p.second) { if (n0 < 0) n0 = x; else if (x != n0) { ok = false; c2 = "a synchronised message mixes values of different steps"; w2 = fmt("%s has the value of step %lld, an earlier variable that of step %lld", p.first.c_str(), x, n0); } }
            if (ok && tm >= 0 && n0 >= 0) { ll t = llround(tm * tps()); ll a = n_at(t, true), b = n_at(t, false); bool top = v.mode >= 3; if (!(top ? n0 == b : n0 == a) && !(frz.count(t) && (n0 == a || n0 == b))) { ok = false; c2 = "a synchronised message does not hold the values of its time"; w2 = fmt("time %.9g holds step %lld, expected %lld", tm, n0, top ? b : a); } }
        }
        if (ok && v.mode >= 3 && tm >= 0) { ll t = llround(tm * tps()); auto f = frame_of.find(t); if (f != frame_of.end() && !frz.count(t)) { note_step(); if (v.fm > 1) probe("frame-multiple"); if (f->second % v.fm != v.fo) { ok = false; c2 = "a client was sent a frame that it did not ask for"; w2 = fmt("time %.9g, frame %lld, multiple %d, offset %d", tm, f->second, v.fm, v.fo); } }
            bool hf = false; for (auto& y : v.vars) if (y.kind == 10) hf = true; if (ok && hf && aux[2] == 1 && frz.count(t)) { note_step(); probe("freeze-multiple"); if ((ll)aux[1] % v.zm != v.zo) { ok = false; c2 = "a client was sent a freeze frame that it did not ask for"; w2 = fmt("time %.9g, freeze frame %.0f, multiple %d, offset %d", tm, aux[1], v.zm, v.zo); } } }
        if (tm >= 0 && tm < c->last_t - 1e-9) { ok = false; c2 = "time went backwards in a client's messages"; w2 = fmt("%.9g after %.9g", tm, c->last_t); }
        if (sync_mode(v.mode) && ok && tm >= 0 && k == c->last_ver && c->vers[c->last_ver].mode == v.mode && first == k && k + 1 == c->vers.size() && fabs(tm - c->last_t) < 1e-9 && !frz.count(llround(tm * tps())) && tm > 0) { ok = false; c2 = "a copied step was sent twice"; w2 = fmt("time %.9g", tm); }
        if (ok) for (auto& p : vals) { for (size_t j = 0; j < p.second.size(); j++) { auto i = c->last.find(p.first + fmt("#%zu", j)); if (i != c->last.end() && p.second[j] < i->second) { ok = false; c2 = "a value went backwards in a client's messages"; w2 = fmt("%s step %lld after %lld", p.first.c_str(), p.second[j], i->second); } } }
        if (!ok) { cls = c2; why = w2; continue; }
        for (auto& p : vals) for (size_t j = 0; j < p.second.size(); j++) c->last[p.first + fmt("#%zu", j)] = p.second[j];
        // exact cadence of a client that is written from the main thread, while nothing else goes on
        if (tm >= 0 && rt && c->fast && (v.mode == 2 || v.mode == 3) && first == k && k + 1 == c->vers.size() && c->acked == c->ncmd && !frz.size()) { if (c->prev_ack == c->acked && c->settle > 2) { note_step(); probe("cadence-checked"); ll d = llround((tm - c->prev_t) * tps()); ll cyc = v.mode == 2 ? c->cyc : sf * v.fm; if (v.mode == 3) probe("frame-cadence-checked"); if (d != cyc) { violation("V01", "a synchronised client missed a step", "client %d: time %.9g after %.9g, cycle %lld tics", c->id, tm, c->prev_t, cyc); } } if (c->prev_ack != c->acked) c->settle = 0; c->settle++; c->prev_t = tm; c->prev_ack = c->acked; } else { c->prev_ack = 0; c->settle = 0; }
        if (tm >= 0) c->last_t = tm; c->last_ver = k; probe(v.mode == 0 ? "mode-async" : v.mode == 1 ? "mode-sync-async-write" : v.mode == 2 ? "mode-sync" : v.mode == 3 ? "mode-top-of-frame" : "mode-top-of-frame-async-write"); return;
    }
    if (!c->bin) for (auto& f : split(raw, '\t')) logf("field of %zu bytes: %s ... %s", f.size(), f.substr(0, 20).c_str(), f.size() > 20 ? f.substr(f.size() - 20).c_str() : "");
    violation(strstr(cls, "subscription") ? "V03" : "V01", cls, "client %d (%s, mode %d): %s; message: %s", c->id, c->bin ? "binary" : "ascii", c->vers.empty() ? -1 : c->vers.back().mode, why.c_str(), show(raw).c_str()); c->broken = true;
}
void on_fence(Cl* c, bool yes) { note_step(); if (!c->fence_ok.empty()) { if (c->fence_ok.front() != yes) violation("V02", "a reply does not answer the request", "client %d: var_exists says %d", c->id, yes); c->fence_ok.pop_front(); } if (c->fences.empty()) { violation("V02", "a reply came that was not asked for", "client %d", c->id); return; } c->acked = c->fences.front(); c->fences.pop_front(); c->fence_vt.pop_front(); c->ack_seq = seqno();
    // (a reply to a client whose buffer is full is dropped) all replies asked for before the fence must be there
    while (c->oncep < c->once.size() && c->once[c->oncep].first < c->acked) { if (!(feat & F_SLOW)) violation("V02", "a request was not answered", "client %d: var_send_once, command %zu", c->id, c->once[c->oncep].first); c->oncep++; }
    while (c->sizep < c->sizes.size() && c->sizes[c->sizep].first < c->acked) { if (!(feat & F_SLOW)) violation("V02", "a request was not answered", "client %d: var_send_list_size, command %zu", c->id, c->sizes[c->sizep].first); c->sizep++; }
    while (!c->stl.empty() && c->stl.front().first < c->acked) { if (!(feat & F_SLOW)) violation("V02", "a request was not answered", "client %d: var_get_stl_size, command %zu", c->id, c->stl.front().first); c->stl.pop_front(); } }
void on_stl(Cl* c, ll v, bool bad) { note_step(); probe("stl-size-reply"); if (c->stl.empty()) { violation("V02", "a reply came that was not asked for", "client %d: stl size", c->id); return; } auto q = c->stl.front(); c->stl.pop_front(); if (!(feat & F_SLOW) && (q.second < 0 ? !(bad || v == 0) : bad || v != q.second)) violation("V02", "a reply does not answer the request", "client %d: stl size %lld, expected %d", c->id, v, q.second); }
void on_once(Cl* c, std::function<bool(const std::vector<Var>&, Vals&, double&)> dec, const std::string& raw) { note_step(); probe("send-once-reply"); Vals v; double t; if (c->oncep >= c->once.size()) { violation("V02", "a reply came that was not asked for", "client %d: %s", c->id, show(raw).c_str()); return; } auto& q = c->once[c->oncep++]; aux[0] = -1; if (!dec(q.second, v, t) || (q.want >= 0 && aux[0] != q.want && !(feat & F_SLOW))) { violation("V02", "a reply does not answer the request", "client %d command %zu: %s", c->id, q.first, show(raw).c_str()); c->broken = true; } }
void on_size(Cl* c, ll v, const std::string& raw) { note_step(); probe("list-size-reply"); if (c->sizep >= c->sizes.size()) { violation("V02", "a reply came that was not asked for", "client %d: %s", c->id, show(raw).c_str()); return; } auto q = c->sizes[c->sizep++]; if (v != q.second && !(feat & F_SLOW)) violation("V02", "a reply does not answer the request", "client %d: list size %lld, expected %d", c->id, v, q.second); }
void malformed(Cl* c, const char* why, const std::string& raw) { violation("V03", "a client received a malformed message", "client %d (%s): %s: %s", c->id, c->bin ? "binary" : "ascii", why, show(raw).c_str()); c->broken = true; }
// a list that does not fit in one binary message comes in several
void flush_part(Cl* c, bool must) { // what was received so far may be a whole list and the beginning of another one
    if (!c->part_nv) return; std::string b; b.swap(c->part); int m = c->part_nv; c->part_nv = 0;
    if (c->part_whole) on_data_msg(c, [&](const Ver& v, Vals& o, double& t) { return dec_bin(c, v.vars, b, m, o, t); }, b);
    else if (must && !(feat & F_SLOW)) violation("V03", "the rest of a list that came in several messages is missing", "client %d: %s", c->id, show(b).c_str()); }
void binary_data(Cl* c, std::string body, int nv, const std::string& raw) {
    size_t first = 0; for (size_t k = 0; k < c->vers.size(); k++) if (c->vers[k].cmd <= c->acked) first = k; Vals o; double t;
    for (;;) {
        std::string b = c->part + body; int m = c->part_nv + nv; bool whole = false, pre = false;
        for (size_t k = first; k < c->vers.size(); k++) { auto& V = c->vers[k].vars; if (dec_bin(c, V, b, m, o, t)) whole = true; else if (m < (int)V.size()) { size_t bytes = body.size() + 12 + 20 + (V[m].kind == 8 ? 2000 : 256); if (bytes > 8000 && dec_bin(c, V, b, m, o, t, true)) pre = true; } }
        if (pre) { c->part = b; c->part_nv = m; c->part_whole = whole; probe("list-in-several-messages"); return; }
        if (whole || !c->part_nv) { c->part.clear(); c->part_nv = 0; on_data_msg(c, [&](const Ver& v, Vals& o, double& t) { return dec_bin(c, v.vars, b, m, o, t); }, raw); return; }
        flush_part(c, true);
    }
}
void parse(Cl* c) { logf("client %d has %s", c->id, show(c->buf).c_str());
    while (!c->broken) {
        if (c->infile) { size_t k = std::min(c->buf.size(), c->fexp.size() - c->file_got); note_step(); if (c->buf.compare(0, k, c->fexp, c->file_got, k)) { violation("V03", "a transmitted file differs from the file", "client %d at byte %zu", c->id, c->file_got); c->broken = true; return; } c->buf.erase(0, k); c->file_got += k; if (c->file_got < c->fexp.size()) return; c->infile = false; probe("file-received"); continue; }
        if (c->bin) {
            if (c->buf.size() < 4) return; if (rd<int>(c->buf.data(), c->swap) != 0) flush_part(c, true); int ty = rd<int>(c->buf.data(), false); int ty2 = rd<int>(c->buf.data(), c->swap);
            if (ty == 1) { if (c->buf.size() < 5) return; bool y = c->buf[4]; if (c->buf[4] & ~1) malformed(c, "var_exists", c->buf.substr(0, 5)); c->buf.erase(0, 5); on_fence(c, y); continue; }
            if (ty == 6) { if (c->buf.size() < 8) return; on_stl(c, rd<int>(c->buf.data() + 4, false), false); c->buf.erase(0, 8); continue; }
            if (ty == 3) { if (c->buf.size() < 12) return; on_size(c, rd<int>(c->buf.data() + 8, false), c->buf.substr(0, 12)); c->buf.erase(0, 12); continue; }
            if (ty2 != 0 && ty2 != 5) { malformed(c, "unknown message type", c->buf); return; }
            if (c->buf.size() < 12) return; int sz = rd<int>(c->buf.data() + 4, c->swap), nv = rd<int>(c->buf.data() + 8, c->swap); if (sz < 8 || sz > 9000 || nv < 0 || nv > 500) { malformed(c, "bad header", c->buf); return; } if (c->buf.size() < (size_t)sz + 4) return;
            std::string raw = c->buf.substr(0, sz + 4), body = raw.substr(12); c->buf.erase(0, sz + 4);
            if (ty2 == 5) on_once(c, [&](const std::vector<Var>& v, Vals& o, double& t) { return dec_bin(c, v, body, nv, o, t); }, raw); else binary_data(c, body, nv, raw);
        } else {
            size_t e = c->buf.find('\n'); if (e == std::string::npos) { if (c->buf.size() > 60000) malformed(c, "no end of line", c->buf); return; } std::string l = c->buf.substr(0, e); c->buf.erase(0, e + 1); auto f = split(l, '\t');
            if (f[0] == "1") { if (f.size() != 2 || (f[1] != "1" && f[1] != "0")) { malformed(c, "var_exists", l); return; } on_fence(c, f[1] == "1"); }
            else if (f[0] == "6") { if (f.size() != 2) { malformed(c, "stl size", l); return; } on_stl(c, atoll(f[1].c_str()), f[1] == "BAD_REF"); }
            else if (f[0] == "3") { if (f.size() != 2) { malformed(c, "list size", l); return; } on_size(c, atoll(f[1].c_str()), l); }
            else if (f[0] == "5") on_once(c, [&](const std::vector<Var>& v, Vals& o, double& t) { return dec_ascii(v, f, o, t); }, l);
            else if (f[0] == "0") on_data_msg(c, [&](const Ver& v, Vals& o, double& t) { return dec_ascii(v.vars, f, o, t); }, l);
            else if (f[0] == "2" && c->files.size() && f.size() == 2) { c->fexp = c->files.front().second; c->files.pop_front(); c->file_got = 0; if (atoll(f[1].c_str()) != (ll)c->fexp.size()) { malformed(c, "file size", l); return; } c->infile = !c->fexp.empty(); }
            else malformed(c, "unknown message type", l);
        }
    }
}
// ---- client scripts: commands are queued with the oracle's view of them
struct Script { Cl* c; std::string s; std::vector<Var> vars; int mode; bool paused = false;
    void line(const std::string& l) { if (l == "trick.var_unpause()" && c->vers.size()) c->vers.back().paused = false; c->ncmd++; s += l + "\n"; }
    void ver() { Ver v{c->ncmd, vars, mode, c->fm, c->fo, c->zm, c->zo, paused}; if ((feat & F_BIG) && paused && !c->nsend && c->vers.size() && c->vers.back().paused) c->vers.back() = v; else c->vers.push_back(v); }
    void add(const Var& v) { line(v.cm ? fmt("trick.var_add(\"%s\", \"cm\")", v.name.c_str()) : fmt("trick.var_add(\"%s\")", v.name.c_str())); vars.push_back(v); ver(); }
    void fence(bool yes = true) { c->fence_ok.push_back(yes); line(yes ? "trick.var_exists(\"dst.v.i\")" : "trick.var_exists(\"dst.v.nope\")"); c->fences.push_back(c->ncmd); c->fence_vt.push_back(now()); }
};
std::map<int, Script> SC;
void setmode(Script& S) { int m = S.mode; if (m <= 2) S.line(fmt("trick.var_sync(%d)", m)); else { S.line("trick.var_set_copy_mode(2)"); S.line(fmt("trick.var_set_write_mode(%d)", m == 3 ? 1 : 0)); } }
void setframes(Script& S, bool all = false) { Cl* c = S.c; if (all || c->fm > 1 || c->fo) { S.line(fmt("trick.var_set_frame_offset(%d)", c->fo)); S.line(fmt("trick.var_set_frame_multiple(%d)", c->fm)); } if (all || c->zm > 1 || c->zo) { S.line(fmt("trick.var_set_freeze_frame_offset(%d)", c->zo)); S.line(fmt("trick.var_set_freeze_frame_multiple(%d)", c->zm)); } }
std::vector<Var> subscription(int id, int gen, int mode) {
    std::vector<Var> v; bool st = mode != 0; if (mode && pickf(4, "c%d.g%d.time", id, gen) != 3) v.push_back(mkvar(3, 0));
    int k = 1 + pickf(6, "c%d.g%d.nv", id, gen);
    if ((feat & F_FREEZE) && mode >= 3) { v.push_back(mkvar(10, 0)); v.push_back(mkvar(11, 0)); }
    if (feat & F_BIG) { k = std::min(k, 3); int nb = pickf(7, "c%d.g%d.big", id, gen); for (int i = 0; i < nb; i++) { if (i == 3) v.push_back(mkvar(2, 0)); v.push_back(mkvar(8, (i + gen) % 6)); } }
    for (int i = 0; i < k; i++) { int kd = pickf(14, "c%d.g%d.v%d", id, gen, i); Var x = kd < 4 ? mkvar(0, (kd * 3 + i) % 8) : kd < 6 ? mkvar(1, (i * 13 + kd) % 64) : kd == 6 ? mkvar(2, 0) : kd == 7 ? mkvar(2, 0, !SC[id].c->bin) : kd == 8 ? (st ? mkvar(4, 0) : mkvar(0, 7)) : kd == 9 ? mkvar(5, 0) : kd == 10 ? mkvar(6, 0) : kd > 11 ? ptrvar(kd - 12) : (st ? mkvar(7, 0) : mkvar(1, 63));
        bool dup = false; for (auto& y : v) if (y.name == x.name) dup = true; if (!dup) v.push_back(x); }
    return v;
}
void flush(Cl* c, int g) { logf("client %d sends: %s", c->id, SC[c->id].s.c_str());   // hand the text to the network in pieces
    std::string d; d.swap(SC[c->id].s); if (!c->c || !net_open(c->c)) return;
    int how = pickf(4, "c%d.b%d.split", c->id, g); if (how == 0 || d.size() < 3) { net_send(c->c, d); return; }
    size_t cut = 1 + pickf(d.size() - 1, "c%d.b%d.cut", c->id, g); net_send(c->c, d.substr(0, cut)); std::string r = d.substr(cut); u64 dl = how == 1 ? 0 : (u64)pickf(150, "c%d.b%d.hold", c->id, g) * MS;
    probe("split-command"); c->outq = r; at(now() + dl, [c] { if (net_open(c->c) && !c->outq.empty()) { std::string r; r.swap(c->outq); net_send(c->c, r); } });
}
void drawframes(Cl* c, int g) { static const int m[] = {1, 2, 3, 5}; c->fm = m[pickf(4, "c%d.fm%d", c->id, g)]; c->fo = pickf(c->fm, "c%d.fo%d", c->id, g); c->zm = 1 + pickf(3, "c%d.zm%d", c->id, g); c->zo = pickf(c->zm, "c%d.zo%d", c->id, g); }
void batch(Cl* c, int g) {
    if (c->gone || c->quitter || !c->c || !net_open(c->c) || !c->up) return; if (!c->outq.empty()) { net_send(c->c, c->outq); c->outq.clear(); }
    Script& S = SC[c->id]; int nl = 1 + pickf(6, "c%d.b%d.n", c->id, g);
    if (g == 0) { if (c->bin) S.line(c->nonames ? "trick.var_binary_nonames()" : "trick.var_binary()"); if (c->swap) S.line("trick.var_byteswap(1)"); S.line("trick.var_pause()"); c->pauses.push_back({c->ncmd, true}); S.paused = true; S.line(fmt("trick.var_cycle(%.9g)", c->rate)); setmode(S); setframes(S); S.ver(); if (c->data) { for (auto& v : subscription(c->id, 0, S.mode)) S.add(v); S.line("trick.var_unpause()"); c->pauses.push_back({c->ncmd, false}); S.paused = false; } S.fence(); flush(c, g); return; }
    if (calm) { if (c->data && !c->quitter) { if (S.paused) { S.line("trick.var_unpause()"); c->pauses.push_back({c->ncmd, false}); S.paused = false; } } S.fence(); logf("client %d sends: %s", c->id, S.s.c_str()); c->outq.clear(); net_send(c->c, S.s); S.s.clear(); return; }
    for (int i = 0; i < nl; i++) switch (pickf(20, "c%d.b%d.%d", c->id, g, i)) {
        case 0: case 1: case 2: { int q = c->marks.size(); c->marks.push_back(S.c->ncmd); c->mark_vt.push_back(now()); S.line(fmt("trick.dst_call(100,%d,%d)", c->id, q)); break; }
        case 3: S.line("trick.var_pause()"); c->pauses.push_back({c->ncmd, true}); S.paused = true; break;
        case 4: S.line("trick.var_unpause()"); c->pauses.push_back({c->ncmd, false}); S.paused = false; break;
        case 5: if (c->data && S.vars.size() < 12) { auto v = subscription(c->id, g * 10 + i + 1, S.mode); bool dup = false; for (auto& y : S.vars) if (y.name == v.back().name) dup = true; if (dup && v.back().kind < 2 && pickf(2, "c%d.b%d.%ddup", c->id, g, i)) { dup = false; probe("added-twice"); } if (!dup && v.back().kind != 3) S.add(v.back()); } break;
        case 6: if (S.vars.size() > 1) { size_t k = pickf(S.vars.size(), "c%d.b%d.%drm", c->id, g, i); for (size_t q = 0; q < k; q++) if (S.vars[q].name == S.vars[k].name) k = q; S.line(fmt("trick.var_remove(\"%s\")", S.vars[k].name.c_str())); S.vars.erase(S.vars.begin() + k); S.ver(); } break;
        case 7: if (S.mode == 0 && c->data) { S.line("trick.var_send()"); c->nsend++; } break;
        case 8: { std::vector<Var> v = {mkvar(0, 3), mkvar(1, 5)}; S.line("trick.var_send_once(\"dst.v.cnt[3],dst.v.w[5]\", 2)"); c->once.push_back({c->ncmd, v, -1}); break; }
        case 13: { int q = ++c->setval; S.line(fmt("trick.var_set(\"dst_set[%d]\", %d)", c->id, q)); if (pickf(3, "c%d.b%d.%dchk", c->id, g, i) == 0) break; S.line(fmt("trick.var_send_once(\"dst_set[%d]\")", c->id)); c->once.push_back({c->ncmd, {mkvar(9, c->id)}, (double)q}); probe("var-set"); break; }
        case 14: S.fence(false); break;
        case 15: { bool bad = pickf(4, "c%d.b%d.%dbad", c->id, g, i) == 3; S.line(bad ? "trick.var_get_stl_size(\"dst.v.x\")" : "trick.var_get_stl_size(\"dst.v.vec\")"); c->stl.push_back({c->ncmd, bad ? -1 : nvec}); break; }
        case 16: if (c->data) { static const int cy[] = {1, 2, 3, 5, 10}; c->cyc = mcyc * cy[pickf(5, "c%d.b%d.%dcyc", c->id, g, i)]; c->rate = c->cyc / 1e6; c->maxrate = std::max(c->maxrate, c->rate); S.line(fmt("trick.var_cycle(%.9g)", c->rate)); probe("cycle-changed"); } break;
        case 17: if (S.mode >= 3) { S.line("trick.var_pause()"); c->pauses.push_back({c->ncmd, true}); S.line("trick.var_clear()"); auto vv = S.vars; S.vars.clear(); S.ver(); drawframes(c, g * 10 + i); setframes(S, true); for (auto& v : vv) S.add(v); if (!S.paused) { S.line("trick.var_unpause()"); c->pauses.push_back({c->ncmd, false}); } } break;
        case 18: if (!c->bin && c->data) { for (auto& v : S.vars) if (v.name == "dst.v.x") { S.line(fmt("trick.var_units(\"dst.v.x\", \"%s\")", "cm")); v.cm = true; S.ver(); probe("units-changed"); break; } } break;
        case 12: if ((feat & F_BIG) && pickf(2, "c%d.b%d.%dbigonce", c->id, g, i)) { std::vector<Var> v; std::string l; int m = 2 + pickf(c->bin ? 3 : 5, "c%d.b%d.%dbn", c->id, g, i); for (int q = 0; q < m; q++) { v.push_back(mkvar(8, q)); l += (q ? "," : "") + v.back().name; } S.line(fmt("trick.var_send_once(\"%s\", %d)", l.c_str(), m)); c->once.push_back({c->ncmd, v, -1}); probe("big-send-once"); break; } // fall through
        case 9: S.line("trick.var_send_list_size()"); c->sizes.push_back({c->ncmd, (int)S.vars.size()}); break;
        case 10: if (c->data && pickf(3, "c%d.b%d.%dclr", c->id, g, i) == 2) { S.line("trick.var_pause()"); c->pauses.push_back({c->ncmd, true}); S.line("trick.var_clear()"); S.vars.clear(); S.ver(); static const int ms[] = {0, 2, 1, 3, 4}; S.mode = c->mode = ms[pickf(5, "c%d.b%d.%dmd", c->id, g, i)]; setmode(S); S.ver(); for (auto& v : subscription(c->id, g * 10 + i + 500, S.mode)) S.add(v); if (!S.paused) { S.line("trick.var_unpause()"); c->pauses.push_back({c->ncmd, false}); } probe("mode-changed"); } break;
        case 11: { bool tofile = (feat & F_FILE) && !c->bin && !c->data; if (tofile) { std::string ff = outdir() + "/dst_file.bin"; S.line("trick.send_file(\"" + ff + "\")"); c->files.push_back({c->ncmd, read_file(ff)}); } else S.fence(); break; }
        default: { S.line(fmt("# %s", std::string(1 + pickf(200, "c%d.b%d.%dpad", c->id, g, i), 'x').c_str())); }
    }
    if (pickf(2, "c%d.b%d.fence", c->id, g)) S.fence();
    flush(c, g);
}
void leave(Cl* c, int how) { if (c->gone) return; logf("client %d leaves, how %d", c->id, how); c->gone = true; c->t_close = now(); if (!c->c) return; probe(how == 0 ? "client-closed" : how == 1 ? "client-reset" : how == 2 ? "client-exit-command" : "client-half-closed");
    if (how == 0) net_close(c->c); else if (how == 1) net_reset(c->c); else if (how == 2) { c->gone = false; c->quitter = true; c->quit_vt = now(); if (net_open(c->c)) { net_send(c->c, c->outq + "trick.var_exit()\n"); c->outq.clear(); } } else { net_shutdown_wr(c->c); } }
int live_sessions(std::string* names) { int k = 0; for (int i = 0; i < ntasks(); i++) { std::string s = task_name(i); if (s.find("VarServer") != std::string::npos && s.find("Listen") == std::string::npos && s.find("VarServListen") == std::string::npos && task_alive(i)) { k++; if (names) *names += s + " "; } } return k; }
void check_live() { // every session belongs to a connected client
    if (leak_checked++) return; live_names.clear(); live_at_check = live_sessions(&live_names); want_at_check = 0; int slack = 0; for (auto* c : C) { u64 g = now() - std::min(now(), (u64)(3 * (c->maxrate + 0.02) * 1e9) + 500 * MS); if (c->up && !c->gone && !c->told && !c->quitter) want_at_check++; else if (c->quitter && !c->told ? c->quit_vt > g : c->t_close > g) slack++; else if (c->c && !c->up && !c->gone) slack++; } note_step(); probe("sessions-checked");
    for (auto* c : C) if (c->quitter && !c->told && net_open(c->c) && now() - c->quit_vt > (u64)(3 * (c->maxrate + 0.02) * 1e9) + 500 * MS) violation("V04", "a client that asked to leave was not disconnected", "client %d", c->id);
    if (live_at_check < want_at_check || live_at_check > want_at_check + slack) violation("V04", live_at_check > want_at_check ? "sessions of departed clients remain" : "a connected client has no session", "%d session threads for %d connected clients: %s", live_at_check, want_at_check, live_names.c_str());
    // what they hold
    int fds = net_open_fds(); int lim = base_fds + live_at_check; if (fds > lim + 3) violation("V04", "descriptors of departed clients remain", "%d open descriptors for %d clients (%d before the first)", fds, want_at_check, base_fds);
}
void go_calm() { calm = true; calm_vt = now(); calm_tics = tics(); faults_off(); sched_policy_fair(); netcfg.nb_chunk = 0; for (auto* c : C) if (c->c && net_open(c->c)) { net_set_rate(c->c, 0); net_set_reading(c->c, true); net_set_window(c->c, 1 << 20, 1 << 20); c->fast = false; c->calm_msgs = 0; } for (auto* c : C) at(now() + 1000 + c->id, [c] { batch(c, 900); }); }

std::string setup() {
    feat = opti("feat", F_DATA | F_CMD); rt = (feat & F_RT); std::string py; n = 0;
    { REF2* r = ref_attributes("dst.v"); if (!r) { invalid("no dst.v"); return py; } DV = (DstVars*)r->address; DV->pn[0] = DV->pnode = &DV->nodes[0]; }
    exec_set_time_tic_value(1000000); static const int mc[] = {10000, 5000, 20000, 50000, 2500}; mcyc = mc[pick("mcyc", 5)]; static const int fr[] = {10, 1, 4, 20, 2}; sf = std::min<ll>(200000, mcyc * fr[pick("frame", 5)]); exec_set_software_frame(sf / 1e6);
    int steps = 30 + pick("steps", 60); Tcalm = std::max<ll>(mcyc * steps, 600000); Tcalm = std::min<ll>(Tcalm, 2000000); Tend = Tcalm + 2500000; if (mcyc <= 5000) Tend = Tcalm + 1600000; Tend = Tend / mcyc * mcyc;
    the_vs->set_enabled(true); the_vs->set_allow_connections(true); int port = the_vs->get_listen_thread().get_port();
    wk = 20 * US + pick("work", 2000) * US; if (!rt) wk = std::max<u64>(wk, mcyc * 500);
    Obj* o = new Obj;
    o->add(0, "scheduled", mcyc / 1e6, "upd", 60000, 0, 1e37, [](Trick::JobData*) { if (last_step_vt) max_gap = std::max(max_gap, now() - last_step_vt); last_step_vt = now(); compute(wk / 2); set_vars(); compute(wk - wk / 2); step("n", n); if (!calm && tics() >= Tcalm) go_calm(); return 0; });
    o->add(0, "scheduled", Tend / 1e6, "chk", 65000, (Tend - mcyc) / 1e6, 1e37, [](Trick::JobData*) { check_live(); return 0; });
    o->add(0, "shutdown", 1, "sd", 1, 0, 1e37, [](Trick::JobData*) { shut = true; shut_vt = now(); return 0; });
    if (feat & F_FREEZE) { static int passes; passes = 0; exec_set_enable_freeze(1); exec_set_freeze_frame(mcyc / 1e6);
        o->add(0, "freeze_init", 1, "fi", 1, 0, 1e37, [](Trick::JobData*) { passes = 0; frz.insert(tics()); probe("freeze"); return 0; });
        o->add(0, "freeze", 1, "fz", 65535, 0, 1e37, [](Trick::JobData*) { compute(wk + 2 * MS); if (++passes >= 8) exec_run(); return 0; });
        for (int i = 0, k = 1 + pick("fz", 3); i < k; i++) py += fmt("trick.freeze(%.9g)\n", (double)(1 + pickf(Tcalm / mcyc, "fz%d", i)) * mcyc / 1e6); frz.insert(-1); }
    frame_of.clear(); o->add(0, "top_of_frame", 1, "tof", 1, 0, 1e37, [](Trick::JobData*) { frame_of[tics()] = exec_get_frame_count(); return 0; });
    if (feat & F_BIG) BIG = (ll*)TMM_declare_var_s("long long dst_big[6][250]"); TMM_declare_var_s("double dst_set[16]"); nvec = pick("nvec", 6); DV->vec.assign(nvec, 1.5);
    exec_add_sim_object(o, "vso");
    if (rt) py += "trick.real_time_enable()\n"; py += fmt("trick.stop(%.9g)\n", Tend / 1e6);
    if (pick("log", 6) == 5) { py += "trick.set_var_server_log_on()\n"; probe("log"); } if (pick("ilog", 8) == 7) py += "trick.set_var_server_info_msg_on()\n"; if (pick("slog", 8) == 7) { the_vs->set_var_server_session_log_on(); probe("session-log"); }
    // faults
    if (chance("f.spur", 30)) fault_rate("spurious_wakeup", 20000); if (chance("f.over", 30)) fault_rate("oversleep", 30000); if (feat & F_SLOW) { if (chance("f.part", 60)) fault_rate("send_partial", 300000); netcfg.win_out = 300 + pick("win", 8000); }
    if (chance("f.seg", 50)) netcfg.seg_max = 1 + pick("seg", 40); if (chance("f.lat", 30)) netcfg.lat_hi = 20 * MS;
    if (feat & F_CHURN) { if (chance("f.acc", 20)) fault_rate("accept_fail", 100000); }
    on_call(100, [](int c, int q) { marks.push_back({c, q, self()}); step("mark", c * 1000 + q); return 0; });
    int nc = 1 + pick("clients", (feat & F_CHURN) ? 10 : 4); SC.clear();
    for (int i = 0; i < nc; i++) {
        Cl* c = new Cl; c->id = i; C.push_back(c); c->bin = pickf(3, "c%d.bin", i) == 2; if (c->bin) { c->swap = pickf(4, "c%d.swap", i) == 3; c->nonames = pickf(5, "c%d.nonames", i) == 4; }
        c->data = (feat & F_DATA) && pickf(5, "c%d.data", i) != 4; static const int ms[] = {0, 2, 1, 3, 4}; c->mode = ms[pickf(5, "c%d.mode", i)]; static const int cy[] = {1, 2, 3, 5, 10}; c->cyc = mcyc * cy[pickf(5, "c%d.cyc", i)]; if (pickf(8, "c%d.odd", i) == 7) c->cyc += 1700; c->rate = c->maxrate = c->cyc / 1e6; if (c->mode >= 3) drawframes(c, 0); SC[i].c = c; SC[i].mode = c->mode;
        u64 t0 = pickf(3, "c%d.early", i) ? (u64)pickf(800, "c%d.t", i) * MS : 0; bool slow = (feat & F_SLOW) && pickf(2, "c%d.slow", i); c->fast = !(feat & F_SLOW); int lv = (feat & F_CHURN) ? pickf(5, "c%d.leave", i) - 1 : -1; u64 tl = t0 + (u64)pickf(1500, "c%d.tl", i) * MS; int nb = pickf(6, "c%d.nb", i);
        at(now() + t0, [=] {
            ConnCb cb; cb.on_open = [c, nb](Conn* k) { c->c = k; c->up = true; c->t_conn = now(); batch(c, 0); for (int g = 1; g <= nb; g++) at(now() + (u64)pickf(1200, "c%d.bt%d", c->id, g) * MS, [c, g] { batch(c, g); }); };
            cb.on_data = [c](Conn*, const std::string& d) { if (c->gone) return; c->buf += d; c->last_rx = now(); if (!(c->bin && c->acked == 0 && false)) parse(c); };
            cb.on_close = [c](Conn*, int why) { c->told = true; c->close_why = why; c->t_close = now(); probe(why == 2 ? "refused" : "server-closed"); if (why == 2) c->gone = true; };
            c->c = net_connect(port, cb); if (calm) c->fast = true; else if (slow) { net_set_rate(c->c, (u64)(1 + pickf(400, "c%d.srate", i)) * MS); if (pickf(3, "c%d.stuck", i) == 2) { net_set_reading(c->c, false); probe("client-stops-reading"); } }
        });
        if (lv >= 0) at(now() + tl, [c, lv] { leave(c, lv); });
    }
    if (feat & F_FILE) { std::string f = outdir() + "/dst_file.bin"; FILE* fp = fopen(f.c_str(), "w"); if (fp) { for (int i = 0, k = pick("fsz", 20000); i < k; i++) fputc((i * 7 + i / 251) & 0xff, fp); fclose(fp); } }
    base_fds = net_open_fds();
    return py;
}
void finish(int why, int code) {
    if (why != W_EXIT) { violation("V04", "the simulation did not end", "%s; sim time %lld of %lld; %s", why_name(why), tics(), Tend, task_dump().substr(0, 600).c_str()); return; }
    if (code != 0) violation("V04", "the simulation ended with an error", "exit code %d", code);
    if (shut) { note_step(); u64 d = now() - shut_vt; if (d > 14 * SEC) violation("V04", "shutdown took too long", "%.3f s", d / 1e9); } 
    if (tics() < Tend) { violation("V04", "the simulation ended early", "at %lld of %lld", tics(), Tend); }
    // V02: commands exactly once, in order, by the client's own session
    std::map<int, int> nx, task; std::map<int, std::set<int>> owner;
    for (auto& m : marks) { note_step(); if (m.cl < 0 || m.cl >= (int)C.size()) { violation("V02", "a command was executed that no client sent", "%d %d", m.cl, m.seq); return; } int& e = nx[m.cl]; if (m.seq != e) { violation("V02", m.seq < e ? "a command was executed twice or out of order" : "a command was skipped", "client %d: %d, expected %d", m.cl, m.seq, e); return; } e++; if (!task.count(m.cl)) task[m.cl] = m.task; if (task[m.cl] != m.task) { violation("V02", "a command was executed by another session", "client %d", m.cl); return; } }
    if (marks.size()) probe("marker-commands", marks.size());
    for (auto* c : C) {
        bool stays = c->up && !c->gone && !c->told && !c->quitter && c->c;
        if (!stays) { if (c->told && c->up && !c->gone && !c->quitter && c->t_close < shut_vt && !(feat & F_SLOW) && !(feat & F_CHURN)) violation("V03", "a client that keeps up was disconnected", "client %d (%s)", c->id, c->bin ? "binary" : "ascii"); continue; }
        note_step();
    }
    for (auto* c : C) if (calm && c->up && !c->gone && !c->quitter && (!c->told || c->t_close >= shut_vt) && c->c && !c->broken) {
        note_step(); probe("client-stayed");
        u64 due = shut_vt - std::min(shut_vt, (u64)(5 * (c->maxrate + 0.02) * 1e9) + 400 * MS);   // what was sent by then has had the time it takes
        size_t mdue = 0; while (mdue < c->mark_vt.size() && c->mark_vt[mdue] < due) mdue++;
        if (nx[c->id] < (int)mdue) violation("V02", "a command was not executed", "client %d: %d of %zu", c->id, nx[c->id], c->marks.size());
        if (!c->fences.empty() && c->fence_vt.front() < due) if (!(feat & F_SLOW)) violation("V02", "a request was not answered", "client %d: %zu fences open", c->id, c->fences.size());
        Script& S = SC[c->id]; if (!S.vars.empty() && c->data) {
            double vt = (shut_vt - calm_vt) / 1e9, st = (tics() - calm_tics) / 1e6; double loop = c->rate + 0.02, per; double nexp;
            if (c->mode == 0) nexp = vt / loop; else { double cyc = c->mode <= 2 ? std::max(c->cyc / 1e6, mcyc / 1e6) : sf / 1e6 * c->fm; nexp = st / cyc; if ((c->mode != 2 && c->mode != 3) || !rt) nexp = std::min(nexp, vt / (rt ? std::max(loop, sf / 1e6) : loop)); } (void)per;   // in real time the copies of one frame come at once and only the last one is sent
            probe("progress-checked"); if (c->calm_msgs < 0.3 * nexp - 3) violation("V01", "a subscribed client is not sent data", "client %d (%s, mode %d, cycle %lld): %zu messages in %.3f s (%.3f s of simulated time), about %.0f expected", c->id, c->bin ? "binary" : "ascii", c->mode, c->cyc, c->calm_msgs, vt, st, nexp);
        }
    }
}
static Reg r({"vs", setup, finish, 120 * SEC, 150000000, "V04"});
}
