// Variable server access control: clients of many addresses connect while the server is enabled, disabled, opened, closed and its allowlist changes (V05).
#include "common.hh"
#include "trick/VariableServer.hh"
#include "trick/variable_server_proto.h"
using namespace w;
extern Trick::VariableServer* the_vs;
namespace {
enum { F_OPS = 1, F_ADMIN = 2, F_SWITCH = 4, F_MALFORMED = 8, F_FREEZE = 16, F_NET = 32, F_LEAVE = 64 };
// ---- registers of the access state, each written in an interval of steps
struct Wr { u64 b, e; int val; };
struct Reg_ { int init = 0; std::vector<Wr> w; bool can(int val, u64 s0, u64 s1) const {
    bool dead = false; for (auto& x : w) if (x.e <= s0) dead = true; if (!dead && init == val) return true;
    for (auto& x : w) { if (x.val != val || x.b > s1) continue; bool sup = false; for (auto& y : w) if (y.b > x.e && y.e <= s0) sup = true; if (!sup) return true; } return false; } };
const char* IPS[] = {"127.0.0.1", "10.0.0.5", "10.0.1.7", "192.168.1.20", "192.168.1.200", "172.16.255.255", "172.32.0.1", "1.2.3.4", "255.255.255.254", "128.0.0.1"};
const char* ENT[] = {"127.0.0.1", "10.0.0.5", "10.0.0.0/8", "10.0.0.0/24", "192.168.1.2", "192.168.1.20", "192.168.1.128/25", "192.168.1.0/25", "172.16.0.0/12", "172.31.255.255/11", "0.0.0.0/0", "128.0.0.0/1", "255.255.255.254/31", "255.255.255.255/32", "1.2.3.4/32", "1.2.3.5/32", "10.0.1.7/16", "1.2.3.4", "10.0.1.6/31", "127.0.0.1/32",
    /* malformed: match nothing */ "10.0.0.0/", "10.0.0.0/abc", "10.0.0.0/33", "10.0.0.0/-1", "0.0.0.0/64", "/8", "nonsense/0", "10.0.0", "", "1.2.3.4/99999999999", "10.0.0.5 "};
const int NIP = 10, NENT = 31, NGOOD = 20;
Reg_ en, al, by, ent[NENT]; int feat; ll Tend, mcyc; u64 wk, shut_vt, start_vt, last_conn; bool shut; int port; u64 en_chg;
struct Op { int kind, arg; u64 b = 0, e = ~0ull; std::vector<std::pair<Reg_*, size_t>> ws; bool open = false; }; std::vector<Op> ops;
struct Cl { int id, ip; Conn* c = nullptr; bool up = false, closed = false, left = false, admin = false; u64 s0 = 0, t0 = 0; int sent = 0, ran = 0; size_t bytes = 0; std::string buf; int why = -1; u64 t_close = 0; std::vector<u64> svt; }; std::vector<Cl*> C;
uint32_t ipnum(const std::string& s, bool& ok) { unsigned v[4]; char x; ok = sscanf(s.c_str(), "%u.%u.%u.%u%c", v, v + 1, v + 2, v + 3, &x) == 4 && v[0] < 256 && v[1] < 256 && v[2] < 256 && v[3] < 256; return ok ? (v[0] << 24) | (v[1] << 16) | (v[2] << 8) | v[3] : 0; }
bool matches(int ip, int e) { if (e >= NGOOD) return false; std::string s = ENT[e]; bool ok; uint32_t a = ipnum(IPS[ip], ok); size_t p = s.find('/'); int n = p == std::string::npos ? 32 : atoi(s.c_str() + p + 1); uint32_t b = ipnum(s.substr(0, p), ok); for (int k = 0; k < n; k++) if (((a ^ b) >> (31 - k)) & 1) return false; return ok; }
bool accept_possible(Cl* c, u64 s1) { if (!en.can(1, c->s0, s1) || !al.can(1, c->s0, s1)) return false; if (by.can(1, c->s0, s1)) return true; for (int e = 0; e < NENT; e++) if (matches(c->ip, e) && ent[e].can(1, c->s0, s1)) return true; return false; }
bool reject_possible(Cl* c, u64 s1) { if (en.can(0, c->s0, s1) || al.can(0, c->s0, s1)) return true; if (!by.can(0, c->s0, s1)) return false; for (int e = 0; e < NENT; e++) if (matches(c->ip, e) && !ent[e].can(0, c->s0, s1)) return false; return true; }
std::string state(u64 s) { std::string o = fmt("enabled %d%d allow %d%d bypass %d%d list", en.can(0, s, s), en.can(1, s, s), al.can(0, s, s), al.can(1, s, s), by.can(0, s, s), by.can(1, s, s)); for (int e = 0; e < NENT; e++) if (ent[e].can(1, s, s)) o += std::string(" ") + ENT[e]; return o; }
// ---- operations
void op_begin(int k) { Op& o = ops[k]; if (o.open) return; o.open = true; o.b = seqno(); auto w = [&](Reg_& r, int v) { r.w.push_back({o.b, ~0ull, v}); o.ws.push_back({&r, r.w.size() - 1}); };
    switch (o.kind) { case 0: w(en, o.arg); break; case 1: w(al, o.arg); if (o.arg) w(ent[0], 1); break; case 2: w(by, o.arg); break; case 3: w(ent[o.arg], 1); break; case 4: w(ent[o.arg], 0); break;
        case 5: w(en, 1); w(al, 1); w(ent[0], 1); break; case 6: w(en, 0); w(al, 0); break; case 7: w(en, 1); w(al, 1); w(ent[0], 1); w(by, 1); break; } }
void op_end(int k) { Op& o = ops[k]; o.e = seqno(); step("op", k); for (auto& x : o.ws) { x.first->w[x.second].e = o.e; if (x.first == &en) { en_chg++; probe("enabled-switched"); if (!x.first->w[x.second].val) { u64 g = en_chg; at(now() + 1500 * MS, [g] { if (g != en_chg || shut) return; if (!en.can(1, seqno(), seqno())) for (auto* c : C) if (c->up && !c->closed && !c->left && c->t0 + 1500 * MS < now()) { note_step(); violation("V05", "a disabled server kept a client connected", "client %d", c->id); } else note_step(); }); } } } }
std::string op_text(int k) { Op& o = ops[k]; switch (o.kind) { case 0: return fmt("trick.var_server_set_enabled(%d)", o.arg); case 1: return fmt("trick.var_set_allow_connections(%s)", o.arg ? "True" : "False"); case 2: return fmt("trick.var_set_ip_check_bypass(%s)", o.arg ? "True" : "False"); case 3: return fmt("trick.var_add_ip(\"%s\")", ENT[o.arg]); case 4: return fmt("trick.var_remove_ip(\"%s\")", ENT[o.arg]); case 5: return "trick.var_allow_connections()"; case 6: return "trick.var_disable_connections()"; default: return "trick.var_allow_all_connections()"; } }
void op_call(int k) { Op& o = ops[k]; op_begin(k); switch (o.kind) { case 0: var_server_set_enabled(o.arg); break; case 1: the_vs->set_allow_connections(o.arg); break; case 2: the_vs->set_bypass_ip_check(o.arg); break; case 3: the_vs->add_ip(ENT[o.arg]); break; case 4: the_vs->remove_ip(ENT[o.arg]); break; case 5: case 6: case 7: break; } op_end(k); }
int draw_op(const char* tag, int i, bool direct) {
    Op o; static const int on[] = {3, 4, 3, 4, 2, 1, 3, 4}, sw[] = {3, 0, 1, 5, 6, 0, 2, 7, 4, 1, 3, 5};
    o.kind = (feat & F_SWITCH) ? sw[pickf(12, "%s%d.kind", tag, i)] : on[pickf(8, "%s%d.kind", tag, i)]; if (direct && o.kind >= 5) o.kind = 0;
    o.arg = o.kind == 3 || o.kind == 4 ? pickf((feat & F_MALFORMED) ? NENT : NGOOD, "%s%d.ent", tag, i) : pickf(2, "%s%d.val", tag, i); ops.push_back(o); return ops.size() - 1; }
// ---- clients
void ran(int id, int q) { if (id < 0 || id >= (int)C.size()) return; Cl* c = C[id]; note_step(); step("ran", id * 1000 + q); if (q != c->ran) violation("V05", "a command of an accepted client was skipped or repeated", "client %d: %d, expected %d", id, q, c->ran); c->ran = q + 1;
    if (!accept_possible(c, seqno())) { violation("V05", "a client that is not allowed executed a command", "client %d of %s, connected at step %llu: then %s; now %s", id, IPS[c->ip], (unsigned long long)c->s0, state(c->s0).c_str(), state(seqno()).c_str()); } else probe("command-allowed"); }
void sendcmd(Cl* c, const std::string& extra = "") { if (!c->up || c->closed || c->left || shut) return; std::string s; for (size_t p = 0; p < extra.size();) { size_t q = extra.find('\n', p); s += extra.substr(p, q - p + 1); p = q + 1; } s += fmt("trick.dst_call(100, %d, %d)\ntrick.var_send_list_size()\n", c->id, c->sent++); c->svt.push_back(now()); net_send(c->c, s); }
void start_client(int id, int ip, u64 t, bool admin) {
    Cl* c = new Cl; c->id = id; c->ip = ip; c->admin = admin; C.push_back(c);
    at(t, [c] {
        if (shut) { c->left = true; return; } ConnCb cb; c->s0 = seqno(); c->t0 = now(); last_conn = now();
        cb.on_open = [c](Conn* k) { c->c = k; c->up = true; sendcmd(c); int n = pickf(4, "c%d.more", c->id); for (int j = 0; j < n; j++) at(now() + (u64)pickf(1500, "c%d.t%d", c->id, j) * MS, [c] { sendcmd(c); });
            if (c->admin) { int m = 1 + pickf(6, "c%d.ops", c->id); for (int j = 0; j < m; j++) at(now() + (u64)(1 + pickf(2000, "c%d.ot%d", c->id, j)) * MS, [c, j] { int k = draw_op(fmt("c%d.o", c->id).c_str(), j, false); sendcmd(c, fmt("trick.dst_call(200, %d, 0); %s; trick.dst_call(200, %d, 1)\n", k, op_text(k).c_str(), k)); }); }
            if ((feat & F_LEAVE) && pickf(2, "c%d.leave", c->id)) at(now() + (u64)pickf(1200, "c%d.tl", c->id) * MS, [c] { if (c->closed || c->left) return; c->left = true; last_conn = now(); if (pickf(2, "c%d.rst", c->id)) net_reset(c->c); else net_close(c->c); }); };
        cb.on_data = [c](Conn*, const std::string& d) { c->bytes += d.size(); note_step(); if (!accept_possible(c, seqno())) violation("V05", "a client that is not allowed was sent data", "client %d of %s: %s", c->id, IPS[c->ip], state(seqno()).c_str()); };
        cb.on_close = [c](Conn*, int why) { if (c->left) return; c->closed = true; c->why = why; c->t_close = now(); last_conn = now(); if (shut) return; note_step();
            if (c->ran == 0) { probe("client-rejected"); if (!reject_possible(c, seqno())) violation("V05", "a client that is allowed was rejected", "client %d of %s: %s", c->id, IPS[c->ip], state(seqno()).c_str()); }
            else if (!en.can(0, c->s0, seqno())) violation("V05", "a connected client was dropped", "client %d of %s: %s", c->id, IPS[c->ip], state(seqno()).c_str()); else probe("client-dropped"); };
        c->c = net_connect(port, cb); net_set_ip(c->c, IPS[c->ip]);
        at(std::max(now(), start_vt) + 1500 * MS, [c] { if (shut || c->left || c->closed) return; note_step(); if (c->ran == 0) violation("V05", accept_possible(c, seqno()) ? "a client was neither served nor rejected" : "a client that is not allowed was not disconnected", "client %d of %s: %s; %s", c->id, IPS[c->ip], state(seqno()).c_str(), task_dump().substr(0, 300).c_str()); else probe("client-served"); });
    });
}
std::string setup() {
    feat = opti("feat", 3); std::string py; for (auto* c : C) delete c; C.clear(); ops.clear(); en = al = by = Reg_(); for (auto& e : ent) e = Reg_(); shut = false; shut_vt = 0; en_chg = 0; ops.reserve(400);
    mcyc = 10000; Tend = 2500000 + 100000 * pick("len", 10); port = the_vs->get_listen_thread().get_port(); wk = 2 * MS + pick("work", 6000) * US; 
    exec_set_time_tic_value(1000000); last_conn = 0; start_vt = 2 * SEC;
    if (chance("f.spur", 30)) fault_rate("spurious_wakeup", 20000); if (chance("f.over", 30)) fault_rate("oversleep", 30000); if (feat & F_NET) { if (chance("f.seg", 60)) netcfg.seg_max = 1 + pick("seg", 40); if (chance("f.lat", 60)) netcfg.lat_hi = 20 * MS; if (chance("f.part", 50)) fault_rate("send_partial", 200000); }
    // the documented defaults: disabled, not listening, empty list until connections are allowed
    the_vs->set_enabled(false); 
    int i0 = pick("init", 6); auto pop = [&](int kind, int arg) { Op o; o.kind = kind; o.arg = arg; ops.push_back(o); int k = ops.size() - 1; py += fmt("trick.dst_call(200, %d, 0)\n", k) + op_text(k) + fmt("\ntrick.dst_call(200, %d, 1)\n", k); };
    on_call(100, [](int c, int q) { ran(c, q); return 0; }); on_call(200, [](int k, int e) { if (k < 0 || k >= (int)ops.size()) return 0; if (e) op_end(k); else op_begin(k); return 0; });
    if (i0 < 3) pop(5, 0); else if (i0 == 3) { pop(0, 1); pop(1, 1); } else if (i0 == 4) pop(7, 0); else if (!(feat & F_SWITCH)) pop(5, 0);
    for (int i = 0, k = pick("pre", 5); i < k; i++) pop(3, pickf((feat & F_MALFORMED) ? NENT : NGOOD, "pre%d", i)); if (pick("rmlocal", 6) == 5) pop(4, 0);
    Obj* o = new Obj;
    o->add(0, "scheduled", mcyc / 1e6, "upd", 60000, 0, 1e37, [](Trick::JobData*) { if (tics() == 0) start_vt = now(); compute(wk); return 0; });
    o->add(0, "initialization", 1, "ini", 65000, 0, 1e37, [](Trick::JobData*) { start_vt = now(); return 0; });
    o->add(0, "scheduled", Tend / 1e6, "chk", 65000, (Tend - mcyc) / 1e6, 1e37, [](Trick::JobData*) { int live = 0, unsure = 0; for (auto* c : C) { if (c->left || c->closed || !c->up) continue; if (c->ran) live++; else unsure++; } if (last_conn + 1 * SEC < now() && !unsure) { note_step(); probe("descriptors-checked"); int d = net_open_fds(true); if (d > live) violation("V05", "connections that were rejected or ended stay open", "%d descriptors for %d clients: %s", d, live, net_dump().substr(0, 300).c_str()); } return 0; });
    o->add(0, "shutdown", 1, "sd", 1, 0, 1e37, [](Trick::JobData*) { shut = true; shut_vt = now(); return 0; });
    if (feat & F_FREEZE) { static int passes; passes = 0; exec_set_enable_freeze(1); o->add(0, "freeze_init", 1, "fi", 1, 0, 1e37, [](Trick::JobData*) { passes = 0; probe("freeze"); return 0; }); o->add(0, "freeze", 1, "fz", 65535, 0, 1e37, [](Trick::JobData*) { compute(wk); if (++passes >= 8) exec_run(); return 0; }); for (int i = 0, k = 1 + pick("fz", 3); i < k; i++) py += fmt("trick.freeze(%.9g)\n", (double)(1 + pickf(Tend / mcyc - 60, "fz%d", i)) * mcyc / 1e6); }
    if (feat & F_OPS) for (int i = 0, k = 1 + pick("nops", 8); i < k; i++) { double t = (1 + pickf(180, "op%d.t", i)) * 0.01; if (pickf(3, "op%d.job", i)) { int d = draw_op("op", i, true); o->add(pickf(3, "op%d.thr", i) == 2 ? 1 : 0, "scheduled", 100, "op", 1 + i, t, 1e37, [d](Trick::JobData*) { if (ops[d].open) return 0; op_call(d); return 0; }); } else { int d = draw_op("op", i, false); py += fmt("trick.add_read(%.9g, \"\"\"trick.dst_call(200, %d, 0); %s; trick.dst_call(200, %d, 1)\"\"\")\n", t, d, op_text(d).c_str(), d); } }
    exec_add_sim_object(o, "vao"); py += fmt("trick.stop(%.9g)\n", Tend / 1e6);
    int nc = 2 + pick("clients", 12); for (int i = 0; i < nc; i++) { bool adm = (feat & F_ADMIN) && i < 3; start_client(i, adm && pickf(4, "c%d.aip", i) ? 0 : pickf(NIP, "c%d.ip", i), now() + (pickf(3, "c%d.early", i) ? (u64)pickf(1800, "c%d.t", i) * MS : (u64)pickf(300, "c%d.t", i) * 10 * US), adm); }
    return py;
}
void finish(int why, int code) {
    if (why != W_EXIT) { violation("V05", "the simulation did not end", "%s; sim time %lld of %lld; %s", why_name(why), tics(), Tend, task_dump().substr(0, 600).c_str()); return; }
    if (code != 0) violation("V05", "the simulation ended with an error", "exit code %d", code);
    if (tics() < Tend) violation("V05", "the simulation ended early", "at %lld of %lld", tics(), Tend);
}
static Reg r({"va", setup, finish, 120 * SEC, 150000000, "V05"});
}
