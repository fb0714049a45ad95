// Master and slaves: a simulation keeps its frames, its mode and its end together with simulations it shares no clock with. S01.
// One side is the real simulation, the other a scripted peer: slow, freezing, leaving, resetting, silent.
#include "common.hh"
#include "trick/Master.hh"
#include "trick/Slave.hh"
#include "trick/MSSocket.hh"
#include "trick/CheckPointRestart_c_intf.hh"
#include "trick/memorymanager_c_intf.h"
#include "trick/tc_proto.h"
#include "trick/attributes.h"
#include "trick/reference.h"
#include <unistd.h>
extern Trick::Master* the_ms_master;
using namespace w;
namespace {
enum { F_SLAVE = 1, F_FRZ = 2, F_LOSS = 4, F_MACH = 8, F_THR = 16, F_CHK = 32, F_LIM = 64, F_NETF = 128, F_IFRZ = 256 };
int feat; ll sf, Tend; bool ended; int endcode; ll fframe;
enum { H_TOF, H_EOF, H_FRZ, H_READ, H_WRITE, H_FREEZEREQ, H_RUNREQ, H_STOPREQ, H_CHK, H_SHUT, H_FINIT, H_UNF };
static const char* HN[] = {"top-of-frame", "end-of-frame", "freeze-pass", "read", "write", "freeze-asked", "run-asked", "stop-asked", "checkpoint", "shutdown", "freeze-on", "freeze-off"};
struct Ev { int k, who; ll v; ll t; u64 at, at0, sq; };
std::vector<Ev> H;
void hist(int k, int who = -1, ll v = 0, u64 at0 = 0) { H.push_back({k, who, v, tics(), now(), at0, seqno()}); logf("%s who %d value %lld at %lld", HN[k], who, v, tics()); step(HN[k], v + who * 16); note_step(); }
void bad(const char* c, const char* f, ...) __attribute__((format(printf, 2, 3)));
void bad(const char* c, const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); violation("S01", c, "%s", b); }
struct Rec { ll t; int cmd; std::string name; u64 at; };
struct Peer {
    int id; Conn* c = nullptr; std::string in; bool init = false, gone = false, hardgone = false, silent = false, exited = false, frozen = false, fin_seen = false; u64 t_gone = 0, last_send = 0; std::vector<Rec> recs; std::vector<int> sent; std::vector<u64> sent_at; int sends = 0;
    bool term = false; double limit = 0; ll ifr[5]; int lossat = -1, losskind = 0; std::set<int> frzat; bool dump = true; int exittold = 0;
    // slave mode: the master
    std::vector<int> got; std::vector<u64> got_at; int replies = 0; std::vector<int> reply; std::vector<u64> reply_at; std::vector<std::string> rname;
};
std::vector<Peer*> P; Trick::Slave* sl; int chkn; bool slave_mode;
std::string bytes4(int v) { return std::string((char*)&v, 4); } std::string bytes8(ll v) { return std::string((char*)&v, 8); }
struct Sock : Trick::MSSocket {
    Peer* p; bool started = false; int first = -1; Sock(Peer* q) : p(q) { memset(&tc_dev, 0, sizeof tc_dev); tc_dev.socket = TRICKCOMM_INVALID_SOCKET; tc_dev.blockio_type = TC_COMM_BLOCKIO; tc_dev.blockio_limit = MAX_BLOCKIO_TIMEOUT_LIMIT; }
    int up() { tc_dev.hostname = strdup("localhost"); tc_dev.port = 7100 + p->id; tc_dev.disable_handshaking = TC_COMM_TRUE; return tc_connect(&tc_dev); }
    int accept() { return up(); } int connect() { return up(); } std::string add_sim_args(std::string) { return "-p sim"; } int process_sim_args() { return slave_mode; }
    MS_SIM_COMMAND read_command() { u64 a = now(); MS_SIM_COMMAND r = MSSocket::read_command(); if (slave_mode && !started) { started = true; first = r; return r; } hist(H_READ, p->id, r, a); return r; }
    int write_command(MS_SIM_COMMAND c) { if (!slave_mode && !started) started = true; else hist(H_WRITE, p->id, c); return MSSocket::write_command(c); }
};
u64 delay(Peer* p, int n) { u64 d = (u64)pickf(40, "p%d.%d.d", p->id, n) * 50 * US; if (pickf(12, "p%d.%d.slow", p->id, n) == 11) d += (u64)pickf(30, "p%d.%d.slowby", p->id, n) * MS; return d; }
void leave(Peer* p, int how) { if (p->gone) return; p->gone = true; p->t_gone = now(); logf("peer %d leaves (%d)", p->id, how); probe(how == 2 ? "peer-reset" : how == 1 ? "peer-closed" : "peer-silent"); if (how == 0) p->silent = true; else if (how == 1) net_close(p->c); else { p->hardgone = true; net_reset(p->c); } }
void send_cmd(Peer* p, int cmd) { p->sent.push_back(cmd); p->sent_at.push_back(now()); logf("slave %d sends %d (number %zu)", p->id, cmd, p->sent.size()); net_send(p->c, bytes4(cmd)); p->last_send = now(); }
// ---- a scripted slave: what Trick's slave does at the end of each of its frames
void slave_turn(Peer* p) {
    int n = p->sends++; at(now() + delay(p, n), [p, n] {
        if (p->gone || !p->c) return; bool leaving = p->lossat == n;
        if (leaving && p->losskind == 4) { net_send(p->c, bytes4(pickf(2, "p%d.part", p->id) ? MS_FreezeCmd : MS_ExitCmd).substr(0, 1 + pickf(3, "p%d.partn", p->id))); probe("part-of-a-report"); leave(p, p->limit > 0 && !p->frozen && pickf(2, "p%d.partend", p->id) ? 0 : 1); return; }
        if (leaving && p->losskind == 3) { send_cmd(p, MS_ExitCmd); leave(p, 1); p->exited = true; return; }
        if (leaving) { if (p->losskind == 0 && p->frozen) { leave(p, 1); return; } leave(p, p->losskind); return; }
        send_cmd(p, p->frzat.count(n) ? (int)MS_FreezeCmd : (int)MS_NoCmd);
    });
}
void slave_input(Peer* p, const std::string& d) {
    p->in += d;
    while (1) {
        if (!p->init) { if (p->in.size() < 36) return; memcpy(p->ifr, &p->in[0], 24); int fc; memcpy(&fc, &p->in[24], 4); p->ifr[3] = fc; memcpy(&p->ifr[4], &p->in[28], 8); p->in.erase(0, 36); p->init = true; p->frozen = fc; slave_turn(p); continue; }
        if (p->in.size() < 12) return; Rec r; memcpy(&r.t, &p->in[0], 8); memcpy(&r.cmd, &p->in[8], 4); size_t len = 12; if (r.cmd == MS_ChkpntDumpAsciiCmd || r.cmd == MS_ChkpntLoadAsciiCmd) { len += 256; if (p->in.size() < len) return; r.name = p->in.substr(12, 256).c_str(); } p->in.erase(0, len); r.at = now(); p->recs.push_back(r); note_step();
        logf("slave %d is told time %lld command %d", p->id, r.t, r.cmd); if (!p->gone && r.cmd != MS_ExitCmd && p->recs.size() > p->sent.size()) bad("a slave was told to go on before it was done with its frame", "slave %d: %zu records after %zu reports", p->id, p->recs.size(), p->sent.size());
        if (p->gone) continue; if (r.cmd == MS_FreezeCmd && !p->frozen) p->frozen = true; if (r.cmd == MS_RunCmd) p->frozen = false; if (r.cmd == MS_ExitCmd) { p->exittold++; send_cmd(p, MS_ExitCmd); continue; } slave_turn(p);
    }
}
// ---- a scripted master
std::vector<std::pair<int, std::string>> script; int mscr; bool master_frozen; ll mtime_, m_if; double m_limit; int m_losskind, m_lossat; bool m_lost;
void master_reply(Peer* p) {
    int n = p->replies++; at(now() + delay(p, n), [p, n] {
        if (p->gone) return; if (m_lossat == n) { m_lost = true; if (m_losskind >= 3) { net_send(p->c, m_losskind == 3 ? bytes8(mtime_).substr(0, 3) : bytes8(mtime_) + bytes4(MS_ExitCmd).substr(0, 1 + pick("m.partn", 3))); probe("part-of-a-reply"); leave(p, 1); } else if (m_losskind == 0 && master_frozen) leave(p, 1); else leave(p, m_losskind); return; }
        int cmd = MS_NoCmd; std::string nm; if (mscr < (int)script.size()) { cmd = script[mscr].first; nm = script[mscr].second; mscr++; } else cmd = MS_ExitCmd;
        if (p->got[n] == MS_FreezeCmd && cmd == MS_NoCmd && !master_frozen && pickf(4, "m%d.follow", n)) { cmd = MS_FreezeCmd; probe("slave-froze-master"); int k = 1 + pickf(4, "m%d.fp", n); std::vector<std::pair<int, std::string>> ins; for (int i = 0; i < k; i++) ins.push_back({MS_NoCmd, ""}); ins.push_back({MS_RunCmd, ""}); script.insert(script.begin() + std::min<size_t>(mscr, script.size()), ins.begin(), ins.end()); }
        if (cmd == MS_FreezeCmd) master_frozen = true; if (cmd == MS_RunCmd) master_frozen = false; if (!master_frozen && cmd != MS_FreezeCmd) mtime_ += sf;
        logf("master replies %d (number %d)", cmd, n); p->reply.push_back(cmd); p->reply_at.push_back(now()); p->rname.push_back(nm);
        std::string d = bytes8(mtime_) + bytes4(cmd); if (cmd == MS_ChkpntDumpAsciiCmd) { std::string f(256, 0); memcpy(&f[0], nm.data(), nm.size()); d += f; } net_send(p->c, d); });
}
bool late(size_t n) { for (auto& e : H) if (e.k == H_WRITE && n-- == 0) return now() - e.at >= (u64)(m_limit * 1e9) - 1000; return false; }   // the slave waited its limit for the reply to its n-th report
void master_input(Peer* p, const std::string& d) {
    p->in += d; while (p->in.size() >= 4) { int c; memcpy(&c, &p->in[0], 4); p->in.erase(0, 4); p->got.push_back(c); p->got_at.push_back(now()); note_step(); logf("master hears %d (number %zu)", c, p->got.size() - 1); if (c == MS_ExitCmd) { p->exited = true; continue; }
        if ((int)p->got.size() > (int)p->reply.size() + 1 && !p->gone && !(m_limit > 0 && p->got.size() >= 2 && late(p->reply.size()))) { bad("a slave went on before its master told it to", "%zu reports after %zu replies", p->got.size(), p->reply.size()); return; } if (!p->gone) master_reply(p); } }
int runreq_left; bool wantrun() { return runreq_left-- <= 0; }
std::vector<ll> fztimes; bool stopreq; int fpass, own_freeze;
std::string setup() {
    feat = opti("feat", 0); slave_mode = feat & F_SLAVE; std::string py; H.reserve(20000); runreq_left = fpass = 0; mtime_ = 0; mscr = 0; chkn = 0;
    ll base = 10000; static const int FR[] = {10, 5, 20, 1}; sf = base * FR[pick("frame", 4)]; ll nf = 8 + pick("nframes", 40); Tend = sf * nf; exec_set_software_frame(sf / 1e6);
    Obj* x = new Obj; int np = slave_mode ? 1 : 1 + pick("peers", 3);
    if (feat & F_MACH) machine_faults(1); if (feat & F_NETF) { netcfg.seg_max = 1 + pick("seg", 9); netcfg.lat_hi = 200000 + 100000 * pick("lat", 20); }
    x->add(0, "top_of_frame", 1, "tof", 1, 0, 1e37, [](Trick::JobData*) { hist(H_TOF); return 0; }); x->add(0, "end_of_frame", 1, "eof", 60001, 0, 1e37, [](Trick::JobData*) { hist(H_EOF); return 0; });
    x->add(0, "freeze_init", 1, "fi", 1, 0, 1e37, [](Trick::JobData*) { hist(H_FINIT); probe("freeze"); fpass = 0; runreq_left = pickf(5, "fl%zu", H.size()); return 0; }); x->add(0, "unfreeze", 1, "uf", 1, 0, 1e37, [](Trick::JobData*) { hist(H_UNF); return 0; });
    x->add(0, "shutdown", 1, "sd", 1, 0, 1e37, [](Trick::JobData*) { hist(H_SHUT); return 0; }); x->add(0, "shutdown", 1, "sd2", 65535, 0, 1e37, [](Trick::JobData*) { ended = true; burn(30 * MS); return 0; }   /* what is on its way arrives before the process ends */);
    x->add(0, "scheduled", sf / 2e6, "wk", 1, 0, 1e37, [](Trick::JobData*) { static int n; burn((u64)pickf(10, "wk%d", n++) * 100 * US); return 0; });
    fframe = 10000; exec_set_freeze_frame(0.01);
    for (int i = 0; i < np; i++) { Peer* p = new Peer; p->id = i; P.push_back(p); net_listen(7100 + i, [p](Conn* c) { p->c = c; ConnCb cb; cb.on_data = [p](Conn*, const std::string& d) { if (slave_mode) master_input(p, d); else slave_input(p, d); }; cb.on_close = [p](Conn*, int) { p->fin_seen = true; if (slave_mode) { if (!p->gone) p->gone = true; } };
        if (slave_mode) { std::string d = bytes8(sf) + bytes8(tps()) + bytes8(llround(m_limit * tps())) + bytes4(m_if) + bytes8(0); at(now() + (u64)pick("m.init", 50) * MS, [p, d] { net_send(p->c, d); }); } return cb; }); }
    x->add(0, "freeze", 1, "fz", 1, 0, 1e37, [](Trick::JobData*) { fpass++; hist(H_FRZ, -1, fpass);
        if (!slave_mode) { if ((feat & F_CHK) && pickf(4, "ck%zu", H.size()) == 3) { hist(H_CHK); std::string nm = fmt("chk_ms_%d", chkn++); probe("checkpoint"); checkpoint(nm.c_str()); } if (pickf(24, "fstop%zu", H.size()) == 23) { hist(H_STOPREQ); exec_get_exec_cpp()->stop(); probe("stop-in-freeze"); } else if (wantrun()) { hist(H_RUNREQ); exec_run(); } }
        else { if (!sl->activated) { if (fpass > 3) { if (pick("lostend", 2)) { hist(H_STOPREQ); exec_get_exec_cpp()->stop(); } else { hist(H_RUNREQ); exec_run(); } } } else if ((feat & F_LIM) && pickf(40, "sfstop%zu", H.size()) == 39) { hist(H_STOPREQ); exec_get_exec_cpp()->stop(); probe("slave-stopped-in-freeze"); } } return 0; });
    if (feat & F_FRZ) x->add(0, "scheduled", sf / 1e6, "frz", 1, 0, 1e37, [](Trick::JobData*) { static int n; if (pickf(8, "fr%d", n++) == 7) { hist(H_FREEZEREQ); exec_freeze(); } return 0; });
    if (!slave_mode) {
        the_ms_master->enable();
        for (auto* p : P) { Trick::SlaveInfo* s = new Trick::SlaveInfo; s->sim_path = "/nowhere"; s->set_connection_type(new Sock(p)); p->term = s->sync_error_terminate = pickf(2, "p%d.term", p->id); p->limit = s->sync_wait_limit = feat & F_LIM ? 0.004 * (1 + pickf(6, "p%d.limit", p->id)) : 0; p->dump = s->chkpnt_dump_auto = pickf(4, "p%d.dump", p->id) < 3; the_ms_master->add_slave(s);
            if ((feat & F_LOSS) && pickf(2, "p%d.loses", p->id)) { p->lossat = pickf(nf + 5, "p%d.lossat", p->id); p->losskind = pickf(5, "p%d.losskind", p->id); if (p->losskind == 0 && p->limit == 0) p->losskind = 1; }
            if (feat & F_FRZ) for (int i = 0, n = pickf(3, "p%d.nfrz", p->id); i < n; i++) p->frzat.insert(pickf(nf, "p%d.frz%d", p->id, i)); }
        if ((feat & F_IFRZ) && pick("ifrz", 2)) { exec_set_freeze_command(1); probe("freeze-from-the-start"); }
        py += fmt("trick.stop(%.9g)\n", Tend / 1e6);
        if (feat & F_FRZ) for (int i = 0, n = pick("nfz", 3); i < n; i++) py += fmt("trick.freeze(%.9g)\n", base * (1 + pickf(Tend / base, "fzt%d", i)) / 1e6);
    } else {
        REF2* r = ref_attributes((char*)"trick_master_slave.slave"); if (!r) { invalid("no slave"); return py; } sl = (Trick::Slave*)r->address; sl->set_connection_type(new Sock(P[0])); sl->sync_error_terminate = pick("s.term", 2); m_limit = feat & F_LIM ? 0.004 * (1 + pick("m.limit", 6)) : 0; m_if = (feat & F_IFRZ) ? pick("ifrz", 2) : 0; master_frozen = m_if; m_lossat = -1;
        if (m_if) { for (int i = 0, k = pick("ifp", 4); i < k; i++) script.push_back({MS_NoCmd, ""}); script.push_back({MS_RunCmd, ""}); probe("freeze-from-the-start"); }
        for (int i = 0; i < nf; i++) { if ((feat & F_FRZ) && pickf(8, "scr%d", i) == 7) { script.push_back({MS_FreezeCmd, ""}); for (int k = 0, m = pickf(5, "scr%d.n", i); k < m; k++) { if ((feat & F_CHK) && pickf(3, "scr%d.%d.ck", i, k) == 2) script.push_back({MS_ChkpntDumpAsciiCmd, fmt("/some/where/RUN/chk_ms_%d", chkn++)}); else script.push_back({pickf(6, "scr%d.%d.f", i, k) == 5 ? MS_FreezeCmd : MS_NoCmd, ""}); } if (i + 1 == nf && pick("exitfrz", 2)) break; script.push_back({MS_RunCmd, ""}); } else script.push_back({MS_NoCmd, ""}); }
        if ((feat & F_LOSS) && pick("m.loses", 3)) { m_lossat = pick("m.lossat", nf + 5); m_losskind = pick("m.losskind", 5); if (m_losskind == 0 && m_limit == 0) m_losskind = 1; }
        py += fmt("trick.stop(%.9g)\n", Tend * 3 / 1e6); exec_set_software_frame(base * FR[pick("ownframe", 4)] / 1e6);
        if (feat & F_FRZ) for (int i = 0, n = pick("nfz", 3); i < n; i++) { ll t = base / 2 * (1 + pickf(2 * Tend / base, "fzt%d", i)); fztimes.push_back(t); py += fmt("trick.freeze(%.9g)\n", t / 1e6); }
    }
    if (feat & F_THR) { int n = 1 + pick("thr", 2); for (int t = 1; t <= n; t++) x->add(t, "scheduled", sf / 1e6, fmt("c%d", t).c_str(), 1, 0, 1e37, [t](Trick::JobData*) { burn((u64)pickf(20, "c%d.w", t) * 50 * US); return 0; }); }
    exec_add_sim_object(x, "msx"); return py;
}
std::string pn(int i) { return fmt("slave %d", i); }
void finish_master(int why, int code) {
    int np = P.size(); std::vector<bool> alive(np, true); std::vector<size_t> nread(np, 0), nwrite(np, 0); int terminate = -1; size_t rounds = 0; bool frz = exec_get_freeze_command(), run_asked = false, stop_asked = false, frz_asked = false, shut = false; std::vector<int> rcmd(np, -1); ll t0 = -1; int lastcmd = -1; bool in_freeze = frz, expect_freeze = frz; bool chk = false; std::vector<bool> exitsent(np, false); bool sched_frz = false; (void)sched_frz;
    for (auto* p : P) if (p->init) { note_step(); if (p->ifr[0] != sf || p->ifr[1] != tps() || p->ifr[2] != llround(p->limit * tps()) || p->ifr[3] != frz || p->ifr[4] != 0) { bad("a slave was given the wrong settings", "%s: frame %lld tics %lld limit %lld freeze %lld flags %lld", pn(p->id).c_str(), p->ifr[0], p->ifr[1], p->ifr[2], p->ifr[3], p->ifr[4]); return; } }
    bool waitinf = frz; (void)waitinf; int last_mode = -1; ll wround = -1; (void)wround; int seg_cmd = -1; (void)seg_cmd;
    auto any = [&] { for (bool a : alive) if (a) return true; return false; };
    for (size_t i = 0; i < H.size(); i++) { Ev& e = H[i]; note_step();
        switch (e.k) {
        case H_TOF: if (terminate >= 0) { bad("the master went on though it lost a slave it cannot do without", "a frame at %lld after slave %d was lost", e.t, terminate); return; } if (in_freeze && last_mode != H_UNF) { bad("a frame ran while the simulation was frozen", "at %lld", e.t); return; } if (expect_freeze && last_mode == H_EOF) { bad("the slaves were told to freeze and the master went on", "at %lld", e.t); return; } last_mode = H_TOF;
            for (int s = 0; s < np; s++) if (alive[s] && nread[s] != rounds) { bad("a frame began before a slave was done with the one before", "%s at %lld: %zu of %zu", pn(s).c_str(), e.t, nread[s], rounds); return; } break;
        case H_EOF: last_mode = H_EOF; rounds++; break; case H_FINIT: in_freeze = true; if (last_mode == H_EOF && !expect_freeze && any()) { bad("the master froze and its slaves were not told to", "at %lld", e.t); return; } if (last_mode == H_TOF) { bad("the master froze in the middle of a frame", "at %lld", e.t); return; } expect_freeze = false; break;
        case H_FRZ: last_mode = H_FRZ; rounds++; if (terminate >= 0) { bad("the master went on though it lost a slave it cannot do without", "a freeze pass at %lld after slave %d was lost", e.t, terminate); return; } break; case H_CHK: rounds++; chk = true; break; case H_UNF: in_freeze = false; last_mode = H_UNF; if (lastcmd != MS_RunCmd && any()) { bad("the master left its freeze and its slaves were not told to", "at %lld, the last command was %d", e.t, lastcmd); return; } break;
        case H_SHUT: shut = true; rounds++; break;
        case H_READ: { Peer* p = P[e.who]; u64 took = e.at - e.at0;
            if (!alive[e.who] && !shut && !stop_asked) { bad("a slave that was given up was asked again", "%s at %lld", pn(e.who).c_str(), e.t); return; }
            if (e.v == MS_ErrorCmd) { bool lim = p->limit > 0 && !in_freeze; bool ok = p->gone && !p->silent; if (!ok && lim && took >= (u64)(p->limit * 1e9) - 1000) ok = true; if (!ok) { bad("a slave was given up though it answered in time", "%s at %lld after %.6f s, limit %.6f", pn(e.who).c_str(), e.t, took * 1e-9, p->limit); return; } probe("slave-lost"); if (lim && took > (u64)(p->limit * 1e9) + SEC && !fault_count("oversleep")) { bad("a slave that does not answer was waited for beyond the limit", "%s at %lld: %.6f s, limit %.6f", pn(e.who).c_str(), e.t, took * 1e-9, p->limit); return; } }
            else { if (nread[e.who] >= p->sent.size() || p->sent[nread[e.who]] != e.v) { bad("the master heard what a slave did not say", "%s report %zu: %lld", pn(e.who).c_str(), nread[e.who], e.v); return; } nread[e.who]++; }
            if (e.v == MS_FreezeCmd && !shut) { frz_asked = true; probe("slave-freezes"); }
            if ((e.v == MS_ErrorCmd || e.v == MS_ExitCmd) && !shut && !stop_asked) { alive[e.who] = false; if (p->term && terminate < 0) { terminate = e.who; probe("terminate"); } else probe("carry-on"); }
            if (e.v == MS_ErrorCmd && (shut || stop_asked)) { alive[e.who] = false; } break; }
        case H_WRITE: { Peer* p = P[e.who]; bool lostshut = (shut || stop_asked) && !alive[e.who]; if (!alive[e.who] && !lostshut) { bad("a slave that was given up was told to go on", "%s at %lld", pn(e.who).c_str(), e.t); return; }
            if (!lostshut) { nwrite[e.who]++; if (e.v == MS_ExitCmd) exitsent[e.who] = true; if (terminate < 0 && nwrite[e.who] != rounds - chk) { bad("a slave was not told once in each frame", "%s at %lld: %zu of %zu", pn(e.who).c_str(), e.t, nwrite[e.who], rounds); return; } }
            if (terminate >= 0) { if (e.v != MS_ExitCmd) { bad("a slave was not told that the master ended", "%s, after another was lost: %lld", pn(e.who).c_str(), e.v); return; } break; }
            if (!shut && !(chk && e.v == MS_ChkpntDumpAsciiCmd)) { ll want = in_freeze ? (stop_asked ? MS_ExitCmd : frz_asked ? MS_FreezeCmd : run_asked ? MS_RunCmd : MS_NoCmd) : -1; if (!in_freeze && frz_asked) want = MS_FreezeCmd; if (want >= 0 && e.v != want && !chk) { bad("a slave was given a wrong command", "%s at %lld: %lld, expected %lld", pn(e.who).c_str(), e.t, e.v, want); return; } }
            if (chk && p->dump != (e.v == MS_ChkpntDumpAsciiCmd)) { bad("a slave was given a wrong command", "%s at %lld: %lld for a checkpoint", pn(e.who).c_str(), e.t, e.v); return; }
            if (!chk) lastcmd = e.v; if (e.v == MS_FreezeCmd && !in_freeze) expect_freeze = true;
            break; }
        case H_RUNREQ: run_asked = true; frz_asked = false; break; case H_STOPREQ: stop_asked = true; break; case H_FREEZEREQ: frz_asked = true; break;
        }
        // a round is over when something else follows than a report or a command, or a new round's reports
        if ((e.k == H_WRITE || e.k == H_READ) && (i + 1 == H.size() || (H[i + 1].k != H_READ && H[i + 1].k != H_WRITE) || (e.k == H_WRITE && H[i + 1].k == H_READ))) {
            for (int s = 0; s < np && !shut && terminate < 0 && i + 1 < H.size(); s++) if (alive[s] && nwrite[s] != rounds - chk) { bad("a slave was not told once in each frame", "%s at %lld: %zu of %zu", pn(s).c_str(), e.t, nwrite[s], rounds); return; }
            if (chk) chk = false; else if (!shut) { frz_asked = false; run_asked = false; } }
    }
    if (why == W_DEADLOCK || why == W_LIMIT) { bool excuse = false; for (auto* p : P) if (p->silent && (p->limit == 0 || in_freeze)) excuse = true; if (!excuse) bad("the master hangs", "%s", task_dump().substr(0, 300).c_str()); return; }
    if (why != W_EXIT) return; note_step();
    if (terminate >= 0 ? !code : code) { bad(terminate >= 0 ? "the master does not report that it lost a slave" : "the master ended early", "code %d", code); return; }
    if (terminate < 0 && !stop_asked) { ll last = 0; for (auto& e : H) if (e.k == H_SHUT) last = e.t; if (last != Tend) { bad("the master ended early", "at %lld of %lld", last, Tend); return; } }
    if (terminate < 0 || 1) for (int s = 0; s < np; s++) { Peer* p = P[s]; if (p->gone || !alive[s]) continue; if (!exitsent[s]) { bad("a slave was not told that the master ended", "%s, %s", pn(s).c_str(), terminate >= 0 ? "after another was lost" : "at the regular end"); return; } }
    // on the wire: what each slave got is what the others got in the same round, and the time of the master
    size_t k = 0; for (auto* p : P) { for (size_t i = 0; i < p->recs.size(); i++) { Rec& r = p->recs[i]; for (auto* q : P) if (i < q->recs.size()) { Rec& o = q->recs[i]; if (o.t != r.t || (o.cmd != r.cmd && p->dump == q->dump)) { bad("two slaves were told different things in the same frame", "round %zu: slave %d %lld %d, slave %d %lld %d", i, p->id, r.t, r.cmd, q->id, o.t, o.cmd); return; } } if (r.cmd == MS_ChkpntDumpAsciiCmd && r.name.find("chk_ms_") == std::string::npos) { bad("a slave was given a wrong checkpoint name", "'%s'", r.name.c_str()); return; } k++; }
        size_t w = 0; for (auto& e : H) if (e.k == H_WRITE && e.who == p->id) { if (w < p->recs.size() && (p->recs[w].t != e.t || p->recs[w].cmd != e.v)) { bad("a slave received something else than the master's time and command", "%s round %zu: %lld %d, expected %lld %lld", pn(p->id).c_str(), w, p->recs[w].t, p->recs[w].cmd, e.t, e.v); return; } w++; } }
    for (auto* p : P) { ll prev = 0; for (auto& r : p->recs) { if (r.t != prev && r.t != prev + sf) { bad("the master's time jumped", "%s: %lld after %lld", pn(p->id).c_str(), r.t, prev); return; } prev = r.t; } }
    (void)t0; probe("rounds", rounds); if (k) probe("records", k);
}
void finish_slave(int why, int code) {
    Peer* p = P[0]; bool in_freeze = m_if, expect_freeze = m_if; size_t rounds = 0, nrep = 0, nw = 0; int ntof = 0; int last_mode = -1; bool lost = false, shut = false, exit_told = false, run_told = false, frz_asked = false, stop_asked = false, run_asked = false; ll chk = 0; bool pend_read = false; (void)chk; (void)pend_read;
    for (size_t i = 0; i < H.size(); i++) { Ev& e = H[i]; note_step();
        switch (e.k) {
        case H_TOF: if (lost && sl->sync_error_terminate) { bad("the slave went on though it lost its master", "at %lld", e.t); return; } if (lost && !run_asked) { bad("the slave went on though it lost its master", "at %lld", e.t); return; } if (in_freeze && last_mode != H_UNF) { bad("a frame ran while the slave was frozen", "at %lld", e.t); return; } if (expect_freeze && last_mode == H_EOF) { bad("the slave was told to freeze and went on", "at %lld", e.t); return; } if (exit_told && last_mode != H_EOF) { bad("the slave was told to exit and went on", "at %lld", e.t); return; } last_mode = H_TOF;
            if (!lost && nrep < rounds) { bad("a frame began before the master allowed it", "at %lld: %zu replies in %zu rounds", e.t, nrep, rounds); return; } if (!lost && e.t != (ll)ntof * sf) { bad("the slave does not run the frame of its master", "a frame at %lld, number %d", e.t, ntof); return; } ntof++; break;
        case H_EOF: last_mode = H_EOF; rounds++; for (ll t : fztimes) if (t > e.t - sf && t <= e.t) frz_asked = true; if (lost && sl->sync_error_terminate) { bad("the slave went on though it lost its master", "at %lld", e.t); return; } if (exit_told) { bad("the slave was told to exit and went on", "at %lld", e.t); return; } break;
        case H_FINIT: in_freeze = true; if (last_mode == H_EOF && !expect_freeze && !lost) { bad("the slave froze on its own", "at %lld", e.t); return; } if (last_mode == H_TOF && !lost) { bad("the slave froze in the middle of a frame", "at %lld", e.t); return; } expect_freeze = false; break;
        case H_FRZ: last_mode = H_FRZ; rounds++; if (exit_told) { bad("the slave was told to exit and went on", "in freeze at %lld", e.t); return; } if (lost && sl->sync_error_terminate) { bad("the slave went on though it lost its master", "in freeze at %lld", e.t); return; } if (stop_asked && lost && e.v > 10) { bad("a slave that lost its master cannot be stopped", "freeze pass %lld", e.v); return; } if (run_asked && lost && e.v > 10) { bad("a slave that lost its master cannot be resumed", "freeze pass %lld", e.v); return; } break;
        case H_UNF: in_freeze = false; last_mode = H_UNF; if (!run_told && !(lost && run_asked)) { bad("the slave left its freeze on its own", "at %lld", e.t); return; } run_told = false; break;
        case H_FREEZEREQ: frz_asked = true; break; case H_RUNREQ: run_asked = true; break; case H_STOPREQ: stop_asked = true; break; case H_SHUT: shut = true; break;
        case H_READ: {  if (e.v == MS_ErrorCmd) { lost = true; bool lim = m_limit > 0 && !in_freeze; if (!p->gone && !(lim)) { bad("the slave gave up its master though it answered", "at %lld", e.t); return; } }
            else { if (nrep >= p->reply.size() || p->reply[nrep] != e.v) { bad("the slave heard what its master did not say", "reply %zu: %lld", nrep, e.v); return; } if (e.v == MS_FreezeCmd && !in_freeze) expect_freeze = true; if (e.v == MS_RunCmd && in_freeze) run_told = true; if (e.v == MS_ExitCmd) exit_told = true; if (e.v == MS_ChkpntDumpAsciiCmd) { probe("checkpoint"); std::string f = outdir() + "/" + p->rname[nrep].substr(p->rname[nrep].rfind('/') + 1); if (why == W_EXIT && !file_exists(f)) { bad("a checkpoint that the master asked for was not made", "%s", f.c_str()); return; } } nrep++; } break; }
        case H_WRITE: { nw++; if (shut) { if (e.v != MS_ExitCmd) { bad("the slave did not say that it ended", "%lld", e.v); return; } break; } if (lost) break; ll want = !in_freeze && frz_asked ? MS_FreezeCmd : MS_NoCmd; if (in_freeze && stop_asked) { if (e.v != MS_ExitCmd && e.v != MS_NoCmd) { bad("the slave reported a wrong mode", "%lld", e.v); return; } break; } if (e.v != want && last_mode == H_EOF) { if (e.v == MS_FreezeCmd || want == MS_FreezeCmd) { bad("the slave reported a wrong mode", "%lld, expected %lld at %lld", e.v, want, e.t); return; } } if (want == MS_FreezeCmd) probe("slave-freezes"); frz_asked = false; break; }
        }
        // the reply's time never came: the master is lost
        if (e.k == H_WRITE && !shut && !lost) { bool gotread = false; for (size_t k = i + 1; k < H.size(); k++) { if (H[k].k == H_READ) { gotread = true; break; } if (H[k].k != H_READ) break; } if (!gotread && (i + 1 < H.size() || why == W_EXIT)) { lost = true; bool lim = m_limit > 0 && !in_freeze; if (!p->gone && !lim) { bad("the slave gave up its master though it answered", "at %lld", e.t); return; } ll took = i + 1 < H.size() ? (ll)(H[i + 1].at - e.at) : 0; if (!p->gone && lim && took < (ll)(m_limit * 1e9) - 1000) { bad("the slave gave up its master though it answered in time", "at %lld after %.6f s, limit %.6f", e.t, took * 1e-9, m_limit); return; } probe("master-lost"); } }
    }
    if (stop_asked && !lost && !shut) { int after = 0; bool s = false; for (auto& e : H) { if (e.k == H_STOPREQ) s = true; else if (s && e.k == H_FRZ) after++; } if (after > 3) { bad("a slave cannot be stopped while it is frozen", "%d more freeze passes", after); return; } }
    if (why == W_DEADLOCK || why == W_LIMIT) { if (p->silent && (m_limit == 0 || in_freeze)) return; bad("the slave hangs", "%s", task_dump().substr(0, 300).c_str()); return; }
    if (why != W_EXIT) return; note_step();
    if (stop_asked && !lost) { int after = 0; bool s = false; for (auto& e : H) { if (e.k == H_STOPREQ) s = true; else if (s && (e.k == H_FRZ || e.k == H_TOF)) after++; } if (after > 1) { bad("a slave that was stopped in freeze went on", "%d passes or frames", after); return; } }
    if (lost && sl->sync_error_terminate && !code) { bad("the slave does not report that it lost its master", "code %d", code); return; } if (!lost && code) { bad("the slave ended early", "code %d", code); return; }
    if (!p->gone && !p->exited) { bad("the master was not told that the slave ended", "%zu reports", p->got.size()); return; }
    probe("rounds", rounds);
}
void finish(int why, int code) { probe(why_name(why)); if (slave_mode) finish_slave(why, code); else finish_master(why, code); }
Reg r({"ms", setup, finish, 200 * SEC, 20000000, "S01"});
}
