// Checkpoint and restart: state of every kind evolves, is saved at chosen moments and reloaded into a different state.
// C01 a reload restores state and schedule. C03 checkpoints are taken when and as asked, whole, also when the disk or the process fails.
#include "common.hh"
#include "trick/CheckPointRestart.hh"
#include "trick/CheckPointRestart_c_intf.hh"
#include "trick/MemoryManager.hh"
#include "trick/memorymanager_c_intf.h"
#include "trick/MessageSubscriber.hh"
#include "trick/MessagePublisher.hh"
#include "trick/message_type.h"
#include <sstream>
#define private public
#include "trick/FrameLog.hh"
#undef private
#include "trick/FrameDataRecordGroup.hh"
using namespace w;
extern Trick::FrameLog* the_fl; extern Trick::CheckPointRestart* the_cpr; extern Trick::MemoryManager* trick_MM; extern Trick::MessagePublisher* the_message_publisher;
namespace {
enum { F_DYN = 1, F_THR = 2, F_FRZ = 4, F_EV = 8, F_LOAD = 16, F_FAULT = 32, F_CRASH = 64, F_AMF = 128, F_STR = 256, F_CTL = 512 };
bool reduced; int feat; ll Tend, sf, base; const char* P = "C01";
class CObj : public DstObj {
  public:
    std::map<Trick::JobData*, std::function<int(Trick::JobData*)>> fn; int n = 1; int idx = 0; bool child = false; std::map<int, double> ph;
    Trick::JobData* add(int thread, const char* cls, double cycle, const char* nm, int phase, double start, double stop, std::function<int(Trick::JobData*)> f) { Trick::JobData* j = add_job(thread, n++, cls, NULL, cycle, nm, "", phase, start, stop); fn[j] = f; return j; }
    virtual int call_function(Trick::JobData* j) { auto i = fn.find(j); return i == fn.end() ? 0 : i->second(j); }
};
std::vector<CObj*> O;
u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
u64 hs(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
// ---- canonical text of a state
std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) if (c < 32 || c > 126 || c == '%') o += fmt("%%%02x", c); else o += c; return o; }
std::string where(void* p) {   // a pointer, by what it points into
    if (!p) return "0"; for (auto* o : O) { if (p >= (void*)o->v.w && p < (void*)(o->v.w + 64)) return fmt("o%d.w[%d]", o->idx, (int)((int*)p - o->v.w)); if (o->v.dyn) { int n = get_size((char*)o->v.dyn); if (p >= (void*)o->v.dyn && p < (void*)(o->v.dyn + n)) return fmt("o%d.dyn[%d]", o->idx, (int)((int*)p - o->v.dyn)); } }
    for (auto* o : O) { if (p == &o->v.node) return fmt("o%d.node", o->idx); for (int k = 0; k < 2; k++) if (p == &o->v.nodes[k]) return fmt("o%d.nodes[%d]", o->idx, k); }
    return "?";
}
std::string snode(DstNode* n) { std::string s = fmt("{%d %a %a %a '%s'", n->a, n->b[0], n->b[1], n->b[2], esc(n->s).c_str()); return s + "}"; }
std::string ser(CObj* o) {
    DstVars& v = o->v; std::string s = fmt("i=%d;x=%a;f=%a;sh=%d;ush=%u;l=%ld;u=%u;ll=%lld;ull=%llu;c=%d;uc=%u;b=%d;e=%d;bf=%u,%u,%d;", v.i, v.x, v.f, v.sh, v.ush, v.l, v.u, v.ll, v.ull, v.c, v.uc, v.b, v.e, v.bf1, v.bf2, v.bf3);
    s += "arr="; for (double d : v.arr) s += fmt("%a,", d); s += ";mat="; for (int k = 0; k < 6; k++) s += fmt("%d,", v.mat[k / 3][k % 3]); s += ";str='" + esc(std::string(v.str, strnlen(v.str, 32))) + "';cp=" + (v.cp ? "'" + esc(v.cp) + "'" : "0") + ";s='" + esc(v.s) + "';sa='" + esc(v.sa[0]) + "','" + esc(v.sa[1]) + "';dyn=";
    if (v.dyn) { int n = get_size((char*)v.dyn); s += fmt("[%d]", n); for (int k = 0; k < n && k < 100; k++) s += fmt("%d,", v.dyn[k]); } else s += "0";
    s += ";dpp="; if (v.dpp) { int n = get_size((char*)v.dpp); s += fmt("[%d]", n); for (int k = 0; k < n && k < 20; k++) s += v.dpp[k] ? fmt("(%d:%a)", get_size((char*)v.dpp[k]), *v.dpp[k]) : "0"; } else s += "0";
    s += ";node=" + snode(&v.node) + ";nodes=" + snode(&v.nodes[0]) + snode(&v.nodes[1]) + ";list="; int k = 0; for (DstNode* n = v.pnode; n && k < 30; n = n->next, k++) s += snode(n);
    s += ";vec="; for (double d : v.vec) s += fmt("%a,", d); s += ";cnt="; for (ll c : v.cnt) s += fmt("%lld,", c); s += fmt(";kg=%a;ang=%a;w=", v.kg, v.ang); u64 h = 0; for (int x : v.w) h = mix(h ^ (u64)x); s += fmt("%llx;", (unsigned long long)h);
    s += "pa="; for (int* p : v.pa) s += where(p) + ","; s += ";pn="; for (DstNode* p : v.pn) s += where(p) + ","; s += ";mp="; for (auto& q : v.mp) s += fmt("%d:%a,", q.first, q.second); s += ";vs="; for (auto& q : v.vs) s += "'" + esc(q) + "',"; s += ";li="; for (int q : v.li) s += fmt("%d,", q);
    s += fmt(";farr=%a,%a,%a;ul=%lu;ba=%d%d%d;", v.farr[0], v.farr[1], v.farr[2], v.ul, v.ba[0], v.ba[1], v.ba[2]);
    return s;
}
std::string ser_all() { std::string s; for (auto* o : O) if (!o->child) s += fmt("o%d{", o->idx) + ser(o) + "}\n"; return s; }
std::string allocs() { std::vector<std::string> v; for (auto i = trick_MM->alloc_info_map_begin(); i != trick_MM->alloc_info_map_end(); ++i) { ALLOC_INFO* a = i->second; if (a->stcl != TRICK_LOCAL) continue; std::string t = a->user_type_name ? a->user_type_name : ""; bool mine = t == "DstNode" || ((a->type == TRICK_INTEGER || a->type == TRICK_DOUBLE)); if (a->name && strncmp(a->name, "cpd_", 4)) mine = false; if (!mine) continue; v.push_back(fmt("%s/%d stars %d n %d size %d %s", t.c_str(), a->type, a->num_index, a->num, a->size, a->name ? a->name : "")); } std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) s += x + "\n"; return s; }
// ---- evolution: a function of the state alone
const char* STR[] = {"", "a", "hello world", "x_y-z", "1234567890123456789012345", "semi;colon", "com,ma", "{b}", "a longer text of several words that is not small", "tab\there", "line\nbreak", "quote\"inside", "single'quote", "back\\slash", "//comment", "100%", "back\\", "\\n"};
std::string str_of(u64 r) { return STR[r % ((feat & F_STR) ? 18 : 9)]; }
double dbl(u64 r) { switch (r % 9) { case 0: return 0; case 1: return (double)(r >> 40); case 2: return -(double)(r >> 11) / 3.0; case 3: return (double)(r >> 11) * 1e-30; case 4: return 0.1 * (double)(r % 1000); case 5: return (double)(r >> 20) * 1e200; case 6: return 1.0 / (1 + r % 977); case 7: return -0.5; default: return 5e-324 * (r >> 50); } }
void mutate(CObj* o) {
    DstVars& v = o->v; v.ll++; u64 s = mix(v.ll * 1000003 + o->idx); auto R = [&]() { s = mix(s); return s >> 3; };
    for (ll& c : v.cnt) c = v.ll;
    for (int q = 0, nq = 2 + R() % 6; q < nq; q++) switch (o->child ? R() % 17 : R() % ((feat & F_DYN) ? 46 : 33)) {
        case 0: v.i = (int)R(); break; case 1: v.x = dbl(R()); break; case 2: v.f = (float)(R() % 3 ? (double)(R() >> 20) / 7.0 : 0.3f * (R() % 50)); break; case 3: v.sh = (short)R(); break; case 4: v.ush = (unsigned short)R(); break; case 5: v.l = -(long)(R() >> 5); break; case 6: v.u = (unsigned)R(); break; case 7: v.ull = R() * 9; break;
        case 8: v.c = (feat & F_STR) ? (char)(R() % 3 ? 32 + R() % 95 : R()) : (char)('a' + R() % 26); break; case 9: v.uc = (unsigned char)R(); break; case 10: v.b = !v.b; break; case 11: { static const DstEnum E[] = {DE_ZERO, DE_ONE, DE_SEVEN, DE_NEG}; v.e = E[R() % 4]; } break; case 12: v.bf1 = R(); break; case 13: v.bf2 = R(); break; case 14: v.bf3 = (int)(R() % 32) - 16; break;
        case 15: v.arr[R() % 4] = dbl(R()); break; case 16: v.mat[R() % 2][R() % 3] = R() % 4 ? (int)R() : 0; break; case 17: { std::string t = str_of(R()); memset(v.str, 0, 32); strncpy(v.str, t.c_str(), 31); } break; case 18: v.s = str_of(R()); break; case 19: v.sa[R() % 2] = str_of(R()); break; case 20: v.node.a = R() % 100; v.node.s = str_of(R()); break; case 21: { DstNode& n = v.nodes[R() % 2]; n.b[R() % 3] = dbl(R()); n.s = str_of(R()); } break;
        case 22: if (R() % 3) v.vec.push_back(dbl(R())); else if (!v.vec.empty()) v.vec.pop_back(); break; case 23: v.kg = dbl(R()); break; case 24: v.ang = dbl(R()); break; case 25: v.w[R() % 64] = (int)R(); break; case 26: v.farr[R() % 3] = (float)dbl(R() % 8 + 9 * (R() >> 8)) ; if (!std::isfinite(v.farr[0])) v.farr[0] = 1; if (!std::isfinite(v.farr[1])) v.farr[1] = 2; if (!std::isfinite(v.farr[2])) v.farr[2] = 3; break; case 27: v.ul = R() * 3; break; case 28: v.ba[R() % 3] = R() % 2; break;
        case 29: if (R() % 3) v.mp[R() % 20] = dbl(R()); else v.mp.erase(R() % 20); break; case 30: if (R() % 3) v.vs.push_back(str_of(R())); else if (!v.vs.empty()) v.vs.pop_back(); break; case 31: if (R() % 3) v.li.push_back(R() % 1000); else if (!v.li.empty()) v.li.pop_front(); break; case 32: v.x = 0; v.i = 0; v.s = ""; break;
        case 33: case 34: { if (v.cp) { TMM_delete_var_a(v.cp); v.cp = 0; } if (R() % 3) { std::string t = str_of(R()); if (t.empty()) t = "e"; v.cp = TMM_strdup((char*)t.c_str()); } break; }
        case 35: case 36: case 37: { for (auto* p : O) for (int*& q : p->v.pa) if (where(q).find(fmt("o%d.dyn", o->idx)) == 0) q = 0; if (v.dyn) { TMM_delete_var_a(v.dyn); v.dyn = 0; } u64 k = R() % 4; if (k) { int n = 1 + R() % 8; std::string nm = k == 1 ? fmt("int cpd_%d_%lld[%d]", o->idx, v.ll, n) : fmt("int[%d]", n); v.dyn = (int*)TMM_declare_var_s(nm.c_str()); for (int i = 0; i < n; i++) v.dyn[i] = R() % 5 ? (int)R() : 0; } break; }
        case 38: case 39: { if (v.dpp) { int n = get_size((char*)v.dpp); for (int i = 0; i < n; i++) if (v.dpp[i]) TMM_delete_var_a(v.dpp[i]); TMM_delete_var_a(v.dpp); v.dpp = 0; } if (R() % 3) { int n = 1 + R() % 3; v.dpp = (double**)TMM_declare_var_s(fmt("double*[%d]", n).c_str()); for (int i = 0; i < n; i++) if (R() % 3) { int m = 1 + R() % 3; v.dpp[i] = (double*)TMM_declare_var_s(fmt("double[%d]", m).c_str()); *v.dpp[i] = dbl(R()); } } break; }
        case 40: case 41: case 42: { if (R() % 3) { DstNode* n = (DstNode*)TMM_declare_var_s("DstNode"); n->a = R() % 1000; n->b[1] = dbl(R()); n->s = str_of(R()); n->next = v.pnode; int len = 0; for (DstNode* q = v.pnode; q; q = q->next) len++; if (len < 6) v.pnode = n; else TMM_delete_var_a(n); } else if (v.pnode) { DstNode* n = v.pnode; v.pnode = n->next; TMM_delete_var_a(n); } break; }
        case 43: { CObj* p = O[R() % O.size()]; if (p->child) p = o; v.pa[R() % 3] = R() % 4 ? R() % 2 && p->v.dyn ? p->v.dyn + R() % get_size((char*)p->v.dyn) : p->v.w + R() % 64 : 0; break; }
        case 44: { u64 k = R() % 4; v.pn[R() % 2] = k == 0 ? 0 : k == 1 ? &v.node : &v.nodes[k - 2]; break; }
        case 45: if (v.dyn && R() % 2) { int n = get_size((char*)v.dyn); for (auto* p : O) for (int*& q : p->v.pa) if (where(q).find(fmt("o%d.dyn", o->idx)) == 0) q = 0; int m = 1 + R() % 8; v.dyn = (int*)TMM_resize_array_1d_a(v.dyn, m); for (int i = n; i < m; i++) v.dyn[i] = (int)R(); } break;
    }
}
// ---- history
struct Call { int o, j; ll t; u64 h; };
struct Chk { std::string file; ll t; std::string st, al, text; std::vector<int> empt; size_t pos; int epoch, idx; bool in_freeze; };
std::vector<std::vector<Call>> H; std::vector<Chk> C; std::vector<std::string> errors; Chk cur; bool pending_restart; int loading = -1; ll load_t; std::vector<Call> expect; size_t exp_i; ll exp_t; bool exp_on; std::string seqs; int nloads; bool pre_seen;
struct JobModel { int o, j; ll start, cyc; bool child; }; std::vector<JobModel> JM;
struct Log : public Trick::MessageSubscriber { void update(unsigned int l, std::string, std::string m) { if (l == MSG_ERROR) { errors.push_back(m); logf("ERROR %s", m.c_str()); } } };
std::string diff(const std::string& a, const std::string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t s = a.rfind(';', i); s = s == std::string::npos ? 0 : s + 1; if (i - s > 60) s = i - 20; return "saved ..." + a.substr(s, 90) + " restored ..." + b.substr(s, 90); }
void called(int o, int j, ll t, u64 h) { logf("call o%d.j%d at %lld", o, j, t);
    H.back().push_back({o, j, t, h}); note_step(); step("call", (u64)o * 64 + j);
    if (!exp_on || (o >= 0 && O[o]->child) || (o == -3 && t == exp_t)) return;   // the frame jobs of the instant of the reload run once more
    if (exp_i >= expect.size()) { exp_on = false; return; } Call& e = expect[exp_i++];
    if (e.o != o || e.j != j || e.t != t || e.h != h) { exp_on = false; violation("C01", e.o == o && e.j == j && e.t == t ? "the state after a reload evolves differently" : "the schedule after a reload differs", "load %d: expected o%d.j%d at %lld, got o%d.j%d at %lld (call %zu after the checkpoint)%s", nloads, e.o, e.j, e.t, o, j, t, exp_i, e.h != h && e.t == t ? ", other state" : ""); } else probe("repeated-calls");
}
// run-time control of jobs and objects, also a function of the state alone
void control(CObj* o) {
    u64 s = mix(o->v.ll * 7919 + o->idx + 17); if (s % 3) return; std::vector<JobModel*> m; for (auto& x : JM) if (!x.child) m.push_back(&x); JobModel& t = *m[(s >> 8) % m.size()]; std::string nm = fmt("cp%d.j%d", t.o, t.j); bool first = !t.o && !t.j; logf("control by o%d at %lld: %s kind %d", o->idx, my_tics(), nm.c_str(), (int)((s >> 20) % 5)); 
    switch ((s >> 20) % 5) { case 0: case 1: if (!first) { exec_set_job_onoff(nm.c_str(), 1, 0); probe("job-off"); } break; case 2: exec_set_job_onoff(nm.c_str(), 1, 1); break; case 3: exec_set_job_cycle(nm.c_str(), 1, base * (1 + (s >> 30) % 6) / 1e6); probe("job-cycle"); break; case 4: if (t.o) { exec_set_sim_object_onoff(fmt("cp%d", t.o).c_str(), (s >> 30) & 1); probe("object-onoff"); } break; }
}
// ---- requests
struct Req { int kind; ll t; bool done; std::string file; }; std::vector<Req> Q; struct Load { ll t; int which; bool frz; bool done; }; std::vector<Load> L; int fz_passes; std::vector<ll> FZ;
std::vector<std::pair<std::string, ll>> model, seen; std::map<std::string, std::vector<std::string>> good; std::map<std::string, std::string> prev; std::set<std::string> must_fail; int nfail; bool fork_cpu; ll safe_per; bool ended;
void do_load(Load& l) { if (C.empty()) return; loading = l.which % C.size(); l.done = true; load_t = tics(); nloads++; probe("load"); load_checkpoint((outdir() + "/" + C[loading].file).c_str()); logf("load %s", C[loading].file.c_str()); }
std::string setup() {
    O.clear(); H.assign(1, {}); C.clear(); errors.clear(); JM.clear(); Q.clear(); L.clear(); model.clear(); seen.clear(); good.clear(); prev.clear(); must_fail.clear(); nfail = 0; loading = -1; exp_on = false; nloads = 0; ended = false; pending_restart = false;
    feat = opti("feat", 0); P = (feat & F_LOAD) ? "C01" : "C03"; std::string py; base = 1000 * (10 + pick("base", 190)); sf = base * (1 + pick("sf", 5)); Tend = sf * (4 + pick("frames", 20)) + pick("endoff", 2) * base; py += fmt("trick.exec_set_software_frame(%.9g)\n", sf / 1e6); set_limits(120 * SEC, 200000000);
    if (pick("hex", 3) == 2) TMM_hexfloat_checkpoint(1); reduced = !pick("reduced", 2); TMM_reduced_checkpoint(reduced);
    int no = 1 + pick("objs", 3); for (int i = 0; i < no; i++) {
        CObj* o = new CObj; o->idx = i; TMM_declare_ext_var_s(o, fmt("DstObj cp%d", i).c_str()); O.push_back(o); int th = 0; if ((feat & F_THR) && i) th = 1 + pickf(2, "o%d.th", i); if ((feat & F_AMF) && i == no - 1 && i) th = 3; o->child = th != 0;
        for (int j = 0, nj = 1 + pickf(3, "o%d.nj", i); j < nj; j++) { ll c = base * (1 + pickf(6, "o%d.j%d.c", i, j)), st = pickf(3, "o%d.j%d.s", i, j) == 2 ? base * pickf(8, "o%d.j%d.st", i, j) : 0; JM.push_back({i, j, st, c, th != 0}); u64 wk = pickf(4, "o%d.j%d.w", i, j) == 3 ? pickf(3000, "o%d.j%d.wk", i, j) * US : 0;
            o->add(th, CLASSES[pickf(12, "o%d.j%d.cl", i, j)], c / 1e6, fmt("j%d", j).c_str(), 1 + pickf(3, "o%d.j%d.p", i, j), st / 1e6, 1e37, [o, i, j, wk](Trick::JobData*) { if (wk) compute(wk); mutate(o); if ((feat & F_CTL) && !o->child) control(o); called(i, j, my_tics(), hs(ser(o))); return 0; }); } }
    Obj* a = new Obj; CObj* z = new CObj; z->idx = 99; TMM_declare_ext_var_s(z, "DstObj cpz"); (void)a; // cpz: the world's own jobs
    z->add(0, "checkpoint", 1, "pre", 65535, 0, 1e37, [](Trick::JobData*) { pre_seen = true; { std::string f = checkpoint_get_output_file(); if (exec_get_mode() != Freeze && (feat & F_LOAD)) called(-2, (int)(hs(f.substr(f.rfind('/') + 1)) & 0xffff), tics(), 0); } cur = Chk(); cur.t = tics(); cur.st = ser_all(); for (auto* o : O) cur.empt.push_back(o->v.vec.empty() | o->v.mp.empty() << 1 | o->v.vs.empty() << 2 | o->v.li.empty() << 3); cur.al = allocs(); cur.pos = H.back().size(); cur.epoch = H.size() - 1; cur.in_freeze = exec_get_mode() == Freeze; std::string f = checkpoint_get_output_file(); cur.file = f.substr(f.rfind('/') + 1); std::ostringstream s; trick_MM->write_checkpoint(s); cur.text = s.str(); good[cur.file].push_back(cur.text); seen.push_back({cur.file, cur.t}); logf("checkpoint %s", cur.file.c_str()); step("chk", cur.t); return 0; });
    z->add(0, "post_checkpoint", 1, "post", 65535, 0, 1e37, [](Trick::JobData*) { if (!pre_seen) violation("C03", "a post-checkpoint job ran without its pre-checkpoint job", "at %lld", tics()); pre_seen = false; C.push_back(cur); note_step();
        { std::string t = read_file(outdir() + "/" + cur.file); auto& old = prev[cur.file]; if (t == cur.text) { probe("file-checked"); old = t; must_fail.erase(cur.file); } else if (!(feat & (F_FAULT | F_CRASH))) violation("C03", "a checkpoint file is not the state at its time", "%s: %zu bytes, expected %zu", cur.file.c_str(), t.size(), cur.text.size());
          else if (t != old) violation("C03", "a partial checkpoint file was left behind", "%s: %zu bytes, of %zu", cur.file.c_str(), t.size(), cur.text.size()); else { probe("checkpoint-failed"); must_fail.insert(cur.file); nfail++; } } return 0; });
    z->add(0, "preload_checkpoint", 1, "preload", 65535, 0, 1e37, [](Trick::JobData*) { if (loading < 0) violation("C01", "a load happened that nobody asked for", "at %lld", tics()); else for (size_t k = 0; k < C.size(); k++) if (C[k].file == C[loading].file) loading = k; return 0; });
    z->add(0, "restart", 1, "rst", 65535, 0, 1e37, [](Trick::JobData*) {
        if (loading < 0) return 0; Chk& c = C[loading]; loading = -1; note_step(); probe("restart"); if (tics() != c.t) { violation("C01", "the time after a reload is not that of the checkpoint", "%lld, expected %lld", tics(), c.t); }
        if (!reduced) for (size_t i = 0; i < O.size(); i++) { DstVars& v = O[i]->v; int e = c.empt[i]; bool bad = false; if ((e & 1) && !v.vec.empty()) { bad = true; v.vec.clear(); } if ((e & 2) && !v.mp.empty()) { bad = true; v.mp.clear(); } if ((e & 4) && !v.vs.empty()) { bad = true; v.vs.clear(); } if ((e & 8) && !v.li.empty()) { bad = true; v.li.clear(); } if (bad) violation("C01", "a container that was empty is not emptied by the reload of a checkpoint that is not reduced", "%s: o%zu", c.file.c_str(), i); }
        std::string s = ser_all(); if (s != c.st) { violation("C01", "a variable is not restored", "%s saved at %lld: %s", c.file.c_str(), c.t, diff(c.st, s).c_str()); }
        std::string al = allocs(); if (al != c.al) { size_t k = 0; while (k < al.size() && k < c.al.size() && al[k] == c.al[k]) k++; size_t b = al.rfind('\n', k); b = b == std::string::npos ? 0 : b + 1; violation("C01", "the managed allocations are not those of the checkpoint", "%zu bytes of list, expected %zu; first difference: has '%s', expected '%s'", al.size(), c.al.size(), al.substr(b, 60).c_str(), c.al.substr(std::min(b, c.al.size()), 60).c_str()); }
        H.push_back({}); expect.clear(); for (size_t k = c.pos; k < H[c.epoch].size(); k++) { Call& x = H[c.epoch][k]; if (x.o == -3 ? x.t != c.t : x.o < 0 || !O[x.o]->child) expect.push_back(x); } exp_i = 0; exp_on = true; exp_t = c.t; return 0; });
    // requests
    int nq = 1 + pick("nchk", 4); for (int i = 0; i < nq; i++) { ll t = base * pickf(Tend / base, "q%d.t", i); int k = pickf(3, "q%d.k", i); Q.push_back({k, t, false, fmt("my_%d", i)}); if (k == 0) { py += fmt("trick.checkpoint(%.9g)\n", t / 1e6); } else if (k == 1) { z->add(0, CLASSES[pickf(12, "q%d.cl", i)], 1e3, fmt("chk%d", i).c_str(), pickf(2, "q%d.ph", i) ? 60000 : 1, t / 1e6, 1e37, [i](Trick::JobData*) { probe("checkpoint-from-job"); ::checkpoint(Q[i].file.c_str()); return 0; }); } else py += fmt("trick.add_read(%.9g, \"\"\"trick.checkpoint('%s')\"\"\")\n", t / 1e6, Q[i].file.c_str()); }
    if (!(feat & F_LOAD)) { if (pick("pre", 3) == 2) { py += "trick.checkpoint_pre_init(1)\n"; model.push_back({"chkpnt_pre_init", 0}); } if (pick("postinit", 3) == 2) { py += "trick.checkpoint_post_init(1)\n"; model.push_back({"chkpnt_post_init", 0}); } }
    // safestore: set in the input file or by an event, and turned on and off
    safe_per = 0; std::vector<std::pair<ll, ll>> sper; std::vector<std::pair<ll, int>> son;
    if (pick("safe", 3) >= 1) { int np = 1 + pick("safe.np", 2); for (int i = 0; i < np; i++) { ll per = sf * (1 + pickf(4, "safe%d.n", i)), x = pickf(3, "safe%d.off", i) == 2 && sf > 1 ? per - 1 - pickf(sf - 1, "safe%d.d", i) : per, t = i ? base * pickf(Tend / base, "safe%d.t", i) : 0; if (i == 0 && pick("safe.late", 3) == 2) t = base * pickf(Tend / base, "safe%d.t", i); if (i && t < sper[0].first) continue; sper.push_back({t, per}); std::string c = fmt("trick.checkpoint_safestore_period(%.9g)", x / 1e6); if (t) py += fmt("trick.add_read(%.9g, \"%s\")\n", t / 1e6, c.c_str()); else py += c + "\n"; }
        for (int i = 0, n = 1 + pick("safe.nt", 3); i < n; i++) { ll t = i || pick("safe.lateon", 3) == 2 ? base * pickf(Tend / base, "son%d", i) : 0; int v = i ? pickf(2, "son%d.v", i) : 1; bool dup = false; for (auto& q : son) dup |= q.first == t; if (dup) continue; son.push_back({t, v}); std::string c = fmt("trick.checkpoint_safestore(%d)", v); if (t) { py += fmt("trick.add_read(%.9g, \"%s\")\n", t / 1e6, c.c_str()); probe("safestore-toggle"); } else py += c + "\n"; } std::sort(son.begin(), son.end()); }
    bool endc = !(feat & F_LOAD) && pick("end", 3) == 2; if (endc) py += "trick.checkpoint_end(1)\n";
    fork_cpu = false;
    if (feat & F_EV) for (int i = 0, n = 1 + pick("nev", 3); i < n; i++) { ll t = base * pickf(Tend / base, "ev%d.t", i); py += fmt("trick.add_read(%.9g, \"trick.dst_call(5,%d,0)\")\n", t / 1e6, i); probe("event"); } on_call(5, [](int i, int) { called(-1, i, tics(), 0); return 0; });
    if (feat & F_LOAD) for (int i = 0, n = 1 + pick("nload", 3); i < n; i++) { ll t = base * (1 + pickf(Tend / base, "l%d.t", i)); bool fz = (feat & F_FRZ) && pickf(2, "l%d.f", i); L.push_back({t, (int)pickf(6, "l%d.w", i), fz, false}); if (!fz) z->add(0, "automatic_last", 1e3, fmt("ld%d", i).c_str(), 60000, t / 1e6, 1e37, [i](Trick::JobData*) { if (!L[i].done && loading < 0) do_load(L[i]); return 0; }); }
    if (feat & F_FRZ) { py += "trick.exec_set_enable_freeze(True)\n"; fz_passes = 0; FZ.clear(); for (int i = 0, n = 1 + pick("nfz", 3); i < n; i++) { ll t = base * (1 + pickf(Tend / base, "fz%d", i)); py += fmt("trick.freeze(%.9g)\n", t / 1e6); }
        z->add(0, "freeze", 1, "fzj", 1, 0, 1e37, [](Trick::JobData*) { fz_passes++; if (fz_passes % 4 == 1) for (auto& l : L) if (l.frz && !l.done && l.t <= tics() && loading < 0) { probe("load-in-freeze"); do_load(l); return 0; } if (fz_passes % 4 == 2 && fz_passes < 40 && pickf(4, "fzc%d", fz_passes) == 3) { probe("checkpoint-in-freeze"); std::string f = fmt("my_frz_%d", fz_passes); model.push_back({f, tics()}); ::checkpoint(f.c_str()); } if (fz_passes % 4 == 0) exec_run(); return 0; }); }
    // frame jobs: where frames start and end is part of the schedule
    for (int i = 0, n = 1 + pick("nfr", 3); i < n; i++) { bool eof = pickf(2, "fr%d", i); int ph = pickf(2, "fr%d.ph", i) ? 1 : 60000; z->add(0, eof ? "end_of_frame" : "top_of_frame", 1, fmt("fr%d", i).c_str(), ph, 0, 1e37, [i](Trick::JobData*) { if (feat & F_LOAD) called(-3, i, tics(), 0); return 0; }); }
    for (auto* o : O) exec_add_sim_object(o, fmt("cp%d", o->idx).c_str()); exec_add_sim_object(z, "cpz");
    // the frame log learns of the threads in its default_data job, when those of an S_define exist already: what it would have allocated for ours
    for (int i = the_fl->drg_users.size(), n = exec_get_num_threads(); i < n; i++) { std::string g = fmt("trick_frame_userjobs_C%d", i); the_fl->drg_users.push_back(new (g.c_str()) Trick::FrameDataRecordGroup(i, g)); }
    if (!(feat & F_LOAD)) the_message_publisher->subscribe(new Log);
    // expected checkpoints
    { std::set<ll> at; for (auto& q : Q) if (q.t <= Tend) { if (q.kind == 0) at.insert(q.t); else model.push_back({q.file, q.t}); } for (ll t : at) model.push_back({fmt("chkpnt_%.6f", t / 1e6), t}); for (size_t k = 0; k < sper.size(); k++) for (ll per = sper[k].second, t = (sper[k].first / per + 1) * per; t <= Tend && (k + 1 == sper.size() || t < sper[k + 1].first); t += per) { bool on = false; for (auto& q : son) if (q.first <= t) on = q.second; if (on) model.push_back({"chkpnt_safestore", t}); } if (endc) model.push_back({"chkpnt_end", Tend}); }
    io_managed_filter([](const std::string& p) { std::string b = p.substr(p.rfind('/') + 1); return b.find("chkpnt_") == 0 || b.find("my_") == 0; });
    if (feat & F_THR) { if (pick("f.spur", 3) == 2) fault_rate("spurious_wakeup", 20000); }
    if (feat & F_FAULT) { static const u64 lv[] = {20000, 200000, 1000000}; if (pick("f.sp", 2)) fault_rate("disk_short", lv[pick("f.spl", 3)] / 2); if (pick("f.in", 2)) fault_rate("disk_eintr", lv[pick("f.inl", 3)] / 2); if (pick("f.ns", 2)) fault_rate("disk_enospc", lv[pick("f.nsl", 3)] / 2); if (pick("f.op", 4) == 3) fault_rate("open_fail", 200000); }
    if (feat & F_CRASH) io_crash_at_write(pick("crash.k", 1 + pick("crash.max", 3000)), pick("crash.keep", 2) ? pick("crash.kn", 600) : -1);
    py += fmt("trick.stop(%.9g)\n", Tend / 1e6); return py;
}
void finish(int why, int code) {
    bool crash = why == W_CRASHPOINT;
    if (why != W_EXIT && !crash) { violation(P, "the simulation did not end", "%s; %s", why_name(why), task_dump().substr(0, 500).c_str()); return; }
    if (!crash) { if (code) violation(P, "the simulation ended with an error", "exit code %d", code); if (tics() < Tend) violation(P, "the simulation ended early", "%lld of %lld", tics(), Tend); if (loading >= 0 && (load_t / sf + 1) * sf < Tend) violation("C01", "a load that was asked for never happened", "%s asked at %lld, frame %lld, end %lld", C[loading].file.c_str(), load_t, sf, Tend); }
    // every file is one of the states that were saved under its name
    for (auto& f : must_fail) { bool told = false; for (auto& e : errors) told |= e.find(f) != std::string::npos; if (!told && !crash && !(feat & F_LOAD)) violation("C03", "a checkpoint that could not be written was not reported", "%s; %zu errors", f.c_str(), errors.size()); }
    for (auto& f : list_dir(outdir())) if (f.find("chkpnt_") == 0 || f.find("my_") == 0) { if (f.find(".writing.") != std::string::npos) { if (!crash) violation("C03", "a partial checkpoint file was left behind", "%s", f.c_str()); continue; } std::string t = read_file(outdir() + "/" + f); auto& g = good[f]; note_step(); bool ok = false; for (auto& x : g) ok |= x == t; if (ok) { probe("final-file-checked"); continue; }
        violation("C03", crash ? "a crash while writing left a partial checkpoint file" : "a partial checkpoint file was left behind", "%s: %zu bytes, of %zu", f.c_str(), t.size(), g.empty() ? 0 : g.back().size()); }
    if (!crash && !(feat & F_LOAD)) { auto by = [](const std::pair<std::string, ll>& a, const std::pair<std::string, ll>& b) { return a.second != b.second ? a.second < b.second : a.first < b.first; }; for (size_t k = 1; k < seen.size(); k++) if (seen[k].second < seen[k - 1].second) violation("C03", "checkpoints are not taken in time order", "%s", seen[k].first.c_str()); std::sort(model.begin(), model.end(), by); std::sort(seen.begin(), seen.end(), by); note_step();
        for (size_t k = 0; k < std::max(model.size(), seen.size()); k++) { if (k >= seen.size() || (k < model.size() && by(model[k], seen[k]))) { violation("C03", "a checkpoint that was asked for was not taken", "%s at %lld of %lld", model[k].first.c_str(), model[k].second, Tend); break; } if (k >= model.size() || by(seen[k], model[k])) { violation("C03", "a checkpoint was taken that nobody asked for", "%s at %lld", seen[k].first.c_str(), seen[k].second); break; } probe("checkpoint-as-asked"); } }
    // the calls of each epoch are at the nominal times
    if (!crash && !(feat & F_CTL)) { size_t e = H.size() - 1; for (auto& m : JM) { if (m.child && (feat & F_AMF)) continue; ll last = -1; for (auto& c : H[e]) if (c.o == m.o && c.j == m.j) { note_step(); if ((c.t - m.start) % m.cyc || (last >= 0 && c.t != last + m.cyc)) { violation("C01", "a job does not keep its schedule after a reload", "o%d.j%d called at %lld after %lld; start %lld cycle %lld", m.o, m.j, c.t, last, m.start, m.cyc); return; } last = c.t; } if (e == 0 || last >= 0) { ll want = Tend < m.start ? -1 : m.start + (Tend - m.start) / m.cyc * m.cyc; if (last != want && !(nloads && last < 0)) { violation("C01", "a job does not run to the end", "o%d.j%d last called at %lld, expected %lld", m.o, m.j, last, want); return; } } } }
}
static Reg r({"cp", setup, finish, 120 * SEC, 200000000, "C01"});
}
