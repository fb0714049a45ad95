// Real-time injector: several threads queue batches of assignments while the simulation applies them at its frame boundaries. P02.
#include "common.hh"
#include "trick/RtiStager.hh"
#include <thread>
#include <unistd.h>
using namespace w;
extern Trick::RtiStager* the_rtis;
namespace {
enum { F_THREADS = 1, F_MAIN = 2, F_PY = 4, F_MULT = 8, F_CHILD = 16, F_FRZ = 32, F_BAD = 64, F_DEBUG = 128, F_PTR = 256 };
int feat; DstVars* D; bool clients_done, ended; ll sf;
const int PTR = 1000;
struct Var { std::string path; double lo, hi; std::function<double()> get; std::function<void(double)> put; std::function<double(double)> conv; bool ptr; };
std::vector<Var> vars[2];                                       // the variables each executor may change
struct Set { int var; double val; };                           // var -1: the batch's own mark
struct Batch { int id, client, ex; u64 t0 = 0, t1 = 0; bool seen = false; std::vector<Set> s; };
std::vector<Batch*> B; struct Ex { unsigned mult = 1, off = 0; u64 s0 = 0; std::vector<double> st; } X[2];
template <class T> void var(int k, const char* path, T* p, double lo, double hi) { vars[k].push_back({path, lo, hi, [p] { return (double)*p; }, [p](double v) { *p = (T)v; }, [](double v) { return (double)(T)v; }, false}); }
void bad(const char* c, const Batch* b, const std::string& more = "") { if (b) violation("P02", c, "batch %d of client %d for executor %d: %s (frame %lld)", b->id, b->client, b->ex, more.c_str(), exec_get_frame_count()); else violation("P02", c, "%s (frame %lld)", more.c_str(), exec_get_frame_count()); }
void make_vars() {
    var(0, "dst.v.i", &D->i, -2e9, 2e9); var(0, "dst.v.x", &D->x, -1e9, 1e9); var(0, "dst.v.f", &D->f, -1e6, 1e6); var(0, "dst.v.sh", &D->sh, -30000, 30000); var(0, "dst.v.ush", &D->ush, 0, 65535); var(0, "dst.v.l", &D->l, -1e12, 1e12); var(0, "dst.v.u", &D->u, 0, 4e9); var(0, "dst.v.ll", &D->ll, -1e15, 1e15); var(0, "dst.v.ull", &D->ull, 0, 1e15);
    var(0, "dst.v.c", &D->c, -128, 127); var(0, "dst.v.uc", &D->uc, 0, 255); var(0, "dst.v.b", &D->b, 0, 1); var(0, "dst.v.arr[1]", &D->arr[1], -1e3, 1e3); var(0, "dst.v.mat[1][0]", &D->mat[1][0], -100, 100); var(0, "dst.v.node.a", &D->node.a, -9, 9); var(0, "dst.v.nodes[1].b[2]", &D->nodes[1].b[2], -9, 9); var(0, "dst.v.ul", &D->ul, 0, 1e15);
    vars[0].push_back({"dst.v.e", 0, 9, [] { return (double)(int)D->e; }, [](double v) { D->e = (DstEnum)(int)v; }, [](double v) { return (double)(int)v; }, false});
    vars[0].push_back({"dst.v.bf1", 0, 7, [] { return (double)D->bf1; }, [](double v) { D->bf1 = (unsigned)v; }, [](double v) { return (double)((unsigned)v & 7); }, false});
    vars[0].push_back({"dst.v.bf2", 0, 127, [] { return (double)D->bf2; }, [](double v) { D->bf2 = (unsigned)v; }, [](double v) { return (double)((unsigned)v & 127); }, false});
    vars[0].push_back({"dst.v.bf3", -16, 15, [] { return (double)D->bf3; }, [](double v) { D->bf3 = (int)v; }, [](double v) { return (double)(int)v; }, false});
    if (feat & F_PTR) { D->pn[0] = &D->nodes[0]; vars[0].push_back({"dst.v.pn[0]->a", -99, 99, [] { return (double)(D->pn[0] ? D->pn[0]->a : 0); }, [](double v) { if (D->pn[0]) D->pn[0]->a = (int)v; }, [](double v) { return (double)(int)v; }, true}); }
    var(1, "dst.v.arr[2]", &D->arr[2], -1e3, 1e3); var(1, "dst.v.farr[1]", &D->farr[1], -1e3, 1e3); var(1, "dst.v.cnt[3]", &D->cnt[3], -1e9, 1e9); var(1, "dst.v.mat[0][2]", &D->mat[0][2], -100, 100);
}
Batch* make_batch(int client, const std::string& l) {
    if (B.size() >= 64) return nullptr; Batch* b = new Batch; b->id = B.size(); b->client = client; b->ex = (feat & F_CHILD) ? pickf(2, "%sx", l.c_str()) : 0; B.push_back(b);
    int n = pickf(6, "%sn", l.c_str()); b->s.push_back({-1, (double)(b->id + 1)});
    for (int i = 0; i < n; i++) { int v = pickf(vars[b->ex].size(), "%sv%d", l.c_str(), i); Var& V = vars[b->ex][v]; double r = V.lo + (V.hi - V.lo) * (pickf(1001, "%sr%d", l.c_str(), i) / 1000.0); b->s.push_back({v, pickf(2, "%si%d", l.c_str(), i) ? r : trunc(r)}); }
    b->s.push_back({-1, 1000.0 * (b->id + 1)}); return b;
}
std::string path_of(const Batch* b, const Set& s) { return s.var < 0 ? fmt("dst.v.w[%d]", b->id) : vars[b->ex][s.var].path; }
void nap(const std::string& l, int i) { switch (pickf(4, "%sz%d", l.c_str(), i)) { case 1: burn((1 + pickf(30, "%sy%d", l.c_str(), i)) * US); break; case 2: usleep(1 + pickf(200, "%sy%d", l.c_str(), i)); break; default: break; } }
void add(const std::string& p, double v) { char s[80]; strcpy(s, p.c_str()); if (v == trunc(v) && fabs(v) < 1e15) the_rtis->Add(s, (long long)v); else the_rtis->Add(s, v); }
void run_batch(int client, const std::string& l, bool naps) {
    Batch* b = make_batch(client, l); if (!b) return; int n = b->s.size();
    for (int i = 0; i < n; i++) {
        if ((feat & F_BAD) && pickf(6, "%sb%d", l.c_str(), i) == 5) { switch (pickf(4, "%sk%d", l.c_str(), i)) { case 0: add("dst.v.nosuch", 3); break; case 1: add("dst.v.node", 3); break; case 2: add("dst.v.s", 3); break; default: if (the_rtis->Fire(2 + pickf(3, "%sh%d", l.c_str(), i)) != -1) bad("firing on a thread that does not exist succeeded", b); } probe("bad-call"); }
        if ((feat & F_BAD) && pickf(8, "%sc%d", l.c_str(), i) == 7) { the_rtis->List(); probe("list"); }
        // (an assignment through a pointer can only be queued while the pointer points somewhere)
        if (b->s[i].var >= 0 && vars[b->ex][b->s[i].var].ptr && !naps && !D->pn[0]) { b->s[i].var = PTR; continue; }
        add(path_of(b, b->s[i]), b->s[i].val); if (naps) nap(l, i);
    }
    b->t0 = seqno(); step("fire", b->id); int r = the_rtis->Fire(b->ex); b->t1 = seqno(); if (r) bad("a batch was refused", b); probe("fired");
    if ((feat & F_BAD) && pickf(4, "%se", l.c_str()) == 3) { the_rtis->Fire(b->ex); probe("empty-fire"); }
}
// ---- the reference: what may have been applied between two points of the main thread
void snap(int k) { X[k].st.clear(); for (Var& v : vars[k]) X[k].st.push_back(v.get()); }
void unchanged(int k, const char* where) {
    note_step(); for (size_t i = 0; i < vars[k].size(); i++) { double g = vars[k][i].get(); if (g != X[k].st[i]) { bad("a variable changed outside the configured frame point", nullptr, fmt("%s: %s is %g, was %g", where, vars[k][i].path.c_str(), g, X[k].st[i])); return; } }
    for (Batch* b : B) if (b->ex == k && D->w[b->id]) { bad(b->seen ? "a batch was applied twice" : "a batch was applied outside the configured frame point", b, where); return; }
}
bool order(int k, std::vector<Batch*> s, std::vector<int> open) {
    if (s.empty()) { for (int v : open) if (vars[k][v].get() != X[k].st[v]) return false; return true; }
    for (size_t i = 0; i < s.size(); i++) {
        Batch* b = s[i]; bool last = true; for (Batch* o : s) if (o != b && o->t0 > b->t1 && b->t1) last = false; if (!last) continue;
        std::map<int, double> fin; for (Set& x : b->s) if (x.var >= 0 && x.var != PTR && !(vars[k][x.var].ptr && !D->pn[0])) fin[x.var] = vars[k][x.var].conv(x.val); bool ok = true; std::vector<int> o2;
        for (int v : open) { auto f = fin.find(v); if (f == fin.end()) o2.push_back(v); else if (f->second != vars[k][v].get()) ok = false; } if (!ok) continue;
        std::vector<Batch*> r = s; r.erase(r.begin() + i); if (order(k, r, o2)) return true;
    } return false;
}
void before(int k) {  unchanged(k, "top of frame"); X[k].s0 = seqno(); }
void after(int k) {
    if (violated("P02")) return; u64 s0 = X[k].s0, s1 = seqno(); bool match = exec_get_frame_count() % X[k].mult == X[k].off; std::vector<Batch*> s; note_step();
    for (Batch* b : B) if (b->ex == k && D->w[b->id]) { step("applied", b->id);
        if (b->seen) return bad("a batch was applied twice", b); if (!b->t0) return bad("a batch was applied before it was fired", b); if (!match) return bad("a batch was applied in a frame that is not configured", b, fmt("multiple %u offset %u", X[k].mult, X[k].off));
        if (D->w[b->id] != 1000 * (b->id + 1)) return bad("a batch was applied in part or out of order", b, fmt("its mark is %d", D->w[b->id])); s.push_back(b); }
    bool contended = false; for (Batch* b : B) if (b->ex == k && b->t0 && b->t0 <= s1 && (!b->t1 || b->t1 >= s0)) contended = true;
    if (match && !contended) for (Batch* b : B) if (b->ex == k && b->t1 && b->t1 < s0 && !b->seen && !D->w[b->id]) return bad("a batch was not applied at the configured frame point after it was fired", b);
    std::vector<int> all; for (size_t i = 0; i < vars[k].size(); i++) all.push_back(i);
    if (s.size() <= 8 && !order(k, s, all)) { std::string d; for (Batch* b : s) { d += fmt(" [%d:", b->id); for (Set& x : b->s) if (x.var >= 0 && x.var != PTR) d += fmt(" %s=%g", vars[k][x.var].path.c_str(), x.val); d += "]"; } for (size_t i = 0; i < vars[k].size(); i++) if (vars[k][i].get() != X[k].st[i]) d += fmt(" %s: %g -> %g", vars[k][i].path.c_str(), X[k].st[i], vars[k][i].get()); return bad("the variables do not hold what the batches set, in the order fired", s.empty() ? nullptr : s[0], d); }
    for (Batch* b : s) { b->seen = true; D->w[b->id] = 0; probe("applied"); } if (s.size() > 1) probe("several-batches"); if (contended && match) probe("contended"); snap(k);
}
std::vector<std::thread> clients; int nclients;
void client(int k) { std::string l = fmt("k%d.", k); int n = 1 + pickf(12, "%sn", l.c_str()); for (int i = 0; i < n && !violated("P02"); i++) { std::string m = fmt("k%d.%d.", k, i); nap(m, 99); run_batch(k, m, true); } }
std::string setup() {
    feat = opti("feat", 0); machine_faults(1); REF2* r = ref_attributes((char*)"dst.v.w[0]"); D = (DstVars*)((char*)r->address - offsetof(DstVars, w)); make_vars(); static const double SF[] = {0.5, 1, 0.2}; double f = SF[pick("sf", 3)];
    Obj* o = new Obj; std::string py = fmt("trick.exec_set_software_frame(%g)\n", f); int nx = feat & F_CHILD ? 2 : 1, frames = 12 + pick("frames", 20), tail = 12;
    if (feat & F_DEBUG) { the_rtis->SetDebug(true); }
    o->add(0, "top_of_frame", 1, "bef0", 59999, 0, 1e37, [](Trick::JobData*) { before(0); return 0; }); o->add(0, "top_of_frame", 1, "aft0", 60001, 0, 1e37, [](Trick::JobData*) { after(0); return 0; });
    if (feat & F_CHILD) { static Trick::RtiExec x1; the_rtis->AddInjectorExecutor(&x1); x1.SetDebug(feat & F_DEBUG); o->add(1, "top_of_frame", 1, "bef1", 59999, 0, 1e37, [](Trick::JobData*) { before(1); return 0; }); o->add(1, "top_of_frame", 1, "rti1", 60000, 0, 1e37, [](Trick::JobData*) { return x1.Exec(); }); o->add(1, "top_of_frame", 1, "aft1", 60001, 0, 1e37, [](Trick::JobData*) { after(1); return 0; }); o->add(1, "scheduled", f / 2, "ch", 100, 0, 1e37, [](Trick::JobData*) { burn(3000); return 0; }); }
    static int nb, nm, nd, nf; nb = nm = nd = nf = 0;
    o->add(0, "scheduled", f / 2, "look", 1, 0, 1e37, [nx](Trick::JobData*) { for (int k = 0; k < nx; k++) unchanged(k, "in the frame"); std::string l = fmt("own%d.", nd++); usleep(1 + pickf(300, "%su", l.c_str()));
        // the simulation changes the variables too: what was injected must not come back
        for (int k = 0; k < nx; k++) { int n = pickf(3, "%sn%d", l.c_str(), k); for (int i = 0; i < n; i++) { Var& v = vars[k][pickf(vars[k].size(), "%sv%d%d", l.c_str(), k, i)]; v.put(trunc(v.lo + (v.hi - v.lo) * (pickf(101, "%sr%d%d", l.c_str(), k, i) / 100.0))); } if ((feat & F_PTR) && k == 0) switch (pickf(6, "%sp", l.c_str())) { case 4: D->pn[0] = &D->nodes[1]; break; case 5: D->pn[0] = feat & F_THREADS ? &D->nodes[0] : nullptr; break; default: D->pn[0] = &D->nodes[0]; } snap(k); } return 0; });
    o->add(0, "end_of_frame", 1, "eof", 1, 0, 1e37, [nx](Trick::JobData*) { for (int k = 0; k < nx; k++) unchanged(k, "end of frame"); return 0; });
    if (feat & F_MULT) { auto mo = [](int k, const std::string& l) { unsigned m = pickf(5, "%sm", l.c_str()), of = pickf(5, "%so", l.c_str()); int r = the_rtis->SetFrameMultiple(k, m); note_step();
            if (m == 0) { if (r == 0) bad("a frame multiple of zero was accepted", nullptr); } else { X[k].mult = m; if (X[k].off >= m) { X[k].off = the_rtis->GetRtiExecutor(k)->frame_offset; if (X[k].off >= m) bad("an offset that no frame has was kept", nullptr, fmt("multiple %u offset %u", m, X[k].off)); probe("offset-beyond"); } }
            r = the_rtis->SetFrameOffset(k, of); if ((r != 0) != (of >= X[k].mult)) bad("a frame offset was wrongly accepted or refused", nullptr, fmt("multiple %u offset %u", X[k].mult, of)); if (of < X[k].mult) X[k].off = of; probe("multiple"); };
        o->add(0, "scheduled", f, "mult", 300, 0, 1e37, [nx, mo](Trick::JobData*) { if (pickf(3, "mu%d", nm) == 2) mo(pickf(nx, "mx%d", nm), fmt("mo%d.", nm)); nm++; return 0; }); }
    if (feat & F_MAIN) o->add(0, "scheduled", f / 4, "inj", 200, 0, 1e37, [](Trick::JobData*) { if (clients_done) return 0; std::string l = fmt("mj%d.", nb++); if (pickf(3, "%sd", l.c_str()) == 2) run_batch(100, l, false); return 0; });
    if (feat & F_FRZ) { py += "trick.exec_set_enable_freeze(True)\n"; o->add(0, "scheduled", f, "frz", 900, 0, 1e37, [](Trick::JobData*) { if (!clients_done && pickf(4, "fz%d", nf++) == 3) exec_freeze(); return 0; }); o->add(0, "freeze", 1, "fr", 1, 0, 1e37, [](Trick::JobData*) { usleep(500); if (pickf(3, "fe%d", nf++) < 2) exec_run(); probe("freeze"); return 0; }); }
    nclients = feat & F_THREADS ? 1 + pick("clients", 3) : 0; o->add(0, "initialization", 1, "cl", 65535, 0, 1e37, [nx](Trick::JobData*) { for (int k = 0; k < nx; k++) snap(k); for (int i = 0; i < nclients; i++) clients.emplace_back(client, i); return 0; });
    o->add(0, "end_of_frame", 1, "join", 2, 0, 1e37, [frames](Trick::JobData*) { if (!clients_done && exec_get_frame_count() >= frames) { clients_done = true; for (auto& t : clients) t.join(); clients.clear(); } return 0; });
    on_call(70, [](int b, int) { B[b]->t0 = seqno(); return 0; }); on_call(71, [](int b, int) { B[b]->t1 = seqno(); probe("fired"); return 0; });
    if (feat & F_PY) for (int i = 0, n = 1 + pick("npy", 6); i < n; i++) { std::string l = fmt("py%d.", i); Batch* b = make_batch(200, l); std::string c; for (size_t q = 0; q < b->s.size(); q++) { Set& s = b->s[q]; c += s.val == trunc(s.val) && pickf(2, "%sq%d", l.c_str(), (int)q) == 0 ? fmt("trick_inject.rtis.Add('%s', %lld)\n", path_of(b, s).c_str(), (ll)s.val) : fmt("trick_inject.rtis.Add('%s', %.17g%s)\n", path_of(b, s).c_str(), s.val, s.val == trunc(s.val) && fabs(s.val) < 1e15 ? ".0" : ""); }
        py += fmt("trick.add_read(%g, \"\"\"%strick.dst_call(70,%d,0)\ntrick_inject.rtis.Fire(%d)\ntrick.dst_call(71,%d,0)\n\"\"\")\n", f * 0.25 * pickf(4 * (frames - 1), "%st", l.c_str()), c.c_str(), b->id, b->ex, b->id); }
    o->add(0, "shutdown", 1, "sd", 1, 0, 1e37, [nx](Trick::JobData*) { ended = true; for (int k = 0; k < nx; k++) unchanged(k, "shutdown"); for (Batch* b : B) if (b->t1 && !b->seen && !violated("P02")) bad("a batch was never applied", b); return 0; });
    exec_add_sim_object(o, "rio"); return py + fmt("trick.stop(%g)\n", f * (frames + tail));
}
void fin(int why, int code) { probe(why_name(why)); if (why == W_DEADLOCK || why == W_LIMIT) violation("P02", "the simulation hangs", "%s", task_dump().substr(0, 300).c_str()); if (why == W_EXIT && !ended && !violated("P02")) violation("P02", "the simulation ended early", "code %d", code); if (B.empty()) probe("idle-run"); }
Reg r({"ri", setup, fin, 60 * SEC, 20000000, "P02"});
}
