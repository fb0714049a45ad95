// Events: reads, cyclic events, events attached to jobs, conditions and actions; changed by jobs, by other events, in freeze, by clients. P01.
#include "common.hh"
#include <stdarg.h>
#include <thread>
#include <unistd.h>
#include "trick/EventManager.hh"
#include "trick/EventManager_c_intf.hh"
#include "trick/IPPythonEvent.hh"
#include "trick/memorymanager_c_intf.h"
#include "trick/reference.h"
using namespace w;
int ippython_add_read(unsigned int thread_id, double in_time, char* in_string);
extern "C" REF2* ref_attributes(const char*);
namespace {
enum { F_CYC = 1, F_READ = 2, F_INST = 4, F_OPS = 8, F_SELF = 16, F_CHILD = 32, F_COND = 64, F_CLIENT = 128, F_TIC = 256, F_FRZ = 512, F_READP = 1024, F_DUP = 2048 };
enum Ctx { INIT, EVENT, PASS, FREEZE, TOF, CALL, CHILD };    // CALL: inside the call of a target job
int feat; ll TPS, sf, base, Tend; bool in_freeze, sim_over; int in_call;
void bad(const char* c, const char* f, ...) __attribute__((format(printf, 2, 3)));
void bad(const char* c, const char* f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); violation("P01", c, "%s; at %lld of %lld tics a second", b, tics(), TPS); }
struct Target { int id; std::string name; ll cyc; int calls = 0; };
struct Ev : public Trick::Event {
    int id; bool once = false, opt = false, act = false, pend = false, in = false, model_only = false; ll cyc = 0, nxt = 0, ran = -1; double sec = 0; u64 ord = 0; int runs = 0, expect = 0, total = 0;
    std::set<int> tg; bool before = false, grace = false; std::map<int, int> script;
    bool client = false, c_in = false; ll c_from0 = -1, c_from1 = -1, c_rem0 = -1, c_rem1 = -1, c_last = -1; int c_runs = 0;
    Ev(int i, double c) : Trick::Event(fmt("ev%d", i), c), id(i), sec(c) {}
    void add() {} void remove() {} void restart() {}
    int process(long long t);
    std::string show() { return fmt("event %d (%s, cycle %lld, thread %u)", id, client ? "client" : tg.size() ? before ? "before" : "after" : once ? "read" : "cyclic", cyc, thread_id); }
};
std::vector<Ev*> E; std::vector<Target> T; u64 g_ord;
ll tof_hi(ll t) { return (t / sf + 1) * sf; }   // a boundary by which something added at t is known
// what had to happen before (or at, with incl) time t has happened
void settle(ll t, bool incl, unsigned th = 0) {
    for (Ev* e : E) if (!e->client && e->get_thread() == th) while (e->in && (e->nxt < t || (incl && e->nxt == t))) {
        note_step(); if (e->ran != e->nxt && e->act && !e->opt) { bad(e->once ? "a read was not run at its time" : "an active cyclic event was not evaluated at its time", "%s due at %lld, now %lld", e->show().c_str(), e->nxt, t); e->in = false; return; }
        e->opt = false; if (e->once || e->cyc <= 0) e->in = false; else e->nxt += e->cyc; }
}
void match(Ev* e, const char* c1) { note_step(); bool ok = e->grace ? llabs(e->runs - e->expect) <= 1 : e->runs == e->expect; if (!ok) bad(e->runs > e->expect ? "an attached event ran more often than its job" : c1, "%s ran %d times for %d calls", e->show().c_str(), e->runs, e->expect); e->grace = false; e->expect = e->runs; }
void after_due() { for (Ev* e : E) if (e->tg.size() && !e->before) match(e, "an attached event did not run after its job"); }
void op(int kind, Ev* e, int arg, Ctx c, Ev* self);
int Ev::process(long long t) {
    total++; ll n = tics(); step("ev", id * 1000003ull + n); note_step(); if (violated("P01") || sim_over) return 0; Ctx c = EVENT;
    if (client) {
        if (c_from0 < 0 || (c_rem1 >= 0 && n > c_rem1)) bad("an event that is not added was processed", "%s, removed at %lld", show().c_str(), c_rem1);
        if (once) { if (n != nxt) bad("an event was processed at a wrong time", "%s due at %lld", show().c_str(), nxt); if (c_runs) bad("an event was processed twice", "%s", show().c_str()); }
        else { if (c_last >= 0 && n != c_last + cyc) bad("an event was processed at a wrong time", "%s, last time %lld", show().c_str(), c_last); if (c_last < 0 && (n % sf || n < c_from0)) bad("an event was processed at a wrong time", "%s, first time %lld", show().c_str(), n); }
        c_last = n; c_runs++; probe("client-event"); return 0;
    }
    if (tg.size()) { runs++; probe("attached-run"); c = CALL; if (!in_call && before) in_call = 1; }
    else {
        if (thread_id) c = CHILD; settle(n, false, thread_id);
        if (!in) bad("an event that is not added was processed", "%s", show().c_str());
        else if (nxt != n || t != n) bad("an event was processed at a wrong time", "%s due at %lld, given %lld", show().c_str(), nxt, t);
        else if (ran == n) bad("an event was processed twice", "%s", show().c_str());
        else if (!act) bad("an event was processed that is not active", "%s", show().c_str());
        else if (once) { for (Ev* e : E) if (e != this && e->in && e->once && !e->client && e->model_only == model_only && e->get_thread() == thread_id && e->nxt == n && e->ord < ord && e->ran != n && e->act && !e->opt) { bad("reads of the same time were run out of order", "%d before %d", id, e->id); break; } probe("read"); } else probe(thread_id ? "child-cyclic" : "cyclic"); ran = n;
    }
    auto s = script.find(total); if (s != script.end() && !violated("P01")) { int who = s->second / 100 % 100; op(s->second / 10000, who == 99 ? this : E[who], s->second % 100, c, this); }
    return 0;
}
void op(int kind, Ev* e, int arg, Ctx c, Ev* self) {
    ll n = tics(); if (e->client || (e->model_only && kind != 0)) return; unsigned th = e->get_thread(); if (th && c != INIT && c != FREEZE && c != CHILD) return; if (c == CHILD && (!th || self->get_thread() != th)) return;
    if (c == CHILD && e != self && kind >= 4) return; settle(n, c == PASS || c == CALL, th); bool due = e->in && e->nxt == n && e != self && (c == EVENT || c == CHILD); note_step(); step("op", kind * 100 + e->id);
    switch (kind) {
      case 0: { if (e->tg.size()) return; if ((e->in || e->pend) && (!(feat & F_DUP) || e->once || e->model_only)) return; bool dup = e->in || e->pend; if (e->once && !dup) { static const int D[] = {0, 1, 2, 5, 10, 20, 40, 27, -5, 33}; double s = (double)n / TPS + D[arg % 10] * 0.05; if (s < 0) s = 0; e->nxt = llround(s * TPS); e->sec = s; if (!e->model_only) e->set_next_tics(c == INIT ? llround(s * exec_get_time_tic_value()) : e->nxt); }
          if (!dup) { e->pend = true; e->ord = ++g_ord; e->opt = false; e->ran = -1; } if (e->model_only) { e->act = true; std::string txt = fmt("trick.dst_call(50,%d,0)", e->id); ippython_add_read(th, e->sec, (char*)txt.c_str()); } else event_manager_add_event(e); probe(dup ? "add-again" : "add"); break; }
      case 1: { e->in = e->pend = false; if (e->tg.size()) { e->tg.clear(); e->expect = e->runs; e->grace = false; probe("detach"); } event_manager_remove_event(e); probe(e == self ? "remove-self" : "remove"); break; }
      case 2: e->act = true; e->activate(); if (due && e->ran != n) e->opt = true; break;
      case 3: e->act = false; e->deactivate(); break;
      case 4: { if (due || e->once || e->cyc <= 0) return; static const int D[] = {1, 2, 4, 5, 10, 20, 30, 7, 40, 13}; e->sec = D[arg % 10] * 0.05; e->cyc = llround(e->sec * TPS); e->set_cycle(e->sec); probe("set-cycle"); break; }
      case 5: case 6: { if (e->in || e->pend || th || T.empty() || (c == EVENT && e == self)) return; if (e->once) return; Target& t = T[arg % T.size()]; bool bf = kind == 5; if (e->tg.size() ? (e->before != bf || e->tg.count(t.id)) : false) return; if (e->tg.empty()) { e->before = bf; e->expect = e->runs; e->grace = false; } e->tg.insert(t.id); if (c == CALL) e->grace = true; if (bf) event_manager_add_event_before(e, t.name, 1); else event_manager_add_event_after(e, t.name, 1); probe(e->tg.size() > 1 ? "attach-another" : "attach"); break; }
    }
}
int rand_op(const std::string& l) { int k = pickf(8, "%sk", l.c_str()); static const int K[] = {0, 1, 1, 2, 3, 4, 5, 6}; int kind = K[k]; if (!(feat & F_INST) && kind >= 5) kind = kind == 5 ? 1 : 0; return kind; }
int target_body(Target* t) {
    in_call = 2; after_due(); t->calls++; step("tg", t->id); for (Ev* e : E) if (e->tg.count(t->id) && e->before) { e->expect++; match(e, "an attached event did not run before its job"); }
    if ((feat & F_OPS) && pickf(12, "tg%d.%d", t->id, t->calls) == 11) { std::string l = fmt("tg%d.%d.", t->id, t->calls); op(rand_op(l), E[pickf(E.size(), "%sw", l.c_str())], pickf(10, "%sa", l.c_str()), CALL, nullptr); }
    for (Ev* e : E) if (e->tg.count(t->id) && !e->before) e->expect++; in_call = 0; return 0;
}
// ---- conditions and actions
struct Cd {
    int id; Trick::IPPythonEvent* ev; bool all = false, act = false, manual = false, mfired = false, gone = false; int nc, na, fired = 0, ran_n = 0; ll cyc, nxt = 0; bool mhold = false; int tgt = -1; bool bf = false;
    struct C { int kind = 0; bool en = true, hold = false, fired = false; int cnt = 0; } c[3]; struct A { int kind = 0; bool en = true; int cnt = 0; } a[3];
};
std::vector<Cd*> C; bool* bvar[3]; bool bval[3]; std::vector<std::pair<int, ll>> exp_a, got_a; bool x_off, x_unk, x_was; ll x_last = -1; ll x_t = -1;   // x_unk: turned on and off by two events at the same time, whose order is not given
bool cval(int e, int c, ll t) { u64 h = (u64)e * 1000003 + c * 7919 + t / (base ? base : 1) * 31; h ^= h >> 7; h *= 0x9e3779b97f4a7c15ull; return (h >> 40) % 3 == 0; }
bool cond_now(Cd* d, int i, ll t) { auto& c = d->c[i]; if (c.kind == 0 || c.kind == 3) return cval(d->id, i, t); return bval[i % 3]; }
void act_fire(Cd* d, ll t) {
    d->fired++; bool any = false; for (int i = 0; i < d->na; i++) if (d->a[i].en) { any = true; d->a[i].cnt++; if (d->a[i].kind >= 3) { bool o = d->a[i].kind == 3; x_unk = x_t == t && (x_unk || o != x_off); x_off = o; x_t = t; x_was |= o; } else { exp_a.push_back({d->id * 10 + i, t}); if (d->a[i].kind == 2) d->act = true; } } if (any) d->ran_n++; if (d->na) d->mfired = d->mfired && d->mhold;
}
void cd_eval(Cd* d, ll t) {
    if (!d->act && !d->mfired) return; bool f = false;
    if (!d->manual) { d->mhold = false; int n = 0; bool any = false, all = true, ha = false, hl = true; for (int i = 0; i < d->nc; i++) { auto& c = d->c[i]; if (!c.en) { c.fired = false; continue; } n++; if (!(c.hold && c.fired)) { c.fired = cond_now(d, i, t); if (c.fired) c.cnt++; } any |= c.fired; all &= c.fired; ha |= c.hold; hl &= c.hold; } f = n && (d->all ? all : any); }
    if (d->mfired || f) { if (!d->mfired) d->act = false; act_fire(d, t); probe("fired"); }
}
void cd_compare() { note_step(); if (exp_a != got_a) { size_t i = 0; while (i < exp_a.size() && i < got_a.size() && exp_a[i] == got_a[i]) i++; std::string s = i < exp_a.size() ? fmt("expected action %d of event %d at %lld", exp_a[i].first % 10, exp_a[i].first / 10, exp_a[i].second) : "expected nothing", g = i < got_a.size() ? fmt("action %d of event %d ran at %lld", got_a[i].first % 10, got_a[i].first / 10, got_a[i].second) : "nothing ran"; bad("the actions that ran are not those the conditions and settings ask for", "%s, %s", s.c_str(), g.c_str()); } exp_a.clear(); got_a.clear(); }
void cd_settle(ll t, bool incl) {
    if (C.empty() || violated("P01")) return; std::map<ll, bool> dues;
    for (;;) { ll m = LLONG_MAX; for (Cd* d : C) if (d->tgt < 0) m = std::min(m, d->nxt); if (m > t || (m == t && !incl)) break; std::vector<std::pair<int, ll>> keep; for (Cd* d : C) if (d->tgt < 0 && d->nxt == m) { cd_eval(d, m); d->nxt += d->cyc; } }
    std::stable_sort(exp_a.begin(), exp_a.end(), [](auto& a, auto& b) { return a.second != b.second ? a.second < b.second : a.first / 10 < b.first / 10; }); std::stable_sort(got_a.begin(), got_a.end(), [](auto& a, auto& b) { return a.second != b.second ? a.second < b.second : a.first / 10 < b.first / 10; });
    cd_compare(); if (violated("P01")) return;
    for (Cd* d : C) { for (int i = 0; i < d->nc; i++) if (d->ev->condition_fired(i) != d->c[i].fired) { bad("a condition does not show whether it fired", "condition %d of event %d", i, d->id); return; } else if (d->ev->condition_fired_count(i) != d->c[i].cnt) { bad("a condition did not fire as often as it was true", "condition %d of event %d: %d, expected %d", i, d->id, d->ev->condition_fired_count(i), d->c[i].cnt); return; } for (int i = 0; i < d->na; i++) if (d->ev->action_ran_count(i) != d->a[i].cnt) { bad("an action did not run as often as asked for", "action %d of event %d: %d, expected %d", i, d->id, d->ev->action_ran_count(i), d->a[i].cnt); return; } if (d->ev->fired_count != d->fired || d->ev->ran_count != d->ran_n) { bad("the counts of an event are wrong", "event %d fired %d, expected %d; ran %d, expected %d", d->id, d->ev->fired_count, d->fired, d->ev->ran_count, d->ran_n); return; } if (d->ev->is_active() != d->act) { bad("the activity of an event is wrong", "event %d: %d, expected %d", d->id, d->ev->is_active(), d->act); return; } }
}
void cd_op(const std::string& l, Ctx c) {
    if (C.empty() || violated("P01")) return; const char* lb = l.c_str(); ll n = tics(); cd_settle(n, c == PASS); Cd* d = C[pickf(C.size(), "%sd", lb)]; int k = pickf(14, "%so", lb), i = pickf(d->nc, "%si", lb), j = pickf(d->na, "%sj", lb); step("cop", k);
    switch (k) {
      case 0: case 1: case 2: d->act = true; d->ev->activate(); break;
      case 3: d->act = false; d->ev->deactivate(); break;
      case 4: d->c[i].en = false; d->ev->condition_disable(i); break; case 5: d->c[i].en = true; d->ev->condition_enable(i); break;
      case 6: d->a[j].en = false; d->ev->action_disable(j); break; case 7: d->a[j].en = true; d->ev->action_enable(j); break;
      case 8: d->c[i].hold = !d->c[i].hold; if (d->c[i].hold) d->ev->condition_hold_on(i); else d->ev->condition_hold_off(i); break;
      case 9: d->manual = d->mfired = d->mhold = true; d->ev->manual_on(); probe("manual"); break;
      case 10: d->manual = true; d->mfired = d->mhold = false; d->ev->manual_off(); break;
      case 11: d->manual = d->mfired = d->mhold = false; d->ev->manual_done(); break;
      case 12: d->manual = d->mfired = true; d->mhold = false; act_fire(d, n); d->ev->manual_fire(); probe("manual-fire"); break;
      case 13: d->all = !d->all; if (d->all) d->ev->condition_all(); else d->ev->condition_any(); break;
    }
    bool bv = pickf(2, "%sb", lb); int bi = pickf(3, "%sx", lb); bval[bi] = bv; if (bvar[bi]) *bvar[bi] = bv; cd_settle(n, c == PASS);
}
int make_cd(Obj* o) {
    int n = 1 + pick("ncd", 4); for (int k = 0; k < 3; k++) { REF2* r = ref_attributes(fmt("dst.v.ba[%d]", k).c_str()); bvar[k] = r ? (bool*)r->address : nullptr; if (bvar[k]) *bvar[k] = false; }
    for (int q = 0; q < n; q++) {
        std::string l = fmt("cd%d.", q); const char* lb = l.c_str(); Cd* d = new Cd; d->id = q; d->nc = 1 + pickf(3, "%snc", lb); d->na = 1 + pickf(3, "%sna", lb); d->all = pickf(2, "%sall", lb); C.push_back(d);
        static const int D[] = {4, 1, 2, 5, 10, 20, 7}; double s = D[pickf(7, "%scy", lb)] * 0.05; d->cyc = llround(s * TPS); d->nxt = 0;
        for (int i = 0; i < d->nc; i++) d->c[i].kind = pickf(4, "%sck%d", lb, i); for (int i = 0; i < d->na; i++) d->a[i].kind = pickf(5, "%sak%d", lb, i);
    } return n;
}
void add_cd(Obj* o) {
    for (Cd* d : C) { std::string l = fmt("cd%d.", d->id); const char* lb = l.c_str(); d->ev = (Trick::IPPythonEvent*)TMM_declare_var_s(fmt("Trick::IPPythonEvent cdev%d[1]", d->id).c_str()); d->ev->set_name(fmt("cdev%d", d->id)); d->ev->set_cycle((double)d->cyc / TPS); if (d->all) d->ev->condition_all();
        for (int i = 0; i < d->nc; i++) { std::string jn = fmt("evo.cj%d_%d", d->id, i); switch (d->c[i].kind) { case 0: d->ev->condition_job(i, jn); break; case 1: d->ev->condition_var(i, fmt("dst.v.ba[%d]", i % 3)); break; case 2: d->ev->condition(i, fmt("dst.v.ba[%d] == True", i % 3)); break; default: d->ev->condition(i, fmt("trick.dst_call(61,%d,0) == 1", d->id * 10 + i)); } if (pickf(4, "%sh%d", lb, i) == 3) { d->c[i].hold = true; d->ev->condition_hold_on(i); } if (pickf(5, "%sen%d", lb, i) == 4) { d->c[i].en = false; d->ev->condition_disable(i); } }
        for (int i = 0; i < d->na; i++) { switch (d->a[i].kind) { case 0: d->ev->action_job(i, fmt("evo.aj%d_%d", d->id, i)); break; case 1: d->ev->action(i, fmt("trick.dst_call(62,%d,0)", d->id * 10 + i)); break; case 2: d->ev->action(i, fmt("trick.dst_call(62,%d,0)\ntrick.activate_event('cdev%d')", d->id * 10 + i, d->id)); break; case 3: d->ev->action_job_off(i, "evo.xj"); break; default: d->ev->action_job_on(i, "evo.xj"); } if (pickf(6, "%saen%d", lb, i) == 5) { d->a[i].en = false; d->ev->action_disable(i); } }
        d->act = pickf(4, "%sact", lb) < 3; if (d->act) d->ev->activate(); event_manager_add_event(d->ev); }
}
// ---- clients
void client_body(int k, int first, int n) {
    std::string l = fmt("cl%d.", k); const char* lb = l.c_str(); usleep(pickf(100, "%ss", lb)); int m = 2 + pickf(14, "%sm", lb);
    for (int i = 0; i < m && !violated("P01") && !sim_over; i++) {
        Ev* e = E[first + pickf(n, "%sw%d", lb, i)]; if (!e->c_in) { if (e->once) { if (e->c_from0 >= 0) continue; e->nxt = tics() + pickf(60, "%st%d", lb, i) * base; e->nxt -= e->nxt % base; e->set_next_tics(e->nxt); } e->c_from0 = tics(); e->c_from1 = -1; e->c_rem0 = e->c_rem1 = -1; e->c_last = -1; e->c_in = true; event_manager_add_event(e); e->c_from1 = tics(); probe("client-add"); }
        else if (!e->once) { e->c_rem0 = tics(); event_manager_remove_event(e); e->c_rem1 = tics(); e->c_in = false; note_step(); if (e->c_last < 0 ? (e->c_from1 >= 0 && e->c_rem0 > tof_hi(e->c_from1)) : e->c_rem0 > e->c_last + e->cyc) bad("an active cyclic event was not evaluated at its time", "%s last ran at %lld, was removed at %lld", e->show().c_str(), e->c_last, e->c_rem0); probe("client-remove"); }
        usleep(pickf(60, "%su%d", lb, i)); }
}
std::vector<std::thread> clients;
void ops(const char* where, int q, Ctx c) { int n = pickf(c == PASS ? 3 : 4, "%s%dn", where, q); for (int i = 0; i < n && !violated("P01"); i++) { std::string l = fmt("%s%d.%d.", where, q, i); if ((feat & F_COND) && pickf(3, "%sc", l.c_str())) { cd_op(l, c); continue; } if (E.size()) op(rand_op(l), E[pickf(E.size(), "%sw", l.c_str())], pickf(10, "%sa", l.c_str()), c, nullptr); } }
std::string setup() {
    feat = opti("feat", 0); static const ll TP[] = {1000000, 1000, 20000, 100}; TPS = (feat & F_TIC) ? TP[pick("tps", 4)] : 1000000; static const double SF[] = {1, 0.5, 0.2, 2}; double sfs = SF[pick("sf", 4)]; sf = llround(sfs * TPS); base = TPS / 20; Tend = (4 + pick("nfr", 8)) * sf; Tend = std::min(Tend, 12 * TPS / (sf > TPS ? 1 : 1)); exec_set_software_frame(sfs); machine_faults(1); Obj* o = new Obj;
    static const int CY[] = {5, 1, 2, 4, 10, 20, 3, 30}; int nt = (feat & F_INST) ? 1 + pick("nt", 4) : 0; T.reserve(8); for (int i = 0; i < nt; i++) { T.push_back({i, fmt("evo.tg%d", i), CY[pickf(8, "tg%dc", i)] * base}); Target* t = &T[i]; o->add(0, CLASSES[pickf(6, "tg%dcl", i)], (double)t->cyc / TPS, fmt("tg%d", i).c_str(), 1 + pickf(100, "tg%dph", i), 0, 1e37, [t](Trick::JobData*) { return target_body(t); }); }
    int ne = 0; auto mk = [&](bool once, bool model, unsigned th) { Ev* e = new Ev(ne++, 1.0); e->once = once; e->model_only = model; e->set_thread(th); E.push_back(e); std::string l = fmt("e%d.", e->id); const char* lb = l.c_str(); if (once) { e->set_cycle(0); e->sec = 0; } else { e->sec = CY[pickf(8, "%scy", lb)] * 0.05; e->cyc = llround(e->sec * TPS); } if (model || pickf(6, "%sac", lb) < 5) { e->act = true; e->activate(); } return e; };
    int nth = (feat & F_CHILD) ? 2 : 1; if (feat & F_CYC) for (int i = 0, n = 2 + pick("ncy", 5); i < n; i++) mk(false, false, pickf(nth, "e%dth", i)); if (feat & F_READ) for (int i = 0, n = 2 + pick("nrd", 5); i < n; i++) mk(true, false, pickf(nth, "r%dth", i)); if (feat & F_READP) for (int i = 0, n = 2 + pick("nrp", 6); i < n; i++) mk(true, true, 0); if (feat & F_INST) for (int i = 0, n = 2 + pick("nin", 5); i < n; i++) mk(false, false, 0);
    if (feat & F_SELF) for (Ev* e : E) if (!e->model_only) for (int i = 0, n = pickf(3, "e%dns", e->id); i < n; i++) { std::string l = fmt("e%ds%d.", e->id, i); e->script[1 + pickf(6, "%sr", l.c_str())] = rand_op(l) * 10000 + (pickf(2, "%sme", l.c_str()) ? 99 : pickf(E.size(), "%sw", l.c_str())) * 100 + pickf(10, "%sa", l.c_str()); }
    int c0 = ne, ncl = 0, per = 3; if (feat & F_CLIENT) { ncl = 1 + pick("ncl", 2); for (int i = 0; i < ncl * per; i++) { Ev* e = mk(i % per == 2, false, 0); e->client = true; e->act = true; e->activate(); e->set_cycle(e->sec); } }
    for (Ev* e : E) if (!e->once && !(feat & F_TIC)) e->set_cycle(e->sec);
    std::string py; on_call(50, [](int k, int) { return E[k]->process(tics()); });
    on_call(51, [o, c0](int part, int) { if (part == 2) { if (feat & F_COND) add_cd(o); return 0; } for (Ev* e : E) if (!e->client && (e->id % 2 == part || part == 3)) { if (!e->once) e->set_cycle(e->sec); int h = pickf(5, "i%d", e->id); if (h == 4) continue; bool inst = (feat & F_INST) && !e->once && !e->get_thread() && h >= 2; op(inst ? 5 + h % 2 : 0, e, pickf(10, "i%da", e->id), INIT, nullptr); } return 0; });
    if (feat & F_CHILD) py += "trick_em.create_thread_process_event()\n"; if (feat & F_TIC) { py += "trick.dst_call(51,0,0)\n" + fmt("trick.exec_set_time_tic_value(%lld)\n", TPS) + "trick.dst_call(51,1,0)\n"; } else py += "trick.dst_call(51,3,0)\n";
    if (feat & F_COND) { make_cd(o); for (Cd* d : C) { for (int i = 0; i < d->nc; i++) if (d->c[i].kind == 0) o->add(0, "malfunction", 1, fmt("cj%d_%d", d->id, i).c_str(), 60000, 0, 1e37, [d, i](Trick::JobData*) { return cval(d->id, i, tics()) ? 1 : 0; }); for (int i = 0; i < d->na; i++) if (d->a[i].kind == 0) o->add(0, "malfunction", 1, fmt("aj%d_%d", d->id, i).c_str(), 60000, 0, 1e37, [d, i](Trick::JobData*) { got_a.push_back({d->id * 10 + i, tics()}); return 0; }); }
        o->add(0, "scheduled", 0.05, "xj", 500, 0, 1e37, [](Trick::JobData*) { cd_settle(tics(), true); ll n = tics(); if (x_off && !x_unk) bad("a job ran that an action turned off", "%lld", n); else probe("xj"); if (!x_was && n != (x_last < 0 ? 0 : x_last + base)) bad("a job that no action turned off did not run", "before %lld, last time %lld", n, x_last); x_last = n; x_was = x_off; return 0; });
        o->add(0, "logging", 0.05, "xk", 60001, 0, 1e37, [](Trick::JobData*) { cd_settle(tics(), true); ll n = tics(); if (!violated("P01") && !x_off && !x_unk && x_t != n && x_last != n) bad("a job did not run after an action turned it on", "turned on at %lld, last ran at %lld", x_t, x_last); return 0; });
        on_call(61, [](int k, int) { return cval(k / 10, k % 10, tics()) ? 1 : 0; }); on_call(62, [](int k, int) { got_a.push_back({k, tics()}); return 0; }); py += "trick.dst_call(51,2,0)\n"; }
    static int opn; opn = 0; if (feat & F_OPS) o->add(0, CLASSES[pick("opcl", 6)], CY[pick("opcy", 8)] * 0.05, "opj", 1 + pick("opph", 300), 0, 1e37, [](Trick::JobData*) { after_due(); ops("p", opn++, PASS); if ((feat & F_FRZ) && pickf(30, "frz%d", opn) == 29) exec_freeze(); return 0; });
    static int tofn, frn; tofn = frn = 0; o->add(0, "top_of_frame", 1, "tof1", 1, 0, 1e37, [](Trick::JobData*) { if (feat & F_OPS) ops("t", tofn, TOF); tofn++; return 0; });
    o->add(0, "top_of_frame", 1, "tof2", 65535, 0, 1e37, [](Trick::JobData*) { ll n = tics(); for (Ev* e : E) if (e->pend) { e->pend = false; if (!e->once) { e->nxt = n; e->in = true; } else if (e->nxt < n) probe("too-late"); else e->in = true; } return 0; });
    if (feat & F_FRZ) o->add(0, "freeze", 1, "fr", 1, 0, 1e37, [](Trick::JobData*) { frn++; if (feat & F_OPS) ops("f", frn, FREEZE); if (pickf(3, "fe%d", frn) == 0) exec_run(); probe("freeze"); return 0; });
    if (feat & F_CHILD) { o->add(1, "scheduled", CY[pick("chc", 8)] * 0.05, "ch", 100, 0, 1e37, [](Trick::JobData*) { burn(2000); return 0; }); }
    if (ncl) { o->add(0, "initialization", 1, "cli", 65535, 0, 1e37, [c0, per, ncl](Trick::JobData*) { for (int i = 0; i < ncl; i++) clients.emplace_back(client_body, i, c0 + i * per, per); return 0; }); o->add(0, "scheduled", 0.05, "slow", 900, 0, 1e37, [](Trick::JobData*) { usleep(20); return 0; }); }
    o->add(0, "shutdown", 1, "sd", 1, 0, 1e37, [](Trick::JobData*) { for (auto& t : clients) t.join(); clients.clear(); settle(Tend, true, 0); settle(Tend, true, 1); after_due(); cd_settle(Tend, true); sim_over = true;
        for (Ev* e : E) if (e->client && !violated("P01")) { note_step(); if (e->once) { if (e->c_from1 >= 0 && e->nxt >= tof_hi(e->c_from1) && e->nxt <= Tend && !e->c_runs) bad("a read was not run at its time", "%s due at %lld, added at %lld", e->show().c_str(), e->nxt, e->c_from1); } else if (e->c_in && (e->c_last < 0 ? tof_hi(e->c_from1) <= Tend : e->c_last + e->cyc <= Tend)) bad("an active cyclic event was not evaluated at its time", "%s last ran at %lld, added at %lld", e->show().c_str(), e->c_last, e->c_from1); } return 0; });
    exec_add_sim_object(o, "evo"); return py + fmt("trick.stop(%.9g)\n", (double)Tend / TPS);
}
void fin(int why, int code) { probe(why_name(why)); if (why == W_DEADLOCK || why == W_LIMIT) violation("P01", "the simulation hangs", "%s", task_dump().substr(0, 300).c_str()); if (why == W_EXIT && !sim_over && !violated("P01")) violation("P01", "the simulation ends early", "code %d at %lld of %lld", code, tics(), Tend); }
Reg r({"ev", setup, fin, 60 * SEC, 30000000, "P01"});
}
