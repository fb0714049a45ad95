// Run-time control of the schedule (E06): jobs, objects, tags and threads are turned on and off, re-timed, added and removed
// from every place a user can do it from - jobs in the middle of a time step, frame jobs, freeze jobs, reads, jobs of other
// threads - and the history of every job is compared with the one its own commands define.
#include "common.hh"
using namespace w;
namespace {
// where something happens within the simulation: time, phase of the step, then the position in the phase's queue
struct Key { ll t; int ph, a, b, c, d; bool operator<(const Key& o) const { return std::make_tuple(t, ph, a, b, c, d) < std::make_tuple(o.t, o.ph, o.a, o.b, o.c, o.d); } };
enum { P_EOF = 0, P_FREEZE = 1, P_TOF = 2, P_READ = 3, P_FIRE = 4, P_STEP = 5 };
struct JobCfg { int id, obj, thread, phase, rank, ord; std::string cls, tag; ll start, cyc, stop; Trick::JobData* jd; std::string name; bool host; u64 work; std::vector<ll> runs; std::vector<u64> seqs, ends; std::vector<int> dep;
    bool frame() const { return cls == "top_of_frame" || cls == "end_of_frame"; }
    Key key(ll t) const; };
struct Act { int kind, target; std::string tag; ll a; int host; ll n; ll t; Key at; bool done; u64 seq; };   // host -1: read at t, else job id, at its n-th call
std::vector<JobCfg> J; std::vector<Act> A; std::vector<Obj*> O; std::vector<int> opos; std::vector<int> calls; std::vector<bool> oadd, ogone, omain;
std::vector<std::pair<Key, int>> mainseq;
ll sf, Tend, U; int nthr, amft; ll amfc; std::vector<bool> thr_off, thr_ctl; int passes;
const ll NEVER = LLONG_MAX;
Key JobCfg::key(ll t) const { if (cls == "end_of_frame") return {t, P_EOF, thread, phase, opos[obj], ord}; if (cls == "freeze") return {t, P_FREEZE, 0, phase, opos[obj], ord};
    if (cls == "top_of_frame") return {t, P_TOF, thread, phase, opos[obj], ord}; return {t, P_STEP, rank, phase, opos[obj], ord}; }

static const char* KN[] = {"job-onoff", "job-cycle", "object-onoff", "object-jobs-onoff", "tag-onoff", "tag-cycle", "thread-onoff", "object-add", "object-remove"};
double sec(ll t) { return (double)t / 1e6; }
int next_pos;
void join(int o) { opos[o] = next_pos++; exec_add_sim_object(O[o], fmt("o%d", o).c_str()); for (auto& j : J) if (j.obj == o) j.name = j.jd->name; }
std::string act_name(const Act& x) { return fmt("%s %s%s arg %lld", KN[x.kind], x.kind <= 1 ? fmt("job %d", x.target).c_str() : x.kind == 6 ? fmt("thread %d", x.target).c_str() : x.kind == 4 || x.kind == 5 ? "tag " : fmt("o%d", x.target).c_str(), x.tag.c_str(), x.a); }
void perform(int i, Key k) {
    Act& x = A[i]; if (x.done) return;
    int o = x.kind <= 1 ? J[x.target].obj : x.kind == 2 || x.kind == 3 || x.kind >= 7 ? x.target : -1;
    if (o >= 0 && (ogone[o] || (opos[o] < 0) != (x.kind == 7))) return;                     // not there (yet), or there already
    x.done = true; x.at = k; x.seq = seqno(); probe(fmt("%s-from-%s", KN[x.kind], k.ph == P_EOF ? "end-of-frame" : k.ph == P_FREEZE ? "freeze" : k.ph == P_TOF ? "top-of-frame" : k.ph == P_READ ? "read" : J[x.host].thread ? "child-job" : "job").c_str());
    logf("action %d at %lld phase %d: %s", i, k.t, k.ph, act_name(x).c_str()); step("action", i);
    switch (x.kind) {
    case 0: exec_set_job_onoff(J[x.target].name.c_str(), 1, x.a); break;
    case 1: exec_set_job_cycle(J[x.target].name.c_str(), 1, sec(x.a)); break;
    case 2: exec_set_sim_object_onoff(fmt("o%d", x.target).c_str(), x.a); break;
    case 3: exec_get_exec_cpp()->set_sim_object_jobs_onoff(fmt("o%d", x.target), x.a); break;
    case 4: exec_set_job_onoff(x.tag.c_str(), 1, x.a); break;
    case 5: exec_set_job_cycle(x.tag.c_str(), 1, sec(x.a)); break;
    case 6: exec_set_thread_enabled(x.target, x.a); break;
    case 7: join(x.target); break;
    case 8: ogone[x.target] = true; exec_remove_sim_object(O[x.target]); break;
    }
}
int body(int id) {
    JobCfg& j = J[id]; ll t = j.thread && self() != 0 ? my_tics() : tics(); int n = calls[id]++;
    logf("job %s at %lld", j.name.c_str(), t); step(j.name.c_str(), t); j.runs.push_back(t); j.seqs.push_back(seqno()); size_t me = j.ends.size(); j.ends.push_back(0);
    if (self() == 0) mainseq.push_back({j.key(t), id});
    if (j.work) burn(j.work);
    if (j.host) for (size_t i = 0; i < A.size(); i++) if (A[i].host == id && A[i].n == n) perform(i, j.key(t));
    preempt_point(); j.ends[me] = seqno(); return 0;
}
int addjob(int obj, int thread, const std::string& cls, int phase, ll start, ll cyc, ll stop, bool host, const std::string& tag = "") {
    JobCfg j; j.id = J.size(); j.obj = obj; j.thread = thread; j.phase = phase; j.cls = cls; j.rank = class_rank(cls); j.ord = O[obj]->n; j.start = start; j.cyc = cyc; j.stop = stop; j.host = host; j.work = 0; j.tag = tag;
    int id = j.id; j.jd = O[obj]->add(thread, cls.c_str(), cyc > 0 ? sec(cyc) : 1.0, fmt("j%d", id).c_str(), phase, sec(start), stop >= 0 ? sec(stop) : 1e37, [id](Trick::JobData*) { return body(id); });
    if (tag.size()) j.jd->add_tag(tag); J.push_back(j); calls.push_back(0); return id;
}
std::string setup() {
    std::string py; int feat = opti("feat", 0);      // 1 threads 2 mid-step 4 freeze hosts 8 machine faults 16 AMF thread
    J.clear(); J.reserve(400); A.clear(); A.reserve(200); U = 5000; static const int cyc[] = {2, 1, 3, 4, 5, 10, 7, 6, 20};
    static const int frames[] = {10, 4, 20, 7, 1}; sf = frames[pick("frame", 5)] * U; exec_set_software_frame(sec(sf));
    nthr = feat & 1 ? 1 + pick("threads", 3) : 0; thr_ctl.assign(nthr + 1, false); thr_off.assign(nthr + 1, false);
    int no = 2 + pick("objs", 3), nadd = pick("adds", 3), total = no + nadd; int hostobj = total; bool hostfirst = pick("hostpos", 3) == 0; int hostafter = pick("hostafter", no + 1);
    for (int i = 0; i <= total; i++) O.push_back(new Obj); opos.assign(total + 1, -1); oadd.assign(total + 1, false); omain.assign(total + 1, true); ogone.assign(total + 1, false);
    static const int ph[] = {60000, 60000, 1, 60001, 65535}; static const char* cl[] = {"scheduled", "scheduled", "scheduled", "environment", "effector", "logging", "sensor", "random"};
    static const char* tags[] = {"tmain", "tany", ""};
    for (int o = 0; o < total; o++) {
        bool mixed = nthr && pickf(2, "o%d.mixed", o); oadd[o] = o >= no;
        for (int k = 0, n = 1 + pickf(4, "o%d.jobs", o); k < n; k++) {
            int th = mixed ? pickf(nthr + 1, "o%d.%d.thr", o, k) : 0; if (th) omain[o] = false;
            std::string tag = tags[pickf(3, "o%d.%d.tag", o, k)]; if (th && tag == "tmain") tag = ""; ll st = pickf(4, "o%d.%d.off", o, k) == 3 ? (ll)(1 + pickf(15, "o%d.%d.start", o, k)) * U : 0; ll c = cyc[pickf(9, "o%d.%d.cyc", o, k)] * U, sp = -1;
            if (o < no && pickf(5, "o%d.%d.has", o, k) == 4) sp = st + (ll)pickf(40, "o%d.%d.stop", o, k) * U; if (st || oadd[o]) tag = "";
            int id = addjob(o, th, cl[pickf(8, "o%d.%d.cls", o, k)], ph[pickf(5, "o%d.%d.ph", o, k)], st, c, sp, false, tag); J[id].work = pickf(4, "o%d.%d.wk", o, k) ? 0 : (u64)pickf(2000, "o%d.%d.work", o, k) * US;
        }
        if (pickf(3, "o%d.tof", o) == 0) addjob(o, mixed ? pickf(nthr + 1, "o%d.toft", o) : 0, "top_of_frame", ph[pickf(5, "o%d.tofp", o)], 0, 0, -1, false);
        if (pickf(3, "o%d.eof", o) == 0) addjob(o, mixed ? pickf(nthr + 1, "o%d.eoft", o) : 0, "end_of_frame", ph[pickf(5, "o%d.eofp", o)], 0, 0, -1, false);
        for (auto& j : J) if (j.obj == o && j.thread) omain[o] = false;
    }
    // the jobs that give the commands live in an object of their own
    std::vector<int> hosts; hosts.push_back(addjob(hostobj, 0, "top_of_frame", ph[pick("h.tofp", 5)], 0, 0, -1, true)); hosts.push_back(addjob(hostobj, 0, "end_of_frame", ph[pick("h.eofp", 5)], 0, 0, -1, true));
    if (feat & 2) for (int i = 0, n = 1 + pick("h.n", 3); i < n; i++) hosts.push_back(addjob(hostobj, 0, cl[pickf(8, "h%d.cls", i)], ph[pickf(5, "h%d.ph", i)], 0, cyc[pickf(7, "h%d.cyc", i)] * U, -1, true));
    if ((feat & 3) == 3) for (int t = 1; t <= nthr; t++) if (pickf(2, "hc%d", t)) hosts.push_back(addjob(hostobj, t, cl[pickf(8, "hc%d.cls", t)], ph[pickf(5, "hc%d.ph", t)], 0, cyc[pickf(7, "hc%d.cyc", t)] * U, -1, true));
    bool childhosts = false; for (int h : hosts) if (J[h].thread) childhosts = true;
    for (int t = 1; t <= nthr; t++) { bool used = false; for (auto& j : J) if (j.thread == t && !oadd[j.obj]) used = true; if (!used) addjob(hostobj, t, "scheduled", 60000, 0, 4 * U, -1, false); }   // (threads are made by their jobs)
    if (feat & 16) { amft = nthr + 1; amfc = cyc[pick("amf.c", 9)] * 2 * U + (ll)pick("amf.odd", 3) * U / 5; for (int i = 0, n = 1 + pick("amf.n", 3); i < n; i++) { int id = addjob(hostobj, amft, cl[pickf(8, "amf%d.cls", i)], ph[pickf(5, "amf%d.ph", i)], pickf(3, "amf%d.off", i) ? 0 : (ll)pickf(15, "amf%d.start", i) * U, cyc[pickf(9, "amf%d.cyc", i)] * U, -1, false); J[id].work = (u64)pickf(9000, "amf%d.work", i) * US; } thr_off.push_back(false); thr_ctl.push_back(true); }
    if (feat & 4) { hosts.push_back(addjob(hostobj, 0, "freeze", 100, 0, 0, -1, true)); 
        O[hostobj]->add(0, "freeze", 1, "fz", 65535, 0, 1e37, [](Trick::JobData*) { if (++passes >= 2) { passes = 0; exec_run(); } return 0; }); }
    Tend = (60 + (ll)pick("len", 140)) * U;
    py += fmt("trick.stop(%.9g)\n", sec(Tend));
    if (feat & 4) { exec_set_enable_freeze(1); exec_set_freeze_frame(0.02); for (int i = 0, n = 1 + pick("fz.n", 4); i < n; i++) py += fmt("trick.freeze(%.9g)\n", sec((1 + (ll)pickf(Tend / U, "fz%d.t", i)) * U)); }
    if (hostfirst) join(hostobj); for (int o = 0; o < no; o++) { if (!hostfirst && hostafter == o) join(hostobj); join(o); } if (opos[hostobj] < 0) join(hostobj);
    for (int i = 1; i <= nthr && i < (int)exec_get_num_threads(); i++) { exec_set_thread_process_type(i, Trick::PROCESS_TYPE_SCHEDULED); static const Trick::ThreadTriggerType tt[] = {Trick::TT_MUTEX, Trick::TT_FUTEX, Trick::TT_EVENTFD, Trick::TT_FLAG}; exec_get_thread(i)->trigger_container.setThreadTrigger(tt[pickf(4, "t%d.trig", i)]); }
    if (amft) { exec_set_thread_process_type(amft, Trick::PROCESS_TYPE_AMF_CHILD); exec_set_thread_amf_cycle_time(amft, sec(amfc)); }
    for (int t = 1; t <= nthr; t++) thr_ctl[t] = pickf(2, "t%d.ctl", t);
    for (int t = 1; t <= nthr; t++) if (thr_ctl[t] && pickf(6, "t%d.off", t) == 5) { exec_set_thread_enabled(t, 0); thr_off[t] = true; probe("thread-off-from-the-start"); }
    // dependencies on jobs of other threads that come before in the order of the schedule
    if (nthr && chance("deps", 50)) for (auto& j : J) if (!j.frame() && j.cls != "freeze" && !oadd[j.obj] && j.thread <= nthr && pickf(3, "j%d.dep", j.id) == 2)
        for (auto& d : J) if (!d.frame() && d.cls != "freeze" && !oadd[d.obj] && d.thread <= nthr && d.thread != j.thread && d.key(0) < j.key(0) && pickf(3, "j%d.dep%d", j.id, d.id) == 2 && exec_add_depends_on_job(j.name.c_str(), 1, d.name.c_str(), 1) == 0) { j.dep.push_back(d.id); probe("dependency"); }
    // the commands
    int focus = pick("focus", 2) ? (int)pick("focus.o", total) : -1;     // most commands go to one object
    for (int i = 0, n = 1 + pick("acts", focus >= 0 ? 24 : 12); i < n; i++) {
        Act x; x.done = false; x.host = -1; x.n = -1; x.t = -1; x.a = 0; x.target = -1; x.seq = 0;
        int h = pickf(hosts.size() + 1, "a%d.host", i); int kind = pickf(9, "a%d.kind", i); bool mid = false, child = false; int cth = 0;
        if (h == (int)hosts.size()) { x.t = (1 + (ll)pickf(Tend / U, "a%d.t", i)) * U; }
        else { x.host = hosts[h]; mid = J[x.host].cls != "freeze" && !J[x.host].frame(); cth = J[x.host].thread; child = cth != 0; x.n = pickf(mid ? 30 : J[x.host].cls == "freeze" ? 6 : 12, "a%d.n", i); }
        if (child && kind > 1) kind = pickf(2, "a%d.ck", i);
        if (mid && childhosts && kind >= 7) kind = 0;
        if (kind == 6 && !nthr && !amft) kind = 0; if (amft && kind >= 3 && !child && chance(fmt("a%d.amf", i).c_str(), 60)) kind = 6;
        x.kind = kind; std::vector<int> c;
        if (kind <= 1) for (auto& j : J) if (!(j.obj == hostobj) && (!mid || (child ? j.thread == cth && !j.frame() : j.thread == 0)) && (kind == 0 || (!j.frame() && j.start == 0 && !oadd[j.obj] && !thr_ctl[j.thread]))) c.push_back(j.id);
        if (kind == 2 || kind == 3) for (int o = 0; o < total; o++) if (!mid || omain[o]) c.push_back(o);
        if (kind == 4) { x.tag = mid ? "tmain" : pickf(2, "a%d.tg", i) ? "tmain" : "tany"; c.push_back(0); }
        if (kind == 5) { x.tag = mid ? "tmain" : pickf(2, "a%d.tg", i) ? "tmain" : "tany"; bool ok = true; for (auto& j : J) if (j.tag == x.tag && thr_ctl[j.thread]) ok = false; if (ok) c.push_back(0); }
        if (kind == 6) for (int t = 1; t <= nthr + (amft ? 1 : 0); t++) if (thr_ctl[t]) c.push_back(t);
        if (kind == 7) for (int o = no; o < total; o++) if (!mid || omain[o]) c.push_back(o);
        if (kind == 8) for (int o = 0; o < total; o++) if (!mid || omain[o]) c.push_back(o);
        if (focus >= 0 && kind != 4 && kind != 5 && kind != 6) { std::vector<int> c2; for (int k : c) if ((kind <= 1 ? J[k].obj : k) == focus) c2.push_back(k); if (kind >= 7 && !chance(fmt("a%d.fk", i).c_str(), 20)) continue; if (!c2.empty()) c = c2; }
        if (c.empty()) continue;
        x.target = c[pickf(c.size(), "a%d.target", i)]; if (kind == 0 || (kind >= 2 && kind <= 4) || kind == 6) x.a = pickf(2, "a%d.on", i); if (kind == 1 || kind == 5) x.a = cyc[pickf(9, "a%d.cyc", i)] * U;
        int id = A.size(); A.push_back(x);
        if (x.host < 0) py += fmt("trick.add_read(%.9g, \"trick.dst_call(1,%d,0)\")\n", sec(x.t), id);
    }
    on_call(1, [](int a, int) { perform(a, Key{tics(), P_READ, 0, 0, 0, 0}); return 0; });
    if (feat & 8) { machine_faults(2); for (int i = 0, n = pick("stall.n", 4); i < n; i++) at(now() + (u64)pickf(200, "stall%d.at", i) * MS / 4, [i] { if (ntasks() > 1) { stall_task(pickf(ntasks(), "stall%d.who", i), (u64)pickf(80, "stall%d.len", i) * MS); probe("stall"); } }); }
    for (auto& j : J) logf("config j%d o%d thread %d class %s phase %d start %lld cycle %lld stop %lld tag %s%s", j.id, j.obj, j.thread, j.cls.c_str(), j.phase, j.start, j.cyc, j.stop, j.tag.c_str(), j.host ? " host" : "");
    for (size_t i = 0; i < A.size(); i++) logf("config action %zu host %d call %lld t %lld: %s", i, A[i].host, A[i].n, A[i].t, act_name(A[i]).c_str());
    logf("config frame %lld end %lld", sf, Tend);
    return py;
}
bool affects(const Act& x, const JobCfg& j) {
    if (!x.done) return false;
    switch (x.kind) { case 0: case 1: return x.target == j.id; case 2: case 3: case 7: case 8: return x.target == j.obj; case 4: return j.tag == x.tag; case 5: return j.tag == x.tag; case 6: return j.thread == x.target && !j.frame(); } return false;
}
void finish(int why, int code) {
    if (why == W_DEADLOCK || why == W_LIMIT) { violation("", why == W_DEADLOCK ? "the simulation stops for ever" : "the simulation does not reach its end", "%s at sim time %lld of %lld; tasks: %s", why_name(why), tics(), Tend, task_dump().c_str()); return; }
    if (why != W_EXIT) return;
    note_step(); if (code != 0) violation("E06", "wrong exit status", "main returned %d", code);
    // the main thread's jobs in the order of the schedule
    for (size_t i = 1; i < mainseq.size(); i++) { note_step(); auto& a = mainseq[i - 1]; auto& b = mainseq[i]; if (J[a.second].cls == "freeze" && J[b.second].cls == "freeze") continue;
        if (!(a.first < b.first)) { violation("E06", a.second == b.second ? "a job ran twice at one time" : "jobs ran out of order", "%s at %lld after %s at %lld", J[b.second].name.c_str(), b.first.t, J[a.second].name.c_str(), a.first.t); break; } }
    for (int th = 1; th <= nthr + (amft ? 1 : 0); th++) { std::vector<std::tuple<u64, Key, int>> q; for (auto& j : J) if (j.thread == th && !j.frame()) for (size_t k = 0; k < j.runs.size(); k++) q.push_back({j.seqs[k], j.key(j.runs[k]), j.id}); std::sort(q.begin(), q.end(), [](auto& a, auto& b) { return std::get<0>(a) < std::get<0>(b); });
        for (size_t i = 1; i < q.size(); i++) { note_step(); if (!(std::get<1>(q[i - 1]) < std::get<1>(q[i]))) { violation("E06", "jobs of a thread ran out of order", "thread %d: %s at %lld after %s at %lld", th, J[std::get<2>(q[i])].name.c_str(), std::get<1>(q[i]).t, J[std::get<2>(q[i - 1])].name.c_str(), std::get<1>(q[i - 1]).t); break; } } }
    if (amft) for (auto& j : J) if (j.thread == amft) for (size_t i = 0; i < j.runs.size(); i++) { ll e = (j.runs[i] / amfc + 1) * amfc; for (auto& m : J) if (!m.thread && !m.frame() && m.cls != "freeze") { auto k = std::lower_bound(m.runs.begin(), m.runs.end(), e); if (k != m.runs.end()) { note_step(); if (!j.ends[i] || m.seqs[k - m.runs.begin()] < j.ends[i]) { violation("E06", "the simulation passed an AMF synchronisation point before the thread's work was done", "%s at %lld still running when %s ran at %lld", j.name.c_str(), j.runs[i], m.name.c_str(), *k); goto amfdone; } } } }
    amfdone:
    for (auto& j : J) for (int d : j.dep) { size_t k = 0; auto& p = J[d]; for (size_t i = 0; i < j.runs.size(); i++) { while (k < p.runs.size() && p.runs[k] < j.runs[i]) k++; if (k == p.runs.size()) break; if (p.runs[k] == j.runs[i]) { note_step(); probe("dependency-checked"); if (!p.ends[k] || p.ends[k] > j.seqs[i]) { violation("E06", "a job ran before the job it depends on", "%s at %lld began before %s ended", j.name.c_str(), j.runs[i], p.name.c_str()); break; } } } }
    for (auto& j : J) {
        if (j.cls == "freeze") continue;
        std::vector<const Act*> ev; for (auto& x : A) if (affects(x, j)) ev.push_back(&x);
        std::stable_sort(ev.begin(), ev.end(), [](const Act* a, const Act* b) { return a->at < b->at || (!(b->at < a->at) && a->seq < b->seq); });
        ll next = oadd[j.obj] ? NEVER : j.start, cyc = j.cyc, stop = j.stop < 0 ? NEVER : j.stop; bool dis = false, saved = false, sdis = false, here = !oadd[j.obj], gone = false; std::vector<ll> exp;
        if (stop < j.start) next = NEVER;
        if (j.frame()) { if (here) next = j.cls[0] == 't' ? 0 : sf; cyc = sf; }
        size_t i = 0;
        while (1) {
            Key slot = next == NEVER ? Key{NEVER, 0, 0, 0, 0, 0} : j.key(next); Key fire = next == NEVER ? slot : Key{amft && j.thread == amft ? next / amfc * amfc : next, P_FIRE, 0, 0, 0, 0};
            bool take = i < ev.size() && (ev[i]->at < slot || next > Tend);
            if (!take && next > Tend) break;
            if (take) { const Act* x = ev[i++]; ll t = x->at.t;
                switch (x->kind) {
                case 0: case 4: if (here && !gone) dis = !x->a; break;
                case 1: case 5: if (here && !gone) { cyc = x->a; if (next > t) next = t - t % cyc + cyc; else next = t; if (next > stop) next = NEVER; } break;
                case 2: if (here && !gone) { if (!x->a) { if (!saved) sdis = dis, saved = true; dis = true; } else { dis = saved ? sdis : false; saved = false; } } break;
                case 3: if (here && !gone) dis = !x->a; break;
                case 7: if (!here) { here = true; if (j.frame()) { next = j.cls[0] == 't' ? (t + sf - 1) / sf * sf : (t + sf - 1) / sf * sf; if (next == 0 && j.cls[0] == 'e') next = sf; if (j.key(next) < x->at) next += sf; } else { next = t + j.start; if (j.key(next) < x->at) next += cyc; if (next > stop) next = NEVER; } } break;
                case 8: gone = true; break;
                }
                continue;
            }
            // the job's turn.  Commands to its thread after the threads were started count from the next step on.
            bool on = true; if (j.thread && !j.frame()) { on = !thr_off[j.thread]; for (auto* x : ev) if (x->kind == 6 && x->at < fire) on = x->a; }
            if (here && !gone && !dis && on) exp.push_back(next);
            ll nx = next + cyc; next = nx > stop ? NEVER : nx;
        }
        if (amft && j.thread == amft) { probe("amf-job-checked"); while (exp.size() > j.runs.size() && exp.back() >= Tend / amfc * amfc) exp.pop_back(); while (exp.size() && exp.back() >= Tend / amfc * amfc && j.runs.size() < exp.size()) exp.pop_back(); if (j.runs.size() > exp.size() && j.runs.back() > Tend) { auto r2 = j.runs; while (r2.size() > exp.size() && r2.back() > Tend) r2.pop_back(); j.runs = r2; } }
        note_step(1 + exp.size());
        if (j.runs != exp) { size_t k = 0; while (k < j.runs.size() && k < exp.size() && j.runs[k] == exp[k]) k++;
            const char* c = k >= j.runs.size() ? "a job missed a scheduled call" : k >= exp.size() || j.runs[k] < exp[k] ? (k && j.runs[k] == j.runs[k - 1] ? "a job ran twice at one time" : "a job ran when it was not scheduled") : "a job missed a scheduled call";
            std::string h; for (auto* x : ev) h += fmt(" [%lld/%d %s]", x->at.t, x->at.ph, act_name(*x).c_str());
            violation("E06", c, "%s (thread %d, class %s, start %lld cycle %lld stop %lld) call %zu: at %lld, expected %lld; %zu calls, %zu expected; commands:%s", j.name.c_str(), j.thread, j.cls.c_str(), j.start, j.cyc, j.stop, k, k < j.runs.size() ? j.runs[k] : -1, k < exp.size() ? exp[k] : -1, j.runs.size(), exp.size(), h.c_str()); }
    }
}
static Reg r({"ctl", setup, finish, 400 * SEC, 150000000, "E03"});
}
