// Executive: generated job sets on generated threads; the history is compared with the schedule they define.
// E01 when jobs run, E02 in which order, E03 progress, E04 freeze, E05 end of the run, E06 run-time control of jobs.
#include "common.hh"
using namespace w;
namespace {
enum PT { SCHED = 0, ASYNC = 1, AMF = 2 };
struct ThreadCfg { int type; ll cyc; int trig; };
struct JobCfg {
    int id, thread, phase, obj; std::string cls; ll start, cyc, stop; bool disabled; std::vector<int> dep; u64 work; Trick::JobData* jd; std::string name;
    int rank; int ord;
    bool sched() const { return rank < 50; }
};
struct Rec { int job; ll t; u64 s0, s1; int task; int mode; };
struct Act { ll t; int kind, job; ll a; bool done; };   // run-time control
std::vector<ThreadCfg> T; std::vector<JobCfg> J; std::vector<Rec> H; std::vector<Obj*> O; std::vector<Act> A;
std::set<ll> frz_expect; bool frz_exact, frz_boundary; int frz_hold, frz_end; std::vector<std::pair<ll, u64>> frz_seen;
ll frz_ff, sf, Tend, unit_t, g_sec = 1000000; int term, term_ret, term_job, nthr, term_n; ll term_t; bool threw, child_threw; u64 threw_at; int init_throw; bool sig_used, ctl; u64 shut_seq; bool dyn_obj; ll dyn_add_t, dyn_del_t;
ll T0;   // simulation time at the start; every time below is relative to it
int frz_cycles; bool in_freeze; bool exit_asked; bool thr_off_used; std::map<int, std::vector<std::pair<ll, bool>>> thr_en;

int body(JobCfg& j) {
    Rec r; r.job = j.id; r.t = my_tics() - T0; r.s0 = seqno(); r.s1 = 0; r.task = self(); r.mode = exec_get_mode();
    size_t k = H.size(); H.push_back(r); step(j.name.c_str(), r.t);
    logf("job %s starts at %lld", j.name.c_str(), r.t);
    if (j.work) burn(j.work);
    preempt_point();
    if (term >= 2 && term <= 5 && term_job == j.id && !threw && (term_n-- <= 0)) {
        threw = true; threw_at = seqno(); H[k].s1 = seqno(); probe("terminated-from-job");
        if (term == 4) return term_ret;
        exec_terminate_with_return(term_ret, "dst", 1, "from a job");
    }
    if (term == 1 && term_job == j.id && !threw && (term_n-- <= 0)) { threw = true; threw_at = seqno(); term_t = r.t; exec_get_exec_cpp()->stop(); probe("stop-from-job"); }
    H[k].s1 = seqno();
    return 0;
}
JobCfg& addjob(int obj, int thread, const char* cls, int phase, ll start, ll cyc, ll stop) {
    JobCfg j; j.id = J.size(); j.thread = thread; j.phase = phase; j.obj = obj; j.cls = cls; j.start = start; j.cyc = cyc; j.stop = stop; j.disabled = false; j.work = 0; j.jd = nullptr; j.rank = class_rank(cls); j.ord = O[obj]->n;
    j.name = fmt("o%d.j%d", obj, j.id); 
    int id = j.id; J.push_back(j);
    auto sec = [](ll t) { return (double)t / (double)g_sec; };
    J[id].jd = O[obj]->add(thread, cls, cyc > 0 ? sec(cyc) : 1.0, fmt("j%d", id).c_str(), phase, sec(start), stop >= 0 ? sec(stop) : 1e37, [id](Trick::JobData*) { return body(J[id]); });
    return J[id];
}
ll ub(const char* label, std::vector<ll> v) { return v[pick(label, v.size())]; }

std::string setup() {
    std::string py; auto* ex = exec_get_exec_cpp();
    bool big = opti("big", 0); int feat = opti("feat", 0);     // 1 freeze 2 terminate 4 dynamic 8 faults
    T.clear(); J.clear(); H.clear(); J.reserve(400); O.reserve(40);   // (bodies keep references)
    static const int tv[] = {1000000, 1000000, 1000000, 1000, 10000, 100000}; int tpsv = tv[pick("tic", 6)];
    bool late = tpsv != 1000000 && pick("ticlate", 2);     // from the input file, when the jobs already exist
    g_sec = tpsv; if (tpsv != 1000000 && !late) exec_set_time_tic_value(tpsv);
    bool last = late && !(feat & 4) && pick("ticlast", 2);   // after every other command
    std::string ticcmd = late ? fmt("trick.exec_set_time_tic_value(%d)\n", tpsv) : ""; if (late) probe(last ? "late-tic-change-after-commands" : "late-tic-change"); if (!last) py += ticcmd;
    unit_t = tpsv / 200 ? tpsv / 200 : 1;                        // 5 ms
    T0 = 0; if (!(feat & 4) && chance("settime", 15)) { static const int st[] = {-2000, 60, -1, 20000, -15}; T0 = st[pick("settime.t", 5)] * unit_t; py += fmt("trick.exec_set_time(%.9g)\n", (double)T0 / tpsv); probe(T0 < 0 ? "starts-at-negative-time" : "starts-at-later-time"); }
    static const int frames[] = {20, 4, 10, 40, 1, 7, 200, 402}; sf = frames[pick("frame", 8)] * unit_t;
    exec_set_software_frame((double)sf / tpsv);
    nthr = pick("threads", big ? 5 : 4); T.assign(nthr + 1, ThreadCfg{SCHED, 0, 0});
    static const int cyc[] = {2, 1, 3, 4, 5, 10, 20, 7, 6, 50};
    for (int i = 1; i <= nthr; i++) {
        T[i].type = pickf(100, "t%d.type", i) < 55 ? SCHED : pickf(100, "t%d.type2", i) < 60 ? AMF : ASYNC;
        T[i].cyc = cyc[pickf(10, "t%d.cyc", i)] * unit_t * 2; if (T[i].type == ASYNC && pickf(2, "t%d.free", i)) T[i].cyc = 0;
        T[i].trig = pickf(4, "t%d.trig", i);
    }
    int nobj = 1 + pick("objs", 3); for (int i = 0; i < nobj; i++) O.push_back(new Obj);
    int nj = 1 + pick("jobs", big ? 24 : 12); int steps_cap = big ? 200 : 70;
    bool longoff = chance("longoff", 12); ll base = longoff ? 400 * unit_t : 0;     // starts around 2 s, where decimal seconds do not convert exactly
    for (int i = 0; i < nj; i++) {
        int th = pickf(nthr + 1, "j%d.thr", i); const char* cls = CLASSES[pickf(12, "j%d.cls", i)];
        static const int ph[] = {60000, 60000, 1, 100, 60001, 65535}; int p = ph[pickf(6, "j%d.ph", i)];
        ll c = cyc[pickf(10, "j%d.cyc", i)] * unit_t, st = pickf(3, "j%d.off", i) ? 0 : (ll)pickf(30, "j%d.start", i) * unit_t, sp = -1;
        if (pickf(6, "j%d.odd", i) == 5) st += (ll[]){1, unit_t / 5, unit_t - 1}[pickf(3, "j%d.oddby", i)]; 
        if (base && pickf(2, "j%d.long", i)) st += base;
        if (pickf(5, "j%d.hasstop", i) == 4 && !T0) sp = st + (ll)pickf(40, "j%d.stop", i) * unit_t - 2 * unit_t;
        JobCfg& j = addjob(pickf(nobj, "j%d.obj", i), th, cls, p, st, c, sp);
        j.work = pickf(3, "j%d.wk", i) ? (u64)pickf(3000, "j%d.work", i) * US : 0;
        if (th && T[th].type == SCHED && pickf(12, "j%d.heavy", i) == 11) j.work = 40 * MS;
        if (sp >= 0 && sp < st) j.disabled = true;
    }
    // frame jobs
    for (int i = 0, n = pick("tof", 3); i < n; i++) addjob(pickf(nobj, "tof%d.obj", i), pickf(nthr + 1, "tof%d.thr", i), "top_of_frame", 60000 + (int)pickf(3, "tof%d.ph", i), 0, 0, -1);
    for (int i = 0, n = pick("eof", 3); i < n; i++) addjob(pickf(nobj, "eof%d.obj", i), pickf(nthr + 1, "eof%d.thr", i), "end_of_frame", 60000 + (int)pickf(3, "eof%d.ph", i), 0, 0, -1);
    for (int i = 0, n = 1 + pick("init", 3); i < n; i++) addjob(pickf(nobj, "ini%d.obj", i), 0, "initialization", 60000 + (int)pickf(3, "ini%d.ph", i), 0, 0, -1);
    for (int i = 0, n = 1 + pick("shut", 3); i < n; i++) addjob(pickf(nobj, "shu%d.obj", i), 0, "shutdown", 30000 + (int)pickf(3, "shu%d.ph", i), 0, 0, -1);
    if (feat & 1) {
        for (int i = 0, n = 1 + pick("fi", 2); i < n; i++) addjob(pickf(nobj, "fi%d.obj", i), 0, "freeze_init", 60000 + (int)pickf(3, "fi%d.ph", i), 0, 0, -1);
        for (int i = 0, n = 1 + pick("fz", 2); i < n; i++) addjob(pickf(nobj, "fz%d.obj", i), 0, "freeze", 60000 + (int)pickf(3, "fz%d.ph", i), 0, 0, -1);
        for (int i = 0, n = 1 + pick("fu", 2); i < n; i++) addjob(pickf(nobj, "fu%d.obj", i), 0, "unfreeze", 60000 + (int)pickf(3, "fu%d.ph", i), 0, 0, -1);
        for (int i = 0, n = pick("fs", 3); i < n; i++) addjob(pickf(nobj, "fs%d.obj", i), 0, "freeze_scheduled", 60000 + (int)pickf(3, "fs%d.ph", i), 0, cyc[pickf(8, "fs%d.cyc", i)] * unit_t, -1);
    }
    // sim objects get their queue position in the order they are added
    for (int i = 0; i < nobj; i++) exec_add_sim_object(O[i], fmt("o%d", i).c_str());
    for (auto& j : J) j.disabled = j.disabled || j.jd->disabled;
    for (int i = 1; i <= nthr && i < (int)exec_get_num_threads(); i++) {
        auto* t = exec_get_thread(i);
        exec_set_thread_process_type(i, T[i].type == SCHED ? Trick::PROCESS_TYPE_SCHEDULED : T[i].type == AMF ? Trick::PROCESS_TYPE_AMF_CHILD : Trick::PROCESS_TYPE_ASYNC_CHILD);
        if (T[i].type != SCHED) exec_set_thread_amf_cycle_time(i, (double)T[i].cyc / tpsv);
        static const Trick::ThreadTriggerType tt[] = {Trick::TT_MUTEX, Trick::TT_FUTEX, Trick::TT_EVENTFD, Trick::TT_FLAG}; t->trigger_container.setThreadTrigger(tt[T[i].trig]);
        probe(T[i].type == SCHED ? "thread-scheduled" : T[i].type == AMF ? "thread-amf" : T[i].cyc ? "thread-async-cycle" : "thread-async");
        probe(T[i].trig == 0 ? "trigger-mutex" : T[i].trig == 1 ? "trigger-futex" : T[i].trig == 2 ? "trigger-eventfd" : "trigger-flag");
    }
    nthr = (int)exec_get_num_threads() - 1;
    if (pick("rtnap", 4) == 3) exec_set_rt_nap(0);
    // dependencies: only on a job that sorts before the target, on another thread, never started later than the target
    for (auto& j : J) if (j.sched() && !j.disabled && (j.thread == 0 || T[j.thread].type == SCHED) && pickf(3, "j%d.dep", j.id) == 2)
        for (auto& d : J) if (d.sched() && !d.disabled && d.thread != j.thread && (d.thread == 0 || T[d.thread].type == SCHED) && std::make_tuple(d.rank, d.phase, d.obj, d.ord) < std::make_tuple(j.rank, j.phase, j.obj, j.ord)
            && d.cyc > 0 && pickf(2, "j%d.dep%d", j.id, d.id)) {
            if (exec_add_depends_on_job(j.jd->name.c_str(), 1, d.jd->name.c_str(), 1) == 0) { j.dep.push_back(d.id); probe("dependency"); }
        }
    // length of the run
    ll minc = 1000 * unit_t; for (auto& j : J) if (j.sched() && !j.disabled) minc = std::min(minc, j.cyc); minc = std::min(minc, sf); for (int i = 1; i <= nthr; i++) if (T[i].type == AMF) minc = std::min(minc, T[i].cyc);
    ll span = std::min<ll>(minc * (5 + pick("len", steps_cap)), 400 * unit_t);
    Tend = base * (base && sf >= 20 * unit_t ? 1 : base ? 1 : 0) + span; if (base && minc < 4 * unit_t) { Tend = std::min(Tend, base + 40 * unit_t); }
    static const int off[] = {0, 0, 1, 3}; Tend += off[pick("endoff", 4)] * (unit_t / 5 ? unit_t / 5 : 1);
    py += fmt("trick.stop(%.9g)\n", (double)(Tend + T0) / tpsv);
    term = 0;
    if (feat & 2) {
        static const int tm[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9}; term = tm[pick("term", (feat & 1) ? 12 : 9)]; term_ret = 1 + pick("ret", 120); term_n = pick("termn", 6);
        std::vector<int> c; for (auto& j : J) {
            bool main_like = j.thread == 0 || ((j.cls == "top_of_frame" || j.cls == "end_of_frame") && T[j.thread].type == SCHED);
            if ((term == 1 || term == 2 || term == 4) && main_like && !j.disabled && (j.sched() || j.cls == "top_of_frame" || j.cls == "end_of_frame")) c.push_back(j.id);
            if (term == 3 && j.cls == "initialization") c.push_back(j.id);
            if (term == 5 && j.sched() && j.thread > 0 && !j.disabled) c.push_back(j.id);
        }
        if (term >= 1 && term <= 5) { if (c.empty()) term = 0; else { term_job = c[pick("termjob", c.size())]; if (term == 3) term_n = 0; } }
        if (term == 1) probe("term-stop"); if (term == 2) probe("term-throw"); if (term == 3) probe("term-init"); if (term == 4) probe("term-return"); if (term == 5) probe("term-child");
        if (term == 6 || term == 7) {   // 6: SIGINT with freezing off ends the run; 7: SIGTERM
            u64 t = (u64)pick("sigt", 60) * MS; int s = term == 6 ? 2 : 15; probe(term == 6 ? "term-sigint" : "term-sigterm"); sig_used = true;
            at(now() + t, [s] { threw = true; raise_signal(s); });
        }
        if (term == 8) {  // a shutdown job throws
            std::vector<int> c2; for (auto& j : J) if (j.cls == "shutdown") c2.push_back(j.id); term_job = c2[pick("termjob", c2.size())]; term = 2; term_n = 0; init_throw = 8; probe("term-shutdown-throws");
        }
    }
    frz_exact = false;
    if (feat & 1) {
        frz_exact = true; frz_end = pick("f.end", 3); frz_boundary = chance("f.bound", 25); if (frz_boundary) exec_set_freeze_on_frame_boundary(1);
        exec_set_enable_freeze(1); frz_hold = 1 + pick("f.hold", 4);
        static const int ff[] = {200, 20, 7, 4}; frz_ff = ff[pick("f.frame", 4)] * unit_t; exec_set_freeze_frame((double)frz_ff / tpsv);
        for (int i = 0, n = pick("f.n", 4); i < n; i++) {
            ll t = 1 + pickf(Tend / unit_t + 3, "f%d.t", i); t *= unit_t; if (pickf(3, "f%d.odd", i) == 2) t += unit_t / 5;
            py += fmt("trick.freeze(%.9g)\n", (double)(t + T0) / tpsv);
            if (frz_boundary) { ll b = (t + sf - 1) / sf * sf; if (b <= Tend) frz_expect.insert(b); } else if (t <= Tend) frz_expect.insert(t);
        }
        if (pick("f.start", 5) == 4) { exec_set_freeze_command(1); frz_expect.insert(0); }
        int ctl = -1, cnt = 0; for (auto& j : J) if (j.cls == "freeze") ctl = j.id;
        (void)ctl; (void)cnt;
        // unfreezing: the last freeze job counts passes of the freeze loop
        Obj* f = new Obj; static int passes; passes = 0;
        f->add(0, "freeze_init", 1, "fi", 1, 0, 1e37, [](Trick::JobData*) { passes = 0; in_freeze = true; frz_seen.push_back({tics() - T0, seqno()}); return 0; });
        f->add(0, "freeze", 1, "fz", 65535, 0, 1e37, [](Trick::JobData*) {
            if (term == 9 && !threw && term_n-- <= 0) { threw = true; threw_at = seqno(); term_t = tics() - T0; static const char* pn[] = {"stop-in-freeze", "throw-in-freeze", "return-in-freeze"}; probe(pn[frz_end]);
                if (frz_end == 0) { exec_get_exec_cpp()->stop(); return 0; } if (frz_end == 1) exec_terminate_with_return(term_ret, "dst", 1, "in freeze"); return term_ret; }
            if (++passes == frz_hold) exec_run(); return 0; });
        f->add(0, "unfreeze", 1, "fu", 65535, 0, 1e37, [](Trick::JobData*) { in_freeze = false; return 0; });
        // freeze commands given while running take effect at the end of the frame
        if (pick("f.async", 3)) {
            ll t0 = (1 + (ll)pick("f.at", Tend / unit_t + 1)) * unit_t;
            f->add(0, "scheduled", 1e6, "fcmd", 2, (double)t0 / tpsv, 1e37, [t0](Trick::JobData*) { exec_freeze(); ll b = (t0 / sf + 1) * sf; if (b <= Tend) frz_expect.insert(b); probe("freeze-command"); return 0; });
        }
        exec_add_sim_object(f, "fctl");
        if (pick("f.sig", 4) == 3) { frz_exact = false; for (int i = 0, n = 1 + pick("f.sign", 3); i < n; i++) at(now() + (u64)pickf(100, "fs%d.at", i) * MS, [] { probe("sigint-freeze"); raise_signal(2); }); }
    }
    if (feat & 4) {
        for (int i = 0, n = 1 + pick("d.n", 5); i < n; i++) {
            std::vector<int> c; for (auto& j : J) if (j.sched() && (j.thread == 0 || T[j.thread].type == SCHED)) c.push_back(j.id);
            if (c.empty()) break;
            Act a; a.t = (1 + (ll)pickf(std::max<ll>(1, Tend / unit_t), "d%d.t", i)) * unit_t; a.kind = pickf(4, "d%d.k", i); a.job = c[pickf(c.size(), "d%d.j", i)]; a.a = 0; a.done = false;
            if (a.kind == 2 && (J[a.job].stop >= 0 || J[a.job].disabled || J[a.job].dep.size())) a.kind = 0;   // (a job may not be moved ahead of one it waits for)
            std::string nm = J[a.job].jd->name, cmd;
            if (a.kind == 0) cmd = fmt("trick.exec_set_job_onoff(\\\"%s\\\", 1, 0)", nm.c_str());
            if (a.kind == 1) cmd = fmt("trick.exec_set_job_onoff(\\\"%s\\\", 1, 1)", nm.c_str());
            if (a.kind == 2) { a.a = cyc[pickf(10, "d%d.c", i)] * unit_t; cmd = fmt("trick.exec_set_job_cycle(\\\"%s\\\", 1, %.9g)", nm.c_str(), (double)a.a / tpsv); }
            if (a.kind == 3) { a.a = pickf(2, "d%d.on", i); a.job = J[a.job].obj; cmd = fmt("trick.exec_set_sim_object_onoff(\\\"o%d\\\", %lld)", a.job, a.a); }
            A.push_back(a); py += fmt("trick.add_read(%.9g, \"%s\")\n", (double)a.t / tpsv, cmd.c_str());
        }
        std::stable_sort(A.begin(), A.end(), [](const Act& x, const Act& y) { return x.t < y.t; });
        if (pick("d.obj", 3)) {    // an object added and maybe deleted while the simulation runs
            dyn_obj = true; dyn_add_t = (1 + (ll)pick("d.add", Tend / unit_t)) * unit_t; dyn_del_t = pick("d.del", 2) ? dyn_add_t + (1 + (ll)pick("d.dlen", 40)) * unit_t : -1;
            on_call(1, [=](int, int) { Obj* o = new Obj; O.push_back(o); int oi = O.size() - 1; int n = 1 + pick("d.jobs", 3);
                for (int i = 0; i < n; i++) { JobCfg& j = addjob(oi, 0, CLASSES[pickf(12, "dj%d.cls", i)], 60000, (ll)pickf(4, "dj%d.start", i) * unit_t, cyc[pickf(10, "dj%d.cyc", i)] * unit_t, -1); j.start += dyn_add_t; }
                if (nthr && T[1].type == SCHED && pick("d.thr", 2)) { JobCfg& j = addjob(oi, 1, "scheduled", 60000, 0, cyc[pick("dj.tcyc", 10)] * unit_t, -1); j.start += dyn_add_t; }
                exec_add_sim_object(o, "dyn"); probe("object-added"); return 0; });
            on_call(2, [=](int, int) { exec_remove_sim_object(O.back()); probe("object-removed"); return 0; });
            py += fmt("trick.add_read(%.9g, \"trick.dst_call(1,0,0)\")\n", (double)dyn_add_t / tpsv);
            if (dyn_del_t >= 0) py += fmt("trick.add_read(%.9g, \"trick.dst_call(2,0,0)\")\n", (double)dyn_del_t / tpsv);
        }
    }
    if (feat & 8) {
        machine_faults(2);
        for (int i = 0, n = pick("stall.n", 4); i < n; i++) at(now() + (u64)pickf(200, "stall%d.at", i) * MS / 4, [i] { if (ntasks() > 1) { stall_task(pickf(ntasks(), "stall%d.who", i), (u64)pickf(80, "stall%d.len", i) * MS); probe("stall"); } });
        if (chance("jump", 30)) at(now() + (u64)pick("jump.at", 100) * MS, [] { clock_jump(((i64)pick("jump.by", 7200) - 3600) * (i64)SEC); probe("clock-jump"); });
    }
    for (auto& j : J) logf("config %s thread %d class %s phase %d start %lld cycle %lld stop %lld%s", j.name.c_str(), j.thread, j.cls.c_str(), j.phase, j.start, j.cyc, j.stop, j.disabled ? " disabled" : "");
    for (auto& a : A) logf("config action at %lld kind %d target %d arg %lld", a.t, a.kind, a.job, a.a);
    if (dyn_obj) logf("config object added at %lld removed at %lld", dyn_add_t, dyn_del_t);
    for (auto& j : J) for (int d : j.dep) logf("config %s depends on %s", j.name.c_str(), J[d].name.c_str());
    for (int i = 1; i <= nthr; i++) logf("config thread %d type %d cycle %lld trigger %d", i, T[i].type, T[i].cyc, T[i].trig);
    if (last) py += ticcmd;
    logf("config frame %lld end %lld tic %d, simulation time starts at %lld", sf, Tend, tpsv, T0);
    return py;
}
const char* nm(int j) { return J[j].name.c_str(); }
bool mainline(int j) { return J[j].thread == 0 || T[J[j].thread].type == SCHED; }

void check_freeze();
void finish(int why, int code) {
    if (why == W_DEADLOCK || why == W_LIMIT) {
        violation("", why == W_DEADLOCK ? "the simulation stops for ever" : "the simulation does not reach its end", "%s at sim time %lld of %lld; tasks: %s", why_name(why), tics() - T0, Tend, task_dump().c_str());
        return;
    }
    if (why != W_EXIT) return;
    if (term == 5 || term == 7) {
        if (!threw) { /* ended before the trigger */ }
        else { int want = term == 5 ? term_ret : 15; note_step(); if (code != want && !(term == 5 && code == 0)) violation("E05", "wrong exit status", "the process ended with %d, expected %d", code, want); if (term == 5 && code == 0) { for (auto& r : H) if (J[r.job].cls == "shutdown") return; violation("E05", "wrong exit status", "exit status 0 after a child thread called exec_terminate_with_return(%d)", term_ret); } }
        return;
    }
    // ------------------------------------------------ E05: end of the run
    u64 first_shut = ~0ull; std::map<int, int> cnt; std::vector<int> shut;
    for (auto& r : H) { cnt[r.job]++; if (J[r.job].cls == "shutdown") { first_shut = std::min(first_shut, r.s0); shut.push_back(r.job); } }
    int want = 0; if ((term == 2 || term == 3 || term == 4) && threw) want = term_ret;
    if (term == 9 && threw && frz_end) want = term_ret;
    note_step(); if (code != want) violation("E05", "wrong exit status", "main returned %d, expected %d (termination mode %d)", code, want, term);
    bool init_fail = term == 3 && threw;
    std::vector<int> so; for (auto& j : J) if (j.cls == "shutdown") so.push_back(j.id);
    std::stable_sort(so.begin(), so.end(), [](int a, int b) { return std::make_tuple(J[a].phase, J[a].obj, J[a].ord) < std::make_tuple(J[b].phase, J[b].obj, J[b].ord); });
    if (init_throw == 8 && threw) { size_t k = 0; while (k < so.size() && so[k] != term_job) k++; so.resize(std::min(so.size(), k + 1)); }
    if (init_fail) so.clear();
    note_step(); if (shut != so) violation("E05", "shutdown jobs did not each run exactly once in order", "%zu shutdown jobs ran, %zu expected", shut.size(), so.size());
    for (auto& r : H) if (r.s0 > first_shut && J[r.job].cls != "shutdown" && r.task == 0) { violation("E05", "a job ran after shutdown began", "%s", nm(r.job)); break; }
    if (threw && (term == 2 || term == 4) && init_throw != 8) for (auto& r : H) if (r.s0 > threw_at && r.task == 0 && J[r.job].cls != "shutdown") { violation("E05", "a job ran after exec_terminate", "%s at %lld", nm(r.job), r.t); break; }
    if (threw && term == 9) for (auto& r : H) if (r.s0 > threw_at && r.task == 0 && J[r.job].cls != "shutdown" && !(frz_end == 0 && J[r.job].cls == "freeze")) { violation("E05", "a job ran after the simulation was ended in a freeze", "%s (%s) at %lld", nm(r.job), J[r.job].cls.c_str(), r.t); break; }
    // ------------------------------------------------ E01: when jobs run
    ll E = Tend; bool cut = false;   // cut: the last pass may be incomplete
    if (threw && term == 1) {        // stop from a job: the pass in progress is completed
        E = term_t; 
        cut = J[term_job].cls == "end_of_frame" || J[term_job].cls == "top_of_frame";
    }
    if (threw && term == 9) { cut = true; E = term_t; }
    if (threw && (term == 2 || term == 4) && init_throw != 8) { cut = true; E = -1; for (auto& r : H) if (r.task == 0 && r.mode != 0 && J[r.job].cls != "shutdown" && J[r.job].cls != "initialization") E = std::max(E, r.t); }
    if (sig_used || init_fail) { cut = true; E = -1; for (auto& r : H) if (r.task == 0 && J[r.job].cls != "shutdown" && J[r.job].cls != "initialization") E = std::max(E, r.t); }
    if (init_fail) { for (auto& r : H) if (J[r.job].sched()) { violation("E05", "a job ran after initialization failed", "%s", nm(r.job)); break; } return; }
    std::vector<std::vector<const Rec*>> by(J.size()); for (auto& r : H) by[r.job].push_back(&r);
    // initialization jobs: once each, before anything else
    u64 last_init = 0; { std::vector<int> got, io; for (auto& r : H) if (J[r.job].cls == "initialization") { got.push_back(r.job); last_init = std::max(last_init, r.s1); } for (auto& j : J) if (j.cls == "initialization") io.push_back(j.id);
        std::stable_sort(io.begin(), io.end(), [](int a, int b) { return std::make_tuple(J[a].phase, J[a].obj, J[a].ord) < std::make_tuple(J[b].phase, J[b].obj, J[b].ord); });
        note_step(); if (got != io) violation("E02", "initialization jobs did not each run once in order", "%zu ran", got.size()); }
    for (auto& r : H) if (J[r.job].cls != "initialization" && r.s0 < last_init) { violation("E02", "a job ran before initialization finished", "%s", nm(r.job)); break; }
    bool dyn = !A.empty() || dyn_obj; const char* P1 = dyn ? "E06" : "E01";
    // the control actions, applied in time order to a model of every main-line job
    struct M { ll next, cyc, stop; bool dis, saved, gone; std::vector<ll> runs; }; std::map<int, M> mod;
    for (auto& j : J) if (j.sched() && mainline(j.id)) { M m; m.cyc = j.cyc; m.next = j.disabled ? LLONG_MAX : j.start; m.stop = j.stop < 0 ? LLONG_MAX : j.stop; m.dis = j.disabled; m.saved = m.dis; m.gone = false; mod[j.id] = m; }
    {
        std::set<ll> ts; for (auto& kv : mod) ts.insert(kv.second.next); size_t ai = 0; ts.insert(LLONG_MAX);
        while (!ts.empty()) {
            ll t = std::min(*ts.begin(), E + 1); ts.erase(ts.begin()); if (t > E) ts.insert(E + 1);
            auto act = [&](ll upto, bool incl) { for (; ai < A.size() && (A[ai].t < upto || (incl && A[ai].t == upto)); ai++) { if (!ts.empty() && *ts.begin() < A[ai].t) return; Act& a = A[ai]; probe("control-action");
                if (a.kind == 0 || a.kind == 1) { mod[a.job].dis = a.kind == 0; }
                if (a.kind == 2) { M& m = mod[a.job]; m.cyc = a.a; if (m.next > a.t) { m.next = a.t - a.t % m.cyc + m.cyc; ts.insert(m.next); } else { m.next = a.t; ts.insert(a.t); } }
                if (a.kind == 3) for (auto& kv : mod) if (J[kv.first].obj == a.job) { M& m = kv.second; if (!a.a) { if (!m.gone) m.saved = m.dis, m.gone = true; m.dis = true; } else { m.dis = m.gone ? m.saved : false; m.gone = false; } }
                } };
            act(std::min(t, E), true); if (t > E) { if (*ts.begin() > E) break; else continue; } if (!ts.empty() && *ts.begin() < t) { ts.insert(t); continue; }
            for (auto& kv : mod) { M& m = kv.second; if (m.next != t) continue; bool del = dyn_del_t >= 0 && dyn_obj && J[kv.first].obj == (int)O.size() - 1 && t >= dyn_del_t; if (del) { m.next = LLONG_MAX; continue; }
                ll nx = m.next + m.cyc; m.next = nx > m.stop ? LLONG_MAX : nx; if (m.next != LLONG_MAX) ts.insert(m.next); if (!m.dis) m.runs.push_back(t); }
        }
    }
    for (auto& kv : mod) {
        int id = kv.first; const M& m = kv.second; std::vector<ll> got; for (auto* r : by[id]) got.push_back(r->t);
        std::vector<ll> exp = m.runs; if (cut) { while (!exp.empty() && exp.back() >= E && got.size() < exp.size()) exp.pop_back(); }
        note_step(1 + exp.size());
        if (got != exp) {
            size_t k = 0; while (k < got.size() && k < exp.size() && got[k] == exp[k]) k++;
            const char* c = k >= got.size() ? "a job missed a scheduled call" : k >= exp.size() || got[k] < exp[k] ? (k && got[k] == got[k - 1] ? "a job ran twice at one time" : "a job ran when it was not scheduled") : "a job missed a scheduled call";
            violation(P1, c, "%s (thread %d, class %s, start %lld cycle %lld stop %lld%s) call %zu: at %lld, expected %lld; %zu calls, %zu expected; end %lld", nm(id), J[id].thread, J[id].cls.c_str(), J[id].start, J[id].cyc, J[id].stop, J[id].disabled ? ", disabled" : "", k, k < got.size() ? got[k] : -1, k < exp.size() ? exp[k] : -1, got.size(), exp.size(), E);
        }
    }
    // jobs of asynchronous threads: nominal times only, in order, each at most once; complete passes
    for (auto& j : J) if (j.sched() && !mainline(j.id)) {
        auto& th = T[j.thread]; ll last = -1; const char* P = P1; bool toggled = false; for (auto& x : A) if (x.kind == 3 && x.job == j.obj) toggled = true; if (j.disabled && !by[j.id].empty()) violation(P, "a disabled job ran", "%s", nm(j.id)); if (j.disabled) continue;
        if (th.type == ASYNC && th.cyc == 0) { for (auto* r : by[j.id]) { note_step(); if (r->t <= last) { violation(P, "an asynchronous thread ran a job twice in one pass", "%s at %lld", nm(j.id), r->t); break; } last = r->t; } continue; }
        for (auto* r : by[j.id]) { note_step(); bool ok = r->t >= j.start && (r->t - j.start) % j.cyc == 0 && (j.stop < 0 || r->t <= j.stop);
            if (!ok) { violation(P, "a job ran when it was not scheduled", "%s on asynchronous thread %d at %lld (start %lld cycle %lld stop %lld)", nm(j.id), j.thread, r->t, j.start, j.cyc, j.stop); break; }
            if (r->t <= last) { violation(P, "a job ran twice at one time", "%s at %lld after %lld", nm(j.id), r->t, last); break; } 
            if (th.type == AMF && !toggled && last >= 0 && r->t != last + j.cyc) { violation(P, "a job missed a scheduled call", "%s on AMF thread %d at %lld after %lld", nm(j.id), j.thread, r->t, last); break; }
            last = r->t; }
        if (th.type == AMF && !toggled) { ll lim = cut ? std::max<ll>(0, E - th.cyc) : E; ll must = lim / th.cyc * th.cyc; ll first = j.start; ll want = -1; if (first < must) want = first + (must - 1 - first) / j.cyc * j.cyc; if (j.stop >= 0 && want > j.stop) want = j.stop < j.start ? -1 : j.start + (j.stop - j.start) / j.cyc * j.cyc;
            note_step(); if (want >= 0 && last < want) violation(P, "a job missed a scheduled call", "%s on AMF thread %d last ran at %lld, due at %lld before the frame ending at %lld", nm(j.id), j.thread, last, want, must); }
    }
    // asynchronous passes: every enabled job of the thread once per pass, in queue order
    for (int t = 1; t <= nthr; t++) if (T[t].type == ASYNC && T[t].cyc == 0) {
        std::vector<int> q; for (auto& j : J) if (j.sched() && j.thread == t && !j.disabled) q.push_back(j.id);
        std::stable_sort(q.begin(), q.end(), [](int a, int b) { return std::make_tuple(J[a].rank, J[a].phase, J[a].obj, J[a].ord) < std::make_tuple(J[b].rank, J[b].phase, J[b].obj, J[b].ord); });
        bool toggled = false; for (auto& x : A) if (x.kind == 3) for (int id : q) if (J[id].obj == x.job) toggled = true; if (toggled) continue;
        size_t k = 0; for (auto& r : H) if (J[r.job].sched() && J[r.job].thread == t) { note_step(); if (q.empty() || r.job != q[k % q.size()]) { violation(P1, "an asynchronous pass did not run every job once in order", "thread %d call %zu is %s", t, k, nm(r.job)); break; } k++; }
        if (!q.empty() && k == 0 && E > 50 * unit_t && !cut) probe("async-never-ran");
    }
    // ------------------------------------------------ frame jobs
    for (auto& j : J) if ((j.cls == "top_of_frame" || j.cls == "end_of_frame") && mainline(j.id)) {
        std::vector<ll> exp, got; for (auto* r : by[j.id]) got.push_back(r->t);
        for (ll t = j.cls[0] == 't' ? 0 : sf; t <= E; t += sf) { bool on = !j.disabled; for (auto& x : A) if (x.kind == 3 && x.job == j.obj && x.t < t) on = x.a; if (on) exp.push_back(t); }
        if (cut) while (!exp.empty() && exp.back() >= E && got.size() < exp.size()) exp.pop_back();
        note_step(1 + exp.size());
        // scheduled threads keep their own clock: the times of their frame jobs are those of the caller
        if (J[j.id].thread == 0 ? got != exp : got.size() != exp.size()) violation(P1, "a frame job did not run once per frame", "%s (%s) ran %zu times, expected %zu; first difference at %lld", nm(j.id), j.cls.c_str(), got.size(), exp.size(), [&] { for (size_t k = 0; k < got.size() && k < exp.size(); k++) if (got[k] != exp[k]) return got[k]; return (ll)-1; }());
    }
    // ------------------------------------------------ E02: order
    struct K { const Rec* r; }; const char* P2 = "E02";
    for (int t = 0; t <= nthr; t++) {   // within a thread and a time step: class, phase, object, position
        const Rec* p = nullptr; for (auto& r : H) { auto& j = J[r.job]; if (!j.sched() || j.thread != t || (T[t].type == ASYNC && T[t].cyc == 0)) continue;
            if (p && p->t == r.t) { auto& a = J[p->job]; note_step(); if (!(std::make_tuple(a.rank, a.phase, a.obj, a.ord) < std::make_tuple(j.rank, j.phase, j.obj, j.ord))) { violation(P2, "jobs of one thread ran out of order", "at %lld %s (%s, phase %d) ran before %s (%s, phase %d)", r.t, nm(p->job), a.cls.c_str(), a.phase, nm(r.job), j.cls.c_str(), j.phase); break; } }
            if (p && r.t < p->t) { violation(P2, "time went backwards in a thread", "thread %d %lld after %lld", t, r.t, p->t); break; }
            p = &r; } }
    {   // the main line: nothing at a later time starts before everything at an earlier time has ended
        ll maxt = -1; std::vector<const Rec*> ml; for (auto& r : H) if (J[r.job].sched() && mainline(r.job)) ml.push_back(&r);
        std::map<ll, u64> endof; for (auto* r : ml) { u64 e = r->s1 ? r->s1 : ~0ull; auto& x = endof[r->t]; x = std::max(x, e); } (void)maxt;
        u64 pe = 0; ll pt = -1; std::map<ll, u64> begin; for (auto* r : ml) { auto i = begin.find(r->t); if (i == begin.end() || r->s0 < i->second) begin[r->t] = r->s0; }
        for (auto& kv : endof) { note_step(); if (pt >= 0 && begin[kv.first] < pe && !(cut && kv.first >= E)) { std::string who; for (auto* r : ml) if (r->t == pt && (!r->s1 || r->s1 > begin[kv.first])) who = J[r->job].name; violation(P2, "time advanced while jobs of the previous step were running", "a job at %lld began while %s at %lld was running", kv.first, who.c_str(), pt); break; } pe = std::max(pe, kv.second); pt = kv.first; }
        // dependencies
        std::map<std::pair<int, ll>, const Rec*> at_; for (auto* r : ml) at_[{r->job, r->t}] = r;
        for (auto* r : ml) for (int d : J[r->job].dep) { auto i = at_.find({d, r->t}); if (i != at_.end()) { note_step(); probe("dependency-checked"); if (!i->second->s1 || i->second->s1 > r->s0) { violation(P2, "a job ran before the job it depends on", "%s at %lld began before %s ended", nm(r->job), r->t, nm(d)); goto depdone; } } }
        depdone:;
        // frame jobs of the main thread: end_of_frame, then top_of_frame, then the step
        for (auto& r : H) { auto& j = J[r.job]; if (j.thread != 0) continue; if (j.cls == "top_of_frame") { auto i = begin.find(r.t); note_step(); if (i != begin.end() && i->second < (r.s1 ? r.s1 : ~0ull)) { violation(P2, "a job ran before the top of its frame", "%s at %lld", nm(r.job), r.t); break; } }
            if (j.cls == "end_of_frame") { note_step(); for (auto* m : ml) if (m->t >= r.t && m->s0 < r.s0) { violation(P2, "a job of the next frame ran before the end of frame", "%s at %lld before %s", nm(m->job), m->t, nm(r.job)); goto eofdone; } else if (m->t < r.t && (!m->s1 || m->s1 > r.s0)) { violation(P2, "end of frame ran before the frame's jobs had finished", "%s at %lld before %s at %lld finished", nm(r.job), r.t, nm(m->job), m->t); goto eofdone; } } }
        eofdone:;
        for (const char* c : {"top_of_frame", "end_of_frame"}) { std::map<ll, const Rec*> last; for (auto& r : H) { auto& j = J[r.job]; if (j.cls != c || j.thread) continue; auto& p = last[r.t]; if (p) { note_step(); auto& a = J[p->job]; if (!(std::make_tuple(a.phase, a.obj, a.ord) < std::make_tuple(j.phase, j.obj, j.ord))) { violation(P2, "frame jobs ran out of order", "%s after %s at %lld", nm(r.job), nm(p->job), r.t); break; } } p = &r; } }
        // AMF threads: work for [t, t+c) begins after the main line reaches t and ends before the main line runs at t+c
        for (int t = 1; t <= nthr; t++) if (T[t].type == AMF) for (auto& r : H) if (J[r.job].sched() && J[r.job].thread == t) {
            ll f0 = r.t / T[t].cyc * T[t].cyc, f1 = f0 + T[t].cyc; note_step(); auto b = begin.lower_bound(f1); if (b != begin.end() && (!r.s1 || r.s1 > b->second) && !(cut && b->first >= E)) { violation(P2, "the simulation passed an AMF synchronisation point before the thread's work was done", "%s at %lld still running when the main line ran at %lld (AMF cycle %lld)", nm(r.job), r.t, b->first, T[t].cyc); goto amfdone; }
            // nothing of the main line at a time before the frame may still be running
            for (auto& kv : endof) if (kv.first < f0 && kv.second > r.s0) { violation(P2, "an AMF thread started its frame before the main line reached it", "%s at %lld began before jobs at %lld ended", nm(r.job), r.t, kv.first); goto amfdone; } }
        amfdone:;
        probe("main-line-steps", begin.size());
    }
    for (size_t i = 0; i < H.size(); i++) for (size_t k = i + 1; k < H.size() && k < i + 30; k++) if (H[i].task == H[k].task && H[i].s1 && H[k].s0 < H[i].s1) { violation(P2, "one thread ran two jobs at once", "%s and %s", nm(H[i].job), nm(H[k].job)); i = H.size(); break; }
    check_freeze();
}
void check_freeze() {
    if (!frz_hold) return;
    // split the main thread's history at freezes
    std::vector<ll> seen; for (auto& f : frz_seen) seen.push_back(f.first); std::vector<ll> exp(frz_expect.begin(), frz_expect.end());
    note_step(1 + seen.size());
    if (frz_exact && !threw) { if (seen != exp) { size_t k = 0; while (k < seen.size() && k < exp.size() && seen[k] == exp[k]) k++; violation("E04", "the simulation did not freeze when it was told to", "freeze %zu at %lld, expected %lld (%zu freezes, %zu expected)", k, k < seen.size() ? seen[k] : -1, k < exp.size() ? exp[k] : -1, seen.size(), exp.size()); } }
    if (frz_exact && threw) { note_step(); for (size_t k = 0; k < seen.size(); k++) if (k >= exp.size() || seen[k] != exp[k]) { violation("E04", "the simulation did not freeze when it was told to", "freeze %zu at %lld, expected %lld (run ended early)", k, seen[k], k < exp.size() ? exp[k] : -1); break; } }
    if (!seen.empty()) probe("freezes", seen.size());
    std::vector<int> fi, fu, fz; for (auto& j : J) { if (j.cls == "freeze_init") fi.push_back(j.id); if (j.cls == "unfreeze") fu.push_back(j.id); if (j.cls == "freeze") fz.push_back(j.id); }
    auto srt = [](std::vector<int>& v) { std::stable_sort(v.begin(), v.end(), [](int a, int b) { return std::make_tuple(J[a].phase, J[a].obj, J[a].ord) < std::make_tuple(J[b].phase, J[b].obj, J[b].ord); }); }; srt(fi); srt(fu); srt(fz);
    // sequence of main-thread records: phases
    std::vector<const Rec*> m; for (auto& r : H) if (r.task == 0 && J[r.job].cls != "initialization" && J[r.job].cls != "shutdown") m.push_back(&r);
    size_t i = 0; int nf = 0;
    while (i < m.size()) {
        const std::string& c = J[m[i]->job].cls;
        if (c == "freeze" || c == "unfreeze" || c == "freeze_scheduled") { violation("E04", "a freeze job ran while the simulation was running", "%s (%s) at %lld", nm(m[i]->job), c.c_str(), m[i]->t); return; }
        if (c != "freeze_init") { i++; continue; }
        nf++; ll t = m[i]->t; std::vector<int> a, z, u; std::map<int, std::vector<u64>> fsn;
        while (i < m.size() && J[m[i]->job].cls == "freeze_init" && a.size() < fi.size()) a.push_back(m[i++]->job);
        while (i < m.size() && (J[m[i]->job].cls == "freeze" || J[m[i]->job].cls == "freeze_scheduled")) { if (J[m[i]->job].cls == "freeze") z.push_back(m[i]->job); else fsn[m[i]->job].push_back(z.size()); if (m[i]->t != t) { violation("E04", "time moved during a freeze", "%lld to %lld", t, m[i]->t); return; } i++; }
        while (i < m.size() && J[m[i]->job].cls == "unfreeze" && u.size() < fu.size()) u.push_back(m[i++]->job);
        bool lastone = i >= m.size(); note_step(3);
        if (a != fi) { violation("E04", "freeze_init jobs did not each run once in order", "freeze %d", nf); return; }
        if (z.empty() && !lastone) { violation("E04", "the freeze loop did not run", "freeze %d", nf); return; }
        for (size_t k = 0; k < z.size(); k++) if (z[k] != fz[k % fz.size()]) { violation("E04", "freeze jobs ran out of order", "freeze %d call %zu", nf, k); return; }
        if (!lastone && z.size() % fz.size()) { violation("E04", "freeze jobs ran out of order", "freeze %d left the loop in the middle of a pass", nf); return; }
        if (!lastone && u != fu) { violation("E04", "unfreeze jobs did not each run once in order", "freeze %d: %zu of %zu", nf, u.size(), fu.size()); return; }
        // freeze_scheduled: times 0, c, 2c ... below passes*freeze_frame
        if (!lastone && frz_exact) { ll ff = frz_ff; ll passes = z.size() / fz.size(); for (auto& j : J) if (j.cls == "freeze_scheduled") { ll n = (passes * ff + j.cyc - 1) / j.cyc; note_step(); if ((ll)fsn[j.id].size() != n) { violation("E04", "a freeze_scheduled job missed its cycle", "%s ran %zu times in %lld freeze frames of %lld, cycle %lld, expected %lld", nm(j.id), fsn[j.id].size(), passes, ff, j.cyc, n); return; } } }
        if (!lastone && m[i]->t < t) { violation("E04", "time went backwards over a freeze", "%lld to %lld", t, m[i]->t); return; }
    }
    // nothing of the main line runs inside a freeze
    for (auto& r : H) if (J[r.job].sched() && mainline(r.job) && r.task != 0) { for (auto& f : frz_seen) if (r.t >= f.first && r.s0 < f.second) { violation("E04", "a job of a later step started before the freeze", "%s", nm(r.job)); return; } else if (r.t < f.first && r.s1 > f.second) { violation("E04", "a thread was still running when the freeze began", "%s at %lld", nm(r.job), r.t); return; } }
}
static Reg r({"exec", setup, finish, 400 * SEC, 150000000, "E03"});
}
