// Frame logging: every job execution on every thread is timed once, also when logging is turned on and off while the simulation runs. L01.
#include "common.hh"
#define private public
#define protected public
#include "trick/FrameLog.hh"
#undef private
#undef protected
#include "trick/FrameDataRecordGroup.hh"
#include "trick/memorymanager_c_intf.h"
#include "trick/clock_proto.h"
#include <unistd.h>
#include <stdarg.h>
using namespace w;
extern Trick::FrameLog* the_fl;
int frame_log_on(Trick::DR_Buffering);
extern "C" int frame_log_off(); extern "C" int frame_log_set_max_samples(int);
namespace {
enum { F_THREADS = 1, F_SWITCH = 2, F_MAX = 4, F_AMF = 8, F_FRZ = 16, F_JOBSW = 32 };
int feat; ll sf, Tend, maxs = 100000; bool on, ended, frozen; u64 shut_s = ~0ull; const ll M = 1000000;
struct Jb { int id, thread, obj; std::string cls; ll cyc; double fid; std::string name; Trick::JobData* jd; };
struct Rec { int job; ll t, c0, c1; u64 s0, s1; };
std::vector<Jb> J; std::vector<Rec> H; struct Sw { ll t; bool on; u64 s0, s1; ll c0, c1; }; std::vector<Sw> S; std::vector<int> ttype; std::vector<ll> tcyc;
void bad(const char* c, const char* f, ...) __attribute__((format(printf, 2, 3)));
void bad(const char* c, const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); violation("L01", c, "%s", b); }
int body(int id) {
    Rec r; r.job = id; r.t = my_tics(); r.s0 = seqno(); r.s1 = 0; r.c0 = clock_time(); size_t k = H.size(); H.push_back(r); step("job", id); int d = pickf(6, "b%d.%zu", id, k);
    if (d == 1 || d == 2) burn((1 + pickf(400, "bl%d.%zu", id, k)) * 10 * US); else if (d == 3) usleep(1 + pickf(3000, "bl%d.%zu", id, k));
    H[k].c1 = clock_time(); H[k].s1 = seqno(); logf("job %d ran from %llu", id, (unsigned long long)H[k].s0); return 0;
}
void sw(bool v) { Sw s; s.t = tics(); s.s0 = seqno(); s.c0 = clock_time(); s.on = v; if (v) frame_log_on(Trick::DR_Buffer); else frame_log_off(); s.s1 = seqno(); s.c1 = clock_time(); logf("logging %d: %llu to %llu", v, (unsigned long long)s.s0, (unsigned long long)s.s1); if (on != v) { S.push_back(s); probe(v ? "logging-on" : "logging-off"); } on = v; }
std::string setup() {
    feat = opti("feat", 0); machine_faults(1); static const int SF[] = {100000, 50000, 200000}; sf = SF[pick("sf", 3)]; std::string py = fmt("trick.exec_set_software_frame(%.9g)\n", sf / 1e6); ll base = sf / 10; Tend = sf * (3 + pick("frames", 12));
    int nt = feat & F_THREADS ? 1 + pick("nt", 3) : 0; ttype.assign(nt + 1, 0); tcyc.assign(nt + 1, sf);
    for (int i = 1; i <= nt; i++) { ttype[i] = (feat & F_AMF) ? pickf(2, "tt%d", i) : 0; tcyc[i] = sf * (1 + pickf(2, "tc%d", i)); }
    int no = 1 + pick("no", 3); std::vector<Obj*> O; for (int i = 0; i < no; i++) O.push_back(new Obj);
    int nj = 3 + pick("nj", 8); static const int CY[] = {10, 1, 2, 5, 20, 3, 10, 7};
    for (int i = 0; i < nj; i++) {
        Jb j; j.id = i; j.obj = pickf(no, "j%d.o", i); j.thread = nt ? pickf(nt + 1, "j%d.th", i) : 0; int k = pickf(6, "j%d.k", i); j.cls = k == 4 ? "top_of_frame" : k == 5 ? "end_of_frame" : CLASSES[pickf(12, "j%d.c", i)]; bool fj = k >= 4; j.cyc = fj ? 0 : base * CY[pickf(8, "j%d.cy", i)];
        j.name = fmt("j%d", i); j.jd = O[j.obj]->add(j.thread, j.cls.c_str(), fj ? 1.0 : j.cyc / 1e6, j.name.c_str(), 1 + pickf(3, "j%d.ph", i) * 100, 0, 1e37, [i](Trick::JobData*) { return body(i); }); J.push_back(j);
    }
    // every thread has a job so that it exists
    for (int t = 1; t <= nt; t++) { Jb j; j.id = J.size(); j.obj = 0; j.thread = t; j.cls = "scheduled"; j.cyc = sf; j.name = fmt("j%d", j.id); int id = j.id; j.jd = O[0]->add(t, "scheduled", sf / 1e6, j.name.c_str(), 500, 0, 1e37, [id](Trick::JobData*) { return body(id); }); J.push_back(j); }
    Obj* x = new Obj; x->add(0, "shutdown", 1, "sd", 1, 0, 1e37, [](Trick::JobData*) { shut_s = seqno(); ended = true; return 0; });
    // children end their step before the main line goes on to this: the log is turned on and off by a job
    if (feat & F_JOBSW) { static int n; n = 0; x->add(0, CLASSES[pick("swcl", 12)], sf / 2e6, "swj", 1 + pick("swph", 60000), 0, 1e37, [](Trick::JobData*) { if (pickf(4, "swj%d", n++) == 3) sw(!on); return 0; }); }
    if (feat & F_FRZ) { py += "trick.exec_set_enable_freeze(True)\n"; static int n; n = 0; x->add(0, "scheduled", sf / 1e6, "frz", 1, 0, 1e37, [](Trick::JobData*) { if (pickf(6, "fz%d", n++) == 5) exec_freeze(); return 0; }); x->add(0, "freeze_init", 1, "fi", 1, 0, 1e37, [](Trick::JobData*) { probe("freeze"); return 0; }); x->add(0, "freeze", 1, "fr", 1, 0, 1e37, [](Trick::JobData*) { static int k; usleep(200); if (k++ % 3 == 2) exec_run(); return 0; }); }
    for (int i = 0; i < no; i++) exec_add_sim_object(O[i], fmt("flo%d", i).c_str()); exec_add_sim_object(x, "flx");
    // the jobs of this simulation are made by the input file, after default_data: let the frame log prepare itself once more, for all of them
    { std::vector<Trick::FrameDataRecordGroup*> old = the_fl->drg_users; old.push_back(the_fl->drg_trick); old.push_back(the_fl->drg_frame); for (auto* g : old) TMM_delete_extern_var_a(g); the_fl->drg_users.clear(); the_fl->user_jobs.clear(); the_fl->trick_jobs.clear(); the_fl->default_data(); }
    for (auto& j : J) j.fid = j.jd->frame_id;
    for (int i = 1; i <= nt; i++) { exec_set_thread_process_type(i, ttype[i] ? Trick::PROCESS_TYPE_AMF_CHILD : Trick::PROCESS_TYPE_SCHEDULED); if (ttype[i]) exec_set_thread_amf_cycle_time(i, tcyc[i] / 1e6); probe(ttype[i] ? "thread-amf" : "thread-scheduled"); }
    on_call(80, [](int v, int) { sw(v); return 0; });
    if (feat & F_MAX) { maxs = 1 + pick("max", 200); py += fmt("trick.frame_log_set_max_samples(%lld)\n", maxs); }
    if (pick("early", 4) < 3 || !(feat & (F_SWITCH | F_JOBSW))) py += "trick.dst_call(80,1,0)\n";
    if (feat & F_SWITCH) { int n = 1 + pick("nsw", 5); for (int i = 0; i < n; i++) py += fmt("trick.add_read(%.9g, \"trick.dst_call(80,%d,0)\")\n", pickf(Tend / base, "sw%d.t", i) * base / 1e6, (int)pickf(2, "sw%d.v", i)); }
    if (feat & (F_SWITCH | F_JOBSW)) py += fmt("trick.add_read(%.9g, \"trick.dst_call(80,1,0)\")\n", (Tend - (feat & F_SWITCH ? pick("last", 3) * base : base)) / 1e6);
    return py + fmt("trick.stop(%.9g)\n", Tend / 1e6);
}
std::string nm(int j) { return fmt("%s (%s, thread %d, id %.2f)", J[j].name.c_str(), J[j].cls.c_str(), J[j].thread, J[j].fid); }
struct Row { double id; ll a, b; int n; };
bool rows_of(int th, std::vector<Row>& r, int& total) {
    std::string p = outdir() + (th ? fmt("/log_newtimelineC%d.csv", th) : "/log_newtimeline.csv"); if (!file_exists(p)) return false; std::string s = read_file(p); size_t at = s.find('\n'); total = 0; if (s.compare(0, at, "jobID,startTime,stopTime")) return false;
    while (at + 1 < s.size()) { size_t e = s.find('\n', at + 1); if (e == std::string::npos) return false; double i, a, b; if (sscanf(s.substr(at + 1, e - at - 1).c_str(), "%lf, %lf, %lf", &i, &a, &b) != 3) return false; r.push_back({i, llround(a * 1e6), llround(b * 1e6), total++}); at = e; } return true;
}
// records of one group: time, then a value for each variable
bool trk(const std::string& p, std::vector<std::string>& names, std::vector<std::vector<double>>& recs) {
    if (!file_exists(p)) return false; std::string s = read_file(p); size_t o = 0; auto gi = [&]() { int v = 0; if (o + 4 <= s.size()) memcpy(&v, &s[o], 4); o += 4; return v; }; if (s.compare(0, 10, "Trick-10-L")) return false; o = 10; int n = gi(); std::vector<int> sz;
    for (int i = 0; i < n; i++) { int l = gi(); if (o + l > s.size()) return false; names.push_back(s.substr(o, l)); o += l; l = gi(); o += l; gi(); sz.push_back(gi()); }
    while (o < s.size()) { std::vector<double> r; for (int i = 0; i < n; i++) { double v = 0; if (o + sz[i] > s.size()) return false; if (sz[i] == 8) memcpy(&v, &s[o], 8); o += sz[i]; r.push_back(v); } recs.push_back(r); } return true;
}
void finish(int why, int code) {
    probe(why_name(why)); if (why == W_DEADLOCK || why == W_LIMIT) { bad("the simulation hangs", "%s", task_dump().substr(0, 300).c_str()); return; } if (why != W_EXIT) return; if (!ended || code) { bad("the simulation ended early", "code %d", code); return; }
    // the schedule is not disturbed
    int nt = ttype.size() - 1; note_step();
    for (auto& j : J) { ll next = 0; int n = 0; if (!j.cyc) continue; for (auto& h : H) if (h.job == j.id) { n++; if (h.t != next) { bad("logging disturbed the schedule of a job", "%s ran at %lld, expected %lld", nm(j.id).c_str(), h.t, next); return; } next += j.cyc; } ll lim = ttype[j.thread] ? Tend - tcyc[j.thread] : Tend; if (next <= lim - (ttype[j.thread] ? j.cyc : 0)) { bad("logging disturbed the schedule of a job", "%s ran %d times, next %lld, end %lld", nm(j.id).c_str(), n, next, Tend); return; } }
    if (!on) return;
    auto win = [&](const Rec& h) { int r = 0; bool in = false; u64 lo = 0; (void)lo; for (auto& s : S) { if (h.s1 && h.s1 < s.s0) break; if (h.s0 > s.s1) in = s.on; else r = 2; } return r == 2 ? 2 : in ? 1 : 0; };   // 0: not logged, 1: logged, 2: in progress at a switch
    std::map<std::pair<int, ll>, ll> frame; std::map<int, ll> csum; int allrows = 0;
    for (int th = 0; th <= nt; th++) {
        std::vector<Row> R; int total = 0; if (!rows_of(th, R, total)) { bad("the job timeline file is missing or damaged", "thread %d", th); return; } note_step(); if (total > maxs) { bad("more samples than the maximum", "%d of %lld", total, maxs); return; } bool full = total >= maxs; allrows += total;
        size_t k = 0; std::vector<Row> mine; for (auto& r : R) for (auto& j : J) if (j.thread == th && llround(j.fid * 100) == llround(r.id * 100)) mine.push_back(r); for (auto& r : R) { if (r.b < r.a) { bad("a logged duration is negative", "id %.2f: %lld to %lld", r.id, r.a, r.b); return; } for (auto& j : J) if (j.thread != th && llround(j.fid * 100) == llround(r.id * 100)) { bad("an execution is logged on another thread", "%s on thread %d", nm(j.id).c_str(), th); return; } }
        std::vector<Rec> E; for (auto& h : H) if (J[h.job].thread == th && h.s1) E.push_back(h); std::stable_sort(E.begin(), E.end(), [](const Rec& a, const Rec& b) { return a.s0 < b.s0; }); ll prev = LLONG_MIN;
        for (size_t i = 0; i < E.size(); i++) {
            Rec& h = E[i]; int w = win(h); note_step(); bool opt = w == 2 || h.s1 > shut_s; bool m = k < mine.size() && llround(mine[k].id * 100) == llround(J[h.job].fid * 100) && mine[k].a <= h.c0 + 1 && mine[k].b + 1 >= h.c1;
            if (m && (w == 0)) { bad("an execution was logged while logging was off", "%s at %lld", nm(h.job).c_str(), h.t); return; }
            if (!m && !opt && w == 1) { if (full && k >= mine.size()) break; if (k < mine.size()) bad("an execution was not logged, or not with its own times", "%s at %lld took %lld to %lld; the next row is id %.2f, %lld to %lld", nm(h.job).c_str(), h.t, h.c0, h.c1, mine[k].id, mine[k].a, mine[k].b); else bad("an execution was not logged", "%s at %lld (%zu rows, %d of all jobs)", nm(h.job).c_str(), h.t, mine.size(), total); return; }
            if (m) { ll nx = LLONG_MAX / 2; if (i + 1 < E.size()) nx = E[i + 1].c0; if (mine[k].a + 1 < prev || mine[k].b > nx + 1) { bad("a logged duration includes more than the job", "%s at %lld took %lld to %lld, logged %lld to %lld, the jobs before and after: %lld, %lld", nm(h.job).c_str(), h.t, h.c0, h.c1, mine[k].a, mine[k].b, prev, nx); return; }
                ll d = mine[k].b - mine[k].a; if (th == 0) { ll f = h.t / sf; if (J[h.job].cls == "end_of_frame") f = h.t / sf - 1; frame[{h.job, f}] += d; } if (h.t < Tend || J[h.job].cls == "end_of_frame") csum[h.job] += d; k++; probe("row"); }
            prev = h.c1;
        }
        if (k < mine.size()) { bad("an execution is logged that never happened", "thread %d: id %.2f, %lld to %lld", th, mine[k].id, mine[k].a, mine[k].b); return; }
    }
    { std::string p = outdir() + "/log_timeline.csv"; if (!file_exists(p)) { bad("the job timeline file is missing or damaged", "%s", p.c_str()); return; } std::string s = read_file(p); int n = std::count(s.begin(), s.end(), '\n'); if (n != 1 + 4 * allrows) { bad("the job timeline files do not agree", "%d lines for %d executions", n, allrows); return; } }
    if (maxs < 5000) return;
    { // the record of each frame of the main thread holds the time of each job in that frame
        std::vector<std::string> nms; std::vector<std::vector<double>> recs; std::string p = outdir() + "/log_frame_userjobs_main.trk"; if (!trk(p, nms, recs)) { bad("the frame log file is missing or damaged", "%s", p.c_str()); return; }
        for (auto& j : J) if (j.thread == 0) { size_t c = 0; for (size_t i = 0; i < nms.size(); i++) if (nms[i].find("." + j.name + ".") != std::string::npos || nms[i].find("." + j.name + "(") != std::string::npos) c = i; if (!c) { bad("a job is missing from the frame log", "%s", nm(j.id).c_str()); return; }
            for (auto& r : recs) { ll f = llround(r[0] * 1e6 / sf), got = llround(r[c] * 1e6), want = 0; auto i = frame.find({j.id, f}); if (i != frame.end()) want = i->second; note_step(); bool swf = false; for (auto& s : S) if (s.t / sf == f || s.t == (f + 1) * sf) swf = true; if (swf ? got > want : got != want) { bad("the frame log does not hold the time of the job in the frame", "%s frame %lld: %lld us, its executions took %lld us", nm(j.id).c_str(), f, got, want); return; } } }
        ll f0 = -1; for (auto& r : recs) { ll f = llround(r[0] * 1e6 / sf); if (f <= f0) { bad("a frame is recorded twice or out of order", "frame %lld after %lld", f, f0); return; } f0 = f; }
        for (ll f = 0; f < Tend / sf; f++) { bool in = false, was = false; for (auto& s : S) { if (s.t <= f * sf) was = s.on; else if (s.t <= (f + 1) * sf) was = false; } in = was; bool sn = false; for (auto& r : recs) if (llround(r[0] * 1e6 / sf) == f) sn = true; bool off = true, cur = false; for (auto& w : S) { if (w.t <= f * sf) cur = w.on; else if (w.t <= (f + 1) * sf) off = false; } for (auto& w : S) if (w.t == f * sf) off = false; if (cur) off = false; if (off && sn) { bad("a frame was recorded while logging was off", "frame %lld", f); return; } if (in && !sn) { bad("a frame was not recorded", "frame %lld of %zu", f, recs.size()); return; } }
        for (int th = 1; th <= nt; th++) if (S.size() == 1 && S[0].t == 0 && !ttype[th]) {
            nms.clear(); recs.clear(); p = outdir() + fmt("/log_trick_frame_userjobs_C%d.trk", th); if (!trk(p, nms, recs)) { bad("the frame log file is missing or damaged", "%s", p.c_str()); return; }
            for (auto& j : J) if (j.thread == th) { size_t c = 0; for (size_t i = 0; i < nms.size(); i++) if (nms[i].find("." + j.name + "_C") != std::string::npos || nms[i].find("." + j.name + ".") != std::string::npos || nms[i].find("." + j.name + "(") != std::string::npos) c = i; if (!c) { bad("a job is missing from the frame log", "%s", nm(j.id).c_str()); return; }
                ll got = 0; for (auto& r : recs) got += llround(r[c] * 1e6); note_step(); if (got != csum[j.id]) { bad("the frame log of a thread does not hold the time of its jobs", "%s: %lld us in %zu records, its executions took %lld us", nm(j.id).c_str(), got, recs.size(), csum[j.id]); return; } }
            probe("child-frames-checked"); }
        probe("frames-checked");
    }
}
Reg r({"fl", setup, finish, 60 * SEC, 20000000, "L01"});
}
