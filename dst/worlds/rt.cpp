// Real time: software frames against a clock, a sleep timer and a machine that misbehave. R01.
// The oracle keeps its own clock: an interval [lo,hi] that must contain what the real-time clock shows.
#include "common.hh"
#include "trick/RealtimeSync.hh"
#include "trick/GetTimeOfDayClock.hh"
#include "trick/ITimer.hh"
#include "trick/realtimesync_proto.h"
using namespace w;
extern Trick::RealtimeSync* the_rts;
namespace {
enum { F_ITIMER = 1, F_FRZ = 2, F_TOGGLE = 4, F_RATIO = 8, F_JUMP = 16, F_LIMIT = 32, F_STALL = 64, F_MONO = 128 };
int feat; ll sf, ff, Tend, nfr; double ratio, SLACK; bool active; i64 off; u64 last_jump, jumps;
struct Anchor { bool ok = false; double clo = 0, chi = 0; i64 wlo = 0, whi = 0; } A;
std::vector<std::pair<u64, u64>> stalls;                       // [from, to] the simulation got no processor
i64 W() { return (i64)now() + off; }                           // what the wall clock shows
// the clock in tics (1 tic = 1 us) for a wall clock time
double lo_at(i64 w) { return A.clo + (w - A.whi) / 1000.0 * ratio; }
double hi_at(i64 w) { return A.chi + (w - A.wlo) / 1000.0 * ratio; }
struct Mark { i64 w; u64 n; u64 j; u64 sk; };
Mark mark() { return {W(), now(), jumps, skipped()}; }
// widest wall clock interval between two marks, jumps included
void bracket(const Mark& a, const Mark& b, i64& lo, i64& hi) { lo = std::min(a.w, b.w); hi = std::max(a.w, b.w); if (a.j != b.j) { i64 d = (i64)(b.n - a.n); lo = std::min(lo, std::min(a.w, b.w - d)); hi = std::max(hi, std::max(b.w, a.w + d)); } }
void anchor(double clo, double chi, const Mark& a, const Mark& b) { A.ok = true; A.clo = clo - 2; A.chi = chi + 2; bracket(a, b, A.wlo, A.whi); }
u64 stalled(u64 a, u64 b) { u64 s = 0; for (auto& p : stalls) if (p.first < b && p.second > a) s += p.second - p.first; return s; }
bool from_start, limit_may; ll S_eof1, end_S; bool want_en, want_dis, expect_end, end_frz, in_frz; ll frames_checked; Mark m_eof, m_tof, m_init, m_fz; unsigned tot0, cnt; ll S_eof = -1, ft; double lag_in; int rearm; unsigned maxcnt; u64 frame_j; double maxtime; bool lim_frz; ll fpass, fpasses; std::vector<ll> fz_len; size_t fz_i; u64 fz_slow; bool was_active;
std::string ctx() { return fmt("frame %lld of %lld tics, ratio %g, %s, at %lld", tics() / sf, sf, ratio, feat & F_ITIMER ? "itimer" : "spinning", tics()); }
// the boundary S may not be passed before the clock has reached it
void not_ahead(const char* where, ll S) {
    note_step(); double h = hi_at(W()); if (h < S - 3) violation("R01", in_frz ? "a freeze cycle ends ahead of the clock" : "a frame starts ahead of the clock", "%s: the clock shows at most %.0f, %.0f us early; %s", where, h, (S - h) / ratio, ctx().c_str());
}
void tof() {
    ll S = tics(); Mark m = mark(); if (S == 0 && S_eof < 0) { if (from_start && !A.ok) anchor(0, 0, m_init, m); active = from_start; tot0 = the_rts->total_overrun; return; }
    if (expect_end && !active) expect_end = false; // real time was turned off meanwhile
    if (expect_end && S > end_S + sf) { violation("R01", "the simulation goes on after an overrun limit was reached", "%s", ctx().c_str()); return; }
    if (!A.ok || !active) return; not_ahead("top of frame", S);
}
void eof0() { m_eof = mark(); S_eof = tics(); was_active = active; }
void eof1() {
    ll S = tics(); Mark m = mark(); unsigned d = the_rts->total_overrun - tot0; tot0 = the_rts->total_overrun; S_eof1 = S;
    if (!active) { if (want_en) { active = true; anchor(S, S, m_eof, m); frame_j = m.j; probe("turned-on"); } want_en = want_dis = false; if (d) violation("R01", "an overrun was counted without real time", "%s", ctx().c_str()); step("off", S); return; }
    double l1 = lo_at(m_eof.w), h1 = hi_at(m_eof.w), l2 = lo_at(m.w), h2 = hi_at(m.w); bool jumped = m.j != m_eof.j; note_step(); frames_checked++; step("over", d);
    not_ahead("end of frame", S);
    if (d > 1) violation("R01", "an overrun was counted more than once", "%u times at one frame; %s", d, ctx().c_str());
    if (!jumped) {
        if (d == 0 && l1 > S + 3) violation("R01", "an overrun was not counted", "the frame ended %.0f us late; %s", (l1 - S) / ratio, ctx().c_str());
        if (d && (h2 < S - 3 || (h1 < S - 3 - SLACK * ratio && !stalled(m_eof.n, m.n)))) violation("R01", "an overrun was counted for a frame that was in time", "the frame ended %.0f us early; %s", (S - h1) / ratio, ctx().c_str());
        // the monitor waits for the boundary and for nothing else
        double st = (stalled(m_eof.n, m.n) + m.sk - m_eof.sk) / 1000.0, need = std::max((double)S, l1); // a step of the clock during the frame leaves the sleep timer behind, for that frame only
        if (l2 > need + (SLACK + st) * ratio && !((feat & F_ITIMER) && frame_j != m.j)) {
            violation("R01", d ? "an overrun frame is followed by a pause" : "the simulation is late although the frame was in time", "it starts %.0f us late, the jobs were done %.0f us before the boundary; %s", (l2 - S) / ratio, (S - l1) / ratio, ctx().c_str()); }
    }
    frame_j = m.j; if (d) { cnt++; probe("overruns"); } else { if (cnt) probe("recovered"); cnt = 0; }
    if (the_rts->frame_overrun_cnt != cnt) violation("R01", "the count of consecutive overruns is wrong", "%u, expected %u; %s", the_rts->frame_overrun_cnt, cnt, ctx().c_str());
    if (d) { bool must = (maxcnt && cnt >= maxcnt) || (maxtime > 0 && l1 - S > maxtime * 1e6 + 3); if (maxtime > 0 && h2 - S >= maxtime * 1e6 - 3) limit_may = true; if (must && !lim_frz) violation("R01", "the simulation goes on after an overrun limit was reached", "%u overruns in a row, %.0f us late; %s", cnt, (l1 - S) / ratio, ctx().c_str()); if (must && !expect_end) { expect_end = true; end_S = S; limit_may = true; probe(lim_frz ? "limit-freeze" : "limit-exit"); } }
    if (want_dis) { active = false; A.ok = false; probe("turned-off"); } want_en = want_dis = false;
}
void do_ratio(double r) { Mark a = mark(); double cl = A.ok ? lo_at(a.w) : 0; the_rts->set_rt_clock_ratio(r); Mark b = mark(); double ch = A.ok ? hi_at(b.w) : 0; if (a.j != b.j) { i64 l, h; bracket(a, b, l, h); if (A.ok) { cl = std::min(cl, lo_at(l)); ch = std::max(ch, hi_at(h)); } } ratio = r; if (A.ok) anchor(cl, ch, a, b); probe("ratio-changed"); step("ratio", (u64)(r * 100)); }
std::string setup() {
    feat = opti("feat", 0); std::string py; exec_set_time_tic_value(1000000); A = Anchor(); off = 0; jumps = frame_j = 0; active = false; ratio = 1; tot0 = cnt = 0; S_eof = S_eof1 = -1; expect_end = limit_may = false; frames_checked = 0; want_en = want_dis = in_frz = false; stalls.clear(); maxcnt = 0; maxtime = 0; lim_frz = false;
    static const int fr[] = {10000, 20000, 50000, 5000, 100000, 12500, 30000, 200000}, dv[] = {1, 2, 5, 10}; sf = fr[pick("sf", 8)]; ll cyc = sf / dv[pick("cyc", 4)]; nfr = 10 + pick("frames", 40); if (sf >= 100000) nfr = 10 + nfr / 3; Tend = nfr * sf; exec_set_software_frame(sf / 1e6);
    ff = fr[pick("ff", 8)]; exec_set_freeze_frame(ff / 1e6); SLACK = 400; if (pick("f.over", 3) == 2) { fault_rate("oversleep", 20000); SLACK += 2100; } if (pick("f.spur", 4) == 3) fault_rate("spurious_wakeup", 20000);
    from_start = !(feat & F_TOGGLE) || pick("start", 3) < 2; if (from_start) the_rts->enable(); if (feat & F_ITIMER) { py += "trick.itimer_enable()\n"; }
    if (feat & F_MONO) { Trick::GetTimeOfDayClock* c = dynamic_cast<Trick::GetTimeOfDayClock*>(the_rts->rt_clock); if (!c) invalid("no clock"); else c->set_clock_ID(CLOCK_MONOTONIC); }
    if ((feat & F_RATIO) && pick("r0", 2)) { static const double rs[] = {2, 0.5, 4, 1.5}; ratio = rs[pick("r0v", 4)]; the_rts->rt_clock->set_rt_clock_ratio(ratio); }
    Obj* o = new Obj;
    o->add(0, "initialization", 1, "ini", 65534, 0, 1e37, [](Trick::JobData*) { m_init = mark(); return 0; });
    bool al = pick("al", 8) == 7; if (al) { the_rts->align_sim_to_wall_clock = true; the_rts->align_tic_mult = 0.1; }
    o->add(0, "initialization", 1, "in2", 65535, 0, 1e37, [al](Trick::JobData*) { if (!from_start) return 0; if (!al) { anchor(0, 0, m_init, mark()); return 0; } Mark a = mark(); double c = the_rts->rt_clock->clock_time(); Mark b = mark(); anchor(c, c, a, b); if (ratio == 1 && jumps == 0 && !(feat & (F_MONO | F_STALL))) { i64 r = W() % (i64)(100 * MS); note_step(); probe("aligned"); step("al", r / 1000); if (r > (i64)(SLACK * 1000 + skipped())) violation("R01", "the start is not aligned with the wall clock", "%lld us after a tenth of a second", (ll)r / 1000); } return 0; });
    o->add(0, "top_of_frame", 1, "tof", 1, 0, 1e37, [](Trick::JobData*) { tof(); return 0; });
    o->add(0, "end_of_frame", 1, "eof0", 65534, 0, 1e37, [](Trick::JobData*) { eof0(); return 0; });
    o->add(0, "end_of_frame", 1, "eof1", 65535, 0, 1e37, [](Trick::JobData*) { eof1(); return 0; });
    // the load: a share of the frame, with frames that take too long
    ll per = sf / cyc; u64 base = (u64)(sf * 1000 / ratio / per) * pick("load", 6) / 10; std::map<ll, u64> extra; int nb = pick("bursts", 5); for (int i = 0; i < nb; i++) { ll f = pickf(nfr, "b%d.f", i), len = 1 + pickf(4, "b%d.l", i); int kd = pickf(4, "b%d.k", i); static const int pc[] = {110, 150, 300, 700}; for (ll k = 0; k < len; k++) extra[f + k] += (u64)(sf * 10 / ratio) * pc[kd]; }
    bool par = pick("par", 2); o->add(0, "scheduled", cyc / 1e6, "load", 60000, 0, 1e37, [=](Trick::JobData*) { ll t = tics(); u64 c = base; if (t % sf == 0) { auto i = extra.find(t / sf); if (i != extra.end()) c += i->second; } if (c) { if (par) compute(c); else burn(c); } return 0; });
    if (feat & F_TOGGLE) for (int i = 0, k = 1 + pick("ntog", 6); i < k; i++) { ll t = cyc * pickf(Tend / cyc, "tg%d.t", i); int kd = pickf(2, "tg%d.k", i); o->add(0, "scheduled", 1e3, fmt("tg%d", i).c_str(), 60001, t / 1e6, 1e37, [kd](Trick::JobData*) { if (want_en || want_dis) return 0; if (kd == 0) { the_rts->enable(); want_en = true; } else { the_rts->disable(); want_dis = true; } return 0; }); }
    if (feat & F_RATIO) for (int i = 0, k = 1 + pick("nrat", 4); i < k; i++) { ll t = cyc * pickf(Tend / cyc, "ra%d.t", i); static const double rs[] = {2, 0.5, 4, 1.5, 1}; double r = rs[pickf(5, "ra%d.r", i)]; o->add(0, "scheduled", 1e3, fmt("ra%d", i).c_str(), 60002, t / 1e6, 1e37, [r](Trick::JobData*) { do_ratio(r); return 0; }); }
    if (feat & F_JUMP) for (int i = 0, k = 1 + pick("njmp", 4); i < k; i++) { u64 t = pickf(Tend / 100, "j%d.t", i) * 100 * US + MS; static const i64 js[] = {1, -1, 20, -20, 200, -200, 1000, -700}; i64 d = js[pickf(8, "j%d.d", i)] * (i64)MS; at(t, [d] { clock_jump(d); if (!(feat & F_MONO)) { off += d; jumps++; last_jump = now(); } probe(d > 0 ? "clock-forward" : "clock-back"); }); }
    if (feat & F_STALL) for (int i = 0, k = 1 + pick("nst", 5); i < k; i++) { u64 t = pickf(Tend / 10, "s%d.t", i) * 10 * US + MS; static const u64 ds[] = {1, 5, 15, 40, 90, 150}; u64 d = ds[pickf(6, "s%d.d", i)] * MS; at(t, [d] { stall_task(0, d); stalls.push_back({now(), now() + d}); probe("stalled"); }); }
    if (feat & F_LIMIT) { static const int mc[] = {2, 3, 1, 5}; static const double mt[] = {0, 0.01, 0.03, 0.1}; if (pick("lm", 3) != 1) maxcnt = mc[pick("lm.c", 4)]; if (!maxcnt || pick("lm.t", 2)) maxtime = mt[1 + pick("lm.tv", 3)]; lim_frz = pick("lm.f", 3) == 2; if (maxcnt) the_rts->rt_max_overrun_cnt = maxcnt; if (maxtime > 0) the_rts->rt_max_overrun_time = maxtime; the_rts->rt_overrun_freeze = lim_frz; }
    exec_set_enable_freeze(1); fz_len.clear(); fz_i = 0; int nz = feat & F_FRZ ? 1 + pick("nfz", 3) : 0; for (int i = 0; i < nz; i++) { ll t = cyc * pickf(Tend / cyc, "fz%d.t", i); fz_len.push_back(1 + pickf(6, "fz%d.n", i)); o->add(0, "scheduled", 1e3, fmt("fz%d", i).c_str(), 60003, t / 1e6, 1e37, [](Trick::JobData*) { exec_freeze(); return 0; }); }
    fz_slow = feat & F_FRZ ? (u64)ff * 1000 * pick("fz.slow", 4) / (pick("fz.sd", 2) ? 1 : 4) : 0;
    o->add(0, "freeze_init", 1, "fzi", 65535, 0, 1e37, [](Trick::JobData*) { in_frz = true; fpass = 0; ft = tics(); double h = A.ok && active ? hi_at(W()) - tics() : 0; lag_in = h > 0 ? h : 0; step("frz", tics()); probe("frozen"); return 0; });
    // one cycle: the pass begins, does its work, may turn real time on or off, and pauses
    bool ftog = (feat & F_TOGGLE) && (feat & F_FRZ);
    o->add(0, "freeze", 1, "fz0", 1, 0, 1e37, [ftog](Trick::JobData*) { fpass++; if (active && A.ok) not_ahead("freeze cycle", ft); if (fz_slow && fpass % 2) compute((u64)(fz_slow / 1)); if (ftog && !want_en && !want_dis) { int k = pickf(6, "fzt%zu.%lld", fz_i, fpass); if (k == 4) { the_rts->enable(); want_en = true; } if (k == 5) { the_rts->disable(); want_dis = true; } } m_fz = mark(); if (fpass >= (fz_i < fz_len.size() ? fz_len[fz_i] : 2)) exec_run(); return 0; });
    o->add(0, "freeze", 1, "fz1", 65535, 0, 1e37, [](Trick::JobData*) { Mark m = mark(); if (!active) { if (want_en) { active = true; anchor(ft, ft, m_fz, m); probe("turned-on-frozen"); } want_en = want_dis = false; return 0; } ft += ff; not_ahead("freeze cycle", ft);
        if (want_dis) { active = false; A.ok = false; } want_en = want_dis = false; return 0; });
    o->add(0, "unfreeze", 1, "uf0", 1, 0, 1e37, [](Trick::JobData*) { m_fz = mark(); return 0; });
    o->add(0, "unfreeze", 1, "uf1", 65535, 0, 1e37, [](Trick::JobData*) { ll S = tics(); Mark m = mark(); fz_i++; in_frz = false; if (!active || !A.ok) return 0; note_step(); if (expect_end) violation("R01", "the simulation goes on after an overrun limit was reached", "%s", ctx().c_str());
        double c = the_rts->rt_clock->clock_time(); Mark m2 = mark(); double st = stalled(m.n > 2000000000ull ? m.n - 2000000000ull : 0, m2.n) / 1000.0 + (jumps ? 3e6 : 0);
        if (c < S - 3 - (jumps ? 3e6 : 0)) violation("R01", "after a freeze the clock is behind the simulation", "by %.0f tics; %s", S - c, ctx().c_str());
        if (c > S + lag_in + sf + (SLACK * 2 + st) * ratio) violation("R01", "time spent frozen counts as an overrun afterwards", "the clock is %.0f tics ahead of the simulation when it goes on, it was %.0f when it froze; %s", c - S, lag_in, ctx().c_str());
        anchor(c, c, m, m2); frame_j = m2.j; return 0; });
    exec_add_sim_object(o, "rto"); py += fmt("trick.stop(%.9g)\n", Tend / 1e6); return py;
}
void finish(int why, int code) {
    if (why != W_EXIT) { violation("R01", "the simulation hangs", "%s at %lld of %lld; %s", why_name(why), tics(), Tend, task_dump().substr(0, 400).c_str()); return; }
    if (frames_checked) probe("frames-checked", frames_checked);
    if (S_eof != S_eof1) { // ended by the frame monitor itself
        double h = hi_at(W()); bool may = code && (feat & F_LIMIT) && !lim_frz && active && h > S_eof - 3 && ((maxcnt && cnt + 1 >= maxcnt) || (maxtime > 0 && h - S_eof >= maxtime * 1e6 - 3)); if (may) { probe("ended-by-limit"); return; }
        violation("R01", "the frame monitor ended the simulation without cause", "exit code %d, %u overruns in a row, at most %.0f tics late at %lld", code, cnt, h - S_eof, S_eof); return; }
    if (expect_end) { if (!code && tics() >= Tend && end_S + sf >= Tend) probe("limit-at-the-end"); else if (!code) violation("R01", "an overrun limit ends the simulation without an error", "exit code %d", code); else probe("ended-by-limit"); return; }
    if (tics() < Tend) { if (!(limit_may && lim_frz && code)) violation("R01", "the simulation ended early", "%lld of %lld, exit code %d", tics(), Tend, code); }
    else if (code && !(limit_may && lim_frz)) violation("R01", "the simulation ended with an error", "exit code %d", code);
}
static Reg r({"rt", setup, finish, 400 * SEC, 60000000, "R01"});
}
