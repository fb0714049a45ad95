// Data recording: groups of every kind record known values while the writer thread, the disk and the process misbehave.
// D01 every sample once, in order, exact. D02 what a crash leaves. D04 disk errors.
#include "common.hh"
#include "trick/DataRecordDispatcher.hh"
#include "trick/DRAscii.hh"
#include "trick/DRBinary.hh"
#include "trick/memorymanager_c_intf.h"
using namespace w;
extern Trick::DataRecordDispatcher* the_drd;
namespace {
enum { F_CTL = 1, F_CRASH = 2, F_DISK = 4, F_DYN = 8, F_FREEZE = 16 };
struct Var { int kind, k; std::string name; };
struct Row { ll t, n; bool before, opt; ll seq; };
struct Grp {
    int id; bool bin = false; std::string name, delim = ","; int buf = 0, freq = 0, cap = 100000; std::vector<ll> rates; std::vector<Var> vars; std::vector<Var> chg; Trick::DataRecordGroup* g = nullptr; ll maxsize = 0;
    bool on = true; ll born = 0, gone = LLONG_MAX, watch = 0, last = 0; std::vector<Row> rows; std::vector<std::pair<ll, bool>> sw; std::vector<ll> nows; bool removed = false;
};
std::vector<Grp*> G; DstVars* DV; ll n, mcyc, Tend, sf; std::vector<std::pair<ll, ll>> hist; int feat; ll eof_done = -1; bool ended; DstNode* PNODE[2]; u64 crash_k;
ll n_at(ll t) { ll r = 0; for (size_t lo = 0, hi = hist.size(); lo < hi;) { size_t m = (lo + hi) / 2; if (hist[m].first <= t) { r = hist[m].second; lo = m + 1; } else hi = m; } return r; }
void set_vars() {
    n++; hist.push_back({tics(), n}); DstVars& v = *DV;
    for (int k = 0; k < 8; k++) v.cnt[k] = n * 8 + k; v.x = n + 0.5; v.f = n * 0.25f; v.sh = n & 0x7fff; v.ush = (n * 3) & 0xffff; v.l = -n; v.u = n * 7; v.c = 'a' + n % 26; v.uc = n & 0xff; v.b = n & 1; v.e = n % 2 ? DE_SEVEN : DE_NEG; v.bf1 = n & 7; v.bf3 = n % 16 - 8;
    for (int k = 0; k < 4; k++) v.arr[k] = n + 0.25 * k; v.vec[1] = n - 0.5; v.pnode->a = -77; v.pnode = PNODE[n & 1]; v.pnode->a = n * 5; v.pn[0] = &v.nodes[n & 1]; v.pn[0]->a = n * 3; v.pn[1] = &v.nodes[(n >> 1) & 1]; v.pn[1]->b[2] = n + 0.75; for (int k = 0; k < 64; k++) v.w[k] = n * 64 + k; v.ull = n * 10000000000ll; v.i = n / 3; v.kg = n / 4;
}
const char* NM[] = {"cnt[%d]", "x", "f", "sh", "ush", "l", "u", "c", "uc", "b", "e", "bf1", "bf3", "arr[%d]", "vec[1]", "pnode[0].a", "w[%d]", "ull", "i", "kg", "pn[0]->a", "pn[1]->b[2]"}; const int NK = 22;
std::string tok(const Var& v, ll n) {
    switch (v.kind) { case 0: return fmt("%lld", n ? n * 8 + v.k : 0); case 1: return fmt("%.16g", n ? n + 0.5 : 0.0); case 2: return fmt("%.8g", n * 0.25); case 3: return fmt("%lld", n & 0x7fff); case 4: return fmt("%lld", (n * 3) & 0xffff); case 5: return fmt("%lld", -n); case 6: return fmt("%lld", n * 7); case 7: return n ? std::string(1, 'a' + n % 26) : "";
        case 8: return fmt("%lld", n & 0xff); case 9: return fmt("%lld", n & 1); case 10: return n ? n % 2 ? "7" : "-3" : "0"; case 11: return fmt("%lld", n & 7); case 12: return fmt("%lld", n ? n % 16 - 8 : 0); case 13: return fmt("%.16g", n ? n + 0.25 * v.k : 0.0); case 14: return fmt("%.16g", n ? n - 0.5 : 0.0); case 15: return fmt("%lld", n * 5);
        case 16: return fmt("%lld", n ? n * 64 + v.k : 0); case 17: return fmt("%lld", n * 10000000000ll); case 18: return fmt("%lld", n / 3); case 19: return fmt("%.16g", (double)(n / 4)); case 20: return fmt("%lld", n * 3); case 21: return fmt("%.16g", n ? n + 0.75 : 0.0); }
    return "?";
}
ll watched(Grp* g, ll n) { ll h = 0; for (auto& v : g->chg) h = h * 1000003 + (v.kind == 18 ? n / 3 : v.kind == 19 ? n / 4 : v.kind == 9 ? (n & 1) : n); return h; }
// the model: what the group records at time t with the variables of step n
void model_record(Grp* g, ll t, bool opt) {
    bool chg = true; if (g->freq) { ll h = watched(g, n); chg = h != g->watch; g->watch = h; }
    if (g->freq == 0 || g->rows.empty() || chg) { if (g->freq == 2 && !g->rows.empty()) g->rows.push_back({t, g->last, true, opt, 0}); else if (g->freq == 2) g->rows.push_back({t, 0, true, true, 0}); g->rows.push_back({t, n, false, opt, 0}); g->last = n; }
}
bool on_rate(Grp* g, ll t) { for (ll r : g->rates) if (t % r == 0) return true; return false; }
Var mkvar(int kind, int k) { Var v; v.kind = kind; v.k = k; v.name = std::string("dst.v.") + fmt(NM[kind], k); return v; }
Grp* mkgroup(int i) {
    Grp* g = new Grp; g->id = i; G.push_back(g); g->name = fmt("g%d", i); g->bin = pickf(2, "g%d.bin", i); static const int bt[] = {Trick::DR_Buffer, Trick::DR_No_Buffer, Trick::DR_Ring_Buffer}; int bi = pickf(5, "g%d.buf", i); g->buf = bt[bi > 2 ? 0 : bi]; g->freq = std::max(0, (int)pickf(5, "g%d.freq", i) - 2);
    static const int cp[] = {100000, 2, 3, 5, 10, 30, 100, 4}; g->cap = cp[pickf(8, "g%d.cap", i)]; int nv = 1 + pickf(8, "g%d.nv", i);
    for (int j = 0; j < nv; j++) { int kd = pickf(NK, "g%d.v%d", i, j); g->vars.push_back(mkvar(kd, kd == 0 ? pickf(8, "g%d.k%d", i, j) : kd == 13 ? pickf(4, "g%d.k%d", i, j) : kd == 16 ? pickf(64, "g%d.k%d", i, j) : 0)); }
    static const int rt[] = {1, 2, 4, 3, 5, 10, 7}; g->rates.push_back(mcyc * rt[pickf(7, "g%d.rate", i)] / (pickf(4, "g%d.fast", i) == 3 ? 2 : 1)); for (int j = 0, k = std::max(0, (int)pickf(5, "g%d.nr", i) - 2); j < k; j++) g->rates.push_back(mcyc * rt[pickf(7, "g%d.r%d", i, j)]);
    if (g->freq) { static const int ck[] = {18, 19, 9, 1}; int nc = 1 + pickf(2, "g%d.nc", i); for (int j = 0; j < nc; j++) g->chg.push_back(mkvar(ck[pickf(4, "g%d.c%d", i, j)], 0)); }
    Trick::DataRecordGroup* d; if (g->bin) d = new Trick::DRBinary(g->name); else { auto* a = new Trick::DRAscii(g->name); if (pickf(4, "g%d.dl", i) == 3) { g->delim = "\t"; a->set_delimiter("\t"); } d = a; } g->g = d;
    d->set_cycle(g->rates[0] / 1e6); for (size_t j = 1; j < g->rates.size(); j++) d->add_cycle(g->rates[j] / 1e6); d->set_freq((Trick::DR_Freq)g->freq); d->set_max_buffer_size(g->cap); for (auto& v : g->vars) d->add_variable(v.name); for (auto& v : g->chg) d->add_change_variable(v.name); g->watch = watched(g, n);
    if (pickf(8, "g%d.max", i) == 7) { g->maxsize = 200 + pickf(3000, "g%d.maxs", i); d->set_max_file_size(g->maxsize); }
    the_drd->add_group(d, (Trick::DR_Buffering)g->buf); probe(g->bin ? "binary-group" : "ascii-group"); probe(g->freq == 0 ? "freq-always" : g->freq == 1 ? "freq-changes" : "freq-step"); probe(g->buf == Trick::DR_Buffer ? "buffered" : g->buf == Trick::DR_No_Buffer ? "unbuffered" : "ring");
    return g;
}
std::string setup() {
    feat = opti("feat", 0); std::string py; n = 0; { REF2* r = ref_attributes("dst.v"); if (!r) { invalid("no dst.v"); return py; } DV = (DstVars*)r->address; } DV->vec.assign(3, 0.0); DV->pnode = PNODE[0] = (DstNode*)TMM_declare_var_s("DstNode pn"); PNODE[1] = (DstNode*)TMM_declare_var_s("DstNode pn2"); DV->pn[0] = DV->pn[1] = &DV->nodes[0];
    exec_set_time_tic_value(1000000); static const int mc[] = {10000, 5000, 20000, 50000, 100000}; mcyc = mc[pick("mcyc", 5)]; static const int fr[] = {10, 1, 4, 20, 50}; sf = mcyc * fr[pick("frame", 5)]; exec_set_software_frame(sf / 1e6); Tend = mcyc * (20 + pick("steps", (feat & F_CRASH) ? 80 : 200)); if (pick("odd", 3) == 2) Tend += mcyc / 2;
    Obj* o = new Obj; u64 wk = pick("work", 300) * US;
    o->add(0, "scheduled", mcyc / 1e6, "upd", 60000, 0, 1e37, [wk](Trick::JobData*) { if (wk) compute(wk); set_vars(); step("n", n); return 0; });
    // the model records right before the groups do
    ll res = mcyc / 2; o->add(0, "logging", res / 1e6, "mdl", 65535, 0, 1e37, [](Trick::JobData*) { ll t = tics(); for (auto* g : G) if (!g->removed && g->on && !(g->nows.size() && g->nows.back() == t) && ((on_rate(g, t) && t >= g->born) || (t == g->born && t))) { model_record(g, t, false); note_step(); } return 0; });
    o->add(0, "end_of_frame", 1, "eof", 65535, 0, 1e37, [](Trick::JobData*) { eof_done = tics(); return 0; });
    int ng = 1 + pick("groups", 4); for (int i = 0; i < ng; i++) mkgroup(i);
    if (feat & F_CTL) for (int i = 0, k = 1 + pick("nctl", 5); i < k; i++) { int w = pickf(ng, "ctl%d.g", i), kd = pickf(3, "ctl%d.k", i); ll t = mcyc * (1 + pickf((Tend / mcyc), "ctl%d.t", i)); o->add(0, "scheduled", 1e3, fmt("ctl%d", i).c_str(), 60001, t / 1e6, 1e37, [w, kd](Trick::JobData*) { Grp* g = G[w]; if (g->removed) return 0; if (kd == 2) { probe("record-now"); logf("record_now %s", g->name.c_str()); if (!g->on) return 0; if (!(g->nows.size() && g->nows.back() == tics())) model_record(g, tics(), false); else if (!g->freq) g->rows.push_back(g->rows.back()); g->nows.push_back(tics()); the_drd->record_now_group(g->name.c_str()); } else { probe(kd ? "enable" : "disable"); logf("%s %s", kd ? "enable" : "disable", g->name.c_str()); g->on = kd; g->sw.push_back({tics(), kd}); if (kd) the_drd->enable(g->name.c_str()); else the_drd->disable(g->name.c_str()); } return 0; }); }
    if (feat & F_DYN) for (int i = 0, k = 1 + pick("ndyn", 3); i < k; i++) { int kd = pickf(2, "dyn%d.k", i), w = pickf(ng, "dyn%d.g", i); ll t = mcyc * (1 + pickf((Tend / mcyc), "dyn%d.t", i)); o->add(0, "scheduled", 1e3, fmt("dyn%d", i).c_str(), 60002, t / 1e6, 1e37, [=](Trick::JobData*) { if (kd) { if (G[w]->removed) return 0; probe("group-removed"); G[w]->removed = true; G[w]->gone = tics(); the_drd->remove_group(G[w]->g); } else { probe("group-added"); Grp* g = mkgroup(10 + i); g->born = tics(); g->g->init(); } return 0; }); }
    if (feat & F_FREEZE) { exec_set_enable_freeze(1); static int passes; passes = 0; o->add(0, "freeze", 1, "fz", 65535, 0, 1e37, [](Trick::JobData*) { if (++passes % 5 == 0) exec_run(); return 0; }); for (int i = 0, k = 1 + pick("fz", 3); i < k; i++) py += fmt("trick.freeze(%.9g)\n", (double)(1 + pickf(Tend / mcyc, "fz%d", i)) * mcyc / 1e6); }
    exec_add_sim_object(o, "dro");
    // how the writer and the disk behave
    if (pick("f.spur", 3) == 2) fault_rate("spurious_wakeup", 20000); if (pick("f.over", 3) == 2) fault_rate("oversleep", 30000);
    if (pick("f.stall", 2)) for (int i = 0; i < 4; i++) { u64 t = pickf(3000, "st%d.t", i) * MS / 10, d = pickf(2000, "st%d.d", i) * MS; at(t, [d] { int w = find_task("DR_Writer"); if (w >= 0) { stall_task(w, d); probe("writer-stalled"); } }); }
    io_managed_filter([](const std::string& p) { return p.find("/log_") != std::string::npos; });
    if (feat & F_DISK) { static const u64 lv[] = {2000, 20000, 100000}; if (pick("f.sp", 2)) fault_rate("disk_short", lv[pick("f.spl", 3)]); if (pick("f.in", 2)) fault_rate("disk_eintr", lv[pick("f.inl", 3)]); if (pick("f.ns", 2)) fault_rate("disk_enospc", lv[pick("f.nsl", 3)]); if (pick("f.io", 2)) fault_rate("disk_eio", lv[pick("f.iol", 3)] / 4); if (pick("f.op", 4) == 3) fault_rate("open_fail", 100000); }
    if (feat & F_CRASH) { crash_k = pick("crash.k", 1 + pick("crash.max", 600)); io_crash_at_write(crash_k, pick("crash.keep", 3) ? pick("crash.kn", 60) : -1); if (pick("crash.t", 4) == 3) at((u64)(pick("crash.at", Tend / 10)) * 1000, [] { end_run(W_CRASHPOINT, 0); }); }
    py += fmt("trick.stop(%.9g)\n", Tend / 1e6); return py;
}
std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" "), b = s.find_last_not_of(" "); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> v; size_t p = 0; for (;;) { size_t q = s.find(d, p); if (q == std::string::npos) { v.push_back(s.substr(p)); return v; } v.push_back(s.substr(p, q - p)); p = q + 1; } }
std::string rowtext(Grp* g, const Row& r) { std::string s = fmt("%.16g", r.t / 1e6); for (auto& v : g->vars) s += "|" + tok(v, r.n); return s; }
// the rows of a file in the form of rowtext; torn: what is behind the last whole row
struct File { bool exists = false, header = false, hprefix = false; std::vector<std::string> rows; std::string torn, bad; };
const char* UNITS[] = {"1", "m", "m/s", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "m", "1", "1", "1", "1", "1", "kg", "1", "m"};
const int TY[] = {Trick::DR_Always};
File parse_ascii(Grp* g, const std::string& s) {
    File f; f.exists = true; size_t e = s.find('\n'); std::string want = "sys.exec.out.time {s}"; (void)UNITS; std::string h = s.substr(0, e == std::string::npos ? s.size() : e); auto ht = split(h, g->delim[0]); std::vector<std::string> names = {"sys.exec.out.time"}; for (auto& v : g->vars) names.push_back(v.name);
    if (e == std::string::npos) { f.hprefix = true; size_t k = 0; for (; k + 1 < ht.size() && k < names.size(); k++) if (ht[k].compare(0, names[k].size() + 1, names[k] + " ")) { f.bad = "header"; return f; } return f; }
    f.header = true; if (ht.size() != names.size()) { f.bad = "header: " + h; return f; } for (size_t k = 0; k < names.size(); k++) if (ht[k].compare(0, names[k].size() + 1, names[k] + " ") && ht[k] != names[k]) { f.bad = "header: " + h; return f; }
    size_t p = e + 1; while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) { f.torn = s.substr(p); break; } auto t = split(s.substr(p, q - p), g->delim[0]); std::string r; for (size_t k = 0; k < t.size(); k++) r += (k ? "|" : "") + trim(t[k]); f.rows.push_back(r); p = q + 1; }
    return f;
}
File parse_bin(Grp* g, const std::string& s) {
    File f; f.exists = true; size_t p = 0; bool eof = false; auto get = [&](size_t k) -> const char* { if (p + k > s.size()) { eof = true; return nullptr; } const char* q = &s[p]; p += k; return q; }; auto geti = [&]() { const char* q = get(4); int i = 0; if (q) memcpy(&i, q, 4); return i; };
    const char* m = get(10); if (eof) { f.hprefix = true; return f; } if (memcmp(m, "Trick-10-L", 10)) { f.bad = "magic"; return f; } int c = geti(); if (eof) { f.hprefix = true; return f; } if (c != (int)g->vars.size() + 1) { f.bad = fmt("header: %d variables", c); return f; }
    std::vector<int> sz; size_t rec = 0; for (int i = 0; i < c; i++) { int l = geti(); const char* nm = eof ? nullptr : get(l); if (eof) { f.hprefix = true; return f; } std::string name(nm, l); if (name != (i ? g->vars[i - 1].name : "sys.exec.out.time")) { f.bad = "header: name " + name; return f; } l = geti(); if (!eof) get(l); geti(); int z = geti(); if (eof) { f.hprefix = true; return f; } sz.push_back(z); rec += z; }
    f.header = true; while (p + rec <= s.size()) { std::string r; for (int i = 0; i < c; i++) { const char* q = &s[p]; std::string t; auto I = [&](bool sg) { ll x = 0; memcpy(&x, q, sz[i]); if (sg && sz[i] < 8) { int b = 64 - 8 * sz[i]; x = (ll)((unsigned long long)x << b) >> b; } return fmt("%lld", x); }; auto D = [&] { double d; memcpy(&d, q, 8); return fmt("%.16g", d); };
            if (i == 0) t = D(); else switch (g->vars[i - 1].kind) { case 1: case 13: case 14: case 19: case 21: t = D(); break; case 2: { float x; memcpy(&x, q, 4); t = fmt("%.8g", x); break; } case 7: t = *q ? std::string(1, *q) : ""; break; case 4: case 6: case 8: case 9: case 11: t = I(false); break; default: t = I(true); }
            r += (i ? "|" : "") + t; p += sz[i]; } f.rows.push_back(r); }
    if (p < s.size()) f.torn = fmt("%zu bytes", s.size() - p); return f;
}
File parse(Grp* g) { std::string p = outdir() + "/log_" + g->name + (g->bin ? ".trk" : g->delim == "," ? ".csv" : ".txt"); if (!file_exists(p)) return File(); std::string s = read_file(p); return g->bin ? parse_bin(g, s) : parse_ascii(g, s); }
u64 g_lost;
void check(Grp* g, int why) {
    bool crash = why == W_CRASHPOINT, disk = feat & F_DISK; const char* P = crash ? "D02" : disk ? "D04" : "D01"; File f = parse(g); note_step();
    if (!f.exists) { if (!crash && !disk) violation(P, "a recording file is missing", "group %s", g->name.c_str()); return; }
    if (!f.bad.empty()) { violation(P, "a recording file has a wrong header", "group %s (%s): %s", g->name.c_str(), g->bin ? "binary" : "ascii", f.bad.c_str()); return; }
    if (!f.header) { if (!crash && !disk) violation(P, "a recording file has an incomplete header", "group %s", g->name.c_str()); return; }
    std::string ctx = fmt("group %s (%s, %s, freq %d, buffer %d)", g->name.c_str(), g->bin ? "binary" : "ascii", g->buf == Trick::DR_Buffer ? "buffered" : g->buf == Trick::DR_No_Buffer ? "unbuffered" : "ring", g->freq, g->cap);
    if (!f.torn.empty()) { if (crash) probe("torn-last-record"); else if (disk) probe("torn-last-record-after-error"); else { violation(P, "a recording file ends in a torn record", "%s: %s", ctx.c_str(), f.torn.substr(0, 60).c_str()); return; } }
    // what must be there
    std::vector<Row>& R = g->rows; size_t lo = 0, must = R.size(); bool ring = g->buf == Trick::DR_Ring_Buffer;
    if (ring) { if (crash) must = 0; else if ((ll)R.size() > g->cap) lo = R.size() - g->cap; }
    if (crash) { must = 0; if (g->buf == Trick::DR_No_Buffer && g->sw.empty()) while (must < R.size() && R[must].t < eof_done) must++; }
    size_t i = 0, j = lo, got = 0, lost = 0;
    for (; i < f.rows.size(); i++) {
        note_step(); size_t k = j; while (k < R.size() && rowtext(g, R[k]) != f.rows[i] && (R[k].opt || disk || (crash && ring))) k++;
        if (k >= R.size() || rowtext(g, R[k]) != f.rows[i]) {
            bool later = false, before = false; for (size_t q = 0; q < R.size(); q++) if (rowtext(g, R[q]) == f.rows[i]) { if (q < j) before = true; else later = true; }
            { std::string a, b; for (auto& r : R) a += fmt("%.16g ", r.t / 1e6); for (auto& r : f.rows) b += r.substr(0, r.find('|')) + " "; logf("%s: model %s", g->name.c_str(), a.substr(0, 400).c_str()); logf("file %s", b.substr(0, 400).c_str()); std::string rs; for (ll x : g->rates) rs += fmt("%lld ", x); logf("rates %s now %lld", rs.c_str(), g->nows.empty() ? -1 : g->nows[0]); }
            violation(P, before && !later ? "a record is repeated or out of order" : later ? "a record is missing" : "a record holds values that were never recorded", "%s: record %zu is %s, expected %s", ctx.c_str(), i, f.rows[i].substr(0, 120).c_str(), j < R.size() ? rowtext(g, R[j]).substr(0, 120).c_str() : "none"); return; }
        for (size_t q = j; q < k; q++) lost += !R[q].opt;
        j = k + 1; got++;
    }
    if (disk && !g->maxsize) { for (size_t q = j; q < must; q++) lost += !R[q].opt; g_lost += lost; if (lost) probe("records-lost-to-errors", lost); }
    if (j < must && !disk) { size_t q = j; while (q < must && R[q].opt) q++; if (q < must) { if (g->maxsize) { std::string p = outdir() + "/log_" + g->name + (g->bin ? ".trk" : g->delim == "," ? ".csv" : ".txt"); if ((ll)read_file(p).size() > g->maxsize) { probe("max-file-size-reached"); return; } }
        violation(P, crash ? "unbuffered records written before the crash are missing" : "records are missing at the end", "%s: %zu records, expected %zu; first missing %s", ctx.c_str(), f.rows.size(), must - lo, rowtext(g, R[j]).substr(0, 100).c_str()); } }
    probe("rows-checked", got); if (crash && got) probe("crash-prefix-checked"); if (ring && lo) probe("ring-overwritten");
}
void finish(int why, int code) {
    if (why != W_EXIT && why != W_CRASHPOINT) { violation("D04", "the simulation did not end", "%s; %s", why_name(why), task_dump().substr(0, 500).c_str()); return; }
    if (why == W_EXIT) { if (code) violation("D01", "the simulation ended with an error", "exit code %d", code); if (tics() < Tend) { violation("D01", "the simulation ended early", "%lld of %lld", tics(), Tend); return; } }
    else probe("crashed");
    g_lost = 0; for (auto* g : G) check(g, why);
    u64 errs = fault_count("disk_enospc") + fault_count("disk_eio") + fault_count("open_fail");
    if (why == W_EXIT && (feat & F_DISK) && g_lost > errs) violation("D04", "more records are missing than writes failed", "%llu records missing, %llu writes failed (short and interrupted writes lose nothing)", (unsigned long long)g_lost, (unsigned long long)errs);
}
static Reg r({"dr", setup, finish, 60 * SEC, 100000000, "D01"});
}
