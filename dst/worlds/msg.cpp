// Messages: several threads publish while subscribers come and go, clients stall or vanish and the disk fails. G01.
#include "common.hh"
#include "trick/MessagePublisher.hh"
#include "trick/MessageSubscriber.hh"
#include "trick/MessageThreadedCout.hh"
#include "trick/message_proto.h"
#include "trick/Message_proto.hh"
#include "trick/memorymanager_c_intf.h"
#include <iostream>
#include <thread>
using namespace w;
extern Trick::MessagePublisher* the_message_publisher;
namespace {
enum { F_TC = 1, F_THR = 2, F_SUB = 4, F_SLOW = 8, F_COUT = 16, F_DISK = 32, F_CUSTOM = 64, F_BIG = 128 };
struct M { int pub, k, level; u64 t0, t1; std::string text, time; u64 v0, v1; };
int feat; ll Tend, cyc; std::map<std::pair<int, int>, M> msgs; std::vector<int> pubk; int* PORT; std::vector<int> customs; std::vector<std::string> custom_names; std::vector<std::pair<u64, u64>> custom_open; u64 ended_at; bool ended;
// what one receiver got, in order
struct Got { int pub, k; u64 at; };
struct Span { u64 on0, on1, off0, off1; };          // subscribed: the call began, returned; unsubscribed likewise
struct Rec : public Trick::MessageSubscriber { int id; std::vector<Got> got; std::vector<Span> spans; bool in = false; u64 slow = 0; Span cur{}; bool dyn = false;
    virtual void update(unsigned level, std::string header, std::string message); };
std::vector<Rec*> recs;
struct Cl { int id; Conn* c = nullptr; std::string buf; int why = -1; u64 opened = 0, closed = 0; bool slow = false, leaver = false; };
std::vector<Cl*> cls;
std::string cout_buf; std::vector<std::pair<size_t, u64>> cout_at;
struct Cap : public std::streambuf { std::streamsize xsputn(const char* s, std::streamsize n) { preempt_point(); cout_buf.append(s, n); cout_at.push_back({cout_buf.size(), seqno()}); return n; } int overflow(int c) { if (c != EOF) { preempt_point(); cout_buf += (char)c; } return c; } int sync() { preempt_point(); return 0; } } cap;
std::string show(const std::string& s) { std::string o; for (char ch : s.substr(0, 140)) o += isprint((unsigned char)ch) ? std::string(1, ch) : fmt("\\x%02x", (unsigned char)ch); return o; }
const char* color(int level) { switch (level) { case 1: return "\033[32m"; case 2: return "\033[33m"; case 3: return "\033[31m"; case 10: return "\033[36m"; } return "\033[00m"; }
// length of a well formed header at p with this level and time, 0 if there is none
size_t header(const std::string& s, size_t p, int& level, std::string& time) {
    int y, mo, d, h, mi, se, us, pid, n = 0, lv; char host[100], t[60]; if (sscanf(s.c_str() + p, "|L %d|%4d/%2d/%2d,%2d:%2d:%2d.%6d|%90[^|]|%*[^|]|T %d|%50[^|]| %n", &lv, &y, &mo, &d, &h, &mi, &se, &us, host, &pid, t, &n) < 10 || !n) return 0;
    level = lv; time = t; return n;
}
// parse "<pub.k:len:...>\n" at p; -1: not ours, 0: torn, 1: whole
int body(const std::string& s, size_t p, int& pub, int& k, size_t& len, bool& cut) {
    cut = false; int n = 0, l; if (p >= s.size() || s[p] != '<') return -1; if (sscanf(s.c_str() + p, "<%d.%d:%d:%n", &pub, &k, &l, &n) < 3 || !n) { cut = s.find(':', p) == std::string::npos; return cut ? 0 : -1; }
    auto i = msgs.find({pub, k}); if (i == msgs.end()) return 0; len = i->second.text.size(); size_t c = std::min(len, s.size() - p); cut = c < len && !s.compare(p, c, i->second.text, 0, c); return c == len && !s.compare(p, len, i->second.text) ? 1 : 0;
}
void Rec::update(unsigned level, std::string header_, std::string message) {
    u64 at = seqno(); int pub, k, lv; size_t len; bool cut; std::string tm; preempt_point(); if (slow) compute(slow);
    int r = body(message, 0, pub, k, len, cut); if (r < 0) return; note_step();
    if (r == 0) { violation("G01", "a subscriber received a torn message", "subscriber %d: %s", id, show(message).c_str()); return; }
    M& m = msgs[{pub, k}]; if (header(header_, 0, lv, tm) != header_.size() || lv != m.level || (unsigned)m.level != level) { violation("G01", "a message has a wrong header", "subscriber %d: %s", id, show(header_).c_str()); return; }
    if (m.time.size() && m.time != tm) { violation("G01", "a message has a wrong header", "time %s, expected %s", tm.c_str(), m.time.c_str()); return; }
    got.push_back({pub, k, at}); step("got", pub * 100000 + k);
}
int publish(int pub, const char* lbl) {
    int k = pubk[pub]++; static const int lv[] = {0, 1, 2, 3, 10, 0, 0, 1, 101}; int li = pickf(9 + (customs.size() ? 3 : 0), "%s%d.lv", lbl, k); M m; m.pub = pub; m.k = k; m.level = li < 9 ? lv[li] : customs[li % customs.size()];
    static const int ln[] = {5, 20, 60, 200, 1000, 3000, 0, 40}; int len = ln[pickf(8, "%s%d.ln", lbl, k)]; if ((feat & F_BIG) && !(feat & F_COUT) && pickf(8, "%s%d.big", lbl, k) == 7) { static const int bg[] = {4000, 8191, 20000, 20350, 20440}; len = bg[pickf(5, "%s%d.bl", lbl, k)]; probe("big-message"); }
    m.text = fmt("<%d.%d:%d:", pub, k, len); for (int i = 0; i < len; i++) m.text += i % 97 == 96 ? '\n' : (char)('a' + (i * 7 + k) % 26); m.text += ">\n"; if (m.text.size() > 20479) m.text.resize(20479);
    if (pub == 0) { ll t = tics(); m.time = fmt("%lld.%06lld", t / tps(), t % tps()); } m.t0 = seqno(); m.v0 = now(); m.t1 = UINT64_MAX; msgs[{pub, k}] = m; message_publish(m.level, "%s", m.text.c_str()); M& q = msgs[{pub, k}]; q.t1 = seqno(); q.v1 = now(); probe("published");
    return 0;
}
// exactly once and in order: nothing may come after a message that was published later
void check_order(const std::string& who, const std::vector<Got>& g, std::function<int(const M&)> want) {   // want: 1 must, 0 may, -1 must not
    std::set<std::pair<int, int>> seen; u64 max_t0 = 0; std::pair<int, int> mx{-1, -1};
    for (auto& x : g) { note_step(); const M& m = msgs[{x.pub, x.k}]; if (!seen.insert({x.pub, x.k}).second) { violation("G01", "a message was delivered twice", "%s: message %d of publisher %d", who.c_str(), x.k, x.pub); return; }
        if (want(m) < 0) { violation("G01", "a subscriber received a message it does not subscribe to", "%s: message %d of publisher %d, level %d", who.c_str(), x.k, x.pub, m.level); return; }
        if (m.t1 < max_t0) { violation("G01", "messages were delivered out of order", "%s: message %d of publisher %d came after message %d of publisher %d", who.c_str(), x.k, x.pub, mx.second, mx.first); return; }
        if (m.t0 > max_t0) { max_t0 = m.t0; mx = {x.pub, x.k}; } }
    for (auto& p : msgs) { note_step(); if (!seen.count(p.first) && want(p.second) > 0) { violation("G01", "a message was lost", "%s: message %d of publisher %d (level %d, %zu bytes); %zu received", who.c_str(), p.first.second, p.first.first, p.second.level, p.second.text.size(), g.size()); return; } }
    probe("messages-checked", g.size());
}
// a stream of header [color] text [reset]; tail: it may end inside a message
bool parse(const std::string& who, const std::string& s, bool hdr, bool clr, bool tail, bool junk, std::vector<Got>& out, const std::vector<std::pair<size_t, u64>>* at = nullptr) {
    size_t p = 0, ai = 0; while (p < s.size()) {
        size_t b = p; int lv = 0; std::string tm; if (hdr) { size_t h = header(s, p, lv, tm); if (!h) { if (tail && s.find('\n', p) == std::string::npos && s.compare(p, std::min<size_t>(3, s.size() - p), std::string("|L ").substr(0, std::min<size_t>(3, s.size() - p))) == 0) return true; if (junk) { size_t q = s.find("|L ", p + 1); if (q == std::string::npos) return true; p = q; continue; } violation("G01", "a stream of messages is garbled", "%s: no header at byte %zu: %s", who.c_str(), p, show(s.substr(p)).c_str()); return false; } b = p + h; }
        bool colored = false; if (clr) { for (const char* c : {"\033[00m", "\033[32m", "\033[33m", "\033[31m", "\033[36m"}) if (!s.compare(b, 5, c)) { if (c != std::string(color(lv)) && lv < 100) { violation("G01", "a message has a wrong colour", "%s: level %d", who.c_str(), lv); return false; } b += 5; colored = true; break; } }
        int pub, k; size_t len; bool cut; int r = body(s, b, pub, k, len, cut);
        if (r == 0) { if (cut && tail) return true; if (junk) { size_t q = s.find("|L ", p + 1); if (q == std::string::npos) return true; p = q; continue; } violation("G01", "a stream of messages is garbled", "%s: at byte %zu: %s", who.c_str(), p, show(s.substr(p, 400)).c_str()); return false; }
        if (r == 1) { M& m = msgs[{pub, k}]; if (hdr && lv != m.level) { violation("G01", "a message has a wrong header", "%s: level %d, expected %d", who.c_str(), lv, m.level); return false; } if (hdr && m.time.size() && tm != m.time) { violation("G01", "a message has a wrong header", "%s: time %s, expected %s", who.c_str(), tm.c_str(), m.time.c_str()); return false; }
            b += len; if (colored) { if (s.compare(b, 5, "\033[00m")) { if (tail && s.size() - b < 5) { out.push_back({pub, k, 0}); return true; } violation("G01", "a stream of messages is garbled", "%s: no end of colour after message %d of publisher %d", who.c_str(), k, pub); return false; } b += 5; }
            u64 when = 0; if (at) { while (ai < at->size() && (*at)[ai].first < b) ai++; if (ai < at->size()) when = (*at)[ai].second; } out.push_back({pub, k, when}); p = b; continue; }
        // a message of the simulation itself: up to the next header
        size_t q = hdr ? s.find("|L ", b) : std::string::npos; if (q == std::string::npos) q = s.size(); size_t o = s.find('<', b); if (tail && q == s.size() && o < q) { bool pre = false; for (auto& m : msgs) if (!m.second.text.compare(0, s.size() - o, s, o, std::string::npos)) pre = true; if (pre) return true; }
        if (o < q && isdigit((unsigned char)s[o + 1]) && !junk) { violation("G01", "a stream of messages is garbled", "%s: at byte %zu: %s", who.c_str(), o, show(s.substr(o > 40 ? o - 40 : 0, 400)).c_str()); return false; } p = q;
    } return true;
}
void connect(Cl* c) { ConnCb cb; cb.on_open = [c](Conn*) { c->opened = now(); }; cb.on_data = [c](Conn*, const std::string& s) { c->buf += s; step("rx", s.size()); }; cb.on_close = [c](Conn*, int why) { c->why = why; c->closed = now(); }; c->c = net_connect(*PORT, cb, (u64)pickf(500, "c%d.lat", c->id) * US); probe("client"); }
std::thread* extra;
std::string setup() {
    feat = opti("feat", 0); std::string py; exec_set_time_tic_value(1000000); msgs.clear(); REF2* r = ref_attributes("trick_message.mdevice.port"); if (!r) { invalid("no port"); return py; } PORT = (int*)r->address;
    cyc = 10000; ll ncyc = 20 + pick("ncyc", 60); Tend = cyc * ncyc; exec_set_software_frame(0.1); exec_set_terminate_time(1e9); u64 wk = (1 + pick("work", 20)) * 100 * US; int burst = 1 + pick("burst", 6); ended = false; std::cout.rdbuf(&cap);
    pubk.assign(8, 0); Obj* o = new Obj;
    if (feat & F_CUSTOM) { int n = 1 + pick("ncust", 3); for (int i = 0; i < n; i++) { int lv = 300 + i; custom_names.push_back(fmt("cust%d", i)); custom_open.push_back({UINT64_MAX, UINT64_MAX}); ll t = pickf(3, "cu%d.t", i) ? cyc * pickf(ncyc, "cu%d.tt", i) : -1; auto op = [i, lv] { custom_open[i].first = seqno(); open_custom_message_file(custom_names[i], fmt("cs%d", i), lv); custom_open[i].second = seqno(); customs.push_back(lv); probe("custom-file"); };
            if (t < 0) o->add(0, "initialization", 1, fmt("cu%d", i).c_str(), 50000, 0, 1e37, [op](Trick::JobData*) { op(); return 0; }); else o->add(0, "scheduled", 1e3, fmt("cu%d", i).c_str(), 50000, t / 1e6, 1e37, [op](Trick::JobData*) { op(); return 0; }); } }
    o->add(0, "scheduled", cyc / 1e6, "p0", 60000, 0, 1e37, [=](Trick::JobData*) { compute(wk); static int z = 0; int n = pickf(burst + 1, "b%d", z++); for (int i = 0; i < n; i++) publish(0, "p"); return 0; });
    if (feat & F_THR) for (int i = 1, n = 1 + pick("nthr", 2); i <= n; i++) { static const char* lb[] = {"", "q", "r"}; const char* l = lb[i]; o->add(i, "scheduled", cyc / 1e6, fmt("p%d", i).c_str(), 60000, 0, 1e37, [=](Trick::JobData*) { compute(wk * (1 + i) / 3); static int z[4]; int n = pickf(burst + 1, "b%s%d", l, z[i]++); for (int j = 0; j < n; j++) publish(i, l); return 0; }); }
    if ((feat & F_THR) && pick("ext", 2)) { int n = 5 + pick("extn", 60); u64 gap = pick("extg", 30) * 100 * US; o->add(0, "initialization", 1, "ext", 65000, 0, 1e37, [=](Trick::JobData*) { extra = new std::thread([=] { for (int i = 0; i < n && !ended; i++) { publish(3, "x"); if (gap) usleep(gap / 1000); } }); return 0; }); probe("extra-thread"); o->add(0, "shutdown", 1, "extj", 1, 0, 1e37, [](Trick::JobData*) { ended = true; extra->join(); return 0; }); }
    int nr = 1 + pick("nrec", 2), nd = feat & F_SUB ? 1 + pick("ndyn", 3) : 0;
    for (int i = 0; i < nr + nd; i++) { Rec* c = new Rec; c->id = i; c->name = fmt("rec%d", i); c->dyn = i >= nr; recs.push_back(c); if (pickf(5, "rec%d.slow", i) == 4) c->slow = (1 + pickf(20, "rec%d.sl", i)) * 20 * US; if (!c->dyn) { the_message_publisher->subscribe(c); c->in = true; c->cur = {0, 0, UINT64_MAX, UINT64_MAX}; } }
    if (nd) { int nth = feat & F_THR ? 3 : 1; for (int i = 0, n = 2 + pick("nsub", 12); i < n; i++) { Rec* c = recs[nr + pickf(nd, "su%d.w", i)]; int th = pickf(nth, "su%d.th", i); ll t = cyc * pickf(ncyc, "su%d.t", i);
        o->add(th, "scheduled", 1e3, fmt("su%d", i).c_str(), 60001 + i, t / 1e6, 1e37, [c](Trick::JobData*) { static std::set<Rec*> busy; if (!busy.insert(c).second) return 0; if (!c->in) { c->in = true; c->cur = {seqno(), UINT64_MAX, UINT64_MAX, UINT64_MAX}; the_message_publisher->subscribe(c); c->cur.on1 = seqno(); probe("subscribed"); } else { c->in = false; c->cur.off0 = seqno(); the_message_publisher->unsubscribe(c); c->cur.off1 = seqno(); c->spans.push_back(c->cur); probe("unsubscribed"); } busy.erase(c); return 0; }); } }
    if (feat & F_COUT) { py += "trick_message.separate_thread_set_enabled(True)\n"; probe("threaded-cout"); if (pick("wst", 3) == 2) for (int i = 0; i < 3; i++) { u64 t = pickf(300, "ws%d.t", i) * MS, d = pickf(300, "ws%d.d", i) * MS; at(t, [d] { int k = find_task("threadedcout"); if (k >= 0) { stall_task(k, d); probe("cout-thread-stalled"); } }); } }
    if (feat & F_TC) { if (pick("seg", 2)) netcfg.seg_max = 1 + pick("segm", 400); int n = 1 + pick("ncl", 4); for (int i = 0; i < n; i++) { Cl* c = new Cl; c->id = i; cls.push_back(c); u64 t = MS + pickf(ncyc, "c%d.t", i) * wk; c->slow = (feat & F_SLOW) && pickf(2, "c%d.sl", i); c->leaver = pickf(3, "c%d.lv", i) == 2; at(t, [c] { connect(c); if (c->slow) { net_set_window(c->c, 2000 + 1000 * pickf(20, "c%d.w", c->id), 4096); int kd = pickf(3, "c%d.sk", c->id); if (kd) { net_set_reading(c->c, false); probe("client-not-reading"); if (kd == 2) at(now() + pickf(200, "c%d.sr", c->id) * MS, [c] { net_set_reading(c->c, true); }); } else net_set_rate(c->c, 1000 * US * (1 + pickf(20, "c%d.rt", c->id))); } });
        if (c->leaver) { u64 t2 = t + (1 + pickf(ncyc, "c%d.t2", i)) * wk; bool rst = pickf(2, "c%d.rst", i); at(t2, [c, rst] { if (c->c && net_open(c->c)) { if (rst) net_reset(c->c); else net_close(c->c); probe(rst ? "client-reset" : "client-closed"); } }); } } }
    io_managed_filter([](const std::string& p) { return p.find("send_hs") != std::string::npos || p.find("cust") != std::string::npos; });
    if (feat & F_DISK) { static const u64 lv[] = {3000, 20000, 60000}; if (pick("f.sp", 2)) fault_rate("disk_short", lv[pick("f.spl", 3)]); if (pick("f.in", 2)) fault_rate("disk_eintr", lv[pick("f.inl", 3)]); if (pick("f.ns", 2)) fault_rate("disk_enospc", lv[pick("f.nsl", 3)]); if (pick("f.io", 2)) fault_rate("disk_eio", lv[pick("f.iol", 3)]); }
    if (pick("f.spur", 3) == 2) fault_rate("spurious_wakeup", 20000); if (pick("f.over", 3) == 2) fault_rate("oversleep", 30000);
    o->add(0, "shutdown", 1, "end", 1, 0, 1e37, [](Trick::JobData*) { ended_at = seqno(); return 0; });
    exec_add_sim_object(o, "mo"); py += fmt("trick.stop(%.9g)\n", Tend / 1e6); return py;
}
void finish(int why, int code) {
    static std::streambuf* z = nullptr; (void)z; if (why != W_EXIT) { violation("G01", "the simulation hangs", "%s at %lld; %s", why_name(why), tics(), task_dump().substr(0, 500).c_str()); return; }
    if (code || tics() < Tend) { violation("G01", "the simulation ended early", "%lld of %lld, exit code %d", tics(), Tend, code); return; }
    u64 slowsub = 0; for (auto* c : recs) slowsub += c->slow;
    for (auto* c : recs) { if (c->in) c->spans.push_back(c->cur); check_order(fmt("subscriber %d", c->id), c->got, [c](const M& m) { int r = -1; for (auto& s : c->spans) { if (m.t0 > s.on1 && m.t1 < s.off0) return 1; if (m.t1 > s.on0 && m.t0 < s.off1) r = 0; } return r; }); }
    u64 errs = fault_count("disk_enospc") + fault_count("disk_eio"); bool junk = errs > 0;
    auto file = [&](const std::string& f, bool hdr, std::function<int(const M&)> want) { std::string p = outdir() + "/" + f, s = read_file(p); std::vector<Got> g; if (!parse("file " + f, s, hdr, false, false, junk, g)) return; if (junk) { size_t must = 0, have = 0; std::set<std::pair<int, int>> u; for (auto& x : g) u.insert({x.pub, x.k}); for (auto& q : msgs) if (want(q.second) > 0) { must++; have += u.count(q.first); } if (have + errs < must) violation("G01", "more messages are missing from a file than writes failed", "file %s: %zu of %zu, %llu writes failed", f.c_str(), have, must, (unsigned long long)errs); std::vector<Got> g2; std::set<std::pair<int, int>> v; for (auto& x : g) if (v.insert({x.pub, x.k}).second) g2.push_back(x); check_order("file " + f, g2, [&](const M& m) { int w = want(m); return w > 0 ? 0 : w; }); probe("file-with-errors-checked"); return; } check_order("file " + f, g, want); };
    file("send_hs", true, [](const M& m) { return m.level < 100 ? 1 : -1; }); for (size_t i = 0; i < custom_names.size(); i++) file(custom_names[i], true, [i](const M& m) { return m.level != 300 + (int)i || m.t1 < custom_open[i].first ? -1 : m.t0 > custom_open[i].second ? 1 : 0; });
    if (feat & F_COUT) { std::vector<Got> g; if (parse("threaded output", cout_buf, true, true, false, false, g, &cout_at)) { std::set<std::pair<int, int>> have; for (auto& x : g) have.insert({x.pub, x.k}); std::set<std::pair<int, int>> lost; for (auto& q : msgs) if (q.second.level < 100 && !have.count(q.first)) { size_t pend = 0; for (auto& y : msgs) if (y.second.level < 100 && y.second.t0 < q.second.t1) pend++; for (auto& x : g) if (x.at && x.at < q.second.t0) pend--; if (pend > 380) { lost.insert(q.first); probe("ring-full"); } } check_order("threaded output", g, [&](const M& m) { return m.level >= 100 ? -1 : lost.count({m.pub, m.k}) ? 0 : 1; }); } }
    else { std::vector<Got> g; if (parse("standard output", cout_buf, true, true, false, false, g)) check_order("standard output", g, [](const M& m) { return m.level < 100 ? 1 : -1; }); }
    for (auto* c : cls) { if (!c->c) continue; if (feat & F_COUT) continue; std::vector<Got> g; if (!parse(fmt("client %d", c->id), c->buf, true, true, c->slow || c->leaver || c->why == 1, false, g)) continue; probe("client-streams");
        if (c->why >= 0 && !c->slow && !c->leaver && c->closed < now() && net_open(c->c)) {}
        u64 first = UINT64_MAX; for (auto& x : g) first = std::min(first, msgs[{x.pub, x.k}].t1); bool whole = !c->slow && !c->leaver; u64 dl = c->opened ? c->opened + 5 * SEC : UINT64_MAX;
        // the last message: what was sent later than it was sent to nobody
        u64 last = 0; for (auto& x : g) last = std::max(last, msgs[{x.pub, x.k}].t0);
        check_order(fmt("client %d%s%s", c->id, c->slow ? " (slow)" : "", c->leaver ? " (leaves)" : ""), g, [&](const M& m) { if (m.level >= 100) return -1; if (m.t0 > first && m.t1 < last) return 1; if (whole && (m.t0 > first || m.v0 > dl) && m.t1 < ended_at) return 1; return 0; }); }
    // a slow client does not hold up the simulation
    for (auto& q : msgs) { note_step(); if (q.second.t1 == UINT64_MAX) { if (!(feat & F_THR)) violation("G01", "a call to publish did not return", "message %d of publisher %d", q.first.second, q.first.first); continue; } if (q.second.v1 - q.second.v0 > 400 * MS + slowsub * 20) { violation("G01", "publishing was held up", "message %d of publisher %d took %llu us", q.first.second, q.first.first, (unsigned long long)(q.second.v1 - q.second.v0) / 1000); break; } }
}
static Reg r({"msg", setup, finish, 200 * SEC, 40000000, "G01"});
}
