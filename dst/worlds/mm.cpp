// Memory manager: several threads declare, look up, resize, rename and delete managed memory at once. A01.
#include "common.hh"
#include "trick/MemoryManager.hh"
#include "trick/memorymanager_c_intf.h"
#include "trick/reference.h"
#include <sstream>
#include <thread>
using namespace w;
extern Trick::MemoryManager* trick_MM;
namespace {
enum { F_SHARED = 1, F_RESIZE = 2, F_CLASS = 4, F_REF = 8, F_CKPT = 16, F_EXT = 32, F_ENUM = 64 };
int feat, K; bool stop_all;
struct Op { int thr; char kind; bool ok; u64 t0, t1; };        // D declare, X delete, E exists (or another call that finds the name)
std::map<std::string, std::vector<Op>> hist;
struct V { std::string name; char* a; int kind; int d0, d1; u64 seed; bool ext; char* mem; };
struct T { int id, nv; std::vector<V> own; int nname; };
std::vector<T*> thr;
struct Kind { const char* ty; TRICK_TYPE t; int size; };
const Kind KS[] = {{"int", TRICK_INTEGER, 4}, {"double", TRICK_DOUBLE, 8}, {"char", TRICK_CHARACTER, 1}, {"short", TRICK_SHORT, 2}, {"unsigned long long", TRICK_UNSIGNED_LONG_LONG, 8}, {"DstNode", TRICK_STRUCTURED, sizeof(DstNode)}, {"std::string", TRICK_STRING, sizeof(std::string)}, {"DstEnum", TRICK_ENUMERATED, 4}};
int num(const V& v) { return (v.d0 ? v.d0 : 1) * (v.d1 ? v.d1 : 1); }
void fill(V& v) {
    if (v.kind == 5) { DstNode* n = (DstNode*)v.a; for (int i = 0; i < num(v); i++) { n[i].a = (int)(v.seed + i); n[i].s = fmt("a string that does not fit in place %llu", (unsigned long long)v.seed + i); } }
    else if (v.kind == 6) { std::string* s = (std::string*)v.a; for (int i = 0; i < num(v); i++) s[i] = fmt("a string that does not fit in place %llu", (unsigned long long)v.seed + i); }
    else for (int i = 0; i < num(v) * KS[v.kind].size; i++) v.a[i] = (char)(1 + (v.seed * 31 + i * 7) % 100);
}
bool intact(const V& v) {
    if (v.kind == 5) { DstNode* n = (DstNode*)v.a; for (int i = 0; i < num(v); i++) if (n[i].a != (int)(v.seed + i) || n[i].s != fmt("a string that does not fit in place %llu", (unsigned long long)v.seed + i)) return false; return true; }
    if (v.kind == 6) { std::string* s = (std::string*)v.a; for (int i = 0; i < num(v); i++) if (s[i] != fmt("a string that does not fit in place %llu", (unsigned long long)v.seed + i)) return false; return true; }
    for (int i = 0; i < num(v) * KS[v.kind].size; i++) if (v.a[i] != (char)(1 + (v.seed * 31 + i * 7) % 100)) return false; return true;
}
void bad(const char* c, T* t, const V& v) { violation("A01", c, "thread %d: %s %s[%d][%d]", t->id, KS[v.kind].ty, v.name.size() ? v.name.c_str() : "(no name)", v.d0, v.d1); }
// everything the tables say of a variable that only this thread changes
void check(T* t, V& v, int what) {
    note_step(); int n = num(v), sz = KS[v.kind].size;
    switch (what) {
    case 0: if (!intact(v)) bad("managed memory was overwritten", t, v); break;
    case 1: if (!trick_MM->is_alloced(v.a)) bad("a live allocation is not found by its address", t, v); break;
    case 2: if (trick_MM->get_size(v.a) != n) bad("a live allocation has the wrong size", t, v); break;
    case 3: if (trick_MM->get_truncated_size(v.a + (n / 2) * sz) != n - n / 2) bad("an address inside a live allocation is not found", t, v); break;
    case 4: { ALLOC_INFO* a = trick_MM->get_alloc_info_of(v.a + n * sz - 1); if (!a || a->start != v.a || a->num != n || a->size != sz || a->end != v.a + n * sz - 1) bad("an address inside a live allocation is not found", t, v); break; }
    case 5: { if (v.name.empty()) break; u64 t0 = seqno(); int r = trick_MM->var_exists(v.name); hist[v.name].push_back({t->id, 'E', r != 0, t0, seqno()}); break; }
    case 6: { if (v.name.empty()) break; std::string ref = v.name; int off = 0; if (v.d0) { ref += fmt("[%d]", v.d0 - 1); off = (v.d0 - 1) * (v.d1 ? v.d1 : 1); if (v.d1) { ref += fmt("[%d]", v.d1 - 1); off += v.d1 - 1; } }
        off *= sz; if (v.kind == 5) { ref += ".a"; off += offsetof(DstNode, a); }
        REF2* r = trick_MM->ref_attributes(ref.c_str()); if (!r || r->address != v.a + off) { violation("A01", "a reference to a live variable does not resolve", "thread %d: %s gives %p, expected %p", t->id, ref.c_str(), r ? r->address : nullptr, (void*)(v.a + off)); } else probe("reference"); if (r) (ref_free(r), free(r)); break; }
    case 7: { if (v.name.empty()) break; std::ostringstream o; trick_MM->write_var(o, v.name.c_str()); if (o.str().find(v.name) == std::string::npos) bad("a live variable cannot be written", t, v); break; }
    case 8: { ATTRIBUTES at; size_t rem = 0; trick_MM->get_attributes_for_address(v.a + (n - 1) * sz, at, rem); break; }
    }
}
bool declare(T* t, const char* lb, int i) {
    V v; v.ext = false; v.mem = nullptr; v.seed = t->id * 1000 + t->nv++; int nk = feat & F_ENUM ? 8 : feat & F_CLASS ? 7 : 5; v.kind = pickf(nk, "%sk%d", lb, i); if (!(feat & F_CLASS) && v.kind >= 5) v.kind = 7;
    static const int D[] = {0, 1, 3, 7, 40}; v.d0 = D[pickf(5, "%sd%d", lb, i)]; v.d1 = v.d0 && pickf(4, "%se%d", lb, i) == 3 ? 1 + pickf(5, "%sf%d", lb, i) : 0; v.name = pickf(4, "%sa%d", lb, i) == 3 ? "" : fmt("mm%d_%d", t->id, t->nname++);
    v.ext = (feat & F_EXT) && pickf(4, "%sx%d", lb, i) == 3 && v.kind < 5; int how = pickf(3, "%sh%d", lb, i); int cd[2] = {v.d0, v.d1}; int nc = v.d1 ? 2 : v.d0 ? 1 : 0;
    std::string def = std::string(KS[v.kind].ty) + " " + v.name + (v.d0 ? fmt("[%d]", v.d0) : "") + (v.d1 ? fmt("[%d]", v.d1) : ""); void* a; u64 t0 = seqno(); std::string ut = v.kind == 5 || v.kind == 7 ? KS[v.kind].ty : "";
    if (v.ext) { v.mem = (char*)malloc(num(v) * KS[v.kind].size); a = how ? trick_MM->declare_extern_var(v.mem, KS[v.kind].t, ut, 0, v.name, nc, cd) : trick_MM->declare_extern_var(v.mem, def.c_str()); if (a && a != v.mem) { violation("A01", "a declaration returned a wrong address", "%s", def.c_str()); return false; } }
    else if (how == 2 && nc == 1) a = trick_MM->declare_var(fmt("%s %s", KS[v.kind].ty, v.name.c_str()).c_str(), v.d0);
    else if (how == 1) a = trick_MM->declare_var(KS[v.kind].t, ut, 0, v.name, nc, cd);
    else a = trick_MM->declare_var(def.c_str());
    if (v.name.size()) hist[v.name].push_back({t->id, 'D', a != nullptr, t0, seqno()}); note_step();
    if (!a) { bad("a declaration with a new name was refused", t, v); return false; }
    v.a = (char*)a; probe("declared"); step("decl", v.seed);
    for (T* o : thr) for (V& u : o->own) if (v.a < u.a + num(u) * KS[u.kind].size && u.a < v.a + num(v) * KS[v.kind].size) { bad("two live allocations overlap", t, v); return false; }
    fill(v); t->own.push_back(v); return true;
}
void del(T* t, size_t i, bool by_name) {
    V v = t->own[i]; t->own.erase(t->own.begin() + i); if (!intact(v)) bad("managed memory was overwritten", t, v); u64 t0 = seqno(); int r; if (v.name.empty()) by_name = false;
    if (v.ext) r = by_name ? trick_MM->delete_extern_var(v.name) : trick_MM->delete_extern_var(v.a); else r = by_name ? trick_MM->delete_var(v.name) : trick_MM->delete_var(v.a);
    if (v.name.size()) hist[v.name].push_back({t->id, 'X', r == 0, t0, seqno()}); note_step(); step("del", v.seed); probe("deleted");
    if (r) bad("a live variable could not be deleted", t, v);
    if (v.ext) { if (!intact(v)) bad("memory that is not its own was freed", t, v); free(v.mem); }
    else if (v.kind < 5 && num(v) * KS[v.kind].size >= 8 && intact(v)) bad("the memory of a deleted variable is not freed", t, v);
}
void resize(T* t, V& v, const char* lb, int i) {
    if (v.kind >= 5 || v.ext || !v.d0) return; static const int D[] = {1, 2, 5, 9, 60}; V w = v; w.d0 = D[pickf(5, "%srd%d", lb, i)]; if (v.d1) w.d1 = 1 + pickf(6, "%sre%d", lb, i); int cd[2] = {w.d0, w.d1}; bool by_name = v.name.size() && pickf(2, "%srn%d", lb, i); void* a; int n = v.d1 ? 2 : 1;
    if (by_name) a = n == 1 ? trick_MM->resize_array(v.name.c_str(), w.d0) : trick_MM->resize_array(v.name.c_str(), 2, cd); else a = n == 1 ? trick_MM->resize_array((void*)v.a, w.d0) : trick_MM->resize_array((void*)v.a, 2, cd);
    note_step(); if (!a) { bad("a live array could not be resized", t, v); return; } w.a = (char*)a; int sz = KS[v.kind].size; probe("resized");
    int c1 = v.d1 ? v.d1 : 1, e1 = v.d1 ? w.d1 : 1;
    for (int x = 0; x < w.d0; x++) for (int y = 0; y < e1; y++) for (int b = 0; b < sz; b++) { int oi = (x * c1 + y) * sz + b; char want = x < v.d0 && y < c1 ? (char)(1 + (v.seed * 31 + oi * 7) % 100) : 0; if (w.a[(x * e1 + y) * sz + b] != want) { bad("a resized array lost its values", t, v); return; } }
    v = w; fill(v);
}
const char* SH[] = {"sh_a", "sh_b"};
void shared(T* t, const char* lb, int i) {
    std::string nm = SH[pickf(2, "%ssn%d", lb, i)]; u64 t0 = seqno(); char k; bool ok; probe("shared-name");
    switch (pickf(feat & F_REF ? 6 : 4, "%sso%d", lb, i)) {
    case 0: k = 'D'; ok = trick_MM->declare_var(fmt("int %s[3]", nm.c_str()).c_str()) != nullptr; break;
    case 1: k = 'X'; ok = trick_MM->delete_var(nm) == 0; break;
    case 2: k = 'E'; ok = trick_MM->var_exists(nm) != 0; break;
    case 3: { V v; v.name = nm; v.seed = 7; k = 'D'; int* own = (int*)trick_MM->declare_var("int", 4); if (!own) { violation("A01", "a declaration with a new name was refused", "int[4]"); return; } t0 = seqno(); ok = trick_MM->set_name_at(own, nm.c_str()) == 0; if (!ok) { hist[nm].push_back({t->id, k, ok, t0, seqno()}); if (trick_MM->delete_var((void*)own)) violation("A01", "a live variable could not be deleted", "after set_name_at %s", nm.c_str()); note_step(); return; } break; }
    case 4: { k = 'E'; REF2* r = trick_MM->ref_attributes((nm + "[2]").c_str()); ok = r; if (r) (ref_free(r), free(r)); break; }
    default: { k = 'E'; std::ostringstream o; trick_MM->write_var(o, nm.c_str()); ok = o.str().find(nm) != std::string::npos; }
    }
    hist[nm].push_back({t->id, k, ok, t0, seqno()}); note_step(); step("sh", ok * 8 + k);
}
void foreign(T* t, const char* lb, int i) {
    T* o = thr[pickf(K, "%sft%d", lb, i)]; if (o == t || !o->nname) return; std::string nm = fmt("mm%d_%lld", o->id, (ll)pickf(o->nname, "%sfn%d", lb, i)); u64 t0 = seqno(); bool ok; probe("foreign");
    if ((feat & F_REF) && pickf(2, "%sfr%d", lb, i)) { REF2* r = trick_MM->ref_attributes(nm.c_str()); ok = r; if (r) (ref_free(r), free(r)); } else ok = trick_MM->var_exists(nm) != 0;
    hist[nm].push_back({t->id, 'E', ok, t0, seqno()});
}
void ckpt(T* t) {
    std::ostringstream o; trick_MM->write_checkpoint(o); std::string s = o.str(); note_step(); probe("checkpoint");
    for (V& v : t->own) if (v.name.size() && !v.ext) { std::string d = std::string(KS[v.kind].ty) + " " + v.name; size_t n = 0, p = 0; while ((p = s.find(d, p)) != std::string::npos) { p += d.size(); if (!isdigit((unsigned char)s[p])) n++; } if (n != 1) bad("a checkpoint does not hold each live variable once", t, v); }
}
void body(T* t) {
    std::string l = fmt("t%d.", t->id); const char* lb = l.c_str(); int n = 4 + pickf(12, "%sn", lb);
    for (int i = 0; i < n && !violated("A01"); i++) {
        int x = pickf(100, "%so%d", lb, i);
        if (x < 35 || t->own.empty()) { if (t->own.size() < 6 && !declare(t, lb, i)) return; }
        else if (x < 50) check(t, t->own[pickf(t->own.size(), "%sc%d", lb, i)], pickf(9, "%sw%d", lb, i));
        else if (x < 65) del(t, pickf(t->own.size(), "%sv%d", lb, i), pickf(2, "%sb%d", lb, i));
        else if (x < 75) { if (feat & F_RESIZE) resize(t, t->own[pickf(t->own.size(), "%sv%d", lb, i)], lb, i); }
        else if (x < 92) { if (feat & F_SHARED) shared(t, lb, i); else foreign(t, lb, i); }
        else if (x < 98) foreign(t, lb, i);
        else if (feat & F_CKPT) ckpt(t);
        if (pickf(4, "%sp%d", lb, i) == 3) burn((1 + pickf(50, "%sq%d", lb, i)) * US);
    }
    for (V& v : t->own) { check(t, v, 0); check(t, v, 1); check(t, v, 2); check(t, v, 5); check(t, v, 6); }
}
// is there an order of the calls, consistent with their times, in which a name is either declared or not?
bool linear(const std::vector<Op>& h, std::string& why) {
    int n = h.size(); if (n > 60) return true; std::set<std::pair<u64, bool>> seen; std::vector<std::pair<u64, bool>> st{{0, false}}; u64 best = 0;
    while (st.size()) { auto [m, s] = st.back(); st.pop_back(); if (m == (n == 64 ? ~0ull : (1ull << n) - 1)) return true; if (!seen.insert({m, s}).second) continue; if (__builtin_popcountll(m) > __builtin_popcountll(best)) best = m;
        u64 lim = UINT64_MAX; for (int i = 0; i < n; i++) if (!(m >> i & 1)) lim = std::min(lim, h[i].t1);
        for (int i = 0; i < n; i++) if (!(m >> i & 1) && h[i].t0 <= lim) { const Op& o = h[i]; bool good = o.kind == 'D' ? o.ok == !s : o.ok == s; if (!good) continue; st.push_back({m | 1ull << i, o.kind == 'D' ? true : o.kind == 'X' ? false : s}); } }
    for (int i = 0; i < n; i++) why += fmt("%s%c%d%s@%llu-%llu", i ? " " : "", h[i].kind, h[i].thr, h[i].ok ? "+" : "-", (unsigned long long)h[i].t0, (unsigned long long)h[i].t1);
    return false;
}
std::map<void*, bool> base_addr; std::set<std::string> base_name;
void table_check() {
    std::map<void*, std::pair<T*, V*>> live; for (T* t : thr) for (V& v : t->own) live[v.a] = {t, &v}; std::set<int> ids; size_t found = 0, sh = 0;
    for (auto i = trick_MM->alloc_info_map_begin(); i != trick_MM->alloc_info_map_end(); ++i) { note_step(); ALLOC_INFO* a = i->second; bool b = base_addr.count(i->first);
        if (a->start != i->first) { violation("A01", "the table lists an allocation under a wrong address", "%s", a->name ? a->name : "?"); return; }
        if (a->stcl == TRICK_LOCAL && !b && !ids.insert(a->id).second) { violation("A01", "two allocations have the same number", "%d: %s", a->id, a->name ? a->name : "?"); return; }
        if (b) continue; auto l = live.find(i->first);
        if (l == live.end()) { if (a->name && (!strcmp(a->name, SH[0]) || !strcmp(a->name, SH[1]))) { sh++; continue; } violation("A01", "the table lists an allocation that is not live", "%s", a->name ? a->name : "?"); return; }
        V& v = *l->second.second; found++; if (a->num != num(v) || a->size != KS[v.kind].size || v.name != (a->name ? a->name : "")) { bad("the table describes a live allocation wrongly", l->second.first, v); return; } }
    if (found != live.size()) { violation("A01", "a live allocation is lost from the table", "%zu of %zu are listed", found, live.size()); return; }
    for (auto& p : base_addr) if (!trick_MM->get_alloc_info_at(p.first)) { violation("A01", "a live allocation is lost from the table", "one that existed before"); return; }
    size_t named = 0, shn = 0; for (auto i = trick_MM->variable_map_begin(); i != trick_MM->variable_map_end(); ++i) { note_step(); if (base_name.count(i->first)) continue; ALLOC_INFO* a = trick_MM->get_alloc_info_at(i->second->start); if (a != i->second || !a->name || i->first != a->name) { violation("A01", "a name refers to an allocation that is not live or not its own", "%s", i->first.c_str()); return; } if (i->first.compare(0, 3, "sh_") == 0) shn++; else named++; }
    size_t want = 0; for (T* t : thr) for (V& v : t->own) want += v.name.size() > 0; if (named != want || shn != sh) { violation("A01", "a name is lost or listed twice", "%zu names for %zu variables, %zu for %zu shared", named, want, shn, sh); return; }
    for (T* t : thr) for (V& v : t->own) { if (!intact(v)) { bad("managed memory was overwritten", t, v); return; } for (int c = 1; c < 7; c++) check(t, v, c); }
    probe("table-checked");
}
std::string setup() {
    feat = opti("feat", 0); Obj* o = new Obj; machine_faults(1); trick_MM->set_reduced_checkpoint(false);
    o->add(0, "initialization", 1, "mm", 65535, 0, 1e37, [](Trick::JobData*) {
        for (auto i = trick_MM->alloc_info_map_begin(); i != trick_MM->alloc_info_map_end(); ++i) base_addr[i->first] = true; for (auto i = trick_MM->variable_map_begin(); i != trick_MM->variable_map_end(); ++i) base_name.insert(i->first);
        K = 2 + pick("K", 3); for (int i = 0; i < K; i++) { T* t = new T; t->id = i; t->nv = 1; t->nname = 0; thr.push_back(t); }
        std::vector<std::thread> ts; for (int i = 1; i < K; i++) ts.emplace_back(body, thr[i]); body(thr[0]); for (auto& x : ts) x.join();
        if (violated("A01")) return 0;
        for (auto& h : hist) { note_step(); std::string why; if (!linear(h.second, why)) { violation("A01", h.first.compare(0, 3, "sh_") ? "a lookup by name gave a wrong answer" : "calls for one name by several threads contradict each other", "%s: %s", h.first.c_str(), why.substr(0, 400).c_str()); return 0; } }
        table_check(); return 0; });
    exec_add_sim_object(o, "mmw"); return "trick.stop(0.5)\n";
}
void fin(int why, int code) { probe(why_name(why)); if (why == W_DEADLOCK || why == W_LIMIT) violation("A01", "calls of the memory manager never return", "%s", task_dump().substr(0, 300).c_str()); else if (hist.empty()) probe("idle-run"); }
Reg r({"mm", setup, fin, 20 * SEC, 20000000, "A01"});
}
