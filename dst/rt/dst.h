// Deterministic simulator: public interface used by the worlds.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace dst {

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;
const u64 MS = 1000000ull, US = 1000ull, SEC = 1000000000ull;

// ---- plan: every generated choice is a labelled draw; 0 is the simplest value
i64 pick(const char* label, i64 n);                       // 0..n-1
inline bool chance(const char* label, int pct) { return pick(label, 100) >= 100 - pct; }  // 0 => false
i64 pickf(i64 n, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
std::string opt(const char* key, const char* dflt = "");  // world parameter given by the driver
i64 opti(const char* key, i64 dflt);

// ---- faults: occurrence-counted, decided by (seed, kind, occurrence)
void fault_rate(const char* kind, u32 per_million);       // enable a kind for this run
bool fault(const char* kind, u32* val = nullptr);         // is the fault injected here?
u64 fault_count(const char* kind);                       // how often it fired so far in this run
void faults_off();                                        // no fault fires from here on

// ---- time and events
u64 now();                                                // simulated nanoseconds since the run began
u64 seqno();                                              // global step number (total order)
void at(u64 t, std::function<void()> f);                  // actor code; runs between tasks
void burn(u64 ns);                                        // the calling task computes for ns
void compute(u64 ns);                                     // the same, on a processor of its own: the others go on
u64 skipped();                                            // time skipped so far while tasks did nothing but busy-wait (a sleep may return that much late)
void stall_task(int id, u64 ns);                          // the task gets no CPU for ns
void clock_jump(i64 ns); void raise_signal(int sig);                                  // CLOCK_REALTIME steps
int  self();                                              // id of the running task
int  ntasks();
std::string task_dump();
std::string task_name(int id);
bool task_alive(int id);
int  find_task(const char* substr);
void wake_net();
void step(const char* tag, u64 v);                        // fold an observable into the trace hash
void preempt_point();

// ---- verdicts
void violation(const char* prop, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
void invalid(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // harness error: never a verdict
bool violated(const char* prop);
void probe(const char* name, u64 n = 1);                  // "this condition was reached"
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note_step(u64 n = 1);                                // oracle evaluations
[[noreturn]] void end_run(int why, int code);

enum Why { W_EXIT = 0, W_DEADLOCK = 1, W_LIMIT = 2, W_SIGNAL = 3, W_CRASHPOINT = 4, W_STOP = 5 };
const char* why_name(int w);

struct World {
    const char* name;
    std::string (*setup)();              // runs at the snapshot; returns Python for the sim's input file
    void (*finish)(int why, int code);   // oracles over the recorded history
    u64 vt_limit; u64 n_limit;           // liveness bounds
    const char* prop;                    // property that a crash or an invalid memory access violates
};
void register_world(const World& w);
struct Reg { Reg(const World& w) { register_world(w); } };
void set_limits(u64 vt, u64 n);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string crash_where();
std::string outdir();

// ---- scheduler policy (drawn from the seed unless a world overrides it)
void sched_policy_fair();                // drain phase: no adversarial scheduling from here on

// ---- virtual network, actor side
struct Conn;                             // the actor's end of a TCP connection
struct ConnCb {
    std::function<void(Conn*)> on_open;              // connected / accepted
    std::function<void(Conn*, const std::string&)> on_data;
    std::function<void(Conn*, int why)> on_close;    // 0 FIN, 1 RST, 2 refused
};
Conn* net_connect(int port, const ConnCb& cb, u64 latency = 0);     // actor -> code under test
void  net_listen(int port, std::function<ConnCb(Conn*)> on_accept); // code under test -> actor
void  net_unlisten(int port);
void  net_send(Conn*, const std::string&);
void  net_close(Conn*);                  // FIN
void  net_reset(Conn*);                  // RST
void  net_shutdown_wr(Conn*);
void  net_set_reading(Conn*, bool on);   // a slow reader stops draining its window
void  net_set_ip(Conn*, const char* ip);  // source address of an incoming connection
void  net_set_rate(Conn*, u64 ns_per_kb);
void  net_set_window(Conn*, size_t to_actor, size_t to_code);
bool  net_open(Conn*);
size_t net_unread(Conn*);                // bytes sent by the actor that the code has not read
int   net_local_port(int fd);
std::vector<int> net_listening_ports();
struct NetCfg {
    u64 lat_lo = 20000, lat_hi = 200000; // one-way latency
    size_t win_out = 262144, win_in = 262144;
    int seg_max = 0;                     // >0: split sends into random segments of at most seg_max bytes
    size_t nb_chunk = 0;                 // >0: free window is seen in units of this many bytes
};
extern NetCfg netcfg;
// UDP
void udp_bind_actor(int port, std::function<void(const std::string&, int srcport)> cb);
void udp_send_to_code(int port, const std::string& data, int srcport, const char* srcip = "127.0.0.1");
int  net_open_fds(bool conns = false);   // virtual descriptors the code under test has not closed (conns: only those of connections)
std::string net_dump();

// ---- virtual disk faults (managed directory = output directory of the run)
struct IoStats { u64 opens, writes, bytes; };
extern IoStats iostats;
void io_crash_at_write(u64 k, i64 keep);  // process dies at the k-th write to a managed file; keep bytes of it land
void io_managed_filter(std::function<bool(const std::string&)> f);
std::string read_file(const std::string& path);
bool file_exists(const std::string& path);
std::vector<std::string> list_dir(const std::string& path);
void on_write(std::function<void(const std::string& path, const void*, size_t)> f);

// ---- allocation tracking
struct HeapStats { u64 live_blocks, live_bytes; };
}
#include <functional>
namespace dst {
// functions that the input file, events and clients can call: trick.dst_call(n, a, b)
void on_call(int n, std::function<int(int, int)> f);
}
