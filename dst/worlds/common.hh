// Shared by the worlds: access to the simulation under test.
#pragma once
#include "dst.h"
#include "dst_vars.hh"
#include "trick/Executive.hh"
#include "trick/ExecutiveException.hh"
#include "trick/SimObject.hh"
#include "trick/JobData.hh"
#include "trick/Threads.hh"
#include "trick/exec_proto.hh"
#include "trick/exec_proto.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <math.h>
#include <string.h>
#include <limits.h>
namespace w {
using namespace dst;
typedef long long ll;
inline ll tics() { return exec_get_time_tics(); }
inline ll tps() { return exec_get_time_tic_value(); }
// time of the calling thread in tics (children keep their own clock)
inline ll my_tics() { return llround(exec_get_sim_time() * (double)exec_get_time_tic_value()); }
struct Job;
// a simulation object whose jobs are C++ closures
class Obj : public Trick::SimObject {
  public:
    std::map<Trick::JobData*, std::function<int(Trick::JobData*)>> fn;
    int n = 0;
    Trick::JobData* add(int thread, const char* cls, double cycle, const char* nm, int phase, double start, double stop, std::function<int(Trick::JobData*)> f) {
        Trick::JobData* j = add_job(thread, n++, cls, NULL, cycle, nm, "", phase, start, stop); fn[j] = f; return j;
    }
    virtual int call_function(Trick::JobData* j) { auto i = fn.find(j); return i == fn.end() ? 0 : i->second(j); }
    virtual double call_function_double(Trick::JobData* j) { return call_function(j); }
};
// common fault and machine parameters, off unless chosen by the seed
inline void machine_faults(int level) {
    if (level <= 0) return;
    if (chance("f.spur", 40)) fault_rate("spurious_wakeup", 20000);
    if (chance("f.over", 40)) fault_rate("oversleep", 50000);
}
inline const char* CLASSES[] = {"scheduled", "random", "environment", "sensor", "sensor_emitter", "sensor_reflector", "sensor_receiver", "effector", "effector_emitter", "effector_receiver", "logging", "data_record"};
inline int class_rank(const std::string& c) {
    static const char* o[] = {"automatic", "random", "environment", "sensor", "sensor_emitter", "sensor_reflector", "sensor_receiver", "scheduled", "effector", "effector_emitter", "effector_receiver", "automatic_last", "logging", "data_record"};
    for (int i = 0; i < 14; i++) if (c == o[i]) return i; return 99;
}
}
