#!/usr/bin/env python3
"""The planted bugs: writes /verif/seeded/<id>/ against /repo's HEAD (arguments: ids, default all)."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkseed
from mkseed import *
def make(id, *a):
    if len(sys.argv) == 1 or id in sys.argv[1:]: mkseed.make(id, *a)
SS='trick_source/sim_services/'
RUN='timeout 100 ./S_main*.exe input.py > out.txt 2>&1\n'
def simdemo(sdef, hh, inp, check): return {'S_define': SDEF % sdef, 'd.hh': HH % hh, 'input.py': inp, 'demo.sh': SIM % (RUN + check)}

make('e06-disabled-next','E06','a job on a child thread that is off while its next time passes without any other job being due, and is turned on again later',
 'the search for the next time skips jobs that are off, so the clock jumps over the nominal time of a disabled job; the job then never matches again and stays silent after it is turned on',
 [(SS+'ScheduledJobQueue/ScheduledJobQueue.cpp','            if ( curr_job->next_tics > time_tics && curr_job->next_tics < next_job_time ) {\n                next_job_time = curr_job->next_tics ;\n            }\n            curr_index++ ;\n        }\n    }\n    return(NULL) ;',
 '            /* A job that is turned off does not need a time step of its own. */\n            if ( !curr_job->disabled && curr_job->next_tics > time_tics && curr_job->next_tics < next_job_time ) {\n                next_job_time = curr_job->next_tics ;\n            }\n            curr_index++ ;\n        }\n    }\n    return(NULL) ;')],
 simdemo('    (1.0, "scheduled") d.a();\n    C1 (0.3, "scheduled") d.b();',
 '''class D { public: int na, nb; D() : na(0), nb(0) {}
 int a() { na++; if (na == 3) exec_set_job_onoff("dyn.d.b", 1, 0); if (na == 6) { nb = 0; exec_set_job_onoff("dyn.d.b", 1, 1); } return 0; }
 int b() { nb++; fprintf(stderr, "DEMO b %d\\n", nb); return 0; } };''',
 'trick.exec_set_software_frame(20.0)\ntrick.stop(9.0)\n', 'n=$(grep "DEMO b" out.txt | tail -1 | sed "s/.*b //"); echo "calls after turning on: $n"; [ "$n" = 13 ] || [ "$n" = 14 ]'))

make('e02-last-depend','E02','a job that depends on two jobs of different threads, of which the one added first takes longer',
 'a job waits only for the dependency that was added last; when an earlier one takes longer, it starts before that one has finished',
 [(SS+'Executive/Executive_loop_multi_thread.cpp','            for ( ii = 0 ; ii < curr_job->depends.size() ; ii++ ) {','            for ( ii = curr_job->depends.empty() ? 0 : curr_job->depends.size() - 1 ; ii < curr_job->depends.size() ; ii++ ) {')],
 simdemo('    C1 (0.1, "scheduled") d.a();\n    C2 (0.1, "scheduled") d.c();\n    (0.1, "scheduled") d.b();',
 '''class D { public: volatile int na, bad; D() : na(0), bad(0) {}
 int a() { usleep(30000); na = na + 1; return 0; }
 int c() { return 0; }
 int b() { static int n; n++; if (na < n) { bad = bad + 1; fprintf(stderr, "DEMO early %d %d\\n", n, na); } return 0; } };''',
 'trick.exec_add_depends_on_job("dyn.d.b", 1, "dyn.d.a", 1)\ntrick.exec_add_depends_on_job("dyn.d.b", 1, "dyn.d.c", 1)\ntrick.stop(1.0)\n', 'grep -c "TERMINATED" out.txt; ! grep "DEMO early" out.txt && grep -q TERMINATED out.txt'))

make('e04-freeze-twice','E04','two freezes scheduled for the same time, and another one later',
 'only one of the requests for a time is consumed; the freeze job is then scheduled in the past and every later scheduled freeze is lost',
 [(SS+'Executive/Executive_freeze.cpp','        while ( !freeze_times.empty() and (freeze_times.top() <= time_tics) ) {','        if ( !freeze_times.empty() and (freeze_times.top() <= time_tics) ) {')],
 simdemo('    (1.0, "scheduled") d.a();\n    ("freeze_init") d.fi();\n    ("freeze") d.f();',
 '''class D { public: int n; D() : n(0) {}
 int a() { return 0; }
 int fi() { fprintf(stderr, "DEMO freeze at %g\\n", exec_get_sim_time()); return 0; }
 int f() { exec_run(); return 0; } };''',
 'trick.exec_set_enable_freeze(True)\ntrick.freeze(2.5)\ntrick.freeze(2.5)\ntrick.freeze(4.5)\ntrick.stop(6.0)\n', 'grep DEMO out.txt; [ "$(grep -c "DEMO freeze at" out.txt)" = 2 ] && grep -q "DEMO freeze at 4.5" out.txt'))

make('e05-stop-in-freeze','E05','a stop that is commanded while the simulation is frozen',
 'the freeze loop clears every command that is not "run" as redundant, so an exit commanded during a freeze is swallowed and the simulation never ends',
 [(SS+'Executive/Executive_freeze_loop.cpp','        } else if ( exec_command == FreezeCmd ) {','        } else if ( exec_command != NoCmd ) {')],
 simdemo('    (1.0, "scheduled") d.a();\n    ("freeze") d.f();\n    ("shutdown") d.s();',
 '''#include "trick/exec_proto.hh"
#include "trick/Executive.hh"
class D { public: int n; D() : n(0) {}
 int a() { return 0; }
 int f() { if (++n == 3) exec_get_exec_cpp()->stop(); if (n == 50) { fprintf(stderr, "DEMO still frozen\\n"); _exit(3); } return 0; }
 int s() { fprintf(stderr, "DEMO shutdown\\n"); return 0; } };''',
 'trick.exec_set_enable_freeze(True)\ntrick.freeze(2.0)\ntrick.stop(6.0)\n', 'grep DEMO out.txt; grep -q "DEMO shutdown" out.txt && ! grep -q "DEMO still" out.txt'))

make('e01-stop-inclusive','E01','a job whose stop time is exactly one of its nominal times',
 'the call at exactly the stop time of a job is dropped',
 [(SS+'ScheduledJobQueue/ScheduledJobQueue.cpp','                if (next_call > curr_job->stop_tics) {','                if (next_call >= curr_job->stop_tics) {')],
 simdemo('    (0.5, 0.0, 2.0, "scheduled") d.a();',
 '''class D { public: int n; D() : n(0) {} int a() { n++; fprintf(stderr, "DEMO %d\\n", n); return 0; } };''',
 'trick.stop(4.0)\n', 'n=$(grep -c DEMO out.txt); echo $n; [ "$n" = 5 ]'))

make('e03-fire-unlocked','E03','a thread with the mutex trigger that is fired in the window between checking for work and going to sleep',
 'the trigger signals without holding the mutex, so a wake-up can fall between the check and the wait of the child and is lost: the simulation hangs',
 [(SS+'Executive/ThreadTrigger.cpp','    pthread_mutex_lock(&go_mutex);\n    go_flag = true ;\n    pthread_cond_signal(&go_cv);\n    pthread_mutex_unlock(&go_mutex);','    /* go_flag keeps the trigger, the signal only has to get a waiting child going */\n    go_flag = true ;\n    pthread_cond_signal(&go_cv);')],
 dict(simdemo('    (0.1, "scheduled") d.a();\n    C1 (0.1, "scheduled") d.b();',
 '''class D { public: int n; D() : n(0) {} int a() { return 0; } int b() { n++; return 0; } };''',
 'trick.stop(1.0)\n', ''), **{'slow.c': '''#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/syscall.h>
/* every wait on a condition variable is reached late, as on a loaded host */
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static int (*f)(pthread_cond_t *, pthread_mutex_t *);
    if (!f) f = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    usleep(60000);
    return f(c, m);
}
''', 'demo.sh': SIM % 'gcc -shared -fPIC -o slow.so "$here"/slow.c -ldl || exit 2\nLD_PRELOAD=$w/slow.so timeout 60 ./S_main*.exe input.py > out.txt 2>&1; rc=$?; tail -3 out.txt; echo "exit $rc"; [ $rc = 0 ]'}))


make('d01-step-room','D01','change-triggered step recording, which writes two rows per pass, into a buffer that fills up within a frame at an odd number of rows',
 'the room that step recording needs is not checked any more, so the second row of a pass goes over the oldest row that has not been written yet',
 [(SS+'DataRecord/DataRecordGroup.cpp','                if ( buffer_num - writer_num >= (max_num - 2) ) {','                if ( buffer_num - writer_num >= max_num ) {')],
 simdemo('    (0.1, "scheduled") d.a();',
 '''class D { public: double t; int k; D() : t(0), k(0) {} int a() { k++; t = exec_get_sim_time(); return 0; } };''',
 '''g = trick.DRAscii("g")
g.add_variable("dyn.d.k")
g.add_change_variable("dyn.d.k")
g.freq = trick.DR_Changes_Step
g.set_cycle(0.1)
g.set_max_buffer_size(7)
trick.add_data_record_group(g, trick.DR_Buffer)
trick.exec_set_software_frame(10.0)
trick.stop(9.95)
''', 'f=$(ls -d RUN*/log_g.csv log_g.csv 2>/dev/null | head -1); [ -n "$f" ] || exit 2; tail -n +2 "$f" | cut -d, -f2 | sort -n | uniq -c | awk \'{ if ($2 > 2 && $2 < 99 && $1 != 2) { bad++ ; print "value", $2, "in", $1, "rows" } n++ } END { print n, "values"; exit (bad || n < 98) }\''))

make('d02-flush','D02','an unbuffered group, and the process killed before the file is closed',
 'rows stay in the buffer of the stream until it fills up, so a crash loses the last frames although the group asked for no buffering',
 [(SS+'DataRecord/DRAscii.cpp','    out_stream << writer_buff << std::endl ;\n\n    /*! Flush the output */\n    out_stream.flush() ;\n',"    /*! A group that is written in blocks is flushed a block at a time */\n    out_stream << writer_buff << '\\n' ;\n    if ( (writer_offset & 15) == 15 ) {\n        out_stream.flush() ;\n    }\n")],
 simdemo('    (0.1, "scheduled") d.a();',
 '''#include <signal.h>
class D { public: double t; int k; D() : t(0), k(0) {} int a() { k++; if (k == 42) kill(getpid(), SIGKILL); return 0; } };''',
 '''g = trick.DRAscii("g")
g.add_variable("dyn.d.k")
g.set_cycle(0.1)
trick.add_data_record_group(g, trick.DR_No_Buffer)
trick.exec_set_software_frame(0.1)
trick.stop(9.0)
''', 'f=$(ls -d RUN*/log_g.csv log_g.csv 2>/dev/null | head -1); [ -n "$f" ] || exit 2; n=$(tail -n +2 "$f" | wc -l); echo "rows on disk: $n"; [ "$n" -ge 41 ]'))

make('c03-post-jobs','C03','a checkpoint whose file cannot be written',
 'when the file cannot be written the post-checkpoint jobs are skipped, so what the pre-checkpoint jobs prepared stays in that state and the run that goes on is not the run without a checkpoint',
 [(SS+'CheckPointRestart/CheckPointRestart.cpp','    post_checkpoint_queue.reset_curr_index() ;\n    while ( (curr_job = post_checkpoint_queue.get_next_job()) != NULL ) {\n        curr_job->parent_object->call_function(curr_job) ;\n    }\n\n    if ( failed )\n    {\n        message_publish(MSG_ERROR, "Failed to dump checkpoint %s.\\n", file_name.c_str()) ;\n    }\n',
 '    if ( failed )\n    {\n        message_publish(MSG_ERROR, "Failed to dump checkpoint %s.\\n", file_name.c_str()) ;\n        return failed ;\n    }\n\n    post_checkpoint_queue.reset_curr_index() ;\n    while ( (curr_job = post_checkpoint_queue.get_next_job()) != NULL ) {\n        curr_job->parent_object->call_function(curr_job) ;\n    }\n\n    if ( 0 )\n    {\n    }\n')],
 simdemo('    (1.0, "scheduled") d.a();\n    ("checkpoint") d.pre();\n    ("post_checkpoint") d.post();\n    ("shutdown") d.s();',
 '''#include <sys/stat.h>
class D { public: int open, n; D() : open(0), n(0) {}
 int a() { return 0; }
 int pre() { open++; n++; return 0; } int post() { open--; return 0; }
 int s() { fprintf(stderr, "DEMO checkpoints %d open %d\\n", n, open); return 0; } };''',
 '''import os
trick.checkpoint(2.0)
trick.checkpoint(4.0)
trick.add_read(1.0, """
import os
os.mkdir(trick.command_line_args_get_output_dir() + '/chkpnt_2.000000')
""")
trick.exec_set_software_frame(1.0)
trick.stop(6.0)
''', 'grep DEMO out.txt; grep -q "Failed to dump" out.txt || exit 2; grep -q "DEMO checkpoints 2 open 0" out.txt'))

make('c01-job-state','C01','a job that is off at the time of the checkpoint and on when the checkpoint is loaded, or the other way round',
 'a reload takes the state of a job from the checkpoint only when the job was on there: one that was off keeps the state it has at the time of the load',
 [(SS+'SimObject/JobData.cpp','    disabled = in_job->disabled ;\n    complete = in_job->complete ;\n','    /* a job of the checkpoint that was on is on again */\n    disabled = disabled && in_job->disabled ;\n    complete = in_job->complete ;\n')],
 simdemo('    (1.0, "scheduled") d.a();\n    (1.0, "scheduled") d.b();',
 '''class D { public: int na, nb, loads; D() : na(0), nb(0), loads(0) {}
 int a() { double t = exec_get_sim_time(); if (t == 2) exec_set_job_onoff("dyn.d.b", 1, 0); return 0; }
 int b() { nb++; fprintf(stderr, "DEMO b at %g\\n", exec_get_sim_time()); return 0; } };''',
 '''trick.exec_set_software_frame(1.0)
trick.checkpoint(4.0)
trick.add_read(6.0, """
if not os.path.exists('loaded'):
    open('loaded', 'w').close()
    trick.exec_set_job_onoff("dyn.d.b", 1, 1)
    trick.load_checkpoint(trick.command_line_args_get_output_dir() + '/chkpnt_4.000000')
""")
import os
trick.stop(9.0)
''', 'grep DEMO out.txt; [ -e loaded ] || exit 2; [ "$(grep -c DEMO out.txt)" -le 4 ]'))

make('p02-fire-window','P02','a batch that is fired while the main thread is in the middle of applying another one',
 'the lock is released while a batch is applied and everything queued is dropped afterwards, so a batch that was fired in between is lost',
 [(SS+'RealtimeInjector/RtiExec.cpp','                std::vector < RtiList * >::iterator rlit ;\n                for ( rlit = fire_list.begin() ; rlit != fire_list.end() ; ++rlit ) {','                std::vector < RtiList * > lists(fire_list) ;\n                std::vector < RtiList * >::iterator rlit ;\n                // do not hold up the threads that stage injections while the values are set\n                pthread_mutex_unlock(&list_mutex) ;\n                for ( rlit = lists.begin() ; rlit != lists.end() ; ++rlit ) {'),
  (SS+'RealtimeInjector/RtiExec.cpp','                fire_list.clear() ;\n','                pthread_mutex_lock(&list_mutex) ;\n                fire_list.clear() ;\n')],
 simdemo('    (0.1, "scheduled") d.a();\n    ("initialization") d.start();\n    ("shutdown") d.s();',
 '''#include <pthread.h>
#include "trick/RtiStager.hh"
extern Trick::RtiStager * the_rtis;
class D { public: volatile double first; double last; double second; D() : first(0), last(0), second(0) {}
 static void * body(void * p) { D * d = (D *)p; char f[] = "dyn.d.first", l[] = "dyn.d.last", s[] = "dyn.d.second";
   usleep(200000);
   the_rtis->Add(f, 1.0); for (int i = 0; i < 200000; i++) the_rtis->Add(l, (double)i);
   the_rtis->Add(s, 5.0); the_rtis->Fire(0);
   while (d->first == 0) ;
   the_rtis->Add(s, 7.0); the_rtis->Fire(0); return 0; }
 int start() { pthread_t t; pthread_create(&t, 0, body, this); return 0; }
 int a() { usleep(20000); return 0; }
 int s() { fprintf(stderr, "DEMO first %g second %g\\n", first, second); return 0; } };''',
 'trick.exec_set_software_frame(0.1)\ntrick.stop(10.0)\n', 'grep DEMO out.txt; grep -q "DEMO first 1 second 7" out.txt'))

make('n01-all-or-nothing','N01','an all-or-nothing read whose data arrives in two pieces',
 'when the rest of the data is not there yet, an all-or-nothing read gives up, and the piece it has already taken from the connection is lost',
 [('trick_source/trick_utils/comm/src/tc_read.c','            if (nbytes == 0 && tmp_nbytes == -1 && (tc_errno == TRICKCOMM_EWOULDBLOCK || tc_errno == TRICKCOMM_EAGAIN)) {\n                nbytes = -1;','            if (nbytes < size && tmp_nbytes == -1 && (tc_errno == TRICKCOMM_EWOULDBLOCK || tc_errno == TRICKCOMM_EAGAIN)) {\n                nbytes = -1;')],
 {'demo.c': r'''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <trick/tc.h>
#include <trick/tc_proto.h>
int main(void) {
    int sv[2], n, st; char b[8]; TCDevice d; memset(&d, 0, sizeof d);
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return 2;
    if (fork() == 0) { close(sv[0]); usleep(200000); if (write(sv[1], "abcd", 4) != 4) _exit(1); usleep(300000); if (write(sv[1], "efgh", 4) != 4) _exit(1); usleep(500000); _exit(0); }
    close(sv[1]); d.socket = sv[0]; d.socket_type = SOCK_STREAM; tc_blockio(&d, TC_COMM_ALL_OR_NOTHING);
    alarm(20);
    while ((n = tc_read(&d, b, 8)) == -1) usleep(10000);
    printf("read %d bytes: %.*s\n", n, n > 0 ? n : 0, b);
    return !(n == 8 && !memcmp(b, "abcdefgh", 8));
}
''', 'demo.sh': '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); root=$(pwd)
w=$(mktemp -d) || exit 2; trap 'rm -rf "$w"' EXIT
l=$(ls -d "$root"/lib*/libtrick_comm.a | head -1)
gcc -I"$root/include" -o "$w/demo" "$here/demo.c" "$l" -lpthread -lm || exit 2
timeout 60 "$w/demo"
'''})

make('p01-boundary','P01','an event for the start of a frame that is added during the frame before',
 'a one-time event whose time is exactly the frame at which it takes effect is taken for one that has passed and never runs',
 [(SS+'EventManager/EventProcessor.cpp','            if ( (*it)->get_next_tics() < curr_tics ) {','            if ( (*it)->get_next_tics() <= curr_tics ) {')],
 simdemo('    (1.0, "scheduled") d.a();',
 '''class D { public: int n; D() : n(0) {} int a() { return 0; } };''',
 '''trick.exec_set_software_frame(1.0)
trick.add_read(2.0, """
trick.add_read(3.0, "print('DEMO event ran at', trick.exec_get_sim_time())")
""")
trick.stop(6.0)
''', 'cat out.txt | grep DEMO; grep -q "DEMO event ran at 3" out.txt'))

make('r01-freeze-toggle','R01','real time turned off and on again while the simulation is frozen, after some freeze cycles',
 'the clock is anchored to the simulation time instead of the freeze time, so the time already spent in the freeze is waited for again',
 [(SS+'RealtimeSync/RealtimeSync.cpp','            start_realtime(freeze_frame_sec , freeze_time_tics) ;','            start_realtime(freeze_frame_sec , exec_get_time_tics()) ;')],
 simdemo('    (0.1, "scheduled") d.a();\n    ("freeze") d.f();\n    ("unfreeze") d.u();',
 '''#include "trick/realtimesync_proto.h"
#include <time.h>
class D { public: int n, k; double t0; D() : n(0), k(0), t0(0) {}
 static double clk() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
 int a() { return 0; }
 int f() { n++; if (n == 20) { t0 = clk(); real_time_disable(); } if (n == 23) real_time_enable(); if (n == 28) exec_run(); return 0; }
 int u() { fprintf(stderr, "DEMO seconds for the rest of the freeze: %.2f\\n", clk() - t0); return 0; } };''',
 'trick.real_time_enable()\ntrick.exec_set_enable_freeze(True)\ntrick.exec_set_software_frame(0.1)\ntrick.exec_set_freeze_frame(0.1)\ntrick.freeze(1.0)\ntrick.stop(2.0)\n', 'grep DEMO out.txt; grep DEMO out.txt | awk \'{ exit !($NF < 1.2) }\''))

make('g01-ring-order','G01','the printing thread running between the two steps of queueing a message',
 'a message is made visible to the printing thread before its text is there, so an old or partial text may be printed in its place',
 [(SS+'Message/MessageThreadedCout.cpp','            copy_ptr->copy(header, color_code, message) ;\n            copy_ptr = copy_ptr->next ;','            StringNode * node = copy_ptr ;\n            copy_ptr = copy_ptr->next ;\n            node->copy(header, color_code, message) ;')],
 simdemo('    (0.1, "scheduled") d.a();\n    ("shutdown") d.s();',
 '''#include "trick/message_proto.h"
#include "trick/message_type.h"
class D { public: int n; D() : n(0) {}
 int a() { for (int i = 0; i < 400; i++) { message_publish(MSG_NORMAL, "DEMO %d %0*d\\n", n++, 300, 0); if (i % 4 == 0) usleep(100); } usleep(20000); return 0; }
 int s() { return 0; } };''',
 '''trick_message.separate_thread_set_enabled(True)
trick.stop(10.0)
''', 'grep -ao "DEMO [0-9]* 0*" out.txt > d.txt; n=$(wc -l < d.txt); r=$(sort d.txt | uniq -d | wc -l); t=$(grep -vac "DEMO [0-9]* 0\\{300\\}$" d.txt); echo "$n messages, $r printed more than once, $t torn"; [ "$n" -gt 1000 ] && [ "$r" = 0 ]'))

make('v01-frame-offset','V01','a client in the top of frame copy mode with a frame multiple and an offset',
 'the offset that the client set for freezes is used while the simulation runs, so with an offset of its own a client is sent other frames than it asked for',
 [(SS+'VariableServer/VariableServerSession_copy_and_write_modes.cpp','        long long temp_frame = curr_frame % get_frame_multiple() ;\n        if ( temp_frame == get_frame_offset() ) {','        long long temp_frame = curr_frame % get_frame_multiple() ;\n        if ( temp_frame == get_freeze_frame_offset() ) {')],
 dict(simdemo('    (0.1, "scheduled") d.a();',
 '''class D { public: int n; D() : n(0) {} int a() { n = (int)(exec_get_sim_time() * 10 + 0.5); return 0; } };''',
 '''trick.var_server_set_port(0)
trick.var_allow_connections()
trick.real_time_enable()
trick.exec_set_software_frame(0.1)
trick.add_read(0.0, """open('port.tmp', 'w').write(str(trick.var_server_get_port())); import os; os.rename('port.tmp', 'port')""")
trick.stop(6.0)
''', ''), **{'client.py': '''import socket, time, sys, os
for i in range(200):
    if os.path.exists('port'): break
    time.sleep(0.05)
s = socket.create_connection(('localhost', int(open('port').read())))
s.sendall(b'trick.var_set_copy_mode(2)\\ntrick.var_set_write_mode(1)\\ntrick.var_set_frame_multiple(5)\\ntrick.var_set_frame_offset(2)\\ntrick.var_add("dyn.d.n")\\n')
d = b''
s.settimeout(5)
try:
    while d.count(b'\\n') < 6: 
        r = s.recv(4096)
        if not r: break
        d += r
except socket.timeout: pass
n = [int(l.split(b'\\t')[1]) for l in d.split(b'\\n')[1:-1]]
print('frames received', n)
sys.exit(not (len(n) >= 3 and len(set(x % 5 for x in n)) == 1 and n[0] % 5 in (1, 2)))
''', 'demo.sh': SIM % 'timeout 60 ./S_main*.exe input.py > out.txt 2>&1 &\ntimeout 50 python3 "$here"/client.py; rc=$?; kill %1; exit $rc'}))

make('l01-enable-order','L01','frame logging that is turned off in the middle of a frame and on again later',
 'the frame times of the jobs are cleared before the group is marked as recording, which makes the clearing do nothing: the first record after logging is turned on again includes time from the frame in which it was turned off',
 [(SS+'FrameLog/FrameDataRecordGroup.cpp','    record = true ;\n    frame_log_clear() ;','    frame_log_clear() ;\n    record = true ;')],
 simdemo('    (0.1, "scheduled") d.a();',
 '''#include "trick/exec_proto.hh"
#include "trick/JobData.hh"
class D { public: int n; D() : n(0) {}
 int a() { usleep(5000); return 0; }
 int rep() { fprintf(stderr, "DEMO %d\\n", exec_get_job("dyn.d.a", 1)->frame_time_seconds > 0); return 0; } };''',
 'trick.exec_set_software_frame(1.0)\ntrick.frame_log_on()\ntrick.add_read(0.55, "trick.frame_log_off()")\ntrick.add_read(2.05, "trick.frame_log_on()\\ndyn.d.rep()")\ntrick.stop(4.0)\n', 'grep "DEMO" out.txt; grep -q "DEMO 0" out.txt'))

make('s01-unfreeze-limit','S01','a slave that was given up, a freeze after that, and another slave (added later) that goes silent after the freeze',
 'the restoring of the time limits after a freeze stops at the first slave that was given up, so the slaves after it keep the endless limit of the freeze and a silent one hangs the master for ever',
 [(SS+'MasterSlave/Master.cpp','            /** @li Set the connection sync_wait_limit to the default for each slave */\n            curr_slave = slaves[ii] ;\n            if ( curr_slave->activated == true ) {\n                curr_slave->connection->set_sync_wait_limit(curr_slave->sync_wait_limit) ;\n            }\n',
 '            /** @li Set the connection sync_wait_limit to the default for each slave */\n            curr_slave = slaves[ii] ;\n            if ( curr_slave->activated == false ) {\n                break ;\n            }\n            curr_slave->connection->set_sync_wait_limit(curr_slave->sync_wait_limit) ;\n')],
 simdemo('    ("default_data") d.setup();\n    (1.0, "scheduled") d.a();\n    ("freeze") d.f();\n    ("shutdown") d.end();',
 '''#include <string>
#include <string.h>
#include "trick/Master.hh"
#include "trick/MSConnect.hh"
extern Trick::Master * the_ms_master;
class DemoConnection : public Trick::MSConnect { public: int lost_at, n; double limit; DemoConnection() : lost_at(-1), n(0), limit(0) {}
 virtual int set_sync_wait_limit(double l) { limit = l; return 0; }
 virtual std::string add_sim_args(std::string) { return ""; }
 virtual int process_sim_args() { return 1; } virtual int accept() { return 0; } virtual int connect() { return 0; } virtual int disconnect() { return 0; }
 virtual long long read_time() { return 0; } virtual int read_port() { return 0; } virtual char read_name(char * d, size_t) { d[0] = 0; return 0; }
 virtual MS_SIM_COMMAND read_command() { return n++ == lost_at ? MS_ErrorCmd : MS_NoCmd; }
 virtual int write_time(long long) { return 0; } virtual int write_port(int) { return 0; } virtual int write_name(char *, size_t) { return 0; } virtual int write_command(MS_SIM_COMMAND) { return 0; } };
class D { public: int n; D() : n(0) {} DemoConnection c[3]; Trick::SlaveInfo s[3];
 int setup() { the_ms_master->enable(); for (int i = 0; i < 3; i++) { s[i].sim_path = "/"; s[i].remote_shell = Trick::TRICK_USER_REMOTE_SH; s[i].user_remote_shell = "true"; s[i].sync_wait_limit = 2.5 + i; s[i].sync_error_terminate = false; s[i].set_connection_type(&c[i]); the_ms_master->add_slave(&s[i]); } c[1].lost_at = 1; return 0; }
 int a() { return 0; }
 int f() { exec_run(); return 0; }
 int end() { fprintf(stderr, "DEMO active %d %d %d limits %g %g %g\\n", s[0].activated, s[1].activated, s[2].activated, c[0].limit, c[1].limit, c[2].limit); return 0; } };''',
 'trick.exec_set_enable_freeze(True)\ntrick.freeze(4.0)\ntrick.stop(8.0)\n', 'grep DEMO out.txt; grep -q "DEMO active 1 0 1 limits 2.5 .* 4.5$" out.txt'))
