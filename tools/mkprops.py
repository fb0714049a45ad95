#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/dst')
from props import PROPS
SS = 'trick_source/sim_services'
TU = 'trick_source/trick_utils'
P = []
def prop(id, title, statement, over, text, why, files, mech, **k):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if 'state' in k: a['state'] = [{'name': n, 'meaning': m} for n, m in k['state']]
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a, '_na': k.get('na')})

prop('E01', 'Every job runs exactly at its scheduled times, on every thread',
     'Every enabled periodic job is called exactly once at each of its nominal times start, start+cycle, start+2*cycle, ... up to its stop time and the end of the simulation, and at no other time, whichever thread it is assigned to. Frame jobs run once per software frame, and a job of an asynchronous thread is never called twice for the same nominal time nor outside its nominal times. The conversion of user seconds to the integral simulation clock is exact to the nearest tic, for every time tic value and also when the tic value is changed while jobs exist.',
     ['schedules', 'configurations', 'inputs'], 'every set of jobs, cycles, offsets, stop times, tic values and thread assignments, under every interleaving of the threads',
     'Tests run a handful of fixed job sets with round numbers on the host scheduler; they never vary interleavings, tic values and offsets together.',
     [SS + '/Executive', SS + '/ScheduledJobQueue', SS + '/JobData'],
     [('job queue ordered by next call time', SS + '/ScheduledJobQueue/ScheduledJobQueue.cpp'), ('main loop and child loops', SS + '/Executive/Executive_loop_multi_thread.cpp, Threads_child.cpp'), ('next time of a job', SS + '/Executive/Executive_call_next_job.cpp / SimObject calls')])
prop('E02', 'Class, phase and dependency order; time advances only when a step is done',
     'Within a time step the jobs of one thread run in class order, then phase, then sim object and definition order, and a job with a dependency starts only after the job it depends on has finished. The simulation clock does not advance, and the end of frame does not run, while a job of the step is still running on any synchronous thread. Work of an AMF thread for a frame begins after the main line reaches the frame and is finished before the main line passes the end of that frame.',
     ['schedules', 'configurations'], 'every interleaving and relative speed of the main and child threads, and every assignment of classes, phases and dependencies',
     'A missing synchronisation only shows under particular interleavings; the tests see the few that the host scheduler happens to produce.',
     [SS + '/Executive', SS + '/ThreadBase'], [('thread synchronisation', SS + '/Executive/Executive_thread_sync.cpp'), ('dependency wait', SS + '/Executive/Executive_loop_multi_thread.cpp'), ('thread triggers', SS + '/Executive/ThreadTrigger.cpp')])
prop('E03', 'A multi-threaded simulation always makes progress to its end',
     'With any kind of thread trigger, thread type and job load, a simulation whose jobs return always reaches its stop time: no wake-up is lost and no wait is for ever, also when sleeps are late or wake-ups spurious.',
     ['schedules', 'configurations', 'fault_sequences'], 'every interleaving, spurious wake-up and late sleep, all trigger and thread types',
     'A lost wake-up needs one precise interleaving in a window of a few instructions; a test run passes without it practically always.',
     [SS + '/Executive', SS + '/ThreadBase'], [('thread triggers', SS + '/Executive/ThreadTrigger.cpp'), ('thread completion flags', SS + '/Executive/Threads_child.cpp')])
prop('E04', 'Freeze stops the simulation exactly where asked, loses nothing, resumes',
     'A freeze scheduled for a time takes effect exactly at that time (on the frame boundary when that option is on) and a freeze command at the end of the current frame; freeze_init, freeze, freeze_scheduled and unfreeze jobs then run in order and the right number of times, and the simulation clock stands still with no job of the main line running. After unfreezing, every job resumes with its schedule unchanged: none is lost, repeated or shifted.',
     ['schedules', 'histories', 'configurations'], 'every sequence of freeze requests, commands and steps at any time, on and off frame boundaries, with any thread layout',
     'Tests freeze once or twice at a convenient time; they do not combine freezes with offsets, frame boundaries and threads.',
     [SS + '/Executive'], [('freeze handling', SS + '/Executive/Executive_freeze.cpp, Executive_freeze_loop.cpp, Executive_scheduled_freeze.cpp'), ('mode transitions', SS + '/Executive/Executive_set_exec_command.cpp')])
prop('E05', 'However a run ends, shutdown jobs run once and the exit code is right',
     'When a simulation ends by its stop time, a stop call, an exception or an error return from any job (initialisation and shutdown jobs included), or a signal, no job of a later time runs, every shutdown job runs exactly once in order, and the process returns the documented exit code.',
     ['schedules', 'histories', 'fault_sequences'], 'every way and moment of ending the run, on every thread, with signals at arbitrary points',
     'The tests end a simulation normally or at one fixed point; signals and exceptions at arbitrary points of a multi-threaded run are not sampled.',
     [SS + '/Executive'], [('run, loop and shutdown', SS + '/Executive/Executive_run.cpp, Executive_shutdown.cpp, Executive_terminate.cpp'), ('signal handlers', SS + '/Executive/Executive_process_sim_args.cpp, Executive_signal_handlers.cpp')])
prop('E06', 'Run-time control of jobs, objects and threads affects exactly its target',
     'Turning jobs or sim objects off and on, changing cycles, and adding or removing sim objects while the simulation runs changes the schedule of exactly those jobs from that moment on, and restores on-state as it was; all other jobs keep their exact schedule.',
     ['schedules', 'histories', 'programs'], 'every sequence of control calls at any time, from jobs and from the input file',
     'Tests make single calls in a fixed state; they do not explore sequences of calls in different states.',
     [SS + '/Executive', SS + '/ScheduledJobQueue'], [('job queue insert and remove', SS + '/ScheduledJobQueue/ScheduledJobQueue.cpp'), ('object on/off', SS + '/Executive/Executive_set_simobject_onoff.cpp')])

prop('R01', 'Real time: never ahead of the wall clock, overruns counted, always recovers',
     'With real-time on, no software frame boundary is passed before the wall clock has reached it, whatever the jobs cost and however late sleeps return; a frame that ends late is counted as an overrun exactly once, and when load returns to normal the simulation catches up. Freezes, and turning real-time off and on, re-anchor the clock so that the simulation neither races nor counts false overruns afterwards.',
     ['schedules', 'fault_sequences', 'configurations'], 'every job load, late wake-up and clock step, with every sleep-timer setting and clock ratio',
     'A test on a real clock cannot control load, timer latency or clock steps and does not check every frame.',
     [SS + '/RealtimeSync', SS + '/Clock', SS + '/Timer'], [('frame monitor', SS + '/RealtimeSync/RealtimeSync.cpp'), ('clock', SS + '/Clock/Clock.cpp, GetTimeOfDayClock.cpp'), ('sleep timer', SS + '/Timer/ITimer.cpp')])

prop('V01', 'Variable server frames are coherent snapshots in order, at the cycle asked',
     'Each cyclic message a variable server client receives carries, for all its variables, values that existed together at one instant of the simulation when the client asked for synchronised data; successive messages never go backwards in time, a paused client gets none, and the values are those of the variables asked for in the order asked for. The cadence follows the cycle the client set.',
     ['schedules', 'configurations', 'histories'], 'every interleaving of simulation and client threads, copy and write mode, cycle and set of variables',
     'Torn or stale snapshots depend on the interleaving of three threads; tests read values that hardly change.',
     [SS + '/VariableServer'], [('copy of simulation data', SS + '/VariableServer/VariableServerSession_copy_sim_data.cpp'), ('write of data', SS + '/VariableServer/VariableServerSession_write_data.cpp')])
prop('V02', 'Client commands take effect exactly once, in order, and only for their client',
     'Each complete, valid command line a client sends is executed exactly once, in the order sent, however the bytes are split into packets and whatever other clients do; partial lines wait for their remainder. A command acts on the session of its sender only, and its reply, if it has one, goes to the sender alone and reaches every client that keeps reading.',
     ['schedules', 'inputs', 'histories'], 'every segmentation and delay of the byte stream, any number of concurrent clients',
     'Tests send small complete lines over loopback, which arrive in one piece.',
     [SS + '/VariableServer', TU + '/comm', SS + '/../trick_utils/connection_handlers'], [('command reading', TU + '/connection_handlers/TCPConnection.cpp'), ('input processing', SS + '/VariableServer/VariableServerSession_commands.cpp')])
prop('V03', 'What a client receives is a well-formed stream, also when the client is slow',
     'The bytes a variable server client receives are a sequence of whole, well-formed messages in the chosen format; a slow or stalled reader may cause messages to be skipped whole or its connection to be dropped, but never truncated, interleaved or corrupted ones, and never stalls the simulation.',
     ['schedules', 'fault_sequences', 'configurations'], 'every reader speed, send window and partial send; ASCII and binary formats',
     'Loopback sockets in tests never fill up, so partial sends are not exercised.',
     [SS + '/VariableServer', TU + '/connection_handlers'], [('socket write', TU + '/connection_handlers/TCPConnection.cpp'), ('message formatting', SS + '/VariableServer/VariableServerSession_write_data.cpp')])
prop('V04', 'Clients come and go without disturbing each other, the run or its shutdown',
     'Clients may connect, disconnect or be reset at any moment, during initialisation, freeze and shutdown too, without affecting other clients or the schedule of the simulation; the sessions of clients that left are released, and shutdown completes in bounded time with clients connected.',
     ['schedules', 'fault_sequences', 'histories'], 'every moment of connect, disconnect and reset relative to the simulation',
     'Tests connect one or two well-behaved clients at quiet moments.',
     [SS + '/VariableServer', SS + '/ThreadBase'], [('listen thread', SS + '/VariableServer/VariableServerListenThread.cpp'), ('session thread', SS + '/VariableServer/VariableServerSessionThread.cpp'), ('thread control', SS + '/ThreadBase/ThreadBase.cpp')])

prop('V05', 'Only clients that the access settings allow are served',
     'A variable server client is served (its commands run, data is sent to it) only if, at a moment while it connects, the server is enabled, allows connections, and its address is on the allowlist (exactly or within a CIDR block) or the check is bypassed; any other connection is closed unserved, and one that these settings allow is served. Malformed allowlist entries match nothing and change nothing else, changing the allowlist leaves served clients connected, and disabling the server disconnects all.',
     ['inputs', 'schedules', 'histories'], 'every allowlist, every address, and every interleaving of connects with changes of the settings from jobs, input file events and clients',
     'Tests connect from the loopback address only, and change no setting while clients connect.',
     [SS + '/VariableServer'], [('allowlist', SS + '/VariableServer/VariableServer.cpp'), ('listen thread', SS + '/VariableServer/VariableServerListenThread.cpp'), ('session start', SS + '/VariableServer/VariableServerSessionThread_loop.cpp')])

prop('D01', 'Data recording logs every sample exactly once, in order, with exact values',
     'Every data recording group logs one record per recording time (subject to its documented frequency and start/stop settings) with the values the variables had at that moment; after a normal end the files contain all of them in order, none lost, duplicated or torn, whatever the buffering mode, buffer size and speed of the writer thread, and the record of one group never appears in another.',
     ['schedules', 'configurations', 'histories'], 'every interleaving of recorders and writer thread, all buffering modes, frequencies and file formats',
     'Overrun of the ring buffer and races with the writer thread depend on scheduling that tests do not control.',
     [SS + '/DataRecord'], [('ring buffer and writer', SS + '/DataRecord/DataRecordGroup.cpp, DataRecordDispatcher.cpp'), ('formats', SS + '/DataRecord/DRAscii.cpp, DRBinary.cpp')])
prop('D02', 'After a crash a data recording file is a prefix of the true recording',
     'If the process dies at any moment, what is on disk for a data recording group is a valid header followed by a prefix of the true sequence of records, at most the last one torn (for a ring buffer, of its kept records). With no buffering nothing that a group which is on recorded up to the last completed frame is missing.',
     ['crash_points', 'schedules'], 'every crash point at write granularity and every torn last write',
     'Tests do not kill the simulation between writes.',
     [SS + '/DataRecord'], [('record writing', SS + '/DataRecord/DataRecordGroup.cpp')])
prop('D04', 'Disk errors never corrupt recorded data silently or hang the simulation',
     'When writing recorded data fails or is short, because of a full disk, an I/O error or an interrupted call, the simulation continues or ends by its documented path, and the records that are in the file are true ones in order: no record is glued to a torn one, repeated or, when its own write did not fail, missing.',
     ['fault_sequences', 'schedules'], 'every write error, short write and full disk at every write',
     'Tests run on a healthy disk.',
     [SS + '/DataRecord'], [('record writing', SS + '/DataRecord/DRAscii.cpp, DRBinary.cpp')])

prop('C01', 'A checkpoint restores exactly the state and schedule that was saved',
     'Loading a checkpoint makes every managed variable equal to its value when the checkpoint was taken and continues every job schedule from that time, so that the run after a reload is the same as the run that went on; a reload into a state with other dynamic allocations leaves exactly those of the checkpoint.',
     ['schedules', 'histories', 'configurations'], 'every moment of checkpoint and reload, any thread layout and any shape of the managed data',
     'Tests checkpoint one fixed data set at one time.',
     [SS + '/CheckPointRestart', SS + '/CheckPointAgent', SS + '/MemoryManager', SS + '/Executive'], [('dump and load', SS + '/CheckPointRestart/CheckPointRestart.cpp'), ('restart of the executive', SS + '/Executive/Executive_restart.cpp'), ('classic checkpoint agent', SS + '/CheckPointAgent/ClassicCheckPointAgent.cpp')])
prop('C03', 'Checkpoints are taken when scheduled, once each, with their jobs in order',
     'Every requested checkpoint (at a time, periodic safestore, at end, before initialisation, by command) is written exactly once at its time with the complete state, pre-checkpoint jobs before and post-checkpoint jobs after it, and a failed write never destroys the ability to continue.',
     ['schedules', 'histories', 'fault_sequences'], 'every set of checkpoint requests at arbitrary times and frame phases, with write errors',
     'Tests use one request at a frame boundary.',
     [SS + '/CheckPointRestart'], [('scheduling of checkpoints', SS + '/CheckPointRestart/CheckPointRestart.cpp')])

prop('N01', 'TrickComm delivers byte streams exactly, honouring its blocking modes',
     'Data written with the communication library arrives at the peer exactly once and in order, read calls return no more than was asked and exactly that in blocking mode, byte swapping is consistent, and every call reports failure or a short count truthfully when the peer stalls, closes or resets or when calls are interrupted.',
     ['schedules', 'fault_sequences', 'inputs'], 'every segmentation, window, delay, interrupt, close and reset on both sides, all blocking modes',
     'Loopback tests deliver whole buffers at once.',
     [TU + '/comm'], [('read and write', TU + '/comm/src/tc_read.c, tc_write.c'), ('connect and accept handshakes', TU + '/comm/src/tc_connect.c, tc_accept.c')])
prop('N02', 'Client connections frame lines exactly and never overrun their buffers',
     'A client connection returns exactly the complete lines its peer sent, in order, for any split of the stream and any length, and keeps the remainder; a datagram connection returns one datagram per read, and no input makes either write outside its buffers.',
     ['inputs', 'schedules', 'fault_sequences'], 'every segmentation, line length, datagram size and error',
     'Unit tests stub the system calls with a few short messages.',
     [TU + '/connection_handlers'], [('line framing', TU + '/connection_handlers/TCPConnection.cpp, UDPConnection.cpp, MulticastGroup.cpp')])

prop('M01', 'Monte Carlo: every run is resolved exactly once, with slaves that fail',
     'In a Monte Carlo simulation every requested run inside the selected ranges is dispatched and resolved exactly once (or reported as skipped after its allowed tries), its post-processing sees the data of that run, and the master finishes, for every pattern of slave failures, delays, disconnections and retries as long as one slave works.',
     ['schedules', 'fault_sequences', 'histories'], 'every order of slave messages, crash, stall and reconnection',
     'Tests run slaves that work on an idle host.',
     [SS + '/MonteCarlo'], [('master', SS + '/MonteCarlo/MonteCarlo_master.cpp, MonteCarlo_dispatch_run_to_slave.cpp, MonteCarlo_receive_results.cpp'), ('slave', SS + '/MonteCarlo/MonteCarlo_slave_process_run.cpp')])
prop('S01', 'Master and slave simulations advance in lock step and end together',
     'With socket connections, a master begins a frame only after every active slave has reported the end of the one before or was given up after its time limit, and a slave only after its master told it to; each report of a slave gets exactly one answer, in which every slave is told the same; freezes, resumes, checkpoint requests and the end of the simulation reach every slave exactly once and in order, and the loss of a peer ends or continues the run as configured, in bounded time, also in freeze.',
     ['schedules', 'fault_sequences'], 'every delay, stall, loss and reset of the connection at every frame',
     'Tests run both sides on one idle host.',
     [SS + '/MasterSlave'], [('master', SS + '/MasterSlave/Master.cpp'), ('slave', SS + '/MasterSlave/Slave.cpp'), ('connection', SS + '/MasterSlave/MSSocket.cpp')])
prop('G01', 'Messages reach every subscriber once, whole and in order',
     'Every message published by any thread is delivered to each enabled subscriber exactly once, whole, and in the order published; the threaded file and socket subscribers lose none before the end of the simulation except to clients too slow or gone, and a subscriber that is slow does not block the simulation.',
     ['schedules', 'fault_sequences'], 'every interleaving of publishing threads, subscribers being added, removed and disconnected, disk errors',
     'Tests publish from one thread and look at the text.',
     [SS + '/Message'], [('publisher', SS + '/Message/MessagePublisher.cpp, message_publish.cpp'), ('subscribers', SS + '/Message/MessageFile.cpp, MessageTCDevice.cpp, MessageThreadedCout.cpp')])
prop('P01', 'Input file events run exactly once at their time, and conditions as documented',
     'Each event added with read(t) or add_read runs its text exactly once at that time and in the order added; a cyclic event is evaluated at its cycle and one attached to a job at every call of the job, it fires and acts as its enabled conditions, hold, activity and manual mode ask, and adding, removing or rescheduling events from any thread while running affects no other event.',
     ['histories', 'configurations', 'schedules'], 'every set of events, times and cycles, with events that add and remove events',
     'Tests run a few fixed events.',
     [SS + '/EventManager', SS + '/InputProcessor'], [('event processing', SS + '/EventManager/EventProcessor.cpp, EventManager.cpp'), ('Python input processor', SS + '/InputProcessor/IPPythonEvent.cpp')])
prop('P02', 'Injected value changes are applied whole, once, at a frame boundary',
     'Changes queued by other threads for injection into the simulation are applied in the order queued, each exactly once, all members of a batch at the same instant at the configured frame point, and none is lost or applied twice when they are queued while another batch is being executed.',
     ['schedules'], 'every interleaving of injecting threads and the executing simulation',
     'No test uses injection from several threads.',
     [SS + '/RealtimeInjector'], [('injector', SS + '/RealtimeInjector/RtiExec.cpp, RtiList.cpp')])
prop('A01', 'The memory manager stays consistent under concurrent use',
     'Allocations, named declarations, references, resizes and deletions made concurrently by several threads leave the table of managed memory describing exactly the live allocations: every lookup by name or address finds the right one, none is lost or listed twice, and no call touches freed memory.',
     ['schedules', 'histories'], 'every interleaving of the memory manager calls of several threads',
     'Unit tests call the memory manager from one thread.',
     [SS + '/MemoryManager'], [('allocation table', SS + '/MemoryManager/MemoryManager_alloc_info.cpp, MemoryManager_declare_var.cpp, MemoryManager_delete_var.cpp')])
prop('L01', 'Frame logging attributes every job execution once without disturbing the run',
     'With frame logging on, every execution of a scheduled job is recorded once with a duration that matches its run, per thread and frame, the simulation schedule is unchanged, and turning logging on and off at run time loses no job.',
     ['schedules', 'histories'], 'every interleaving of threads, logging switched at any time',
     'Tests look at one simulation with logging always on.',
     [SS + '/FrameLog'], [('frame log', SS + '/FrameLog/FrameLog.cpp')])
# ------------------------------------------------------------------ not applicable: pure functions
prop('U01', 'Unit conversion is exact, invertible and refuses incompatible units',
     'Converting a value between compatible units gives the correctly scaled value, converting back returns the original within rounding, and incompatible units are refused without changing anything.',
     ['inputs'], 'every pair of units and every value', 'Tests use a few pairs.',
     [TU + '/units', SS + '/UdUnits'], [('unit conversion', SS + '/UdUnits/UdUnits.cpp')],
     na='a pure function of its arguments: there is no concurrency, time, I/O, crash or peer for a simulator to vary, so seeded schedules and faults add nothing')
prop('I01', 'Integrators reach their order of accuracy and integrate every state',
     'Each integrator advances all states of its job by exactly one step with its documented order of accuracy, for any number of states and step size.',
     ['inputs', 'configurations'], 'all integrators, state counts and step sizes', 'Tests use a few models.',
     ['trick_source/er7_utils', SS + '/Integrator'], [('integration loop', SS + '/Integrator/src/IntegLoopScheduler.cpp')],
     na='numerical accuracy is a deterministic function of its inputs; nothing nondeterministic decides it')
prop('K01', 'Math utilities return correct results for all valid inputs',
     'Quaternion, Euler angle, matrix and interpolation utilities agree with their mathematical definitions for all valid inputs, singular cases included.',
     ['inputs'], 'all finite inputs', 'Tests sample a few values.',
     [TU + '/math', TU + '/interpolator'], [('math library', TU + '/math/src')],
     na='pure functions: no schedule, fault or history can influence them')
prop('Q01', 'Code generation describes every type of a simulation faithfully',
     'For every supported C++ type in a simulation, the generated attributes give the true name, type, offset, size, dimensions and units, and the generated Python interface calls what it names.',
     ['programs'], 'all C++ programs a user may write', 'Tests compile a fixed set of models.',
     ['trick_source/codegen/Interface_Code_Gen', 'libexec/trick'], [('interface code generator', 'trick_source/codegen/Interface_Code_Gen')],
     na='a compiler from source text to source text: its inputs are programs and it has no concurrency, clock, network or crash behaviour to simulate')
prop('H01', 'Java GUI clients and data products show what the simulation produced',
     'The graphical clients and the plotting programs present the recorded and live values faithfully.',
     ['inputs'], 'all recordings', 'Tests cover parsers only.',
     ['trick_source/java', 'trick_source/data_products'], [('readers', 'trick_source/data_products')],
     na='separate interactive Java and X11 programs outside the simulated process; the parts that read files are pure functions of the file')

NOTE = 'Seeded search over simulated executions of the real code: every schedule, delay and fault comes from the seed; holds on everything explored, no proof beyond it.'
TECH = 'deterministic simulation with fault injection: seeded random schedules and faults over the real code in one process, checked against an executable reference model'
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k != '_na'}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 dst/build.py', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['id'] in PROPS:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 dst/check.py ' + p['id'], 'thorough_cmd': 'python3 dst/check.py %s --tier thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': 'exploration', 'level_note': PROPS[p['id']].get('note', NOTE)})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': p['_na'] or 'the simulated world that would decide it has not been built yet'})
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    print('%d properties, %d claimed, unbuilt: %s' % (len(P), len(m['checks']), [p['id'] for p in P if p['id'] not in PROPS and not p['_na']]))
main()
