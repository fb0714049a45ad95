# What decides each property: the worlds that are searched, how many seeds, and what ran as real code.
TRICK = 'nasa/trick libraries compiled from the working tree'
EXEC_REAL = ['Executive, Threads, ThreadTrigger, ScheduledJobQueue, JobData, SimObject', 'input processor (Python), event manager', 'message publisher, variable server listener, data recording dispatcher (idle)']
EXEC_STUB = ['job bodies (record and burn simulated time)', 'kernel: scheduling, clocks, futexes, signals (simulator)']
def ex(feat, q, **k):
    return dict({'world': 'exec', 'tag': '-f%d%s' % (feat, 'b' if k.get('big') else ''), 'opts': {'feat': feat, 'big': k.get('big', 0)}, 'quick': q}, **{a: b for a, b in k.items() if a != 'big'})
def ctl(feat, q): return {'world': 'ctl', 'tag': '-c%d' % feat, 'opts': {'feat': feat}, 'quick': q}
RULE_E = 'a run counts as non-trivial when the oracle compared at least one job call with the reference schedule; two runs are distinct when their traces (switches, synchronisation, recorded calls) differ'
RULE_V = 'a run counts as non-trivial when the oracle judged at least one message, reply or session; two runs are distinct when their traces (switches, synchronisation, network deliveries) differ'
VS_REAL = ['variable server: listener, session threads, commands (real Python parser), copy and write jobs, connections', 'Executive, real-time synchronisation, freeze', 'message publisher and log files']
VS_STUB = ['clients (actors)', 'network (simulated TCP: segmentation, latency, windows, resets)', 'kernel: scheduling, clocks, signals (simulator)']
def va(feat, q): return {'world': 'va', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
def vs(feat, q): return {'world': 'vs', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
RULE_D = 'a run counts as non-trivial when the oracle compared at least one recorded row with the reference; two runs are distinct when their traces (switches, synchronisation, writes) differ'
DR_REAL = ['data recording groups (ASCII, binary), dispatcher and writer thread', 'Executive, freeze, memory manager']
DR_STUB = ['disk (write results, crash point, errors; data lands in real scratch files)', 'kernel: scheduling, clocks (simulator)']
def dr(feat, q): return {'world': 'dr', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
RULE_C = 'a run counts as non-trivial when the oracle compared at least one checkpoint, reload or call with the reference; two runs are distinct when their traces (switches, writes, recorded calls and states) differ'
CP_REAL = ['checkpoint and restart manager, memory manager, classic checkpoint agent and parser', 'Executive restart, event manager, variable server and data recording restart jobs']
CP_STUB = ['job bodies (evolve the checkpointed state)', 'disk (write results, crash point; data lands in real scratch files)', 'kernel: scheduling, clocks (simulator)']
def cp(feat, q): return {'world': 'cp', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
RULE_R = 'a run counts as non-trivial when the oracle judged at least one frame boundary; two runs are distinct when their traces (switches, clock reads, frames, overruns) differ'
RT_REAL = ['RealtimeSync, Clock, GetTimeOfDayClock, ITimer with its signal handler and semaphore', 'Executive, freeze, stop']
RT_STUB = ['job bodies (take simulated time)', 'kernel: clocks, timers, signals, sleeps, scheduling (simulator)']
def rt(feat, q): return {'world': 'rt', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
RULE_G = 'a run counts as non-trivial when the oracle judged at least one delivered message; two runs are distinct when their traces (switches, deliveries, network and file writes) differ'
MSG_REAL = ['message publisher and all its subscribers (standard output, threaded output, message file, custom files, playback file, socket device)', 'TrickComm server side, Executive threads']
MSG_STUB = ['socket clients (actors)', 'network and disk results (simulator; file data lands in real scratch files)', 'kernel: scheduling, clocks (simulator)']
def msg(feat, q): return {'world': 'msg', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
RULE_A = 'a run counts as non-trivial when the oracle judged at least one call of the memory manager; two runs are distinct when their traces (switches, synchronisation, calls) differ'
MM_REAL = ['memory manager: declarations, references and their parsers, resizing, deletion, renaming, checkpoint writing', 'generated attributes and class constructors and destructors']
MM_STUB = ['threads that call it (seeded programs)', 'kernel: scheduling, mutexes; heap with use-after-free detection (simulator)']
RULE_P = 'a run counts as non-trivial when the oracle judged at least one event; two runs are distinct when their traces (switches, events processed, operations) differ'
EV_REAL = ['event manager, event processors, events attached to jobs', 'Python input processor (embedded interpreter), its events, conditions and actions', 'Executive and threads']
EV_STUB = ['events of the world (subclasses that report their processing)', 'kernel: scheduling, clocks (simulator)']
def ev(feat, q): return {'world': 'ev', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
RULE_I = 'a run counts as non-trivial when the oracle judged at least one frame boundary or variable; two runs are distinct when their traces (switches, batches fired and applied) differ'
RI_REAL = ['RtiStager, RtiList, RtiExec, RtiEvent', 'memory manager references', 'Executive, freeze, events that queue injections from the input file']
RI_STUB = ['threads and jobs that queue batches (seeded programs)', 'kernel: scheduling, mutexes; heap with use-after-free detection (simulator)']
def fl(feat, q): return {'world': 'fl', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
FL_REAL = ['FrameLog, FrameDataRecordGroup, job instrumentation (ScheduledJobQueueInstrument, JobData)', 'GetTimeOfDayClock, data recording of the frame log groups', 'Executive, threads, events that switch the log']
FL_STUB = ['job bodies (seeded costs)', 'kernel: scheduling, clock, sleeps; files (simulator)']
RULE_F = 'a run counts as non-trivial when at least one execution was compared with the log; two runs are distinct when their traces (switches, calls, results) differ'
MS_REAL = ['Trick::Master, SlaveInfo and Trick::Slave with their jobs', 'MSSocket and TrickComm (reads, writes, time limits)', 'Executive (modes, freezes, shutdown), threads, CheckPointRestart']
MS_STUB = ['the other side: scripted slaves or a scripted master that speak the protocol (slow, freezing, exiting, silent, closing, resetting, stopping in the middle of a message)', 'the ssh start-up command (recorded); connection set up with tc_connect instead of the multiconnect rendezvous', 'kernel: network, scheduling, clock, sleeps (simulator)']
RULE_S = 'a run counts as non-trivial when at least one frame was synchronised with a peer; two runs are distinct when their traces (switches, calls, results) differ'
def ms(feat, q): return {'world': 'ms', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
def ri(feat, q): return {'world': 'ri', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
def mm(feat, q): return {'world': 'mm', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
RULE_N = 'a run counts as non-trivial when the oracle judged at least one call of the library; two runs are distinct when their traces (switches, deliveries, calls and results) differ'
TC_REAL = ['TrickComm library: listening, accepting, connecting, handshakes, reading, writing, byte swapping, datagram devices', 'generated attributes of the records']
TC_STUB = ['peers (actors), or a wire between two real devices', 'network (simulated TCP and UDP: segmentation, latency, windows, resets, loss)', 'kernel: scheduling, clocks, interrupted calls (simulator)']
def tc(feat, q): return {'world': 'tc', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
CN_REAL = ['TCPConnection, TCPClientListener, UDPConnection, MulticastGroup and the system interface they use']
CN_STUB = ['peers (actors)', 'network (simulated TCP and UDP: segmentation, latency, windows, resets, loss)', 'kernel: scheduling, clocks, interrupted calls (simulator)']
def cn(feat, q): return {'world': 'cn', 'tag': '-f%d' % feat, 'opts': {'feat': feat}, 'quick': q}
PROPS = {
 'N02': {'worlds': [cn(1, 50), cn(1+8, 150), cn(1+8+16, 100), cn(1+8+64, 100), cn(1+8+128, 200), cn(1+8+16+128+256, 150), cn(1+256, 100), cn(2, 80), cn(2+128+256, 150), cn(2+8+128, 80), cn(4, 80), cn(4+128, 80), cn(7+32, 100), cn(511, 150)], 'rule': RULE_N, 'real': CN_REAL, 'stub': CN_STUB},
 'N01': {'worlds': [tc(0, 50), tc(1, 100), tc(16, 100), tc(17, 150), tc(17+32, 150), tc(49+4, 150), tc(2+1, 50), tc(2+16+1+4, 150), tc(2+48+1, 100), tc(8+16, 100), tc(8, 50), tc(64+16+1+4, 100), tc(127, 150)], 'rule': RULE_N, 'real': TC_REAL, 'stub': TC_STUB},
 'A01': {'worlds': [mm(0, 100), mm(1, 200), mm(3, 100), mm(4, 100), mm(9, 150), mm(32+2, 100), mm(64+4, 100), mm(1+2+8+32, 150), mm(127, 60)], 'rule': RULE_A, 'real': MM_REAL, 'stub': MM_STUB},
 'E01': {'worlds': [ex(0, 500), ex(8, 500), ex(8, 200, big=1)], 'rule': RULE_E, 'real': EXEC_REAL, 'stub': EXEC_STUB},
 'E02': {'worlds': [ex(8, 800), ex(8, 400, big=1)], 'rule': RULE_E, 'real': EXEC_REAL, 'stub': EXEC_STUB},
 'E03': {'worlds': [ex(8, 800), ex(9, 300), ex(8, 200, big=1)], 'rule': RULE_E, 'real': EXEC_REAL, 'stub': EXEC_STUB},
 'E04': {'worlds': [ex(1, 500), ex(9, 600)], 'rule': RULE_E, 'real': EXEC_REAL, 'stub': EXEC_STUB},
 'E05': {'worlds': [ex(2, 500), ex(10, 400), ex(11, 200)], 'rule': RULE_E, 'real': EXEC_REAL, 'stub': EXEC_STUB},
 'E06': {'worlds': [ex(4, 400), ex(12, 300), ctl(0, 300), ctl(2, 500), ctl(7, 500), ctl(15, 400), ctl(31, 400)], 'rule': RULE_E, 'real': EXEC_REAL, 'stub': EXEC_STUB},
 'V01': {'worlds': [vs(3, 400), vs(3+32, 400), vs(1+16, 200), vs(1+16+32, 200), vs(3+4+32, 200), vs(3+256, 150), vs(3+32+256, 150)], 'rule': RULE_V, 'real': VS_REAL, 'stub': VS_STUB},
 'V02': {'worlds': [vs(2, 400), vs(3, 400), vs(3+32, 200), vs(3+4, 200)], 'rule': RULE_V, 'real': VS_REAL, 'stub': VS_STUB},
 'V03': {'worlds': [vs(3+4, 400), vs(3+4+32, 400), vs(1+4+16, 200), vs(3+4+128, 300), vs(3, 200), vs(3+256, 200), vs(3+4+256, 200)], 'rule': RULE_V, 'real': VS_REAL, 'stub': VS_STUB},
 'V04': {'worlds': [vs(3+8, 400), vs(3+8+4, 300), vs(3+8+16, 200), vs(3+8+32+4, 200)], 'rule': RULE_V, 'real': VS_REAL, 'stub': VS_STUB},
 'V05': {'worlds': [va(1, 100), va(3, 150), va(7, 200), va(7+8, 150), va(7+32, 100), va(7+16, 100), va(127, 200)], 'rule': RULE_V, 'real': VS_REAL, 'stub': VS_STUB},
 'D01': {'worlds': [dr(0, 400), dr(1, 300), dr(8, 200), dr(16, 200), dr(25, 200)], 'rule': RULE_D, 'real': DR_REAL, 'stub': DR_STUB},
 'D02': {'worlds': [dr(2, 600), dr(18, 200), dr(11, 200)], 'rule': RULE_D, 'real': DR_REAL, 'stub': DR_STUB},
 'D04': {'worlds': [dr(4, 600), dr(5, 300), dr(12, 200)], 'rule': RULE_D, 'real': DR_REAL, 'stub': DR_STUB},
 'R01': {'worlds': [rt(0, 150), rt(1, 150), rt(3, 200), rt(2, 100), rt(5, 150), rt(7, 150), rt(9, 150), rt(17, 150), rt(16, 100), rt(33, 150), rt(34, 100), rt(65, 200), rt(67, 150), rt(129+16, 100), rt(127, 200)], 'rule': RULE_R, 'real': RT_REAL, 'stub': RT_STUB},
 'G01': {'worlds': [msg(0, 50), msg(1, 100), msg(2, 200), msg(3, 150), msg(6, 150), msg(9, 150), msg(11, 100), msg(16, 100), msg(18, 150), msg(32, 150), msg(66, 100), msg(129, 100), msg(127-16-32, 150)], 'rule': RULE_G, 'real': MSG_REAL, 'stub': MSG_STUB},
 'P01': {'worlds': [ev(1, 60), ev(2, 60), ev(3+8, 150), ev(3+8+16, 150), ev(4, 100), ev(5+8, 150), ev(7+8+16, 200), ev(1024+8, 100), ev(64+8, 150), ev(64+8+512, 100), ev(1+128, 150), ev(3+32+16, 100), ev(3+32+8+512, 100), ev(3+256, 60), ev(3+8+16+2048, 100), ev(4095, 200)], 'rule': RULE_P, 'real': EV_REAL, 'stub': EV_STUB},
 'P02': {'worlds': [ri(1, 150), ri(1+8, 150), ri(1+16, 100), ri(1+16+8, 100), ri(2+4+8, 100), ri(2+8+256, 100), ri(1+2+4+64, 150), ri(1+32+8, 100), ri(4+128+64, 60), ri(1+8+256, 100), ri(511, 200)], 'rule': RULE_I, 'real': RI_REAL, 'stub': RI_STUB},
 'L01': {'worlds': [fl(0, 80), fl(1, 150), fl(1+2, 200), fl(1+4, 80), fl(1+16+2, 150), fl(1+2+32, 150)], 'rule': RULE_F, 'real': FL_REAL, 'stub': FL_STUB},
 'S01': {'worlds': [ms(0, 3*30), ms(2, 3*60), ms(2+4, 3*100), ms(2+4+64, 3*100), ms(2+32+16, 3*100), ms(2+4+8+16+32+64+128+256, 3*150), ms(1, 3*30), ms(1+2, 3*60), ms(1+2+4, 3*100), ms(1+2+4+64, 3*100), ms(1+2+32+16, 3*60), ms(1+2+4+8+16+32+64+128+256, 3*150)], 'rule': RULE_S, 'real': MS_REAL, 'stub': MS_STUB},
 'C01': {'worlds': [cp(16, 100), cp(17, 100), cp(16+256, 100), cp(17+8, 100), cp(17+4, 100), cp(17+2, 100), cp(19+128, 100), cp(16+512, 100), cp(17+512+8, 100), cp(17+512+4, 100), cp(19+512, 100)], 'rule': RULE_C, 'real': CP_REAL, 'stub': CP_STUB},
 'C03': {'worlds': [cp(1, 100), cp(1+8, 100), cp(1+4, 100), cp(1+32, 100), cp(1+64, 100), cp(1+4+8, 100)], 'rule': RULE_C, 'real': CP_REAL, 'stub': CP_STUB},
}
