#!/usr/bin/env python3
"""Seeded search over simulated runs for one property; gating, minimising and replaying of violations.

  check.py E01 [--tier quick|thorough] [--seeds N] [--seconds S]
  check.py --replay FILE
  check.py --run WORLD SEED [key=value ...] [--log]
"""
import sys, os, re, json, time, threading, queue, hashlib, subprocess, shutil, argparse, random, signal, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'dst'))
sys.dont_write_bytecode = True
import build as B
from props import PROPS

SHM = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'

class Worker:
    """One template process: forks one child per simulated run."""
    n = 0
    def __init__(self, exe, cpu):
        self.exe, self.cpu, self.p = exe, cpu, None
        self.runs = 0
        Worker.n += 1
        self.tag = 'dstrun%06x%02x' % (os.getpid() & 0xffffff, Worker.n & 0xff)
        self.out = os.path.join(SHM, self.tag)
        self.start()
    def start(self):
        if os.path.isdir(self.out): shutil.rmtree(self.out)
        os.makedirs(self.out)
        env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'TRICK_HOME': B.REPO, 'DST_OUT': self.out, **({'DST_STDOUT': os.environ['DST_STDOUT']} if 'DST_STDOUT' in os.environ else {}), 'DST_CPU': str(self.cpu),
               'USER': 'sim', 'TRICK_HOST_CPU': 'x', 'PYTHONHASHSEED': '0', 'DST_STDOUT': os.environ.get('DST_STDOUT', '/dev/null')}
        self.p = subprocess.Popen([self.exe, os.path.join(VERIF, 'dst', 'input.py'), '-O', self.out], cwd=os.path.dirname(self.exe),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, bufsize=0)
        self.rbuf = b''
        r = self.line()
        if not r or not json.loads(r).get('ready'):
            raise RuntimeError('the simulation did not reach its snapshot (exit %s)' % self.p.poll())
    def line(self):
        while b'\n' not in self.rbuf:
            d = self.p.stdout.read(1 << 20)
            if not d: return None
            self.rbuf += d
        l, self.rbuf = self.rbuf.split(b'\n', 1)
        return l.decode('utf-8', 'replace')
    def run(self, spec):
        o = ['world ' + spec['world'], 'seed %d' % spec['seed'], 'wall %d' % spec.get('wall', 20000)]
        o += ['opt %s %s' % kv for kv in spec.get('opts', {}).items()]
        o += ['plan %s %d' % kv for kv in spec.get('plan', {}).items()]
        if 'faults' in spec: o += ['faultmode'] + ['fault %s %d %d' % tuple(f) for f in spec['faults']]
        if 'sched' in spec: o += ['schedmode'] + ['sched %d %d' % tuple(s) for s in spec['sched']]
        if spec.get('detail'): o.append('detail')
        if spec.get('log'): o.append('log')
        try:
            self.p.stdin.write(('\n'.join(o) + '\nend\n').encode())
            l = self.line()
        except OSError:
            l = None
        if l is None:
            self.stop(); self.start()
            return {'verdict': 3, 'err': 'template died', 'viol': [], 'probe': {}, 'fk': {}, 'N': 0, 'vt': 0, 'steps': 0, 'sw': 0, 'hash': '', 'shash': ''}
        self.runs += 1
        r = json.loads(l)
        if r['verdict'] == 3 and 'CPU time' in r['err']:
            r['hang'] = True
        return r
    def stop(self):
        try: self.p.kill(); self.p.wait()
        except Exception: pass
        shutil.rmtree(self.out, ignore_errors=True)

class Pool:
    def __init__(self, exe, n):
        self.exe = exe
        cpus = sorted(os.sched_getaffinity(0))
        self.ws = []
        with_threads = []
        errs = []
        def mk(i):
            try: self.ws.append(Worker(exe, cpus[i % len(cpus)]))
            except Exception as e: errs.append(e)
        for i in range(n):
            t = threading.Thread(target=mk, args=(i,)); t.start(); with_threads.append(t)
        for t in with_threads: t.join()
        if errs: self.close(); raise errs[0]
    def map(self, gen, on_result, stop):
        """gen yields specs; on_result(spec, result) called under a lock"""
        lk = threading.Lock(); it = iter(gen); errs = []
        def loop(w):
            while True:
                with lk:
                    if stop() or errs: return
                    try: s = next(it)
                    except StopIteration: return
                try: r = w.run(s)
                except Exception as e:
                    errs.append(e); return
                with lk: on_result(s, r)
        ts = [threading.Thread(target=loop, args=(w,)) for w in self.ws]
        for t in ts: t.start()
        for t in ts: t.join()
        if errs: raise errs[0]
    def run_all(self, specs):
        out = [None] * len(specs)
        def g():
            for i, s in enumerate(specs): yield dict(s, _i=i)
        def res(s, r): out[s['_i']] = r
        self.map(g(), res, lambda: False)
        return out
    def close(self):
        for w in self.ws: w.stop()

def seed_of(base, world, i):
    return int.from_bytes(hashlib.sha256(('%d/%s/%d' % (base, world, i)).encode()).digest()[:7], 'big')

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []

def known_match(known, prop, world, v):
    for k in known:
        if k.get('status') == 'fixed' or k['property'] != prop: continue
        if k.get('world') and k['world'] != world: continue
        if re.fullmatch(k['class_regex'], v['c']) and re.search(k.get('message_regex', ''), v['m']): return k
    return None

def find(r, prop, cls=None):
    for v in r['viol']:
        if v['p'] == prop and (cls is None or v['c'] == cls): return v
    return None

def with_hang(r, prop):
    if r.get('hang'):
        r['viol'] = [{'p': prop, 'c': 'the run stops making progress outside every scheduling point', 'm': 'a simulated run never returned to the scheduler (busy loop)', 'N': 0, 'vt': 0}]
        r['verdict'] = 1
    return r

def minimise(pool, spec, prop, cls, budget_s, log):
    t0 = time.time(); runs = [0]
    def ok(r): return find(with_hang(r, prop), prop, cls) is not None and r['verdict'] == 1
    def test_many(cands):
        """first candidate (in order) that still fails, tested in parallel"""
        best = None
        for i in range(0, len(cands), len(pool.ws)):
            part = cands[i:i + len(pool.ws)]
            rs = pool.run_all(part); runs[0] += len(part)
            for c, r in zip(part, rs):
                if ok(r): return c
            if time.time() - t0 > budget_s: return None
        return None
    def ddmin(key, items, mk):
        items = list(items); n = 2
        # fast path: everything removed
        if items:
            c = test_many([mk([])])
            if c: return []
        while len(items) >= 1 and time.time() - t0 < budget_s:
            size = max(1, (len(items) + n - 1) // n)
            chunks = [items[i:i + size] for i in range(0, len(items), size)]
            cands, kept = [], []
            for i in range(len(chunks)):
                rest = [x for j, c in enumerate(chunks) if j != i for x in c]
                cands.append(mk(rest)); kept.append(rest)
            c = test_many(cands)
            if c is not None:
                items = kept[[id(x) for x in cands].index(id(c))]; n = max(2, n - 1)
            elif size == 1: break
            else: n = min(len(items), n * 2)
        return items
    cur = dict(spec)
    for rnd in range(3):
        before = (len(cur['faults']), len(cur['sched']), sum(1 for v in cur['plan'].values() if v))
        s = ddmin('sched', cur['sched'], lambda x: dict(cur, sched=x)); cur = dict(cur, sched=s)
        f = ddmin('faults', cur['faults'], lambda x: dict(cur, faults=x)); cur = dict(cur, faults=f)
        nz = [k for k, v in cur['plan'].items() if v]
        base = dict(cur['plan'])
        keep = ddmin('plan', nz, lambda x: dict(cur, plan={k: (v if k in set(x) else 0) for k, v in base.items()}))
        cur = dict(cur, plan={k: (v if k in set(keep) else 0) for k, v in base.items()})
        for k in list(keep):          # smaller values of what is left
            if time.time() - t0 > budget_s: break
            v = cur['plan'][k]
            cs = [dict(cur, plan=dict(cur['plan'], **{k: x})) for x in sorted({1, v // 4, v // 2, v - 1}) if 0 < x < v]
            c = test_many(cs)
            if c: cur = dict(c)
        after = (len(cur['faults']), len(cur['sched']), sum(1 for v in cur['plan'].values() if v))
        if after == before or time.time() - t0 > budget_s: break
    cur.pop('_i', None)
    log('minimised to %d scheduling choices, %d faults, %d non-default plan values in %d runs' % (len(cur['sched']), len(cur['faults']), sum(1 for v in cur['plan'].values() if v), runs[0]))
    return cur

def gate(pool, spec, prop, cls):
    """same seed twice, in two different processes: identical trace and verdict"""
    rs = pool.run_all([dict(spec, detail=True)] * min(3, max(2, len(pool.ws))))
    rs = [with_hang(r, prop) for r in rs]
    if any(find(r, prop, cls) is None for r in rs): return None, 'verdict differs between repeats'
    if len({r['hash'] for r in rs}) != 1: return None, 'trace differs between repeats'
    return rs[0], None

def do_check(prop, tier, base_seed, nseeds=None, seconds=None, keep_going=False):
    P = PROPS[prop]; t0 = time.time()
    def log(m): print('[%s %6.1fs] %s' % (prop, time.time() - t0, m), flush=True)
    print('%s: VERIF_SEED=%d tier=%s' % (prop, base_seed, tier), flush=True)
    exe = B.build()
    log('built from %s' % B.REPO)
    t_build = time.time() - t0
    known = load_known()
    pool = Pool(exe, min(8, len(os.sched_getaffinity(0))))
    agg = {'runs': 0, 'vt': 0, 'steps': 0, 'N': 0, 'sw': 0, 'fk': {}, 'probe': {}, 'sh': set(), 'err': 0, 'errs': [], 'worlds': {}, 'known': {}, 'samples': [], 'nontriv': set(), 'ferr': 0}
    cand = []
    t1 = time.time()
    try:
        jobs = []
        for w in P['worlds']:
            n = nseeds if nseeds else w['quick'] if tier == 'quick' else w.get('thorough', w['quick'] * 25)
            jobs.append((w, n))
        cap = seconds or (150 if tier == 'quick' else 1500)
        def gen():
            # interleave the worlds so that a time cap hits them evenly
            tot = max(n for _, n in jobs)
            idx = [0] * len(jobs)
            for k in range(tot):
                for j, (w, n) in enumerate(jobs):
                    while idx[j] < n and idx[j] * tot <= k * n:
                        yield {'world': w['world'], 'seed': seed_of(base_seed, w['world'] + w.get('tag', ''), idx[j]), 'opts': dict(w.get('opts', {}), prop=prop), '_w': w['world'] + w.get('tag', '')}
                        idx[j] += 1
        def res(s, r):
            with_hang(r, prop) if r.get('hang') else None
            agg['runs'] += 1; agg['vt'] += r['vt']; agg['steps'] += r['steps']; agg['N'] += r['N']; agg['sw'] += r['sw']
            agg['worlds'][s['_w']] = agg['worlds'].get(s['_w'], 0) + 1
            if r['verdict'] != 1:
                agg['err'] += 1
                if len(agg['errs']) < 5: agg['errs'].append((s['world'], s['seed'], r['err']))
                return
            for k, v in r['fk'].items(): agg['fk'][k] = agg['fk'].get(k, 0) + v
            for k, v in r['probe'].items(): agg['probe'][k] = agg['probe'].get(k, 0) + v
            agg['sh'].add(r['shash'] + r['hash'][:4])
            if r['steps']: agg['nontriv'].add(r['hash'])
            if len(agg['samples']) < 5: agg['samples'].append({'world': s['_w'], 'seed': s['seed'], 'ended': r['why'], 'steps': r['N'], 'sim_ns': r['vt'], 'switches': r['sw'], 'faults': r['fk'], 'oracle_evaluations': r['steps'], 'probes': dict(list(r['probe'].items())[:12])})
            for v in r['viol']:
                if v['p'] != prop: continue
                k = known_match(known, prop, s['world'], v)
                if k: agg['known'][k['id']] = agg['known'].get(k['id'], 0) + 1
                else: cand.append((s, v)); break
        def stop(): return (cand and not keep_going) or time.time() - t1 > cap or (agg['err'] > 20 and agg['err'] > agg['runs'] * 0.2)
        pool.map(gen(), res, stop)
        t_search = time.time() - t1
        log('%d runs in %.1fs, %.1f simulated s, %d oracle evaluations, %d distinct interleavings, %d harness errors, faults %s' % (agg['runs'], t_search, agg['vt'] / 1e9, agg['steps'], len(agg['sh']), agg['err'], agg['fk']))
        if keep_going:
            hist = {}
            for s, v in cand: hist.setdefault(v['c'], []).append((s, v))
            for c, l in sorted(hist.items(), key=lambda x: -len(x[1])):
                print('  %5d  %s\n         e.g. %s %d: %s' % (len(l), c, l[0][0]['_w'], l[0][0]['seed'], l[0][1]['m'][:600]))
            for e in agg['errs']: print('  harness error', e)
            print('  probes', agg['probe']); print('  known', agg['known'])
            return 0
        rc, viol_out = 0, []
        if cand:
            reported = False; why = ''; slow = 0
            for s, v in cand[:6]:
                spec = {'world': s['world'], 'seed': s['seed'], 'opts': s['opts']}
                r, why = gate(pool, spec, prop, v['c'])
                if r is None and 'stops making progress outside' in v['c']: log('run %s seed %d was slow, not hanging' % (s['world'], s['seed'])); slow += 1; continue
                if r is None: log('candidate %s seed %d not reproducible: %s' % (s['world'], s['seed'], why)); continue
                if r.get('hang'): full = dict(spec)
                else:
                    full = dict(spec, plan={p[0]: p[1] for p in r['plan']}, faults=r['faults'], sched=r['tape'])
                    rr = with_hang(pool.run_all([full])[0], prop)
                    if find(rr, prop, v['c']) is None or r['tape_overflow'] or len(r['plan']) >= 4096:
                        log('explicit replay not available, the replay file carries the seed only'); full = dict(spec)
                    else:
                        full = minimise(pool, full, prop, v['c'], 25 if tier == 'quick' else 240, log)
                # the replay file must fail the same way in fresh processes
                p2 = Pool(exe, 2)
                try: f = [with_hang(x, prop) for x in p2.run_all([dict(full, log=True), full])]
                finally: p2.close()
                if any(find(x, prop, v['c']) is None for x in f) or f[0]['hash'] != f[1]['hash']:
                    log('minimised case did not replay, falling back to the seed'); full = dict(spec)
                    p2 = Pool(exe, 2)
                    try: f = [with_hang(x, prop) for x in p2.run_all([dict(full, log=True), full])]
                    finally: p2.close()
                    if any(find(x, prop, v['c']) is None for x in f): why = 'replay failed'; continue
                vv = find(f[0], prop, v['c'])
                rd = os.path.join(VERIF, 'replays'); os.makedirs(rd, exist_ok=True)
                path = os.path.join(rd, '%s-%s.json' % (prop, hashlib.sha256((v['c'] + str(s['seed'])).encode()).hexdigest()[:10]))
                doc = dict(full, property=prop, expect={'class': v['c'], 'hash': f[0]['hash'], 'N': f[0]['N']}, message=vv['m'], trace=f[0].get('log', '').split('\n')[-400:])
                json.dump(doc, open(path, 'w'), indent=1)
                print('%s: %s\n  %s\n  world %s seed %d; %d scheduling choices, %d faults' % (prop, v['c'], vv['m'], s['world'], s['seed'], len(full.get('sched', [])), len(full.get('faults', []))))
                print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
                viol_out.append({'class': v['c'], 'message': vv['m'], 'seed': s['seed'], 'world': s['world'], 'replay': path})
                rc = 1; reported = True
                break
            if not reported and why and slow < len(cand[:6]):
                print('%s: a candidate violation could not be reproduced (%s); no verdict' % (prop, why)); rc = 2
        for k in known:
            if k['property'] == prop and k.get('status') != 'fixed':
                print('KNOWN-FINDING: property=%s %s (met in %d of %d runs)' % (prop, k['what'], agg['known'].get(k['id'], 0), agg['runs']))
        if rc == 0 and agg['err'] and agg['err'] > max(2, agg['runs'] * 0.02):
            print('%s: %d of %d runs ended in harness errors, e.g. %s' % (prop, agg['err'], agg['runs'], agg['errs'][:3])); rc = 2
        dead = [p for p in P.get('need_probes', []) if not agg['probe'].get(p)]
        if rc == 0 and dead: log('warning: conditions never reached: %s' % dead)
        ev = {'property': prop, 'tier': tier, 'seed': base_seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 1),
              'coverage': {'evaluations': agg['steps'], 'distinct_nontrivial': len(agg['nontriv']), 'rule': P['rule'], 'samples': agg['samples'],
                           'simulated_runs': agg['runs'], 'runs_per_hour': int(agg['runs'] / max(t_search, .001) * 3600), 'seeds_per_hour': int(agg['runs'] / max(t_search, .001) * 3600),
                           'simulated_seconds': round(agg['vt'] / 1e9, 3), 'scheduling_points': agg['N'], 'context_switches': agg['sw'],
                           'faults_injected': agg['fk'], 'distinct_interleavings': len(agg['sh']), 'interleaving_measure': 'hash of the sequence of context switches (task ids), folded with the hash of synchronisation operations, network deliveries and file writes',
                           'probes': agg['probe'], 'runs_per_world': agg['worlds'], 'harness_errors': agg['err'], 'build_s': round(t_build, 1),
                           'real_components': P['real'], 'stub_components': P['stub'], 'known_findings_met': agg['known']},
              'assumptions': P.get('assumptions', [])}
        if viol_out: ev['violations'] = viol_out
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
        if rc == 0: log('held on all runs')
        return rc
    finally:
        pool.close()

def do_replay(path, want_log=False):
    d = json.load(open(path)); exe = B.build(); pool = Pool(exe, 1)
    try:
        spec = {k: d[k] for k in ('world', 'seed', 'opts', 'plan', 'faults', 'sched') if k in d}
        if want_log: spec.update(log=True, detail=True)
        r = with_hang(pool.run_all([spec])[0], d['property'])
        if want_log: print(r.pop('log', ''))
    finally: pool.close()
    v = find(r, d['property'], d['expect']['class'])
    if v:
        print('%s: %s\n  %s\n  trace hash %s (recorded %s)' % (d['property'], v['c'], v['m'], r['hash'], d['expect']['hash']))
        print('VIOLATION property=%s replay=%s' % (d['property'], path)); return 1
    print('replay of %s: not violated on this tree (%s)' % (path, [x['c'] for x in r['viol']] or r['err'] or 'held')); return 0

def main():
    a = argparse.ArgumentParser(); a.add_argument('prop', nargs='?'); a.add_argument('--tier'); a.add_argument('--seeds', type=int); a.add_argument('--seconds', type=int)
    a.add_argument('--replay'); a.add_argument('--run', nargs='+'); a.add_argument('--log', action='store_true'); a.add_argument('--all', action='store_true'); a.add_argument('--base', type=int)
    o = a.parse_args()
    if o.replay: return do_replay(o.replay, o.log)
    if o.run:
        exe = B.build(); pool = Pool(exe, 1)
        spec = {'world': o.run[0], 'seed': int(o.run[1]), 'opts': dict(x.split('=', 1) for x in o.run[2:]), 'log': o.log, 'detail': o.log}
        r = pool.run_all([spec])[0]; pool.close()
        print(r.pop('log', '')); r.pop('tape', 0); print(json.dumps(r, indent=1)); return 0
    tier = o.tier or os.environ.get('VERIF_TIER', 'quick')
    base = o.base if o.base is not None else int(os.environ.get('VERIF_SEED', '1'))
    return do_check(o.prop, tier, base, o.seeds, o.seconds, o.all)
if __name__ == '__main__':
    sys.exit(main())
