#!/usr/bin/env python3
"""Builds the simulation executable from /repo's current working tree.

Everything is compiled out of tree into BUILD (default /verif/build) and is
content addressed: an object is rebuilt when the command, the source text or
the text of any header it used last time differs, so file times never matter.
"""
import sys, os, re, json, hashlib, subprocess, glob, shutil, time, fcntl
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')
BUILD = os.environ.get('DST_BUILD', os.path.join(VERIF, 'build'))
JOBS = int(os.environ.get('DST_JOBS', '8'))
CXX, CC = '/usr/bin/g++', '/usr/bin/gcc'

DEFS = ['-DTRICK_VER=25', '-DTRICK_MINOR=1', '-DUSE_ER7_UTILS_INTEGRATORS', '-D_HAVE_GSL']
INC = [f'-isystem{REPO}/trick_source', f'-isystem{REPO}/include', f'-isystem{REPO}/include/trick/compat']
PYINC = ['-isystem/usr/include/python3.12']
BASE = ['-w', '-g1', '-fpic', '-fno-omit-frame-pointer', '-pthread']
# memory accesses of these directories become preemption points of the simulator
TSAN = ['-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0']
TSAN_DIRS = {'Executive', 'ThreadBase', 'VariableServer', 'DataRecord', 'ScheduledJobQueue', 'Timer',
             'RealtimeSync', 'Clock', 'EventManager', 'InputProcessor', 'CheckPointRestart', 'Message',
             'RealtimeInjector', 'MonteCarlo', 'MasterSlave', 'JSONVariableServer', 'SimObject', 'SimTime',
             'MemoryManager', 'comm', 'connection_handlers', 'Scheduler', 'FrameLog', 'Collect', 'DebugPause'}
# (flex/bison tables and big generated files are not worth instrumenting)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

_hcache = {}
def fhash(p):
    h = _hcache.get(p)
    if h is None:
        try:
            with open(p, 'rb') as f: h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = 'missing'
        _hcache[p] = h
    return h

def strhash(s): return hashlib.sha256(s.encode()).hexdigest()

def parse_deps(dfile):
    try: s = open(dfile).read()
    except OSError: return []
    s = s.replace('\\\n', ' ')
    out = []
    for line in s.split('\n'):
        if ':' in line:
            out += line.split(':', 1)[1].split()
    pre = (REPO + '/', VERIF + '/', BUILD + '/')
    return sorted({os.path.normpath(p) for p in out if p.startswith(pre)})

class Obj:
    def __init__(self, src, flags, c=False, name=None, cwd=None):
        self.src, self.flags, self.c = src, flags, c
        rel = name or src.replace(REPO + '/', '').replace(VERIF + '/', 'v/').replace(BUILD + '/', 'b/')
        self.o = os.path.join(BUILD, 'obj', rel.replace('/', '+') + '.o')
        self.cwd = cwd or BUILD
    def cmd(self):
        return [CC if self.c else CXX] + ([] if self.c else ['-x', 'c++']) + self.flags + \
               ['-MD', '-MF', self.o + '.d', '-c', self.src, '-o', self.o]
    def key(self, deps):
        return strhash('\n'.join([' '.join(self.cmd()), fhash(self.src)] + [p + ' ' + fhash(p) for p in deps]))
    def fresh(self):
        if not os.path.exists(self.o): return False
        try: k = open(self.o + '.key').read()
        except OSError: return False
        return k == self.key(parse_deps(self.o + '.d'))
    def build(self):
        r = sh(self.cmd(), cwd=self.cwd)
        if r.returncode: return r.stdout
        with open(self.o + '.key', 'w') as f: f.write(self.key(parse_deps(self.o + '.d')))
        return None

def gen_parsers():
    """bison/flex outputs, regenerated from the grammar files of the tree."""
    out = []
    for d, b in (('CheckPointAgent', 'input_parser'), ('MemoryManager', 'adef_parser'), ('MemoryManager', 'ref_parser')):
        src = f'{REPO}/trick_source/sim_services/{d}/{b}'
        g = os.path.join(BUILD, 'gen', d); os.makedirs(g, exist_ok=True)
        key = strhash(fhash(src + '.y') + fhash(src + '.l'))
        kf = os.path.join(g, b + '.key')
        if not (os.path.exists(kf) and open(kf).read() == key):
            for cmd in (['/usr/bin/bison', '-d', '-o', f'{g}/{b}.tab.cpp', src + '.y'],
                        ['flex', '-o', f'{g}/{b}.lex.c', src + '.l']):
                r = sh(cmd, cwd=os.path.dirname(src))
                if r.returncode: sys.exit('build: parser generation failed\n' + r.stdout)
            open(kf, 'w').write(key)
        out.append((d, f'{g}/{b}.tab.cpp')); out.append((d, f'{g}/{b}.lex.c'))
    return out

def gen_attributes():
    """The attributes of Trick's own classes, made by Trick's ICG from the headers of the tree (the tree's io_src may be older)."""
    g = os.path.join(BUILD, 'gen', 'icg'); o = g + '/o'; m = g + '/trick_source/sim_services/include/io_src'
    have = [os.path.basename(f) for f in glob.glob(f'{REPO}/trick_source/sim_services/include/io_src/io_*.cpp')]
    ins = tree_files(f'{REPO}/include', ('.h', '.hh')) + tree_files(f'{REPO}/trick_source', ('.h', '.hh')) + [f'{REPO}/bin/trick-ICG']
    key = strhash(REPO + '\n'.join(p + ' ' + fhash(p) for p in ins) + ' '.join(sorted(have)))
    if not (os.path.exists(g + '/key') and open(g + '/key').read() == key):
        if os.path.isdir(g): shutil.rmtree(g)
        os.makedirs(o); os.makedirs(m)
        env = dict(os.environ); env['TRICK_HOME'] = REPO
        sh([f'{REPO}/bin/trick-ICG', '-sim_services', '-m', '-o', o, '-std=c++17', f'-I{REPO}/trick_source', f'-I{REPO}/include', f'-I{REPO}/include/trick/compat',
            '-DTRICK_VER=25', '-DTRICK_MINOR=1', '-fpic', '-DUSE_ER7_UTILS_INTEGRATORS', '-D_HAVE_GSL', f'{REPO}/include/trick/files_to_ICG.hh'], cwd=g, env=env)
        if not have or any(not os.path.exists(f'{o}/{b}') for b in have) or not os.path.exists(m + '/.class_map.cpp'): sys.exit('build: trick-ICG failed')
        open(g + '/class_map.cpp', 'w').write(open(m + '/.class_map.cpp').read() + open(m + '/.enum_map.cpp').read())
        open(g + '/key', 'w').write(key)
    return [g + '/class_map.cpp'] + sorted(f'{o}/{b}' for b in have)

def repo_objects():
    objs = []
    ss = f'{REPO}/trick_source/sim_services'
    skip = {'DataTypes'}
    for d in sorted(os.listdir(ss)):
        p = os.path.join(ss, d)
        if not os.path.isdir(p) or d in skip: continue
        for f in sorted(sum([glob.glob(p + x) for x in ('/*.cpp', '/*.c', '/*.cc', '/src/*.cpp', '/src/*.c')], [])):
            b = os.path.basename(f)
            if re.search(r'\.(tab|lex)\.(c|cpp)$', b): continue
            if d == 'Integrator' and b.startswith('test'): continue
            objs.append(mk(f, d))
    for f in gen_attributes():
        objs.append(Obj(f, BASE + ['-O0'] + DEFS + INC))
    for d, f in gen_parsers():
        objs.append(Obj(f, BASE + ['-O1', f'-I{ss}/{d}', f'-iquote{BUILD}/gen/{d}', f'-iquote{ss}/{d}'] + DEFS + INC))
    tu = f'{REPO}/trick_source/trick_utils'
    for d in ('compareFloatingPoint', 'interpolator', 'trick_adt', 'comm', 'connection_handlers', 'shm', 'math',
              'optimization', 'units', 'unicode', 'var_binary_parser'):
        for f in sorted(sum([glob.glob(f'{tu}/{d}' + x) for x in ('/*.cpp', '/*.c', '/src/*.cpp', '/src/*.c')], [])):
            objs.append(mk(f, d))
    tw = f'{REPO}/trick_source/trick_swig'
    for f in sorted(glob.glob(tw + '/*.cpp')):
        if os.path.basename(f) in ('PrimitiveAttributesMap.cpp', 'swig_convert_units.cpp', 'swig_global_vars.cpp'):
            objs.append(Obj(f, BASE + ['-O1'] + PYINC + DEFS + INC))
    for f in sorted(glob.glob(tw + '/swig_Linux*_x86_64/*.cpp')):
        objs.append(Obj(f, ['-w', '-fpic', '-pthread', '-O0'] + PYINC + DEFS + INC))
    return objs

SKIP_SRC = set(l.strip() for l in open(os.path.join(VERIF, 'dst', 'skip_sources.txt')) if l.strip()) \
    if os.path.exists(os.path.join(VERIF, 'dst', 'skip_sources.txt')) else set()

def mk(f, d):
    fl = BASE + ['-O1'] + DEFS + INC
    if d == 'InputProcessor': fl = fl + PYINC
    if d == 'MemoryManager': fl = fl + [f'-iquote{BUILD}/gen/MemoryManager']
    if d == 'CheckPointAgent': fl = fl + [f'-iquote{BUILD}/gen/CheckPointAgent']
    if f.endswith('.c'): fl = fl + ['-fexceptions']
    if d in TSAN_DIRS: fl = fl + TSAN
    return Obj(f, fl, c=f.endswith('.c'))

def tree_files(d, pats):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('io_src', 'build', '.trick') and not x.startswith('object_')]
        for f in fs:
            if any(f.endswith(p) for p in pats): out.append(os.path.join(r, f))
    return sorted(out)

def gen_sim(log):
    """Runs Trick's own configuration processor, ICG and SWIG over sim/S_define."""
    sim = os.path.join(BUILD, 'sim')
    ins = tree_files(os.path.join(VERIF, 'sim'), ('',))
    ins += tree_files(f'{REPO}/include', ('.h', '.hh')) + tree_files(f'{REPO}/share/trick/sim_objects', ('',))
    ins += tree_files(f'{REPO}/libexec/trick', ('',)) + tree_files(f'{REPO}/share/trick/makefiles', ('.mk', '')) 
    ins += tree_files(f'{REPO}/share/trick/swig', ('.i',))
    key = strhash('\n'.join(p + ' ' + fhash(p) for p in ins))
    kf = os.path.join(BUILD, 'sim.key')
    if os.path.exists(kf) and open(kf).read() == key and os.path.exists(sim + '/build/S_source.cpp'):
        return sim
    t = time.time()
    if os.path.isdir(sim): shutil.rmtree(sim)
    shutil.copytree(os.path.join(VERIF, 'sim'), sim)
    env = dict(os.environ); env['TRICK_HOME'] = REPO
    env['PATH'] = '/usr/local/bin:/usr/bin:/bin'; env['CCACHE_DIR'] = os.path.join(BUILD, 'ccache')
    env['TRICK_CFLAGS'] = env['TRICK_CXXFLAGS'] = ''
    for k in ('MAKEFLAGS', 'MFLAGS', 'MAKELEVEL'): env.pop(k, None)
    r = sh([f'{REPO}/bin/trick-CP'], cwd=sim, env=env)
    if r.returncode or not os.path.exists(sim + '/build/S_source.cpp') or not os.path.exists(sim + '/trick.zip'):
        sys.stderr.write(r.stdout[-6000:]); sys.exit('build: trick-CP failed')
    for f in glob.glob(sim + '/S_main*.exe'): os.remove(f)
    open(kf, 'w').write(key)
    log(f'sim code generated in {time.time()-t:.1f}s')
    return sim

def sim_objects(sim):
    objs = []
    fl = ['-w', '-g1', '-fpic', '-pthread', '-O0'] + DEFS + [f'-I{REPO}/trick_models', f'-I{sim}', f'-I{sim}/build'] + INC
    srcs = [f'{sim}/build/S_source.cpp', f'{sim}/build/class_map.cpp', f'{sim}/build/init_swig_modules.cpp', f'{sim}/build/top.cpp']
    for r, ds, fs in os.walk(sim + '/build'):
        for f in fs:
            p = os.path.join(r, f)
            if p not in srcs and f.endswith('.cpp') and (f.startswith('io_') or f.endswith('_py.cpp')): srcs.append(p)
    for s in sorted(srcs):
        extra = [f'-I{sim}/include'] + PYINC
        if s.endswith('/S_source.cpp'): extra = extra + ['-Dmain=trick_main']
        objs.append(Obj(s, fl + extra, name='sim+' + os.path.relpath(s, sim), cwd=sim))
    return objs

def verif_objects():
    objs = []
    fl = ['-w', '-g1', '-O2', '-fpic', '-pthread', '-std=c++17', f'-I{VERIF}/dst/rt', f'-I{VERIF}/sim/include', f'-I{VERIF}/dst/worlds'] + DEFS + INC + PYINC
    for s in sorted(glob.glob(VERIF + '/dst/rt/*.cpp') + glob.glob(VERIF + '/dst/worlds/*.cpp')):
        objs.append(Obj(s, fl))
    return objs

def build(verbose=False):
    os.makedirs(BUILD + '/obj', exist_ok=True)
    lock = open(BUILD + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    def log(*a):
        if verbose: print('build:', *a, flush=True)
    t0 = time.time()
    objs = repo_objects()
    objs = [o for o in objs if o.src.replace(REPO + '/', '') not in SKIP_SRC]
    objs += verif_objects()
    stale = [o for o in objs if not o.fresh()]
    # biggest first; the sim generation is serial, so run it beside the compiles
    stale.sort(key=lambda o: -os.path.getsize(o.src))
    errs = []
    with ThreadPoolExecutor(JOBS) as ex:
        fsim = ex.submit(gen_sim, log)
        futs = {ex.submit(o.build): o for o in stale}
        for f in as_completed(futs):
            if f.result(): errs.append((futs[f].src, f.result()))
        try:
            sim = fsim.result()
        except SystemExit as e:
            errs.append(('trick-CP', str(e))); sim = None
    n = len(stale)
    if not errs:
        so = sim_objects(sim); st = [o for o in so if not o.fresh()]
        with ThreadPoolExecutor(JOBS) as ex:
            for o, e in zip(st, ex.map(lambda o: o.build(), st)):
                if e: errs.append((o.src, e))
        objs += so; n += len(st)
    if errs:
        for s, e in errs[:5]: sys.stderr.write(f'--- {s}\n{e[-3000:]}\n')
        raise SystemExit('build: %d compile errors' % len(errs))
    exe = os.path.join(BUILD, 'sim', 'S_main_dst')
    lk = strhash('\n'.join(o.o + ' ' + fhash(o.o + '.key') for o in objs) + 'v3')
    if n or not (os.path.exists(exe) and os.path.exists(exe + '.key') and open(exe + '.key').read() == lk):
        rsp = BUILD + '/link.rsp'
        open(rsp, 'w').write('\n'.join(o.o for o in objs if 'er7' not in o.o))
        cmd = [CXX, '-o', exe + '.tmp', '-Wl,--export-dynamic', '-fuse-ld=gold' if os.path.exists('/usr/bin/ld.gold') else '-g', '-no-pie', '@' + rsp,
               '-Wl,--whole-archive', f'{REPO}/lib/liber7_utils.a', '-Wl,--no-whole-archive', '-lpthread',
               '-L/usr/lib/python3.12/config-3.12-x86_64-linux-gnu', '-lpython3.12', '-ldl', '-lm', '-ludunits2', '-lrt', '-lgsl', '-lgslcblas']
        r = sh(cmd)
        if r.returncode:
            sys.stderr.write(r.stdout[-8000:]); raise SystemExit('build: link failed')
        os.rename(exe + '.tmp', exe); open(exe + '.key', 'w').write(lk)
    log(f'{n} of {len(objs)} objects compiled, {time.time()-t0:.1f}s')
    return exe

if __name__ == '__main__':
    print(build(verbose=True))
