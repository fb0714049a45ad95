#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<edits: writes /verif/seeded/ID/patch.diff from OLD/NEW blocks read on stdin
(=== FILE path / --- old / +++ new / ===END), against /repo's HEAD."""
import sys, os, subprocess, json, tempfile, shutil
REPO = os.environ.get('SEED_REPO', '/repo'); OUT = os.environ.get('SEED_OUT', '/verif/seeded')
def make(id, prop, needs, breaks, edits, files=None):
    d = OUT + '/' + id; os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix='mkseed'); 
    try:
        out = ''
        for path, old, new in edits:
            for s in ('a', 'b'):
                p = os.path.join(wt, s, path)
                if not os.path.exists(p):
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    t = subprocess.run(['git', '-C', REPO, 'show', 'HEAD:' + path], capture_output=True).stdout
                    open(p, 'wb').write(t)
            p = os.path.join(wt, 'b', path); t = open(p).read()
            assert t.count(old) == 1, (path, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        out = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=wt, capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(out)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        for n, t in (files or {}).items():
            open(d + '/' + n, 'w').write(t)
            if n.endswith('.sh'): os.chmod(d + '/' + n, 0o755)
        r = subprocess.run(['git', '-C', REPO, 'apply', '--check', d + '/patch.diff'], capture_output=True, text=True)
        print(id, 'ok' if r.returncode == 0 else r.stderr)
    finally: shutil.rmtree(wt)
SIM = '''#!/bin/bash
# Builds a small simulation with the tree under test in a scratch directory, runs it and checks what it prints.
here=$(cd "$(dirname "$0")" && pwd); root=$(pwd)
w=$(mktemp -d) || exit 2; trap 'rm -rf "$w"' EXIT
cp "$here"/S_define "$here"/*.hh "$here"/input.py "$w"/ || exit 2
cd "$w" || exit 2
export TRICK_HOME=$root TRICK_CFLAGS="-I$w" TRICK_CXXFLAGS="-I$w" MAKEFLAGS=-j8
"$root"/bin/trick-CP > cp.log 2>&1 || { tail -20 cp.log; exit 2; }
%s
'''
SDEF = '''#include "sim_objects/default_trick_sys.sm"
##include "d.hh"
class dSimObject : public Trick::SimObject {
 public:
  D d;
  dSimObject() {
%s
  }
};
dSimObject dyn;
'''
HH = '''/* PURPOSE: (demonstration) */
#ifndef D_HH
#define D_HH
#include <stdio.h>
#include <unistd.h>
#include "trick/exec_proto.h"
%s
#endif
'''
