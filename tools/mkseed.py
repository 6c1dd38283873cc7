#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines id, property, edits=[(file, old, new)], needs, breaks, demo (C++ body file text).
Creates /verif/seeded/<id>/ from a scratch worktree of /repo's HEAD (never touches /repo)."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#include "GyotoValue.h"
#include "GyotoProperty.h"
#include "GyotoRegister.h"
#include "GyotoMetric.h"
#include "GyotoAstrobj.h"
#include "GyotoUtils.h"
#include "GyotoError.h"
#include "GyotoFactory.h"
#include "GyotoScenery.h"
#include "GyotoScreen.h"
#include "GyotoPhoton.h"
#include "GyotoSpectrum.h"
#include "GyotoSpectrometer.h"
#include "GyotoConverters.h"
#include "GyotoStar.h"
#include <cmath>
#include <cstdio>
#include <vector>
#include <string>
using namespace Gyoto;
'''
DEMO = r'''#!/bin/bash
# Builds and runs demo.cpp against the library in ./_build (run in the source tree after the build).
# exit 0: behaviour as documented; non-zero: broken.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 3
trap 'rm -rf -- "$T"' EXIT
L=$R/_build/lib/.libs
LIB=$(basename "$(ls "$L"/libgyoto*.so | grep -v -e stdplug -e lorene | head -1)" .so)
mpic++ -std=c++17 -O1 -w -fmax-errors=2 -I"$R/include" -I"$R/_build/include" -I"$R/_build" -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -L"$L" -l"${LIB#lib}" "$L/libgyoto-stdplug.so" -lxerces-c -ludunits2 -lcfitsio -lboost_mpi -lboost_serialization -Wl,-rpath,"$L" || exit 4
export LD_LIBRARY_PATH=$L GYOTO_PLUGIN_PATH=$L GYOTO_PLUGINS=stdplug
cd "$T" && timeout 250 ./demo "$R" "$T"
'''
for spec in sys.argv[1:]:
    s = {}
    exec(open(spec).read(), s)
    wt = tempfile.mkdtemp(prefix='mkseed')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt + '/r', 'HEAD'])
    try:
        for f, old, new in s['edits']:
            p = wt + '/r/' + f
            t = open(p, newline='').read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w', newline='').write(t.replace(old, new))
        d = V + '/seeded/' + s['id']
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(['git', '-C', wt + '/r', 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
        if 'demo' in s: open(d + '/demo.cpp', 'w').write(PRE + s['demo'])
        open(d + '/demo.sh', 'w').write(s.get('demosh', DEMO)); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        print(s['id'], len(diff))
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt + '/r'])
        shutil.rmtree(wt, ignore_errors=True)
