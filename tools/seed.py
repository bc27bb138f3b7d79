#!/usr/bin/env python3
"""Plants bugs: seed.py FILE.py [ID...].  FILE.py has BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
For each: makes the change in /repo, builds, runs the tests and the demonstration with and without it, and keeps it in
/verif/seeded/<id> if the demonstration tells the two apart.  Nothing but the developer runs this."""
import json, os, subprocess, sys, tempfile, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Run in the repository: exit 0 if the library behaves as it should, 1 if it does not.
here=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/o" "$w/home"
I="-I$R/delynoi/include -I$R/lib/utilities/include"
gcc -O1 -w -DTRILIBRARY -DANSI_DECLARATORS -c "$R/delynoi/include/delynoi/voronoi/lib/triangle.c" -o "$w/o/triangle.o" &
find "$R/delynoi/src" "$R/lib/utilities/src" -name '*.cpp' ! -name FunctorClasses.cpp > "$w/list"
echo "$here/demo.cpp" >> "$w/list"
xargs -P 8 -I{} sh -c 'g++ -std=gnu++11 -O0 -w '"$I"' -c "{}" -o "'"$w"'/o/$(echo "{}" | md5sum | cut -c1-12).o"' < "$w/list" || exit 2
wait
g++ -o "$w/demo" "$w"/o/*.o -lm || exit 2
cd "$w/home" && HOME=$w/home timeout 60 "$w/demo"
rc=$?
[ $rc -eq 0 ] && exit 0
exit 1
'''
HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <set>
#include <map>
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <stdexcept>
#include <delynoi/models/basic/Point.h>
#include <delynoi/models/basic/Angle.h>
#include <delynoi/models/Region.h>
#include <delynoi/models/Mesh.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/models/generator/noise/noise.h>
#include <delynoi/voronoi/TriangleVoronoiGenerator.h>
#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
#include <delynoi/utilities/delynoi_utilities.h>
#include <delynoi/utilities/convexHull.h>
#include <delynoi/utilities/geometryFunctions.h>
#include <delynoi/config/DelynoiConfig.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/triangulation/DelaunayTriangulationGenerator.h>
typedef std::vector<Point> Pts;
static int bad(const char* s) { printf("wrong: %s\n", s); return 1; }
static double shoelace(const Pts& p) { double a = 0; for (size_t i = 0; i < p.size(); ++i) { const Point &u = p[i], &v = p[(i + 1) % p.size()]; a += u.getX() * v.getY() - v.getX() * u.getY(); } return a / 2; }
template <class T> static double total(Mesh<T>& m) { double a = 0; for (auto e : m.getPolygons()) { Pts p; for (int i : e.getPoints()) p.push_back(m.getPoint(i)); a += std::fabs(shoelace(p)); } return a; }
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def clean():
    sh('git -C /repo checkout -- .')


def tests():
    b = sh('bash /opt/vp/build.sh')
    if b.returncode:
        return 'does not build: ' + b.stdout[-1500:]
    o = tempfile.mktemp()
    sh('bash /opt/vp/test.sh ' + o)
    r = json.load(open(o))
    os.remove(o)
    want = json.load(open('/opt/vp/BASELINE.json'))
    passed = set(r.get('passed', []))
    need = set(want.get('passed', want.get('stable', [])) if isinstance(want, dict) else want)
    return '' if need <= passed else 'tests fail: %s' % sorted(need - passed)


def one(b):
    d = V + '/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(HEAD + b['demo'])
    clean()
    try:
        for f, old, new in b['edits']:
            p = '/repo/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit: %d matches in %s for %r' % (s.count(old), f, old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        t = tests()
        if t:
            return t
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode == 0:
            return 'the demonstration passes with the change: ' + r.stdout[-300:]
        how = r.stdout.strip()[-160:]
    finally:
        clean()
        sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    if r.returncode:
        return 'the demonstration fails without the change: ' + r.stdout[-600:]
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    return 'ok (%s)' % how


def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        r = one(b)
        print(b['id'], b['property'], r, flush=True)
        if not r.startswith('ok'):
            sh('rm -rf %s/seeded/%s' % (V, b['id']))


main()
