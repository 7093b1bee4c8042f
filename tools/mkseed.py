"""Writes seeded/<id>/ from the descriptions in tools/seeds/*.py: makes the change in a scratch copy of /repo, takes the diff,
and confirms that the demonstration passes without it and fails with it (and that the project still builds and passes its tests)."""
import os, sys, subprocess, shutil, json, tempfile, glob, importlib.util
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository root: compiles the demonstration with the current sources and runs it; everything is written to a scratch directory
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)" || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/gen/stl-to-ps"
%s
for f in %s; do
  case "$f" in
    parser.tab|lexer.yy) s="$W/gen/stl-to-ps/$f.cc";;
    *) s="stl-to-ps/$f.cc";;
  esac
  g++ -std=c++17 -O1 -w -DEIGEN_INITIALIZE_MATRICES_BY_ZERO -I"$D/include" -I"$PWD" -I"$W/gen" -I/usr/include/eigen3 -c "$s" -o "$W/$f.o" || exit 3 &
done
g++ -std=c++17 -O1 -w -DEIGEN_INITIALIZE_MATRICES_BY_ZERO -I"$D/include" -I"$PWD" -I"$W/gen" -I/usr/include/eigen3 -c "$D/demo.cc" -o "$W/demo.o" || exit 3
wait
g++ "$W"/*.o -o "$W/demo" $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so) || exit 3
cd "$W" && %s
'''
GEN = '''bison -o "$W/gen/stl-to-ps/parser.tab.cc" --defines="$W/gen/stl-to-ps/parser.tab.h" stl-to-ps/parser.y || exit 3
flex --outfile="$W/gen/stl-to-ps/lexer.yy.cc" --header-file="$W/gen/stl-to-ps/lexer.yy.h" stl-to-ps/lexer.l || exit 3'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include "stl-to-ps/eigen_wrap.h"
#define CHECK_THAT(c) do { if (!(c)) { std::fprintf(stderr, "line %d: expected %s\\n", __LINE__, #c); return 1; } } while (0)
'''
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def make(s):
    d = os.path.join(VERIF, 'seeded', s['id'])
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        r = w + '/repo'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copytree(VERIF + '/shim/include', d + '/include')
        need_gen = any(x in ('parser.tab', 'lexer.yy') for x in s['tus'])
        open(d + '/demo.sh', 'w').write(DEMO % (GEN if need_gen else ':', ' '.join(s['tus']), s.get('run', './demo')))
        open(d + '/demo.cc', 'w').write(PRE + s['demo'])
        for n, t in s.get('files', {}).items(): open(d + '/' + n, 'w').write(t)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh(['bash', d + '/demo.sh'], r)
        if a.returncode != 0: return 'demo fails on the unchanged tree: %d %s' % (a.returncode, a.stdout.decode()[-1500:])
        for f, old, new in s['edits']:
            p = r + '/stl-to-ps/' + f; t = open(p).read()
            if t.count(old) != 1: return '%d matches of %r in %s' % (t.count(old), old[:60], f)
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], r).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        a = sh(['bash', d + '/demo.sh'], r)
        if a.returncode in (0, 3): return 'demo gives %d with the change: %s' % (a.returncode, a.stdout.decode()[-1500:])
        return 'ok: ' + a.stdout.decode().strip()[-150:].replace('\n', ' | ')
    finally: shutil.rmtree(w, ignore_errors=True)
def main():
    from concurrent.futures import ThreadPoolExecutor
    specs = []
    for f in sorted(glob.glob(VERIF + '/tools/seeds/*.py')):
        m = importlib.util.spec_from_file_location('x', f); x = importlib.util.module_from_spec(m); m.loader.exec_module(x); specs += x.SEEDS
    if sys.argv[1:]: specs = [s for s in specs if s['id'] in sys.argv[1:]]
    with ThreadPoolExecutor(4) as ex:
        for s, r in zip(specs, ex.map(make, specs)): print(s['id'], r)
if __name__ == '__main__': main()
