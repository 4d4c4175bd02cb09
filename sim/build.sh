#!/bin/bash
# Builds the simulator (sim), the optimised value build (val) and, on request, the simulator with the
# library unoptimised (sim0) from /repo's working tree.
# usage: build.sh OUTDIR [0]
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${QUIKIN_REPO:-/repo}
out=$1
mkdir -p "$out/a" "$out/b" "$out/h" "$out/u"
exec 9>"$out/lock"
flock 9
cat > "$out/make.py" <<'PY'
import os, sys, subprocess, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
here, repo, out = sys.argv[1:4]
plain = len(sys.argv) > 4
src = sorted(glob.glob(repo + '/src/**/*.cpp', recursive=True))
src = [s for s in src if os.path.relpath(s, repo + '/src') != 'main.cpp' and not os.path.relpath(s, repo + '/src').startswith('example/')]
def stamp(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()
repo_all = sorted(glob.glob(repo + '/src/**/*', recursive=True))
repo_all = [f for f in repo_all if os.path.isfile(f)]
mine = sorted(glob.glob(here + '/*.cpp') + glob.glob(here + '/*.h'))
A = '-std=c++11 -O1 -g1 -fopenmp -fsanitize=thread -D_QK_RANGE_CHECK_=1 -fno-omit-frame-pointer -fno-pie -w'
U = A.replace('-O1', '-O0')
B = '-std=c++11 -O3 -mavx2 -ffp-contract=off -g1 -fno-pie -ftrivial-auto-var-init=pattern -w'
H = '-std=c++17 -O2 -g1 -fno-pie -Wall -Wextra'
inc = ['-I' + repo + '/src', '-I' + here]
lib = stamp(repo_all, '')
tail = stamp(mine, '')
jobs = []
def obj(kind, s, flags, deps):
    name = os.path.relpath(s, repo + '/src' if s.startswith(repo + '/src') else here).replace('/', '__')
    o = out + '/' + kind + '/' + name + '.o'
    key = hashlib.sha256((deps + flags + s + open(s).read()).encode()).hexdigest()
    jobs.append((o, s, flags, key, kind))
    return o
hdr_repo = stamp([f for f in repo_all if not f.endswith('.cpp')], '')
hdr_mine = stamp([f for f in mine if f.endswith('.h')], '')
a = [obj('a', s, A, hdr_repo) for s in src] + [obj('a', here + '/qk_api.cpp', A, hdr_repo + hdr_mine)]
b = [obj('b', s, B, hdr_repo) for s in src] + [obj('b', here + '/qk_api.cpp', B, hdr_repo + hdr_mine)]
u = [obj('u', s, U, hdr_repo) for s in src] + [obj('u', here + '/qk_api.cpp', U, hdr_repo + hdr_mine)] if plain else []
examples = sorted(glob.glob(repo + '/src/example/*/*.cpp')) + [repo + '/src/main.cpp']
e = [obj('a', s, A, hdr_repo) for s in examples] + [obj('a', here + '/qk_examples.cpp', A, hdr_repo + hdr_mine)]
hm = {n: obj('h', here + '/' + n, H, hdr_repo + hdr_mine) for n in ['simrt.cpp', 'plan.cpp', 'model.cpp', 'state.cpp', 'gen.cpp', 'run.cpp', 'main.cpp', 'valmain.cpp']}
def build(j):
    o, s, flags, key, kind = j
    try:
        if open(o + '.key').read() == key and os.path.exists(o):
            return None
    except OSError:
        pass
    r = subprocess.run(['g++'] + flags.split() + inc + ['-c', s, '-o', o], capture_output=True, text=True)
    if r.returncode:
        if o in e:      # the programs are an addition: the library is checked without them
            sys.stderr.write(s + '\n' + r.stderr)
            if os.path.exists(o):
                os.remove(o)
            return None
        return s + '\n' + r.stderr
    if r.stderr:
        sys.stderr.write(r.stderr)
    if kind in 'au':
        r = subprocess.run(['objcopy', '--redefine-sym', 'memcpy=sim_memcpy', '--redefine-sym', 'memmove=sim_memmove', '--redefine-sym', 'memset=sim_memset'] + (['--redefine-sym', 'main=quikin_main', '--redefine-sym', 'exit=sim_exit'] if s == repo + '/src/main.cpp' else []) + [o], capture_output=True, text=True)
        if r.returncode:
            return s + '\n' + r.stderr
    open(o + '.key', 'w').write(key)
    return None
with ThreadPoolExecutor(8) as ex:
    errs = [e for e in ex.map(build, jobs) if e]
if errs:
    sys.stderr.write('\n'.join(errs)); sys.exit(2)
def link(target, objs, extra):
    key = hashlib.sha256(''.join(open(o + '.key').read() for o in objs).encode()).hexdigest()
    try:
        if open(target + '.key').read() == key and os.path.exists(target):
            return True
    except OSError:
        pass
    if os.path.exists(target):
        os.remove(target)
    r = subprocess.run(['g++', '-no-pie', '-o', target] + objs + extra, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr)
        return False
    open(target + '.key', 'w').write(key)
    return True
if not all(os.path.exists(o) for o in e):
    e = []
frame = [hm[n] for n in ['simrt.cpp', 'plan.cpp', 'model.cpp', 'state.cpp', 'gen.cpp', 'run.cpp', 'main.cpp']]
libs = ['-ldl', '-lpthread']
ok = e and link(out + '/sim', a + e + frame, libs + ['-Wl,--wrap=_ZN2qk4grid11rectilinearC1ERKNS_5rangeEPKdS6_'])
ok = ok or link(out + '/sim', a + frame, libs)
if plain:
    ok = link(out + '/sim0', u + frame, libs) and ok
ok = link(out + '/val', b + [hm[n] for n in ['plan.cpp', 'state.cpp', 'valmain.cpp']], []) and ok
sys.exit(0 if ok else 2)
PY
exec python3 "$out/make.py" "$here" "$repo" "$out" ${2:-}
