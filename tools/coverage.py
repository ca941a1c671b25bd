#!/usr/bin/env python3
"""Which code of libcwd the simulated runs reach: coverage.py SECONDS [profile,profile...]

A development tool, not a check: builds libcwd with -fsanitize-coverage=trace-pc, explores the given profiles (all of them by default)
and prints the lines of /repo that were compiled in but never ran.
"""
import collections, os, re, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sim')
t = sys.argv[1] if len(sys.argv) > 1 else '20'
from table import CHECKS
prof = sys.argv[2] if len(sys.argv) > 2 else ','.join(dict.fromkeys(p for c in CHECKS.values() for p in c['profiles']))
with tempfile.TemporaryDirectory() as tmp:
    env = dict(os.environ, SIM_COV=tmp + '/map')
    out = subprocess.run([sys.executable, V + '/check.py', 'build'], env=env, stdout=subprocess.PIPE, text=True, check=True).stdout.split()[-1]
    subprocess.run([out + '/sim', 'explore', '--profiles', prof, '--seed', '7', '--time', t, '--workers', '8', '--replays', tmp + '/r', '--out', tmp + '/o.json'], env=env)
    hit = open(tmp + '/map', 'rb').read()
so = out + '/sut.so'
dis = subprocess.run(['objdump', '-d', '--no-show-raw-insn', so], stdout=subprocess.PIPE, text=True).stdout
points, want = [], False
for l in dis.splitlines():
    m = re.match(r' *([0-9a-f]+):\t(.*)', l)
    if not m:
        continue
    if want:
        points.append(int(m[1], 16))
        want = False
    want = '__sanitizer_cov_trace_pc' in m[2] and 'call' in m[2]
lines = subprocess.run(['addr2line', '-e', so], input=''.join('%x\n' % (p - 1) for p in points), stdout=subprocess.PIPE, text=True).stdout.splitlines()
seen, miss = collections.Counter(), collections.defaultdict(set)
for p, l in zip(points, lines):
    f = os.path.realpath(l.split(' ')[0].rsplit(':', 1)[0]); n = l.split(' ')[0].rsplit(':', 1)[1]
    if '/src/' not in f and '/include/libcwd' not in f or '/usr/' in f or not n.isdigit():
        continue
    if hit[p]:
        seen[f, int(n)] += 1
    else:
        miss[f].add(int(n))
tot = len(set(seen)) + sum(len([n for n in v if (f, n) not in seen]) for f, v in miss.items())
print('lines of libcwd that begin a basic block: %d, reached: %d' % (tot, len(seen)))
for f in sorted(miss):
    src = open(f).read().splitlines()
    for n in sorted(miss[f]):
        mark = '~' if (f, n) in seen else '-'
        print('%s %s:%d %s' % (mark, os.path.relpath(f, os.environ.get('LIBCWD_REPO', '/repo')), n, src[n - 1].strip()[:120] if n <= len(src) else ''))
