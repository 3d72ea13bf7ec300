#!/usr/bin/env python3
"""Development aid: weakens one memory order at a time in a scratch copy and reports whether C05 notices."""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/include/boost/lockfree'; DST = '/tmp/mut/include/boost/lockfree'
shutil.rmtree('/tmp/mut', ignore_errors=True); shutil.copytree('/repo/include', '/tmp/mut/include')
files = ['queue.hpp', 'spsc_queue.hpp', 'stack.hpp', 'detail/freelist.hpp']
muts = []
for f in files:
    t = open(os.path.join(SRC, f)).read()
    for m in re.finditer(r'memory_order_(acquire|release|consume)', t): muts.append((f, m.start(), m.end(), 'memory_order_relaxed'))
    for m in re.finditer(r'(compare_exchange_\w+\( \w+, \w+) \)', t): muts.append((f, m.start(), m.end(), m.group(1) + ', memory_order_relaxed )'))
    for m in re.finditer(r'(compare_exchange_weak\( \w+, \w+) \)', t):
        for o in ('acquire', 'release'): muts.append((f, m.start(), m.end(), m.group(1) + ', memory_order_%s, memory_order_relaxed )' % o))
pick = sys.argv[1:] 
for i, (f, a, b, r) in enumerate(muts):
    if pick and str(i) not in pick: continue
    t = open(os.path.join(SRC, f)).read(); n = t[:a] + r + t[b:]
    open(os.path.join(DST, f), 'w').write(n)
    p = subprocess.run([sys.executable, os.path.join(V, 'check.py'), 'run', 'C05'], env=dict(os.environ, VERIF_REPO='/tmp/mut'), stdout=subprocess.PIPE, text=True)
    line = t[:a].count('\n') + 1
    print(i, f, line, t.split('\n')[line - 1].strip()[:90], '->', r[-60:], 'CAUGHT' if p.returncode == 1 else 'rc=%d' % p.returncode, '|', p.stdout.split('\n')[0][:150], flush=True)
    shutil.copy(os.path.join(SRC, f), os.path.join(DST, f))
