#!/usr/bin/env python3
"""Development aid: applies one semantic change at a time to a scratch copy of /repo's headers and reports which of the named
checks notice it.  mutate.py [-a] [id ...]   (-a: run all checks until one notices)"""
import os, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.environ.get('MUTDIR', '/tmp/mut2')
SRC = '/repo/include/boost/lockfree/'; DST = D + '/include/boost/lockfree/'
Q, S, R, F, T, P = 'queue.hpp', 'stack.hpp', 'spsc_queue.hpp', 'detail/freelist.hpp', 'detail/tagged_ptr_ptrcompression.hpp', 'detail/copy_payload.hpp'
TD = 'detail/tagged_ptr_dcas.hpp'
M = []
def m(id, props, *edits):
    M.append((id, props.split(), [edits[i:i + 4] for i in range(0, len(edits), 4)]))
exec(open(os.path.join(V, 'tools', 'mutations.py')).read())

def apply(edits):
    for f, n, old, new in edits:
        t = open(DST + f).read()
        parts = t.split(old)
        if len(parts) < 2: raise SystemExit('no match: %s: %s' % (f, old))
        if n == 'all': t = new.join(parts)
        else:
            if len(parts) <= n + 1: raise SystemExit('no such occurrence: %s: %s (%d)' % (f, old, len(parts) - 1))
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(DST + f, 'w').write(t)

args = sys.argv[1:]; allp = '-a' in args; args = [a for a in args if a != '-a']
names = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for id, props, edits in M:
    if args and id not in args: continue
    shutil.rmtree(D, ignore_errors=True); shutil.copytree('/repo/include', D + '/include')
    apply(edits)
    res = []; first = ''
    for p in props + ([x for x in names if x not in props] if allp else []):
        r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), 'run', p], env=dict(os.environ, VERIF_REPO=D), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res.append('%s:%s' % (p, {0: 'miss', 1: 'CAUGHT'}.get(r.returncode, 'rc%d' % r.returncode)))
        if r.returncode != 0 and not first: first = r.stdout.split('\n')[0][:200]
    print('%-28s %-40s | %s' % (id, ' '.join(res), first), flush=True)
shutil.rmtree(D, ignore_errors=True)
