#!/usr/bin/env python3
"""Driver: builds the harnesses against /repo's working tree, runs the scenarios of one property, reports.

  check.py run <property>        (VERIF_TIER selects quick/thorough)
  check.py replay <file>         replays a recorded violation, printing the full trace
"""
import sys, os, subprocess, hashlib, json, time, threading, queue, shutil, fcntl, re
HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, 'mc')
REPO = os.environ.get('VERIF_REPO', '/repo')   # overridden only by tools/mutate.py, on scratch copies
BUILD = os.path.join(HERE, 'build')
REPLAY = os.path.join(HERE, 'replay')
NCPU = os.cpu_count() or 4
sys.path.insert(0, HERE)

CXX = 'clang++'
TSAN = ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-mllvm', '-tsan-instrument-read-before-write',
        '-include', os.path.join(MC, 'prelude.h')]
INC = ['-I' + os.path.join(REPO, 'include'), '-I' + MC]
COMMON = ['-std=c++17', '-g', '-w']
# name -> (source, extra flags, instrumented?)
TARGETS = {
    'queue':      ('h_queue.cpp', [], True),
    'queue_dcas': ('h_queue.cpp', ['-DDCAS', '-mcx16'], True),
    'stack':      ('h_stack.cpp', [], True),
    'stack_t':    ('h_stack.cpp', ['-DPART2'], True),
    'stack_big':  ('h_stack.cpp', ['-DMC_BIG'], True),
    'stack_t_big': ('h_stack.cpp', ['-DMC_BIG', '-DPART2'], True),
    'queue_big':  ('h_queue.cpp', ['-DMC_BIG'], True),
    'spsc_big':   ('h_spsc.cpp', ['-DMC_BIG'], True),
    'spsc_t_big': ('h_spsc.cpp', ['-DMC_BIG', '-DPART2'], True),
    'stack_dcas': ('h_stack.cpp', ['-DDCAS', '-mcx16'], True),
    'free':       ('h_free.cpp', [], True),
    'free_dcas':  ('h_free.cpp', ['-DDCAS', '-mcx16'], True),
    'spsc':       ('h_spsc.cpp', [], True),
    'spsc_t':     ('h_spsc.cpp', ['-DPART2'], True),
    'sq':         ('hs_queue.cpp', [], True),
    'sq2':        ('hs_queue.cpp', ['-DPART2'], True),
    'ss':         ('hs_stack.cpp', [], True),
    'ss2':        ('hs_stack.cpp', ['-DPART2'], True),
    'ss_dcas':    ('hs_stack.cpp', ['-DDCAS', '-mcx16'], True),
    'sr':         ('hs_spsc.cpp', [], True),
    'sr2':        ('hs_spsc.cpp', ['-DPART2'], True),
    'n_tag':      ('n_tag.cpp', [], False),
    'n_tag_dcas': ('n_tag.cpp', ['-DDCAS', '-mcx16'], False),
    'n_size':     ('n_size.cpp', [], False),
    'n_ring':     ('n_ring.cpp', [], False),
    'n_list':     ('n_list.cpp', [], False),
    'n_two':      ('n_two.cpp', [], False),
    'n_pol':      ('n_pol.cpp', [], False),
    'n_align':    ('n_align.cpp', [], False),
    'n_align2':   ('n_align.cpp', ['-DPART2'], False),
    'n_align3': ('n_align.cpp', ['-DPART3'], False),
    'n_nest':     ('n_nest.cpp', [], False),
    'n_huge':     ('n_huge.cpp', [], False),
    'sq_dcas':    ('hs_queue.cpp', ['-DDCAS', '-mcx16'], True),
}
# the same harnesses built another way: target@variant (C24)
ALT = ['-I' + os.path.join(MC, 'alt')]      # stand-in for boost/atomic.hpp that the runtime can observe
UBSAN = ['-fsanitize=undefined', '-fno-sanitize=vptr,function', '-fsanitize-trap=undefined']
VARIANTS = {
    'rel': ('clang++', ['-std=c++20', '-O3', '-DNDEBUG', '-DBOOST_DISABLE_ASSERTS', '-DBOOST_LOCKFREE_FORCE_BOOST_ATOMIC'], ALT),
    'std': ('clang++', ['-O2', '-DBOOST_LOCKFREE_FORCE_STD_ATOMIC', '-DNDEBUG'], []),
    'gnu': ('g++', ['-std=c++20', '-O3', '-DNDEBUG', '-DBOOST_DISABLE_ASSERTS', '-DBOOST_LOCKFREE_FORCE_BOOST_ATOMIC'], []),
    'ub':  ('clang++', UBSAN, []),
}
KINDS = dict(LIN=1, MEM=2, ASSERT=4, NONTERM=8, STUCK=16, CAP=32, LEAK=64, ALLOC=128, LIFE=256, RACE=512, LOCK=1024, EXC=2048,
             WAITFREE=4096, MAP=8192, SRC=16384, RESULT=32768, LOCKFREE=65536, AVAIL=131072)
def mask(*names):
    m = KINDS['MEM'] | KINDS['ASSERT'] | KINDS['EXC']
    for n in names: m |= KINDS[n]
    return m

PROFILE = [] if os.environ.get('VERIF_PROFILE') else None
class CheckError(Exception): pass

# ---------------------------------------------------------------------------------------------------------------- build
def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'include'), MC):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode()); h.update(b'\0')
                with open(p, 'rb') as fh: h.update(fh.read())
                h.update(b'\0')
    h.update(repr((CXX, TSAN, COMMON, sorted(TARGETS.items()), sorted(VARIANTS.items()))).encode())
    return h.hexdigest()[:20]

def rtname(name): return 'rt_big.o' if '-DMC_BIG' in TARGETS[name.partition('@')[0]][1] else 'rt.o'      # sequential reference of up to 79 instead of 23 elements
def compile_one(out, name):
    base, _, var = name.partition('@')
    src, extra, inst = TARGETS[base]
    cxx, more, inc = VARIANTS[var] if var else (CXX, [], [])
    exe = os.path.join(out, name)
    if os.path.exists(exe): return None
    obj = exe + '.o'
    cmd = [cxx] + COMMON + ['-O1' if inst else '-O2'] + extra + more + (TSAN if inst else []) + inc + INC + ['-MD', '-MF', exe + '.d', '-c', os.path.join(MC, src), '-o', obj]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return 'cannot compile %s:\n%s' % (name, p.stdout[:3000])
    deps = open(exe + '.d').read()
    if '/usr/include/boost/lockfree' in deps: return '%s picked up installed lockfree headers instead of /repo' % name
    link = [cxx, obj] + ([os.path.join(out, rtname(base))] if inst else []) + ['-o', exe + '.tmp', '-ldl', '-pthread'] + ([] if inst else ['-latomic'])
    p = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return 'cannot link %s:\n%s' % (name, p.stdout[:3000])
    os.rename(exe + '.tmp', exe); os.unlink(obj)
    return None

def build(names):
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    out = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(out, exist_ok=True)
        os.utime(out)
        olds = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if len(d) == 20 and d != key)
        for _, d in olds[:-2]: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        for obj in sorted({rtname(n) for n in names if TARGETS[n.partition('@')[0]][2]}):
            rt = os.path.join(out, obj)
            if os.path.exists(rt): continue
            p = subprocess.run([CXX, '-std=c++17', '-O2', '-g', '-w'] + (['-DMC_BIG'] if 'big' in obj else []) + ['-c', os.path.join(MC, 'rt.cpp'), '-o', rt + '.tmp'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: raise CheckError('cannot compile the runtime:\n' + p.stdout[:3000])
            os.rename(rt + '.tmp', rt)
        errs = []; q = list(names); lock = threading.Lock()
        def work():
            while True:
                with lock:
                    if not q: return
                    n = q.pop(0)
                e = compile_one(out, n)
                if e: errs.append(e)
        ts = [threading.Thread(target=work) for _ in range(min(NCPU, len(names)))]
        for t in ts: t.start()
        for t in ts: t.join()
        if errs: raise CheckError('\n'.join(errs))
    return out

# ---------------------------------------------------------------------------------------------------------------- run
class Worker:
    def __init__(self, out): self.out = out; self.procs = {}
    def run(self, target, line):
        p = self.procs.get(target)
        if p is None or p.poll() is not None:
            p = subprocess.Popen([os.path.join(self.out, target)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
            self.procs[target] = p
        p.stdin.write(line + '\n'); p.stdin.flush()
        lines = []
        while True:
            l = p.stdout.readline()
            if not l: self.procs.pop(target); p.kill(); raise CheckError('harness %s died on: %s' % (target, line))
            if l.startswith('END '): return int(l.split()[1]), lines
            lines.append(l.rstrip('\n'))
    def close(self):
        for p in self.procs.values():
            try: p.stdin.close(); p.wait(timeout=5)
            except Exception: p.kill()

def parse_result(lines):
    for l in lines:
        if l.startswith('RESULT '):
            return {k: int(v) for k, v in (x.split('=') for x in l.split()[1:])}
    return None

class Violation:
    def __init__(self, target, line, lines):
        self.target, self.line, self.lines = target, line, lines
        self.msg = ''; self.kind = 0; self.trace = ''; self.vis = ''; self.bound = '-1'
        for l in lines:
            if l.startswith('VIOL '):
                m = re.match(r'VIOL kind=(\d+) msg=(.*)', l); self.kind = int(m.group(1)); self.msg = m.group(2)
            elif l.startswith('TRACE '): self.trace = l[6:].strip() or '-'
            elif l.startswith('VIS '): self.vis = l[4:].strip() or '-'
            elif l.startswith('BOUND p='): self.bound = l[8:].strip()
    def replay_cmd(self, out):
        return [os.path.join(out, self.target), 'replay', self.line, self.trace or '-', self.vis or '-', self.bound]

def run_scenarios(out, scns, budget):
    """scns: list of (target, line). Returns (stats, violations, samples, skipped)."""
    t0 = time.time()
    q = queue.Queue()
    for s in scns: q.put(s)
    lock = threading.Lock()
    st = dict(states=0, transitions=0, terminals=0, outcomes=0, runs=0, scenarios=0, complete=0, incomplete=0, cut=0, maxsteps=0, maxatoms=0, maxdepth=0)
    viols, incomplete, samples, errors, fatal = [], [], [], [], []
    skipped = [0]
    def work():
        w = Worker(out)
        try:
            while not fatal:
                try: target, line = q.get_nowait()
                except queue.Empty: return
                if time.time() - t0 > budget or len(viols) >= 3 or len(errors) >= 200:
                    with lock: skipped[0] += 1
                    continue
                t1 = time.time()
                try: rc, lines = w.run(target, line)
                except CheckError:
                    try: rc, lines = w.run(target, line)             # once more in a fresh process
                    except CheckError as e: fatal.append(str(e)); return
                if PROFILE is not None: PROFILE.append((time.time() - t1, target, line))
                with lock:
                    if rc == 10: viols.append(Violation(target, line, lines))
                    elif rc == 1009 and 'c=giant' in line: incomplete.append('%s %s: not enough memory' % (target, line)); st['incomplete'] += 1
                    elif rc != 0: errors.append('scenario failed (%d): %s %s: %s' % (rc, target, line, ' '.join(lines)[-500:]))
                    else:
                        r = parse_result(lines)
                        if not r: errors.append('no result: %s %s' % (target, line)); continue
                        st['scenarios'] += 1
                        for k in ('states', 'transitions', 'terminals', 'outcomes', 'runs', 'cut'): st[k] += r.get(k, 0)
                        st['maxsteps'] = max(st['maxsteps'], r.get('maxsteps', 0)); st['maxatoms'] = max(st['maxatoms'], r.get('maxatoms', 0)); st['maxdepth'] = max(st['maxdepth'], r.get('depth', 0))
                        if r['complete']: st['complete'] += 1
                        else: st['incomplete'] += 1; incomplete.append('%s %s (explored completely up to bound %s)' % (target, line, r.get('bound')))
                        if len(samples) < 6 or (st['scenarios'] % 97 == 0 and len(samples) < 12):
                            samples.append(dict(program='%s: %s' % (target, line), states=r['states'], transitions=r['transitions'], executions_completed=r.get('terminals', 0)))
        except CheckError as e: fatal.append(str(e))
        except Exception as e: fatal.append(repr(e))
        finally: w.close()
    ts = [threading.Thread(target=work) for _ in range(NCPU)]
    for t in ts: t.start()
    for t in ts: t.join()
    # scenarios that could not be decided (a limit of the runtime) are reported as incomplete, unless there are many
    if fatal and not viols: raise CheckError(fatal[0])
    if errors and not viols and len(errors) * 20 > len(scns): raise CheckError(errors[0])
    st['incomplete'] += len(errors); incomplete += ['NOT EXPLORED ' + e for e in errors]
    for e in errors[:3]: print('NOT EXPLORED: %s' % e)
    return st, viols, samples, skipped[0], incomplete

def confirm(out, v):
    """replays the violation twice in fresh processes"""
    texts = []
    for _ in range(2):
        p = subprocess.run(v.replay_cmd(out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=300)
        texts.append(p.stdout)
        if 'REPRODUCED' not in p.stdout or 'NOT REPRODUCED' in p.stdout: return None
    return texts[0]

def known_findings(pid):
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                res.append(l.split(' ', 2)[2])
    return res

def main_run(pid):
    import scenarios; sys.modules.setdefault('check', sys.modules['__main__'])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    prop = scenarios.PROPS[pid]
    scns = []; seen = set()
    for target, line in prop['gen'](tier):
        if (target, line) not in seen: seen.add((target, line)); scns.append((target, line))
    targets = sorted(set(t for t, _ in scns), key=lambda t: (not t.startswith(('n_list', 'n_ring', 'n_align', 'n_pol', 'ss', 'sr')), t))      # longest compilations first
    viol_extra = []
    if 'probe' in prop:
        viol_extra = prop['probe'](REPO)
    rc = 0
    if viol_extra:
        report(pid, None, viol_extra[0], 0); nviol = 1; rc = 1
        st, samples, skipped, incomplete = dict(states=1, transitions=0, terminals=0), [viol_extra[0][:300]], len(scns), []
    else:
        out = build(targets)
        budget = prop.get('budget', {}).get(tier, 420 if tier == 'quick' else 7200)
        st, viols, samples, skipped, incomplete = run_scenarios(out, scns, budget)
        nviol = 0
        for v in viols:
            text = confirm(out, v)
            if text is None:
                if nviol == 0 and v is viols[-1]: raise CheckError('violation did not reproduce on replay: %s %s: %s' % (v.target, v.line, v.msg))
                continue
            if nviol == 0:
                report(pid, v, text, nviol)
            nviol += 1; rc = 1
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
              coverage=dict(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=st['terminals'],
                            samples=samples or ['none'], scenarios_explored=st.get('scenarios', 0), scenarios_total=len(scns),
                            scenarios_skipped=skipped, scenarios_complete_within_bounds=st.get('complete', 0), incomplete=incomplete[:40],
                            exploration_runs=st.get('runs', 0), prefixes_cut_by_other_violation_kinds=st.get('cut', 0),
                            longest_operation_in_steps=st.get('maxsteps', 0), most_atomic_accesses_per_operation=st.get('maxatoms', 0),
                            deepest_execution=st.get('maxdepth', 0), bounds=prop['bounds'],
                            note='states: distinct states of the real implementation at scheduling points; transitions: steps of the real code executed between them; '
                                 'traces_validated_against_impl: executions of the implementation itself that ran to their end and were judged by the oracle',
                            exhaustive=bool(not skipped and not incomplete and not nviol)),
              assumptions=prop.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if PROFILE:
        for x in sorted(PROFILE)[-(int(os.environ["VERIF_PROFILE"]) if os.environ["VERIF_PROFILE"].isdigit() else 25):]: print('%.2f %s %s' % x)
    for k in known_findings(pid): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s %s: %d scenarios (%d complete, %d capped, %d skipped), %d states, %d transitions, %d executions, %.1fs%s' % (
        pid, tier, st.get('scenarios', 0), st.get('complete', 0), st.get('incomplete', 0), skipped, st['states'], st['transitions'], st['terminals'], time.time() - t0,
        '' if not nviol else ', %d violation(s)' % nviol))
    return rc

def report(pid, v, text, n):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, '%s-%d.txt' % (pid, int(time.time() * 1000) % 100000000))
    with open(path, 'w') as f:
        if v:
            f.write('property %s\ntarget %s\nscenario %s\nbound %s\ntrace %s\nvis %s\nviolation %s\n\n' % (pid, v.target, v.line, v.bound, v.trace, v.vis, v.msg))
        f.write(text)
    if v: print('%s: %s [%s: %s]' % (pid, v.msg, v.target, v.line))
    else: print('%s: %s' % (pid, text[:300]))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.stdout.flush()

def main_replay(path):
    d = {}
    for l in open(path):
        if not l.strip(): break
        k, _, r = l.rstrip('\n').partition(' '); d[k] = r
    out = build([d['target']])
    v = Violation(d['target'], d['scenario'], []); v.trace = d['trace']; v.vis = d['vis']; v.bound = d['bound']
    return 1 if subprocess.run(v.replay_cmd(out)).returncode == 10 else 0

if __name__ == '__main__':
    try:
        if len(sys.argv) == 3 and sys.argv[1] == 'run': sys.exit(main_run(sys.argv[2]))
        if len(sys.argv) == 3 and sys.argv[1] == 'replay': sys.exit(main_replay(sys.argv[2]))
        if len(sys.argv) == 2 and sys.argv[1] == 'build': build(sorted(TARGETS)); sys.exit(0)
        print(__doc__); sys.exit(2)
    except CheckError as e:
        print('CHECK ERROR: %s' % e); sys.exit(2)
