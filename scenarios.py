"""The programs (scenarios) explored per property and tier. See DESIGN.md section 4."""
import itertools
import probes
from check import mask

def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(alpha, repeat=n): yield ''.join(w)

def pairs(ws):
    ws = list(ws)
    return [(a, b) for i, a in enumerate(ws) for b in ws[i:]]

def S(target, cfg, init, threads, k, **opt):
    s = 'cfg=%s' % cfg
    if init: s += ' i=%s' % init
    for t in threads: s += ' T=%s' % t
    s += ' k=%d' % k
    for key, v in opt.items(): s += ' %s=%s' % (key, v)
    return (target, s)

def quick(tier): return tier == 'quick'

# -------------------------------------------------------------------------------------------------- queue (C01)
Q_CFG = [('queue', 'node', dict(n=1)), ('queue', 'fixed', dict(n=2)), ('queue', 'cap1', {}), ('queue', 'cap2', {})]
def gen_C01(tier):
    k = mask('LIN', 'STUCK')
    tcap = 20 if quick(tier) else 900
    for tg, cfg, o in Q_CFG:
        for init in ('', 'u'):
            for a, b in pairs(words('up', 1, 2)):
                yield S(tg, cfg, init, (a, b), k, s=1, time=tcap, **o)
        # the other entry points against the basic ones
        for a in ('b', 'x', 'c', 'C', 'A', 'D', 'bp', 'xu', 'cb', 'Cb', 'Au', 'Du', 'uA', 'uD', 'bc', 'bx'):
            for b in ('u', 'p', 'up', 'pu'):
                yield S(tg, cfg, 'u', (a, b), k, s=1, time=tcap, **o)
    for cfg, o in (('node', dict(n=0)), ('node', dict(n=2)), ('node2', dict(n=1)), ('fixed', dict(n=1)), ('cap3', {})):
        for init, a, b in (('u', 'up', 'pu'), ('', 'uu', 'pp'), ('uu', 'pp', 'pu'), ('', 'ub', 'xc'), ('u', 'uA', 'uA')):
            yield S('queue', cfg, init, (a, b), k, s=1, time=tcap, **o)
    # three threads
    for tg, cfg, o in Q_CFG:
        for init in ('', 'u'):
            for th in itertools.combinations_with_replacement(('u', 'p', 'up', 'pu'), 3):
                n = sum(map(len, th))
                pb = (4 if n <= 4 else 3) if quick(tier) else 6
                yield S(tg, cfg, init, th, k, p=pb, s=1 if n <= 4 else 0, time=tcap, **o)
    # version numbers next to their wrap-around
    for tg, cfg, o in Q_CFG:
        for tw in range(65529, 65537) if quick(tier) else range(65500, 65540):
            for init, a, b in (('', 'up', 'up'), ('u', 'up', 'pu'), ('u', 'pu', 'pu'), ('u', 'p', 'upup'), ('u', 'u', 'pupu'), ('u', 'cu', 'uA'), ('', 'u', 'upp')):
                yield S(tg, cfg, init, (a, b), k, tw=tw, s=1, time=tcap, **o)
            for th in (('p', 'pu', 'u'), ('u', 'p', 'up'), ('p', 'p', 'uu')):
                yield S(tg, cfg, 'u', th, k, tw=tw, p=3, time=tcap, **o)
    # the representation with separate pointer and tag, double-width compare and swap
    for init, a, b in (('', 'up', 'up'), ('u', 'up', 'pu'), ('u', 'uu', 'pp'), ('uu', 'pp', 'xc')):
        yield S('queue_dcas', 'dcas', init, (a, b), k, n=1, s=1, time=tcap)
    for tg, cfg, o in Q_CFG:
        for init in ('', 'u'):
            for a, b in pairs(words('up', 3, 3)):
                yield S(tg, cfg, init, (a, b), k, time=tcap, **o)
        for a, b in (('u', 'u'), ('u', 'p'), ('p', 'p'), ('up', 'pu')):
            yield S(tg, cfg, 'u', (a, b), k, s=4, time=tcap, **o)      # repeated compare-exchange failures
    if not quick(tier):
        for tg, cfg, o in Q_CFG:
            for init in ('', 'u', 'uu'):
                for a, b in pairs(words('up', 3, 3)):
                    yield S(tg, cfg, init, (a, b), k, p=4, s=1, time=tcap, **o)
                for th in itertools.combinations_with_replacement(('u', 'p', 'up', 'pu'), 4):
                    yield S(tg, cfg, init, th, k, p=2, time=tcap, **o)

# -------------------------------------------------------------------------------------------------- stack (C02)
S_CFG = [('stack', 'node', dict(n=1)), ('stack', 'fixed', dict(n=2)), ('stack', 'cap1', {}), ('stack', 'cap2', {})]
def gen_C02(tier):
    k = mask('LIN', 'STUCK')
    tcap = 20 if quick(tier) else 900
    for tg, cfg, o in S_CFG:
        for init in ('', 'u'):
            for a, b in pairs(words('up', 1, 2)):
                yield S(tg, cfg, init, (a, b), k, s=1, time=tcap, **o)
        for a in ('b', 'x', 'c', 'C', 'A', 'D', 'e', 'bp', 'xu', 'cb', 'Au', 'uD', 'eu', 'pe', 'ue'):
            for b in ('u', 'p', 'up', 'pu'):
                yield S(tg, cfg, 'u', (a, b), k, s=1, time=tcap, **o)
    for cfg, o in (('node', dict(n=0)), ('node', dict(n=2)), ('node2', dict(n=1)), ('fixed', dict(n=1)), ('cap3', {})):
        for init, a, b in (('u', 'up', 'pu'), ('', 'uu', 'pp'), ('uu', 'pp', 'pu'), ('', 'ub', 'xc'), ('u', 'uA', 'uD')):
            yield S('stack', cfg, init, (a, b), k, s=1, time=tcap, **o)
    for tg, cfg, o in S_CFG:
        for init in ('', 'u'):
            for th in itertools.combinations_with_replacement(('u', 'p', 'up', 'pu'), 3):
                n = sum(map(len, th))
                pb = (5 if n <= 4 else 4) if quick(tier) else 8
                yield S(tg, cfg, init, th, k, p=pb, s=1 if n <= 4 or not quick(tier) else 0, time=tcap, **o)
            for th in (('u', 'p', 'e'), ('u', 'pp', 'e'), ('uu', 'p', 'ee'), ('pu', 'p', 'e')):
                yield S(tg, cfg, init, th, k, p=4, s=1, time=tcap, **o)
    for tg, cfg, o in S_CFG:
        for tw in range(65529, 65537) if quick(tier) else range(65500, 65540):
            for init, a, b in (('', 'up', 'up'), ('u', 'up', 'pu'), ('u', 'pu', 'pu'), ('u', 'p', 'upup'), ('u', 'u', 'pupu'), ('u', 'cu', 'uA'), ('u', 'ep', 'pu'), ('', 'ee', 'up'), ('', 'eu', 'up'), ('u', 'pe', 'up')):
                yield S(tg, cfg, init, (a, b), k, tw=tw, s=1, time=tcap, **o)
            for th in (('p', 'pu', 'u'), ('u', 'p', 'up'), ('p', 'p', 'uu'), ('e', 'up', 'p')):
                yield S(tg, cfg, 'u', th, k, tw=tw, p=3, time=tcap, **o)
    for init, a, b in (('', 'up', 'up'), ('u', 'up', 'pu'), ('u', 'uu', 'pp'), ('uu', 'pp', 'xc')):
        yield S('stack_dcas', 'dcas', init, (a, b), k, n=1, s=1, time=tcap)
    for tg, cfg, o in S_CFG:
        for init in ('', 'u'):
            for a, b in pairs(words('up', 3, 3)):
                yield S(tg, cfg, init, (a, b), k, time=tcap, **o)
        for a, b in (('u', 'u'), ('u', 'p'), ('p', 'p'), ('up', 'pu')):
            yield S(tg, cfg, 'u', (a, b), k, s=4, time=tcap, **o)      # repeated compare-exchange failures
    if not quick(tier):
        for tg, cfg, o in S_CFG:
            for init in ('', 'u', 'uu'):
                for a, b in pairs(words('up', 3, 3)):
                    yield S(tg, cfg, init, (a, b), k, s=1, time=tcap, **o)
                for th in itertools.combinations_with_replacement(('u', 'p', 'up', 'pu'), 4):
                    yield S(tg, cfg, init, th, k, p=2, time=tcap, **o)

# -------------------------------------------------------------------------------------------------- stack batches (C03)
def gen_C03(tier):
    k = mask('LIN', 'STUCK', 'LEAK')
    tcap = 20 if quick(tier) else 900
    batch = ('r0', 'r1', 'r2', 'r3', 'B2', 'B3', 'a', 'v', 'E', 'V')
    for tg, cfg, o in [('stack', 'node', dict(n=2)), ('stack', 'fixed', dict(n=3)), ('stack', 'cap2', {}), ('stack', 'cap3', {})]:
        for init in ('', 'u', 'uu'):
            for a in batch:
                for b in ('u', 'p', 'e', 'up', 'pu', 'pp'):
                    yield S(tg, cfg, init, (a, b), k, s=1, time=tcap, **o)
            for a, b in pairs(batch):
                yield S(tg, cfg, init, (a, b), k, s=1, time=tcap, **o)
        for th in (('r2', 'a', 'p'), ('r2', 'v', 'u'), ('r3', 'p', 'p'), ('a', 'E', 'u'), ('v', 'p', 'u'), ('r2', 'B2', 'a'), ('r2', 'r2', 'V'),
                   ('r2a', 'p', 'e'), ('r2', 'pp', 'e'), ('uV', 'up', 'p'), ('a', 'pu', 'pu'), ('v', 'pu', 'pu')):
            for init in ('', 'u', 'uu'):
                yield S(tg, cfg, init, th, k, p=4 if quick(tier) else 8, s=1, time=tcap, **o)
        for a, b in (('r2a', 'r2a'), ('r2v', 'up'), ('ur2', 'ap'), ('r2r2', 'aa'), ('aA', 'r2u'), ('r2V', 'pr2'), ('r2E', 'Vr1')):
            yield S(tg, cfg, 'u', (a, b), k, s=1, time=tcap, **o)
        # every batch operation with every pair of single operations
        for a in ('r2', 'a', 'v', 'E', 'V') if quick(tier) else batch:
            for b, c in itertools.combinations_with_replacement(('u', 'p', 'up', 'pu', 'r2', 'a'), 2):
                yield S(tg, cfg, 'uu', (a, b, c), k, p=3 if quick(tier) else 5, s=1, time=tcap, **o)
        for tw in range(65529, 65537):
            for a, b in (('r2', 'pu'), ('a', 'pu'), ('v', 'up'), ('E', 'uu'), ('V', 'pu'), ('r2', 'a'), ('ar2', 'up')):
                yield S(tg, cfg, 'uu', (a, b), k, s=1, tw=tw, time=tcap, **o)
    for init, a, b in (('', 'r2', 'a'), ('u', 'v', 'up'), ('uu', 'V', 'r2')):
        yield S('stack_dcas', 'dcas', init, (a, b), k, n=1, s=1, time=tcap)
    if not quick(tier):
        for tg, cfg, o in [('stack', 'node', dict(n=2)), ('stack', 'fixed', dict(n=4)), ('stack', 'cap3', {})]:
            for a in batch:
                for b in batch:
                    for c in ('u', 'p', 'up', 'pp', 'r2', 'e'):
                        yield S(tg, cfg, 'uu', (a + 'u', b, c), k, p=3, time=tcap, **o)

# -------------------------------------------------------------------------------------------------- spsc_queue (C04)
R_CFG = [('spsc', 'run', dict(n=1)), ('spsc', 'run', dict(n=2)), ('spsc', 'cap1', {}), ('spsc', 'cap2', {}), ('spsc', 'cap3', {})]
def gen_C04(tier):
    k = mask('LIN', 'STUCK')
    tcap = 20 if quick(tier) else 900
    prods = ['u', 'uu', 'U1', 'U2', 'U3', 'U4', 'I2', 'I3', 'uU2', 'U2u', 'I2u', 'uI3', 'U2U2', 'I2I2', 'uuu', 'U0', 'I0', 'U2I3']
    cons = ['p', 'pp', 'P1', 'P2', 'P3', 'O', 'c', 'C', 'A', 'D', 'x', 'd', 'f', 'pP2', 'P2p', 'fp', 'OO', 'AA', 'cD', 'P2P2', 'dO', 'ppp']
    for tg, cfg, o in R_CFG:
        cap = o.get('n') or int(cfg[-1])
        for tw in range(cap + 1):
            for init in ('', 'u' * cap) if cap == 1 else ('', 'u', 'u' * cap):
                for a in prods:
                    for b in cons:
                        if quick(tier) and tw not in (0, cap) and len(a) + len(b) > 4: continue
                        yield S(tg, cfg, init, (a, b), k, tw=tw, time=tcap, **o)
    for a in ('uuuu', 'U2uI2u', 'uU3uU2', 'I3I3U3'):
        for b in ('pppp', 'cPAx', 'OpOp', 'dDfpO'):
            for cfg in ('cap1', 'cap2', 'cap3'):
                yield S('spsc', cfg, 'u', (a, b), k, tw=1, time=tcap)
                yield S('spsc', 'run2', 'u', (a, b), k, tw=1, time=tcap, n=int(cfg[-1]))
    if not quick(tier):
        for a in words(('u', 'U2', 'U3', 'I2', 'I3'), 3, 3):
            for b in words(('p', 'P2', 'O', 'c', 'D'), 3, 3):
                for cfg in ('cap1', 'cap2', 'cap3'):
                    yield S('spsc', cfg, 'u', (a, b), k, tw=1, time=tcap)

# -------------------------------------------------------------------------------------------------- memory model (C05)
def gen_C05(tier):
    k = mask('RACE', 'LIN', 'LIFE')
    q = quick(tier); tcap = 30 if q else 1200
    prods = ['u', 'uu', 'U2', 'I2', 'U3', 'I3', 'uuu', 'uU2', 'I2u', 'U2U2', 'uuuu']
    cons = ['p', 'pp', 'P2', 'O', 'c', 'C', 'A', 'D', 'x', 'd', 'f', 'P2p', 'fp', 'OO', 'AA', 'DD', 'cc', 'CC', 'xx', 'dd', 'P2P2', 'P1P1', 'cD', 'pP2', 'ppp', 'fdp', 'pppp', 'cDxO']
    for tg, cfg, o in (('spsc', 'run', dict(n=1)), ('spsc', 'run', dict(n=2)), ('spsc', 'run2', dict(n=2)), ('spsc', 'cap1', {}), ('spsc', 'cap2', {}), ('spsc', 'cap3', {}),
                       ('spsc_t', 'runt', dict(n=1)), ('spsc_t', 'runt', dict(n=2)), ('spsc_t', 'cap2t', {}), ('spsc_t', 'cap3t', {})):
        cap = o.get('n') or int(cfg[3])
        for tw in range(cap + 1):
            for init in ('', 'u' * cap):
                for a in prods:
                    for b in cons:
                        if q and (tw + len(a) + len(b)) % 2 and len(a) + len(b) > 4: continue
                        yield S(tg, cfg, init, (a, b), k, tw=tw, w=2 if q else 4, time=tcap, **o)
    for tg in ('queue', 'stack'):
        cs = [(tg, 'node', dict(n=1), 8), (tg, 'fixed', dict(n=2), 4), (tg, 'cap1', {}, 4), (tg, 'cap2', {}, 4), (tg + '_dcas', 'dcas', dict(n=1), 16)]
        if tg == 'stack': cs += [('stack_t', 'nodet', dict(n=1), 8), ('stack_t', 'cap2t', {}, 4)]
        for t2, cfg, o, g in cs:
            for init in ('', 'u', 'uu') if cfg != 'cap1' else ('', 'u'):
                for a, b in pairs(words('up', 1, 2)):
                    yield S(t2, cfg, init, (a, b), k, w=2, g=g, time=tcap, **o)
                ops = ['b', 'x', 'c', 'A', 'C', 'D'] + (['a', 'v', 'E', 'V', 'r2', 'B2'] if tg == 'stack' else [])
                for a in ops + [x + 'u' for x in ops] + ['u' + x for x in ops]:
                    for b in ('u', 'p', 'up', 'pu') + (() if q else ('uu', 'pp', 'c', 'A')):
                        yield S(t2, cfg, init, (a, b), k, w=1 if q else 2, g=g, time=tcap, **o)
                for th in itertools.combinations_with_replacement(('u', 'p', 'pu', 'up'), 3):
                    if q and sum(map(len, th)) > (4 if tg == 'queue' else 5): continue
                    yield S(t2, cfg, init, th, k, w=1, g=g, p=2 if q else 3, time=tcap, **o)
                for th in (('p', 'pu', 'pu'), ('c', 'pu', 'u'), ('p', 'p', 'uu'), ('u', 'p', 'pp')):
                    yield S(t2, cfg, init, th, k, w=1 if q else 2, g=g, p=2 if q else 3, time=tcap, **o)

# -------------------------------------------------------------------------------------------------- capacity (C06)
def gen_C06(tier):
    k = mask('CAP', 'LEAK', 'LIN', 'STUCK')
    q = quick(tier); tcap = 20 if q else 900
    for tg in ('queue', 'stack'):
        for cfg, o, cap in (('cap1', {}, 1), ('cap2', {}, 2), ('cap3', {}, 3), ('fixed', dict(n=1), 1), ('fixed', dict(n=2), 2), ('node', dict(n=1), 1), ('node', dict(n=2), 2), ('node', dict(n=0), 0)):
            P = 'b' if cfg == 'node' else 'u'
            for fill in range(cap + 1):
                if cap == 3 and fill == 1: continue
                for a, b in pairs(words(P + 'p', 1, 2)):
                    yield S(tg, cfg, P * fill, (a, b), k, s=1, time=tcap, **o)
                for th in itertools.combinations_with_replacement((P, 'p', P + 'p', 'p' + P), 3):
                    if q and sum(map(len, th)) > 5: continue
                    yield S(tg, cfg, P * fill, th, k, p=2 if q else 4, s=1 if sum(map(len, th)) <= 4 else 0, time=tcap, **o)
                for a, b in ((P + 'A', 'p' + P), ('A', P + P), ('c' + P, 'x' + P), (P + P, 'A' + P), (P + 'D', 'p' + P), ('D', P + P), ('C' + P, 'C' + P), (P + P, 'D' + P)):
                    yield S(tg, cfg, P * fill, (a, b), k, s=1, time=tcap, **o)
                if tg == 'stack':
                    R = 'B' if cfg == 'node' else 'r'
                    for a, b in ((R + '2', 'p' + P), (R + '3', 'a'), (R + '2', R + '2'), (R + '2a', 'p' + P), ('v' + R + '2', P + 'p'), ('a' + P, R + '3'), (R + '2', 'pp'), ('E' + P, R + '2'), ('V' + P, 'p' + P), ('V', 'a' + P)):
                        yield S(tg, cfg, P * fill, (a, b), k, s=1, time=tcap, **o)
        # bounded and unbounded operations mixed, reservations
        for a, b in (('ub', 'p'), ('u', 'bb'), ('up', 'bp'), ('R1', 'b'), ('R2b', 'bp'), ('R1', 'up'), ('R1b', 'R1b')):
            for init in ('', 'u'):
                yield S(tg, 'node', init, (a, b), k, n=1, s=1, time=tcap)
    for cfg, o, cap in (('run', dict(n=1), 1), ('run', dict(n=2), 2), ('run', dict(n=3), 3), ('cap1', {}, 1), ('cap2', {}, 2), ('cap3', {}, 3)):
        for tw in range(cap + 1):
            for fill in range(cap + 1):
                for a in ('u', 'uu', 'U2', 'U3', 'I2', 'I3', 'U4u', 'uI2', 'U2U2', 'uuu'):
                    for b in ('p', 'pp', 'P2', 'P3', 'O', 'A', 'c', 'pP2', 'dD', 'cP2p'):
                        yield S('spsc', cfg, 'u' * fill, (a, b), k, tw=tw, time=tcap, **o)

# -------------------------------------------------------------------------------------------------- recycling (C07)
def wrap_rounds(tier):
    r = []
    for j in range(1, 15): r += [2 ** j, 3 * 2 ** (j - 1)]
    return sorted(set(r)) if not quick(tier) else [2, 8, 64, 128, 256, 1024, 4096, 16384]
def gen_C07(tier):
    k = mask('LIN', 'CAP', 'STUCK')
    q = quick(tier); tcap = 30 if q else 1200
    # the two node pools themselves
    for tg, cfg, o, cap in (('free', 'node', dict(n=1), 1), ('free', 'node', dict(n=2), 2), ('free', 'node', dict(n=3), 3), ('free', 'fixed', dict(n=1), 1), ('free', 'fixed', dict(n=2), 2),
                            ('free', 'cap1', {}, 1), ('free', 'cap2', {}, 2), ('free', 'cap3', {}, 3), ('free_dcas', 'node', dict(n=2), 2)):
        for a in ('a', 'aa', 'af', 'aaf', 'aaF'):
            for b in ('a', 'af', 'afa', 'afaf', 'aaFf', 'aafFa', 'aaffaa', 'afafaf', 'aafafa', 'aaFaFa'):
                big = cap == 3 and len(a) + len(b) > 6
                yield S(tg, cfg, '', (a, b), k, s=0 if q else 1, p=3 if q and big else -1, time=tcap, **o)
        for th in (('a', 'af', 'af'), ('a', 'afa', 'a'), ('aa', 'afa', 'a'), ('af', 'afa', 'af'), ('a', 'aaF', 'af'), ('aa', 'aaf', 'afa'), ('aaf', 'aaF', 'a')):
            if q and cap == 3 and th[0] == 'aa': continue
            yield S(tg, cfg, '', th, k, p=(1 if cap == 3 else 2) if q else 3, time=tcap, **o)
        for r in wrap_rounds(tier):
            if r * cap >= 60000: continue
            for a in ('a', 'aa') if r < 4000 else ('a',):
                for b in ('W%d' % r, 'aW%d' % r, 'W%da' % r):
                    yield S(tg, cfg, '', (a, b), k, p=2, time=tcap, **o)
        # the pool's version number comes around to a multiple of every smaller power of two
        for a in ('a', 'aa', 'af'):
            for b in ('a', 'aa', 'af', 'aaf', 'aaF', 'aafa', 'aaFa', 'aafF', 'aaFf', 'aaFfa', 'aafFa', 'aaaFf', 'aaafFa'):
                if (32768 - b.count('a')) % cap: continue
                yield S(tg, cfg, '', (a, 'W%d%s' % ((32768 - b.count('a')) // cap, b)), k, p=2, time=tcap, **o)
    for tg in ('queue', 'stack'):
        for cfg, o in (('node', dict(n=1)), ('cap2', {})) + (() if q else (('node', dict(n=2)), ('fixed', dict(n=2)), ('cap3', {}))):
            for init in ('', 'u', 'uu'):
                for a in ('u', 'p') + (('a', 'r2') if tg == 'stack' else ()):
                    for b in words('up', 1, 3 if q else 6):
                        c = max(1, len(init))
                        for d in (0, 1):
                            if q and len(b) > 2 and tg == 'stack': continue
                            if (32768 - b.count('pu'[d])) % c: continue
                            if d and b.count('p') == b.count('u'): continue
                            # a half-finished push of the delayed thread takes part in the rounds: stay below 2^16 steps of any version
                            if a == 'u' and len(init) == 1: continue
                            yield S(tg, cfg, init, (a, 'W%d%s' % ((32768 - b.count('pu'[d])) // c, b)), k, p=2, time=tcap, **o)
                        if a == 'u' and (32768 - b.count('u')) % (c + 1) == 0:
                            yield S(tg, cfg, init, (a, 'W%d%s' % ((32768 - b.count('u')) // (c + 1), b)), k, p=2, time=tcap, **o)
                        for tw in (65533, 65535)[len(b) > 2:] if q else range(65530, 65537):
                            yield S(tg, cfg, init, (a, b), k, tw=tw, time=tcap, **o)
    # one delayed operation against long recycling programs
    for tg in ('queue', 'stack'):
        for cfg, o in (('node', dict(n=1)), ('node', dict(n=0)), ('cap1', {}), ('cap2', {}), ('fixed', dict(n=1)), ('fixed', dict(n=2)), (('dcas', dict(n=1)))):
            t2 = tg + '_dcas' if cfg == 'dcas' else tg
            for init in ('', 'u', 'uu'):
                if init == 'uu' and cfg in ('cap1',): continue
                one = ['u', 'p', 'c', 'C'] + (['a', 'v', 'E', 'V', 'r2', 'e'] if tg == 'stack' else ['x'])
                for a in one:
                    for b in words('up', 3, 6 if q else 7):
                        if q and len(b) > 4 and abs(2 * b.count('u') - len(b)) > 2: continue
                        if q and len(b) == 6 and (cfg == 'dcas' or a not in ('u', 'p', 'a', 'r2') or cfg == 'fixed' or o.get('n') == 0): continue
                        yield S(t2, cfg, init, (a, b), k, time=tcap, **o)
                for th in (('p', 'pu', 'pu'), ('p', 'pp', 'uu'), ('u', 'pu', 'up'), ('p', 'pup', 'u'), ('pu', 'pu', 'pu')):
                    yield S(t2, cfg, init, th, k, p=3 if q else 5, time=tcap, **o)
                # a node removed by one thread and put back by another while the delayed operation holds it
                for a in one:
                    for b, c in (('p', 'pu'), ('p', 'up'), ('pp', 'u'), ('p', 'pup'), ('pp', 'pu')):
                        yield S(t2, cfg, init if init != 'uu' else 'uuu', (a, b, c), k, p=3 if q else 5, time=tcap, **o)
                for r in wrap_rounds(tier):
                    if r * 3 >= 60000: continue
                    for a in ('u', 'p'):
                        for b in ('W%d' % r, 'W%du' % r, 'W%dp' % r, 'pW%du' % r, 'uW%dp' % r):
                            if q and b[0] in 'pu' and r > 64: continue
                            yield S(t2, cfg, init, (a, b), k, p=2, time=tcap, **o)

# -------------------------------------------------------------------------------------------------- allocation (C08)
def gen_C08(tier):
    k = mask('ALLOC', 'LEAK')
    q = quick(tier); tcap = 20 if q else 900
    for tg in ('queue', 'stack'):
        for cfg, o in (('node', dict(n=0)), ('node', dict(n=1)), ('node', dict(n=2))):
            for init in ('', 'u', 'uu'):
                for a, b in pairs(words('ubp', 1, 2)):
                    yield S(tg, cfg, init, (a, b), k, s=1, ar=1, time=tcap, **o)
                for a in ('R1u', 'R2u', 'R2', 'R2uu', 'uR2', 'x', 'c', 'C', 'A', 'D', 'pu', 'uA'):
                    for b in ('u', 'p', 'b', 'up', 'pu', 'bp', 'R2u'):
                        yield S(tg, cfg, init, (a, b), k, s=1, ar=1, time=tcap, **o)
                if tg == 'stack':
                    for a in ('r2', 'B2', 'a', 'v', 'E', 'V', 'r2a', 'vr2', 'R2r2', 'e'):
                        for b in ('u', 'p', 'up', 'pu', 'r2', 'bp', 'e'):
                            yield S(tg, cfg, init, (a, b), k, s=1, ar=1, time=tcap, **o)
                for th in (('u', 'p', 'p'), ('u', 'u', 'p'), ('up', 'p', 'u'), ('pu', 'pu', 'b'), ('R2u', 'p', 'u'), ('b', 'b', 'p')):
                    yield S(tg, cfg, init, th, k, p=2 if q else 4, ar=1, time=tcap, **o)
        for cfg, o in (('fixed', dict(n=1)), ('fixed', dict(n=2)), ('cap1', {}), ('cap2', {})):
            for init in ('', 'u'):
                for a, b in pairs(words('up', 1, 2)):
                    yield S(tg, cfg, init, (a, b), k, s=1, time=tcap, **o)
                for a in ('c', 'C', 'x', 'A', 'D', 'b') + (('r2', 'B2', 'a', 'v', 'E', 'V', 'e') if tg == 'stack' else ()):
                    for b in ('u', 'p', 'up', 'pu'):
                        yield S(tg, cfg, init, (a, b), k, s=1, time=tcap, **o)
    for cfg, o in (('run', dict(n=2)), ('cap2', {})):
        for a in ('u', 'U3', 'I2', 'uw'):
            for b in ('p', 'x', 'P3', 'O', 'A', 'D', 'C', 'cf', 'Fdr'):
                yield S('spsc', cfg, 'u', (a, b), k, tw=1, time=tcap, **o)

# -------------------------------------------------------------------------------------------------- element lifetime (C09)
def gen_C09(tier):
    k = mask('LIFE')
    q = quick(tier); tcap = 20 if q else 900
    for cfg, o in (('nodet', dict(n=1)), ('fixedt', dict(n=2)), ('cap2t', {})):
        for init in ('', 'u', 'uu'):
            for a, b in pairs(words('upcC', 1, 2)):
                yield S('stack_t', cfg, init, (a, b), k, s=1, time=tcap, **o)
            for a in ('a', 'v', 'r2', 'r3', 'A', 'D', 'x', 'E', 'V', 'C', 'B2', 'b'):
                for b in ('u', 'p', 'up', 'pu', 'pp', 'a', 'v', 'r2'):
                    yield S('stack_t', cfg, init, (a, b), k, s=1, time=tcap, **o)
            for th in (('u', 'p', 'p'), ('up', 'p', 'u'), ('pu', 'pu', 'p'), ('r2', 'a', 'p'), ('v', 'p', 'u')):
                yield S('stack_t', cfg, init, th, k, p=2 if q else 4, time=tcap, **o)
    for cfg, o, cap in (('runt', dict(n=1), 1), ('runt', dict(n=2), 2), ('cap2t', {}, 2), ('cap3t', {}, 3)):
        for tw in range(cap + 1):
            for fill in range(cap + 1):
                for a in ('u', 'uu', 'U2', 'U3', 'I2', 'I3', 'uU2', 'uI2'):
                    for b in ('p', 'P2', 'P3', 'O', 'A', 'D', 'c', 'C', 'x', 'd', 'pP2', 'fA', 'cO'):
                        if q and len(a) + len(b) > 4: continue
                        yield S('spsc_t', cfg, 'u' * fill, (a, b), k, tw=tw, time=tcap, **o)

# -------------------------------------------------------------------------------------------------- lock-freedom (C10)
def gen_C10(tier):
    k = mask('NONTERM', 'STUCK', 'LOCK', 'LOCKFREE')
    q = quick(tier); tcap = 20 if q else 900
    for tg, ops, tok in (('queue', ('u', 'b', 'p', 'x', 'c', 'C', 'A', 'D', 'R1'), 'up'), ('stack', ('u', 'b', 'p', 'x', 'c', 'C', 'A', 'D', 'e', 'a', 'v', 'E', 'V', 'r2', 'B2', 'R1'), 'up')):
        for cfg, o in (('node', dict(n=0)), ('node', dict(n=1)), ('fixed', dict(n=2)), ('cap1', {}), ('cap2', {})):
            for init in ('', 'u'):
                for a, b in pairs(ops):
                    if not cfg == 'node' and 'R1' in (a, b): continue
                    yield S(tg, cfg, init, (a, b), k, s=1, time=tcap, **o)
                for a in ops:
                    if not cfg == 'node' and a == 'R1': continue
                    for b in ('up', 'pu', 'uu', 'pp'):
                        yield S(tg, cfg, init, (a, b), k, time=tcap, **o)
                for th in itertools.combinations_with_replacement(('u', 'p'), 3):
                    yield S(tg, cfg, init, th, k, p=3 if q else -1, time=tcap, **o)
                for a, b in pairs(words('up', 2, 3)): yield S(tg, cfg, init, (a, b), k, time=tcap, **o)
                for th in itertools.combinations_with_replacement(('u', 'p', 'up', 'pu'), 3):
                    if sum(map(len, th)) > 3: yield S(tg, cfg, init, th, k, p=3 if q else 5, time=tcap, **o)
                for th in (('u', 'A', 'p'), ('C', 'p', 'u'), ('u', 'D', 'up')) + ((('r2', 'a', 'p'), ('u', 'v', 'p'), ('e', 'pu', 'u'), ('E', 'r2', 'u'), ('V', 'a', 'r2')) if tg == 'stack' else ()):
                    yield S(tg, cfg, init, th, k, p=3 if q else 5, time=tcap, **o)
                for tw in (65533, 65535):
                    for a, b in pairs(words('up', 1, 2)): yield S(tg, cfg, init, (a, b), k, tw=tw, time=tcap, **o)
        yield S(tg + '_dcas', 'dcas', 'u', ('up', 'pu'), mask('NONTERM', 'STUCK', 'LOCK'), n=1, time=tcap)

# -------------------------------------------------------------------------------------------------- wait-freedom (C11)
def gen_C11(tier):
    k = mask('WAITFREE', 'NONTERM', 'STUCK', 'LOCK', 'LOCKFREE')
    q = quick(tier); tcap = 20 if q else 900
    prods = ('u', 'U1', 'U3', 'I3', 'w'); cons = ('p', 'x', 'P1', 'P3', 'O', 'c', 'C', 'A', 'D', 'f', 'r', 'd')
    long_c = ('pppppppppppp', 'ppOppAppPppcp', 'PcPcPcPcPcPc'); long_p = ('uuuuuuuuuuuu', 'uU2uI2uU3uI3uuu', 'I2I2I2I2I2I2I2I2')
    if q: long_c, long_p = long_c[:2], long_p[:2]
    for cfg, o, cap in (('run', dict(n=1), 1), ('run', dict(n=3), 3), ('cap1', {}, 1), ('cap2', {}, 2), ('cap3', {}, 3)):
        for tw in range(cap + 1):
            for init in ('', 'u' * cap):
                for a in prods:
                    for b in long_c: yield S('spsc', cfg, init, (a, b), k, tw=tw, wf=8, time=tcap, **o)
                for b in cons:
                    for a in long_p: yield S('spsc', cfg, init, (a, b), k, tw=tw, wf=8, time=tcap, **o)
    # number of element copies, every state and every single operation
    for n in (1, 2, 5, 8, 12): yield Q('sr', 'runt', rops(n, n < 7), mask('WAITFREE'), n=n, time=tcap)
    for cfg, n in (('cap1t', 1), ('cap2t', 2), ('cap3t', 3), ('cap4t', 4)): yield Q('sr', cfg, rops(n), mask('WAITFREE'), time=tcap)

# -------------------------------------------------------------------------------------------------- two mappings (C16, concurrent part)
def gen_C16c(tier):
    k = mask('MAP', 'LIN', 'CAP', 'STUCK')
    q = quick(tier); tcap = 20 if q else 900
    for cfg in ('cap1', 'cap2', 'cap3'):
        for init in ('', 'u'):
            for tg in ('queue', 'stack'):
                for a, b in pairs(words('up', 1, 2)):
                    yield S(tg, cfg, init, (a, b), k, map=1, time=tcap)
                    if a != b: yield S(tg, cfg, init, (b, a), k, map=1, time=tcap)
                for a in ('b', 'x', 'c', 'C', 'A', 'D') + (('e', 'a', 'v', 'r2', 'B2', 'E', 'V') if tg == 'stack' else ()):
                    for b in ('u', 'p', 'up', 'pu'):
                        yield S(tg, cfg, init, (a, b), k, map=1, time=tcap)
                        yield S(tg, cfg, init, (b, a), k, map=1, time=tcap)
                for a, b in pairs(words('up', 3, 3)): yield S(tg, cfg, init, (a, b), k, map=1, p=4 if q else -1, time=tcap)
                for a, b in pairs(words('up', 1, 2)): yield S(tg, cfg, init, (a, b), k, map=1, s=1, tw=65533, time=tcap)
                for th in itertools.combinations_with_replacement(('u', 'p', 'up', 'pu') + (('a', 'r2') if tg == 'stack' else ()), 3):
                    yield S(tg, cfg, init, th, k, map=1, p=3 if q else 5, time=tcap)
            for tw in range(int(cfg[3]) + 1):
                for a in ('u', 'uu', 'U2', 'I3', 'uwu', 'uI2', 'U3u', 'wU4'):
                    for b in ('p', 'P2', 'O', 'A', 'cf', 'rdp', 'x', 'C', 'D', 'fp', 'P3p', 'cAO', 'ppp'):
                        yield S('spsc', cfg, init, (a, b), k, map=1, tw=tw, time=tcap)

# -------------------------------------------------------------------------------------------------- availability (C19)
def gen_C19(tier):
    k = mask('LIN', 'CAP')
    q = quick(tier); tcap = 20 if q else 900
    for cfg, o, cap in (('run', dict(n=1), 1), ('run', dict(n=2), 2), ('run', dict(n=3), 3), ('cap1', {}, 1), ('cap2', {}, 2), ('cap3', {}, 3)):
        for tw in range(cap + 1):
            for fill in range(cap + 1):
                for a in ('w', 'wu', 'uw', 'wU3w', 'uwu', 'wI2', 'ww', 'U2w', 'wuwuw'):
                    for b in ('r', 'rp', 'pr', 'rP3r', 'f', 'fp', 'fpf', 'prf', 'rF', 'rOr', 'fcf', 'rdr', 'dfA'):
                        if q and len(a) + len(b) > 6: continue
                        yield S('spsc', cfg, 'u' * fill, (a, b), k, tw=tw, time=tcap, **o)
    yield from huge_ring(tier, mask('AVAIL'), not q)
    yield from big_ring(tier, mask('AVAIL'))

# -------------------------------------------------------------------------------------------------- larger batches
def big_stack(tier, k, target='stack_big', cfg='fixed', p=1):
    q = quick(tier); tcap = 20 if q else 900
    ns = (5, 9, 17, 33) if q else (4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33)
    for cfg2 in (cfg, 'node' if cfg == 'fixed' else cfg):
        for n in ns:
            o = dict(n=n + 4) if cfg2 == 'fixed' else dict(n=n) if cfg2.startswith('node') else {}
            for init, a, b in (('u', 'r%d' % n, 'p'), ('u', 'r%d' % n, 'a'), ('', 'r%d' % n, 'e'), ('uu', 'r%d' % n, 'pu'), ('u', 'B%d' % n, 'pp'), ('r%d' % n, 'a', 'p'), ('r%d' % n, 'a', 'pu'), ('r%d' % n, 'v', 'pu'),
                               ('r%d' % n, 'E', 'p'), ('r%d' % n, 'V', 'up'), ('r%d' % n, 'a', 'v'), ('r%d' % n, 'a', 'e'), ('r%d' % n, 'A', 'p'), ('r%d' % n, 'D', 'up')):
                yield S(target, cfg2, init, (a, b), k, p=p, cap=4000, time=tcap, **o)
def big_queue(tier, k, target='queue_big'):
    q = quick(tier); tcap = 20 if q else 900
    for cfg in ('fixed', 'node'):
        for n in (5, 9, 17) if q else (4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33):
            for a, b in (('A', 'pu'), ('D', 'up'), ('pppp', 'uuuu'), ('A', 'D'), ('A', 'uu')):
                yield S(target, cfg, 'u' * n, (a, b), k, p=1, cap=4000, time=tcap, n=n + 2)
def big_spsc(tier, k, target='spsc_big', cfg='run', **opt):
    q = quick(tier); tcap = 20 if q else 900
    for n in (5, 9, 17, 33) if q else (4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33):
        for tw in (0, n // 2, n):
            for init in ('', 'U%d' % (n // 2), 'U%d' % n):
                for a in ('U%d' % n, 'I%d' % n, 'U%du' % (n // 2), 'uI%d' % (n // 2), 'u', 'wU%d' % n):
                    for b in ('P%d' % n, 'O', 'A', 'D', 'pP%d' % (n // 2), 'rP%d' % n, 'c'):
                        yield S(target, cfg, init, (a, b), k, tw=tw, n=n, cap=4000, time=tcap, **opt)
# -------------------------------------------------------------------------------------------------- operation sequences
def Q(target, cfg, ops, k, **opt):
    s = 'cfg=%s ops=%s k=%d' % (cfg, ops, k)
    for key, v in opt.items(): s += ' %s=%s' % (key, v)
    return (target, s)
QOPS = 'ubUpPxXyYcCADe'
QBAS = 'ubUpPcA'
SOPS = 'ubUpPxXcCADaEvVe'
SBAS = 'ubUpPcAav'
def ranges(kinds, ns): return ''.join('%s%d' % (c, n) for c in kinds for n in ns)
def rops(cap, wide=True):
    ns = range(0, cap + 3)
    return 'upxd' + ranges('UI', ns) + ranges('P', ns) + ('a1a2a3b1b2b3' if wide else 'a2b2') + 'OcCADZ'
def seq_queue(tier, k, extra=True):
    q = quick(tier); tcap = 40 if q else 1500
    for n in (0, 1, 2) if q else (0, 1, 2, 3):
        yield Q('sq', 'node', QOPS + 'R1R2r1r2', k, n=n, nl=max(n + 2, 4) + (0 if q else 1), mask=1, time=tcap)
        yield Q('sq', 'node', QBAS + 'R1r1', k, n=n, nl=n + 2, d=12 if q else 20, time=tcap)
        yield Q('sq', 'node', QOPS + 'R1R2r1r2', k, n=n, nl=n + 2, tw=65531, d=8 if q else 14, time=tcap)
        yield Q('sq', 'node2', QOPS + 'R1r2', k, n=n, nl=n + 2, mask=1, time=tcap)
        yield Q('sq_dcas', 'dcas', QBAS + 'R1r1', k, n=n, nl=n + 2, d=10 if q else 16, time=tcap)
    for cfg, o in [('fixed', dict(n=n)) for n in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 4))] + [('cap1', {}), ('cap2', {}), ('cap3', {})]:
        yield Q('sq', cfg, QOPS, k, mask=1, time=tcap, **o)
        yield Q('sq', cfg, QOPS, k, d=16 if q else 30, time=tcap, **o)
        yield Q('sq', cfg, QOPS, k, tw=65531, d=14 if q else 26, time=tcap, **o)
# larger sizes: every position, fill level, operation and batch size (n_ring.cpp), every fill level, operation and batch size (n_list.cpp)
def big_ring(tier, k, types=('e1', 'e8', 'e100', 'ea', 'et'), faults=False):
    q = quick(tier); f = ' faults=1' if faults else ''
    for t in types:
        if faults and t != 'et': continue
        for n in list(range(1, 25 if not faults else 13)) + ([31, 32, 33] if not faults else [16]) + ([] if q else list(range(25, 31)) + [48, 63, 64, 65, 100]):
            if not q and faults and n > 33: continue
            yield ('n_ring', 't=%s n=%d k=%d%s' % (t, n, k, f))
        for n in (1, 2, 3, 5, 8, 15, 16) + ((31,) if not faults else ()) + (() if q or faults else (64,)):
            yield ('n_ring', 't=%s n=%d ct=1 k=%d%s' % (t, n, k, f))
        if q and not faults:
            for n in (63, 64, 127): yield ('n_ring', 't=%s n=%d step=%d k=%d' % (t, n, n, k))
            yield ('n_ring', 't=%s n=64 ct=1 step=64 k=%d' % (t, k))
def big_list(tier, k, cont, faults=False):
    q = quick(tier); f = ' faults=1' if faults else ''
    types = (['et'] if cont == 'stack' else ['ef']) + ([] if faults else ['e8', 'e100', 'ea'])
    for t in types:
        for n in list(range(0, 18 if not faults else 7)) + ([31, 32, 64] if not faults else []) + ([] if q else list(range(18, 31)) if not faults else [7, 8, 12, 16]):
            yield ('n_list', 'c=%s s=node n=%d t=%s maxk=%d k=%d%s' % (cont, n, t, min(n + 3, 40), k, f))
        for n in list(range(0, 18 if not faults else 9)) + ([31, 32, 33, 64, 100] if not faults else []):
            yield ('n_list', 'c=%s s=fixed n=%d t=%s maxk=%d k=%d%s' % (cont, n, t, min(n + 3, 40), k, f))
        for n in (8, 17): yield ('n_list', 'c=%s s=cap%d t=%s maxk=%d k=%d%s' % (cont, n, t, n + 3, k, f))
# element sizes that are no multiple of a word
def small_list(tier, k, cont):
    for t in ('e1', 'e3', 'e16'):
        for st in ('node', 'fixed'):
            for n in (0, 1, 2, 3, 4, 5, 8, 16): yield ('n_list', 'c=%s s=%s n=%d t=%s maxk=%d k=%d' % (cont, st, n, t, n + 3, k))
        yield ('n_list', 'c=%s s=cap8 t=%s maxk=11 k=%d' % (cont, t, k))
# two containers of one type side by side
def two(tier, k, cs):
    for c in cs:
        for n in (1, 2) if not 'cap' in c else (2,):
            for o in range(10): yield ('n_two', 'c=%s n=%d d=%d first=%d k=%d' % (c, n, 6 if quick(tier) else 8, o, k))
QTWO = ('qnode', 'qfixed', 'qcap'); STWO = ('snode', 'sfixed', 'scap'); RTWO = ('rrun', 'rrun8', 'rcap', 'rcap8')
def huge_ring(tier, k, giant=True):
    if giant:
        for n in (2 ** 32 + 16, 2 ** 31 + 16): yield ('n_huge', 'c=giant n=%d k=%d' % (n, k))
    for n in (254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537) + (() if quick(tier) else (131071, 131072)): yield ('n_huge', 'c=ring n=%d k=%d' % (n, k))
    for n in (255, 256, 65535, 65536): yield ('n_huge', 'c=ring ct=1 n=%d k=%d' % (n, k))
def huge_list(tier, k, cont):
    for n in (1, 255, 256, 257, 32768, 65534, 65535, 65536, 70000, 140000): yield ('n_huge', 'c=%s n=%d k=%d' % (cont, n, k))
def gen_C13(tier):
    k = mask('RESULT', 'LIN', 'CAP', 'LEAK', 'STUCK')
    yield from seq_queue(tier, k)
    yield from big_list(tier, k, 'queue')
    yield from huge_list(tier, k, 'queue')
    yield from two(tier, k, QTWO)
    yield from small_list(tier, k, 'queue')
def seq_stack(tier, k):
    q = quick(tier); tcap = 40 if q else 1500
    rg = ranges('sSB', (0, 2, 3)); rg1 = ranges('sSB', (0, 1, 2, 3, 4))
    for n in (0, 1, 2) if q else (0, 1, 2, 3):
        for cfg in ('node', 'nodet'):
            yield Q('ss', cfg, SOPS + 'R1R2r1r2' + rg1, k, n=n, nl=n + 3 + (1 if n < 2 else 0) + (0 if q else 1), mask=1, time=tcap)
            yield Q('ss', cfg, SBAS + 'R1r1' + rg, k, n=n, nl=n + 2, d=10 if q else 18, time=tcap)
            yield Q('ss', cfg, SOPS + 'R1R2r1r2' + rg, k, n=n, nl=n + 3, tw=65531, d=8 if q else 14, time=tcap)
        yield Q('ss_dcas', 'dcas', SBAS + 'R1r1' + rg, k, n=n, nl=n + 2, d=10 if q else 16, time=tcap)
    for cfg, o in [(c, dict(n=n)) for c in ('fixed', 'fixedt') for n in ((0, 1, 2, 3) if q else (0, 1, 2, 3, 4))] + [('cap1', {}), ('cap2t', {}), ('cap3', {})]:
        yield Q('ss', cfg, SOPS + rg1, k, mask=1, time=tcap, **o)
        yield Q('ss', cfg, SOPS + rg1, k, d=14 if q else 26, time=tcap, **o)
        yield Q('ss', cfg, SOPS + rg1, k, tw=65531, d=12 if q else 22, time=tcap, **o)
def gen_C14(tier):
    k = mask('RESULT', 'LIN', 'CAP', 'LEAK', 'STUCK', 'LIFE')
    yield from seq_stack(tier, k)
    yield from big_list(tier, k, 'stack')
    yield from huge_list(tier, k, 'stack')
    yield from two(tier, k, STWO)
    yield from small_list(tier, k, 'stack')
def seq_spsc(tier, k):
    q = quick(tier); tcap = 40 if q else 1500
    for n in (1, 2, 3) + (() if q else (4,)):
        yield Q('sr', 'run', rops(n), k, n=n, time=tcap)
    yield Q('sr', 'run2', rops(4, False), k, n=4, d=8 if q else 14, time=tcap)
    yield Q('sr', 'run', rops(0), k, n=0, time=tcap)
    for n in range(1, 13 if q else 20):
        yield Q('sr', 'runt', rops(n, n < 13), k, n=n, time=tcap)
    for cfg, n in (('cap1', 1), ('cap2', 2), ('cap3', 3), ('cap1t', 1), ('cap2t', 2), ('cap3t', 3), ('cap4t', 4)):
        yield Q('sr', cfg, rops(n), k, time=tcap)
    yield Q('sr', 'cap7', rops(7, False), k, d=6 if q else 9, time=tcap)
def gen_C12(tier):
    k = mask('RESULT', 'LIN', 'CAP', 'LEAK', 'STUCK', 'LIFE')
    yield from huge_ring(tier, k)
    yield from seq_spsc(tier, k)
    yield from big_ring(tier, k)
    yield from two(tier, k, RTWO)
    for t in ('e3', 'e16'):
        for n in list(range(1, 18)) + [31, 32, 33]: yield ('n_ring', 't=%s n=%d k=%d' % (t, n, k))
        for n in (3, 8, 16): yield ('n_ring', 't=%s n=%d ct=1 k=%d' % (t, n, k))
def gen_C15(tier):
    k = mask('RESULT', 'LIN', 'CAP', 'LEAK', 'STUCK', 'LIFE', 'ALLOC')
    q = quick(tier); tcap = 60 if q else 1500
    for fm in (1, 2, 3):
        for fb in (1, 2) if q else (1, 2, 3):
            for n in (0, 1, 2) if q else (0, 1, 2, 3):
                yield Q('sq2', 'nodef', QBAS + 'R1R3r1r2r3', k, n=n, nl=n + 2, mask=1, fm=fm, fb=fb, time=tcap)
                yield Q('ss2', 'nodef', SBAS + 'R1R3r1r2r3' + ranges('sSB', (1, 2, 3)), k, n=n, nl=n + 3, mask=1, fm=fm, fb=fb, time=tcap)
                if n:
                    yield Q('sr2', 'runf', rops(n), k, n=n, fm=fm, fb=fb, time=tcap)
                for tg in ('sq2', 'ss2'):
                    yield Q(tg, 'fixedf', (QBAS if tg == 'sq2' else SBAS + ranges('sSB', (1, 2, 3))), k, n=n, mask=1, fm=fm, fb=fb, time=tcap)
            for tg in ('sq2', 'ss2'):
                yield Q(tg, 'cap2f', (QBAS if tg == 'sq2' else SBAS + ranges('sSB', (1, 2, 3))), k, mask=1, fm=fm, fb=fb, time=tcap)
            for cfg, n in (('cap2f', 2), ('cap3f', 3)):
                yield Q('sr2', cfg, rops(n), k, fm=fm, fb=fb, time=tcap)
            for n in (4, 5) if q else (4, 5, 6, 7):
                yield Q('sr2', 'runf', rops(n), k, n=n, fm=fm, fb=fb, time=tcap)
    yield from big_ring(tier, k, faults=True)
    for c in ('queue', 'stack'): yield from big_list(tier, k, c, faults=True)
def gen_C16(tier):
    yield from gen_C16c(tier)
    k = mask('MAP', 'RESULT', 'LIN', 'CAP', 'STUCK', 'LIFE')
    q = quick(tier); tcap = 60 if q else 1500
    for cfg in ('cap1', 'cap2', 'cap3'):
        yield Q('sq', cfg, QOPS, k, map=2, mask=1, time=tcap)
        yield Q('sq', cfg, QOPS, k, map=2, d=12 if q else 20, time=tcap)
    for cfg in ('cap1', 'cap2t', 'cap3'):
        yield Q('ss', cfg, SOPS + ranges('sSB', (1, 2, 3)), k, map=2, mask=1, time=tcap)
        yield Q('ss', cfg, SOPS + ranges('sSB', (1, 2, 3)), k, map=2, d=10 if q else 18, time=tcap)
    for cfg, n in (('cap1', 1), ('cap2', 2), ('cap3t', 3), ('cap4t', 4)):
        yield Q('sr', cfg, 'upxdU2I2I3U%dP2P%dOcCADZ' % (n + 1, n + 1), k, map=2, time=tcap)
    yield Q('sr', 'cap7', 'upU3U7U9I4P3P7P9OcAZ', k, map=2, d=6 if q else 9, time=tcap)
    for cfg in ('runo', 'runot'):
        for n in (1, 2, 3) if q or cfg == 'runo' else (1, 2, 3, 4, 5):
            for ct in (1, 3): yield Q('sr2', cfg, 'upxdU2I2I3U%dP2P%dOcCADZ' % (n + 1, n + 1), k, n=n, ct=ct, map=2, time=tcap)
def gen_C20(tier):
    k = mask('SRC', 'LEAK', 'LIFE', 'RESULT', 'CAP')
    q = quick(tier); tcap = 60 if q else 1500
    for ct in (0, 1, 3):
        for fm, fb in ((0, 0), (2, 1), (2, 2)):
            for n in (0, 1, 2) if q else (0, 1, 2, 3):
                yield Q('sq2', 'nodea', QBAS + 'R1R2r1r2', k, n=n, nl=min(n + 2, 3), mask=1, ct=ct, fm=fm, fb=fb, time=tcap)
                for cfg in ('nodea', 'nodex'):
                    yield Q('ss2', cfg, SBAS + 'R1R2r1r2' + ranges('sSB', (2, 3)), k, n=n, nl=n + 3, mask=1, ct=ct, fm=fm, fb=fb, time=tcap)
                yield Q('sq2', 'fixeda', QBAS, k, n=n, mask=1, ct=ct, fm=fm, fb=fb, time=tcap)
                yield Q('ss2', 'fixeda', SBAS + ranges('sSB', (2, 3)), k, n=n, mask=1, ct=ct, fm=fm, fb=fb, time=tcap)
                if n:
                    for cfg in ('runa', 'runx', 'runo'): yield Q('sr2', cfg, rops(n), k, n=n, ct=ct, fm=fm, fb=fb, time=tcap)
            yield Q('sq2', 'cap2a', QBAS, k, mask=1, ct=ct, fm=fm, fb=fb, time=tcap)
            yield Q('ss2', 'cap2a', SBAS + ranges('sSB', (2, 3)), k, mask=1, ct=ct, fm=fm, fb=fb, time=tcap)
    yield from two(tier, mask('SRC', 'LEAK'), QTWO + STWO + RTWO)

    yield from big_ring(tier, k, ('e8', 'et'))
    for c in ('queue', 'stack'): yield from big_list(tier, k, c); yield from big_list(tier, k, c, faults=True)
# -------------------------------------------------------------------------------------------------- tagged references, size limits
def gen_C17(tier):
    n_ptr = 1 + 3 * 42 + 42 * 41 // 2
    for lo in range(0, n_ptr, 16):
        yield ('n_tag', 'rep=ptr lo=%d hi=%d pairs=1' % (lo, min(lo + 16, n_ptr)))
    n_ptr = 1 + 3 * 58 + 58 * 57 // 2
    step = 32 if quick(tier) else 16
    for lo in range(0, n_ptr, step):
        yield ('n_tag_dcas', 'rep=ptr lo=%d hi=%d pairs=1' % (lo, min(lo + step, n_ptr)))
    for lo in range(0, 65536, 512):
        yield ('n_tag', 'rep=idx lo=%d hi=%d full=1' % (lo, lo + 512))
def gen_C18(tier):
    for c in ('stack', 'queue'):
        for n in (1, 2, 3, 127, 128, 254, 255, 256, 257, 4095, 4096, 32766, 32767, 32768, 32769, 65533, 65534) + ((65535,) if c == 'stack' else ()):
            yield ('n_size', 'c=%s cap=%d' % (c, n))
        for lo in range(0, 65408, 256): yield ('n_size', 'c=%s lo=%d hi=%d' % (c, lo, lo + 255))
        yield ('n_size', 'c=%s lo=65408 hi=65700' % c)
        for b in list(range(16, 64)):
            for m in (1, 3, 5):
                v = m * 2 ** b
                if v + 20 < 2 ** 64: yield ('n_size', 'c=%s lo=%d hi=%d' % (c, max(v - 20, 65536 - 20), v + 20))
        yield ('n_size', 'c=%s lo=%d hi=%d' % (c, 2 ** 64 - 40, 2 ** 64 - 1))
        for k in range(2, 70): yield ('n_size', 'c=%s lo=%d hi=%d' % (c, k * 65536 - 2, k * 65536 + 2))

# storage policies: every combination, in every order
def gen_C21(tier):
    k = mask('SRC', 'LEAK', 'RESULT', 'CAP', 'ALLOC', 'LIN')
    packs = [''] + [''.join(o) for n in (1, 2, 3) for c in itertools.combinations('CFfA', n) if not {'F', 'f'} <= set(c) for o in itertools.permutations(c)]
    for c in 'qs':
        for p in packs: yield ('n_pol', 'c=%s%s d=%d k=%d' % (c, p, 7 if quick(tier) else 9, k))
    for p in ('r', 'rC', 'rA'): yield ('n_pol', 'c=%s d=%d k=%d' % (p, 7 if quick(tier) else 10, k))

# where elements live: every alignment, size, configuration and placement
ALIGN = (('n_align', ('1,1', '1,3', '1,61', '2,1', '4,1', '8,1', '8,24', '16,1', '64,1', '64,65', '128,1')), ('n_align2', ('256,1', '512,1', '512,513', '1024,1', '2048,1', '4096,1', '128,129', '32,1', '16,40')),
         ('n_align3', ('1,2', '1,4', '2,4', '1,8', '4,8', '8,8', '1,16', '8,16', '4,12')))
def gen_C22(tier, parts=ALIGN):
    k = mask('SRC', 'LEAK', 'RESULT')
    for tg, ts in parts:
        for c in ('q', 'qF', 'qA', 'qFA', 'qC1', 'qC4', 's', 'sF', 'sA', 'sFA', 'sC1', 'sC4', 'r', 'rA', 'rC1', 'rC4'):
            for t in ts: yield (tg, 'c=%s a=%s s=%s d=%d k=%d' % ((c,) + tuple(t.split(',')) + (7 if quick(tier) else 8 if c[0] == 'r' else 10, k)))

# functors that use the container they are called from
def gen_C23(tier):
    k = mask('CAP', 'RESULT', 'LIN', 'LIFE'); q = quick(tier)
    for c in ('q', 'qF', 's', 'sF', 'r'):
        for n in (1, 2, 3) if q else (1, 2, 3, 4): yield ('n_nest', 'c=%s d=%d n=%d k=%d' % (c, {'q': 4, 's': 3 if q else 4, 'r': 5 if q else 6}[c[0]], n, k))
    for c in ('qC1', 'qC3', 'sC1', 'sC3', 'rC1', 'rC3'): yield ('n_nest', 'c=%s d=%d k=%d' % (c, {'q': 4, 's': 3 if q else 4, 'r': 5 if q else 6}[c[0]], k))

# every supported build: the same programs with other compilers, standards, assertion settings, atomics; and with traps on undefined behaviour
def builds(tier):
    q = quick(tier); tcap = 20 if q else 600
    k = mask('LIN', 'STUCK', 'CAP', 'LEAK', 'LIFE', 'NONTERM')
    for tg, cfgs in (('queue', Q_CFG), ('stack', S_CFG)):
        for _, cfg, o in cfgs + [('', 'node', dict(n=0)), ('', 'cap3', {})]:
            for init in ('', 'u'):
                for a, b in pairs(words('up', 1, 2)): yield S(tg, cfg, init, (a, b), k, s=1, time=tcap, **o)
            for a in ('b', 'x', 'c', 'C', 'A', 'D') + (('a', 'v', 'E', 'V', 'r2', 'B2', 'e') if tg == 'stack' else ()):
                for b in ('p', 'up', 'pu'): yield S(tg, cfg, 'u', (a, b), k, time=tcap, **o)
            for a, b in (('up', 'pu'), ('pu', 'pu'), ('u', 'pup')): yield S(tg, cfg, 'u', (a, b), k, tw=65533, time=tcap, **o)
            for th in (('u', 'p', 'p'), ('u', 'u', 'p'), ('up', 'p', 'u')): yield S(tg, cfg, 'u', th, k, p=2 if q else 4, time=tcap, **o)
        for init, a, b in (('', 'up', 'up'), ('u', 'up', 'pu'), ('uu', 'pp', 'xc')): yield S(tg + '_dcas', 'dcas', init, (a, b), k, n=1, s=1, time=tcap)
    for cfg, o in (('nodet', dict(n=1)), ('fixedt', dict(n=2)), ('cap2t', {})):
        for a, b in pairs(('u', 'p', 'cu', 'a', 'v', 'r2', 'A', 'V')): yield S('stack_t', cfg, 'u', (a, b), k, time=tcap, **o)
    for tg, t in (('spsc', ''), ('spsc_t', 't')):
        for cfg, o, cap in (('run', dict(n=2), 2), ('cap2', {}, 2), ('cap3', {}, 3)):
            for tw in range(cap + 1):
                for a in ('uu', 'U3', 'I2', 'uU2', 'wu'):
                    for b in ('pp', 'P3', 'O', 'A', 'cD', 'fp', 'rP2'): yield S(tg, cfg + t, 'u', (a, b), k, tw=tw, time=tcap, **o)
    for r in (8, 256): yield S('free', 'fixed', '', ('aa', 'aW%d' % r), k, p=2, time=tcap, n=2)
def orders(tier):       # with older values (C05) on the optimised build
    k = mask('RACE', 'LIN'); tcap = 20 if quick(tier) else 600
    for tg, cfgs in (('queue', Q_CFG), ('stack', S_CFG)):
        for _, cfg, o in cfgs:
            for init in ('', 'u'):
                for a, b in pairs(('u', 'p', 'up', 'pu') + (('a', 'r2') if tg == 'stack' else ())): yield S(tg, cfg, init, (a, b), k, w=1, time=tcap, **o)
    for cfg, o, cap in (('run', dict(n=2), 2), ('cap2', {}, 2)):
        for tw in range(cap + 1):
            for a in ('uu', 'U3', 'I2'):
                for b in ('pp', 'P3', 'O', 'A'): yield S('spsc', cfg, 'u', (a, b), k, w=1, tw=tw, time=tcap, **o)
def builds_seq(tier):
    k = mask('RESULT', 'LIN', 'CAP', 'LEAK', 'STUCK', 'LIFE', 'AVAIL')
    yield from seq_queue('quick', k); yield from seq_stack('quick', k); yield from seq_spsc('quick', k)
def builds_native(tier):
    k = mask('RESULT', 'LIN', 'CAP', 'LEAK', 'LIFE', 'AVAIL', 'SRC')
    yield from (x for x in big_ring('quick', k, ('e1', 'et')) if 'n=127' not in x[1]); yield from big_list('quick', k, 'queue'); yield from big_list('quick', k, 'stack')
    yield from huge_ring('quick', k, False); yield from huge_list('quick', k, 'queue'); yield from huge_list('quick', k, 'stack')
    yield from gen_C17('quick'); yield from gen_C23('quick'); yield from gen_C22('quick', ALIGN[2:]); yield from two('quick', k, QTWO + STWO + RTWO)
def gen_C24(tier):
    def as_(v, g): return ((t + '@' + v, l) for t, l in g)
    yield from as_('rel', builds(tier)); yield from as_('ub', builds(tier)); yield from as_('rel', orders(tier))
    if not quick(tier): yield from as_('std', builds(tier)); yield from as_('std', orders(tier))
    yield from as_('rel', builds_seq(tier)); yield from as_('ub', builds_seq(tier))
    yield from as_('gnu', builds_native(tier)); yield from as_('ub', builds_native(tier))

# four threads
def four(tier, tg, k, cfgs, p, words=False, **kw):
    C = itertools.combinations_with_replacement; q = quick(tier)
    for cfg, o in cfgs:
        for init in ('', 'u', 'uu'):
            for th in C(('u', 'p'), 4): yield S(tg, cfg, init, th, k, p=p if q else p + 1, time=20 if q else 900, **dict(o, **kw))
        for init in ('u',) if q else ('', 'u', 'uu'):
            if words:
                for th in C(('u', 'p', 'up', 'pu'), 4):
                    if max(map(len, th)) > 1 and (not q or sum(map(len, th)) <= 6): yield S(tg, cfg, init, th, k, p=2 if q else 3, time=20 if q else 900, **dict(o, **kw))
F_CFG = [('node', dict(n=1)), ('cap2', {}), ('fixed', dict(n=2))]
# each property with the enumerators of operation sequences and sizes that bear on it
def also_C01(tier):
    yield from gen_C01(tier)
    yield from big_queue(tier, mask('LIN', 'STUCK'))
    yield from four(tier, 'queue', mask('LIN', 'STUCK'), F_CFG, 3, True)
    k = mask('LIN', 'RESULT')
    yield from seq_queue(tier, k); yield from big_list(tier, k, 'queue'); yield from huge_list(tier, k, 'queue')
def also_C02(tier):
    yield from gen_C02(tier)
    yield from big_stack(tier, mask('LIN', 'STUCK'))
    yield from four(tier, 'stack', mask('LIN', 'STUCK'), F_CFG, 4, True)
    k = mask('LIN', 'RESULT')
    yield from seq_stack(tier, k); yield from big_list(tier, k, 'stack'); yield from huge_list(tier, k, 'stack')
def also_C03(tier):
    yield from gen_C03(tier)
    yield from big_stack(tier, mask('LIN', 'STUCK', 'LEAK'))
    for tg, cfg, o in (('stack', 'node', dict(n=2)), ('stack', 'cap3', {})):
        for a in ('r2', 'a', 'v', 'E', 'V'):
            for th in itertools.combinations_with_replacement(('u', 'p', 'r2', 'a'), 3): yield S(tg, cfg, 'uu', (a,) + th, mask('LIN', 'STUCK', 'LEAK'), p=2 if quick(tier) else 3, time=20 if quick(tier) else 900, **o)
    k = mask('LIN', 'RESULT')
    yield from seq_stack(tier, k); yield from big_list(tier, k, 'stack'); yield from huge_list(tier, k, 'stack')
def also_C04(tier):
    yield from gen_C04(tier)
    yield from big_spsc(tier, mask('LIN', 'STUCK'))
    k = mask('LIN', 'RESULT')
    yield from seq_spsc(tier, k); yield from big_ring(tier, k); yield from huge_ring(tier, k, not quick(tier))
def also_C05(tier):
    yield from gen_C05(tier)
    k = mask('RACE', 'LIN', 'LIFE')
    yield from big_spsc(tier, k, w=1); yield from big_spsc(tier, k, 'spsc_t_big', 'runt', w=1)
    k = mask('LIN', 'RESULT')
    yield from big_ring(tier, k, ('e100', 'ea')); yield from big_list(tier, k, 'queue'); yield from big_list(tier, k, 'stack')
def also_C06(tier):
    yield from gen_C06(tier)
    k = mask('CAP', 'LEAK', 'LIN', 'STUCK')
    yield from big_queue(tier, k); yield from big_stack(tier, k); yield from big_spsc(tier, k)
    for tg in ('queue', 'stack'): yield from four(tier, tg, k, [('cap2', {}), ('fixed', dict(n=2))], 3)
    k = mask('CAP', 'RESULT')
    yield from seq_queue(tier, k); yield from seq_stack(tier, k); yield from seq_spsc(tier, k)
    yield from big_ring(tier, k, ('e8', 'et')); yield from big_list(tier, k, 'queue'); yield from big_list(tier, k, 'stack')
    yield from huge_ring(tier, k, not quick(tier)); yield from huge_list(tier, k, 'queue'); yield from huge_list(tier, k, 'stack')
    yield from two(tier, mask('CAP'), QTWO + STWO + RTWO)
def also_C08(tier):
    yield from gen_C08(tier)
    k = mask('ALLOC', 'LEAK')
    yield from big_queue(tier, k); yield from big_stack(tier, k); yield from big_spsc(tier, k)
    for tg in ('queue', 'stack'): yield from four(tier, tg, k, F_CFG[:1], 3, ar=1)
    yield from seq_queue(tier, k); yield from seq_stack(tier, k); yield from seq_spsc(tier, k)
    yield from big_ring(tier, k, ('e8', 'et')); yield from big_list(tier, k, 'queue'); yield from big_list(tier, k, 'stack')
    yield from two(tier, mask('LEAK', 'SRC'), QTWO + STWO + RTWO)
def also_C09(tier):
    yield from gen_C09(tier)
    k = mask('LIFE')
    yield from big_stack(tier, k, 'stack_t_big', 'nodet'); yield from big_spsc(tier, k, 'spsc_t_big', 'runt')
    yield from big_ring(tier, k, ('et',)); yield from big_list(tier, k, 'stack')
    yield from (x for x in seq_stack(tier, k) if 't ' in x[1][:12]); yield from (x for x in seq_spsc(tier, k) if 't ' in x[1][:12])
    yield from two(tier, k, ('snode', 'sfixed', 'scap', 'rrun', 'rcap'))
def also_C10(tier):
    yield from gen_C10(tier)
    k = mask('NONTERM', 'STUCK', 'LOCK', 'LOCKFREE')
    for tg in ('queue', 'stack'): yield from four(tier, tg, k, F_CFG, 2)
    yield from big_queue(tier, k); yield from big_stack(tier, k)
def also_C11(tier):
    yield from gen_C11(tier)
    yield from big_spsc(tier, mask('WAITFREE', 'NONTERM', 'STUCK', 'LOCK', 'LOCKFREE'), wf=8)
def also_C19(tier):
    yield from gen_C19(tier)
    yield from big_spsc(tier, mask('LIN', 'CAP'))
    k = mask('AVAIL')
    yield from seq_spsc(tier, k); yield from big_ring(tier, k); yield from huge_ring(tier, k, not quick(tier))

PROPS = {
    'C01': dict(gen=also_C01, bounds='2 threads x <=3 operations: all interleavings; 3 threads: <=3-5 preemptions, 4 threads: <=2-4; <=4 spurious compare-exchange failures; version tags also next to their wrap-around; batches and contents up to 33 elements; storage: node-based, run-time fixed, capacity 1-3, compressed and double-width references; single-threaded: all operation sequences and every size 0-17, around 2^8 and 2^16'),
    'C02': dict(gen=also_C02, bounds='2 threads x <=3 operations: all interleavings; 3 threads: <=3-5 preemptions, 4 threads: <=2-4; <=4 spurious compare-exchange failures; version tags also next to their wrap-around; batches and contents up to 33 elements; storage: node-based, run-time fixed, capacity 1-3, compressed and double-width references; single-threaded: all operation sequences and every size 0-17, around 2^8 and 2^16'),
    'C03': dict(gen=also_C03, probe=probes.C03, bounds='2 threads: all interleavings of one batch operation with batches or <=3 single operations; 3 threads: <=3-4 preemptions, 4 threads: <=2; version tags also next to their wrap-around; <=1 spurious failure; ranges of 0-4 elements, contents and ranges up to 33; single-threaded: every fill level and range length of sizes 0-17 and above'),
    'C05': dict(gen=also_C05, bounds='operational C++ model: reads of any older value the model allows (<=2 per execution for spsc and two-thread programs, else 1; thorough: 4 / 2), writes in execution order, no load buffering; 2 threads x <=2 operations: all interleavings; 3 threads: <=2 preemptions (thorough: 3); capacities 1-3, every start position of the ring, batches up to 33 with 1 older read; element bytes checked for happens-before'),
    'C06': dict(gen=also_C06, bounds='single-threaded: all operation sequences (see C12-C14), sizes as in C12-C14, two containers side by side; concurrent: capacities 0-3, every fill level; 2 threads x <=2 operations: all interleavings; 3 threads: <=2 preemptions (thorough: 4); <=1 spurious failure; batches up to 33; fill to refusal and drain at the end of every execution'),
    'C07': dict(gen=gen_C07, bounds='pools of 1-3 nodes; delayed operation against recycling programs of <=6 operations; preemption bound 1-2 for recycling programs, none for 2-thread pool programs; whole-content recycling rounds up to 2^15 between two steps of the delayed operation'),
    'C08': dict(gen=also_C08, bounds='single-threaded: all operation sequences (see C12-C14), sizes as in C12-C14; concurrent: 2 threads x <=2 operations: all interleavings; 3 threads: <=2 preemptions (thorough: 4); <=1 spurious failure; 0-2 preallocated nodes, reserve of 1-2; batches up to 33'),
    'C09': dict(gen=also_C09, probe=probes.C09, bounds='single-threaded: all operation sequences (see C12-C14), sizes as in C12 and C14; concurrent: 2 threads: all interleavings; 3 threads: <=2 preemptions (thorough: 4); every start position and fill level of spsc rings of capacity 1-3; batches up to 33'),
    'C10': dict(gen=also_C10, bounds='2 threads x <=3 operations: all interleavings, 3 threads: <=3 preemptions (thorough: all); batches up to 33; step bound 400 per operation (longest seen is in the evidence)'),
    'C11': dict(gen=also_C11, bounds='one operation against a partner program of >= 12 operations, all interleavings; batches up to 33; at most 8 own atomic accesses per operation and 3 copies per element transferred'),
    'C19': dict(gen=also_C19, bounds='capacities 1-3, every start position and fill level; programs of <=4-5 operations: all interleavings; batches up to 33'),
    'C04': dict(gen=also_C04, bounds='producer program x consumer program of 1-4 operations: all interleavings; capacities 1-3, every start position of the ring, empty / partly filled / full; batches up to 33; single-threaded: every position, fill level, operation and batch size of capacities 1-24 and around powers of two up to 127, rings of up to 2^16+1 (thorough: 2^32+16)'),
    'C12': dict(gen=gen_C12, probe=probes.C12, bounds='all operation sequences to closure of the state space: run-time capacity 0-12 (thorough: 19), compile-time 1-4 and 7 (depth bound 6), batches of 0 to capacity+2; every position, fill level, operation and batch size of capacities 1-24, 31-33, 63, 64, 127 for five element types; rings around 2^8, 2^15, 2^16, 2^31 and 2^32; two rings side by side: all sequences of 6 operations (thorough: 8)'),
    'C13': dict(gen=gen_C13, probe=probes.C13, bounds='all operation sequences, up to version tags to closure (node storage: at most 3-4 nodes), with version tags to depth 8-16 (thorough 14-30), also starting next to the wrap-around of the tag; every fill level, operation and batch size of sizes 0-17 and 31-100; sizes around 2^8 and 2^16; two queues side by side: all sequences of 6 operations (thorough: 8)'),
    'C14': dict(gen=gen_C14, probe=probes.C14, bounds='all operation sequences, up to version tags to closure (node storage: at most 3-6 nodes), with version tags to depth 8-14 (thorough 14-26), also starting next to the wrap-around of the tag; every fill level, operation and batch size of sizes 0-17 and 31-100; sizes around 2^8 and 2^16; two stacks side by side: all sequences of 6 operations (thorough: 8)'),
    'C15': dict(gen=gen_C15, bounds='all operation sequences to closure with every placement of 1-2 faults (thorough: 3): element copies inside pushes, every allocation; capacities 0-5 (thorough 7); one fault at every position of every operation of sizes up to 16'),
    'C16': dict(gen=gen_C16, bounds='two mappings: concurrent programs of 2 threads (one per mapping), <=2 operations, all interleavings, 3 threads <=3 preemptions; all operation sequences to closure with a free choice of mapping per operation; capacities 1-4'),
    'C17': dict(gen=gen_C17, bounds='every version value (2^16; for the double-width form also 2^16 values around every power of two) of every reference with up to two bits set, cleared or a run of ones; every index with every version; the full successor cycle of each'),
    'C18': dict(gen=gen_C18, probe=probes.C18, bounds='all run-time counts 0-65700, around multiples of 2^16 and every power of two up to 2^64-1; compile-time counts at the width boundaries; acceptance by the compiler at the limit'),
    'C21': dict(gen=gen_C21, probe=probes.C21, bounds='all 27 combinations and orders of capacity, fixed_sized<true>, fixed_sized<false> and allocator for queue and stack, the 3 of spsc_queue; sizes 0-3 and around 2^16, both constructors; all sequences of 7 operations (thorough: 9-10)'),
    'C22': dict(gen=gen_C22, probe=probes.C22, bounds='20 element types: alignments 1-4096, sizes 1-1024 and up to the alignment; 16 storage configurations; capacities 1 and 4 with the object at every admissible offset, run-time sizes 1-39; all sequences of 7 operations (thorough: 8-10) on small sizes, fill and drain on all; acceptance by the compiler'),
    'C23': dict(gen=gen_C23, probe=probes.C23, bounds='one thread; sizes 1-3 (thorough: 4), 0-3 elements to start with; all sequences of 3 (stack), 4 (queue), 5 (spsc_queue) operations (thorough: one more) over push, pop and every consume operation with eight nested programs run by the first two functor calls, const and non-const functors'),
    'C24': dict(gen=gen_C24, probe=probes.C24, bounds='builds: clang -O3 C++20 without assertions on (a stand-in for) Boost.Atomic, g++ -O3 C++20 without assertions on Boost.Atomic, clang with a trap on every undefined operation (UBSan); acceptance: g++ and clang, C++14 to C++23, std / Boost.Atomic, without assertions, exceptions and RTTI; in each: 2 threads x <=2 operations all interleavings with <=1 spurious failure, 3 threads <=2 preemptions (thorough: 4), with one older read on the optimised build; all operation sequences and sizes as in C12-C14 and C23'),
    'C20': dict(gen=gen_C20, bounds='all operation sequences to closure, every constructor taking an allocator, every placement of <=2 allocation failures, initial sizes 0-2 (thorough: 3); larger sizes as in C12-C14; two containers with their own allocators side by side: all sequences of 6 operations (thorough: 8)'),
}
