"""Model-generated behaviours of one stream, replayed on the real FIFO."""
import concurrent.futures as cf
import os
import build, core, replay, tlc

TYPES = {0: 'int', 1: 'bool', 2: 'char', 3: 'double', 4: 'Pod (array in a struct)', 5: 'Tracked class',
         6: 'std::string', 7: 'Big (heap held)', 8: 'BigTracked (heap held class)'}
FORBID = {t: (set() if t < 5 else {'allocr'}) for t in TYPES}

W_ALL = {'push', 'pushm', 'insl', 'insv', 'alloc', 'allocr', 'send', 'sendr', 'dealloc', 'allocs', 'close'}
R_ALL = {'pop', 'popn', 'pops', 'popr', 'peek', 'peekr', 'recycle'}


def target(t):
    return 'replay%d' % t, [('fifo/replay.cpp', ['-DTYPE=%d' % t], True), ('fifo/track.cpp', ['-O2'], False)]


def run(ck, types, configs, ignore=(), seeds=1, walklen=200):
    """configs: list of dicts of StreamReplay constants"""
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(lambda: build.build(dict(target(t) for t in types)))
        graphs = []
        for c in configs:
            c = dict(dict(Cap=2, Sigs={0}, WOps=W_ALL, ROps=R_ALL, ZOps=set(), RCaps={3}, MaxN=2), **c)
            res = tlc.run('StreamReplay', c, workers=8 if len(configs) == 1 else 4)
            ck.tlc(res)
            g = replay.load(res, c['Cap'])
            tlc.drop(res)
            graphs.append((c, g))
            ck.log('TLC: %d states %d transitions (Cap=%d MaxN=%d)' % (res['distinct'], len(g.edges), c['Cap'], c['MaxN']))
        bins = fb.result()
    ck.log('built', len(bins), 'replay drivers')
    work = '%s/tmp/%s-%d' % (build.BUILD, ck.prop, os.getpid())
    os.makedirs(work, exist_ok=True)
    jobs = []
    for gi, (c, g) in enumerate(graphs):
        groups = {}
        for t in types:
            groups.setdefault(frozenset(FORBID[t]), []).append(t)
        for fi, (f, ts) in enumerate(sorted(groups.items(), key=str)):
            for s in range(seeds):
                seed = ck.seed + s
                ws, covered, total = replay.walks(g, lambda L: L.op not in f, walklen, seed)
                path = '%s/g%d-f%d-s%d.txt' % (work, gi, fi, s)
                replay.script(g, ws, c['Cap'], path)
                ck.add(transitions_replayed=covered)
                for t in ts:
                    jobs.append((t, path, len(ws), seed))
                if ws:
                    ck.sample({'walk': [describe(g.edges[e][2]) for e in ws[0][:12]]})

    def one(j):
        t, path, n, seed = j
        # big scripts are run in slices so that all processors are used
        rc, out = core.run_cmd([bins['replay%d' % t], path, str(seed), '0', str(n)], 600)
        return j, rc, out
    with cf.ThreadPoolExecutor(8) as ex:
        for (t, path, n, seed), rc, out in ex.map(one, jobs):
            done = [l for l in out.splitlines() if l.startswith('DONE ')]
            if rc != 0 or not done:
                ck.fail('replay/%s/abnormal' % TYPES[t], 'replay driver for %s ended abnormally (%s): %s' % (TYPES[t], rc, out[-500:]))
                continue
            _, w, steps, points, sw = done[0].split()
            ck.traces += int(w)
            ck.add(steps_replayed=int(steps), scheduling_points=int(points), context_switches=int(sw))
            for l in out.splitlines():
                if not l.startswith('FAIL '):
                    continue
                _, wk, line, kind, detail = (l.split(' ', 4) + [''])[:5]
                if kind in ignore:
                    continue
                ck.fail('replay/%s' % kind, 'element type %s: %s: %s' % (TYPES[t], kind, detail),
                        excerpt(path, int(wk), int(line)) +
                        '\nreplay with: %s <script> %d 0 1\n' % (bins['replay%d' % t], seed))
    for f in os.listdir(work):
        os.unlink(work + '/' + f)
    os.rmdir(work)


def describe(L):
    return '%s:%s%s%s -> %s' % (L.who, L.op, tuple(L.a), ' signal' if L.s else '',
                                {'w': L.wx, 'r': L.rx, 'z': L.zx}[L.who])


def excerpt(path, walk, line):
    out, w = [], -1
    with open(path) as fh:
        for i, l in enumerate(fh, 1):
            if l.startswith('N '):
                w += 1
            if w == walk and (line == 0 or i <= line):
                out.append(l)
            if w > walk:
                break
    return ''.join(out)
