"""Graphs of kernels: TLC decides which small programs always terminate
(spec/PipelineGen.tla), harness/sys/sys runs programs on the real library, and
every recorded execution is checked against spec/PipelineTrace.tla."""
import concurrent.futures as cf
import itertools, json, random
import build, core, tlc
from fifo_replay import TYPES

EXT = (7, 8)


def target(t):
    return 'sys%d' % t, [('sys/sys.cpp', ['-DTYPE=%d' % t], True), ('fifo/track.cpp', ['-O2'], False)]


# ------------------------------------------------------------------ programs
def prog(kernels, edges, part=0):
    """kernels: [dict(kind, n, b, rs, ws, delay)], edges: [(src, dst, cap)]"""
    ks = [dict(dict(n=0, b=1, rs=0, ws=0, delay=0, map=1), **k) for k in kernels]
    for k in ks:
        k['ins'], k['outs'] = [], []
    es = []
    for i, (a, b, c) in enumerate(edges, 1):
        es.append({'src': a + 1, 'dst': b + 1, 'cap': c, 'sp': len(ks[a]['outs']), 'dp': len(ks[b]['ins'])})
        ks[a]['outs'].append(i)
        ks[b]['ins'].append(i)
    return {'kernels': ks, 'edges': es, 'part': part, 'how': 0}


def text(p, i):
    out = ['P %d %d %d %d %d' % (i, len(p['kernels']), len(p['edges']), p['part'], p['how'])]
    for k in p['kernels']:
        out.append('K %s %d %d %d %d %d %d %d %d' % (k['kind'], len(k['ins']), len(k['outs']), k['n'], k['b'], k['rs'], k['ws'], k['delay'], k['map'] - 1))
    for e in p['edges']:
        out.append('E %d %d %d %d %d' % (e['src'] - 1, e['sp'], e['dst'] - 1, e['dp'], e['cap']))
    return '\n'.join(out) + '\n'


def small(rng, ext=False):
    """a random program of 2 to 4 kernels for TLC to judge"""
    while True:
        n = rng.choice((2, 3, 3, 3, 4))
        edges = []
        for i, j in itertools.combinations(range(n), 2):
            m = rng.choice((0, 1, 1, 2) if n < 4 else (0, 0, 1, 1))
            edges += [(i, j)] * m
        if not edges or len(edges) > 5 or {x for e in edges for x in e} != set(range(n)):
            continue
        rng.shuffle(edges)
        ks = []
        joined = False
        for k in range(n):
            ni = sum(1 for e in edges if e[1] == k)
            no = sum(1 for e in edges if e[0] == k)
            if ni == 0:
                d = dict(kind=rng.choice(('src', 'src', 'late')), n=rng.choice((0, 1, 2, 3)), b=rng.choice((1, 2)))
            else:
                c = ['map', 'map', 'map']
                if ni == 1:
                    c += ['wait']
                    if no > 1:
                        c += ['fan', 'fan', 'split', 'split']
                if ni > 1:
                    c += ['zip', 'zip']
                if ni > 1 and no == 1:
                    c += ['join', 'join']
                if not no or rng.random() < .15:
                    c += ['cut']
                if ni == 1 and no == 1:
                    c += ['fwd', 'fwd', 'drop'] if ext else ['drop']
                d = dict(kind=rng.choice(c), b=rng.choice((1, 2, 3)), n=rng.choice((1, 2)))
                if d['kind'] in ('fwd', 'drop'):
                    d['n'] = rng.randrange(4)
            d['rs'] = rng.randrange(6)
            d['ws'] = rng.choice((0, 1, 2, 3, 4, 6))
            d['delay'] = rng.choice((0, 0, 0, 2, 40))
            ks.append(d)
        cap = rng.choice((1, 1, 2, 0))
        es = [(a, b, cap if rng.random() < .8 else rng.choice((1, 2, 3, 0))) for a, b in edges]
        p = prog(ks, es, rng.randrange(5))
        if any(k['kind'] in ('split', 'join') and any(p['kernels'][p['edges'][e - 1]['dst'] - 1]['kind'] in ('split', 'join') for e in k['outs'])
               for k in p['kernels']):
            continue
        if relayed_twice(p):
            continue
        return p


def roots(p):
    """per edge: which elements it may carry, as a list of (source, {distributor:
    branch}); two of them share no element if a distributor sent them
    different ways"""
    out = {}
    for k, d in enumerate(p['kernels'], 1):
        if not d['ins']:
            mine = [(k, {})]
        elif d['kind'] == 'zip':
            mine = list(out[d['ins'][0]])
        else:
            mine = [x for e in d['ins'] for x in out[e]]
        for j, e in enumerate(d['outs']):
            if d['kind'] in ('fan', 'split') and len(d['outs']) > 1:
                out[e] = [(r, dict(w, **{str(k): j})) for r, w in mine]
            else:
                out[e] = list(mine)
    return out


def twice(xs):
    for i, (r, w) in enumerate(xs):
        for q, v in xs[:i]:
            if q == r and not any(d in v and v[d] != w[d] for d in w):
                return True
    return False


def relayed_twice(p):
    """the same element could come into a split or join twice: the copies
    could not be told apart"""
    r = roots(p)
    return any(k['kind'] in ('split', 'join') and twice([x for e in k['ins'] for x in r[e]]) for k in p['kernels'])


def large(rng, ext=False, fixed=None):
    while True:
        p = large1(rng, ext, fixed)
        if not relayed_twice(p):
            return p


def large1(rng, ext=False, fixed=None):
    """bigger graphs of kernels that always consume what they get: they
    terminate whatever the sizes"""
    ks, es = [], []
    cap = lambda: rng.choice((1, 2, 3, 5, 8, 0, 0)) if fixed is None else rng.choice(fixed)

    def node(**d):
        d.setdefault('rs', rng.randrange(6))
        d.setdefault('ws', rng.choice((0, 0, 1, 2, 3, 4, 6)))
        d.setdefault('b', rng.choice((1, 2, 4, 9)))
        d.setdefault('delay', rng.choice((0, 0, 0, 0, 1, 30)))
        if d['kind'] in ('fwd', 'drop'):
            d.setdefault('n', rng.randrange(4))
        ks.append(d)
        return len(ks) - 1
    n = rng.choice((7, 20, 45))
    ends = [node(kind=rng.choice(('src', 'late')), n=rng.choice((1, n, n + 3))) for _ in range(rng.choice((1, 1, 2, 3)))]
    for _ in range(rng.choice((1, 2, 3, 4))):
        e = rng.choice(ends)
        what = rng.choice(('chain', 'chain', 'sj', 'sj', 'sj', 'bcast', 'merge', 'wait', 'fan') + (('fanjoin',) if ext else ()))
        if what in ('chain', 'wait'):
            k = node(kind=(rng.choice(('fwd', 'fwd', 'drop')) if ext and rng.random() < .7 else 'map' if rng.random() < .8 else 'drop') if what == 'chain' else 'wait')
            es.append((e, k, cap()))
            ends[ends.index(e)] = k
        elif what in ('sj', 'fanjoin'):
            w = rng.choice((2, 2, 2, 3, 3, 4, 4, 11))
            sp = node(kind='split' if what == 'sj' else 'fan')
            es.append((e, sp, cap()))
            jn = node(kind='join')
            br = []
            for _ in range(w):
                m = node(kind='fwd' if ext and rng.random() < .5 else 'map')
                es.append((sp, m, cap()))
                es.append((m, jn, cap()))
                br.append(m)
            out = node(kind='map')
            es.append((jn, out, cap()))
            ends[ends.index(e)] = out
        elif what == 'bcast':
            a, b = node(kind='map'), node(kind='fwd' if ext and rng.random() < .5 else 'map')
            es += [(e, a, cap()), (e, b, cap())]
            ends.remove(e)
            ends += [a, b]
        elif what == 'fan':
            f, a, b = node(kind='fan'), node(kind='map'), node(kind='map')
            es += [(e, f, cap()), (f, a, cap()), (f, b, cap())]
            ends.remove(e)
            ends += [a, b]
        elif what == 'merge' and len(ends) > 1:
            f = rng.choice([x for x in ends if x != e])
            k = node(kind='map')
            es += [(e, k, cap()), (f, k, cap())]
            ends = [x for x in ends if x not in (e, f)] + [k]
    sinks = [x for x in ends]
    # no kernel may end up without a stream; sinks that are sources get one
    for x in sinks:
        if ks[x]['kind'] in ('src', 'late') or ks[x]['kind'] in ('fwd', 'drop') or rng.random() < .5:
            k = node(kind=rng.choice(('map', 'map', 'wait')))
            es.append((x, k, cap()))
    for i, k in enumerate(ks):
        if k['kind'] in ('fwd', 'drop') and sum(1 for e in es if e[0] == i) != 1:
            k['kind'] = 'map'
    return prog(order(ks, es)[0], order(ks, es)[1], rng.randrange(5))


def order(ks, es):
    """kernels in a topological order (the specification needs none, roots() does)"""
    n = len(ks)
    indeg = [0] * n
    for a, b, _ in es:
        indeg[b] += 1
    todo = [i for i in range(n) if not indeg[i]]
    res = []
    while todo:
        x = todo.pop(0)
        res.append(x)
        for a, b, _ in es:
            if a == x:
                indeg[b] -= 1
                if not indeg[b]:
                    todo.append(b)
    pos = {x: i for i, x in enumerate(res)}
    return [ks[x] for x in res], [(pos[a], pos[b], c) for a, b, c in es]


def growing(rng, plain=True):
    """a writer that is held up, or asks for more than there is"""
    kind = rng.choice(('hold', 'ask', 'ask', 'hold2', 'both', 'both') if plain else ('hold', 'hold2', 'both'))
    n = rng.choice((80, 140, 200, 300))
    if kind == 'ask':
        b = rng.choice((70, 128, 128, 130, 200, 256))
        return prog([dict(kind='late', n=n, b=b, ws=5), dict(kind='map', b=rng.choice((1, 9)), rs=rng.randrange(5), ws=rng.randrange(5)), dict(kind='map', b=5)],
                    [(0, 1, 0), (1, 2, rng.choice((0, 3)))], rng.randrange(3))
    if kind == 'both':
        # separate streams: the writers of some are always held up, those of others now and then
        ks, es = [], []
        for i in range(rng.choice((2, 4, 5))):
            if i % 2 == 0 or rng.random() < .5:
                ks += [dict(kind='src', n=150, b=5), dict(kind='hold', n=128, b=9)]
            else:
                ks += [dict(kind='src', n=150, b=rng.choice((1, 40)), delay=rng.choice((0, 400, 2000))), dict(kind='map', b=rng.choice((1, 70)), delay=rng.choice((100, 1000, 4000)))]
            es.append((2 * i, 2 * i + 1, 0))
        return prog(ks, es, rng.randrange(3))
    ks = [dict(kind='src', n=300, b=5, ws=rng.randrange(5)), dict(kind='hold', n=rng.choice((128, 256)), b=9, rs=rng.randrange(5))]
    es = [(0, 1, 0)]
    if kind == 'hold2':
        ks += [dict(kind='map', b=3), dict(kind='map', b=9)]
        es = [(0, 1, 0), (1, 2, rng.choice((2, 0))), (0, 3, rng.choice((4, 100)))]
    return prog(ks, es, rng.randrange(3))


def stopping(rng, ext=False):
    """a kernel that stops on its own while those feeding it go on: the
    streams into it hold all that may still come, so the rest terminates"""
    n = rng.choice((4, 7, 12, 20))
    nin, nout = rng.choice((1, 1, 1, 2)), rng.choice((1, 1, 2))
    ks, es = [], []

    def node(**d):
        d.setdefault('rs', rng.randrange(6))
        d.setdefault('ws', rng.choice((0, 1, 2, 3, 4, 6)))
        d.setdefault('b', rng.choice((1, 1, 2)))
        ks.append(d)
        return len(ks) - 1
    ends = []
    for _ in range(nin):
        s = node(kind=rng.choice(('src', 'src', 'late')), n=n, delay=rng.choice((2, 5, 40)))
        if rng.random() < .4:
            m = node(kind='map', delay=0)
            es.append((s, m, rng.choice((1, 2, 0))))
            s = m
        ends.append(s)
    cut = node(kind='cut', n=rng.choice((1, 1, 2, 3)), delay=rng.choice((0, 0, 3)))
    es += [(e, cut, 64) for e in ends]
    for _ in range(nout):
        k = node(kind=rng.choice(('map', 'wait', 'wait')), delay=0)
        es.append((cut, k, rng.choice((1, 2, 0))))
        if rng.random() < .4:
            x = node(kind=rng.choice(('map', 'wait')), delay=0)
            es.append((k, x, rng.choice((1, 2, 0))))
    ks2, es2 = order(ks, es)
    return prog(ks2, es2, rng.randrange(5))


def looped(rng, ext=False, large=False):
    """a graph with a cycle: elements go round once more and then on; the
    kernel where they meet stops when all have come by. Large ones have room
    for all of them in the cycle, so they terminate"""
    ks, es = [], []

    def node(**d):
        d.setdefault('rs', rng.randrange(6))
        d.setdefault('ws', rng.choice((0, 1, 2, 3, 4, 6)))
        d.setdefault('b', rng.choice((1, 2, 3)))
        d.setdefault('delay', rng.choice((0, 0, 0, 2, 30)))
        ks.append(d)
        return len(ks) - 1
    n = rng.choice((7, 20, 45)) if large else rng.choice((1, 2) if ext else (1, 2, 3))
    cap = lambda: rng.choice((1, 2, 3, 5, 0)) if large else rng.choice((1, 2, 3, 0))
    s = node(kind=rng.choice(('src', 'src', 'late')), n=n)
    l = node(kind='loop', n=n)
    es.append((s, l, cap()))
    at = l
    body, what = [], rng.choice((0, 1, 1, 2, 3)) if large else rng.choice((0, 1, 1, 2))
    for _ in range(min(what, 2)):
        k = node(kind=rng.choice(('map', 'wait', 'fwd', 'fwd') if ext else ('map', 'map', 'wait')), n=0)
        body.append((at, k, cap()))
        at = k
    if what == 3:
        sp, jn = node(kind='split'), node(kind='join')
        body.append((at, sp, cap()))
        for _ in range(2):
            m = node(kind='map')
            body += [(sp, m, cap()), (m, jn, cap())]
        at = jn
    body.append((at, l, cap()))
    out = node(kind=rng.choice(('map', 'wait')))
    es.append((l, out, cap()))
    es += body
    if large:
        i = next(i for i, e in enumerate(es) if e[0] == l and e[1] != out)
        es[i] = es[i][:2] + (rng.choice((50, 64, 100)),)
    if rng.random() < .3:
        k = node(kind='map')
        es.append((out, k, cap()))
    return prog(ks, es, rng.randrange(5))


def both(p, q, how):
    """two maps: executed at the same time (1), or one after the other (2)"""
    ne = len(p['edges'])
    nk = len(p['kernels'])
    ks = p['kernels'] + [dict(k, map=2, ins=[e + ne for e in k['ins']], outs=[e + ne for e in k['outs']]) for k in q['kernels']]
    es = p['edges'] + [dict(e, src=e['src'] + nk, dst=e['dst'] + nk) for e in q['edges']]
    return {'kernels': ks, 'edges': es, 'part': p['part'], 'how': how}


def pairs(rng, ps, n):
    return [both(rng.choice(ps), rng.choice(ps), rng.choice((1, 1, 2))) for _ in range(n if ps else 0)]


def having(make, kinds, rng, n, ext=False):
    """n programs with a kernel of one of these kinds (any if empty)"""
    out = []
    while len(out) < n:
        p = make(rng, ext)
        if not kinds or any(k['kind'] in kinds for k in p['kernels']):
            out.append(p)
    return out


def passing(rng):
    """few objects at a time, many in all: each is handed on or not, or made
    anew by the kernel that got one, so memory is used again all the time"""
    hop = lambda: dict(kind=rng.choice(('drop', 'drop', 'fwd', 'map')), n=rng.randrange(4), b=rng.choice((1, 2)), rs=rng.choice((2, 5, rng.randrange(6))),
                       ws=rng.choice((6, 6, 0, 1)))
    ks = [dict(kind='src', n=rng.choice((16, 25)), b=1)] + [hop() for _ in range(rng.choice((1, 2, 3)))] + [dict(kind='map', rs=rng.choice((0, 2, 2)), b=2)]
    for k in ks:
        if k['kind'] == 'map':
            k['n'] = 0
    return prog(ks, [(i, i + 1, rng.choice((1, 1, 2, 3))) for i in range(len(ks) - 1)], rng.randrange(5))


def check(ck, types, nsmall, nlarge, scheds, kinds=(), grow=0, only=None, ignore=(), cap=400, stop=0, loops=0, two=0, hops=0):
    """the usual mix: small programs TLC has found to terminate always, and
    large ones built to"""
    rng = random.Random(ck.seed * 31 + hash_of(ck.prop))
    sm = {}
    for ext in (False, True):
        ts = [t for t in types if (t in EXT) == ext]
        if ts and nsmall:
            sm[ext] = terminating(ck, having(small, kinds, rng, nsmall, ext) + [looped(rng, ext) for _ in range(2 * loops)])

    def progs(t):
        ps = sm.get(t in EXT, []) + having(large, kinds, rng, nlarge, t in EXT) + [stopping(rng) for _ in range(stop)] + \
            [looped(rng, t in EXT, True) for _ in range(loops)] + [passing(rng) for _ in range(hops)]
        return pairs(rng, ps, two) + ps + \
            [growing(rng, t < 5) for _ in range(grow)]
    run(ck, types, progs, scheds, only=only, ignore=ignore, cap=cap)


def hash_of(x):
    return sum(ord(c) * 7 ** i for i, c in enumerate(x)) % 1000003


# ------------------------------------------------------------------ TLC
def terminating(ck, progs, timeout=600):
    """those that terminate whatever happens"""
    slim = [{'kernels': [{'kind': k['kind'], 'ins': k['ins'], 'outs': k['outs'], 'n': k['n'], 'b': k['b']}
                         for k in p['kernels']],
             'edges': [{'src': e['src'], 'dst': e['dst'], 'cap': e['cap']} for e in p['edges']]} for p in progs]
    res = tlc.run('PipelineGen', None, ['SPECIFICATION Spec', 'INVARIANT Safe', 'CHECK_DEADLOCK FALSE'],
                  files={'programs.json': json.dumps(slim)}, timeout=timeout)
    dead = set(int(l.split()[1]) for l in tlc.printed(res) if l.startswith('DEAD '))
    tlc.drop(res)
    ck.tlc(res)
    ck.log('TLC: %d of %d small programs always terminate (%d states)' % (len(progs) - len(dead), len(progs), res['distinct']))
    ck.add(programs_explored=len(progs), programs_that_can_get_stuck=len(dead))
    return [p for i, p in enumerate(progs, 1) if i not in dead]


def validate(traces, timeout=850, chunk=250):
    """-> {index of a trace: position where it stops being explained}, result"""
    parts = [range(i, min(i + chunk, len(traces))) for i in range(0, len(traces), chunk)]
    several = len(parts) > 2

    def part(r):
        res = tlc.run('PipelineTrace', None, ['SPECIFICATION Spec', 'INVARIANT Sound', 'CHECK_DEADLOCK FALSE'],
                      files={'traces.json': json.dumps([traces[i] for i in r])}, timeout=timeout,
                      workers=2 if several else 8, heap='4g' if several else '6g')
        ok, stuck = set(), {}
        for l in tlc.printed(res):
            w = l.split()
            if w[0] == 'OK':
                ok.add(r[int(w[1]) - 1])
            elif w[0] == 'STUCK':
                stuck[r[int(w[1]) - 1]] = int(w[2])
        tlc.drop(res)
        return {i: stuck.get(i, 0) for i in r if i not in ok}, res
    bad, total = {}, None
    with cf.ThreadPoolExecutor(4 if several else 1) as ex:
        for b, res in ex.map(part, parts):
            bad.update(b)
            if total is None:
                total = res
            else:
                for k in ('generated', 'distinct', 'wall'):
                    total[k] += res[k]
                total['depth'] = max(total['depth'], res['depth'])
    return bad, total


def run(ck, types, progs_of, scheds, ignore=(), only=None, cap=400, jobs=8):
    """progs_of(type) -> list of programs"""
    bins = build.build(dict(target(t) for t in types))
    tmp = tlc._tmp()
    jobs_, progs = [], {}
    for t in types:
        ps = progs_of(t)
        progs[t] = ps
        step = max(1, (len(ps) + 7) // 8)
        for a in range(0, len(ps), step):
            f = '%s/sys-%d-%d-%d.txt' % (tmp, id(ck), t, a)
            with open(f, 'w') as fh:
                fh.write(''.join(text(p, i) for i, p in enumerate(ps[a:a + step])))
            jobs_.append((t, a, f))

    def one(j):
        t, a, f = j
        return j, core.run_cmd([bins['sys%d' % t], f, str(ck.seed + a), str(scheds)], 600)
    traces, origin = [], []
    nruns = 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        for (t, a, f), (rc, out) in ex.map(one, jobs_):
            done = False
            for l in out.splitlines():
                if l.startswith('P '):
                    _, pi, si, ev = l.split(' ', 3)
                    try:
                        ev = json.loads(ev)
                    except ValueError:
                        continue
                    traces.append((t, a + int(pi), int(si), ev))
                elif l.startswith('FAIL '):
                    _, pi, si, kind, what = l.split(' ', 4)
                    if kind in ignore:
                        continue
                    p = progs[t][a + int(pi)]
                    ck.fail('sys/%s' % kind, 'graph of %s kernels, schedule %s: %s: %s' % (TYPES[t], si, kind, what[:300]),
                            text(p, 0) + what + '\n')
                elif l.startswith('DONE '):
                    done = True
                    w = [int(x) for x in l.split()[1:]]
                    nruns += w[0]
                    ck.add(runs=w[0], scheduling_points=w[1], context_switches=w[2], threads=w[3])
            if not done:
                ck.fail('sys/crash', 'harness ended early on %s: rc=%s %s' % (TYPES[t], rc, out[-300:]), out[-3000:])
    ck.log('%d executions of %d programs, %d distinct histories' % (nruns, sum(len(x) for x in progs.values()), len(traces)))
    if not traces:
        return
    if len(traces) > cap:
        step = len(traces) / cap
        traces = [traces[int(i * step)] for i in range(cap)]
    data = [{'p': {'kernels': [{'kind': k['kind'], 'ins': k['ins'], 'outs': k['outs'], 'n': k['n'], 'map': k['map']} for k in progs[t][i]['kernels']],
                   'edges': [{'src': e['src'], 'dst': e['dst'], 'cap': e['cap']} for e in progs[t][i]['edges']]},
             'ev': ev} for t, i, s, ev in traces]
    bad, res = validate(data)
    ck.tlc(res)
    ck.traces += len(traces) - len(bad)
    ck.add(executions_validated=len(traces) - len(bad), events_validated=sum(len(x[3]) for x in traces))
    ck.add(streams_grown=sum(1 for x in traces for e in x[3] if e['k'] == 'h'), activations=sum(1 for x in traces for e in x[3] if e['k'] == 'a'))
    ck.log('TLC explained %d of %d executions (%d states, %.0f s)' % (len(traces) - len(bad), len(traces), res['distinct'], res['wall']))
    ck.sample({'program': text(progs[traces[0][0]][traces[0][1]], 0).split('\n'), 'history': [json.dumps(e) for e in traces[0][3][:6]]})
    for b in sorted(bad)[:4]:
        t, i, s, ev = traces[b]
        at = bad[b]
        what = json.dumps(ev[at - 1]) if 0 < at <= len(ev) else 'the end'
        kind = ev[at - 1]['k'] if 0 < at <= len(ev) else 'end'
        if only and kind not in only:
            continue
        ck.fail('sys/rejected-%s' % kind, 'graph of %s kernels: execution not explained by the specification at event %d: %s' % (TYPES[t], at, what),
                text(progs[t][i], 0) + '\n'.join('%s%d %s' % ('>>> ' if j == at else '', j, json.dumps(e)) for j, e in enumerate(ev, 1)) + '\nschedule %d\n' % s)
