"""Port tables (C22): declarations enumerated by PortsGen and random ones,
performed on real kernels, judged by PortsTrace."""
import random
import seqs

target = ('ports', [('ports/ports.cpp', [], True)])
SIZE = dict(i=4, d=8, c=1, w=24)


def text(p):
    out = []
    if p['bytes'] is not None:
        out.append('B %d' % p['bytes'])
    out.append('U %d %s' % (len(p['universe']), ' '.join(p['universe'])))
    for c in p['calls']:
        if c['op'] == 'add':
            out.append('A %s %s %d %s' % (c['side'], c['type'], len(c['names']), ' '.join(c['names'])))
        else:
            out.append('I %s %s %d' % (c['side'], c['type'], c['n']))
    out += ['L %s %s' % l for l in p['links']]
    return '\n'.join(out)


def finish(rng, calls, bytes_, names, nlinks):
    uni = sorted(set(names) | {'0', '1', 'zz'})
    links = [(s, n) for s in ('in', 'out') for n in uni]
    declared = {(c['side'], n) for c in calls for n in (c['names'] if c['op'] == 'add' else [str(j) for j in range(c['n'])])}
    rng.shuffle(links)
    links.sort(key=lambda l: l not in declared)
    links = links[:nlinks]
    rng.shuffle(links)
    return dict(calls=calls, bytes=bytes_, universe=uni, links=links)


def random_(rng, big):
    pool = ['a', 'b', 'ab', 'aa', 'a_b', 'B', '0', '1', '2', '10', '01', '-1', 'in', 'out', 'port', 'Port', 'input.0', 'x' * 40, 'x' * 41, 'k' * 16, 'k' * 15]
    pool += ['p%d' % j for j in range(60 if big else 4)] + ['%02d' % j for j in range(20 if big else 2)]
    names = rng.sample(pool, min(len(pool), rng.randrange(2, 60 if big else 12)))
    inplace = rng.random() < .5
    bytes_ = rng.choice([0, 1, 7, 24, 40, 64, 100, 256, rng.randrange(2000)]) if inplace else None
    calls = []
    for _ in range(rng.randrange(2, 40 if big else 8)):
        side = rng.choice(('in', 'out'))
        if inplace and rng.random() < .25:
            calls.append(dict(op='inplace', side=side, type=rng.choice('idcw'), n=rng.choice([0, 1, 2, 3, 5, rng.randrange(1, 14)])))
        else:
            calls.append(dict(op='add', side=side, type=rng.choice('idcwhs'), names=[rng.choice(names) for _ in range(rng.choice((1, 1, 1, 2, 3, 4, 5)))]))
    return finish(rng, calls, bytes_, names, 40 if big else 10)


def run(ck, depth, batch, maxin, nsmall, nbig, only=None):
    rng = random.Random(ck.seed * 7 + 22)
    names = {'a', 'b', '0'}
    gen = seqs.generate(ck, 'PortsGen', dict(Names=names, Types={'i', 'd'}, MaxIn=maxin, Batch=batch, Depth=depth, Bytes=28),
                        ['SPECIFICATION Spec', 'INVARIANTS Divided Emit', 'PROPERTY Stable'])
    ps = [finish(rng, [dict(c, names=list(c['names'])) if c['op'] == 'add' else c for c in b], 28, names, 8) for b in gen]
    ps += [random_(rng, False) for _ in range(nsmall)] + [random_(rng, True) for _ in range(nbig)]
    obs = seqs.replay(ck, 'ports', target, [text(p) for p in ps])
    idx = sorted(obs)
    data = []
    for i in idx:
        p = ps[i]
        data.append(dict(len={t: (p['bytes'] or 0) // s for t, s in SIZE.items()}, universe=p['universe'], calls=p['calls'], obs=obs[i]))
    seqs.judge(ck, 'PortsTrace', 'ports', data, lambda j: text(ps[idx[j]]), only)
