"""Placement (C23): programs enumerated by PlacementGen and random ones, run on
the simulator with a recording stand-in for raft::affinity, judged by PlacementTrace."""
import random
import seqs

target = ('place', [('place/place.cpp', [], True)])
LETTER = dict(core='c', group='g', mark='m')
MODS = [dict(m='core', v=0), dict(m='core', v=1), dict(m='core', v=3), dict(m='group', v=1), dict(m='group', v=2), dict(m='mark', v=7)]


def text(p):
    out = ['G %d %d %s' % (p['n'], p['items'], ' '.join(map(str, p['parent'])))]
    for c in p['calls']:
        if c['op'] == 'bind':
            out.append('B %d %s %d %s' % (len(c['mods']), ' '.join(LETTER[m['m']] + str(m['v']) for m in c['mods']), len(c['ks']), ' '.join(map(str, c['ks']))))
        elif c['op'] == 'core':
            out.append('C %d %d' % (c['k'], c['v']))
        else:
            out.append('X %s %d' % (c['part'], c['cores']))
    return '\n'.join(out)


def tree(rng, n):
    """every kernel is connected: kernel 1 is a source, further ones have a child"""
    while True:
        parent = [0] + [rng.choice([0] * (rng.random() < .2) + list(range(max(1, k - rng.choice((1, 2, 9))), k))) for k in range(2, n + 1)]
        if all(parent[k - 1] or k in parent for k in range(1, n + 1)):
            return parent


def random_(rng):
    n = rng.choice((2, 3, 4, 5, 6, 7, 8, 9, 12, 16))
    calls = []
    for _ in range(rng.randrange(5)):
        if rng.random() < .7:
            calls.append(dict(op='bind', mods=[rng.choice(MODS) for _ in range(rng.randrange(4))], ks=[rng.randrange(1, n + 1) for _ in range(rng.randrange(4))]))
        else:
            calls.append(dict(op='core', k=rng.randrange(1, n + 1), v=rng.choice((-1, 0, 1, 2, 5, 63))))
    calls.append(dict(op='exe', part=rng.choice(('default', 'dummy', 'basic', 'basic', 'own')), cores=rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 64))))
    return dict(n=n, items=rng.choice((0, 1, 3, 9, 70)), parent=tree(rng, n), calls=calls)


def run(ck, gens, nrandom, only=None):
    rng = random.Random(ck.seed * 13 + 23)
    ps = []
    for g in gens:
        for b in seqs.generate(ck, 'PlacementGen', g, ['SPECIFICATION Spec', 'INVARIANTS Feasible Emit', 'PROPERTY OnlyBound', 'VIEW View']):
            ps.append(dict(n=g['N'], items=rng.choice((1, 2, 5)), parent=tree(rng, g['N']), calls=b))
    ps += [random_(rng) for _ in range(nrandom)]
    obs = seqs.replay(ck, 'place', target, [text(p) for p in ps], args=[ck.seed])
    idx = sorted(obs)
    data = [dict(n=ps[i]['n'], parent=ps[i]['parent'], items=ps[i]['items'], calls=ps[i]['calls'], obs=obs[i]) for i in idx]
    seqs.judge(ck, 'PlacementTrace', 'place', data, lambda j: text(ps[idx[j]]), only)
