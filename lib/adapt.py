"""The ready-made kernels (C20): batches enumerated by AdaptorsGen and random
longer ones, carried by the real kernels, explained by AdaptorsTrace."""
import concurrent.futures as cf
import json, random
import seqs, tlc

ARITH = (0,)
TYPES = (0, 3, 4, 5, 6, 7, 8)
DELIM = ('', ' ', '\n', ',')


def target(t):
    return 'adapt%d' % t, [('adapt/adapt.cpp', ['-DTYPE=%d' % t], True), ('fifo/track.cpp', ['-O2'], False)]


def text(b):
    out = ['P %d %s %s %s %s %d %d %d' % (b['k'], b['src'], b['cont'], b['stages'] or '-', b['sink'], b['delim'], b['how'], b['cap'])]
    for x in b['batches']:
        out.append('B')
        out += ['E %d %s' % (i, ' '.join(map(str, s))) for i, s in enumerate(x) if s]
    return '\n'.join(out)


def flat(batches, k):
    return [[sum((b[i] for b in batches), []) for i in range(k)]]


def make(rng, batches, k, arith=False):
    src = rng.choice(('feed', 'feed', 'read', 'read', 'lambda', 'random'))
    stages = ''.join(rng.choice('emp') for _ in range(rng.choice((0, 0, 1, 2))))
    if rng.random() < .15:
        stages = 't' + stages
    if src != 'feed' or stages:
        batches = flat(batches, k)
    if arith and k < 4 and rng.random() < .15:
        # together: streams of the same length, small numbers
        n = min(len(s) for s in flat(batches, k)[0])
        few = [[[e % 97 for e in s[:n]] for s in flat(batches, k)[0]]]
        return dict(k=k, src=rng.choice(('feed', 'lambda')), cont='vector', stages='', sink=rng.choice(('sum', 'mult')), delim=0, how=0, cap=rng.choice((0, 1, 2)), batches=few)
    return dict(k=k, src=src, cont=rng.choice(('vector', 'list', 'array', 'stream')), stages=stages,
                sink=rng.choice(('print', 'print', 'back', 'list', 'array', 'select', 'lambda') if k < 5 else ('print', 'back', 'list', 'array', 'lambda')),
                delim=rng.randrange(4), how=rng.choice((0, 1, 2, 3, 4, 5) if k == 1 else (0, 1, 2, 3)), cap=rng.choice((0, 1, 2, 4)), batches=batches)


def random_(rng, arith=False):
    k = rng.choice((1, 1, 2, 3, 4, 6))
    at = [10000 * (i + 1) for i in range(k)]
    batches = []
    for _ in range(rng.choice((1, 1, 2, 4, 8))):
        b = []
        for i in range(k):
            n = rng.choice((0, 1, 2, 3, rng.randrange(12), rng.randrange(120)))
            b.append([at[i] + j + 1 for j in range(n)])
            at[i] += n
        batches.append(b)
    return make(rng, batches, k, arith)


def judge(ck, name, data, describe, chunk=1500):
    """every result needs an OK from TLC"""
    parts = [range(a, min(len(data), a + chunk)) for a in range(0, len(data), chunk)]
    bad = 0

    def one(r):
        return tlc.run('AdaptorsTrace', {}, ['SPECIFICATION Spec', 'INVARIANT Judge', 'CHECK_DEADLOCK FALSE'],
                       files={'results.json': json.dumps([data[j] for j in r])}, timeout=800, workers=4 if len(parts) > 1 else 8)
    with cf.ThreadPoolExecutor(2) as ex:
        for r, res in zip(parts, ex.map(one, parts)):
            ck.tlc(res)
            ok = {r[int(l.split()[1]) - 1] for l in tlc.printed(res) if l.startswith('OK ')}
            tlc.drop(res)
            for j in r:
                if j in ok:
                    continue
                bad += 1
                if bad <= 8:
                    ck.fail(name + '/sequence', 'not what was put in: %s' % describe(j)[:300].replace('\n', ' | '), describe(j) + '\n' + json.dumps(data[j]) + '\n')
    ck.add(observations_judged=len(data))
    ck.log('TLC (AdaptorsTrace) explained %d of %d' % (len(data) - bad, len(data)))


def run(ck, gens, per, nrand, types=TYPES):
    """gens: constants of AdaptorsGen; per: graphs for each of its batches"""
    rng = random.Random(ck.seed * 3 + 20)
    base = []
    for g in gens:
        for b in seqs.generate(ck, 'AdaptorsGen', g, ['SPECIFICATION Spec', 'INVARIANTS InOrder Batched Emit', 'PROPERTY Complete'], what='%(K)d streams' % g):
            base.append((g['K'], b))
    for t in types:
        bs = [make(rng, b, k, t in ARITH) for k, b in base for _ in range(per)] + [random_(rng, t in ARITH) for _ in range(nrand)]
        obs = seqs.replay(ck, 'adapt%d' % t, target(t), [text(b) for b in bs], args=(ck.seed,))
        idx = sorted(obs)
        data = [dict(k=bs[i]['k'], batches=bs[i]['batches'], stages=len(bs[i]['stages']), delim=DELIM[bs[i]['delim']],
                     text=bs[i]['sink'] == 'print', op=bs[i]['sink'] if bs[i]['sink'] in ('sum', 'mult') else '', obs=obs[i]) for i in idx]
        judge(ck, 'adapt%d' % t, data, lambda j: text(bs[idx[j]]))
