"""raft::range (C24): ranges enumerated by RangesGen and random ones, computed
by the real function in many types and places, judged by RangesTrace."""
import random
import seqs

target = ('ranges', [('ranges/ranges.cpp', [], False)])


def text(p):
    return 'R %d %d %d' % (p['a'], p['b'], p['d'])


def run(ck, far, step, nrandom):
    rng = random.Random(ck.seed * 17 + 24)
    ps = seqs.generate(ck, 'RangesGen', dict(Far=far, MaxStep=step),
                       ['SPECIFICATION Spec', 'INVARIANTS Inside Even Closed Emit', 'PROPERTY Ends_'])
    for _ in range(nrandom):
        n = rng.choice((3, 20, 100, 100, 1000))
        ps.append(dict(a=rng.randrange(-n, n + 1), b=rng.randrange(-n, n + 1), d=rng.randrange(1, max(2, rng.choice((2, n // 2, n, 3 * n))))))
    obs = seqs.replay(ck, 'ranges', target, [text(p) for p in ps])
    idx = sorted(obs)
    seqs.judge(ck, 'RangesTrace', 'ranges', [dict(ps[i], obs=obs[i]) for i in idx], lambda j: text(ps[idx[j]]))
