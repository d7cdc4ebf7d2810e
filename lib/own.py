"""Ownership of factory kernels: behaviours of spec/Ownership.tla replayed."""
import seqs

target = ('own', [('own/own.cpp', [], True)])


def run(ck, slots, kernels, depth):
    bs = seqs.generate(ck, 'Ownership', dict(Slots=slots, Kernels=kernels, Depth=depth),
                       ['SPECIFICATION Spec', 'INVARIANTS OneOwner Emit', 'PROPERTY KeptByMap'])
    texts = ['\n'.join('O %s %d %d %d %s' % (c['op'], c['a'], c['b'], len(c['alive']), ' '.join(map(str, c['alive']))) for c in b) for b in bs]
    seqs.replay(ck, 'own', target, texts)


def identities(ck, gens, times):
    """kernels made on several threads at once: IdentitiesGen, judged by IdentitiesTrace"""
    plans = []
    for g in gens:
        plans += seqs.generate(ck, 'IdentitiesGen', g, ['SPECIFICATION Spec', 'INVARIANTS Distinct Emit'], what='%(Threads)d threads' % g)
    plans = plans * times
    texts = ['\n'.join('T %d %s' % (len(t), ' '.join(t)) for t in p) for p in plans]
    obs = seqs.replay(ck, 'own', target, texts, args=(ck.seed,))
    idx = sorted(obs)
    seqs.judge(ck, 'IdentitiesTrace', 'identities', [dict(plan=plans[i], obs=obs[i]) for i in idx], lambda j: texts[idx[j]])
