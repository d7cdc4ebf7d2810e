"""Arrays processed in place (C18): plans enumerated by ForEachGen and random
ones, performed by real workers, judged by ForEachTrace."""
import random
import seqs

TYPES = (0, 3, 4, 5, 6, 7, 8)
ONE = ('pop', 'pops', 'peek')


def target(t):
    return 'foreach%d' % t, [('foreach/foreach.cpp', ['-DTYPE=%d' % t], True), ('fifo/track.cpp', ['-O2'], False)]


def text(b):
    return '\n'.join(['F %d %d %s %d' % (b['len'], b['n'], b['how'], b['cls'])] +
                     ['W %d %d %s' % (w + 1, len(p), ' '.join('%s:%d' % (o['op'], o['k']) for o in p)) for w, p in enumerate(b['plan'])])


OPS = ('pop', 'pops', 'popr', 'peek', 'peekr', 'look', 'skip')


def random_(rng, t, len_, n, how):
    plan = [[] for _ in range(n)]
    if how == 'link':
        for p in plan:
            left = len_ // n + len_ % n
            big = rng.random() < .3
            while left > 0 and rng.random() < .95:
                o = rng.choice(OPS)
                k = 1 if o in ONE else rng.randrange(1, (left if big else min(left, 4)) + 2)
                if o == 'look' and p and p[-1]['op'] == 'look':
                    continue
                p.append(dict(op=o, k=k))
                left -= 0 if o == 'look' else min(k, left)
    return dict(len=len_, n=n, how=how, cls=rng.randrange(2), plan=plan)


def run(ck, small, sweep, nbig, types=TYPES, cap=10 ** 6):
    """small: [(len, n)]; sweep: every (length, workers) below"""
    rng = random.Random(ck.seed * 11 + 18)
    enum = []
    for ln, n in small:
        gen = seqs.generate(ck, 'ForEachGen', dict(Len0=ln, N=n, Ops=set(OPS), MaxK=2, Serial=True),
                            ['SPECIFICATION Spec', 'INVARIANTS Once Emit', 'PROPERTY Finishes'], what='%d over %d' % (ln, n))
        enum += [dict(len=ln, n=n, how='link', cls=rng.randrange(2), plan=[list(p) for p in b]) for b in gen]
    # and every order of the workers
    seqs.generate(ck, 'ForEachGen', dict(Len0=4, N=2, Ops=set(OPS) - {'pops', 'popr'}, MaxK=2, Serial=False),
                  ['SPECIFICATION Spec', 'INVARIANTS Once', 'PROPERTY Finishes'], what='interleaved')
    for t in types:
        bs = [b for i, b in enumerate(enum) if ck.tier != 'quick' or t in (0, 7) or i % 3 == t % 3]
        if t not in (0, 7) and len(bs) > cap:
            bs = rng.sample(bs, cap)
        lens, ns = sweep
        for ln in range(lens):
            for n in range(1, ns):
                for how in ('link', 'many') if n > 1 else ('link',):
                    bs.append(random_(rng, t, ln, n, how))
        for _ in range(nbig):
            bs.append(random_(rng, t, rng.choice((rng.randrange(20, 400), 64, 65, 127, 128, 256)), rng.randrange(1, 14), rng.choice(('link', 'link', 'many'))))
        obs = seqs.replay(ck, 'foreach%d' % t, target(t), [text(b) for b in bs], args=(ck.seed,))
        idx = sorted(obs)
        data = [dict(len=bs[i]['len'], n=bs[i]['n'], how=bs[i]['how'], plan=bs[i]['plan'], obs=obs[i]) for i in idx]
        seqs.judge(ck, 'ForEachTrace', 'foreach%d' % t, data, lambda j: text(bs[idx[j]]))
