"""Files read in chunks and searched (C21): those enumerated by ChunksGen and
random larger ones, given to the real kernels, judged by ChunksTrace."""
import os, random, shutil, tempfile
import seqs, tlc

target = ('chunks', [('chunks/chunks.cpp', [], True)])
# large files, fewer scheduling points
big_target = ('chunksbig', [('chunks/chunks.cpp', ['-O2'], False)])
SIZES = (2, 3, 4, 5, 6, 7, 9, 17, 33, 40, 41, 65, 100, 512)
HOW = ('pop', 'pops', 'peek', 'iter', 'fwd')


def text(b):
    return '\n'.join(['F %d %d %d %d %s' % (b['pay'] + 1, b['ov'], b['ports'], b['cap'], b['how']), 'D ' + b['file'] if 'len' not in b else 'L %d' % b['len']] + (['T ' + b['term']] if b['term'] else []))


def letters(rng, n, few):
    return ''.join(rng.choice('ab' if few else 'abcdefghijklmnopqrstuvwxyz01') for _ in range(n))


def random_(rng, size=None):
    size = size or rng.choice(SIZES)
    pay = size - 1
    ov = rng.choice([0, 0, 1, pay // 2, pay - 1, rng.randrange(pay)])
    ov = min(ov, pay - 1)
    stride = pay - ov
    # around the ends of chunks
    n = rng.choice([0, 1, pay - 1, pay, pay + 1, pay + stride, pay + stride - 1, pay + stride + 1, pay + 3 * stride, pay + 3 * stride + 1, rng.randrange(pay * 6 + 2)])
    # what is read in total is bounded, simulated threads are slow
    n = min(n, pay + max(1, min(60, 3000 // pay)) * stride)
    few = rng.random() < .5
    file = letters(rng, n, few)
    how = rng.choice(HOW + ('search',) * 6)
    term = ''
    if how == 'search':
        m = rng.choice([ov + 1, ov + 1, max(1, ov), 1, 2, 3, rng.randrange(1, pay + 2)])
        m = max(1, min(m, 12 if few else 200))
        term = letters(rng, m, few)
        if file and rng.random() < .8:
            # an occurrence across the end of a chunk
            for _ in range(rng.randrange(1, 4)):
                k = rng.randrange(0, max(1, (n - pay) // stride + 1))
                at = max(0, min(n - m, k * stride + pay - rng.randrange(0, m + 1)))
                if n >= m:
                    file = file[:at] + term + file[at + m:]
        if n >= m and rng.random() < .2:
            file = (file[:n - m] + term)
        if n >= m and rng.random() < .2:
            file = term + file[m:]
    return dict(file=file, pay=pay, ov=ov, ports=rng.choice((1, 1, 1, 2, 3, 5)), cap=rng.choice((0, 0, 1, 2, 4)), how=how, term=term)


def run(ck, gens, per, nrand):
    """gens: constants of ChunksGen; per: executions for each file, size and overlap"""
    rng = random.Random(ck.seed * 5 + 21)
    bs = []
    for g in gens:
        for x in seqs.generate(ck, 'ChunksGen', g, ['SPECIFICATION Spec', 'INVARIANTS Covers Shape Finds Emit', 'PROPERTY Ends']):
            x['file'] = ''.join(x['file'])
            if x['pay'] + 1 not in SIZES:
                continue
            for _ in range(per):
                how = rng.choice(HOW + ('search',) * 3)
                term = ''
                if how == 'search':
                    f = x['file']
                    m = rng.randrange(1, g['MaxTerm'] + 1)
                    a = rng.randrange(len(f) - m + 1) if len(f) >= m else 0
                    term = f[a:a + m] if len(f) >= m and rng.random() < .8 else letters(rng, m, True)
                bs.append(dict(x, ports=rng.choice((1, 1, 2, 3)), cap=rng.choice((0, 1, 2)), how=how, term=term))
    bs += [random_(rng) for _ in range(nrand)]
    # where single precision arithmetic goes wrong
    big = [dict(len=(1 << 24) + k, file='', pay=4096, ov=o, ports=p, cap=64, how='peek', term='') for k, o, p in ((1, 0, 1), (4097, 0, 2), (1, 2048, 2), (4097, 2048, 1))]
    scratch = tempfile.mkdtemp(prefix='chunks-', dir=tlc._tmp())
    try:
        obs = seqs.replay(ck, 'chunks', target, [text(b) for b in bs], args=(ck.seed, scratch))
        obsbig = seqs.replay(ck, 'chunksbig', big_target, [text(b) for b in big], args=(ck.seed, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    idx = sorted(obs)
    ALL = [bs[i] for i in idx] + [big[i] for i in sorted(obsbig)]
    obss = [obs[i] for i in idx] + [obsbig[i] for i in sorted(obsbig)]
    data = [dict(file=b['file'], len=b.get('len', len(b['file'])), pay=b['pay'], ov=b['ov'], ports=b['ports'], term=b['term'], obs=o) for b, o in zip(ALL, obss)]
    seqs.judge(ck, 'ChunksTrace', 'chunks', data, lambda j: text(ALL[j]))
