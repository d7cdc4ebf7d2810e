"""One function per property."""
import random
import adapt
import chunks
import fifo_replay as fr
import fifo_trace as ft
import foreach as fe
import own
import place
import ports
import ranges
import sys_trace as st
import tlc
import topo

SCHED = ('interleavings are those of a simulator that switches threads at memory accesses, half of them '
         'with the store buffers of x86 processors; weaker memory reorderings are not explored')
W, R = fr.W_ALL, fr.R_ALL
CLASSY = (5, 6, 7, 8)


def c01(ck):
    ck.assumptions.append(SCHED)
    ign = {'signal', 'blocked', 'live', 'leak'}
    if ck.quick:
        fr.run(ck, range(9), [dict(Cap=3, MaxN=3), dict(Cap=1, MaxN=2)], ignore=ign, seeds=2)
        ft.run(ck, range(9), 10, 32, (0,), ignore=ign, big=(4, 6, (0, 2, 4, 6, 8)))
    else:
        fr.run(ck, range(9), [dict(Cap=3, MaxN=4), dict(Cap=1, MaxN=3), dict(Cap=4, MaxN=3), dict(Cap=2, MaxN=5)], ignore=ign, seeds=4)
        ft.run(ck, range(9), 120, 200, (0, 1), ignore=ign, big=(10, 10, range(9)))


def c02(ck):
    ck.assumptions.append(SCHED)
    ign = {'blocked', 'live', 'leak', 'size', 'room'}
    wo = {'push', 'pushm', 'insl', 'insv', 'alloc', 'allocr', 'allocs', 'send', 'sendr'}
    if ck.quick:
        fr.run(ck, range(9), [dict(Cap=2, MaxN=3, Sigs={0, 1}, WOps=wo),
                              dict(Cap=2, MaxN=2, Sigs={0, 1}, ZOps={'resize'}, RCaps={3}, WOps={'push', 'insv', 'allocr', 'sendr'},
                                   ROps={'pop', 'peekr', 'pops', 'popr', 'recycle'})], ignore=ign)
        ft.run(ck, (0, 1, 5, 7), 8, 24, (0, 1), ignore=ign, big=(3, 5, (3, 5, 7)))
    else:
        fr.run(ck, range(9), [dict(Cap=3, MaxN=3, Sigs={0, 1}, WOps=wo), dict(Cap=2, MaxN=4, Sigs={0, 1}, WOps=wo), dict(Cap=1, MaxN=3, Sigs={0, 1}),
                              dict(Cap=2, MaxN=3, Sigs={0, 1}, ZOps={'resize'}, RCaps={3, 4})], ignore=ign, seeds=2)
        ft.run(ck, range(9), 60, 60, (0, 1), ignore=ign, big=(10, 10, range(9)))


def c03(ck):
    ck.assumptions.append(SCHED)
    ign = {'signal', 'blocked', 'live', 'leak'}
    if ck.quick:
        fr.run(ck, (0, 1, 5, 6, 7, 8), [dict(Cap=2, MaxN=4), dict(Cap=1, MaxN=2), dict(Cap=3, MaxN=2)], ignore=ign)
        ft.run(ck, (0, 5, 8), 60, 32, (0, 1), ignore=ign, big=(4, 5, (1, 4, 8)))
    else:
        fr.run(ck, range(9), [dict(Cap=3, MaxN=5), dict(Cap=1, MaxN=4), dict(Cap=4, MaxN=4), dict(Cap=2, MaxN=6)], ignore=ign, seeds=3)
        ft.run(ck, range(9), 120, 200, (0, 1), ignore=ign, big=(10, 10, range(9)))


def c04(ck):
    ck.assumptions.append(SCHED)
    ign = {'signal', 'blocked', 'live', 'leak'}
    wo = {'push', 'insv', 'alloc', 'allocr', 'allocs', 'send', 'sendr', 'close'}
    if ck.quick:
        fr.run(ck, (0, 1, 4, 5, 6, 7, 8), [dict(Cap=3, MaxN=3, WOps=wo), dict(Cap=1, MaxN=2)], ignore=ign, seeds=3)
        ft.run(ck, (0, 6, 8), 24, 48, (0, 1), ignore=ign, big=(4, 5, (0, 6)))
    else:
        fr.run(ck, range(9), [dict(Cap=3, MaxN=4), dict(Cap=1, MaxN=3), dict(Cap=4, MaxN=5, WOps=wo)], ignore=ign, seeds=6)
        ft.run(ck, range(9), 120, 300, (0, 1), ignore=ign, big=(10, 10, range(9)))


def c05(ck):
    ck.assumptions.append(SCHED)
    ign = {'blocked'}
    wo = {'push', 'insl', 'allocr', 'sendr', 'allocs', 'close'}
    ro = {'pop', 'pops', 'peek', 'peekr', 'recycle'}
    if ck.quick:
        fr.run(ck, range(9), [dict(Cap=3, MaxN=3, WOps=wo, ROps=ro), dict(Cap=2, MaxN=2, WOps=wo, ROps=ro, Sigs={0, 1})], ignore=ign)
        ft.run(ck, (0, 5, 7), 12, 24, (0,), ignore=ign, big=(4, 5, (4, 6, 7)))
    else:
        fr.run(ck, range(9), [dict(Cap=4, MaxN=5, WOps=wo, ROps=ro), dict(Cap=3, MaxN=3, WOps=wo, ROps=ro, Sigs={0, 1}),
                              dict(Cap=1, MaxN=3, ROps=ro)], ignore=ign, seeds=3)
        ft.run(ck, range(9), 60, 60, (0, 1), ignore=ign, big=(10, 10, range(9)))


def c06(ck):
    ck.assumptions.append(SCHED)
    ign = {'blocked'}
    wo = {'push', 'insv', 'alloc', 'allocr', 'allocs', 'send', 'sendr', 'dealloc'}
    ro = {'pop', 'peek', 'peekr', 'recycle'}
    if ck.quick:
        fr.run(ck, range(9), [dict(Cap=3, MaxN=3, WOps=wo, ROps=ro), dict(Cap=2, MaxN=2, WOps=wo, ROps=ro, Sigs={0, 1})], ignore=ign)
        ft.run(ck, (0, 5, 7), 12, 24, (0,), ignore=ign, first=100, big=(4, 5, (2, 4, 8)))
    else:
        fr.run(ck, range(9), [dict(Cap=4, MaxN=5, WOps=wo, ROps=ro), dict(Cap=3, MaxN=3, WOps=wo, ROps=ro, Sigs={0, 1}),
                              dict(Cap=1, MaxN=3, WOps=wo, ROps=ro)], ignore=ign, seeds=3)
        ft.run(ck, range(9), 60, 60, (0, 1), ignore=ign, first=1000, big=(10, 10, range(9)))


def c07(ck):
    ck.assumptions.append(SCHED)
    ign = {'blocked', 'signal'}
    if ck.quick:
        fr.run(ck, CLASSY, [dict(Cap=3, MaxN=3), dict(Cap=1, MaxN=2),
                            dict(Cap=2, MaxN=2, ZOps={'resize'}, RCaps={3}, WOps={'push', 'insl', 'alloc', 'send', 'dealloc', 'allocs'})], ignore=ign)
        ft.run(ck, CLASSY, 12, 24, (0, 1), ignore=ign, big=(3, 5, CLASSY))
    else:
        fr.run(ck, CLASSY, [dict(Cap=3, MaxN=4), dict(Cap=1, MaxN=3), dict(Cap=4, MaxN=3),
                            dict(Cap=2, MaxN=3, ZOps={'resize'}, RCaps={3, 4})], ignore=ign, seeds=4)
        ft.run(ck, CLASSY, 150, 200, (0, 1), ignore=ign, big=(20, 20, CLASSY))


def ring(ck, sizes):
    """the algorithm of the ring and its resize under store buffers; without
    the fences the specification has to find the lost elements"""
    for first, grow, resizes, n in sizes:
        c = dict(First=first, Grow=grow, Resizes=resizes, N=n)
        lines = ['SPECIFICATION Spec', 'INVARIANTS Sound Ends', 'CHECK_DEADLOCK FALSE']
        res = tlc.run('RingTSO', dict(c, Fenced=True), lines, timeout=800)
        ck.tlc(res)
        ck.log('TLC (RingTSO %s): %d states' % (c, res['distinct']))
        tlc.drop(res)
        if not ck.quick:
            res = tlc.run('RingTSO', dict(c, Fenced=False), lines, timeout=800, expect_ok=False)
            if 'Invariant Sound is violated' not in res['tail']:
                raise RuntimeError('RingTSO proves too much: %s' % res['tail'][-500:])
            tlc.drop(res)


def c09(ck):
    ck.assumptions.append(SCHED)
    ring(ck, [(1, 1, 1, 3)] if ck.quick else [(1, 1, 1, 5), (2, 1, 1, 5), (1, 1, 2, 4), (2, 2, 1, 6)])
    ign = {'blocked'}
    if ck.quick:
        fr.run(ck, range(9), [dict(Cap=2, MaxN=2, ZOps={'resize'}, RCaps={3}, Sigs={0, 1}, WOps={'push', 'alloc', 'allocr', 'send', 'sendr', 'dealloc', 'close'},
                                   ROps={'pop', 'peek', 'peekr', 'recycle', 'pops'})], ignore=ign)
        ft.run(ck, range(9), 12, 40, (1,), ignore=ign, big=(4, 5, range(9)))
    else:
        fr.run(ck, range(9), [dict(Cap=2, MaxN=3, ZOps={'resize'}, RCaps={3, 4}, Sigs={0, 1}),
                              dict(Cap=3, MaxN=3, ZOps={'resize'}, RCaps={4, 6})], ignore=ign, seeds=3)
        ft.run(ck, range(9), 200, 300, (1,), ignore=ign, big=(20, 20, range(9)))


def c10(ck):
    ck.assumptions.append(SCHED)
    ign = {'signal', 'live', 'leak'}
    st.check(ck, (0, 5, 8), 0, 8 if ck.quick else 60, 4 if ck.quick else 12, grow=10 if ck.quick else 60,
             only=set('nghb'), ignore={'live'}, cap=300 if ck.quick else 3000)
    if ck.quick:
        fr.run(ck, range(9), [dict(Cap=2, MaxN=2, ZOps={'stat', 'resize'}, RCaps={3}, WOps={'push', 'insl', 'alloc', 'allocr', 'send', 'sendr', 'allocs'},
                                   ROps={'pop', 'recycle', 'pops', 'peek'})], ignore=ign)
    else:
        fr.run(ck, range(9), [dict(Cap=2, MaxN=3, ZOps={'stat'}), dict(Cap=3, MaxN=3, ZOps={'stat', 'resize'}, RCaps={4})], ignore=ign, seeds=3)
    ps, rng = programs(ck, 300 if ck.quick else 3000, 300 if ck.quick else 3000)
    ps += [x for x in (topo.haphazard(rng) for _ in range(1500 if ck.quick else 15000)) if x]
    ps += [topo.retried(rng) for _ in range(1500 if ck.quick else 15000)]
    topo.run(ck, ps, only=C10_KINDS)


def c08(ck):
    ck.assumptions.append(SCHED)
    fwd = ('fwd', 'drop')
    if ck.quick:
        st.check(ck, (7, 8), 60, 50, 5, kinds=fwd, only=set('prwyx'), loops=8, hops=24)
    else:
        st.check(ck, (7, 8), 500, 500, 20, kinds=fwd, only=set('prwyx'), cap=5000, loops=80, hops=200)


def c11(ck):
    ck.assumptions.append(SCHED)
    if ck.quick:
        st.check(ck, (0, 5, 8), 60, 40, 4, grow=2, stop=10, loops=20, two=25)
    else:
        st.check(ck, (0, 3, 4, 5, 6, 7, 8), 400, 250, 12, grow=10, cap=6000, stop=60, loops=120, two=200)


def c12(ck):
    ck.assumptions.append(SCHED)
    only = {'a', 'z', 'empty', 'x', 'end'}
    if ck.quick:
        st.check(ck, (0,), 90, 20, 6, kinds=('zip', 'fan', 'cut'), only=only, ignore={'live'}, loops=20, two=10)
    else:
        st.check(ck, (0, 5, 7), 500, 200, 20, kinds=('zip', 'fan', 'cut'), only=only, ignore={'live'}, cap=5000, loops=120, two=80)


def c13(ck):
    ck.assumptions.append(SCHED)
    only = {'c', 's', 'x', 'd', 'r', 'end'}
    if ck.quick:
        st.check(ck, (0, 7), 70, 20, 6, kinds=('wait', 'cut', 'late', 'src'), only=only, ignore={'live'}, stop=25, cap=500, loops=20, two=10)
    else:
        st.check(ck, (0, 6, 7, 8), 400, 200, 16, only=only, ignore={'live'}, cap=5000, stop=200, loops=120, two=80)


def c14(ck):
    ck.assumptions.append(SCHED)
    only = {'r', 'p', 'x', 'end'}
    if ck.quick:
        st.check(ck, (0, 5, 6, 7, 8), 60, 40, 4, kinds=('split', 'join'), only=only)
    else:
        st.check(ck, (0, 3, 4, 5, 6, 7, 8), 400, 300, 14, kinds=('split', 'join'), only=only, cap=6000)


TOPO = 'The graphs are executed under a deterministic scheduler with one random schedule each; what is decided is the graph, not its schedules.'
C15_KINDS = {'graph-instances', 'graph-streams', 'graph-classes', 'graph-endpoints', 'refused-wellformed', 'refused-execution'}
C16_KINDS = {'refusal-place', 'refusal-kind', 'refused-wellformed', 'unconnected-accepted', 'refused-execution', 'activated-though-refused'}
C17_KINDS = {'dot-kernels', 'dot-streams', 'search-set', 'search-vec', 'search-vertex', 'search-strict', 'search-strictvec'}
C10_KINDS = {'graph-buffer'}
C19_KINDS = {'ids', 'destroyed-early', 'destroyed'}


def programs(ck, good, bad):
    rng = random.Random(ck.seed * 31 + len(ck.prop))
    ps = [topo.wellformed(rng) for _ in range(good)]
    ps += [x for x in (topo.damage(rng, rng.choice(ps)) for _ in range(bad)) if x]
    return ps, rng


def c15(ck):
    ck.assumptions.append(TOPO)
    ps, rng = programs(ck, 1500 if ck.quick else 20000, 0)
    ps += [x for x in (topo.haphazard(rng) for _ in range(1000 if ck.quick else 15000)) if x]
    ps += topo.from_exprs(topo.enumerate_(ck, 3, {1, 2, 3, 5, 6, 7, 8}, False), rng)
    if not ck.quick:
        ps += topo.from_exprs(topo.enumerate_(ck, 5, {1, 2, 3, 5, 6, 8, 13}, False), rng)
        ps += topo.from_exprs(topo.enumerate_(ck, 2, set(range(1, 14)), True), rng)
    ps += [topo.retried(rng) for _ in range(800 if ck.quick else 10000)]
    topo.run(ck, ps, only=C15_KINDS)


def c16(ck):
    ck.assumptions.append(TOPO)
    ps, rng = programs(ck, 1000 if ck.quick else 10000, 2500 if ck.quick else 30000)
    ps += [x for x in (topo.haphazard(rng) for _ in range(3000 if ck.quick else 30000)) if x]
    if ck.quick:
        ps += topo.from_exprs(topo.enumerate_(ck, 2, {2, 3, 4, 5, 6, 8}, True), rng)
    else:
        ps += topo.from_exprs(topo.enumerate_(ck, 2, set(range(1, 14)), True), rng)
        ps += topo.from_exprs(topo.enumerate_(ck, 3, {1, 2, 3, 5, 6, 7, 8}, True), rng)
    ps += [topo.retried(rng) for _ in range(800 if ck.quick else 10000)]
    topo.run(ck, ps, only=C16_KINDS)


def c17(ck):
    ck.assumptions.append(TOPO)
    res = tlc.run('Traverse', dict(N=2 if ck.quick else 3, Ports=2), ['SPECIFICATION TSpec', 'INVARIANTS CallsAreRight QueueOnce', 'PROPERTY Ends', 'CHECK_DEADLOCK FALSE'])
    ck.tlc(res)
    tlc.drop(res)
    ck.log('TLC: every search over graphs of %d kernels' % (2 if ck.quick else 3))
    ps, rng = programs(ck, 800 if ck.quick else 8000, 0)
    ps += [topo.cyclic(rng) for _ in range(2500 if ck.quick else 30000)]
    topo.run(ck, ps, only=C17_KINDS, traverse=True)


def c18(ck):
    ck.assumptions.append(TOPO.replace('graphs', 'arrays').replace('graph', 'division and the access to the array'))
    if ck.quick:
        fe.run(ck, [(3, 1), (3, 2)], (12, 6), 30)
    else:
        fe.run(ck, [(3, 1), (3, 2), (4, 2), (3, 3)], (36, 10), 250, cap=9000)


def c19(ck):
    ck.assumptions.append(TOPO)
    if ck.quick:
        own.run(ck, 2, 3, 6)
        own.identities(ck, [dict(Threads=2, Max=2), dict(Threads=3, Max=1)], 4)
    else:
        own.identities(ck, [dict(Threads=2, Max=3), dict(Threads=3, Max=2)], 8)
        own.run(ck, 2, 3, 7)
        own.run(ck, 3, 3, 6)
    ps, rng = programs(ck, 1500 if ck.quick else 15000, 1000 if ck.quick else 10000)
    topo.run(ck, ps, only=C19_KINDS)


def c20(ck):
    ck.assumptions.append('One simulated schedule per graph; element types are those with an output operator, lengths up to 120 per batch.')
    if ck.quick:
        adapt.run(ck, [dict(K=1, MaxBatches=2, MaxLen=3), dict(K=2, MaxBatches=2, MaxLen=2), dict(K=3, MaxBatches=1, MaxLen=2)], 4, 500)
    else:
        adapt.run(ck, [dict(K=1, MaxBatches=3, MaxLen=3), dict(K=2, MaxBatches=2, MaxLen=3), dict(K=3, MaxBatches=2, MaxLen=1)], 12, 4000)


def c21(ck):
    ck.assumptions.append('The file does not change while it is read. One simulated schedule per file; large files (over 16 MB) are sparse and their content is not compared.')
    if ck.quick:
        chunks.run(ck, [dict(Letters={'a', 'b'}, MaxLen=5, MaxPay=4, MaxTerm=3)], 4, 5000)
    else:
        chunks.run(ck, [dict(Letters={'a', 'b'}, MaxLen=8, MaxPay=6, MaxTerm=4), dict(Letters={'a', 'b', 'c'}, MaxLen=5, MaxPay=4, MaxTerm=3)], 3, 60000)


def c22(ck):
    if ck.quick:
        ports.run(ck, 2, 2, 2, 2000, 400)
    else:
        ports.run(ck, 2, 3, 3, 10000, 4000)
        ports.run(ck, 3, 1, 2, 0, 0)


def c23(ck):
    ck.assumptions.append('raft::affinity and std::thread::hardware_concurrency are stand-ins that record and decide; the operating system is not involved')
    small = dict(N=2, CoreVals={0, 3}, GroupVals={1}, Marks={7}, MaxMods=2, MaxKs=2, Depth=1, Machine={0, 1, 3})
    deep = dict(N=2, CoreVals={0, 1}, GroupVals={2}, Marks={7}, MaxMods=1, MaxKs=1, Depth=2, Machine={2})
    if ck.quick:
        place.run(ck, [small, deep], 1500)
    else:
        place.run(ck, [dict(small, CoreVals={0, 1, 3}, GroupVals={1, 2}, Machine={0, 1, 2, 3}), dict(small, N=3, MaxMods=1, MaxKs=3, Machine={1, 2, 4}),
                       dict(deep, Depth=3, Machine={2, 3})], 20000)


def c24(ck):
    ck.assumptions.append('step > 0, and both ends and the step fit into the common type of the ends; fractions are multiples of 1/8, so that sums are exact')
    if ck.quick:
        ranges.run(ck, 6, 5, 1500)
    else:
        ranges.run(ck, 20, 24, 12000)


CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10,
          'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14,
          'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21, 'C22': c22, 'C23': c23,
          'C24': c24}


def setup():
    """build everything once, so that a broken tool chain shows at once"""
    import build
    build.build(dict([fr.target(t) for t in fr.TYPES] + [ft.target(t) for t in fr.TYPES] + [st.target(t) for t in (0, 5, 6, 7, 8)] + [fe.target(t) for t in fe.TYPES] + [adapt.target(t) for t in adapt.TYPES] + [topo.target(), own.target, chunks.target, chunks.big_target, ports.target, place.target, ranges.target]))
    return 0
