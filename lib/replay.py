"""Turns the transition graph emitted by spec/StreamReplay.tla into walks that
cover every transition, and the walks into scripts for harness/fifo/replay."""
import collections, random, re
import tlc

NEAR = 3000            # nodes looked at in the search for something not covered
MANY = 40000           # with so many transitions it is not worth looking far
NUM = re.compile(r'-?\d+')


def nums(s):
    return [int(x) for x in NUM.findall(s)]


class Graph:
    def __init__(self):
        self.ids = {}
        self.edges = []      # (src, dst, label)
        self.out = []
        self.init = 0

    def node(self, s):
        n = self.ids.get(s)
        if n is None:
            n = self.ids[s] = len(self.out)
            self.out.append([])
        return n

    def add(self, a, b, label):
        self.out[a].append(len(self.edges))
        self.edges.append((a, b, label))


Label = collections.namedtuple('Label', 'who op a s d wx rx zx rout obs')


def load(res, cap):
    g = Graph()
    first = None
    for l in tlc.printed(res):
        if not l.startswith('T#'):
            continue
        _, pre, who, op, a, s, post, d, wx, rx, zx, rout, obs = l.split('#')
        x, y = g.node(pre), g.node(post)
        ro = nums(rout)
        g.add(x, y, Label(who, op, nums(a), int(s), int(d), wx, rx, zx,
                          [(ro[i], ro[i + 1]) for i in range(0, len(ro), 2)], nums(obs)))
    # the initial state: nothing written, position 0, initial capacity
    g.init = g.ids['<<<<>>, %d, FALSE, <<>>, "no", 0, FALSE, 0, <<"idle">>, <<"idle">>, <<"idle">>, 1, 0>>' % cap]
    return g


def walks(g, allowed, maxlen, seed, budget=None):
    """walks from the initial node covering every allowed edge reachable"""
    rng = random.Random(seed)
    out = [[e for e in es if allowed(g.edges[e][2])] for es in g.out]
    # reachable part, with a shortest way to each node
    seen = {g.init}
    todo = collections.deque([g.init])
    via = {g.init: None}
    while todo:
        x = todo.popleft()
        for e in out[x]:
            y = g.edges[e][1]
            if y not in seen:
                seen.add(y)
                via[y] = e
                todo.append(y)

    def path(par, y):
        p = []
        while par[y] is not None:
            p.append(par[y])
            y = g.edges[par[y]][0]
        return reversed(p)
    left = {x: list(out[x]) for x in seen if out[x]}
    for l in left.values():
        rng.shuffle(l)
    remaining = sum(len(l) for l in left.values())
    total = remaining
    res = []
    steps = 0
    far = False
    near = NEAR if total < MANY else 150
    while remaining and (budget is None or steps < budget):
        cur, walk = g.init, []
        if far:
            # what is left is far from everything else
            cur = next(iter(left))
            walk += path(via, cur)
        while len(walk) < maxlen and remaining:
            l = left.get(cur)
            if l:
                e = l.pop()
                if not l:
                    del left[cur]
                remaining -= 1
                walk.append(e)
                cur = g.edges[e][1]
                continue
            # nearest node with something left
            par = {cur: None}
            q = collections.deque([cur])
            hit = None
            while q and hit is None and len(par) < near:
                x = q.popleft()
                for e in out[x]:
                    y = g.edges[e][1]
                    if y not in par:
                        par[y] = e
                        if y in left:
                            hit = y
                            break
                        q.append(y)
            if hit is None:
                far = len(par) >= near
                break
            walk += path(par, hit)
            cur = hit
        if not walk and not far:
            break
        if not walk:
            continue
        res.append(walk)
        steps += len(walk)
    return res, total - remaining, total


def script(g, ws, cap, path):
    """write the script; symbolic values and signals become concrete ones"""
    nsteps = 0
    lines = 0
    with open(path, 'w') as fh:
        for w in ws:
            fh.write('N %d\n' % cap)
            shift = 0          # concrete numbering = symbolic + shift
            conc, sigof = {}, {}
            fresh, fsig = 0, 0
            lastw = None
            for e in w:
                L = g.edges[e][2]
                a = L.a
                s = 0
                if L.s:
                    fsig += 1
                    s = 0x1000 + fsig
                    if fsig % 5 == 0:
                        s = 0xfff      # the library's own end-of-file signal
                if L.op in ('push', 'pushm', 'insl', 'insv', 'alloc', 'allocr', 'allocs'):
                    b = []
                    for v in a:
                        fresh += 1
                        conc[v + shift] = fresh
                        lastw = fresh
                        b.append(fresh)
                    if L.op not in ('alloc', 'allocr') and b:
                        sigof[lastw] = s
                    a = b
                elif L.op in ('send', 'sendr') and lastw is not None:
                    sigof.setdefault(lastw, s)
                outs = []
                for v, sg in L.rout:
                    c = conc[v + shift]
                    outs.append('%d %d' % (c, sigof.get(c, 0) if sg else 0))
                fh.write('%s %s %d %s %d ; %s %s %s %d %s %s\n' % (
                    L.who, L.op, len(a), ' '.join(map(str, a)), s, L.wx, L.rx, L.zx, len(outs),
                    ' '.join(outs), ' '.join(map(str, L.obs))))
                shift += L.d
                nsteps += 1
    return nsteps
