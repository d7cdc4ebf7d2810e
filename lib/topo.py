"""Graph expressions, links, refusals, exports and traversals: programs from
TLC (spec/TopologyGen.tla) and random ones, run on the real library by
harness/topo, judged by TLC (spec/TopologyTrace.tla)."""
import concurrent.futures as cf
import json, os, random
import build, core, tlc


def target():
    return 'topo', [('topo/topo.cpp', [], True)]


P = lambda *x: [list(y) for y in x]
# the kernels of TopologyGen
ALL = [
    dict(ins=[], outs=P('ai'), clone=True),
    dict(ins=[], outs=P('ai', 'bi'), clone=False),
    dict(ins=P('0i'), outs=P('0i'), clone=True),
    dict(ins=P('xi'), outs=P('yl'), clone=True),
    dict(ins=P('xi'), outs=P('pi', 'qi'), clone=True),
    dict(ins=P('xi', 'yi'), outs=P('si'), clone=True),
    dict(ins=P('xi'), outs=[], clone=True),
    dict(ins=P('xi', 'yi'), outs=[], clone=False),
    dict(ins=[], outs=P('ai', 'bi', 'ci'), clone=True),
    dict(ins=P('mi', 'ni', 'oi'), outs=P('si'), clone=True),
    dict(ins=P('0i'), outs=P('0i'), clone=True),
    dict(ins=P('ll'), outs=[], clone=True),
    dict(ins=P('xi', 'yi'), outs=P('si'), clone=True),
]


def expr(items, ops):
    return dict(t='expr', items=items, ops=ops)


def item(k, i='', o='', many=False):
    return dict(k=k, **{'in': i, 'out': o}, many=many)


def link(a, ap, b, bp, ooo=False, cap=0):
    return dict(t='link', a=a, ap=ap, b=b, bp=bp, ooo=ooo, cap=cap)


# ------------------------------------------------------- C++ expressions
def token(it):
    n = [x for x in (it['in'], it['out']) if x]
    if it.get('many'):
        n = (n + ['u', 'v', 'w'])[:3] if len(n) < 3 else n
    return ':'.join([str(it['k'])] + n)


def trees(items, ops, rng, made):
    """a parse tree C++ accepts, in postfix: >> binds tighter than <= and >=,
    the left side of <= is a single kernel; parentheses are free otherwise"""
    # chains of >> between the relational operators
    segs, rel = [[0]], []
    for i, o in enumerate(ops):
        if o in ('>>', '>o'):
            segs[-1].append(i + 1)
        else:
            rel.append(o)
            segs.append([i + 1])

    def chain(s):
        out = [token(items[s[0]])]
        for j in s[1:]:
            out += [token(items[j]), ops[j - 1]]
        return out

    def is_kernel(a, b):
        return a == b and len(segs[a]) == 1

    def par(a, b):
        """segments a..b"""
        if a == b:
            return chain(segs[a])
        cuts = []
        for c in range(a, b):
            if rel[c] == '<=':
                if is_kernel(a, c):
                    cuts.append(c)
            else:
                # kernel >= kpair, kpair >= anything; the right side must parse by itself
                cuts.append(c)
        rng.shuffle(cuts)
        for c in cuts:
            l, r = par(a, c), par(c + 1, b)
            if l is None or r is None:
                continue
            # wrappers: no (kernel, wrapper) for <= and >=, no (wrapper, kernel)
            wl = is_kernel(a, c) and items[segs[a][0]]['k'] in made
            wr = is_kernel(c + 1, b) and items[segs[c + 1][0]]['k'] in made
            lk, rk = is_kernel(a, c), is_kernel(c + 1, b)
            if rel[c] == '<=':
                if lk and rk and wl != wr:
                    continue
                if not lk:
                    continue
            else:
                if lk and rk and wl != wr:
                    continue
            return l + r + [rel[c]]
        return None

    # >> with wrappers: (kernel, wrapper), (wrapper, wrapper), (kpair, wrapper), not (wrapper, kernel)
    for s in segs:
        if len(s) > 1 and items[s[0]]['k'] in made and (items[s[1]]['k'] not in made or ops[s[1] - 1] == '>o'):
            return None
    return par(0, len(segs) - 1)


def text(p, i):
    out = ['P %d %d %d %d %d %d' % (i, len(p['ks']), len(p['stmts']), p['exe'], p.get('dot', 1), len(p.get('trav', [])))]
    for k in p['ks']:
        out.append('K %d %d %d %s %d %s' % (k.get('made', False), k['clone'], len(k['ins']), ' '.join('%s %s' % tuple(x) for x in k['ins']),
                                            len(k['outs']), ' '.join('%s %s' % tuple(x) for x in k['outs'])))
    for s in p['stmts']:
        if s['t'] == 'link':
            out.append('S L %d %s %d %s %d %d' % (s['a'], s['ap'] or '-', s['b'], s['bp'] or '-', s['ooo'], s['cap']))
        elif s['t'] == 'try':
            out.append('S T')
        else:
            out.append('S X %s .' % ' '.join(s['post']))
    for t in p.get('trav', []):
        out.append('T %s %d %s' % (t['how'], len(t['start']), ' '.join(map(str, t['start']))))
    return '\n'.join(out) + '\n'


# ------------------------------------------------------------- from TLC
def enumerate_(ck, maxops, which, named, timeout=600):
    res = tlc.run('TopologyGen', dict(MaxOps=maxops, Which=set(which), Named=named),
                  ['SPECIFICATION Spec', 'INVARIANTS Good Emit', 'CHECK_DEADLOCK FALSE'], timeout=timeout)
    ck.tlc(res)
    out = []
    for l in tlc.printed(res):
        if l.startswith('X '):
            out.append(json.loads(l[2:]))
    tlc.drop(res)
    ck.log('TLC: %d expressions (up to %d operators, kernels %s)' % (len(out), maxops, sorted(which)))
    return out


def program(ks, stmts, rng, exe=1, made=()):
    """None if C++ has no way to write one of the expressions"""
    ks = [dict(k, made=(i + 1) in made) for i, k in enumerate(ks)]
    for s in stmts:
        if s['t'] == 'expr':
            s['post'] = trees(s['items'], s['ops'], rng, made)
            if s['post'] is None:
                return None
    return dict(ks=ks, stmts=stmts, exe=exe)


def from_exprs(exprs, rng, closing=.5):
    """one program per expression; some get what is left open connected, so
    that they can be executed"""
    out = []
    for x in exprs:
        p = program(ALL, [expr(x['items'], x['ops'])], rng, exe=1)
        if p:
            out.append(p)
    return out


# --------------------------------------------------------------- random
TYPES = 'ilud'


def wellformed(rng, deep=3):
    """a random complete graph written as expressions, nothing left open"""
    ks, t = [], rng.choice(TYPES)
    names = ['a', 'b', 'c', 'd', 'e', '0', '1', '10', '2', 'in', 'out', 'x1', 'x2']

    def kernel(ni, no, clone=True, ti=None, to=None):
        ks.append(dict(ins=[[n, ti or t] for n in sorted(rng.sample(names, ni))], outs=[[n, to or t] for n in sorted(rng.sample(names, no))], clone=clone))
        return len(ks)
    shape = rng.choice(('chain', 'split', 'split', 'nest', 'nest', 'repeat', 'repeat', 'named', 'named', 'type'))
    items, ops, stmts, made = [], [], [], set()

    def chain(n, first=False):
        """n more one-to-one kernels"""
        for _ in range(n):
            ops.append(rng.choice(('>>', '>>', '>>', '>o')))
            items.append(item(kernel(1, 1)))
    if shape == 'chain' or shape == 'type':
        items.append(item(kernel(0, 1, clone=rng.random() < .5)))
        chain(rng.randrange(4))
        if shape == 'type':
            t2 = rng.choice([x for x in TYPES if x != t])
            ops.append('>>')
            items.append(item(kernel(1, 1, to=t2)))
            t = t2
            chain(rng.randrange(3))
        ops.append('>>')
        items.append(item(kernel(1, 0)))
    elif shape == 'repeat':
        items.append(item(kernel(0, 1)))
        chain(rng.randrange(4))
        ops.append('>=')
        items.append(item(kernel(rng.choice((1, 2, 3, 4)), 1, clone=rng.random() < .5)))
        chain(rng.randrange(3))
        ops.append('>>')
        items.append(item(kernel(1, 0, clone=False)))
    elif shape in ('split', 'nest'):
        d = 1 if shape == 'split' else rng.choice((2, 2, 3)[:deep])
        fans = [rng.choice((1, 2, 3, 4) if d == 1 else (1, 2, 3)) for _ in range(d)]
        items.append(item(kernel(0, fans[0], clone=False)))
        for j in range(1, d):
            ops.append('<=')
            items.append(item(kernel(1, fans[j])))
        ops.append('<=')
        items.append(item(kernel(1, 1)))
        closed = rng.choice((d, d, d, d - 1, 0))
        chain(rng.randrange(3))
        for j in range(closed):
            ops.append('>=')
            items.append(item(kernel(fans[d - 1 - j], 1)))
            chain(rng.randrange(2))
        ops.append('>>')
        items.append(item(kernel(1, 0)))
    else:
        # a random graph, every stream named; kernels with up to 4 ports
        n = rng.randrange(2, 6)
        es = [(i, j) for i in range(n) for j in range(i + 1, n) for _ in range(rng.choice((0, 1, 1, 2)))]
        es += [(j, rng.choice([x for x in range(j + 1, n)])) for j in range(n - 1) if not any(j in e for e in es)]
        if not any(n - 1 in e for e in es):
            es.append((rng.randrange(n - 1), n - 1))
        ni = [sum(1 for e in es if e[1] == k) for k in range(n)]
        no = [sum(1 for e in es if e[0] == k) for k in range(n)]
        if max(ni + no) > 9:
            return wellformed(rng, deep)
        for k in range(n):
            kernel(ni[k], no[k], clone=False)
        fi = [list(ks[k]['ins']) for k in range(n)]
        fo = [list(ks[k]['outs']) for k in range(n)]
        for l in fi + fo:
            rng.shuffle(l)
        rng.shuffle(es)
        for a, b in es:
            p, q = fo[a].pop(), fi[b].pop()
            pn = '' if no[a] == 1 and rng.random() < .5 else p[0]
            qn = '' if ni[b] == 1 and rng.random() < .5 else q[0]
            ty = rng.choice(TYPES)
            p[1] = q[1] = ty
            if rng.random() < .3:
                stmts.append(link(a + 1, pn, b + 1, qn, rng.random() < .3, rng.choice((0, 0, 1, 4))))
            else:
                stmts.append(expr([item(a + 1, '', pn), item(b + 1, qn, '')], [rng.choice(('>>', '>o'))]))
    if items:
        if rng.random() < .4:
            # the library owns some of the kernels
            for j, it in enumerate(items):
                if rng.random() < .5:
                    made.add(it['k'])
        stmts.append(expr(items, ops))
        if shape in ('chain', 'repeat') and rng.random() < .2 and not made:
            # two statements instead of one: a >> b, b >> c
            for cut in range(1, len(ops)):
                if all(o in ('>>', '>o') for o in ops):
                    stmts = [expr(items[:cut + 1], ops[:cut]), expr(items[cut:], ops[cut:])]
                    break
    ks2 = [dict(k, ins=sorted(k['ins']), outs=sorted(k['outs'])) for k in ks]
    p = program(ks2, stmts, rng, made=made)
    if p is None:
        p = program(ks2, stmts, rng)
    return p


def damage(rng, p):
    """something goes wrong in a well-formed program"""
    ks, stmts = json.loads(json.dumps(p['ks'])), json.loads(json.dumps(p['stmts']))
    made = {i + 1 for i, k in enumerate(ks) if k['made']}
    for s in stmts:
        s.pop('post', None)
    how = rng.choice(('type', 'type', 'name', 'name', 'again', 'again', 'extra', 'drop', 'many', 'noname', 'noclone'))
    s = rng.choice(stmts)
    if how == 'type':
        ports = [x for k in ks for x in k['ins'] + k['outs']]
        x = rng.choice(ports)
        x[1] = rng.choice([t for t in TYPES if t != x[1]])
    elif how == 'name':
        if s['t'] == 'link':
            s[rng.choice(('ap', 'bp'))] = 'zz'
        else:
            j = rng.randrange(len(s['ops']))
            if s['ops'][j] in ('>>', '>o') and s['items'][j]['k'] not in made and s['items'][j + 1]['k'] not in made and (j == 0 or s['ops'][j - 1] in ('<=', '>=') and (s['items'][j]['in'] == '')):
                if rng.random() < .5 or not (j + 2 == len(s['items'])):
                    s['items'][j]['out'] = 'zz'
                else:
                    s['items'][j + 1]['in'] = 'zz'
            elif s['ops'][j] in ('>>', '>o') and j + 2 == len(s['items']) and s['items'][j + 1]['k'] not in made:
                s['items'][j + 1]['in'] = 'zz'
    elif how == 'again':
        q = [x for x in stmts if not (made and x['t'] == 'expr')]
        if q:
            stmts.insert(rng.randrange(len(stmts) + 1), json.loads(json.dumps(rng.choice(q))))
    elif how == 'extra':
        # one port more than is connected
        k = rng.choice(ks)
        k[rng.choice(('ins', 'outs'))].append(['zy', 'i'])
    elif how == 'drop':
        stmts.remove(s)
        if not stmts:
            stmts = [s]
    elif how == 'many':
        if s['t'] == 'expr':
            it = rng.choice(s['items'])
            if it['k'] not in made:
                it['many'] = True
    elif how == 'noname':
        if s['t'] == 'link':
            s[rng.choice(('ap', 'bp'))] = ''
        else:
            it = rng.choice(s['items'])
            it[rng.choice(('in', 'out'))] = ''
            if it['out'] and not it['in'] and it is not s['items'][0]:
                it['out'] = ''
    elif how == 'noclone':
        rng.choice(ks)['clone'] = False
    for k in ks:
        k['ins'].sort()
        k['outs'].sort()
    return program(ks, stmts, rng, made=made)


def haphazard(rng):
    """any ports linked in any order, one after the other: the same port may
    be meant twice, with the same peer, another port of it or another kernel"""
    n = rng.randrange(2, 5)
    acyclic = rng.random() < .7
    t2 = rng.random() < .2
    ks = [dict(ins=[['i%d' % j, rng.choice('il') if t2 else 'i'] for j in range(rng.choice((0, 1, 1, 2, 2, 3)))],
               outs=[['o%d' % j, rng.choice('il') if t2 else 'i'] for j in range(rng.choice((0, 1, 1, 2, 2, 3)))], clone=False) for _ in range(n)]
    stmts = []
    free = [(k, x[0]) for k in range(n) for x in ks[k]['outs']], [(k, x[0]) for k in range(n) for x in ks[k]['ins']]
    fo, fi = [list(x) for x in free]
    for _ in range(rng.randrange(1, 7)):
        # mostly ports that are still free, sometimes one that is not
        o = rng.choice(fo if fo and rng.random() < .85 else free[0] or [(0, '')])
        i = rng.choice(fi if fi and rng.random() < .85 else free[1] or [(0, '')])
        if acyclic and o[0] >= i[0]:
            c = [x for x in (fi if rng.random() < .85 else free[1]) if x[0] > o[0]]
            if not c:
                continue
            i = rng.choice(c)
        if o[0] == i[0] and rng.random() < .7:
            continue
        if o in fo:
            fo.remove(o)
        if i in fi:
            fi.remove(i)
        p = '' if len(ks[o[0]]['outs']) == 1 and rng.random() < .5 or rng.random() < .03 else o[1]
        q = '' if len(ks[i[0]]['ins']) == 1 and rng.random() < .5 or rng.random() < .03 else i[1]
        if rng.random() < .5 or o[0] == i[0]:
            stmts.append(link(o[0] + 1, p, i[0] + 1, q, rng.random() < .3, rng.choice((0, 0, 1, 4))))
        else:
            stmts.append(expr([item(o[0] + 1, '', p), item(i[0] + 1, q, '')], [rng.choice(('>>', '>o'))]))
    if not stmts:
        return haphazard(rng)
    return program(ks, stmts, rng, exe=1 if acyclic else 0)


def retried(rng):
    """a complete graph of links, among them some that are refused: they must
    change nothing"""
    p = None
    while not p or len(p['stmts']) < 2 or any(s['t'] == 'expr' and len(s['ops']) > 1 for s in p['stmts']):
        p = wellformed(rng)
    ends = []
    for s in p['stmts']:
        ends.append((s['a'], s['ap'], s['b'], s['bp']) if s['t'] == 'link' else (s['items'][0]['k'], s['items'][0]['out'], s['items'][1]['k'], s['items'][1]['in']))
        if s['t'] != 'link' and rng.random() < .6:
            s.clear()
            s.update(link(*ends[-1], rng.random() < .3, rng.choice((0, 0, 1, 4, 9))))
    full = lambda k, d, n: n or p['ks'][k - 1][d][0][0]
    out = []
    for i, s in enumerate(p['stmts']):
        out.append(s)
        for _ in range(rng.choice((0, 0, 1, 1, 2))):
            x, y = rng.choice(ends[:i + 1]), rng.choice(ends if rng.random() < .3 else ends[:i + 1])
            if x[0] == y[2]:
                y = x
            how = rng.choice(('again', 'again', 'again', 'name', 'none'))
            l = link(x[0], full(x[0], 'outs', x[1]), y[2], full(y[2], 'ins', y[3]), rng.random() < .5, rng.choice((0, 2, 5, 16)))
            if how == 'name':
                l[rng.choice(('ap', 'bp'))] = 'zz'
            elif how == 'none':
                # a kernel without such ports
                l['b'], l['bp'] = (x[0], '') if not p['ks'][x[0] - 1]['ins'] else (l['b'], 'zz')
            out.append(l)
    # and executed too early
    missing = lambda i: any(port not in [e[at + 1] or full(e[at], d, '') for e in ends[:i + 1] if e[at] == k]
                            for k in {x for e in ends[:i + 1] for x in (e[0], e[2])}
                            for d, at in (('ins', 2), ('outs', 0)) for port, _ in p['ks'][k - 1][d])
    for i in reversed(range(len(ends))):
        if rng.random() < .25 and missing(i):
            at = [j for j, x in enumerate(out) if x is p['stmts'][i]][0]
            out.insert(at + 1, dict(t='try'))
    p['stmts'] = out
    return p


def cyclic(rng):
    """a graph that is only built and looked at"""
    n = rng.randrange(1, 6)
    es = [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randrange(1, 8))]
    ni = [sum(1 for e in es if e[1] == k) for k in range(n)]
    no = [sum(1 for e in es if e[0] == k) for k in range(n)]
    open_ = rng.random() < .4
    ks = [dict(ins=[['i%d' % j, 'i'] for j in range(ni[k] + (open_ and rng.randrange(2)))],
               outs=[['o%d' % j, 'i'] for j in range(no[k] + (open_ and rng.randrange(3)))], clone=False) for k in range(n)]
    fi = [[x[0] for x in ks[k]['ins']] for k in range(n)]
    fo = [[x[0] for x in ks[k]['outs']] for k in range(n)]
    for l in fi + fo:
        rng.shuffle(l)
    stmts = [link(a + 1, fo[a].pop(), b + 1, fi[b].pop(), rng.random() < .3) for a, b in es]
    p = program(ks, stmts, rng, exe=0)
    p['trav'] = []
    for how in ('set', 'vec', 'vertex', 'strict', 'strictvec'):
        p['trav'].append(dict(how=how, start=sorted(rng.sample(range(1, n + 1), rng.randrange(1, min(3, n) + 1)))))
    return p


# ------------------------------------------------------------------- run
def run(ck, progs, only=None, ignore=(), traverse=False, jobs=8, chunk=3000):
    bins = build.build(dict([target()]))
    tmp = tlc._tmp()
    files = []
    step = max(1, (len(progs) + jobs - 1) // jobs)
    for a in range(0, len(progs), step):
        f = '%s/topo-%d-%d-%d.txt' % (tmp, os.getpid(), id(ck), a)
        with open(f, 'w') as fh:
            fh.write(''.join(text(p, a + i) for i, p in enumerate(progs[a:a + step])))
        files.append(f)
    obs = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f, (rc, out) in zip(files, ex.map(lambda f: core.run_cmd([bins['topo'], f, str(ck.seed)], 600), files)):
            done = False
            for l in out.splitlines():
                if l.startswith('R '):
                    _, i, js = l.split(' ', 2)
                    try:
                        obs[int(i)] = json.loads(js)
                    except ValueError:
                        pass
                elif l.startswith('FAIL '):
                    _, i, kind, what = l.split(' ', 3)
                    if kind in ignore:
                        continue
                    ck.fail('topo/' + kind, '%s: %s' % (kind, what[:300]), text(progs[int(i)], 0) if int(i) >= 0 else '')
                elif l.startswith('DONE '):
                    done = True
                    w = [int(x) for x in l.split()[1:]]
                    ck.add(programs_run=w[0], scheduling_points=w[1])
            if not done:
                ck.fail('topo/ended', 'harness ended early: rc=%s %s' % (rc, out[-300:]), out[-2000:])
            os.unlink(f)
    idx = sorted(obs)
    ck.log('%d programs run' % len(idx))
    data = []
    for i in idx:
        p = progs[i]
        data.append(dict(ks=[dict(ins=k['ins'], outs=k['outs'], clone=k['clone']) for k in p['ks']],
                         stmts=[{k: v for k, v in s.items() if k != 'post'} for s in p['stmts']], exe=bool(p['exe']), obs=obs[i]))
    return validate(ck, traverse, progs, idx, data, only, chunk)


def validate(ck, traverse, progs, idx, data, only, chunk):
    nbad = 0
    parts = [range(a, min(len(data), a + chunk)) for a in range(0, len(data), chunk)]

    def one(r):
        return tlc.run('TraverseTrace' if traverse else 'TopologyTrace', dict(Step=16),
                       ['SPECIFICATION Spec', 'INVARIANT ' + ('TJudge' if traverse else 'Judge'), 'CHECK_DEADLOCK FALSE'],
                       files={'results.json': json.dumps([data[j] for j in r])}, timeout=800, workers=4 if len(parts) > 1 else 8)
    with cf.ThreadPoolExecutor(2) as ex:
        for r, res in zip(parts, ex.map(one, parts)):
            ck.tlc(res)
            bad = {}
            for l in tlc.printed(res):
                if l.startswith('BAD '):
                    _, j, c = l.split(' ', 2)
                    bad[r[int(j) - 1]] = set(x.strip(' "{}') for x in c.split(','))
            tlc.drop(res)
            for j in sorted(bad):
                c = {x for x in bad[j] if not only or x in only}
                if not c:
                    continue
                nbad += 1
                if nbad <= 8:
                    ck.fail('topo/' + '+'.join(sorted(c)), '%s: %s observed %s' % (
                        ', '.join(sorted(c)), json.dumps(data[j]['stmts'])[:200], json.dumps(data[j]['obs'])[:300]),
                        text(progs[idx[j]], 0) + json.dumps(data[j], indent=1) + '\n')
    ck.traces += len(data) - nbad
    ck.log('TLC judged %d programs, %d wrong' % (len(data), nbad))
    for j in range(0, len(data), max(1, len(data) // 4)):
        ck.sample({'program': text(progs[idx[j]], 0).split('\n'), 'observed': json.dumps(data[j]['obs'])[:400]})
