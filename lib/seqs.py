"""Behaviours enumerated by TLC (an invariant prints them as "X <json>")
replayed one by one on the real code by a harness that uses sim/seqs.hpp."""
import concurrent.futures as cf
import json, os
import build, core, tlc


def generate(ck, module, constants, lines=('SPECIFICATION Spec', 'INVARIANTS OneOwner Emit'), timeout=600, what=''):
    res = tlc.run(module, constants, list(lines) + ['CHECK_DEADLOCK FALSE'], timeout=timeout)
    ck.tlc(res)
    out = sorted(l[2:] for l in tlc.printed(res) if l.startswith('X '))
    tlc.drop(res)
    ck.log('TLC: %s %s: %d states, %d behaviours' % (module, what, res['distinct'], len(out)))
    return [json.loads(x) for x in out]


def replay(ck, name, target, texts, describe=None, ignore=(), jobs=8, timeout=600, args=()):
    """texts[i]: the lines of behaviour i. -> {i: observed json} of R lines"""
    b = build.build(dict([target]))[target[0]]
    obs, files = {}, []
    step = max(1, (len(texts) + jobs - 1) // jobs)
    for a in range(0, len(texts), step):
        f = '%s/%s-%d-%d-%d.txt' % (tlc._tmp(), name, os.getpid(), id(ck), a)
        with open(f, 'w') as fh:
            for i, t in enumerate(texts[a:a + step]):
                fh.write('N %d\n%s\n' % (a + i, t))
        files.append((a, f))

    def one(x):
        return x, core.run_cmd([b, x[1]] + [str(y) for y in args], timeout)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for (a, f), (rc, out) in ex.map(one, files):
            done = False
            for l in out.splitlines():
                if l.startswith('FAIL '):
                    _, i, st, kind, d = (l.split(' ', 4) + [''])[:5]
                    if kind in ignore:
                        continue
                    i = a + int(i)
                    ck.fail('%s/%s' % (name, kind), '%s at step %s: %s' % (kind, st, d[:300]),
                            (describe(i) if describe else texts[i]) + '\n')
                elif l.startswith('R '):
                    _, i, js = l.split(' ', 2)
                    try:
                        obs[a + int(i)] = json.loads(js)
                    except ValueError:
                        pass
                elif l.startswith('DONE '):
                    done = True
                    ck.traces += int(l.split()[1])
                    ck.add(behaviours_replayed=int(l.split()[1]), steps_replayed=int(l.split()[2]))
            if not done:
                ck.fail(name + '/ended', 'harness ended early: rc=%s %s' % (rc, out[-300:]), out[-2000:])
            os.unlink(f)
    for i in range(0, len(texts), max(1, len(texts) // 3)):
        ck.sample({'behaviour': (describe(i) if describe else texts[i]).split('\n')[:20]})
    return obs


def judge(ck, module, name, data, describe, only=None, chunk=2500, invariant='Judge', constants=None):
    """TLC decides which of the observations in data are wrong: the module reads
    results.json and prints BAD <position> {<complaint>, ...}"""
    parts = [range(a, min(len(data), a + chunk)) for a in range(0, len(data), chunk)]
    nbad = 0

    def one(r):
        return tlc.run(module, dict(Step=16, **(constants or {})), ['SPECIFICATION Spec', 'INVARIANT ' + invariant, 'CHECK_DEADLOCK FALSE'],
                       files={'results.json': json.dumps([data[j] for j in r])}, timeout=800, workers=4 if len(parts) > 1 else 8)
    with cf.ThreadPoolExecutor(2) as ex:
        for r, res in zip(parts, ex.map(one, parts)):
            ck.tlc(res)
            bad = {}
            for l in tlc.printed(res):
                if l.startswith('BAD '):
                    _, j, c = l.split(' ', 2)
                    bad[r[int(j) - 1]] = set(x.strip(' "{}') for x in c.split(','))
            tlc.drop(res)
            for j in sorted(bad):
                c = {x for x in bad[j] if not only or x in only}
                if not c:
                    continue
                nbad += 1
                if nbad <= 8:
                    ck.fail('%s/%s' % (name, '+'.join(sorted(c))), '%s: %s' % (', '.join(sorted(c)), describe(j)[:300].replace('\n', ' | ')),
                            describe(j) + '\n' + json.dumps(data[j], indent=1) + '\n')
    ck.add(observations_judged=len(data))
    ck.log('TLC (%s) judged %d, %d wrong' % (module, len(data), nbad))
    return nbad
