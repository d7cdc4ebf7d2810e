"""Free-running executions of the real FIFO, validated by spec/StreamTrace.tla."""
import concurrent.futures as cf
import json
import build, core, tlc
from fifo_replay import TYPES


def target(t):
    return 'trace%d' % t, [('fifo/trace.cpp', ['-DTYPE=%d' % t], True), ('fifo/track.cpp', ['-O2'], False)]


def validate(traces, module='StreamTrace', timeout=600, workers=8):
    """-> (indices not explained, tlc result)"""
    res = tlc.run(module, None, ['SPECIFICATION Spec', 'INVARIANT Sound', 'CHECK_DEADLOCK FALSE'],
                  files={'traces.json': json.dumps(traces)}, timeout=timeout, workers=workers)
    ok = set(int(l.split()[1]) for l in tlc.printed(res) if l.startswith('OK '))
    tlc.drop(res)
    return [i for i in range(len(traces)) if i + 1 not in ok], res


def deepest(trace, module='StreamTrace'):
    res = tlc.run(module, None, ['SPECIFICATION Spec', 'INVARIANT Deepest', 'CHECK_DEADLOCK FALSE'],
                  files={'traces.json': json.dumps([trace])}, workers=1)
    at = max([int(l.split()[1]) for l in tlc.printed(res) if l.startswith('AT ')] or [1])
    tlc.drop(res)
    return at


def text(ev, upto=None):
    out = []
    for i, e in enumerate(ev[:upto], 1):
        if e['k'] == 'c':
            out.append('%d %s calls %s%s signal %d' % (i, e['t'], e['op'], tuple(e['a']), e['s']))
        elif e['k'] == 'r':
            out.append('%d %s returns %s %s' % (i, e['t'], e['x'], e['out']))
        else:
            out.append('%d at rest: %s' % (i, e))
    return '\n'.join(out)


def run(ck, types, programs, schedules, resize, ignore=(), cap=4000, big=None, first=0):
    """resize: modes 0 and 1 (with resizes); big: (programs, schedules, types) of
    streams of 5 to 130 slots and hundreds of elements, in the same modes"""
    bins = build.build(dict(target(t) for t in sorted(set(types) | set(big[2] if big else ()))))
    jobs = [(t, z, programs, schedules) for t in types for z in resize]
    if big:
        jobs += [(t, z + 2, big[0], big[1]) for t in big[2] for z in resize]

    def one(j):
        t, z, np, ns = j
        return j, core.run_cmd([bins['trace%d' % t], str(ck.seed), str(first), str(first + np), str(ns), str(z)], 800)
    traces, origin = [], []
    with cf.ThreadPoolExecutor(8) as ex:
        for (t, z, _, _), (rc, out) in ex.map(one, jobs):
            done = [l for l in out.splitlines() if l.startswith('DONE ')]
            if rc != 0 or not done:
                ck.fail('trace/%s/abnormal' % TYPES[t], 'trace driver for %s ended abnormally (%s): %s' % (TYPES[t], rc, out[-500:]))
                continue
            _, runs, points, sw = done[0].split()
            ck.add(executions=int(runs), scheduling_points=int(points), context_switches=int(sw))
            for l in out.splitlines():
                if l.startswith('FAIL '):
                    _, p, s, kind, detail = (l.split(' ', 4) + [''])[:5]
                    if kind not in ignore:
                        ck.fail('trace/%s' % kind, 'element type %s: %s: %s' % (TYPES[t], kind, detail),
                                'rerun with: %s %d %s %d %d %d all\n' % (bins['trace%d' % t], ck.seed, p, int(p) + 1, int(s) + 1, z))
                elif l.startswith('P '):
                    try:
                        tr = json.loads(l.split(' ', 2)[2])
                    except ValueError:
                        continue        # cut short: the process died, which is reported by itself
                    traces.append(tr)
                    origin.append((t, z))
    if len(traces) > cap:
        step = len(traces) / cap
        keep = sorted(set(int(i * step) for i in range(cap)))
        traces, origin = [traces[i] for i in keep], [origin[i] for i in keep]
    if not traces:
        return
    bad, res = validate(traces)
    ck.tlc(res)
    ck.traces += len(traces) - len(bad)
    ck.add(executions_validated=len(traces) - len(bad), events_validated=sum(len(x['ev']) for x in traces))
    ck.log('TLC explained %d of %d executions (%d states)' % (len(traces) - len(bad), len(traces), res['distinct']))
    ck.sample({'execution': text(traces[0]['ev'], 8).split('\n')})
    for b in bad[:5]:
        at = deepest(traces[b])
        ck.fail('trace/rejected', 'element type %s: execution not explained by the specification at event %d: %s' %
                (TYPES[origin[b][0]], at, text(traces[b]['ev'][at - 1:at])), text(traces[b]['ev']) +
                '\nschedule %d of program %d\n' % (traces[b]['s'], traces[b]['p']))
