"""Builds the library under test (from /repo's working tree) and the harnesses.

Objects are cached in /verif/build (ignored by git) under a hash of the
command line, the source and every header of the library and the harness."""
import concurrent.futures as cf
import hashlib, os, re, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

BASE = ['-std=gnu++20', '-include', 'cstdint', '-g1', '-O1', '-w', '-pthread',
        '-DSTRING_NAMES=1', '-DL1D_CACHE_LINE_SIZE=64', '-DRDTSCP=1', '-DNICE=1',
        '-I' + REPO, '-I' + REPO + '/raftinc', '-I' + VERIF + '/harness/stubs',
        '-I' + VERIF + '/harness']
SIM = ['-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0',
       '-include', VERIF + '/harness/sim/memhook.h']
LIB = ['-DLIBCOMPILE=1']


class BuildError(Exception):
    pass


def lib_sources():
    txt = open(REPO + '/src/CMakeLists.txt').read()
    m = re.search(r'set\s*\(\s*CPP_SRC_FILES([^)]*)\)', txt, re.S)
    names = m.group(1).split() if m else []
    out = [REPO + '/src/' + n for n in names if n.endswith('.cpp')]
    return [p for p in out if os.path.exists(p)]


_hdr = None
_lock = threading.Lock()


def header_hash():
    global _hdr
    with _lock:
        if _hdr is None:
            h = hashlib.sha256()
            roots = [REPO + '/raftinc', REPO + '/raft', REPO + '/raftio', REPO + '/raftalgorithm',
                     REPO + '/raftrandom', REPO + '/raftstat', REPO + '/raftutility', REPO + '/raftmanip', REPO + '/raftmath',
                     VERIF + '/harness']
            files = []
            for r in roots:
                if os.path.isfile(r):
                    files.append(r)
                for d, _, fs in os.walk(r):
                    files += [os.path.join(d, f) for f in fs if not f.endswith('.cpp')]
            for f in sorted(files):
                h.update(f.encode())
                h.update(open(f, 'rb').read())
            _hdr = h.hexdigest()
    return _hdr


def compile_one(src, flags):
    cmd = ['g++'] + BASE + flags + ['-c', src]
    h = hashlib.sha256()
    h.update(repr(cmd).encode())
    h.update(open(src, 'rb').read())
    h.update(header_hash().encode())
    os.makedirs(BUILD + '/obj', exist_ok=True)
    out = '%s/obj/%s-%s.o' % (BUILD, os.path.basename(src), h.hexdigest()[:20])
    if os.path.exists(out):
        return out
    tmp = '%s.%d.%d.tmp.o' % (out, os.getpid(), threading.get_ident())
    p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('compile of %s failed:\n%s' % (src, p.stdout[-4000:]))
    os.replace(tmp, out)
    return out


def compile_all(jobs):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda j: compile_one(*j), jobs))


def build(targets, sim=True):
    """targets: {name: [(source, extra flags, instrumented?)]} -> {name: path}.
    Every target is linked with the library and, with sim, the simulator."""
    inst = SIM if sim else []
    jobs = [(s, inst + LIB) for s in lib_sources()]
    n_lib = len(jobs)
    common = []
    if sim:
        common = [(VERIF + '/harness/sim/detsim.cpp', ['-O2'])]
    jobs += common
    spans = {}
    # the harness objects take longest: start them first
    tj = []
    for name, srcs in targets.items():
        spans[name] = (len(tj), len(tj) + len(srcs))
        for s, fl, ins in srcs:
            tj.append((VERIF + '/harness/' + s, (inst if ins else []) + fl))
    objs = compile_all(tj + jobs)
    t_objs, l_objs = objs[:len(tj)], objs[len(tj):]
    os.makedirs(BUILD + '/bin', exist_ok=True)

    def link(name):
        a, b = spans[name]
        mine = t_objs[a:b]
        h = hashlib.sha256(repr((mine, l_objs)).encode()).hexdigest()[:16]
        out = '%s/bin/%s-%s' % (BUILD, name, h)
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            cmd = ['g++', '-o', tmp] + mine + l_objs + ['-pthread', '-ldl', '-rdynamic']
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise BuildError('link of %s failed:\n%s' % (name, p.stdout[-4000:]))
            os.replace(tmp, out)
        return name, out
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return dict(ex.map(link, list(targets)))
