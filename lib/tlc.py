"""Running TLC."""
import os, re, shutil, subprocess, tempfile, time
from build import VERIF, BUILD

SPEC = VERIF + '/spec'


class TlcError(Exception):
    pass


class TlcViolation(Exception):
    """an invariant / property / assertion of the specification fails"""


def cfg_text(constants=None, lines=()):
    def val(v):
        if isinstance(v, bool):
            return 'TRUE' if v else 'FALSE'
        if isinstance(v, (set, frozenset)):
            return '{' + ', '.join(val(x) for x in sorted(v, key=str)) + '}'
        if isinstance(v, str):
            return v if v.startswith('<-') or v.startswith('=') else '"%s"' % v
        return str(v)
    out = []
    if constants:
        out.append('CONSTANTS')
        for k, v in constants.items():
            out.append('  %s %s' % (k, v) if isinstance(v, str) and v.startswith('<-') else '  %s = %s' % (k, val(v)))
    return '\n'.join(out + list(lines)) + '\n'


def run(module, constants=None, lines=('SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE'), timeout=600,
        workers=8, args=(), expect_ok=True, files=None, heap='6g', javaopts=''):
    """-> dict(out=text lines, generated, distinct, depth, wall). The output is
    kept in a file and returned as a path to keep memory use down."""
    work = tempfile.mkdtemp(prefix='tlc-', dir=_tmp())
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(SPEC + '/' + f, work + '/' + f)
        for name, text in (files or {}).items():
            with open(work + '/' + name, 'w') as fh:
                fh.write(text)
        with open(work + '/run.cfg', 'w') as fh:
            fh.write(cfg_text(constants, lines))
        env = dict(os.environ)
        env['JAVA_TOOL_OPTIONS'] = ('-Xss16m -Xmx%s %s' % (heap, javaopts)).strip()
        cmd = ['timeout', '-k', '5', str(timeout), 'tlc', '-workers', str(workers), '-metadir', work + '/meta',
               '-noGenerateSpecTE', '-config', 'run.cfg'] + list(args) + [module + '.tla']
        t = time.time()
        outp = work + '.out'
        with open(outp, 'w') as fh:
            p = subprocess.run(cmd, cwd=work, stdout=fh, stderr=subprocess.STDOUT, env=env)
        wall = time.time() - t
        res = {'out': outp, 'rc': p.returncode, 'wall': wall, 'generated': 0, 'distinct': 0, 'depth': 0}
        tail, err = [], []
        with open(outp) as fh:
            for l in fh:
                if l.startswith('"') or l.startswith('<<'):
                    continue
                tail.append(l)
                if l.startswith('Error:') or 0 < len(err) < 12:
                    err.append(l)
                if len(tail) > 400:
                    del tail[:200]
                m = re.match(r'(\d+) states generated, (\d+) distinct', l)
                if m:
                    res['generated'], res['distinct'] = int(m.group(1)), int(m.group(2))
                m = re.match(r'The depth of the complete state graph search is (\d+)', l)
                if m:
                    res['depth'] = int(m.group(1))
        res['tail'] = ''.join(tail)
        if expect_ok and p.returncode != 0:
            txt = ''.join(err) + res['tail'][-3000:]
            if p.returncode in (12, 13, 11, 10) or 'is violated' in txt:
                raise TlcViolation(txt)
            raise TlcError('TLC on %s: exit %d\n%s' % (module, p.returncode, txt))
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _tmp():
    d = BUILD + '/tmp'
    os.makedirs(d, exist_ok=True)
    return d


def drop(res):
    try:
        os.unlink(res['out'])
    except OSError:
        pass


def printed(res):
    """strings printed with PrintT, unescaped"""
    with open(res['out']) as fh:
        for l in fh:
            if l.startswith('"'):
                s = l.rstrip('\n')
                if s.endswith('"'):
                    yield s[1:-1].replace('\\"', '"').replace('\\\\', '\\')
