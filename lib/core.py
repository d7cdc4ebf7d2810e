"""What every check shares: counting, evidence, known findings, verdict."""
import json, os, subprocess, sys, time
from build import VERIF, BUILD

EVID = os.environ.get('VERIF_EVIDENCE', VERIF + '/evidence')
KNOWN = VERIF + '/known_findings.json'


class Check:
    def __init__(self, prop, tier, level='model_checking'):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.failures = []        # (key, text, replay path)
        self.notes = []
        self.vdir = '%s/violations/%s' % (BUILD, prop)

    # -- counting
    def tlc(self, res):
        self.states += res['distinct']
        self.transitions += res['generated']

    def add(self, **kw):
        for k, v in kw.items():
            self.extra[k] = self.extra.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # -- failures
    def fail(self, key, text, replay_text=None, name=None):
        """key identifies what fails (matched against the known findings)"""
        os.makedirs(self.vdir, exist_ok=True)
        path = '%s/%s' % (self.vdir, name or 'v%d.txt' % (len(self.failures) + 1))
        with open(path, 'w') as fh:
            fh.write('property %s\nkey %s\n%s\n' % (self.prop, key, text))
            if replay_text:
                fh.write(replay_text)
        self.failures.append((key, text, path))

    def known(self):
        try:
            with open(KNOWN) as fh:
                return [k for k in json.load(fh)['findings'] if k['property'] == self.prop]
        except FileNotFoundError:
            return []

    # -- verdict
    def finish(self):
        known = self.known()
        new = []
        hit = set()
        for key, text, path in self.failures:
            m = [i for i, k in enumerate(known) if k['key'] == key]
            if m:
                hit.update(m)
            else:
                new.append((key, text, path))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples}
        cov.update(self.extra)
        os.makedirs(EVID, exist_ok=True)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        tmp = '%s/%s.json.tmp' % (EVID, self.prop)
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1)
            fh.write('\n')
        os.replace(tmp, '%s/%s.json' % (EVID, self.prop))
        for i, k in enumerate(known):
            if i in hit or k.get('always'):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        for key, text, path in new[:10]:
            print('%s: %s' % (key, text.splitlines()[0][:400]))
        if new:
            print('VIOLATION property=%s replay=%s' % (self.prop, new[0][2]))
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' %
              (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0


def run_cmd(cmd, timeout, env=None, stdin=None, cwd=None):
    """-> (rc or 'timeout', output)"""
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         start_new_session=True, errors='replace', cwd=cwd)
    try:
        out, _ = p.communicate(stdin, timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return 'timeout', out
