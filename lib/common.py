"""Shared plumbing of the checks: evidence, violations, known findings, scratch."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
NPROC = int(os.environ.get('VERIF_NPROC', '8'))
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class HarnessError(Exception):
    """The machinery (not the code under test) failed."""


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line and line[0] == '{':
                out.append(json.loads(line))
    return out


class Scratch(object):
    """A scratch directory; the process chdirs there because pyverilog and
    veriloggen drop files (parser.out, tmp.v ...) in the current directory."""

    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix='vg_%s_' % tag)
        self.cwd = os.getcwd()

    def __enter__(self):
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)


class Check(object):
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        shutil.rmtree(os.path.join(VERIF, 'replay', prop), ignore_errors=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        samples=[])
        self.assumptions = []
        self.viol = []            # (key, message, detail)
        self.extra = {}
        self.exhaustive = True
        self.known = [k for k in load_known()
                      if k.get('property') == prop and k.get('kind') == 'known']

    # -- coverage ---------------------------------------------------------
    def add(self, states=0, transitions=0, traces=0):
        self.cov['states'] += states
        self.cov['transitions'] += transitions
        self.cov['traces_validated_against_impl'] += traces

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, s, limit=12):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(s)

    def violation(self, key, msg, detail=None):
        self.viol.append((key, msg, detail))

    def absorb(self, res):
        """merge a worker result dict"""
        self.add(res.get('states', 0), res.get('transitions', 0), res.get('traces', 0))
        for k, n in res.get('counts', {}).items():
            self.count(k, n)
        for s in res.get('samples', []):
            self.sample(s)
        for v in res.get('violations', []):
            self.violation(*v)
        if res.get('exhaustive') is False:
            self.exhaustive = False

    # -- end --------------------------------------------------------------
    def finish(self):
        known_keys = {}
        for k in self.known:
            for key in k.get('keys', [k.get('key')]):
                known_keys[key] = k
        new, hit = [], {}
        if os.environ.get('VERIF_DUMP'):
            json.dump(self.viol, open(os.environ['VERIF_DUMP'], 'w'), default=str)
        for v in self.viol:
            if v[0] in known_keys:
                hit.setdefault(known_keys[v[0]]['id'], []).append(v)
            else:
                new.append(v)
        for kid, vs in hit.items():
            k = [x for x in self.known if x['id'] == kid][0]
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        cov = dict(self.cov)
        cov.update(self.extra)
        cov['exhaustive'] = bool(self.exhaustive)
        ev = dict(property=self.prop, tier=tier(), seed=seed(), level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            rdir = os.path.join(VERIF, 'replay', self.prop)
            os.makedirs(rdir, exist_ok=True)
            for i, (key, msg, detail) in enumerate(new[:20]):
                h = hashlib.sha1(str(key).encode()).hexdigest()[:10]
                p = os.path.join(rdir, 'v_%s.json' % h)
                with open(p, 'w') as f:
                    json.dump(dict(property=self.prop, key=key, message=msg,
                                   detail=detail), f, indent=1, default=str)
                if i < 8:
                    print('# %s: %s' % (key, str(msg)[:600]))
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
            print('# %d violating cases in all' % len(new))
            sys.stdout.flush()
            sys.exit(1)
        print('OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
            self.prop, tier(), cov['states'], cov['transitions'],
            cov['traces_validated_against_impl'], ev['wall_s']))
        sys.stdout.flush()
        sys.exit(0)


def run(cmd, timeout=600, cwd=None, ok=True, input=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd=cwd, input=input)
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout after %ss: %s' % (timeout, ' '.join(cmd)[:200])
    out = p.stdout.decode('utf-8', 'replace')
    err = p.stderr.decode('utf-8', 'replace')
    return p.returncode, out, err


def _worker(args):
    fn, item, tag = args
    with Scratch(tag):
        try:
            return fn(item)
        except HarnessError as e:
            return dict(harness_error=str(e))
        except Exception:
            return dict(harness_error=traceback.format_exc())


def pmap(fn, items, tag='w', nproc=None):
    """Run fn over items in forked workers, each in its own scratch directory.
    A harness error aborts the check with exit status 2."""
    import multiprocessing as mp
    items = list(items)
    if not items:
        return
    ctx = mp.get_context('fork')
    n = min(nproc or NPROC, len(items))
    with ctx.Pool(n, maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(_worker, [(fn, i, tag) for i in items]):
            if r is not None and 'harness_error' in r:
                pool.terminate()
                sys.stderr.write('HARNESS ERROR\n' + r['harness_error'] + '\n')
                sys.stdout.flush()
                sys.exit(2)
            yield r


def chunks(lst, n):
    lst = list(lst)
    return [lst[i:i + n] for i in range(0, len(lst), n)]


def exc_text():
    return traceback.format_exc(limit=-6)
