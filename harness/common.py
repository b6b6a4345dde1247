"""Shared machinery: running TLC, collecting violations, writing evidence."""
import itertools
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The code does something the specification does not allow"""


class Machinery(Exception):
    """The checking machinery itself failed: never reported as a violation"""


def frac(v):
    return Fraction(v[0], v[1])


def close(a, b, rel=1e-12, abs_=1):
    bound = abs_ + rel * max(abs(a), abs(b))
    return a == b or (bound < float('inf') and abs(a - b) <= bound)      # nothing is close to infinity


# ---------------------------------------------------------------- TLC
STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')
SIMSTATS = re.compile(r'The number of states generated: (\d+)')


def cfg_text(constants, spec='SPECIFICATION Spec', extra=()):
    lines = [spec, 'CONSTANTS']
    for k, v in constants.items():
        lines.append(f'  {k} {v}' if str(v).startswith('<-') else f'  {k} = {v}')
    return '\n'.join(lines + ['CHECK_DEADLOCK FALSE'] + list(extra)) + '\n'


def tla(v):
    """Python value -> TLA+ constant"""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, (int,)):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith('<-') else '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    raise TypeError(v)


class Tlc:
    """One TLC process. Iterating yields the JSON values it prints; afterwards .generated/.distinct are set"""

    def __init__(self, module, cfg, scratch, simulate=None, depth=None, seed=1, workers=1, heap='2g', timeout=3000):
        self.dir = tempfile.mkdtemp(prefix='tlc', dir=scratch)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(self.dir, f))
        with open(os.path.join(self.dir, 'X.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', f'-Xmx{heap}', '-Xss256m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
               '-XX:TieredStopAtLevel=4', f'-Djava.io.tmpdir={self.dir}', '-cp', TLA_CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(self.dir, 'md'), '-noGenerateSpecTE', '-config', 'X.cfg']
        if simulate:
            cmd += ['-simulate', f'num={simulate}', '-depth', str(depth), '-seed', str(seed)]
        cmd += [f'{module}.tla']
        self.cmd = cmd
        self.log = []
        self.generated = self.distinct = 0
        self.deadline = time.time() + timeout
        self.proc = subprocess.Popen(cmd, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, text=True, errors='replace')

    def __iter__(self):
        for line in self.proc.stdout:
            if line.startswith('"@@'):
                try:
                    yield json.loads(json.loads(line)[2:])
                except ValueError as e:
                    raise Machinery(f'unreadable TLC output: {e}: {line[:200]}')
            else:
                self.log.append(line)
                m = STATS.search(line)
                if m:
                    self.generated, self.distinct = int(m[1]), int(m[2])
                m = SIMSTATS.search(line)
                if m:
                    self.generated = self.distinct = int(m[1])
        self.finish()

    def stop(self):
        self.proc.kill()
        self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def errors(self):
        at = next((n for n, l in enumerate(self.log) if 'rror' in l), 0)
        return ''.join(self.log[at:at + 25])[:3000]

    def finish(self):
        rc = self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
        if rc != 0:
            raise Machinery(f'TLC exited with {rc}: {self.errors()}')


def tlc_values(module, constants, scratch, spec='SPECIFICATION Spec', extra=(), **kw):
    """All the values a TLC run prints, with the process for its statistics"""
    t = Tlc(module, cfg_text(constants, spec, extra), scratch, **kw)
    return list(t), t


# ---------------------------------------------------------------- running a check
class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.details = {}
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.phases = []

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *salt):
        return random.Random(repr((self.seed, self.prop) + salt))

    def sample(self, v, limit=4):
        if len(self.samples) < limit:
            self.samples.append(v)

    def count(self, name, n=1):
        self.details[name] = self.details.get(name, 0) + n

    def tlc_stats(self, t):
        self.states += t.distinct
        self.transitions += t.generated

    def violation(self, msg, replay=None):
        self.violations.append((msg, replay or {}))

    def evidence(self):
        return {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': dict(states=self.states, transitions=self.transitions,
                             traces_validated_against_impl=self.traces,
                             samples=self.samples or ['none'], details=dict(self.details, phases=self.phases),
                             exhaustive=False),
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations)}


def _job(args):
    """Runs in a worker process: fn(job, *rest) -> dict(result); exceptions become results"""
    fn, job, kw = args
    try:
        return fn(job, **kw)
    except Machinery as e:
        return {'machinery': str(e)}
    except Exception:
        return {'machinery': traceback.format_exc()}


def pmap(ctx, fn, jobs, procs=CORES, **kw):
    """Runs fn over the jobs in forked workers and merges their results into ctx.
    A result may have: traces, states, transitions, counts, samples, violations, machinery, value"""
    values = []
    jobs = list(jobs)
    if len(jobs) == 0:
        return values
    t0 = time.time()
    mp = multiprocessing.get_context('fork')
    with mp.Pool(min(procs, len(jobs)), maxtasksperchild=None) as pool:
        for r in pool.imap_unordered(_job, [(fn, j, kw) for j in jobs]):
            if 'machinery' in r:
                pool.terminate()
                raise Machinery(r['machinery'])
            ctx.traces += r.get('traces', 0)
            ctx.states += r.get('states', 0)
            ctx.transitions += r.get('transitions', 0)
            for k, v in r.get('counts', {}).items():
                ctx.count(k, v)
            for s in r.get('samples', []):
                ctx.sample(s)
            for m, rep in r.get('violations', []):
                ctx.violation(m, rep)
            if 'value' in r:
                values.append(r['value'])
            if len(ctx.violations) >= 20:
                pool.terminate()
                break
    ctx.phases.append(f'{fn.__name__}: {len(jobs)} jobs, {time.time() - t0:.1f} s')
    return values


def chunks(seq, n):
    seq = list(seq)
    size = max(1, -(-len(seq) // n))
    return [seq[i:i + size] for i in range(0, len(seq), size)]


def setup_repo():
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ.setdefault('TQDM_DISABLE', '1')
