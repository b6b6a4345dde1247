"""Tables printed by TLC, one row per state, judged row by row against the code."""
import math
import random
import time
import traceback
from fractions import Fraction

from common import Machinery, Tlc, Violation, cfg_text, pmap, tla

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61]


def wsquare(w):
    """the square of a value of the Wigner module, exactly"""
    s = sum(limb * 10000 ** n for n, limb in enumerate(w['s']))
    sq = Fraction(s * s)
    for p, e in zip(PRIMES, w['e']):
        sq *= Fraction(p) ** e
    return sq


def wvalue(w):
    return math.copysign(math.sqrt(wsquare(w)), w['g']) if w['s'] else 0.0


def table_job(job, scratch):
    """One TLC run; job['judge'](row, rng, count) raises Violation"""
    out = dict(traces=0, counts={}, samples=[], violations=[])
    t = Tlc(job['module'], cfg_text(job['constants'], spec=job.get('spec', 'SPECIFICATION Spec'),
                                    extra=['INVARIANT Printed'] + list(job.get('extra', ['INVARIANT Theorems']))), scratch,
            simulate=job.get('sim'), depth=job.get('depth'), seed=job['seed'], timeout=job.get('timeout', 900),
            heap=job.get('heap', '2g'))

    def count(name, n=1):
        out['counts'][name] = out['counts'].get(name, 0) + n
    t0 = time.time()
    try:
        for n, row in enumerate(t):
            bad = judge(job['judge'], row, random.Random(f"{job['seed']}-{n}"), count, scratch)
            out['traces'] += 1
            if n == 0:
                out['samples'].append({'module': job['module'], 'row': str(row)[:300]})
            if bad:
                out['violations'].append((bad.split('\n')[0], {'kind': 'table', 'module': job['module'], 'row': row, 'detail': bad}))
                if len(out['violations']) >= 3:
                    t.stop()
                    break
            if time.time() - t0 > job.get('cap', 1e9):
                count('stopped at the time cap')
                t.stop()
                break
    finally:
        if t.proc.poll() is None:
            t.stop()
    out['states'], out['transitions'] = t.distinct, t.generated
    return out


def judge(fn, row, rng, count, scratch):
    try:
        fn(row, rng, count, scratch)
    except Violation as e:
        return str(e)
    except (Machinery, MemoryError):
        raise
    except Exception as e:
        # an exception of the harness itself on the unchanged tree shows up at once; on a changed tree it is the code's
        return f'{type(e).__name__}: {e}\n{traceback.format_exc(limit=-5)}'


def table(ctx, module, constants, judge, jobs=None, **kw):
    """jobs: list of constant overrides, one TLC process each"""
    rng = ctx.rng(module, getattr(judge, '__name__', 'partial'))
    todo = []
    for extra in jobs or [{}]:
        c = dict(constants)
        c.update(extra)
        todo.append(dict(module=module, constants={k: (v if isinstance(v, str) and v.startswith('<-') else tla(v)) for k, v in c.items()},
                         judge=judge, seed=rng.randrange(1, 2 ** 31), **kw))
    return pmap(ctx, table_job, todo, scratch=ctx.scratch)
