"""Replays behaviours of AtomMC on real atoms, observation by observation."""
import hashlib
import json
import math
import os
import random
import time

from common import Machinery, Tlc, Violation, cfg_text, close, frac, tla
from sut import BULKY, Sut, load, tup, ttup

AT = None


def at():
    global AT
    if AT is None:
        AT = load()
    return AT


# ---------------------------------------------------------------- comparing observations
def same_obj(got, want, what):
    if got is not want:
        raise Violation(f'{what} is another object than the one handed out earlier')


def check_fine(sut, rows, names=True):
    """centroids: rel. 1e-12 of a few hundred THz is a fraction of a kHz"""
    for r in rows:
        obj = sut.handle(r['p'])
        want = sut.hz(r['e'])
        for got in (obj.level_Hz, obj.level.to('Hz').magnitude):
            if not close(got, want):
                raise Violation(f'{sut.name(r["p"])} lies at {got!r} Hz instead of {want!r}')


def check_energies(sut, rows, energies=True, shifts=True, via=None):
    for r in rows:
        p = r['p']
        obj = via(p) if via else sut.nav(p)
        same_obj(obj, sut.handle(p), f'level {sut.name(p)}')
        if shifts and len(p) > 1:
            want = sut.hz(r['s'])
            for got in (obj.shift_Hz, obj.shift.to('Hz').magnitude):
                if not close(got, want):
                    raise Violation(f'{sut.name(p)} is shifted by {got!r} Hz instead of {want!r}')
        if energies:
            want = sut.hz(r['e'])
            for got in (obj.level_Hz, obj.level.to('Hz').magnitude):
                if not close(got, want):
                    raise Violation(f'{sut.name(p)} lies at {got!r} Hz instead of {want!r}')


def check_const(sut, c):
    if not close(sut.atom.B.to('gauss').magnitude, float(c['b']), abs_=1e-9):
        raise Violation(f'field is {sut.atom.B} instead of {c["b"]} G')
    for r in c['qz']:
        if tup(r['p'])[0] in [x['l'] for x in c['lv']]:
            got, want = sut.nav(r['p']).quadratic_zeeman, float(frac(r['v'])) * sut.unit
            if not close(got, want):
                raise Violation(f'quadratic coefficient of {sut.name(r["p"])} is {got} instead of {want}')
    for r in c['gf'] if sut.rng.random() < .5 else []:
        got, want = sut.nav(r['p']).gF, float(frac(r['v']))
        if not close(got, want, abs_=1e-12):
            raise Violation(f'gF of {sut.name(r["p"])} is {got} instead of {want}')
    for r in c['lv']:
        o = sut.atom.levels[sut.name([r['l']])]
        for n, v in zip(('hfA', 'hfB', 'hfC'), r['hf']):
            want = float(frac(v)) * sut.unit
            got = getattr(o, n).to('Hz').magnitude
            if not close(got, want, abs_=1e-6):
                raise Violation(f'{n} of {o} is {got} Hz instead of {want}')
        if not close(o.lande, float(frac(r['g'])), abs_=1e-12):
            raise Violation(f'Lande value of {o} is {o.lande} instead of {frac(r["g"])}')


def check_freqs(sut, rows, against_spec=True, set_freqs=True):
    """transition frequencies against the specification, and against the energies of the levels"""
    for r in rows:
        t = sut.find_t(r['t'])
        same_obj(t, sut.thandle(r['t']), f'transition {sut.tname(r["t"])}')
        check_gap(sut, r['t'], t)
        want = abs(sut.hz(r['f']))
        if against_spec and not close(t.freq_Hz, want):
            raise Violation(f'frequency of {sut.tname(r["t"])} is {t.freq_Hz!r} Hz instead of {want!r}')
        if set_freqs and 'sf' in r:
            if (t.set_freq is not None) != bool(r['sf']):
                raise Violation(f'{sut.tname(r["t"])} has assigned frequency {t.set_freq}')
            if r['sf'] and not close(t.set_freq.to('Hz').magnitude, sut.hz(r['sf'])):
                raise Violation(f'assigned frequency of {sut.tname(r["t"])} is {t.set_freq} instead of {sut.hz(r["sf"])} Hz')


def check_gap(sut, path, t):
    a, b = sut.nav(path[0]), sut.nav(path[1])
    gap = abs(a.level_Hz - b.level_Hz)
    # rounding of the levels themselves may show in their difference
    tol = 1e-15 * 4 * max(abs(a.level_Hz), abs(b.level_Hz))
    for got in (t.freq_Hz, t.freq.to('Hz').magnitude):
        if not close(got, gap, abs_=1e-2 + tol):
            raise Violation(f'frequency of {sut.tname(path)} is {got!r} Hz, its levels are {gap!r} Hz apart')
    if gap > 1:
        wl = t.wl.to('m').magnitude
        if not close(wl, 299792458.0 / gap, rel=1e-9, abs_=0):
            raise Violation(f'wavelength of {sut.tname(path)} is {wl!r} m instead of {299792458.0 / gap!r}')


def check_A(sut, rows):
    for r in rows:
        t = sut.find_t(r['t'])
        check_acoef(sut, t, r['A'], sut.tname(r['t']))


def check_acoef(sut, t, A, name):
    if not A:
        if t.A is not None:
            raise Violation(f'{name} has A = {t.A} although none was given')
    else:
        if t.A is None:
            raise Violation(f'{name} has no A coefficient instead of {frac(A)} MHz')
        got = t.A.to('Hz').magnitude
        if not close(got, float(frac(A)) * 1e6, rel=1e-9, abs_=1e-6):
            raise Violation(f'{name} has A = {got!r} Hz instead of {float(frac(A)) * 1e6!r}')


def check_members(sut, m, selfs='exact', empty_aliases=()):
    a, rng = sut.atom, sut.rng
    want = {r['l'] for r in m['levels']}
    names = {sut.name([l]): l for l in want}
    lv = a.levels
    if len(lv) != len(want):
        raise Violation(f'{len(lv)} levels in the atom instead of {len(want)}: {lv.list_names()}')
    for what, got in (('iteration', list(lv)), ('keys', list(lv.keys())), ('list_names', list(lv.list_names()))):
        if sorted(got) != sorted(names):
            raise Violation(f'{what} of the levels gives {got} instead of {sorted(names)}')
    for what, got in (('values', list(lv.values())), ('levels', list(lv.levels())), ('slice', lv[:])):
        if sorted(map(id, got)) != sorted(id(sut.objs[l]) for l in want):
            raise Violation(f'{what} of the levels gives {[str(x) for x in got]} instead of {sorted(names)}')
    for n, l in names.items():
        if n not in {r['a'] for r in m['al']}:
            same_obj(lv[n], sut.objs[l], f'level {n}')
    # names of levels that are not there
    given = {r['a']: r['p'] for r in m['al']}
    for l in range(1, len(sut.lv) + 1):
        n = sut.name([l])
        if l not in want and n not in given:
            for key in (n, n + ' F=' + fr0(sut, l)):
                try:
                    got = lv[key]
                except KeyError:
                    continue
                raise Violation(f'{key!r} is not in the atom but its key returns {got}')
    ts = a.transitions
    pairs = {frozenset((sut.name(t[0]), sut.name(t[1]))): t for t in m['trans']}
    want_t = set(pairs)
    keys = list(ts.keys())
    got_t = [frozenset(k) for k in keys]
    if selfs != 'exact':        # internal transitions of levels may be there as well
        extra = [k for k in got_t if len(k) == 1 and k not in want_t]
        got_t = [k for k in got_t if k not in extra]
    else:
        extra = []
    show = lambda s: sorted(' - '.join(sorted(x)) for x in s)
    if len(set(got_t)) != len(got_t) or set(got_t) != want_t:
        raise Violation(f'the transitions are {show(got_t)} instead of {show(want_t)}')
    if len(ts) != len(want_t) + len(extra):
        raise Violation(f'{len(ts)} transitions in the atom instead of {len(want_t) + len(extra)}')
    if [frozenset(k) for k in ts] != [frozenset(k) for k in keys]:
        raise Violation('iterating over the transitions does not give their keys')
    if sorted(show(map(frozenset, ts.list_names(False)))) != sorted(show(map(frozenset, keys))):
        raise Violation('list_names of the transitions does not give their keys')
    if sorted(show(map(frozenset, ts.list_names()))) != sorted(show(frozenset(k) for k in keys if k[0] != k[1])):
        raise Violation('list_names of the transitions does not hide exactly the self-transitions')
    vals = list(ts.values())
    if len(set(map(id, vals))) != len(vals) or len(vals) != len(keys):
        raise Violation('values of the transitions are not one per key')
    for k, t in zip(keys, vals):
        if {t.E_1.name, t.E_2.name} != set(k) or {t.E_lower.name, t.E_upper.name} != set(k):
            raise Violation(f'transition {k} joins {t.E_1} and {t.E_2}')
    for t in m['trans']:
        same_obj(sut.find_t(t), sut.thandle(t), f'transition {sut.tname(t)}')
        k = sut.tname(t)
        if not any(n in given for n in k):
            same_obj(ts[k], sut.thandle(t), f'transition {k}')
            same_obj(ts[k[1], k[0]], sut.thandle(t), f'transition {k} (reversed)')
    for x in range(1, len(sut.lv) + 1):
        for y in range(x, len(sut.lv) + 1):
            k = (sut.name([x]), sut.name([y]))
            if frozenset(k) not in want_t and (x != y or selfs == 'exact') and not any(n in given for n in k):
                try:
                    got = ts[k]
                except KeyError:
                    continue
                raise Violation(f'{k} is not in the atom but its key returns {got}')


def fr0(sut, l):
    from sut import fr
    return fr(abs(sut.i2 - sut.lv[l - 1]['j']))


def check_aliases(sut, m, aliases, taliases):
    given = {r['a']: r['p'] for r in m['al']}
    for al in aliases:
        if al in given:
            try:
                got = sut.atom.levels[al]
            except KeyError:
                raise Violation(f'alias {al!r} is unknown, it was given to {sut.name(given[al])}')
            same_obj(got, sut.handle(given[al]), f'level with alias {al!r} ({got}; it was last given to {sut.name(given[al])})')
        else:
            try:
                got = sut.atom.levels[al]
            except KeyError:
                continue
            raise Violation(f'alias {al!r} of nothing in the atom returns {got}')
    given = {r['a']: r['t'] for r in m['tal']}
    for al in taliases:
        if al in given:
            try:
                got = sut.atom.transitions[al]
            except KeyError:
                raise Violation(f'transition alias {al!r} is unknown, it was given to {sut.tname(given[al])}')
            same_obj(got, sut.thandle(given[al]),
                     f'transition with alias {al!r} ({got}; it was last given to {sut.tname(given[al])})')
        else:
            try:
                got = sut.atom.transitions[al]
            except KeyError:
                continue
            raise Violation(f'transition alias {al!r} of nothing in the atom returns {got}')


ACCESS = ['len', 'values', 'keys', 'items', 'iter', 'subtransitions']


def parts(rng, t):
    """the components of a transition, first asked for in a random way"""
    how = rng.choice(ACCESS)
    n = None
    if how == 'len':
        n = len(t)
    elif how == 'keys':
        n = len(list(t.keys()))
    elif how == 'iter':
        n = len(list(t))
    elif how == 'items':
        n = len(list(t.items()))
    vals = list(t.values())
    if n is None:
        n = len(t.subtransitions())
    if n != len(vals) or n != len(t) or [id(v) for _, v in t.items()] != [id(v) for v in vals]:
        raise Violation(f'the views of the components of {t} disagree')
    if list(t.keys()) != list(t) or len(set(t.keys())) != n:
        raise Violation(f'the keys of the components of {t} disagree')
    return vals


def check_comps(sut, comps, trans, structure=True, strengths=True):
    """comps: [t, A, st, ty] for every component; trans: the fine transitions"""
    want = {}
    for c in comps:
        t = ttup(c['t'])
        want.setdefault((t[0][:-1], t[1][:-1]), {})[t] = c
    todo = [ttup(t) for t in trans]
    sut.rng.shuffle(todo)
    for f in todo:
        h = sut.thandle(f)
        level2 = check_parts(sut, h, f, want.get(f, {}), structure, strengths)
        sut.rng.shuffle(level2)
        for t, comp in level2:
            check_parts(sut, comp, t, want.get(t, {}), structure, strengths)


def check_parts(sut, h, f, want, structure, strengths):
    index = {}
    for t in want:
        index[frozenset((id(sut.handle(t[0])), id(sut.handle(t[1]))))] = t
    vals = parts(sut.rng, h)
    seen = []
    for v in vals:
        k = frozenset((id(v.E_lower), id(v.E_upper)))
        if k not in index:
            raise Violation(f'{h} has a component {v} that is not permitted')
        seen.append((index[k], v))
        if structure:
            if v.parent is not h or v.atom is not sut.atom:
                raise Violation(f'component {v} does not know its parent or atom')
            # orientation
            t = index[k]
            if f[0][0] != f[1][0] and v.E_lower is not sut.handle(t[0]):
                raise Violation(f'component {v} points the other way than its parent')
            ty = [bool(x) for x in v.allowed_types]
            if ty != [bool(x) for x in want[t]['ty']]:
                raise Violation(f'component {v} permits {ty} instead of {want[t]["ty"]}')
    if len(vals) != len(want) or len({t for t, _ in seen}) != len(want):
        missing = [sut.tname(t) for t in want if t not in {x for x, _ in seen}]
        raise Violation(f'{h} has {len(vals)} components instead of {len(want)}; missing: {missing[:4]}')
    for t, v in seen:
        same_obj(v, sut.th.setdefault(t, v), f'component {sut.tname(t)}')
        if strengths:
            c = want[t]
            check_acoef(sut, v, c['A'], f'component {sut.tname(t)}')
            if c['st'] and not close(v.rel_strength, float(frac(c['st'])), rel=1e-9, abs_=1e-12):
                raise Violation(f'relative strength of {sut.tname(t)} is {v.rel_strength} instead of {frac(c["st"])}')
    return seen


def check_decay(sut, rows, keys=None, links=True, ratios=True):
    for r in rows:
        p = r['p']
        key = sut.rng.choice((keys or {}).get(tup(p), [sut.name(p)]))
        tag = f'{key!r} ({sut.name(p)})'
        if links:
            want = {sut.name(q) for q in r['links']}
            got = sut.atom.linked_levels(key)
            if set(got) != want:
                raise Violation(f'levels linked to {tag}: {sorted(got)} instead of {sorted(want)}')
            for q in r['links']:
                t = got[sut.name(q)]
                a, b = sut.handle(p), sut.handle(q)
                if {id(t.E_lower), id(t.E_upper)} != {id(a), id(b)}:
                    raise Violation(f'{tag} is linked to {sut.name(q)} by {t}')
        if not ratios or r['tied']:
            continue
        try:
            got = sut.atom.compute_branching_ratios(key)
        except ValueError:
            if not r['miss']:
                raise Violation(f'branching ratios of {tag} raise ValueError although every decay has an A coefficient')
            continue
        if r['miss']:
            raise Violation(f'branching ratios of {tag} are {got} although a decay has no A coefficient')
        A = {}
        for d in r['to']:
            A[sut.name(d['p'])] = A.get(sut.name(d['p']), 0) + frac(d['A'])
        if set(got) != set(A):
            raise Violation(f'branching ratios of {tag} list {sorted(got)} instead of {sorted(A)}')
        total = sum(A.values())
        if total:
            for n in A:
                if not close(float(got[n]), float(A[n] / total), rel=1e-9, abs_=1e-12):
                    raise Violation(f'branching ratio of {tag} to {n} is {got[n]} instead of {A[n] / total}')
            if not close(sum(got.values()), 1.0, abs_=1e-9):
                raise Violation(f'branching ratios of {tag} sum to {sum(got.values())}')
        life = sut.atom.state_lifetime(key).to('s').magnitude
        want = 2 * math.pi / (float(total) * 1e6) if total else math.inf
        if not (life == want if total == 0 else close(life, want, rel=1e-9, abs_=0)):
            raise Violation(f'lifetime of {tag} is {life} s instead of {want}')


def keys_of(sut, m):
    """keys for every level of the atom: names, aliases, and energy ranks"""
    out = {}
    for r in m['al']:
        out.setdefault(tup(r['p']), []).append(r['a'])
    taken = set(a for v in out.values() for a in v)
    lv = sut.atom.levels
    for r in m['levels']:
        n = sut.name([r['l']])
        out.setdefault((r['l'],), []).extend([] if n in taken else [n, n])
    ranked = sorted(lv.values(), key=lambda x: x.level_Hz)
    for k, x in enumerate(ranked):
        for l, o in sut.objs.items():
            if o is x:
                out[(l,)].append(k)
    return out


# ---------------------------------------------------------------- replay
class Checker:
    """Judges a behaviour. obs dictionaries come from the specification"""
    def __init__(self, rng):
        self.rng = rng

    def start(self, suts, beh):
        pass

    def before(self, suts, who, step, prev):
        pass

    def after(self, suts, who, step, prev, pre):
        pass


NOTES = []


def note(msg):
    """A failure that does not stop the replay: meant for defects that may be listed as known findings"""
    if not NOTES:
        NOTES.append(msg)


def replay(beh, checker_cls, seed, scratch, upto=None):
    """Returns None, or (message, number of the failing step)"""
    rng = random.Random(seed)
    world = beh['world']
    n = -1
    hist = []
    try:
        try:
            sut = Sut(at(), world, rng, scratch=scratch)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f'building the atom raised {type(e).__name__}: {e}')
        suts = [sut]
        chk = checker_cls(random.Random(rng.random()))
        guard(chk.start, suts, beh)
        prev = {'obs': beh['start'], 'warn': 'no'}
        prevs = [prev]
        for n, st in enumerate(beh['steps']):
            op, who = st['op'], st['who'] - 1
            if op['op'] == 'skip':
                continue
            hist.append((who, op))
            pre = guard(chk.before, suts, who, st, prevs)
            if op['op'] in ('save', 'fresh'):
                r = suts[who].apply(op)
                suts = [suts[who], r]
                st_prev = [prevs[who], prevs[who]]
                guard(chk.after, suts, 0, st, st_prev, pre)
            else:
                suts[who].apply(op)
                guard(chk.after, suts, who, st, prevs, pre)
            prevs = st['ss']
        return None
    except Violation as e:
        w = Sut.__new__(Sut)
        w.lv, w.i2 = world['lv'], world['i']
        text = ' ; '.join(('' if who == 0 else 'copy: ') + Sut.describe(w, op) for who, op in hist)
        first = str(e).split('\n')[0]
        return (f'{first} -- after: {text or "building the atom"}', n, str(e))


def guard(fn, *args):
    """An exception of the code under test while it is being observed is a violation"""
    try:
        return fn(*args)
    except (Violation, Machinery):
        raise
    except MemoryError:
        raise
    except Exception as e:
        import traceback
        raise Violation(f'observing the atom raised {type(e).__name__}: {e}\n{traceback.format_exc(limit=-5)}')


def sim_job(job, scratch):
    """One TLC simulation, every behaviour replayed"""
    out = dict(traces=0, states=0, transitions=0, counts={}, samples=[], violations=[])
    t = Tlc(job['module'], cfg_text(job['constants'], extra=job.get('extra', ('INVARIANT Printed',))), scratch,
            simulate=job.get('num'), depth=job.get('tlcdepth'), seed=job['seed'], timeout=job.get('timeout', 900))
    seen = set()
    cls = job['checker']
    t0 = time.time()
    try:
        for n, beh in enumerate(t):
            key = hashlib.md5(json.dumps(beh, sort_keys=True).encode()).hexdigest()
            if key in seen:
                continue
            seen.add(key)
            seed = f"{job['seed']}-{n}"
            bad = replay(beh, cls, seed, scratch)
            out['traces'] += 1
            for st in beh['steps']:
                k = 'op ' + st['op']['op']
                out['counts'][k] = out['counts'].get(k, 0) + 1
            if n == 0:
                out['samples'].append({'world': beh['world']['id'], 'ops': [{k: v for k, v in s['op'].items() if k not in BULKY} for s in beh['steps']][:6]})
            if bad:
                msg, at_step, full = bad
                out['violations'].append((msg, {'kind': 'behaviour', 'checker': cls.__name__, 'seed': seed,
                                                'step': at_step, 'detail': full, 'behaviour': beh}))
                if len(out['violations']) >= 3:
                    t.stop()
                    break
            if time.time() - t0 > job.get('cap', 600):
                out['counts']['stopped at the time cap'] = 1
                t.stop()
                break
    finally:
        if t.proc.poll() is None:
            t.stop()
    if NOTES:
        out['violations'].append((NOTES.pop(), {'kind': 'note'}))
    out['states'], out['transitions'] = t.distinct, t.generated
    return out


def sim_jobs(ctx, name, worlds, kinds, show, checker, depth, num, procs=8, nocross=True, extra=(), drawn=None, gap=10000):
    """Simulation jobs: num behaviours in total, split over procs TLC processes.
    Some of them (more in the thorough tier) run on worlds that TLC draws at random, named by drawn."""
    if drawn:
        free = max(1, (3 * procs) // 8)
        more = ctx.n(free, 8 * free)
        return (sim_jobs(ctx, name, worlds, kinds, show, checker, depth, num * (procs - free) // procs, procs - free, nocross, extra, gap=gap)
                + sim_jobs(ctx, name + '-drawn', drawn, kinds, show, checker, depth, num * free // procs, more, nocross, extra, gap=gap))
    consts = {'Worlds': f'<- {worlds}', 'Kinds': tla(set(kinds)), 'Depth': tla(depth), 'Show': tla(set(show)),
              'Sim': 'TRUE', 'MinGap': tla(gap), 'NoCross': tla(nocross), 'Emit': 'TRUE', 'Often': tla({k for k in kinds if kinds.count(k) > 1})}
    rng = ctx.rng(name)
    return [dict(module='AtomMC', constants=consts, num=max(1, num // procs), tlcdepth=depth + 1, checker=checker,
                 seed=rng.randrange(1, 2 ** 31), cap=ctx.n(150, 900),
                 extra=('INVARIANT Printed',) + tuple(extra)) for _ in range(procs)]


def all_jobs(ctx, worlds, kinds, show, checker, depth, nocross=True, gap=10000):
    """One exhaustive job: every sequence of operations of the given length"""
    consts = {'Worlds': f'<- {worlds}', 'Kinds': tla(set(kinds)), 'Depth': tla(depth), 'Show': tla(set(show)),
              'Sim': 'FALSE', 'Often': '{}', 'MinGap': tla(gap), 'NoCross': tla(nocross), 'Emit': 'TRUE'}
    return [dict(module='AtomMC', constants=consts, checker=checker, seed=ctx.seed, cap=ctx.n(200, 1500))]


def model_job(job, scratch):
    """Exhaustive exploration of the specification itself: no replay, invariants only"""
    t = Tlc('AtomMC', cfg_text(job['constants'], extra=['VIEW View'] + list(job['extra'])), scratch,
            workers=job.get('workers', 8), timeout=job.get('timeout', 900))
    for _ in t:
        pass
    return dict(states=t.distinct, transitions=t.generated, counts={f'distinct model states, {job["name"]}': t.distinct})


def model_jobs(ctx, worlds, kinds, depth, invariants, nocross=True, props=(), gap=10000):
    consts = {'Worlds': f'<- {worlds}', 'Kinds': tla(set(kinds)), 'Depth': tla(depth), 'Show': '{}',
              'Sim': 'FALSE', 'Often': '{}', 'MinGap': tla(gap), 'NoCross': tla(nocross), 'Emit': 'FALSE'}
    return [dict(constants=consts, name=f'{worlds} to depth {depth}',
                 extra=['CONSTRAINT Bounded'] + [f'INVARIANT {i}' for i in invariants] + [f'PROPERTY {i}' for i in props])]


def key_job(job, scratch):
    """Every key of the atoms of some worlds: the lookups judge themselves"""
    out = dict(traces=0, counts={}, violations=[])
    consts = {'Worlds': f"<- {job['worlds']}", 'Kinds': tla(set(job['kinds'])), 'Often': '{}', 'Depth': '0', 'Show': '{}', 'Sim': 'FALSE',
              'MinGap': '10000', 'NoCross': 'FALSE', 'Emit': 'FALSE'}
    t = Tlc('AtomMC', cfg_text(consts, spec='INIT Init\nNEXT Next', extra=('INVARIANT KeysPrinted', 'CONSTRAINT Bounded')), scratch,
            timeout=job.get('timeout', 600))
    for n, tab in enumerate(t):
        if n % job['parts'] != job['part']:
            continue
        ops = sorted(tab['keys'], key=lambda o: json.dumps(o, sort_keys=True))
        rng = random.Random(f"{job['seed']}-{n}")
        rng.shuffle(ops)
        ops = ops[:job['limit']]
        for group in [ops[k::4] for k in range(4)]:        # four atoms, so that every key also meets an untouched one early
            bad = None
            try:
                sut = Sut(at(), tab['world'], rng, scratch=scratch)
                for o in group:
                    sut.apply(o)
                out['counts']['keys looked up'] = out['counts'].get('keys looked up', 0) + len(group)
            except Violation as e:
                bad = str(e)
            out['traces'] += 1
            if bad:
                out['violations'].append((bad.split('\n')[0], {'kind': 'keys', 'world': tab['world']['id'], 'detail': bad}))
                break
    out['states'], out['transitions'] = t.distinct, t.generated
    return out


def key_jobs(ctx, kinds, worlds='WKeyTab', parts=4):
    return [dict(worlds=worlds, kinds=kinds, seed=ctx.seed, limit=ctx.n(4000, 10 ** 9), part=p, parts=parts,
                 timeout=ctx.n(300, 1500)) for p in range(parts)]
