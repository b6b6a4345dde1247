"""Checks of the properties of Atom objects: behaviours of AtomMC replayed on the code."""
import random

from common import Violation, close, frac
from engine import (Checker, all_jobs, check_A, check_acoef, check_aliases, check_comps, check_const, check_decay,
                    check_energies, check_fine, check_freqs, check_gap, check_members, key_job, key_jobs, keys_of, model_job, model_jobs, note,
                    sim_job, sim_jobs)
from common import pmap
from sut import tup, ttup

ALIASES = ["ground", "e", "S 1/2", "meta F=2", "clock*"]
TALIASES = ["cooling", "repump", "t 1", "clock*"]


class Sparse(Checker):
    """Observes after a step with probability .5, so that laziness is exercised too, and always at the end"""
    def start(self, suts, beh):
        self.left = len([s for s in beh['steps'] if s['op']['op'] != 'skip'])
        self.often = self.rng.choice([0, .5, 1])
        if self.rng.random() < self.often or self.left == 0:
            self.observe(suts[0], beh['start'])

    def after(self, suts, who, step, prevs, pre):
        self.left -= 1
        if self.left == 0:
            for s, o in zip(suts, step['ss']):
                self.observe(s, o['obs'])
        elif self.rng.random() < self.often:
            self.observe(suts[who], step['ss'][who]['obs'])


# ---------------------------------------------------------------- C02
class C02(Sparse):
    def observe(self, sut, obs):
        check_energies(sut, obs['en'])
        if self.rng.random() < .3:
            check_const(sut, obs['const'])


def run_C02(ctx):
    kinds = ["setE", "nudgeE", "setHf", "setG", "setGF", "setB", "setQ", "setF", "read"]
    jobs = sim_jobs(ctx, 'hier', 'WHier', kinds, ['en', 'const'], C02, 7, ctx.n(400, 12000), drawn='RHier')
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)
    import checks_tables
    checks_tables.shifts(ctx)


# ---------------------------------------------------------------- C03
class C03(Checker):
    """A manifold moves rigidly, the others stay; judged on differences so that only moving matters"""
    def look(self, sut, rows):
        out = {}
        for r in rows:
            p = tup(r['p'])
            o = sut.nav(p)
            out[p] = (o.level_Hz, o.level.to('Hz').magnitude)
        return out

    def before(self, suts, who, step, prevs):
        if step['op']['op'] != 'setE':
            return None
        sut, rows = suts[who], prevs[who]['obs']['en']
        l = step['op']['p'][0]
        if self.rng.random() < .3:      # leave the sublevels alone until after the assignment
            rows = [r for r in rows if len(r['p']) == 1 or (tup(r['p']) == tup(step['op']['p']))]
        elif self.rng.random() < .3:
            rows = [r for r in rows if self.rng.random() < .4 or r['p'] == step['op']['p']]
        return self.look(sut, rows)

    def after(self, suts, who, step, prevs, pre):
        op = step['op']
        if op['op'] != 'setE':
            return
        sut = suts[who]
        p = tup(op['p'])
        want = sut.hz(op['v'])
        for style in range(5):
            x = sut.nav(p, style)
            for got in (x.level_Hz, x.level.to('Hz').magnitude):
                if not close(got, want, rel=1e-14 * 4, abs_=1e-3):
                    raise Violation(f'{sut.name(p)} was assigned {want!r} Hz but lies at {got!r}')
        post = self.look(sut, [{'p': q} for q in pre])
        if p in pre:
            for n in (0, 1):
                delta = want - pre[p][n]
                for q in pre:
                    if q[0] == p[0]:
                        if not close(post[q][n] - pre[q][n], delta, rel=1e-14 * 16, abs_=1):
                            raise Violation(f'assigning {sut.name(p)} moved {sut.name(q)} by {post[q][n] - pre[q][n]!r} Hz '
                                            f'instead of {delta!r}')
                    elif abs(post[q][n] - pre[q][n]) > 0:
                        raise Violation(f'assigning {sut.name(p)} moved {sut.name(q)}, which is of another manifold, '
                                        f'by {post[q][n] - pre[q][n]!r} Hz')
        # centroids as the specification says
        rows = [r for r in step['ss'][who]['obs']['en'] if len(r['p']) == 1]
        if self.rng.random() < .2:
            check_fine(sut, rows)


def run_C03(ctx):
    kinds = ["setE", "nudgeE", "setE", "setHf", "setB", "read", "setF"]
    show = ['en']
    jobs = sim_jobs(ctx, 'hier', 'WHier', kinds, show, C03, 7, ctx.n(300, 9000), procs=5, drawn='RHier')
    jobs += sim_jobs(ctx, 'tied', 'WTied', ["setE", "nudgeE", "setHf", "setB", "setF", "addTf"], show, C03, 7,
                     ctx.n(120, 5000), procs=3, nocross=False, drawn='RTied')
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)


# ---------------------------------------------------------------- C04
class C04(Checker):
    def start(self, suts, beh):
        check_fine(suts[0], beh['start']['fine'])

    def after(self, suts, who, step, prevs, pre):
        sut, op = suts[who], step['op']
        ob = step['ss'][who]
        check_fine(sut, ob['obs']['fine'])
        check_freqs(sut, ob['obs']['freqs'])
        if op['op'] in ('addT', 'setF') and ob['warn'] != 'any':
            if ob['warn'] == 'yes' and not sut.warned:
                raise Violation('the frequencies of a loop cannot all hold, but there was no warning')
            if ob['warn'] == 'no' and sut.warned:
                raise Violation(f'the frequencies can all hold, but there was a warning: {sut.warned[0].message}')
        for w in sut.warned:
            if ob['warn'] == 'no' and op['op'] not in ('againT', 'addT', 'setF'):
                raise Violation(f'warning although nothing conflicts: {w.message}')


def run_C04(ctx):
    kinds = ["addT", "addTf", "setF1", "setF1", "closeF", "closeF", "againT", "nudgeE", "delT"]
    show = ['fine', 'freqs']
    jobs = sim_jobs(ctx, 'net', 'WNet', kinds, show, C04, 9, ctx.n(500, 12000), procs=5, drawn='RNet')
    jobs += sim_jobs(ctx, 'net2', 'WNet', ["addTf", "closeF", "setF1", "closeF"], show, C04, 11, ctx.n(200, 6000), procs=2, drawn='RNet')
    jobs += all_jobs(ctx, 'WNetSmall', ["setF1", "closeF"], show, C04, ctx.n(2, 3))
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)
    pmap(ctx, model_job, model_jobs(ctx, 'WNetSmall', ["setF1", "addT", "closeF", "delT"], ctx.n(3, 4),
                                    ['AllWellFormed', 'NetworksHold'], props=['AnchorsStay']), scratch=ctx.scratch)


# ---------------------------------------------------------------- C05
class C05(Checker):
    def look(self, sut, en):
        out = {}
        for r in en:
            o = sut.handle(r['p'])
            out[tup(r['p'])] = o.level_Hz
        return out

    def check(self, sut, obs):
        for r in obs['freqs'] + [x for x in obs['sub'] if self.rng.random() < .3]:
            check_gap(sut, r['t'], sut.thandle(r['t']))

    def start(self, suts, beh):
        if self.rng.random() < .5:
            self.check(suts[0], beh['start'])

    def before(self, suts, who, step, prevs):
        if step['op']['op'] != 'setF':
            return None
        return self.look(suts[who], prevs[who]['obs']['en'])

    def after(self, suts, who, step, prevs, pre):
        sut, op = suts[who], step['op']
        obs = step['ss'][who]['obs']
        if op['op'] == 'setF':
            t = ttup(op['t'])
            loose = not any(tup(r['p']) == (x[0],) for r in obs['en'] for x in t)
            # whether the transition could have the frequency is for the specification to say
            gap = next((abs(sut.hz(r['f'])) for r in (obs['freqs'] + obs['sub']) if ttup(r['t']) in (t, t[::-1])), None)
            want = sut.hz(op['v'])
            if gap is not None and close(gap, want, abs_=1):
                for got in (sut.thandle(t).freq_Hz, sut.find_t(t).freq.to('Hz').magnitude):
                    if not close(got, want, rel=2e-14, abs_=4):
                        raise Violation(f'{sut.tname(t)} was assigned {want!r} Hz but has {got!r}')
            # every level moved exactly as the specification's (which leaves the splittings alone)
            was = {tup(r['p']): sut.hz(r['e']) for r in prevs[who]['obs']['en']}
            for r in obs['en']:
                p = tup(r['p'])
                if p in was and p in pre:
                    got, exp = sut.handle(p).level_Hz - pre[p], sut.hz(r['e']) - was[p]
                    if not close(got, exp, rel=1e-9, abs_=400 if len(p) == 1 else 400):
                        raise Violation(f'assigning {sut.tname(t)} moved {sut.name(p)} by {got!r} Hz instead of {exp!r}')
                    base = (p[0],)
                    if len(p) > 1 and base in pre:
                        split0, split1 = pre[p] - pre[base], sut.handle(p).level_Hz - sut.handle(base).level_Hz
                        if not close(split0, split1, abs_=4):
                            raise Violation(f'assigning {sut.tname(t)} changed the splitting of {sut.name(p)}')
        if self.rng.random() < .5:
            self.check(sut, obs)
        check_freqs(sut, [r for r in obs['freqs'] if r['sf']], against_spec=op['op'] == 'setF')


def run_C05(ctx):
    show = ['en', 'freqs', 'sub']
    kinds = ["setF", "setF", "nudgeE", "setHf", "setB"]
    jobs = sim_jobs(ctx, 'hier', 'WHier', kinds, show, C05, 5, ctx.n(200, 6000), procs=4, drawn='RHier')
    jobs += sim_jobs(ctx, 'tied', 'WTied', ["setF", "setF", "addTf", "setHf", "setB"], show, C05, 5, ctx.n(160, 5000), procs=4, drawn='RTied')
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)


# ---------------------------------------------------------------- C06 / C07: lookups judge themselves in Sut
class Lookups(Checker):
    """Every lookup is judged when it is made; the handles must stay the same objects"""
    def after(self, suts, who, step, prevs, pre):
        if step['op']['op'].startswith('look'):
            self.n = getattr(self, 'n', 0) + 1


class C06(Lookups):
    def after(self, suts, who, step, prevs, pre):
        op = step['op']
        if op['op'] == 'lookL' and op['err'] and self.rng.random() < .5:
            check_members(suts[who], step['ss'][who]['obs']['members'])


def run_C06(ctx):
    kinds = ["lookL", "lookL", "lookL", "slice", "setE0", "aliasL", "addL", "delL", "read"]
    jobs = sim_jobs(ctx, 'keys', 'WKeys', ["lookL", "slice", "setE0", "aliasL", "addL"], ['members'], C06, 14,
                    ctx.n(400, 12000), nocross=False, drawn='RKeys', gap=1)
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)
    pmap(ctx, key_job, key_jobs(ctx, ["lookL", "slice"]), scratch=ctx.scratch)


class C07(Lookups):
    pass


def run_C07(ctx):
    jobs = sim_jobs(ctx, 'keys', 'WKeys', ["lookT", "lookTN", "lookTA", "setE0", "aliasT", "aliasL", "addT", "delT"],
                    [], C07, 14, ctx.n(400, 12000), nocross=False, drawn='RKeys', gap=1)
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)
    pmap(ctx, key_job, key_jobs(ctx, ["lookT", "lookTN", "lookTA"]), scratch=ctx.scratch)


# ---------------------------------------------------------------- C08
class C08(Sparse):
    def observe(self, sut, obs):
        m = obs['members']
        check_members(sut, m)
        check_aliases(sut, m, ALIASES, TALIASES)
        # sublevels belong to the atom as their level does, whatever happened to it in between
        if m['levels'] and self.rng.random() < .4:
            l = self.rng.choice(m['levels'])['l']
            joined = [sut.objs[x] for t in m['trans'] if [l] in t for x in (t[0][0], t[1][0])]
            sub = self.rng.choice(list(sut.objs[l].values()))
            if sub.name not in sut.atom.levels.aliases:
                for n, t in sut.atom.linked_levels(sub.name).items():
                    if not all(e.manifold in joined for e in (t.E_1, t.E_2)):
                        raise Violation(f'{sub.name} is linked to {n} although no transition joins their levels')


def run_C08(ctx):
    kinds = ["addL", "addL", "delL", "aliasL", "addT", "addTal", "againT", "delT", "aliasT", "delBad", "delTBad", "selfT", "read"]
    jobs = sim_jobs(ctx, 'cont', 'WCont', kinds, ['members'], C08, 12, ctx.n(700, 16000), procs=7, drawn='RCont', gap=1)
    jobs += all_jobs(ctx, 'WContSmall', ["addL", "delL", "addT"], ['members'], C08, ctx.n(2, 3))
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)
    pmap(ctx, model_job, model_jobs(ctx, 'WContSmall', ["addL", "delL", "addT", "delT", "addTal"], ctx.n(3, 4),
                                    ['AllWellFormed']), scratch=ctx.scratch)


# ---------------------------------------------------------------- C09
class C09(Sparse):
    def observe(self, sut, obs):
        check_comps(sut, obs['comps'], obs['members']['trans'], strengths=False)
        if self.rng.random() < .5:
            check_decay(sut, obs['decay'], ratios=False)


def run_C09(ctx):
    kinds = ["addT", "delT", "selfT", "addL", "delL", "read", "read", "setE0", "lookT", "againT"]
    jobs = sim_jobs(ctx, 'comps', 'WComp', kinds, ['comps', 'members', 'decay'], C09, 7, ctx.n(250, 6000), drawn='RComp')
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)
    import checks_tables
    checks_tables.components(ctx, structure=True, strengths=False)


# ---------------------------------------------------------------- C10
class C10(Sparse):
    def observe(self, sut, obs):
        check_A(sut, obs['A'])
        check_comps(sut, obs['comps'], obs['members']['trans'], structure=False)


def run_C10(ctx):
    kinds = ["addTA", "setA", "setA", "setAC", "setAC", "delT", "setE0", "selfT", "read"]
    jobs = sim_jobs(ctx, 'comps', 'WComp', kinds, ['A', 'comps', 'members'], C10, 6, ctx.n(200, 6000), drawn='RComp')
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)
    import checks_tables
    checks_tables.components(ctx, structure=False, strengths=True)


# ---------------------------------------------------------------- C11
class C11(Sparse):
    def observe(self, sut, obs):
        rows = [r for r in obs['decay'] if self.rng.random() < .5 or len(r['p']) == 1]
        check_decay(sut, rows, keys_of(sut, obs['members']))


def run_C11(ctx):
    kinds = ["addTA", "addTA", "setA", "setAC", "delT", "delL", "addL", "addTf", "aliasL", "againT", "nudgeE", "selfT"]
    jobs = sim_jobs(ctx, 'decay', 'WDecay', kinds, ['decay', 'members'], C11, 7, ctx.n(250, 6000), drawn='RDecay')
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)


# ---------------------------------------------------------------- C12
class C12(Checker):
    def start(self, suts, beh):
        check_members(suts[0], beh['start']['members'])

    def before(self, suts, who, step, prevs):
        # hold on to the transitions that exist
        sut = suts[who]
        return {ttup(t): (sut.thandle(t), sut.thandle(t).A, sut.thandle(t).set_freq)
                for t in prevs[who]['obs']['members']['trans']}

    def after(self, suts, who, step, prevs, pre):
        sut, obs, op = suts[who], step['ss'][who]['obs'], step['op']
        self.selfs = 'loose' if op['op'] == 'pop' else getattr(self, 'selfs', 'exact')
        if op['op'] == 'popInt':
            self.selfs = 'exact'
        if op['op'] == 'delL' and self.selfs == 'loose':
            pass
        check_members(sut, obs['members'], selfs=self.selfs)
        if op['op'].startswith('pop'):
            there = {ttup(t) for t in obs['members']['trans']}
            for t, (h, A, sf) in pre.items():
                if op['op'] == 'popDf' and any({r['l'], r['u']} == {t[0][0], t[1][0]} for r in op['rows']):
                    continue
                if sut.find_t(t) is not h or h.A != A or h.set_freq != sf:
                    raise Violation(f'{op["op"]} replaced or changed the existing transition {sut.tname(t)}')
        check_A(sut, obs['A'])
        check_fine(sut, obs['fine'])
        check_freqs(sut, obs['freqs'])


def run_C12(ctx):
    kinds = ["pop", "pop", "popInt", "popDf", "addT", "delT", "addL", "delL", "setE0"]
    jobs = sim_jobs(ctx, 'pop', 'WPop', kinds, ['members', 'fine', 'freqs', 'A'], C12, 7, ctx.n(400, 10000), drawn='RPop')
    jobs += sim_jobs(ctx, 'high', 'WPopHigh', ["pop", "delT", "delL"], ['members', 'fine', 'freqs', 'A'], C12, 3, ctx.n(8, 100), procs=2)
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)


# ---------------------------------------------------------------- snapshots of everything observable
def snapshot(atom, internal=True):
    """Everything an observer can see, by names. Looking at it populates everything.
    Without internal, the orientation of components within one manifold (and what follows from it) is kept apart"""
    def num(x):
        return None if x is None else x.to('Hz').magnitude

    def levelrec(o):
        t = o.term
        return dict(level=o.level_Hz, shift=o.shift_Hz, alias=o.alias, term=(t.conf, t.term, t.J, t.F, t.mF, t.parity,
                    t.coupling, t.percentage, t.quantum_nums), n=len(o.term), type=type(o).__name__,
                    lande=getattr(o, 'lande', None), gF=getattr(o, 'gF', None), q=getattr(o, 'quadratic_zeeman', None),
                    hf=tuple(num(getattr(o, k)) for k in ('hfA', 'hfB', 'hfC')) if hasattr(o, 'hfA_Hz') else None,
                    kids=list(o.keys()) if type(o).__name__ != 'ZLevel' else None)

    def transrec(t):
        out['internal'].update({t.name: (t.E_lower.name, t.E_upper.name)} if t.E_1.manifold is t.E_2.manifold else {})
        return orient(t, dict(freq=t.freq_Hz, set=num(t.set_freq), A=num(t.A), rel=t.rel_strength, ty=tuple(map(bool, t.allowed_types)),
                    lo=t.E_lower.name, up=t.E_upper.name, alias=t.alias, name=t.name))

    def orient(t, r):
        if not internal and t.E_1.manifold is t.E_2.manifold:
            r['lo'], r['up'] = sorted((r['lo'], r['up']))
        return r
    out = {'name': atom.name, 'internal': {}, 'I': atom.I, 'B': atom.B.to('gauss').magnitude, 'levels': {}, 'trans': {}}
    for l in atom.levels.values():
        out['levels'][l.name] = levelrec(l)
        for f in l.values():
            out['levels'][f.name] = levelrec(f)
            for z in f.values():
                out['levels'][z.name] = levelrec(z)
    for t in atom.transitions.values():
        out['trans'][frozenset((t.E_1.name, t.E_2.name))] = transrec(t)
        for u in t.values():
            out['trans'][frozenset((u.E_1.name, u.E_2.name))] = transrec(u)
            for v in u.values():
                out['trans'][frozenset((v.E_1.name, v.E_2.name))] = transrec(v)
    out['al'] = {k: v.name for k, v in atom.levels.aliases.items()}
    out['tal'] = {k: v.name for k, v in atom.transitions.aliases.items()}
    out['ranks'] = [l.name for l in atom.levels[:]]
    out['linked'] = {}
    if not internal:
        out['internal_apart'] = out.pop('internal')
    own = {t.E_1.name for t in atom.transitions.values() if t.E_1 is t.E_2}
    for n in list(out['levels']):
        if n in out['al'] and out['al'][n] != n:
            continue
        if out['levels'][n]['kids'] is None and len(out['levels']) > 60:
            continue
        try:
            r = {k: round(float(v), 12) for k, v in atom.compute_branching_ratios(n).items()}
        except ValueError:
            r = 'ValueError'
        if not internal and atom.levels[n].manifold.name in own and n not in own:
            r = None
        out['linked'][n] = (sorted(atom.linked_levels(n)), r)
    return out


def diff(a, b, path=''):
    """first difference between two snapshots; numbers may differ by rounding"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f'{path}: {fmt(k)} only in the first'
        for k in b:
            if k not in a:
                return f'{path}: {fmt(k)} only in the second'
        for k in a:
            d = diff(a[k], b[k], f'{path}/{fmt(k)}')
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for n, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{n}]')
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, (int, float)) and a != b:
        return None if close(a, b, abs_=1e-6, rel=1e-12) or (a != a and b != b) else f'{path}: {a!r} / {b!r}'
    return None if a == b or (a != a and b != b) else f'{path}: {a!r} / {b!r}'


def fmt(k):
    return ' - '.join(sorted(k)) if isinstance(k, frozenset) else str(k)


# ---------------------------------------------------------------- C13
class C13(Checker):
    def start(self, suts, beh):
        self.left = len([s for s in beh['steps'] if s['op']['op'] != 'skip'])
        self.other = None

    def before(self, suts, who, step, prevs):
        if len(suts) == 2 and step['op']['op'] != 'save':
            return snapshot(suts[1 - who].atom)

    def after(self, suts, who, step, prevs, pre):
        self.left -= 1
        if step['op']['op'] == 'save':
            if suts[0].atom is suts[1].atom:
                raise Violation('loading gives the very atom that was saved')
            order = [0, 1] if self.rng.random() < .5 else [1, 0]
            sn = {}
            for n in order:
                sn[n] = snapshot(suts[n].atom)
            d = diff(sn[0], sn[1])
            if d:
                raise Violation(f'the loaded atom differs from the saved one: {d}')
            self.share(suts)
        elif pre is not None:
            d = diff(pre, snapshot(suts[1 - who].atom))
            if d:
                raise Violation(f'editing one atom changed the other: {d}')
        if self.left == 0 or self.rng.random() < .3:
            for s, o in zip(suts, step['ss']):
                ob = o['obs']
                check_members(s, ob['members'])
                check_aliases(s, ob['members'], ALIASES, TALIASES)
                check_energies(s, ob['en'])
                check_const(s, ob['const'])
                check_freqs(s, ob['freqs'])
                check_A(s, ob['A'])

    def share(self, suts):
        a = {id(x) for x in suts[0].atom.levels.values()} | {id(x) for x in suts[0].atom.transitions.values()}
        b = {id(x) for x in suts[1].atom.levels.values()} | {id(x) for x in suts[1].atom.transitions.values()}
        if a & b:
            raise Violation('the loaded atom shares objects with the saved one')
        for l in suts[1].atom.levels.values():
            if l.atom is not suts[1].atom:
                raise Violation(f'{l} of the loaded atom does not belong to it')


def run_C13(ctx):
    kinds = ["save", "aliasL", "aliasT", "setE", "setHf", "setG", "setGF", "setB", "setQ", "setF", "addT", "addTA", "delT", "addL",
             "delL", "setA", "setAC", "read", "addTf", "selfT"]
    show = ['members', 'en', 'const', 'freqs', 'A']
    jobs = sim_jobs(ctx, 'save', 'WSave', kinds, show, C13, 9, ctx.n(240, 6000), drawn='RSave', gap=1)
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)
    import checks_tables
    checks_tables.load_bad(ctx)


# ---------------------------------------------------------------- C14
def check_ids(sut, rows):
    for r in rows:
        o = sut.objs[r['l']]
        for n, k in enumerate(('hfA', 'hfB', 'hfC')):
            want = sut.bits(r['id'][n], r['l'], n + 1)
            for got in (getattr(o, k).to('Hz').magnitude, getattr(sut.atom.levels[sut.name([r['l']])], k + '_Hz')):
                if got != want:
                    raise Violation(f'{k} of {sut.name([r["l"]])} is {got!r} Hz instead of {want!r}')
            if r['zero'][n] and want:
                raise Violation(f'{k} of {sut.name([r["l"]])} is {want!r} Hz instead of zero')


class C14(Checker):
    """Constants to the last bit; half of the time the values stand for any number in any unit"""
    def start(self, suts, beh):
        suts[0].tokens = self.rng.random() < .6
        self.left = len([s for s in beh['steps'] if s['op']['op'] != 'skip'])
        check_ids(suts[0], beh['start']['ids'])

    def after(self, suts, who, step, prevs, pre):
        self.left -= 1
        for s, o in zip(suts, step['ss']):
            check_ids(s, o['obs']['ids'])
            if step['op']['op'] == 'csvA' or self.left == 0:
                check_fine(s, o['obs']['fine'])
                check_members(s, o['obs']['members'])
                if not s.tokens:
                    check_energies(s, o['obs']['en'])


def run_C14(ctx):
    kinds = ["csvW", "csvW", "csvA", "csvA", "csvA", "csvHand", "fresh", "fresh", "save", "setHf", "setHf", "setHf", "addL", "delL", "read", "setE0"]
    jobs = sim_jobs(ctx, 'csv', 'WCsv', kinds, ['ids', 'fine', 'members', 'en'], C14, 14, ctx.n(400, 12000), drawn='RCsv', gap=1)
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)


# ---------------------------------------------------------------- C23
class C23(Checker):
    """Rendering judges itself: its operation carries what must be seen"""


def run_C23(ctx):
    kinds = ['dgLevel', 'dgLevel', 'dgArrow', 'dgArrow', 'dgRender', 'dgRender', 'setE', 'setHf', 'setG', 'setGF', 'setB', 'setQ', 'setF', 'read', 'addT', 'dgQuick', 'selfT']
    jobs = sim_jobs(ctx, 'draw', 'WDraw', kinds, [], C23, 18, ctx.n(640, 16000), extra=('INVARIANT LayoutHolds',), drawn='RDraw')
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)


# ---------------------------------------------------------------- C24
class C24(Checker):
    """Plotting judges itself: its operation carries what must be seen"""


def run_C24(ctx):
    kinds = ['plot', 'plot', 'setE', 'setHf', 'setG', 'setGF', 'setB', 'setQ', 'setF', 'read', 'addTA', 'delT', 'setA', 'setAC', 'selfT']
    jobs = sim_jobs(ctx, 'plot', 'WDraw', kinds, [], C24, 14, ctx.n(480, 12000), drawn='RDraw')
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)


# ---------------------------------------------------------------- C22
class C22(Checker):
    """The same edits with the behaviour's reads, without any, and with everything read after every edit"""
    def start(self, suts, beh):
        from engine import Sut, at
        self.beh = beh
        w = beh['world']
        mk = lambda: Sut(at(), w, random.Random(5), scratch=suts[0].scratch)
        self.quiet, self.loud = mk(), mk()
        self.left = len([s for s in beh['steps'] if s['op']['op'] != 'skip'])
        self.taken = {}

    def take(self, sut, obs):
        """hand out objects"""
        for r in obs['en']:
            if self.rng.random() < .2:
                self.taken[tup(r['p'])] = sut.handle(r['p'])

    def after(self, suts, who, step, prevs, pre):
        sut, op = suts[0], step['op']
        obs = step['ss'][0]['obs']
        if op['op'] not in ('read', 'lookL', 'lookT', 'lookTA', 'lookTN', 'slice'):
            self.quiet.rng, self.loud.rng = random.Random(7), random.Random(7)
            self.quiet.apply(op)
            self.loud.apply(op)
            snapshot(self.loud.atom)
        elif op['op'] == 'read':
            self.loud.apply(op)
        self.take(sut, obs)
        self.left -= 1
        if self.left == 0:
            a, b, c = [snapshot(x.atom, internal=False) for x in (sut, self.quiet, self.loud)]
            apart = [x.pop('internal_apart') for x in (a, b, c)]
            for x, what in ((b, 'never looked at'), (c, 'looked at after every edit')):
                d = diff(a, x)
                if d:
                    raise Violation(f'the atom and one with the same edits {what} differ: {d}')
            check_members(sut, obs['members'])
            check_aliases(sut, obs['members'], ALIASES, TALIASES)
            check_energies(sut, obs['en'])
            check_freqs(sut, obs['freqs'])
            for p, h in self.taken.items():
                if p[0] in [r['l'] for r in obs['members']['levels']] and sut.nav(p) is not h:
                    raise Violation(f'{sut.name(p)} handed out earlier is no longer part of the atom')
            for x in apart[1:]:
                d = diff(apart[0], x)
                if d:
                    note(f'the orientation of a component within one manifold depends on when it was first looked at: {d}')


def run_C22(ctx):
    kinds = ["read", "read", "read", "read", "setE", "setHf", "setG", "setGF", "setB", "setQ", "setF", "addT", "addTA", "delT", "addL", "delL",
             "setA", "setAC", "aliasL", "aliasT", "lookL", "lookT", "againT", "selfT", "popInt"]
    show = ['members', 'en', 'freqs']
    reads = ['R' + str(n) for n in range(1)]
    jobs = sim_jobs(ctx, 'reads', 'WRead', kinds, show, C22, 12, ctx.n(200, 6000), drawn='RSave', gap=1)
    pmap(ctx, sim_job, jobs, scratch=ctx.scratch)
