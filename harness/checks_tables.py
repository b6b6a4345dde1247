"""Checks driven by tables of the specification."""
import functools
import math
import os
import pickle
import random
import types

from common import Violation, close, frac, pmap
from engine import at, parts
from sut import fr
from tables import table, wsquare, wvalue

MUB = 1.39962449361e6


def need(ok, msg):
    if not ok:
        raise Violation(msg)


def half(d, rng):
    """a doubled integer as the code may be given it"""
    forms = [d / 2, fr(d)]
    if d % 2 == 0:
        forms.append(d // 2)
    return rng.choice(forms)


def split(xs, n):
    xs = list(xs)
    return [xs[k::n] for k in range(n) if xs[k::n]]


# ---------------------------------------------------------------- C01
CONFS = [('6s', '2S'), ('4f14.5d', '2D'), ('6p', '2P*'), ('4f13(2F*<7/2>).6s', '(7/2,1/2)*'), ('4f13(2F*<7/2>).5d.6s(3D)', '3[3/2]*'),
         ('5d6(5D)6s(6D)6p', '7P*'), ('3d9(2D<5/2>)4f', '2[7/2]*'), ('6s.6p', '3P*'), ('4f.5d(3P*)6s', 'P 2[3/2]*')]
TERMS = [('6s', '2S'), ('4f14.5d', '2D'), ('6p', '2P*'), ('4f13(2F*<7/2>).5d.6s(3D)', '3[3/2]*'), ('5d6(5D)6s(6D)6p', '7P*'),
         ('3d9(2D<5/2>)4f', '2[7/2]*'), ('6s.6p', '3P*'), ('4f13(2F*<7/2>)5d6s(3D<2>)', '(7/2,2)*')]
FIRST = ['len', 'values', 'keys', 'items', 'iter', 'index', 'sublevels']


def first(o, how, label):
    """asks for the sublevels of o in some way"""
    if how == 'len':
        return len(o)
    if how == 'index':
        return o[label]
    if how == 'iter':
        return list(o)
    return list(getattr(o, how)())


def views(o):
    """the sublevels of o as a dict by key, all views agreeing"""
    ks, vs, its, n = list(o.keys()), list(o.values()), list(o.items()), len(o)
    need(list(o) == ks, f'iterating over {o} gives {list(o)}, its keys are {ks}')
    need([k for k, _ in its] == ks and [id(v) for _, v in its] == [id(v) for v in vs], f'the items of {o} are not its keys and values')
    need(n == len(ks) == len(vs) == len(set(ks)) == len(set(map(id, vs))), f'{o} has length {n} but keys {ks}')
    need([id(v) for v in o.sublevels()] == [id(v) for v in vs], f'sublevels() and values() of {o} disagree')
    d = dict(its)
    for k in ks:
        need(o[k] is d[k], f'{o}[{k!r}] is not the value under its key')
    return d


def judge_C01(row, rng, count, scratch):
    A = at()
    conf, term = rng.choice(TERMS)
    I, J = half(row['i'], rng), half(row['j'], rng)
    lvl = A.EnergyLevel(A.Term(conf, term, J), A.Q_(rng.choice([0.0, 1.5, 812.25]), 'THz'), lande=1.25)
    how = rng.choice(['add', 'eager', 'ctor', 'append', 'trans'])
    if how == 'ctor':
        a = A.Atom('X', I=I, levels=[lvl])
    else:
        a = A.Atom('X', I=I)
        if how == 'trans':
            a.add_transition(A.Transition(lvl, A.EnergyLevel(A.Term('8s', '2S', '1/2'), A.Q_(999.0, 'THz'))))
        elif how == 'append':
            a.levels.append(lvl)
        else:
            a.add_level(lvl, **({'populate_sublevels': True} if how == 'eager' else {}))
    base = f'{conf} {term}{row["jt"]}'
    tag = f'{base} in an atom with I={I!r} (J given as {J!r}, added by {how}, '
    need(lvl.name == base, f'the level {base} is named {lvl.name}')
    if rng.random() < .4:
        a.levels[base]
    want = {f'F={s["ft"]}': s for s in row['f']}
    f1 = rng.choice(FIRST)
    tag += f'first asked by {f1}): '
    first(lvl, f1, rng.choice(sorted(want)))
    got = views(lvl)
    need(sorted(got) == sorted(want), tag + f'sublevels {sorted(got)} instead of {sorted(want)}')

    def belongs(x, p, name, f, m):
        t = x.term
        need(x.parent is p and x.manifold is lvl and x.atom is a, tag + f'{name} does not report its parent, manifold and atom')
        need(x.name == name and str(x) == name, tag + f'{name} is named {x.name}')
        need((t.conf, t.term, t.J, t.parity) == (conf, term, row['j'] / 2, -1 if '*' in term else 1),
             tag + f'{name} has configuration, term, J, parity {(t.conf, t.term, t.J, t.parity)}')
        need(t.F == f / 2 and t.F_frac == fr(f), tag + f'{name} has F={t.F}, {t.F_frac}')
        need((t.mF, t.mF_frac) == ((None, None) if m is None else (m / 2, fr(m))), tag + f'{name} has mF={t.mF}, {t.mF_frac}')
    for k, s in want.items():
        h = got[k]
        belongs(h, lvl, f'{base} F={s["ft"]}', s['f'], None)
        zw = {f'mF={mt}': m for m, mt in zip(s['m'], s['mt'])}
        first(h, rng.choice(FIRST), rng.choice(sorted(zw)))
        zs = views(h)
        need(sorted(zs) == sorted(zw), tag + f'{h} has sublevels {sorted(zs)} instead of {sorted(zw)}')
        for zk, m in zw.items():
            belongs(zs[zk], h, f'{base} F={s["ft"]} {zk}', s['f'], m)
            count('Zeeman sublevels')
    again = views(lvl)
    need(list(map(id, again.values())) == list(map(id, got.values())), tag + 'its sublevels are other objects when asked again')
    need(lvl.term.F is None and lvl.term.mF is None and lvl.manifold is lvl and lvl.atom is a, tag + 'the level itself changed')


def run_C01(ctx):
    n, m = ctx.n(10, 15), ctx.n(11, 17)
    for _ in range(ctx.n(1, 3)):
        table(ctx, 'ShiftMC', dict(MaxJ=m), judge_C01, jobs=[dict(MinI=a, MaxI=a) for a in range(n)])


# ---------------------------------------------------------------- C02
def judge_shifts(row, rng, count, scratch):
    A = at()
    scale = 10.0 ** rng.choice([3, 6, 9, 10])
    hf = [rng.choice([0.0, rng.uniform(-3, 3) * scale, scale * rng.randrange(-40, 41) / 8]) for _ in range(3)]
    g, B = rng.choice([0.0, 1.0, rng.uniform(-2, 3)]), rng.choice([0.0, rng.uniform(-20, 20), 3000.0])
    e = rng.choice([0.0, 1e12 * rng.random()])
    # values given at construction, or later in any order and unit; sublevels asked for before or after
    later = rng.random() < .6
    kw = {} if later else dict(zip(('hfA', 'hfB', 'hfC'), [A.Q_(x, 'Hz') for x in hf]))
    lvl = A.EnergyLevel(A.Term('6p', '2P*', half(row['j'], rng)), A.Q_(e, 'Hz'), lande=7.5 if later else g, **kw)
    a = A.Atom('X', I=half(row['i'], rng), B=A.Q_(0.0 if later else B, 'G'))
    a.add_level(lvl)
    if later:
        if rng.random() < .5:
            for h in lvl.values():
                h.level_Hz, [z.level_Hz for z in h.values()]
        todo = [lambda: setattr(lvl, 'hfA', A.Q_(hf[0] / 1e6, 'MHz')), lambda: setattr(lvl, 'hfB', A.Q_(hf[1] / 1e9, 'GHz')),
                lambda: setattr(lvl, 'hfC', A.Q_(hf[2] / 1e3, 'kHz')), lambda: setattr(lvl, 'lande', g),
                lambda: setattr(a, 'B', A.Q_(B * 1e3, 'mG'))]
        rng.shuffle(todo)
        for f in todo:
            f()
    total, weight = 0.0, 0.0
    tag = f'I={row["it"]}, J={row["jt"]}, A={hf[0]}, B={hf[1]}, C={hf[2]} Hz, g={g}, {B} G: '
    for s in row['f']:
        h = lvl[f'F={s["ft"]}']
        p = [x * float(frac(s[k])) for x, k in zip(hf, 'dqo')]
        want, size = sum(p), sum(map(abs, p)) + 1e-3 * max(map(abs, hf))
        for got in (h.shift_Hz, h.shift.to('Hz').magnitude):
            need(close(got, want, rel=0, abs_=1e-9 * size + 1e-9), tag + f'F={s["ft"]} is shifted by {got!r} Hz instead of {want!r}')
        for got in (h.level_Hz, h.level.to('Hz').magnitude):
            need(close(got, e + want, rel=1e-12, abs_=1e-9 * size + 1e-3), tag + f'F={s["ft"]} lies at {got!r} Hz instead of {e + want!r}')
        total += (s['f'] + 1) * h.shift_Hz
        weight += (s['f'] + 1) * size
        gF = g * float(frac(s['g']))
        lin = 0.0
        quad = {}
        for m, mt in zip(s['m'], s['mt']):
            z = h[f'mF={mt}']
            if rng.random() < .3:
                quad[m] = rng.uniform(-500, 500)
                z.quadratic_zeeman = quad[m]
            zw = gF * m / 2 * MUB * B
            lin += z.shift_Hz - quad.get(m, 0.0) * B * B
            zw += quad.get(m, 0.0) * B * B
            for got in (z.shift_Hz, z.shift.to('Hz').magnitude):
                need(close(got, zw, rel=1e-9, abs_=1e-6 * (1 + abs(B) * abs(g))), tag + f'{z} is shifted by {got!r} Hz instead of {zw!r}')
            for got in (z.level_Hz, z.level.to('Hz').magnitude):
                need(close(got, e + want + zw, rel=1e-9, abs_=1e-9 * size + 1e-2), tag + f'{z} lies at {got!r} Hz instead of {e + want + zw!r}')
            count('Zeeman shifts')
        need(abs(lin) <= 1e-9 * (1 + abs(gF * MUB * B) * (s['f'] + 1) ** 2) + 1e-8 * B * B, tag + f'the linear Zeeman shifts of F={s["ft"]} sum to {lin}')
    need(abs(total) <= 1e-9 * weight + 1e-6, tag + f'the weighted hyperfine shifts sum to {total} Hz')
    if row['j'] and row['i']:
        top = lvl[f'F={fr(row["i"] + row["j"])}'].shift_Hz
        st = hf[0] * row['i'] * row['j'] / 4 + (hf[1] / 4 if min(row['i'], row['j']) >= 2 else 0) + (hf[2] if min(row['i'], row['j']) >= 3 else 0)
        need(close(top, st, rel=1e-9, abs_=1e-9 * sum(map(abs, hf)) + 1e-6), tag + f'the stretched state is shifted by {top} Hz instead of {st}')


def shifts(ctx):
    n, m = ctx.n(9, 14), ctx.n(10, 16)
    for _ in range(ctx.n(1, 4)):
        table(ctx, 'ShiftMC', dict(MaxJ=m), judge_shifts, jobs=[dict(MinI=a, MaxI=a) for a in range(n)])


# ---------------------------------------------------------------- C09, C10
def judge_comps(structure, strengths, maxz, row, rng, count, scratch):
    A = at()
    par = lambda p: '*' if p < 0 else ''
    p1 = rng.choice([1, -1])
    p2 = p1 * row['par']
    l1 = A.EnergyLevel(A.Term('6a', '2S' + par(p1), half(row['j1'], rng)), A.Q_(10.0, 'THz'))
    l2 = l1 if row['same'] else A.EnergyLevel(A.Term('7b', '2D' + par(p2), half(row['j2'], rng)), A.Q_(rng.choice([1.0, 20.0]), 'THz'))
    a = A.Atom('X', I=half(row['i'], rng))
    Aco = rng.choice([20e6, 1.0, 3.3e3])
    kw = {'A': A.Q_(Aco / 1e6, 'MHz') if rng.random() < .5 else A.Q_(Aco, 'Hz')} if strengths and rng.random() < .85 else {}
    t = A.Transition(l1, l2, **kw)
    tag = f'I={fr(row["i"])}, J={fr(row["j1"])}{par(p1)} - {fr(row["j2"])}{par(p2)}{", the same level" if row["same"] else ""}: '
    if structure:
        need([bool(x) for x in t.allowed_types] == row['ty'], tag + f'permits {t.allowed_types} instead of {row["ty"]}')
    a.add_transition(t)
    if not any(row['ty']):
        if structure:
            need(len(parts(rng, t)) == 0, tag + f'a forbidden transition has components {[v.name for v in t.values()]}')
            for l in (l1, l2):
                for h in l.values():
                    need(not a.linked_levels(h.name), tag + f'{h} is linked to {list(a.linked_levels(h.name))}')
        return
    look = rng.random()
    if structure and look < .3:      # being asked about links first
        a.linked_levels(rng.choice(list(l1.values())).name)
    want = {}
    for c in row['hf']:
        want[(c['f1'], c['f2'])] = c
    got = {}
    for v in parts(rng, t):
        k = (round(2 * v.E_1.term.F), round(2 * v.E_2.term.F))
        if v.E_1.manifold is not l1 or (row['same'] and k[0] > k[1]):
            k = k[::-1]
        need(k not in got, tag + f'two components join F={fr(k[0])} and F={fr(k[1])}')
        got[k] = v
    if structure:
        need(set(got) == set(want), tag + f'components {sorted(got)} instead of {sorted(want)} (doubled F)')
    hsum = {}
    for k, c in want.items():
        if k not in got:
            continue
        v = got[k]
        ctag = tag + f'component F={fr(k[0])} - F={fr(k[1])} '
        if structure:
            need([bool(x) for x in v.allowed_types] == c['ty'], ctag + f'permits {v.allowed_types} instead of {c["ty"]}')
            need(v.parent is t and v.atom is a, ctag + 'does not know its parent or atom')
            if not row['same']:
                up = v.E_upper.manifold is (l1 if l1.level_Hz > l2.level_Hz else l2)
                need(up, ctag + 'points the other way than its parent')
        if strengths:
            st = float(wsquare(c['st']))
            judge_strength(v, kw, Aco, st, ctag)
            hsum.setdefault(k[1], []).append(v.rel_strength)
        if k[0] > maxz or k[1] > maxz or (structure and rng.random() < .3 and len(want) > 6):
            continue
        zwant = {(z['m1'], z['m2']): z for z in c['z']}
        zgot = {}
        diag = row['same'] and k[0] == k[1]
        for z in parts(rng, v):
            q = (round(2 * z.E_1.term.mF), round(2 * z.E_2.term.mF))
            here = got[k].E_1 if round(2 * got[k].E_1.term.F) == k[0] and got[k].E_1.manifold is l1 else got[k].E_2
            if (z.E_1.parent is not here) or (diag and q[0] > q[1]):
                q = q[::-1]
            need(q not in zgot, ctag + f'has two components mF={fr(q[0])} - mF={fr(q[1])}')
            zgot[q] = z
        if structure:
            need(set(zgot) == set(zwant), ctag + f'has components {sorted(zgot)} instead of {sorted(zwant)} (doubled mF)')
        total = 0.0
        for q, z in zgot.items():
            if q not in zwant:
                continue
            count('Zeeman components')
            if structure:
                need([bool(x) for x in z.allowed_types] == zwant[q]['ty'],
                     ctag + f'mF={fr(q[0])} - mF={fr(q[1])} permits {z.allowed_types} instead of {zwant[q]["ty"]}')
                need(z.parent is v and z.atom is a, ctag + 'has a component that does not know its parent or atom')
            if strengths:
                zs = float(wsquare(zwant[q]['st']))
                judge_strength(z, kw, Aco * float(wsquare(c['st'])), zs, ctag + f'mF={fr(q[0])} - mF={fr(q[1])} ')
                total += z.rel_strength
        first_rank = c['ty'][0] or c['ty'][1]
        if strengths and kw and not diag and (first_rank or not row['ty'][0]):
            rank = 2 if first_rank else 4
            if abs(k[0] - k[1]) <= rank <= k[0] + k[1]:
                need(close(total, 1, abs_=1e-9), ctag + f'has Zeeman strengths summing to {total}')
    if strengths and kw and not row['same'] and set(got) == set(want):
        rank = 2 if row['ty'][0] or row['ty'][1] else 4
        if abs(row['j1'] - row['j2']) <= rank <= row['j1'] + row['j2']:
            for f2, xs in hsum.items():
                need(close(sum(xs), (f2 + 1) / (row['j2'] + 1), abs_=1e-9),
                     tag + f'the strengths from F={fr(f2)} sum to {sum(xs)} instead of {(f2 + 1) / (row["j2"] + 1)}')
    if structure and rng.random() < .5:
        for l in (l1, l2):
            for h in l.values():
                f = round(2 * h.term.F)
                links = {(f'{l2.name} F={fr(k[1])}' if l is l1 else f'{l1.name} F={fr(k[0])}') for k in want
                         if f == (k[0] if l is l1 else k[1])}
                if row['same']:
                    links = {f'{l1.name} F={fr(x)}' for k in want if f in k for x in k if k[0] != k[1] and x != f}
                need(set(a.linked_levels(h.name)) == links, tag + f'{h} is linked to {sorted(a.linked_levels(h.name))} instead of {sorted(links)}')
    if structure:
        again = list(t.values())
        need({id(x) for x in again} == {id(x) for x in got.values()}, tag + 'its components are other objects when asked again')


def judge_strength(v, kw, parent_A, st, tag):
    if not kw:
        need(v.A is None, tag + f'has A = {v.A} although its transition has none')
        return
    need(v.A is not None and close(v.A.to('Hz').magnitude, parent_A * st, rel=1e-9, abs_=1e-9 * parent_A),
         tag + f'has A = {v.A} instead of {parent_A * st} Hz')
    need(str(v.A.units) == 'hertz', tag + f'has its A coefficient in {v.A.units}')
    need(close(v.rel_strength, st, rel=1e-9, abs_=1e-12), tag + f'has relative strength {v.rel_strength} instead of {st}')


def components(ctx, structure, strengths):
    Is, Js = range(ctx.n(6, 10)), range(ctx.n(8, 11))
    table(ctx, 'CompMC', dict(Js=set(Js), MaxZ=ctx.n(6, 10)), functools.partial(judge_comps, structure, strengths, ctx.n(6, 10)),
          jobs=[dict(Is={i}) for i in Is])


# ---------------------------------------------------------------- C13
class Bag(types.SimpleNamespace):
    """looks like an atom and is none"""


def load_bad(ctx):
    """Loading anything that holds no atom raises"""
    A = at()
    rng = ctx.rng('bad')
    d = os.path.join(ctx.scratch, 'bad')
    os.makedirs(d)
    lvl = A.EnergyLevel(A.Term('6s', '2S', '1/2'), A.Q_(0.0, 'THz'))
    atom = A.Atom('X', levels=[lvl])
    things = {'dict': {'levels': 1}, 'list': [atom], 'none': None, 'level': lvl, 'text': 'Atom', 'number': 3.5,
              'levels': dict(atom=atom), 'term': lvl.term, 'class': dict, 'tuple': (atom,), 'empty list': [], 'zero': 0, 'false': False,
              'level structure': atom.levels, 'transition structure': atom.transitions, 'multi-term': getattr(lvl, 'term'),
              'sublevel': next(iter(lvl.values())), 'set of the attributes of an atom': dict(vars(atom)), 'graph of levels': atom.levels.model,
              'name of an atom': 'X', 'namespace': Bag(name='X', I=.5, B=atom.B, levels=atom.levels, transitions=atom.transitions)}
    for k, v in things.items():
        path = os.path.join(d, k + '.atom')
        with open(path, 'wb') as f:
            pickle.dump(v, f)
        tryload(ctx, A, path, f'a file holding a {k}')
    good = os.path.join(d, 'good.atom')
    atom.save(good)
    data = open(good, 'rb').read()
    for k, b in {'empty': b'', 'text': b'not an atom', 'truncated': data[:len(data) // 2], 'half': data[:-1]}.items():
        path = os.path.join(d, k + '.bin.atom')
        with open(path, 'wb') as f:
            f.write(b)
        tryload(ctx, A, path, f'a file that is {k}')
    tryload(ctx, A, os.path.join(d, 'missing.atom'), 'a missing file')
    if A.Atom.load(good).name != 'X':
        ctx.violation('a saved atom does not load')


def tryload(ctx, A, path, what):
    ctx.count('loads of other things')
    try:
        got = A.Atom.load(path)
    except Exception:
        return
    ctx.violation(f'loading {what} returned a {type(got).__name__}', {'kind': 'load'})


# ---------------------------------------------------------------- C20
def number(d, rng):
    import numpy as np
    x = d / 2
    if d % 2 == 0 and rng.random() < .4:
        return d // 2
    return np.float64(x) if rng.random() < .3 else x


def judge_wigner(kind, row, rng, count, scratch):
    from atomtoolkit import wigner
    fn = getattr(wigner, 'wigner' + kind)
    for r in row:
        args = [number(x, rng) for x in r['a']]
        want = wvalue(r['w'])
        tag = f'wigner{kind}({", ".join(fr(x) for x in r["a"])}) '
        try:
            got = fn(*args)
        except Exception as e:
            raise Violation(tag + f'raised {type(e).__name__}: {e}')
        need(isinstance(got, (float, int)) and not isinstance(got, bool), tag + f'is a {type(got).__name__}, not an ordinary number')
        need(close(got, want, rel=1e-11, abs_=0), tag + f'is {got!r} instead of {want!r}')
        count(kind + ' coefficients, ' + ('zero' if want == 0 else 'non-zero'))


def run_C20(ctx):
    W = lambda kind, **kw: functools.partial(judge_wigner, kind)
    common_ = dict(Random=False, Part=0, Parts=8)
    boxes = [('3j', ctx.n(5, 9)), ('6j', ctx.n(3, 5)), ('9j', ctx.n(1, 2))]
    for kind, mx in boxes:
        table(ctx, 'WignerMC', dict(common_, Kind=kind, Max=mx), W(kind), jobs=[dict(Part=p) for p in range(8)],
              timeout=ctx.n(600, 6000), cap=ctx.n(60, 3000))
    for kind, mx, num in [('3j', 14, ctx.n(60, 2500)), ('6j', 12, ctx.n(300, 20000)), ('9j', 6, ctx.n(60, 6000)), ('9j', 9, ctx.n(10, 1500)),
                          ('3j', 24, ctx.n(10, 400)), ('6j', 18, ctx.n(60, 5000))]:
        table(ctx, 'WignerMC', dict(common_, Kind=kind, Max=mx, Random=True, Parts=1), W(kind), jobs=[{}] * 8,
              sim=max(1, num // 8), depth=3, timeout=ctx.n(600, 6000), cap=ctx.n(40, 900))


# ---------------------------------------------------------------- C21
def pols(ctx, hi):
    """polarisations with the weights of the specification"""
    rows = []
    pmap_rows = []
    from common import tlc_values
    rows, t = tlc_values('PolarMC', {'Lo': '1', 'Hi': str(hi)}, ctx.scratch, extra=('INVARIANT Printed', 'INVARIANT Theorems'))
    ctx.tlc_stats(t)
    ctx.count('polarisations', len(rows))
    return rows


# the finding of KNOWN_FINDINGS.txt: weights that differ from the mean over q, by |q|
E2_LISTED = [14 / 29, 9 / 58, 3 / 29]
E2_KEY = 'the average E2 strength weights q=0, 1 and 2 by 14/29, 9/58 and 3/29 instead of 1/5 each'


def judge_tensor(P, maxf, row, rng, count, scratch):
    import numpy as np
    from atomtoolkit import transition_strengths as ts
    r = row['r']
    I, J0, J1 = row['i'] / 2, row['j0'] / 2, row['j1'] / 2
    sums, full = {}, {}
    names = ['E1', 'M1'] if r == 1 else ['E2']
    byq = {}
    for x in row['t']:
        args = (I, r, x['q'] // 2, J0, x['f0'] / 2, x['m0'] / 2, J1, x['f1'] / 2, x['m1'] / 2)
        want = float(wsquare(x['w']))
        tag = f'(I={fr(row["i"])}, k={r}, q={x["q"] // 2}, J={fr(row["j0"])} F={fr(x["f0"])} m={fr(x["m0"])} - ' \
              f'J={fr(row["j1"])} F={fr(x["f1"])} m={fr(x["m1"])}) '
        s = ts.tkq_transition_strength(*args)
        m = ts.tkq_mel(*args)
        need(close(s, want, rel=1e-9, abs_=1e-13), f'strength of {tag}is {s!r} instead of {want!r}')
        need(close(abs(m) ** 2, want, rel=1e-9, abs_=1e-13), f'matrix element of {tag}is {m!r}, it must square to {want!r}')
        count('tensor components')
        if abs(x['m1']) <= x['f1']:
            sums[x['f1'], x['m1']] = sums.get((x['f1'], x['m1']), 0.0) + s
        # other projections: zero
        if rng.random() < .05:
            for q in range(-r, r + 1):
                if q != x['q'] // 2 and abs(x['m1']) <= x['f1']:
                    a2 = args[:2] + (q,) + args[3:]
                    need(ts.tkq_transition_strength(*a2) == 0 and ts.tkq_mel(*a2) == 0,
                         f'{tag}the projections differ by {x["q"] // 2} but q={q} is not zero')
        if abs(x['m1']) <= x['f1'] and (want > 0 or rng.random() < .1):
            byq.setdefault(x['q'] // 2, []).append((args[3:], I, want, tag))
    if row['i'] + max(row['j0'], row['j1']) <= maxf and abs(row['j0'] - row['j1']) <= 2 * r <= row['j0'] + row['j1']:
        for (f1, m1), s in sums.items():
            need(close(s, 1 / (row['j1'] + 1), rel=1e-9, abs_=1e-12),
                 f'rank {r}, I={fr(row["i"])}, J={fr(row["j0"])} - {fr(row["j1"])}: the strengths from F={fr(f1)} m={fr(m1)} '
                 f'sum to {s} instead of {1 / (row["j1"] + 1)}')
    # polarisations
    for q, xs in byq.items():
        for rest, I_, want, tag in rng.sample(xs, min(len(xs), 8)):
            for p in rng.sample(P, 6):
                if r == 2 and not p['w']:
                    continue
                scale = rng.choice([1.0, 1.0, 0.5, 3.0, 1e-3])
                e = np.array(p['e']) if scale == 1.0 and rng.random() < .5 else np.array(p['e'], dtype=float) * scale
                if rng.random() < .2:
                    e = list(e)
                w = float(frac(p['d'][q + 1] if r == 1 else p['w'][q + 2]))
                kv = [np.array(p['k'], dtype=float) * rng.choice([1.0, 2.0])] if r == 2 else []
                for n in names:
                    s = getattr(ts, n + '_transition_strength_geom')(e, *kv, I_, *rest)
                    m = getattr(ts, n + '_mel_geom')(e, *kv, I_, *rest)
                    pt = f'{n} with polarisation {list(p["e"])}{" along " + str(p["k"]) if r == 2 else ""} {tag}'
                    need(close(s, w * want, rel=1e-9, abs_=1e-13), f'{pt}: strength {s!r} instead of {w * want!r}')
                    need(close(abs(m) ** 2, w * want, rel=1e-9, abs_=1e-13), f'{pt}: matrix element {m!r} squares to {abs(m) ** 2!r} instead of {w * want!r}')
                    count('polarised strengths')
            if r == 1:
                for n in names:
                    s = getattr(ts, n + '_transition_strength_avg')(I_, *rest)
                    need(close(s, want / 3, rel=1e-9, abs_=1e-13), f'average {n} strength {tag}is {s!r} instead of {want / 3!r}')
            else:
                s = ts.E2_transition_strength_avg(I_, *rest)
                if not close(s, want / 5, rel=1e-9, abs_=1e-13):
                    listed = want * E2_LISTED[abs(q)]
                    need(close(s, listed, rel=1e-9, abs_=1e-13),
                         f'average E2 strength {tag}is {s!r} instead of {want / 5!r} (nor is it the listed {listed!r})')
                    count(E2_KEY)
                count('average strengths')


def run_C21(ctx):
    import warnings
    warnings.simplefilter('ignore')
    P = pols(ctx, ctx.n(2, 3))
    Is, Js = range(ctx.n(5, 8)), set(range(ctx.n(7, 10)))
    maxf = ctx.n(7, 12)
    table(ctx, 'TensorMC', dict(MaxF=maxf), functools.partial(judge_tensor, P, maxf),
          jobs=[dict(Is={i}, Js={j for j in Js if j % 2 == b}) for i in Is for b in (0, 1)], timeout=ctx.n(600, 3000))
    if ctx.details.get(E2_KEY):
        ctx.violation(E2_KEY)
    warned(ctx)


def warned(ctx):
    """a polarisation along the propagation direction is warned of, an orthogonal one is not"""
    import itertools
    import warnings
    import numpy as np
    from atomtoolkit import transition_strengths as ts
    rest = (.5, .5, 0, 0, 2.5, 2, 1)
    box = [v for v in itertools.product(range(-2, 3), repeat=3) if any(v)]
    pairs = list(itertools.product(box, box))
    for e, k in ctx.rng('pairs').sample(pairs, ctx.n(1500, len(pairs))):
        orth = sum(x * y for x, y in zip(e, k)) == 0
        exact = sum(x != 0 for x in e) == sum(x != 0 for x in k) == 1  # others may be off by rounding
        if orth and not exact:
            continue
        for fn in (ts.E2_transition_strength_geom, ts.E2_mel_geom):
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter('always')
                fn(np.array(e, float), np.array(k, float), *rest)
            if bool(got) == orth:
                ctx.violation(f'{fn.__name__} with polarisation {e} along {k} {"warns" if got else "does not warn"}')
                return
            ctx.count('warnings')


# ---------------------------------------------------------------- C25
def judge_light(row, rng, count, scratch):
    import numpy as np
    from engine import at
    from sut import C_LIGHT
    A = at()
    from atomtoolkit.environment import LightField
    EPS0 = 8.8541878128e-12
    unit = rng.choice([('W/m**2', 1.0), ('mW/cm**2', 10.0), ('mW/mm**2', 1e3)])
    i = rng.choice([1.0, .25, 40.0, 0.0])
    E0 = math.sqrt(2 * i * unit[1] / (EPS0 * C_LIGHT))
    k = np.array(row['k'], float) / math.sqrt(row['m'])
    pol = (np.array(row['re']) + 1j * np.array(row['im'])) / math.sqrt(row['n'])
    if not any(row['im']) and rng.random() < .5:
        pol = pol.real
    size = rng.choice([1, 1, 1, 0, .5, .99, 1.01, 2, -1])
    tag = f'light along {row["k"]} with polarisation {row["re"]} + {row["im"]}i of length {abs(size)} and {i} {unit[0]}'
    if abs(size) != 1:
        try:
            LightField(k, A.Q_(i, unit[0]), pol * size)
        except (AssertionError, ValueError):
            count('refused polarisations')
            return
        raise Violation(f'{tag} is accepted, though its polarisation is no unit vector')
    pol = pol * size
    if row['re'] == [0, 0, 1] and not any(row['im']) and size == 1 and rng.random() < .5:
        w = LightField(k, A.Q_(i, unit[0]))
        tag += ' by default'
    else:
        w = LightField(k, A.Q_(i, unit[0]), pol) if rng.random() < .5 else LightField(k=k, i=A.Q_(i, unit[0]), pol=pol)
    for again in range(2):
        E = w.E().to('V/m').magnitude
        B = w.B().to('tesla').magnitude
        cross = (np.array(row['bre']) + 1j * np.array(row['bim'])) * size / math.sqrt(row['m'] * row['n'])
        need(np.shape(E) == np.shape(B) == (3,), f'{tag}: the fields are {E} and {B}')
        need(np.allclose(E, pol * E0, rtol=1e-8, atol=1e-8 * (E0 + 1e-30)), f'{tag}: E is {E} instead of {pol * E0}')
        need(np.allclose(B, cross * E0 / C_LIGHT, rtol=1e-8, atol=1e-8 * (E0 + 1e-30) / C_LIGHT), f'{tag}: B is {B} instead of {cross * E0 / C_LIGHT}')
    count('waves')


def run_C25(ctx):
    hi = ctx.n(2, 3)
    table(ctx, 'LightMC', dict(KHi=hi, PHi=ctx.n(1, 2)), judge_light, jobs=[dict(Part=x) for x in range(2 * hi + 1)], timeout=ctx.n(600, 3000),
          cap=ctx.n(100, 1500))
