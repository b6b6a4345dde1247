"""Checks of notation, recoupling and Lande factors, driven by RecoupleMC, HalfMC and ShiftMC."""
import math
import warnings

from checks_tables import half, need, split
from common import Violation, close, frac
from engine import at
from sut import fr
from tables import table, wsquare, wvalue

SLOTS = ['conf', 'term', 'percentage', 'parity', 'J', 'F', 'mF', 'J_frac', 'F_frac', 'mF_frac', 'term_name', 'short_name',
         'name', 'coupling', 'quantum_nums', 'lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k']
QN = ['lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k']


def mods():
    from atomtoolkit import transition_strengths, util
    return transition_strengths, util


def check_qn(t, q, tag):
    got = tuple(t.quantum_nums)
    need(len(got) == 9, f'{tag} has quantum numbers {got}')
    for name, g, w, a in zip(QN, got, q, [getattr(t, x) for x in QN]):
        if w == -2:
            continue
        w = None if w == -1 else w / 2
        need(g == w and a == w and (g is None) == (w is None), f'{tag}: {name} is {g!r} (attribute {a!r}) instead of {w!r}')


def check_names(t, base, jt, f, m, tag):
    """base: configuration and term; f, m: doubled, or None"""
    tn = base[1] + jt + ('' if f is None else f' F={fr(f)}') + ('' if m is None else f' mF={fr(m)}')
    sn = f'mF={fr(m)}' if m is not None else f'F={fr(f)}' if f is not None else base[1] + jt
    for what, got, want in (('name', t.name, f'{base[0]} {tn}'), ('term_name', t.term_name, tn), ('short_name', t.short_name, sn),
                            ('J_frac', t.J_frac, jt), ('F_frac', t.F_frac, None if f is None else fr(f)),
                            ('mF_frac', t.mF_frac, None if m is None else fr(m)),
                            ('F', t.F, None if f is None else f / 2), ('mF', t.mF, None if m is None else m / 2),
                            ('conf', t.conf, base[0]), ('term', t.term, base[1])):
        need(got == want, f'{tag}: {what} is {got!r} instead of {want!r}')
    need(t.name in repr(t), f'{tag}: its representation is {t!r}')


def check_term(row, kind, f, pct, rng, count):
    A = at()
    J = half(row['J'], rng)
    kw = {'percentage': pct} if rng.random() < .7 else {}
    t = A.Term(f['conf'], f['term'], J, **kw)
    tag = f'{f["conf"]!r} {f["term"]!r} J={J!r}'
    need(t.coupling == kind, f'{tag} is taken to be {t.coupling} coupled instead of {kind}')
    check_qn(t, f['q'], tag)
    need(t.parity == (-1 if f['odd'] else 1), f'{tag} has parity {t.parity}')
    need(t.J == row['J'] / 2, f'{tag} has J {t.J}')
    need(t.percentage == kw.get('percentage', 100.0), f'{tag} has percentage {t.percentage}')
    base = (f['conf'], f['term'])
    check_names(t, base, row['jt'], None, None, tag)
    need(str(t) == f['term'] + row['jt'], f'{tag} is printed as {t}')
    # copies for sublevels
    s = rng.choice(row['subs'])
    F, M = half(s['f'], rng), half(s['m'], rng)
    same = lambda c, tg: (check_qn(c, f['q'], tg), need((c.parity, c.coupling, c.percentage, c.J) == (t.parity, t.coupling, t.percentage, t.J),
                                                        f'{tg} does not keep parity, coupling, percentage and J'))
    c0 = t.make_term_copy()
    cf = t.make_term_copy(F=F)
    cm = cf.make_term_copy(mF=M)
    for c, ff, mm, tg in ((c0, None, None, f'a copy of {tag}'), (cf, s['f'], None, f'the copy of {tag} for F={F!r}'),
                          (cm, s['f'], s['m'], f'the copy of {tag} for F={F!r}, mF={M!r}')):
        need(c is not t, f'{tg} is the original')
        check_names(c, base, row['jt'], ff, mm, tg)
        same(c, tg)
    need(t == c0 and c0 == t, f'{tag} does not equal its copy')
    both = A.Term(f['conf'], f['term'], J, F, M, **kw)
    check_names(both, base, row['jt'], s['f'], s['m'], f'{tag} F={F!r} mF={M!r}')
    need(both == cm, f'{tag} made with F and mF differs from the copy')
    # quantum numbers given by hand survive copying
    own = A.Term(f['conf'], f['term'], J, quantum_nums=(1, 1.5, 2, .5, 3.5, 2.5, 3, 2.0, 4.5), percentage=31.0)
    for c in (own, own.make_term_copy(F=F), own.make_term_copy(F=F).make_term_copy(mF=M)):
        need(tuple(c.quantum_nums) == (1, 1.5, 2, .5, 3.5, 2.5, 3, 2.0, 4.5) and c.k == 4.5 and c.jo == 2.5 and c.percentage == 31.0,
             f'{tag} with quantum numbers given by hand, or its copy, has {c.quantum_nums}, {c.percentage}%')
    check_names(t, base, row['jt'], None, None, f'{tag} after it was copied')
    count('terms')
    return t


def judge_C16(row, rng, count, scratch):
    A = at()
    chosen = []
    for p in row['parts']:
        forms = list(p['forms'])
        rng.shuffle(forms)
        for f in forms:
            t = check_term(row, p['kind'], f, rng.choice([p['pct'], float(p['pct'])]), rng, count)
        chosen.append((p, f))
    for f in row['blank']:
        check_term(row, 'unknown', f, 45.0, rng, count)
    # a mixture of the parts
    unit = rng.choice([1, 1, .1, .013])        # percentages need not be whole numbers
    mk = lambda: [A.Term(f['conf'], f['term'], half(row['J'], rng), percentage=p['pct'] * unit) for p, f in chosen]
    terms = mk()
    order = list(range(len(terms)))
    rng.shuffle(order)
    m = A.MultiTerm(*[terms[k] for k in order])
    tag = f'the mixture of {[(f["conf"], f["term"], p["pct"]) for p, f in chosen]} in J={row["jt"]}'
    need(len(m) == len(terms), f'{tag} has length {len(m)}')
    need(sorted(map(id, m)) == sorted(map(id, terms)) and sorted(map(id, m.terms)) == sorted(map(id, terms)), f'{tag} holds other terms')
    pcts = [t.percentage for t in m]
    need(pcts == sorted(pcts, reverse=True), f'{tag} is not in the order of percentages: {pcts}')
    need(all(m[k] is m.terms[k] for k in range(len(m))), f'the items of {tag} are not its terms')
    lead = m[0]
    need(any(lead is terms[k - 1] for k in row['lead']), f'{tag} is led by {lead!r}')
    for x in SLOTS:
        need(getattr(m, x) == getattr(lead, x), f'{tag} presents {x} = {getattr(m, x)!r} instead of {getattr(lead, x)!r}')
    need(m.full_name == f'{lead.name} ({lead.percentage}%)', f'{tag} has the full name {m.full_name!r}')
    for x in (repr(t) for t in terms):
        need(x in repr(m), f'{tag} is represented as {m!r}')
    need(lead.term_name in str(m), f'{tag} is printed as {m}')
    need(m == lead, f'{tag} does not equal its leading term')
    if len(set(pcts)) == len(pcts):
        twin = mk()
        rng.shuffle(twin)
        twin = A.MultiTerm(*twin)
        need(m == twin and not (m != twin), f'{tag} does not equal a mixture of equal terms')
        c = m.make_term_copy()
        need(c == m and c is not m and len(c) == len(m) and [t.percentage for t in c] == pcts, f'{tag} does not equal its copy')
    if len(terms) > 1:
        need(m != A.MultiTerm(*list(m)[:-1]) and A.MultiTerm(*list(m)[:-1]) != m, f'{tag} equals one without its last component')
        bad = A.Term('9s', '2S', half(row['J'], rng), percentage=m[-1].percentage)
        if bad.quantum_nums != m[-1].quantum_nums:
            need(m != A.MultiTerm(*(list(m)[:-1] + [bad])), f'{tag} equals one with another last component')
    s = rng.choice(row['subs'])
    cf = m.make_term_copy(F=half(s['f'], rng))
    cm = cf.make_term_copy(mF=half(s['m'], rng))
    need(len(cm) == len(m), f'{tag}: its copy has length {len(cm)}')
    for k in range(len(m)):
        for c, ff, mm in ((cf, s['f'], None), (cm, s['f'], s['m'])):
            check_names(c[k], (m[k].conf, m[k].term), row['jt'], ff, mm, f'component {k} of a copy of {tag}')
            need(c[k].percentage == m[k].percentage and c[k].quantum_nums == m[k].quantum_nums, f'component {k} of a copy of {tag} changed')
    need(m.F is None and m.mF is None, f'{tag} changed when copied')
    count('mixtures')


def recouple(ctx, judge, box, rand, mix, num, kinds=('LS', 'JJ', 'JK', 'LK')):
    """box: exhaustive bounds; rand: bounds of random states"""
    L, S, J, parts = box
    if parts:
        table(ctx, 'RecoupleMC', dict(Random=False, Kinds=set(kinds), MaxL=L, MaxS=S, MaxJ=J, Mix=1, Parts=parts), judge,
              jobs=[dict(Part=p) for p in range(parts)], cap=ctx.n(200, 2000), timeout=ctx.n(600, 3000))
    # random states further out, high terms, and high spins
    for (L, S, J), who, share in ((rand, kinds, 40), ((40, 14, 26), ['LS'], 160), ((40, 5, 42), ['LK'], 160),
                             ((4, 11, 15), sorted(set(kinds) - {'LS'}), 160)):
        table(ctx, 'RecoupleMC', dict(Random=True, Kinds=set(who), MaxL=L, MaxS=S, MaxJ=J, Mix=mix, Part=0, Parts=1), judge,
              jobs=[{}] * 8, sim=max(1, num // (8 * share)), depth=41, cap=ctx.n(150, 1500), timeout=ctx.n(600, 3000),
              extra=['INVARIANT ValidStates'])


def run_C16(ctx):
    recouple(ctx, judge_C16, (2, 2, 4, 8) if ctx.quick else (4, 3, 6, 8), (8, 5, 11), 3, ctx.n(2000, 30000))


# ---------------------------------------------------------------- C17
def fails(fn, arg, errors, tag):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = fn(arg)
    except errors:
        return
    except Exception as e:
        raise Violation(f'{tag}({arg!r}) raises {type(e).__name__}: {e}')
    raise Violation(f'{tag}({arg!r}) gives {got!r} instead of an error')


def judge_C17(row, rng, count, scratch):
    import numpy as np
    util = mods()[1]
    n, text = row['n'], row['text']
    nums = [n / 2, np.float64(n / 2)] + ([n // 2, np.int64(n // 2)] if n % 2 == 0 else [])
    nums += [-0.0, np.float64(-0.0)] if n == 0 else []
    for x in nums + row['texts']:
        got = util.float_to_frac(x)
        need(got == text and type(got) is str, f'float_to_frac({x!r}) is {got!r} instead of {text!r}')
        back = util.frac_to_float(x)
        need(back == n / 2 and not isinstance(back, str), f'frac_to_float({x!r}) is {back!r} instead of {n / 2}')
        count('conversions')
    need(util.frac_to_float(text) == n / 2, f'frac_to_float({text!r}) is {util.frac_to_float(text)!r}')
    need(util.float_to_frac(None) is None and util.frac_to_float(None) is None and util.frac_to_float('') is None, 'missing values do not stay missing')
    for x in row['off']:
        fails(util.float_to_frac, x, ValueError, 'float_to_frac')
        y = eval(x)
        fails(util.float_to_frac, y, ValueError, 'float_to_frac')
        need(close(util.frac_to_float(x), y, abs_=1e-12), f'frac_to_float({x!r}) is {util.frac_to_float(x)!r}')
    for x in row['bad']:
        fails(util.float_to_frac, x, ValueError, 'float_to_frac')
        fails(util.frac_to_float, x, ValueError, 'frac_to_float')
    for x in row['letters']:
        need(util.let_to_l(x['t']) == x['l'], f'let_to_l({x["t"]!r}) is {util.let_to_l(x["t"])!r} instead of {x["l"]}')
    for x in row['noletters']:
        fails(util.let_to_l, x, ValueError, 'let_to_l')
        fails(util.l_to_let, x, TypeError, 'l_to_let')
    if row['upper']:
        for x in (n, float(n), np.int64(n), np.float64(n)):
            need(util.l_to_let(x) == row['upper'], f'l_to_let({x!r}) is {util.l_to_let(x)!r} instead of {row["upper"]!r}')
        fails(util.l_to_let, row['upper'], TypeError, 'l_to_let')
        fails(util.l_to_let, str(n), TypeError, 'l_to_let')
    else:
        for x in (n, float(n)):
            fails(util.l_to_let, x, (ValueError, IndexError), 'l_to_let')
        fails(util.let_to_l, n, TypeError, 'let_to_l')
    for x in (n + .5, n - .25):
        fails(util.l_to_let, x, (ValueError, IndexError), 'l_to_let')
    fails(util.let_to_l, None, Exception, 'let_to_l')
    fails(util.l_to_let, None, Exception, 'l_to_let')
    need(util.let_to_l('') is None, f"let_to_l('') is {util.let_to_l('')!r}")
    # quantum numbers given to terms in any of these forms
    if n >= 0:
        A = at()
        x, y = rng.choice(nums + row['texts']), rng.choice(nums + row['texts'])
        t = A.Term('6s', '2S', x, F=y, mF=rng.choice(nums + row['texts']))
        need((t.J, t.F, t.mF) == (n / 2,) * 3 and t.name == f'6s 2S{text} F={text} mF={text}', f'a term with J={x!r}, F={y!r} is named {t.name!r}')


def run_C17(ctx):
    lo, hi = ctx.n(60, 400), ctx.n(80, 600)
    table(ctx, 'HalfMC', dict(Lo=lo, Hi=hi), judge_C17)


# ---------------------------------------------------------------- C18
G = 1.0023


def part_g(p):
    """Lande factor of a pure state, from its exact composition"""
    return sum(float(wsquare(r['w'])) * (1 + G * float(frac(r['X']))) for r in p['ls'])


def judge_C18(row, rng, count, scratch):
    A = at()
    good = []
    for p in row['parts']:
        fs = [f for f in p['forms'] if f['full']]
        want = part_g(p) if row['J'] else 0.0
        for f in rng.sample(fs, min(len(fs), 3)):
            t = A.Term(f['conf'], f['term'], half(row['J'], rng), percentage=rng.choice([100.0, p['pct']]))
            lvl = A.EnergyLevel(rng.choice([t, A.MultiTerm(t)]), A.Q_(1.0, 'THz'))
            need(close(lvl.lande, want, rel=1e-9, abs_=1e-9), f'the Lande factor of {t.name} is {lvl.lande} instead of {want}')
            g = rng.choice([0.0, 1.5, -0.25, 2])
            got = A.EnergyLevel(t, A.Q_(1.0, 'THz'), lande=g).lande
            need(got == g, f'{t.name} was given the Lande factor {g} and has {got}')
            count('levels')
        good.append((p, rng.choice(fs)))
    unit = rng.choice([1, 1, .1, .013])
    terms = [A.Term(f['conf'], f['term'], half(row['J'], rng), percentage=p['pct'] * unit) for p, f in good]
    want = sum(p['pct'] * part_g(p) for p, _ in good) / sum(p['pct'] for p, _ in good) if row['J'] else 0.0
    rng.shuffle(terms)
    lvl = A.EnergyLevel(A.MultiTerm(*terms), A.Q_(1.0, 'THz'))
    need(close(lvl.lande, want, rel=1e-9, abs_=1e-9),
         f'the Lande factor of {[(t.conf, t.term, t.percentage) for t in terms]} in J={row["jt"]} is {lvl.lande} instead of {want}')
    # in an atom
    I = rng.randrange(0, 8)
    a = A.Atom('X', I=half(I, rng), B=A.Q_(rng.uniform(-5, 50), 'G'))
    a.add_level(lvl)
    for h in lvl.values():
        for z in h.values():
            need(math.isfinite(z.level_Hz) and math.isfinite(h.gF), f'{z} has energy {z.level_Hz}, gF {h.gF}')
            count('Zeeman energies')
    need(lvl.lande == lvl.lande and close(lvl.lande, want, rel=1e-9, abs_=1e-9), f'the Lande factor of {lvl} changed in an atom')
    count('mixtures')


def judge_gF(row, rng, count, scratch):
    A = at()
    L2 = rng.randrange(0, 5) * 2
    s = [x for x in range(0, 12) if (x + row['j']) % 2 == 0 and abs(L2 - x) <= row['j'] <= L2 + x]
    g = rng.choice([None, 0.0, rng.uniform(-2, 3), 2])
    if g is None and not s:
        g = 1.25
    term = f'{(rng.choice(s) if s else 0) + 1}{"SPDFG"[L2 // 2]}'
    lvl = A.EnergyLevel(A.Term('6p', term, half(row['j'], rng)), A.Q_(1.0, 'THz'), **({} if g is None else {'lande': g}))
    B = rng.choice([0.0, rng.uniform(-40, 40)])
    a = A.Atom('X', I=half(row['i'], rng), B=A.Q_(B, 'G'))
    a.add_level(lvl)
    if g is None and row['j'] == 0:
        need(lvl.lande == 0, f'the Lande factor of {lvl} is {lvl.lande}')
    want_g = lvl.lande if g is None else g
    for again in range(2):
        for f in row['f']:
            h = lvl[f'F={f["ft"]}']
            want = want_g * float(frac(f['g']))
            need(close(h.gF, want, rel=1e-12, abs_=1e-12), f'gF of {h} (I={row["it"]}) is {h.gF} instead of {want}, gJ is {want_g}')
            for z in h.values():
                need(math.isfinite(z.level_Hz) and math.isfinite(z.level.to('Hz').magnitude), f'{z} has energy {z.level_Hz}')
                zg = getattr(z, 'gF', None)
                need(zg is None or close(zg, want, rel=1e-12, abs_=1e-12), f'gF of {z} is {zg} instead of {want}')
            count('hyperfine levels')
        want_g = rng.choice([0.0, rng.uniform(-2, 3)])
        lvl.lande = want_g


def run_C18(ctx):
    recouple(ctx, judge_C18, (2, 2, 4, 8) if ctx.quick else (4, 3, 6, 8), (8, 5, 11), 3, ctx.n(1500, 20000))
    table(ctx, 'ShiftMC', dict(MaxJ=ctx.n(11, 17)), judge_gF, jobs=[dict(MinI=a, MaxI=a) for a in range(ctx.n(10, 15))])


# ---------------------------------------------------------------- C19
def judge_C19(row, rng, count, scratch):
    T, util = mods()
    num = lambda d: rng.choice([d / 2] + ([d // 2] if d % 2 == 0 else []))
    J = num(row['J'])
    for p in row['parts']:
        x = [num(d) for d in p['x']]
        kind = p['kind']
        want = {(r['l'], r['s']): float(wsquare(r['w'])) for r in p['ls']}
        sign = {(r['l'], r['s']): wvalue(r['w']) for r in p['ls']}
        readable = {r['lab']: 100 * float(wsquare(r['w'])) for r in p['ls'] if wsquare(r['w'])}
        if kind == 'LS':
            got, nice = None, None
        elif kind == 'JJ':
            lc, sc, jc, lo, so, jo = x
            args = (J, jc, jo, lc, sc, lo, so)
            got, nice = T.JJ_to_LS(*args), util.readable_JJ_to_LS(*args)
        elif kind == 'JK':
            lc, sc, jc, lo, so, k = x
            args = (J, jc, k, lc, sc, lo, so)
            got, nice = T.JK_to_LS(*args), util.readable_JK_to_LS(*args)
        else:
            lc, sc, lo, so, l, k = x
            args = (J, l, k, sc, so)
            got, nice = T.LK_to_LS(*args), util.readable_LK_to_LS(*args)
        tag = f'{kind}_to_LS{args if kind != "LS" else ""}'
        if got is not None:
            rows = list(zip(*[list(map(float, r)) for r in got]))
            keys = [(round(2 * l), round(2 * s)) for l, s, _ in rows]
            need(sorted(keys) == sorted(want), f'{tag} lists (2L, 2S) = {sorted(keys)} instead of {sorted(want)}')
            for key, (_, _, c) in zip(keys, rows):
                need(abs(c * c - want[key]) < 1e-9, f'{tag} gives {c} for (2L, 2S) = {key}, whose square should be {want[key]}')
            tot = sum(c * c for _, _, c in rows)
            need(abs(tot - 1) < 1e-9, f'the squares of {tag} sum to {tot}')
            need(len({c * sign[key] > 0 for key, (_, _, c) in zip(keys, rows) if want[key]}) == 1,
                 f'{tag} gives {rows}, whose signs relative to each other should be those of {sign}')
            check_readable(nice, readable, 'readable_' + tag)
        for f in p['forms']:
            if f['full']:
                got = util.term_to_LS(f['conf'], f['term'], J)
                if kind == 'LS':
                    need(len(got) == 1 and got[0][0] == f['term'] and got[0][1] == 100, f'term_to_LS of {f["term"]} gives {got}')
                else:
                    check_readable(got, readable, f'term_to_LS({f["conf"]!r}, {f["term"]!r}, {J})')
        count('states ' + kind)


def check_readable(got, want, tag):
    d = dict(got)
    need(len(d) == len(got) and set(d) == set(want), f'{tag} lists {got} instead of {sorted(want)}')
    for k in want:
        need(abs(d[k] - want[k]) < 0.00501, f'{tag} gives {d[k]}% {k} instead of {want[k]}%')


def run_C19(ctx):
    recouple(ctx, judge_C19, (2, 2, 4, 8) if ctx.quick else (4, 3, 6, 8), (8, 5, 11), 3, ctx.n(1500, 20000))
