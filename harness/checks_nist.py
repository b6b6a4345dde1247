"""Checks of imported tables, driven by NistMC."""
import io
import math
import os
import re
import urllib.parse
import urllib.request
import warnings

from checks_notation import check_qn
from checks_tables import need
from common import close, frac
from engine import at
from sut import C_LIGHT, fr
from tables import table, wsquare

COLS = ['Configuration', 'Term', 'J', 'Prefix', 'Level (cm-1)', 'Suffix', 'Uncertainty (cm-1)', 'Lande', 'Leading percentages', 'Reference']


class Page(io.BytesIO):
    """what a server would answer"""
    headers = {}
    status = 200

    def info(self):
        return self.headers


def page(row, rng):
    """the table as the server sends it"""
    cols = [c for c in COLS if (row['lande'] or c != 'Lande') and (row['pct'] or c != 'Leading percentages')]
    names = {'Level (cm-1)': 'Level', 'Leading percentages': 'Pct'}
    tail = ',' if rng.random() < .3 else ''
    out = [','.join(cols)]
    for n, r in enumerate(row['rows']):
        extra = {'Prefix': '', 'Suffix': '', 'Uncertainty (cm-1)': rng.choice(['', '0.05']), 'Reference': rng.choice(['', 'L1234', 'L77,L9'])}
        cells = [extra[c] if c in extra else r[names.get(c, c)] for c in cols]
        out.append(','.join('"=""%s"""' % c for c in cells) + tail)
    return ('\n'.join(out) + '\n').encode('utf-8')


def served(fn, text, asked=None):
    def answer(req, *args, **kw):
        if asked is not None:
            asked.append(getattr(req, 'full_url', req))
        return Page(text)
    real = urllib.request.urlopen
    urllib.request.urlopen = answer
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fn()
    finally:
        urllib.request.urlopen = real


def missing(x):
    return x is None or x != x


def part_g(p, J):
    return sum(float(wsquare(r['w'])) * (1 + 1.0023 * float(frac(r['X']))) for r in p['ls'])


def judge_C15(row, rng, count, scratch):
    import pandas as pd
    from atomtoolkit import IO
    A = at()
    shown = [[r[k] for k in ('Configuration', 'Term', 'J', 'Level', 'Lande', 'Pct')] for r in row['rows']]
    tag = f'the table {shown} (columns for Lande values: {row["lande"]}, percentages: {row["pct"]})'
    text = page(row, rng)
    want = row['levels']
    if not want:
        count('tables without levels')
        return
    own = os.path.join(scratch, f'cwd{os.getpid()}')
    os.makedirs(own, exist_ok=True)
    os.chdir(own)
    kw = {}
    species = rng.choice(['X II', 'Yb I'])
    if rng.random() < .4:
        stem = os.path.join(scratch, f'nist{os.getpid()}.d')
        kw['save'] = rng.choice([stem, stem + '.csv', True])
        where = stem + '.csv' if kw['save'] is not True else f'{species}_level_data.csv'
        if os.path.exists(where):
            os.remove(where)
    elif rng.random() < .3:
        kw['save'] = False
    if rng.random() < .3:
        kw['term_ordered'] = rng.random() < .5
    asked, here = [], set(os.listdir('.'))
    df = served(lambda: IO.load_NIST_data(species, **kw), text, asked)
    query = urllib.parse.parse_qs(urllib.parse.urlparse(asked[0]).query)
    need(len(asked) == 1 and query.get('spectrum') == [species] and
         (query.get('multiplet_ordered') == ['on']) == kw.get('term_ordered', False), f'the levels of {species} ({kw}) are asked for as {asked}')
    if kw.get('save'):
        need(os.path.exists(where), f'load_NIST_data({species!r}, save={kw["save"]!r}) wrote no {where}')
        saved_table(where, df, f'{tag}, saved as {where}')
        os.remove(where)
        count('saved tables')
    need(set(os.listdir('.')) <= here, f'load_NIST_data({species!r}, {kw}) wrote {set(os.listdir(".")) - here}')
    need(len(df) == len(want), f'{tag} is read as {len(df)} levels instead of {len(want)}: {list(df["Configuration"])}')
    need(list(df.index) == list(range(len(want))), f'{tag}: the rows are numbered {list(df.index)}')
    for n, v in enumerate(want):
        get = lambda c: df[c][n]
        t = f'{tag}: row {n}'
        need(str(get('J')).strip() == v['jt'], f'{t} has J {get("J")!r} instead of {v["jt"]}')
        need(close(get('Level (cm-1)').to('1/cm').magnitude, v['e'] / 100, abs_=1e-9), f'{t} lies at {get("Level (cm-1)")} instead of {v["e"] / 100}')
        need(close(get('Level (Hz)').to('Hz').magnitude, v['e'] * C_LIGHT, rel=1e-12, abs_=1e-3), f'{t} lies at {get("Level (Hz)")}')
        g = get('Lande')
        need(missing(g) if v['lande'] < 0 else g == v['lande'] / 100, f'{t} has the Lande value {g} instead of {v["lande"] / 100}')
        need(get('Configuration') == v['conf'], f'{t} has the configuration {get("Configuration")!r} instead of {v["conf"]!r}')
        need(get('Term') == v['term'], f'{t} has the term {get("Term")!r} instead of {v["term"]!r}')
        need(get('Percentage') == v['pct'], f'{t} has {get("Percentage")}% instead of {v["pct"]}%')
        s = v['second']
        c2, t2, p2 = get('Configuration_2'), get('Term_2'), get('Percentage_2')
        if s['style'] == 'none':
            need(missing(c2) and missing(p2) and (missing(t2) or t2 == ''), f'{t} has a second component {(c2, t2, p2)}')
        else:
            need((c2, t2, p2) == (s['conf'], s['term'], s['pct']), f'{t} has the second component {(c2, t2, p2)} instead of '
                 f'{(s["conf"], s["term"], s["pct"])}')
        count('rows')
    for n, v in enumerate(want):
        if rng.random() < .2 and v['term']:
            t = A.Term.from_dataframe(df, n) if n or rng.random() < .5 else A.Term.from_dataframe(df)
            need((t.conf, t.term, t.percentage, t.J) == (v['conf'], v['term'], v['pct'], v['J'] / 2),
                 f'{tag}: Term.from_dataframe for row {n} is {(t.conf, t.term, t.percentage, t.J)}')
            o = A.EnergyLevel.from_dataframe(df, n) if n or rng.random() < .5 else A.EnergyLevel.from_dataframe(df)
            check_level(o, v, f'{tag}: EnergyLevel.from_dataframe')
    if rng.random() < .4:
        own_table(want, rng, count, scratch, tag)
    build(row, df, rng, count, scratch, tag)


def saved_table(where, df, tag):
    """a saved table holds the frame: a first column numbers the rows"""
    import csv
    with open(where, newline='', encoding='utf-8') as f:
        head, *rows = list(csv.reader(f))
    need(head[1:] == list(df.columns), f'{tag}: its columns are {head}')
    need(len(rows) == len(df), f'{tag}: it has {len(rows)} rows instead of {len(df)}')
    for n, r in enumerate(rows):
        for c, text in zip(head[1:], r[1:]):
            x = df[c][n]
            if missing(x):
                ok = text in ('', 'nan', 'None')
            elif isinstance(x, str):
                ok = text == x
            else:
                ok = close(float(text.split()[0]), float(getattr(x, 'magnitude', x)), rel=1e-12, abs_=1e-12)
            need(ok, f'{tag}: {c} of row {n} is {text!r} instead of {x!r}')


def own_table(want, rng, count, scratch, tag):
    """levels in a table of the user's, read by load_level_data"""
    import csv
    from atomtoolkit import IO
    A = at()
    cols = {'Configuration': 'conf', 'Term': 'symbol', 'J': 'Jay', 'Level (cm-1)': 'energy', 'Lande': 'g', 'Percentage': 'lead'}
    used = [v for v in want if v['term'] and v['conf']]
    if not used:
        return
    two = rng.random() < .6
    if two:
        cols.update({'Configuration_2': 'conf2', 'Term_2': 'symbol2', 'Percentage_2': 'lead2'})
    if rng.random() < .3:
        cols = {k: k for k in cols}
    dirty = rng.choice(['', '', '[]', '?'])
    path = os.path.join(scratch, f'own{os.getpid()}.csv')
    with open(path, 'w', newline='', encoding='utf-8') as f:
        w = csv.writer(f)
        w.writerow(['note'] + list(cols.values()))
        for v in used:
            s = v['second']
            e = repr(v['e'] / 100)
            e = e if rng.random() < .5 or not dirty else '[' + e + ']' if dirty == '[]' else e + '?'
            cell = {'Configuration': v['conf'], 'Term': v['term'], 'J': rng.choice([v['jt'], v['J'] / 2]), 'Level (cm-1)': e,
                    'Lande': v['lande'] / 100 if v['lande'] >= 0 else '', 'Percentage': v['pct']}
            if two:
                none = s['style'] == 'none'
                cell.update({'Configuration_2': '' if none else s['conf'], 'Term_2': '' if none else s['term'], 'Percentage_2': '' if none else s['pct']})
            w.writerow([rng.choice(['x', ''])] + [cell[c] for c in cols])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df = IO.load_level_data(path, columns=cols)
        a = A.Atom.from_dataframe(df, 'Y', .5)
    name = lambda v: f'{v["conf"]} {v["term"]}{v["jt"]}'
    t = f'{tag}: the same levels as a table of the user'
    need(sorted(a.levels.keys()) == sorted(name(v) for v in used), f'{t} give the levels {sorted(a.levels.keys())}')
    for v in used:
        if not two:
            v = dict(v, second=dict(v['second'], style='none'), g=[p for p in v['g'][:1]] if len(v['g']) < 2 else [])
        check_level(a.levels[name(v)], v, t)
    count('tables of the user')


def check_level(o, v, tag):
    tag = f'{tag}: the level {o.name}'
    need(close(o.level_Hz, v['e'] * C_LIGHT, rel=1e-12, abs_=1e-3), f'{tag} lies at {o.level_Hz} Hz instead of {v["e"] * C_LIGHT}')
    parts = list(o.term)
    said = [(v['conf'], v['term'], v['pct'], v['q'], v['kind'])]
    s = v['second']
    if s['style'] != 'none':
        said.append((s['conf'], s['term'], s['pct'], s['q'], s['kind']))
    need(len(parts) == len(said), f'{tag} has {len(parts)} components instead of {len(said)}')
    for k, (t, (c, term, pct, q, kind)) in enumerate(zip(parts, said)):
        need((t.conf, t.term, t.percentage, t.J) == (c, term, pct, v['J'] / 2), f'{tag} has the component {(t.conf, t.term, t.percentage, t.J)} '
             f'instead of {(c, term, pct, v["J"] / 2)}')
        if v['plain']:
            need(t.coupling == kind, f'{tag} has a component {t} of {t.coupling} coupling instead of {kind}')
            check_qn(t, q, tag)
    need(o.term.parity == (-1 if v['odd'] else 1), f'{tag} has parity {o.term.parity}')
    if v['lande'] >= 0:
        need(o.lande == v['lande'] / 100, f'{tag} has the Lande value {o.lande} instead of {v["lande"] / 100}')
    else:
        need(math.isfinite(o.lande), f'{tag} has the Lande value {o.lande}')
        if v['g']:
            g = sum(p['pct'] * part_g(p, v['J']) for p in v['g']) / sum(p['pct'] for p in v['g']) if v['J'] else 0.0
            need(close(o.lande, g, rel=1e-9, abs_=1e-9), f'{tag} has the Lande value {o.lande} instead of {g}')


def build(row, df, rng, count, scratch, tag):
    import csv
    from atomtoolkit import IO
    A = at()
    want = row['levels']
    num = row['num']
    name = lambda v: f'{v["conf"]} {v["term"]}{v["jt"]}'
    B = A.Q_(rng.choice([0.0, 3.5]), 'G')
    kw = {}
    if num <= len(want) + 2 and rng.random() < .8:
        kw['num_levels'] = num
    else:
        num = len(want)
    used = want[:num]
    names = [name(v) for v in used]
    if rng.random() < .5:
        kw['B'] = B
    I = rng.choice([row['I'] / 2, fr(row['I'])])
    full = rng.random() < .7
    tag = f'{tag}, {"a full" if full else "an"} atom with {kw}'
    hf = {r['n']: r['v'] for r in row['hf']}
    if not full:
        a = A.Atom.from_dataframe(df, 'X', I, **kw) if rng.random() < .5 else A.Atom.from_dataframe(df=df, name='X', I=I, **kw)
        hf = {}
    else:
        use_hf = rng.choice(['file', 'file', 'file', 'none', 'absent'])
        path = os.path.join(scratch, f'hf{os.getpid()}.csv')
        if use_hf == 'file':
            with open(path, 'w', newline='', encoding='utf-8') as f:
                rows = [[name(want[n - 1])] + [f'{x} megahertz' for x in v] for n, v in hf.items()] + [['9s 2S1/2', '1 GHz', '1 GHz', '1 GHz']]
                rng.shuffle(rows)
                csv.writer(f).writerows(rows)
        else:
            hf = {}
            path = path + '.no' if use_hf == 'absent' else None
        if use_hf != 'none':
            kw['hf_csv'] = path
        mode = rng.choice(['table', 'table', 'types', 'types', 'plain'])
        withA = True
        if mode == 'table':
            kw['transitions_df'], withA = transitions(row, rng, scratch)
            if rng.random() < .3:
                kw['allowed'] = (True, False, False)
        else:
            if rng.random() < .4:
                kw['transitions_df'] = None
            if mode == 'types':
                kw['allowed'] = tuple(rng.random() < .5 for _ in range(3))
        a = IO.generate_full_from_dataframe(df, 'X', I=I, **kw)
    need(a.name == 'X' and a.I == row['I'] / 2, f'{tag} is named {a.name} and has I = {a.I}')
    need(close(a.B.to('gauss').magnitude, kw['B'].magnitude if 'B' in kw else 0, abs_=1e-9), f'{tag} is in a field of {a.B}')
    need(sorted(a.levels.keys()) == sorted(names), f'{tag} has the levels {sorted(a.levels.keys())} instead of {sorted(names)}')
    for n, v in enumerate(used):
        o = a.levels[name(v)]
        check_level(o, v, tag)
        for x, got in zip(hf.get(n + 1, (0, 0, 0)), (o.hfA, o.hfB, o.hfC)):
            need(close(got.to('Hz').magnitude, x * 1e6, abs_=1e-6), f'{tag}: {name(v)} has the constants {(o.hfA, o.hfB, o.hfC)} instead of '
                 f'{hf.get(n + 1, (0, 0, 0))} MHz')
    count('atoms')
    if not full:
        need(len(a.transitions) == 0, f'{tag} has the transitions {a.transitions.list_names()}')
        return
    got = [tuple(sorted(k)) for k in a.transitions.keys()]
    need(len(got) == len(set(got)) == len(a.transitions), f'{tag} has the transitions {got}')
    for x in names:
        need((x, x) in got, f'{tag} has no internal transition of {x}')
    got = {k for k in got if k[0] != k[1]}
    pairs = {tuple(sorted((names[p['a'] - 1], names[p['b'] - 1]))): p['ty'] for p in row['pairs']
             if p['a'] != p['b'] and max(p['a'], p['b']) <= len(used)}
    if mode == 'table':
        As = {}
        for r in row['tab']:
            if r['a'] < r['b'] <= len(used) and used[r['a'] - 1]['term'] and used[r['b'] - 1]['term']:
                As[tuple(sorted((names[r['a'] - 1], names[r['b'] - 1])))] = r['A']
        need(got == set(As), f'{tag} has the transitions {sorted(got)} instead of those of its table, {sorted(As)}')
        for k, x in As.items():
            t = a.transitions[k]
            need(t.A is None if not withA else t.A is not None and close(t.A.to('Hz').magnitude, x * 1e6, rel=1e-9, abs_=1e-6),
                 f'{tag}: {k} has A = {t.A} instead of {x if withA else None} MHz')
    else:
        sel = lambda types: {k for k, ty in pairs.items() if any(x and y for x, y in zip(ty, types))}
        must = sel(kw['allowed'] if mode == 'types' else (True, False, False))
        may = must if mode == 'types' else sel((True, True, True))
        need(must <= got <= may, f'{tag} lacks {sorted(must - got)} and has {sorted(got - may)} which are not permitted')
    for t in a.transitions.values():
        need(t.E_lower.level_Hz <= t.E_upper.level_Hz, f'{tag}: the upper level of {t} is below the lower one')
        need(t.set_freq is None, f'{tag}: {t} has the assigned frequency {t.set_freq}')
    count('full atoms')


def transitions(row, rng, scratch):
    """the table of transitions, read by load_transition_data"""
    import csv
    from atomtoolkit import IO
    want = row['levels']
    keys = ['conf_l', 'term_l', 'j_l', 'conf_u', 'term_u', 'j_u', 'A']
    heads = keys if rng.random() < .5 else ['LConf', 'LTerm', 'L J', 'UConf', 'UTerm', 'U J', 'A (MHz)']
    path = os.path.join(scratch, f'tr{os.getpid()}.csv')
    recs = []
    for r in row['tab']:
        if r['a'] < r['b']:
            lo, up = want[r['a'] - 1], want[r['b'] - 1]
            if not lo['term'] or not up['term']:
                continue  # an empty cell names no level
            if rng.random() < .3:
                lo, up = up, lo
            recs.append([lo['conf'], lo['term'], lo['J'] / 2, up['conf'], up['term'], up['J'] / 2, float(r['A'])])
    recs.append(['9s', '2S', .5, '9p', '2P*', 1.5, 1.0])
    rng.shuffle(recs)
    with open(path, 'w', newline='', encoding='utf-8') as f:
        w = csv.writer(f)
        w.writerow(heads + ['note'])
        w.writerows(r + ['x'] for r in recs)
    cols = dict(zip(keys, heads))
    withA = rng.random() < .8
    if not withA:
        del cols['A']
    elif rng.random() < .3:
        cols['A_coeff'] = cols.pop('A')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        df = IO.load_transition_data(path, columns=cols)
    if rng.random() < .3 and withA:
        df = df.dropna(subset=['A'])
    return df, withA


def run_C15(ctx):
    n = ctx.n(560, 12000)
    for rows, box in ((3, (6, 3, 7)), (8, (6, 4, 9))):
        table(ctx, 'NistMC', dict(MaxRows=rows, MaxL=box[0], MaxS=box[1], MaxJ=box[2]), judge_C15, jobs=[{}] * 8,
              sim=max(1, n // (8 * (8 if rows == 3 else 10))), depth=1 + (24 if rows == 3 else 55), cap=ctx.n(150, 1500),
              timeout=ctx.n(600, 3000))
