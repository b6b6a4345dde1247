"""The system under test: real Atom objects driven by operations of the specification.

A world (JSON printed by TLC) says which level objects exist; paths are lists as in AtomCore:
[l], [l, 2F] or [l, 2F, 2mF]; transitions are pairs of paths."""
import os
import warnings

from common import Violation, frac

MUB = 1.39962449361e6          # Hz per gauss
C_LIGHT = 299792458.0
G0 = 'G'


def fr(d):
    """doubled integer -> canonical text"""
    return str(d // 2) if d % 2 == 0 else f'{d}/2'


def tup(p):
    return tuple(p)


def ttup(t):
    return (tuple(t[0]), tuple(t[1]))


BULKY = ('rows', 'arrows', 'edges', 'curves', 'samples')


class Sut:
    def __init__(self, at, world, rng=None, objs=None, atom=None, scratch='.'):
        """at: the atomtoolkit namespace (see load())"""
        self.at, self.world, self.rng, self.scratch = at, world, rng, scratch
        self.unit = float(world['unit'])
        self.lv = world['lv']
        self.i2 = world['i']
        self.h = {}             # handles of sublevels
        self.th = {}            # handles of transitions and components
        self.warned = []
        self.tokens = False     # constants stand for any nonzero number
        self.diagrams = {}
        self.stamp = {}         # constants by where they came from
        if atom is not None:
            self.atom, self.objs = atom, objs
            return
        self.objs = {l + 1: self.make_level(l + 1) for l in range(len(self.lv))}
        u = rng.choice(['G', 'kG', 'mG']) if rng is not None else 'G'
        B = at.Q_(float(world['b']) / {'G': 1, 'kG': 1e3, 'mG': 1e-3}[u], u)
        start = [self.objs[l] for l in world['start']]
        given = [((self.objs[t['a']], self.objs[t['b']]), self.trkw(t['sf'], t['A'], 'GHz', 'MHz')) for t in world['tr0']]
        way = rng.random() if rng is not None else 1
        if way < .25:
            self.atom = at.Atom('X', I=self.spin(), B=B, levels=start, transitions=[at.Transition(*p, **kw) for p, kw in given])
            return
        if way < .4:
            self.atom = at.Atom('X', I=self.spin(), B=B, levels=start if start or way < .3 else None)
        else:
            self.atom = at.Atom('X', I=self.spin(), B=B)
            for o in start:
                self.atom.add_level(o)
        for p, kw in given:
            if way < .6:
                self.atom.add_transition(at.Transition(*p, **kw))
            else:
                self.atom.add_transition(p, **kw)

    # ------------------------------------------------------------ building
    def spin(self):
        d = self.i2
        if self.rng is not None and self.rng.random() < .5:
            return fr(d)
        return d / 2

    def make_level(self, l):
        at, v = self.at, self.lv[l - 1]
        j = fr(v['j']) if self.rng is None or self.rng.random() < .5 else v['j'] / 2
        hf = [at.Q_(float(frac(x)) * self.unit, 'Hz') for x in v['hf']]
        return at.EnergyLevel(at.Term(v['c'], v['t'], j), at.Q_(float(frac(v['e'])) * self.unit, 'Hz'),
                              lande=float(frac(v['g'])), hfA=hf[0], hfB=hf[1], hfC=hf[2],
                              **({'alias': v['al']} if v['al'] else {}))

    def name(self, p):
        v = self.lv[p[0] - 1]
        n = f"{v['c']} {v['t']}{fr(v['j'])}"
        if len(p) > 1:
            n += f' F={fr(p[1])}'
        if len(p) > 2:
            n += f' mF={fr(p[2])}'
        return n

    def label(self, p):
        return self.name(p).rpartition(' ')[2]

    def tname(self, t):
        return (self.name(t[0]), self.name(t[1]))

    # ------------------------------------------------------------ quantities
    def hz(self, v):
        """<<x, y>> -> Hz"""
        return float(frac(v[0])) * self.unit + float(frac(v[1])) * MUB

    def qty(self, hz, unit):
        Q = self.at.Q_
        if unit in ('1/cm', '1/m'):
            x = hz / C_LIGHT
            return Q(x / 100, '1/cm') if unit == '1/cm' else Q(x, '1/m')
        if unit in ('nm', 'um'):
            return Q(C_LIGHT / hz * {'nm': 1e9, 'um': 1e6}[unit], unit)
        return Q(hz / {'Hz': 1, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12}[unit], unit)

    def acoef(self, A, unit):
        return self.qty(float(frac(A)) * 1e6, unit) if A else None

    def trkw(self, sf, A, funit, aunit):
        kw = {}
        if sf:
            kw['freq'] = self.qty(self.hz(sf), funit)
        if A:
            kw['A'] = self.acoef(A, aunit)
        return kw

    # ------------------------------------------------------------ handles
    def handle(self, p):
        p = tup(p)
        if len(p) == 1:
            return self.objs[p[0]]
        if p not in self.h:
            self.h[p] = self.handle(p[:-1])[self.label(p)]
        return self.h[p]

    def find_t(self, t):
        """The transition joining two paths, found by looking through the containers"""
        a, b = ttup(t)
        if len(a) == 1:
            pool = list(self.atom.transitions.values())
        else:
            pool = list(self.thandle((a[:-1], b[:-1])).values())
        x, y = self.handle(a), self.handle(b)
        got = [u for u in pool if (u.E_lower is x and u.E_upper is y) or (u.E_lower is y and u.E_upper is x)]
        if len(got) != 1:
            raise Violation(f'{len(got)} transitions join {self.tname(t)}')
        return got[0]

    def thandle(self, t):
        t = ttup(t)
        if t not in self.th:
            self.th[t] = self.find_t(t)
        return self.th[t]

    def forget(self, keep=lambda t: False):
        self.th = {t: v for t, v in self.th.items() if keep(t)}

    def forget_pair(self, a, b):
        self.forget(lambda t: {t[0][0], t[1][0]} != {a, b})

    # ------------------------------------------------------------ fresh navigation
    def nav(self, p, style=None):
        """The level at a path, looked up anew in one of several ways"""
        p = tup(p)
        r = self.rng
        style = style if style is not None else r.randrange(5)
        lv = self.atom.levels
        if style == 0:
            return lv[self.name(p)]
        if style == 1:
            x = lv[self.name(p[:1])]
            for n in range(2, len(p) + 1):
                x = x[self.label(p[:n])]
            return x
        if style == 2:
            x = [o for o in lv.values() if o.name == self.name(p[:1])]
            for n in range(2, len(p) + 1):
                x = [o for o in x[0].values() if o.term.short_name == self.label(p[:n])]
            if len(x) != 1:
                raise Violation(f'{len(x)} levels named {self.name(p)}')
            return x[0]
        if style == 3:
            return lv[self.name(p[:2])][self.label(p)] if len(p) == 3 else lv[self.name(p)]
        x = lv[self.name(p[:1])]
        for n in range(2, len(p) + 1):
            x = dict(zip(x.keys(), x.sublevels()))[self.label(p[:n])]
        return x

    # ------------------------------------------------------------ keys
    def key(self, k):
        """a level key of the specification as a Python key"""
        if k['ty'] == 'o':
            return self.handle(k['v'])
        return k['v']

    def look(self, k):
        x = self.handle(k['v']) if k['ty'] == 'o' else self.atom.levels[k['v']]
        for lab in k['rest']:
            x = x[lab]
        return x

    def expect_level(self, k, exp, err):
        shown = self.showkey(k)
        try:
            got = self.look(k)
        except (KeyError, IndexError) as e:
            if exp:
                raise Violation(f'level key {shown} raised {type(e).__name__}, it names {self.name(exp)}')
            if (err == 'IndexError') != isinstance(e, IndexError):
                raise Violation(f'level key {shown} raised {type(e).__name__} instead of {err}')
            return
        except Exception as e:
            raise Violation(f'level key {shown} raised {type(e).__name__}: {e}')
        if not exp:
            raise Violation(f'level key {shown} names nothing but returned {got}')
        if got is not self.handle(exp):
            raise Violation(f'level key {shown} returned {got!r}, not the level object {self.name(exp)}')

    def showkey(self, k):
        if k['ty'] == 'o':
            s = f'<{self.name(k["v"])}>'
        else:
            s = repr(k['v'])
        return s + ''.join(f'[{r!r}]' for r in k['rest'])

    def expect_trans(self, getter, shown, exp, err):
        try:
            got = getter()
        except LookupError as e:
            if exp:
                raise Violation(f'transition key {shown} raised {type(e).__name__}, it names {self.tname(exp)}')
            if err == 'KeyError' and not isinstance(e, KeyError):
                raise Violation(f'transition key {shown} raised {type(e).__name__} instead of {err}')
            return
        except Exception as e:
            raise Violation(f'transition key {shown} raised {type(e).__name__}: {e}')
        if not exp:
            raise Violation(f'transition key {shown} names nothing but returned {got}')
        a, b = self.handle(exp[0]), self.handle(exp[1])
        if {id(got.E_lower), id(got.E_upper)} != {id(a), id(b)} or {id(got.E_1), id(got.E_2)} != {id(a), id(b)}:
            raise Violation(f'transition key {shown} returned {got}, which does not join {self.tname(exp)}')
        if got is not self.thandle(exp):
            raise Violation(f'transition key {shown} returned another object than the transition {self.tname(exp)}')

    # ------------------------------------------------------------ operations
    def apply(self, op):
        """Performs the operation; an exception the specification does not foresee is a violation"""
        self.warned = []
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                r = getattr(self, 'op_' + op['op'])(op)
            except Violation:
                raise
            except Exception as e:
                import traceback
                raise Violation(f'{self.describe(op)} raised {type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}')
        self.warned = [w for w in ws if issubclass(w.category, Warning)
                       and not issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning, FutureWarning,
                                                       ResourceWarning, ImportWarning))
                       and w.category.__name__ != 'UnitStrippedWarning']
        return r

    def describe(self, op):
        o = {k: v for k, v in op.items() if k not in ('op', 'exp', 'err') + BULKY or op['op'] == 'popDf'}
        for k in ('l', 'a', 'b'):
            if isinstance(o.get(k), int):
                o[k] = self.name([o[k]])
        if 'p' in o:
            o['p'] = self.name(o['p'])
        if o.get('t'):
            o['t'] = self.tname(o['t'])
        if o.get('ts'):
            o['ts'] = [self.tname(t) for t in o['ts']]
        return f"{op['op']}({', '.join(f'{k}={v}' for k, v in o.items())})"

    def op_skip(self, o):
        pass

    def op_addL(self, o):
        obj, al = self.objs[o['l']], o['alias']
        if o['how'] == 'append':
            self.atom.levels.append(obj)
        elif o['how'] == 'set':
            self.atom.levels[al] = obj
        else:
            kw = {'alias': al} if al else {}
            if o['how'] == 'eager':
                kw['populate_sublevels'] = True
            if self.atom.add_level(obj, **kw) is not obj:
                raise Violation('add_level does not return the level')

    def op_delL(self, o):
        del self.atom.levels[o['key']]
        self.forget(lambda t: o['l'] not in (t[0][0], t[1][0]))

    def op_delBad(self, o):
        try:
            del self.atom.levels[o['key']]
        except KeyError:
            return
        raise Violation(f'deleting level {o["key"]!r}, which is not there, raised nothing')

    def op_delTBad(self, o):
        key = tuple(self.key(k) for k in o['key'])
        try:
            del self.atom.transitions[key if len(key) > 1 else key[0]]
        except LookupError:
            return
        raise Violation(f'deleting transition {key!r}, which is not there, raised nothing')

    def op_aliasL(self, o):
        self.handle(o['p']).alias = o['alias']

    def op_addT(self, o):
        at = self.at
        a, b = self.objs[o['a']], self.objs[o['b']]
        unit = o['unit']
        kw = self.trkw(o['sf'], o['A'], unit if o['sf'] else 'GHz', unit if o['A'] else 'MHz')
        how, al = o['how'], o['alias']
        if how == 'set':
            t = at.Transition(a, b, **kw)
            self.atom.transitions[al] = t
        else:
            if al:
                kw['alias'] = al
            if how == 'names':
                t = self.atom.add_transition((a.name, b.name), **kw)
            elif how == 'objs':
                t = self.atom.add_transition((a, b), **kw)
            elif how == 'aliases':
                t = self.atom.add_transition((o['ka'], o['kb']), **kw)
            elif how == 'obj':
                t = at.Transition(a, b, **kw)
                if self.atom.add_transition(t) is not t:
                    raise Violation('add_transition does not return the transition')
            elif how == 'append':
                t = at.Transition(a, b, **kw)
                self.atom.transitions.append(t)
        self.forget_pair(o['a'], o['b'])
        self.last_added = t

    def op_againT(self, o):
        t = self.find_t(((o['a'],), (o['b'],)))
        if o['how'] == 'same':
            r = self.atom.add_transition(t)
        elif o['how'] == 'append':
            self.atom.transitions.append(t)
            r = t
        else:
            a, b = self.objs[o['a']], self.objs[o['b']]
            r = self.atom.add_transition((a.name, b.name) if o['how'] == 'names' else (a, b))
        if r is not t:
            raise Violation('adding a transition again gives another transition')

    def op_delT(self, o):
        key = o['key']
        if len(key) == 1:
            del self.atom.transitions[key[0]['v']]
        else:
            del self.atom.transitions[tuple(self.key(k) for k in key)]
        self.forget_pair(o['a'], o['b'])

    def op_aliasT(self, o):
        self.thandle(o['t']).alias = o['alias']

    def op_setE(self, o):
        self.handle(o['p']).level = self.qty(self.hz(o['v']), o['unit'])

    def constant(self, v, unit):
        """a hyperfine constant; with tokens, its value stands for any nonzero number"""
        x = float(frac(v))
        if self.tokens and x:
            r = self.rng
            m = r.choice([r.uniform(-50, 50), r.uniform(-1, 1) * 10 ** r.uniform(-9, 9), 1 / 3, -0.1, 12.642812118466, -1e-3 / 7])
            return self.at.Q_(m, unit)
        return self.qty(x * self.unit, unit)

    def op_setHf(self, o):
        q = self.constant(o['v'], o['unit'])
        setattr(self.objs[o['l']], {1: 'hfA', 2: 'hfB', 3: 'hfC'}[o['n']], q)
        self.stamp[o['id'], None] = q.to('Hz').magnitude

    def bits(self, id_, l, n):
        """what a constant of a given origin was, in Hz"""
        if id_ == -1:
            return 0.0
        if id_ == 0:
            return self.at.Q_(float(frac(self.lv[l - 1]['hf'][n - 1])) * self.unit, 'Hz').to('Hz').magnitude
        return self.stamp[id_, n] if (id_, n) in self.stamp else self.stamp[id_, None]

    def csv_file(self, name):
        d = os.path.join(self.scratch, f'csv{os.getpid()}')
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name or 'X_Hyperfine.csv')

    def op_csvW(self, o):
        from atomtoolkit import IO
        kw = {}
        if o['blank'] or self.rng.random() < .3:
            kw['blank'] = o['blank']
        if o['def']:
            q = self.constant(o['d'], o['unit'])
            self.stamp[o['id'], None] = q.to('Hz').magnitude
            kw['def_A'] = q
        f = self.csv_file(o['file'])
        if os.path.exists(f):
            os.remove(f)
        cwd = os.getcwd()
        os.chdir(os.path.dirname(f))
        try:
            IO.generate_hf_csv(self.atom, *([f] if o['file'] else []), **kw)
        finally:
            os.chdir(cwd)
        if not os.path.exists(f):
            raise Violation(f'generate_hf_csv did not write {os.path.basename(f)}')

    def op_csvHand(self, o):
        """a table by hand, in the format of the written ones"""
        import csv
        lines = []
        for n, v in enumerate(o['v']):
            q = self.constant(v, self.rng.choice(['GHz', 'MHz', 'Hz', 'kHz']))
            self.stamp[o['id'], n + 1] = q.to('Hz').magnitude
            lines.append(f'{q.magnitude!r} {self.rng.choice([str(q.units), f"{q.units:~}"])}')
        rows = [[self.name([l])] + lines for l in o['rows']]
        rows.insert(self.rng.randrange(len(rows) + 1), ['no such level'] + lines)
        self.rng.shuffle(rows)
        with open(self.csv_file(o['file']), 'w', newline='', encoding='utf-8') as f:
            csv.writer(f, quoting=self.rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL])).writerows(rows)

    def op_csvA(self, o):
        from atomtoolkit import IO
        IO.apply_hf_csv(self.atom, self.csv_file(o['file']))

    def op_fresh(self, o):
        r = Sut(self.at, self.world, self.rng, scratch=self.scratch)
        r.tokens, r.stamp = self.tokens, self.stamp
        return r

    def diagram(self, n):
        import drawing
        if n not in self.diagrams:
            self.diagrams[n] = drawing.Diagram(self)
        return self.diagrams[n]

    def op_dgLevel(self, o):
        self.diagram(o['d']).add(o)

    def op_dgArrow(self, o):
        self.diagram(o['d']).arrow(o)

    def op_dgQuick(self, o):
        import drawing
        drawing.quick(self, o)

    def op_plot(self, o):
        import plotting
        plotting.plot(self, o)

    def op_dgRender(self, o):
        self.diagram(o['d']).render(o)

    def op_setG(self, o):
        self.objs[o['l']].lande = float(frac(o['v']))

    def op_setGF(self, o):
        self.handle(o['p']).gF = float(frac(o['v']))

    def op_setB(self, o):
        v, u = o['v'], o['unit']
        self.atom.B = self.at.Q_(v * {'G': 1, 'mG': 1e3, 'kG': 1e-3}[u], u)

    def op_setQ(self, o):
        self.handle(o['p']).quadratic_zeeman = float(frac(o['v'])) * self.unit

    def op_setF(self, o):
        t, q = self.thandle(o['t']), self.qty(self.hz(o['v']), o['unit'])
        if o['form'] == 'attr':
            t.freq = q
        else:
            t.set_frequency(q)

    def op_setA(self, o):
        self.thandle(((o['a'],), (o['b'],))).A = self.acoef(o['v'], o['unit'])

    def op_setAC(self, o):
        self.thandle(o['t']).A = self.acoef(o['v'], o['unit'])

    def op_pop(self, o):
        if all(o['allowed']) and self.rng.random() < .5:
            self.atom.populate_transitions()
        else:
            self.atom.populate_transitions(allowed=tuple(o['allowed']))

    def op_popInt(self, o):
        self.atom.populate_internal_transitions()

    def row_frame(self, rows):
        import pandas as pd
        recs = []
        for r in rows:
            lo, up = self.lv[r['l'] - 1], self.lv[r['u'] - 1]
            jt = [lambda d: d / 2, lambda d: str(d / 2)][self.rng.randrange(2)]
            recs.append({'conf_l': lo['c'], 'term_l': lo['t'], 'j_l': jt(lo['j']),
                         'conf_u': up['c'], 'term_u': up['t'], 'j_u': jt(up['j']),
                         'freq': self.qty(self.hz(r['sf']), self.rng.choice(['GHz', '1/cm', 'nm'])) if r['sf'] else None,
                         'A': self.acoef(r['A'], self.rng.choice(['MHz', 'kHz'])) if r['A'] else None})
        df = pd.DataFrame(index=range(len(recs)), columns=['conf_l', 'term_l', 'j_l', 'conf_u', 'term_u', 'j_u', 'freq', 'A'],
                          dtype=object)
        for n, r in enumerate(recs):
            for k, v in r.items():
                df.at[n, k] = v
        return df

    def op_popDf(self, o):
        self.atom.populate_transitions_df(self.row_frame(o['rows']))
        for r in o['rows']:
            self.forget_pair(r['l'], r['u'])

    def op_lookL(self, o):
        self.expect_level(o['key'], o['exp'], o['err'])

    def op_slice(self, o):
        n = len(self.atom.levels)
        lo, hi, step = o['lo'], o['hi'], o['step']
        end = hi == n if step > 0 else hi < 0
        s = slice(lo if not o['neg'] or lo == n else lo - n, None if end and (o['neg'] or step < 0) else hi - n if o['neg'] else hi,
                  step if step != 1 or self.rng.random() < .5 else None)
        got = self.atom.levels[s]
        if [id(x) for x in got] != [id(self.objs[l]) for l in o['exp']]:
            raise Violation(f'levels[{s}] gives {[str(x) for x in got]}, not {[self.name([l]) for l in o["exp"]]}')

    def op_lookT(self, o):
        ks = (self.key(o['a']), self.key(o['b']))
        self.expect_trans(lambda: self.atom.transitions[ks], (self.showkey(o['a']), self.showkey(o['b'])), o['exp'], o['err'])

    def op_lookTA(self, o):
        self.expect_trans(lambda: self.atom.transitions[o['a']], repr(o['a']), o['exp'], o['err'])

    def op_lookTN(self, o):
        base = self.thandle(o['base'])

        def get():
            t = base
            for pair in o['rest']:
                t = t[tuple(pair)]
            return t
        self.expect_trans(get, f'{self.tname(o["base"])}{o["rest"]}', o['exp'], o['err'])

    # ------------------------------------------------------------ reads
    def op_read(self, o):
        """Looks; what looking returns or raises is not judged here"""
        try:
            self.do_read(o['what'], o['p'], o['t'])
        except Exception as e:
            self.read_error = e

    def do_read(self, what, p, t):
        a = self.atom
        if what == 'len':
            len(a.levels), len(a.transitions), len(self.handle(p))
        elif what == 'lens':
            for l in list(a.levels.values()):
                len(l)
        elif what == 'names':
            a.levels.list_names(), a.transitions.list_names(), a.transitions.list_names(False)
        elif what == 'iter':
            list(a.levels), list(a.transitions), list(a.levels.keys()), list(self.handle(p)), list(self.handle(p).items())
        elif what == 'slices':
            a.levels[0:2], a.levels[-1], a.levels[::-1]
        elif what == 'badkeys':
            for k in ('nonsense', 'x F=1', 'x F=1 mF=0', self.name(p) + ' F=77', self.name(p) + ' mF=77', 99, -99):
                try:
                    a.levels[k]
                except LookupError:
                    pass
            for k in (('nonsense', 'x'), (self.name(p), self.name(p)), (0, 77), (self.name(p), 0), 'nonsense'):
                try:
                    a.transitions[k]
                except LookupError:
                    pass
            for x in ('F=77', 'mF=77'):
                try:
                    self.handle(p)[x]
                except LookupError:
                    pass
        elif what == 'goodkeys':
            a.levels[self.name(p)]
            if t:
                a.transitions[self.tname(t)]
        elif what == 'reprs':
            h = self.handle(p)
            repr(h), str(h), repr(h.term), str(h.term), repr(a), str(a), repr(a.levels), repr(a.transitions)
            if t:
                repr(self.thandle(t)), str(self.thandle(t))
        elif what == 'comps' and t:
            h = self.thandle(t)
            len(h), list(h.values()), list(h.keys()), list(h.items()), list(h)
        elif what == 'components':
            for u in list(a.transitions.values()):
                for v in u.subtransitions():
                    v.subtransitions()
        elif what == 'linked':
            a.linked_levels(self.name(p))
        elif what == 'branching':
            a.compute_branching_ratios(self.name(p))
        elif what == 'lifetime':
            a.state_lifetime(self.name(p))
        elif what == 'energies':
            h = self.handle(p)
            h.level, h.shift, h.level_Hz, h.shift_Hz, h.atom, h.manifold, h.parent, h.alias
        elif what == 'freqs' and t:
            h = self.thandle(t)
            h.freq, h.freq_Hz, h.wl, h.A, h.rel_strength, h.allowed_types, h.set_freq, h.alias
        elif what == 'draw':
            from atomtoolkit.render import grotrian
            import matplotlib.pyplot as plt
            try:
                grotrian.draw_levels(a, plot_type=['norm', 'hf', 'z'][len(p) - 1])
            finally:
                plt.close('all')
        elif what == 'grotrian':
            from atomtoolkit.render import grotrian
            import matplotlib.pyplot as plt
            g = grotrian.Grotrian()
            try:
                for l in list(a.levels.values()):
                    g.add_level(l, strategy=['g', 'hf', 'z'][len(p) - 1], bbox='rect')
                if t:
                    g.add_transition(self.thandle(t))
                g.render()
            finally:
                plt.close('all')
        elif what == 'spectrum' and t:
            from atomtoolkit.render import spectra
            from atomtoolkit.render.lineshapes import LorentzianLineShape
            import matplotlib.pyplot as plt
            h = self.thandle(([t[0][0]], [t[1][0]]))
            try:
                spectra.plot_hyperfine_spectrum(h, LorentzianLineShape(gamma=.1), num_points=20)
                spectra.plot_zeeman_spectrum(h, LorentzianLineShape(gamma=.1), num_points=20)
                spectra.plot_spectrum([h], LorentzianLineShape(gamma=.1), num_points=20)
            finally:
                plt.close('all')
        elif what == 'strengths' and t:
            for v in self.thandle(t).values():
                v.rel_strength, v.A, v.freq
        elif what == 'aliases':
            dict(a.levels.aliases), dict(a.transitions.aliases), self.handle(p).alias
        elif what == 'csv':
            from atomtoolkit import IO
            IO.generate_hf_csv(a, os.path.join(self.scratch, f'read{os.getpid()}.csv'))
        elif what == 'terms':
            h = self.handle(p)
            h.term.full_name, h.term.make_term_copy(F=1.0, mF=1.0), h.term == h.term
        elif what == 'save':
            a.save(os.path.join(self.scratch, f'read{os.getpid()}.atom'))

    # ------------------------------------------------------------ saving
    def op_save(self, o):
        """Returns the Sut of the loaded copy"""
        import shutil
        import tempfile
        d = tempfile.mkdtemp(dir=self.scratch)
        try:
            stem = os.path.join(d, o['stem'] or self.atom.name)
            os.makedirs(os.path.dirname(stem), exist_ok=True)
            if o['stem']:
                self.atom.save(stem + ('.atom' if o['ext'] else ''))
            else:
                here = os.getcwd()
                os.chdir(d)
                try:
                    self.atom.save(None)
                finally:
                    os.chdir(here)
            files = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]
            if files != [stem + '.atom']:
                raise Violation(f'saving as {o["stem"] + (".atom" if o["ext"] else "")!r} wrote {[os.path.relpath(f, d) for f in files]}')
            atom = self.at.Atom.load(files[0])
        finally:
            shutil.rmtree(d)
        objs = {}
        names = {l.name: l for l in atom.levels.values()}
        for l in self.objs:
            objs[l] = names.get(self.name([l])) or self.make_level(l)
        r = Sut(self.at, self.world, self.rng, objs, atom, self.scratch)
        r.tokens, r.stamp = self.tokens, self.stamp
        return r


def load():
    """Imports the code under test"""
    import types
    import logging
    logging.getLogger('matplotlib').setLevel(logging.ERROR)
    import atomtoolkit
    from atomtoolkit import Q_, ureg
    from atomtoolkit import atom, term, util
    import common
    if not os.path.abspath(atomtoolkit.__file__).startswith(os.path.abspath(common.REPO)):
        raise common.Machinery(f'atomtoolkit imported from {atomtoolkit.__file__}')
    return types.SimpleNamespace(Q_=Q_, ureg=ureg, Atom=atom.Atom, EnergyLevel=atom.EnergyLevel,
                                 Transition=atom.Transition, Term=term.Term, MultiTerm=term.MultiTerm, util=util)
