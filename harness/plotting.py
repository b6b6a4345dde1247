"""Spectra: plotted, and read back from the axes."""
import math
import warnings

from common import Violation, close, frac

COLOR = (.25, .5, .75, 1)


def f(x):
    return float(frac(x))


def bessel2(n, depth):
    from scipy.special import jv
    return float(jv(abs(n), depth)) ** 2


class Plot:
    def __init__(self, sut, op):
        self.sut, self.op, self.rng = sut, op, sut.rng
        self.shape = op['shape']

    def lineshape(self):
        from atomtoolkit.render import lineshapes as ls
        s = self.shape
        w = f(s['w'])
        if s['k'] == 'lor':
            return ls.LorentzianLineShape(gamma=w)
        if s['k'] == 'gau':
            return ls.GaussianLineShape(sigma=w)
        kw = {} if s['auto'] else {'num_sidebands': s['sb']}
        return ls.ModLorentzianLineShape(w, f(s['depth']), f(s['mod']), **kw)

    def value(self, y):
        d = f(self.shape['depth'])
        one = len(y['parts']) == 1 and self.shape['k'] != 'mod'
        return math.exp(-f(y['e'])) * sum(f(p['v']) * (1 if one else bessel2(p['n'], d)) for p in y['parts'])

    def functions(self):
        """the profiles as plain functions, at the sampled points"""
        import numpy as np
        from atomtoolkit.render import lineshapes as ls
        s, r = self.shape, self.rng
        x0 = r.choice([0, 0.0, 7.5, -1234.25])
        amp = r.choice([1.0, 2, .125])
        kw = {} if amp == 1.0 and r.random() < .5 else {'ampl': amp}
        fn = {'lor': ls.lorentzian, 'gau': ls.gaussian, 'mod': ls.mod_lorentzian}[s['k']]
        kw['sigma' if s['k'] == 'gau' else 'gamma'] = f(s['w'])
        if s['k'] == 'mod':
            kw.update(depth=f(s['depth']), mod_freq_GHz=f(s['mod']))
            if not s['auto']:
                kw['num_sidebands'] = s['sb']
        xs = [x0 + f(p['x']) for p in self.op['samples']]
        want = [amp * self.value(p['y']) for p in self.op['samples']]
        got = fn(np.array(xs), x0, **kw)
        for x, w, g in zip(xs, want, got):
            if not close(g, w, rel=1e-6, abs_=1e-9 * amp):
                raise Violation(f'{fn.__name__}({x}, {x0}, {kw}) is {g!r} instead of {w!r}')
        if s['k'] != 'mod':
            half = self.lineshape().fwhm / 2  # the Gaussian one knows it to three digits
            for sign in (1, -1):
                y = float(fn(x0 + sign * half, x0, **kw))
                if not close(y, amp / 2, rel=1e-3):
                    raise Violation(f'half a fwhm of {2 * half} from its centre a {fn.__name__} with {kw} is {y} instead of {amp / 2}')
            w = f(s['w'])
            sg, gm = w * r.choice([.5, 1, 3]), w * r.choice([.25, 1, 2])
            y = [float(ls.voigt(x0 + d, x0, sg, gm, **({'ampl': amp} if amp != 1.0 else {}))) for d in (-2 * w, -w, 0, w, 2 * w)]
            one = float(ls.voigt(0.0, 0.0, sigma=sg, gamma=gm))
            if not (close(y[0], y[4], rel=1e-6) and close(y[1], y[3], rel=1e-6) and 0 < y[4] < y[3] < y[2] and close(y[2], amp * one, rel=1e-9)):
                raise Violation(f'a Voigt profile of widths {sg} and {gm} and amplitude {amp} around {x0} is {y} at -2, -1, 0, 1 and 2 times {w}')
            i = r.randrange(len(xs))
            if not close(float(fn(xs[i], x0, **kw)), want[i], rel=1e-6, abs_=1e-9 * amp):
                raise Violation(f'{fn.__name__}({xs[i]}, {x0}, {kw}) differs for single numbers')

    def run(self):
        import matplotlib.pyplot as plt
        self.functions()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            plt.close('all')
            try:
                self.draw()
                self.judge(plt.gca())
            finally:
                plt.close('all')

    def draw(self):
        from atomtoolkit.render import spectra
        o, r = self.op, self.rng
        ts = [self.sut.thandle(t) for t in o['ts']]
        what = ts[0] if o['alone'] else ts
        kw = {}
        if o['given']:
            kw['ampl_dict'] = {self.sut.thandle(c['t']).name: f(c['amp']) for c in o['curves']}
        elif r.random() < .2:
            kw['ampl_dict'] = None
        if f(o['pad']) != 20 or r.random() < .5:
            kw['padding'] = f(o['pad'])
        kw['num_points'] = o['n']
        if not o['total'] or r.random() < .3:
            kw['total'] = o['total']
        color = {'none': None, 'call': lambda t: COLOR}.get(o['color'], o['color'])
        if o['kind'] in ('any', 'raw'):
            if o['unit'] != 'GHz' or r.random() < .3:
                kw['unit'] = o['unit']
        sh = self.lineshape()
        if o['kind'] == 'raw':
            if o['color'] == 'call':
                kw['color_func'] = color
            spectra.plot_transitions(what, sh, **kw)
            return
        if o['color'] != 'default':
            kw['coloring'] = color
        if any(c['hue'] for c in o['curves']) and r.random() < .2:
            kw['cmap'] = r.choice(['tab10', 'Set1'])
        fn = {'hf': spectra.plot_hyperfine_spectrum, 'z': spectra.plot_zeeman_spectrum, 'any': spectra.plot_spectrum}[o['kind']]
        if r.random() < .5:
            fn(what, sh, **kw)
        else:
            fn(what, lineshape=sh, **kw)

    def said(self):
        o = self.op
        what = ', '.join(str(self.sut.tname(t)) for t in o['ts'])
        s = {k: (str(frac(v)) if isinstance(v, list) else v) for k, v in o['shape'].items()}
        return f'({o["kind"]} plot of {"" if o["alone"] else "the list "}{what}, {s}, padding={frac(o["pad"])}, {o["n"]} points, unit={o["unit"]}, coloring={o["color"]})'

    def judge(self, ax):
        import numpy as np
        o, sut = self.op, self.sut
        lines = list(ax.lines)
        n = len(o['curves'])
        totals = [l for l in lines if l.get_label() == 'Total']
        curves = [l for l in lines if l.get_label() != 'Total']
        if len(curves) != n:
            raise Violation(f'the plot shows {len(curves)} curves instead of {n} {self.said()}')
        if len(totals) != (1 if o['total'] else 0):
            raise Violation(f'the plot shows {len(totals)} totals {self.said()}')
        if o['unit'] not in ax.get_xlabel():
            raise Violation(f'the frequencies are labelled {ax.get_xlabel()!r} {self.said()}')
        dx = [f(p['x']) for p in o['samples']]
        ys = [self.value(p['y']) for p in o['samples']]
        scale = abs(dx[0] - dx[-1]) / 2
        left, shown = list(curves), []
        for c in o['curves']:
            x0 = abs(sut.at.Q_(sut.hz(c['f']), 'Hz').to(o['unit']).magnitude)
            label = f'{c["lo"]} → {c["up"]}'
            h = f(c['h'])
            named = [l for l in left if l.get_label() == label]
            if not named:
                raise Violation(f'no curve is labelled {label!r} for {sut.tname(c["t"])}; left are {[l.get_label() for l in left]} {self.said()}')
            xtol = 1e-7 * scale + 1e-13 * x0
            # rounding of the frequency moves the sampled points on the flanks
            ytol = 1e-7 + 4e-13 * x0 / f(self.shape['w'])
            best = None
            for l in named:
                x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
                if len(x) != len(dx):
                    why = f'{len(x)} points'
                elif max(abs(x - (x0 + np.array(dx)))) > xtol:
                    why = f'x from {x[0]} to {x[-1]} instead of {x0 + dx[0]} to {x0 + dx[-1]}'
                elif max(abs(y - h * np.array(ys))) > ytol * max(h, 1e-3):
                    i = int(np.argmax(abs(y - h * np.array(ys))))
                    why = f'{y[i]} instead of {h * ys[i]} at {x[i]} (centre {x0}, height {h})'
                else:
                    why = None
                if why is None:
                    best = l
                    break
            if best is None:
                raise Violation(f'the curve of {sut.tname(c["t"])} has {why} {self.said()}')
            if o['color'] == 'call' and tuple(best.get_color()) != COLOR:
                raise Violation(f'the curve of {sut.tname(c["t"])} has color {best.get_color()} {self.said()}')
            left.remove(best)
            if o['color'] != 'call':
                shown.append((c, best.get_color()))
        self.colors(shown)
        if totals:
            t = totals[0]
            x, y = np.asarray(t.get_xdata(), float), np.asarray(t.get_ydata(), float)
            if len(x) and (min(l.get_xdata()[0] for l in curves) < x.min() - 1e-9 * scale or max(l.get_xdata()[-1] for l in curves) > x.max() + 1e-9 * scale):
                raise Violation(f'the total does not cover every curve {self.said()}')
            lo, hi = np.zeros_like(x), np.zeros_like(x)
            for l in curves:
                a, b = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
                v = np.interp(x, a, b)
                inside = (x >= a[0]) & (x <= a[-1])
                near = (x >= a[0] - 1e-6 * scale) & (x <= a[-1] + 1e-6 * scale)
                lo += np.where(inside & near, v, 0)
                hi += v
            # beyond its range a curve may go on at its last value, or not
            edge = sum(np.where((abs(x - l.get_xdata()[0]) <= 1e-6 * scale) | (abs(x - l.get_xdata()[-1]) <= 1e-6 * scale),
                                max(abs(l.get_ydata()[0]), abs(l.get_ydata()[-1])), 0) for l in curves)
            bad = (y < lo - edge - 1e-6) | (y > hi + edge + 1e-6)
            if bad.any():
                i = int(np.argmax(bad))
                raise Violation(f'the total is {y[i]} instead of {lo[i]} to {hi[i]} at {x[i]} {self.said()}')
            if len(x) < len(set(dx)):
                raise Violation(f'the total has {len(x)} points {self.said()}')


    def colors(self, shown):
        """one hue for every value of what the colouring goes by, lighter for higher second values"""
        import colorsys
        import matplotlib.colors
        hls = lambda col: colorsys.rgb_to_hls(*matplotlib.colors.to_rgb(col))
        named = {}
        for c, col in shown:
            named.setdefault((f'{c["lo"]} → {c["up"]}', str(c['h'])), []).append(c)
        if any(len({tuple(c['hue']) for c in cs}) > 1 for cs in named.values()):
            return  # curves that look the same may have been taken for each other
        if len({c['hue'][0] for c, col in shown if c['hue']}) > 8:
            return  # more than there are colours
        got = [(c, hls(col)) for c, col in shown]
        for c, (h, l, s) in got:
            if not c['hue'] and (l, s) != (0, 0):
                raise Violation(f'the curve of {self.sut.tname(c["t"])} is not black {self.said()}')
        for i, (c, (h, l, s)) in enumerate(got):
            for d, (h1, l1, s1) in got[:i]:
                if not c['hue']:
                    continue
                same = min(abs(h - h1), 1 - abs(h - h1)) < 1e-4 and abs(s - s1) < 1e-4
                pair = f'{self.sut.tname(c["t"])} and {self.sut.tname(d["t"])}'
                if same != (c['hue'][0] == d['hue'][0]):
                    raise Violation(f'the curves of {pair} have {"one hue" if same else "two hues"} {self.said()}')
                if same and (l - l1) * (c['hue'][1] - d['hue'][1]) <= 0 and not (abs(l - l1) < 1e-6 and c['hue'][1] == d['hue'][1]):
                    raise Violation(f'the lightness of the curves of {pair} is {l} and {l1} {self.said()}')


def plot(sut, op):
    Plot(sut, op).run()
