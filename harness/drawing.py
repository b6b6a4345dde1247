"""Grotrian diagrams: put on, rendered, and read back from the axes."""
import warnings

from common import Violation, close, frac

COLORS = [None, (1, 0, 0, 1), (0, .5, 0, .25), (0, 0, 1, .5)]
ANCHORS = {1: (0, 1), 2: (.5, 1), 3: (1, 1), 4: (0, .5), 5: (.5, .5), 6: (1, .5), 7: (0, 0), 8: (.5, 0), 9: (1, 0)}
STYLES = {'g': ['g', 'gross'], 'hf': ['hf', 'hyperfine'], 'z': ['z', 'zeeman']}


def f(x):
    return float(frac(x))


class Diagram:
    def __init__(self, sut):
        from atomtoolkit.render.grotrian import Grotrian
        self.sut, self.rng = sut, sut.rng
        self.width, self.style = self.rng.choice([.8, .8, 1.5]), self.rng.choice(['g', 'g', 'hf', 'z'])
        want = dict(level_width=self.width, add_level_strategy=self.rng.choice(STYLES[self.style]))
        if self.rng.random() < .5:                # defaults of one diagram
            self.g = Grotrian()
            for k, v in want.items():
                setattr(self.g, k, v)
        else:                                     # defaults of diagrams made from now on
            keep = {k: getattr(Grotrian, k) for k in want}
            try:
                for k, v in want.items():
                    setattr(Grotrian, k, v)
                self.g = Grotrian()
            finally:
                for k, v in keep.items():
                    setattr(Grotrian, k, v)

    # ------------------------------------------------------------ options
    def keywords(self, o, defaults):
        """defaults are given or left out"""
        r = self.rng
        kw = {}

        def put(k, v, default):
            if v != default or r.random() < .3:
                kw[k] = v
        put('width', f(o['W']), self.width)
        if o['x0']:
            kw['x0'] = f(o['x0'][0])
        if o['y0']:
            kw['y0'] = f(o['y0'][0])
        put('x1', f(o['x1']), 0)
        put('y1', f(o['y1']), 0)
        put('offset', f(o['off']), 0)
        if o['sq'] == -2:
            kw['squeeze'] = False
        elif o['sq'] >= 0:
            kw['squeeze'] = o['sq'] / 2
        elif r.random() < .3:
            kw['squeeze'] = True
        put('hf_scale', r.choice([float, int])(o['hs']), 10000)
        put('z_scale', r.choice([float, int])(o['zs']), 5)
        put('spacing', r.choice([f(o['b'])] + {1.0: ['realistic'], 0.0: ['schematic']}.get(f(o['b']), [])), 1.0)
        put('sublevel_width', r.choice([f(o['a'])] + {1.0: ['degeneracy'], 0.0: ['schematic']}.get(f(o['a']), [])), 1.0)
        put('bbox_pad', f(o['pad']), .05)
        if o['box'] != 'none':
            kw['bbox'] = o['box']
        put('bracket_h', f(o['h']), .05)
        put('linewidth', o['lw'], 2)
        if o['color']:
            kw['color'] = COLORS[o['color']]
            kw['bracket_color'] = COLORS[4 - o['color']]
        return kw

    def add(self, op):
        kw = self.keywords(op['o'], None)
        level = self.sut.handle(op['p'])
        st = self.rng.choice(STYLES[op['st']])
        if op['st'] == self.style and self.rng.random() < .3:
            self.g.add_level(level, **kw)
        else:
            self.g.add_level(level, st, **kw) if self.rng.random() < .5 else self.g.add_level(level, strategy=st, **kw)

    def arrow(self, op):
        o = op['o']
        r = self.rng
        kw = {}
        for k, v, d in (('start_anchor', o['a'], 5), ('end_anchor', o['b'], 5)):
            if v != d or r.random() < .5:
                x, y = ANCHORS[v]
                kw[k] = r.choice([v, v, v, (1 - x, 1 - y, x, y)])
        for k, v in (('start_x1', o['dx0']), ('start_y1', o['dy0']), ('end_x1', o['dx1']), ('end_y1', o['dy1'])):
            if f(v) or r.random() < .2:
                kw[k] = f(v)
        a, b = self.sut.handle(op['a']), self.sut.handle(op['b'])
        t = (a, b)
        if r.random() < .5 and len(op['a']) == len(op['b']):
            try:
                u = self.sut.find_t((tuple(op['a']), tuple(op['b'])))
            except (Violation, KeyError):
                u = None
            if u is not None and u.E_lower is a:
                t = u
        self.g.add_transition(t, **kw)

    # ------------------------------------------------------------ rendering
    def render(self, op):
        import matplotlib.pyplot as plt
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            plt.close('all')
            try:
                if self.rng.random() < .3:
                    self.g.render()
                    ax = plt.gca()
                else:
                    ax = plt.subplots()[1]
                    self.g.render(ax)
                self.judge(op, ax)
            finally:
                plt.close('all')

    def expected(self, op):
        out = {}
        for r in op['rows']:
            o = r['o']
            base = f(o['y0'][0]) if o['y0'] else self.sut.hz(r['base']) / 1e12
            y = base + f(o['y1']) + o['hs'] * self.sut.hz(r['mag']) / 1e12
            x, w = f(r['x']), f(r['w'])
            out[tuple(r['p'])] = dict(r, y=y, l=x - w / 2, r=x + w / 2)
        for e in out.values():
            over = [out[tuple(q)] for q in e['over']] or [e]
            pad = f(e['o']['pad'])
            lo, hi = min(v['y'] for v in over), max(v['y'] for v in over)
            e['bbox'] = (min(v['l'] for v in over) - pad, lo - (hi - lo) * pad, max(v['r'] for v in over) + pad, hi + (hi - lo) * pad)
        return out

    def judge(self, op, ax):
        import matplotlib.colors as mc
        from matplotlib.collections import LineCollection, PatchCollection
        from matplotlib.patches import FancyArrowPatch, Rectangle
        lines, brackets, rects, arrows = [], [], [], []
        for c in ax.collections:
            if isinstance(c, LineCollection):
                cols, lws = c.get_colors(), c.get_linewidths()
                for n, s in enumerate(c.get_segments()):
                    item = ([tuple(map(float, q)) for q in s], tuple(cols[n % len(cols)]), float(lws[n % len(lws)]))
                    (lines if len(s) == 2 else brackets).append(item)
            else:
                for p in c.get_paths():
                    v = p.vertices
                    rects.append((float(v[:, 0].min()), float(v[:, 1].min()), float(v[:, 0].max()), float(v[:, 1].max())))
        for l in ax.lines:
            x, y = [float(v) for v in l.get_xdata()], [float(v) for v in l.get_ydata()]
            (lines if len(x) == 2 else brackets).append((list(zip(x, y)), mc.to_rgba(l.get_color()), float(l.get_linewidth())))
        for p in ax.patches:
            if isinstance(p, FancyArrowPatch):
                arrows.append(p._posA_posB)
            elif isinstance(p, Rectangle):
                b = p.get_bbox()
                rects.append((b.x0, b.y0, b.x1, b.y1))
        exp = self.expected(op)
        name = self.sut.name
        near = lambda a, b: close(a, b, rel=1e-9, abs_=1e-9)

        want = [e for e in exp.values() if e['show']]
        if len(lines) != len(want):
            raise Violation(f'the diagram shows {len(lines)} lines instead of {len(want)}')
        left = list(lines)
        for e in want:
            hit = [i for i, (s, c, w) in enumerate(left) if near(s[0][1], e['y']) and near(s[1][1], e['y'])
                   and near(min(s[0][0], s[1][0]), e['l']) and near(max(s[0][0], s[1][0]), e['r'])]
            good = [i for i in hit if self.styled(e, left[i])]
            if not hit:
                y = sorted(left, key=lambda q: abs(q[0][0][1] - e['y']) + abs(q[0][0][0] - e['l']) + abs(q[0][1][0] - e['r']))
                raise Violation(f'no line of {name(e["p"])} is at height {e["y"]} between {e["l"]} and {e["r"]}; the closest is {y[0][0] if y else None} '
                                f'({self.said(e)})')
            if not good:
                raise Violation(f'the line of {name(e["p"])} has color and width {left[hit[0]][1:]} ({self.said(e)})')
            del left[good[0]]
        # boxes
        want = [e for e in exp.values() if e['o']['box'] in ('rect', 'rectangle')]
        if len(rects) != len(want):
            raise Violation(f'the diagram shows {len(rects)} boxes instead of {len(want)}')
        for e in want:
            if not any(all(near(x, y) for x, y in zip(r, e['bbox'])) for r in rects):
                raise Violation(f'no box is at {e["bbox"]} around {name(e["p"])}: {rects} ({self.said(e)})')
        want = [e for e in exp.values() if e['o']['box'] == 'bracket']
        if len(brackets) != 2 * len(want):
            raise Violation(f'the diagram shows {len(brackets)} brackets instead of {2 * len(want)}')
        for e in want:
            x0, y0, x1, y1 = e['bbox']
            h = f(e['o']['h'])
            for pts in ([(x0 + h, y0), (x0, y0), (x0, y1), (x0 + h, y1)], [(x1 - h, y0), (x1, y0), (x1, y1), (x1 - h, y1)]):
                hit = [b for b in brackets if len(b[0]) == 4 and (self.same(b[0], pts) or self.same(b[0][::-1], pts))]
                if not hit:
                    raise Violation(f'no bracket runs along {pts} at {name(e["p"])}: {[b[0] for b in brackets]} ({self.said(e)})')
                c = COLORS[4 - e['o']['color']] if e['o']['color'] else (0, 0, 0, .8)
                if not any(all(near(x, y) for x, y in zip(b[1], c)) for b in hit):
                    raise Violation(f'the bracket of {name(e["p"])} has color {hit[0][1]} instead of {c}')
        # arrows
        if len(arrows) != len(op['arrows']):
            raise Violation(f'the diagram shows {len(arrows)} arrows instead of {len(op["arrows"])}')
        for n, (a, got) in enumerate(zip(op['arrows'], arrows)):
            o = a['o']
            for end, p, anchor, dx, dy, pos in (('starts', a['from'], o['a'], o['dx0'], o['dy0'], got[0]), ('ends', a['to'], o['b'], o['dx1'], o['dy1'], got[1])):
                x0, y0, x1, y1 = exp[tuple(p)]['bbox']
                u, v = ANCHORS[anchor]
                w = (x0 + (x1 - x0) * u + f(dx), y0 + (y1 - y0) * v + f(dy))
                if not (near(pos[0], w[0]) and near(pos[1], w[1])):
                    raise Violation(f'arrow {n} {end} at {tuple(map(float, pos))} instead of {w}, anchor {anchor} of {name(p)} with box {(x0, y0, x1, y1)}')

    def same(self, a, b):
        return all(close(x, y, rel=1e-9, abs_=1e-9) for p, q in zip(a, b) for x, y in zip(p, q))

    def styled(self, e, line):
        c = COLORS[e['o']['color']] if e['o']['color'] else (0, 0, 0, 1)
        return all(close(x, y, abs_=1e-9) for x, y in zip(line[1], c)) and close(line[2], e['o']['lw'])

    def said(self, e):
        return 'drawn with ' + ', '.join(f'{k}={v}' for k, v in e['o'].items())


def quick(sut, op):
    """draw_levels: names at (J, energy in THz), and lines between the levels of every transition"""
    import matplotlib.pyplot as plt
    from matplotlib.collections import LineCollection
    from matplotlib.patches import FancyArrowPatch
    from atomtoolkit.render import grotrian
    plt.close('all')
    try:
        if sut.rng.random() < .5:
            grotrian.draw_levels(sut.atom)
        else:
            grotrian.draw_levels(sut.atom, 'norm')
        ax = plt.gca()
        want = {sut.name(r['p']): (r['j'] / 2, sut.hz(r['e']) / 1e12) for r in op['rows']}
        got = {t.get_text(): t.get_position() for t in ax.texts if t.get_text()}
        if sorted(got) != sorted(want):
            raise Violation(f'draw_levels shows {sorted(got)} instead of {sorted(want)}')
        for n, (x, y) in want.items():
            if not (close(got[n][0], x, abs_=1e-9) and close(got[n][1], y, abs_=1e-9)):
                raise Violation(f'draw_levels puts {n} at {got[n]} instead of {(x, y)}')
        segs = [tuple(sorted(tuple(map(float, q)) for q in s)) for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]
        segs += [tuple(sorted(p._posA_posB)) for p in ax.patches if isinstance(p, FancyArrowPatch)]
        for t in op['edges']:
            w = tuple(sorted((want[sut.name(t[0])], want[sut.name(t[1])])))
            if not any(all(close(x, y, abs_=1e-9) for p, q in zip(w, g) for x, y in zip(p, q)) for g in segs):
                raise Violation(f'draw_levels does not join {sut.tname(t)}')
        if len(segs) != len(op['edges']):
            raise Violation(f'draw_levels shows {len(segs)} transitions instead of {len(op["edges"])}')
    finally:
        plt.close('all')
