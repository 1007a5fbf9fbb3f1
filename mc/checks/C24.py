"""The plots show the calculated fields"""
import copy
import gc
import itertools
import os
import shutil
import tempfile
import numpy as np
import common as C
from harness import R

LEVEL = 'exploration'
RULE = ('all combinations of field x geometric non-linearity x deformed or not x offsets x kind of points x given or extreme limits x earlier fields for shells, all panels, groups, fields, '
        'kinds of points, limits and decorations for assemblies, all fields, points, limits for the skin and the flanges of bays; what is handed to the drawing library and the state of the axes '
        'against the fields calculated on fresh objects')
MATP = (14.3, 1.1, .29, .71, .53, .37)
DISP = ('u', 'v', 'w', 'phix', 'phiy')
STRAIN = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
STRESS = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')
ALL = DISP + STRAIN + STRESS
XG, YG = np.array([.03, .2, .41, .57]), np.array([.02, .18, .37])
LIMS = {'own': {}, 'both': dict(vecmin=-3.7, vecmax=2.9), 'min': dict(vecmin=-3050.5), 'max': dict(vecmax=4125.), 'zero': dict(vecmin=0., vecmax=2.2), 'zero max': dict(vecmin=-2.7, vecmax=0)}
rec = None


def record():
    """what the plots hand to contourf"""
    global rec
    import matplotlib.axes as ma
    import warnings
    warnings.simplefilter('ignore')
    rec = []
    # the library asks for a complete collection at every calculation, slow with all of matplotlib loaded
    gc.collect()
    gc.freeze()
    gc.collect = lambda *a: 0
    if not getattr(ma.Axes.contourf, 'recorder', False):
        real = ma.Axes.contourf

        def contourf(self, *a, **k):
            rec.append((self, [np.array(v, dtype=float) for v in a[:3]], np.array(k.get('levels', a[3] if len(a) > 3 else ())), k.get('cmap')))
            return real(self, *a, **k)
        contourf.recorder = True
        ma.Axes.contourf = contourf


def axes():
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    fig = Figure(figsize=(3, 2))
    FigureCanvasAgg(fig)
    return fig.add_subplot(111)


_cache = {}


def cached(key, fn):
    if key not in _cache:
        _cache[key] = fn()
    return _cache[key]


def shell(model, m=4, n=4, stack=(17., -38., 61.), group=None, x0=None, y0=None, a=1.3, b=.7):
    from panels import Shell
    s = Shell(a=a, b=b, m=m, n=n, r=None if model == C.PLATE else 2.1, stack=list(stack), plyt=.011, laminaprop=MATP)
    s.model = model
    for i, (k, v) in enumerate(C.flags_distinct().items()):
        setattr(s, k, v)
    s.group, s.x0, s.y0 = group, x0, y0
    s.calc_kC()
    return s


def vec(size, k=1):
    return np.array([.6*np.sin(1.7*i*k + .3*k + .4) for i in range(size)])


def kind(v):
    return 'uvw' if v in DISP else 'strain' if v in STRAIN else 'stress'


def shown(r, key, got, ax, x, y, f, lims, nlev, fkey):
    """one contour: axes, points, values, levels"""
    gax, (gx, gy, gf), glev, cmap = got
    if ax is not None and gax is not ax:
        r.fail(fkey + '/axes', 'drawn on other axes than those given', case=key)
    s = 1. + abs(x).max() + abs(y).max()
    r.close((key, 'x'), gx, x, scale=s, fkey=fkey + '/x')
    r.close((key, 'y'), gy, y, scale=s, fkey=fkey + '/y')
    r.close((key, 'field'), gf, f, rtol=1e-12, fkey=fkey + '/field')
    lo, hi = lims
    r.close((key, 'levels'), glev, lo + (hi - lo)*np.arange(nlev)/(nlev - 1.), scale=abs(lo) + abs(hi), rtol=1e-9, fkey=fkey + '/levels')


def limits(lim, fs):
    d = LIMS[lim]
    return d.get('vecmin', min(f.min() for f in fs)), d.get('vecmax', max(f.max() for f in fs))


def t_shell(model, deform, first):
    """all fields of a shell"""
    from panels.plot_shell import plot_shell
    r = R()
    record()
    c, c2 = vec(48), vec(48, 2)
    gx, gy = np.meshgrid(np.array([.1, .35, .8, 1.1, 1.25]), np.array([.05, .2, .5, .66]))
    P = {'grid': dict(gridx=6, gridy=5), 'points': dict(xs=gx.copy(), ys=gy.copy()), 'points2': dict(xs=(gx + .1*gy).T.copy(), ys=(gy - .01*gx).T.copy())}
    for v, nl, off, pts, lim in itertools.product(ALL, (True, False), ((0., 0.), (.7, -2.3)), P, LIMS):
        if lim not in ('own', 'both') and pts != 'grid':
            continue
        key = ('shell', model, v, nl, deform, off, pts, lim, first)
        kw = P[pts]
        kwn = {} if v in DISP else dict(NLgeom=nl)
        mesh, fl = cached((model, kind(v), nl, pts), lambda: copy.deepcopy(getattr(shell(model), kind(v))(c.copy(), **copy.deepcopy(kw), **kwn)))
        X, Y, F = np.array(mesh['Xs']), np.array(mesh['Ys']), np.array(fl[v])
        if F.max() - F.min() < 1e-9:
            continue
        x, y = Y + off[1], X + off[0]
        sf = .013
        if deform:
            mesh, d = cached((model, 'uvw', True, pts), lambda: copy.deepcopy(shell(model).uvw(c.copy(), **copy.deepcopy(kw))))
            x, y = x + sf*np.array(d['v']), y - sf*np.array(d['u'])
        s = shell(model)
        held = None
        if first:
            held = getattr(s, first)(c2.copy(), gridx=3, gridy=4)
            before = copy.deepcopy(held)
        ax = axes()
        carg, kwarg = c.copy(), copy.deepcopy(kw)
        del rec[:]
        out = plot_shell(s, carg, vec=v, ax=ax, num_levels=7, NLgeom=nl, plot_offset_x=off[0], plot_offset_y=off[1], deform_u=deform, deform_u_sf=sf, **LIMS[lim], **kwarg)
        r.transitions += 1
        if out is not ax:
            r.fail('shell/returned', 'other axes returned than those given', case=key)
        if len(rec) != 1:
            r.fail('shell/contours', '%d contours' % len(rec), case=key)
            continue
        shown(r, key, rec[0], ax, x, y, F, limits(lim, [F]), 7, 'shell')
        if not ax.xaxis_inverted() or ax.yaxis_inverted():
            r.fail('shell/inverted', 'the axes are inverted wrongly', case=key)
        if not np.array_equal(carg, c) or any(not np.array_equal(kwarg[k], kw[k]) for k in kw):
            r.fail('shell/arguments', 'the given arrays were changed', case=key)
        if held is not None:
            for d0, d1, now in ((before[0], held[0], s.plot_mesh), (before[1], held[1], s.fields)):
                for k, w in d0.items():
                    if w is None:
                        continue
                    r.evals += 1
                    for z in (d1, now):
                        if z[k] is None or np.shape(z[k]) != np.shape(w) or not np.array_equal(z[k], w):
                            r.fail('shell/earlier fields', 'the fields calculated before the plot were changed: ' + k, case=key)
    return r


def t_shell_opts(model):
    """decorations, files, refused plots"""
    from panels.plot_shell import plot_shell
    import matplotlib.pyplot as plt
    r = R()
    record()
    c = vec(48)
    s = shell(model)
    for inv, clean, title, cbar, asp in itertools.product((False, True), (False, True), ('', 'a title'), (False, True), ('equal', 'auto')):
        key = ('shell options', model, inv, clean, title, cbar, asp)
        ax = axes()
        r.case(key)
        plot_shell(s, c, ax=ax, gridx=6, gridy=5, num_levels=5, invert_y=inv, clean=clean, title=title, colorbar=cbar, cbar_nticks=3, cbar_title='cb' if cbar else '', aspect=asp,
                   vecmin=-2., vecmax=2., texts=[dict(x=.1, y=.2, s='note')])
        decorations(r, key, ax, inv, clean, title, cbar, asp, (-2., 2.), 3)
        if [t.get_text() for t in ax.texts].count('note') != 1:
            r.fail('options/texts', 'the given text is not in the plot', case=key)
    files(r, ('shell', model), lambda **k: plot_shell(s, c, gridx=6, gridy=5, num_levels=5, dpi=20, **k), plt, 'test.png')
    for bad in (dict(vec='zz'), dict(vec=''), dict(ax=3), dict(ax='ax'), dict(xs=np.ones((2, 3)), ys=np.ones((3, 2)))):
        r.case(('refused', model, sorted(bad)))
        try:
            plot_shell(s, c, gridx=6, gridy=5, num_levels=5, **dict(dict(save=False), **bad))
            r.fail('refused/shell', 'accepted', case=sorted(bad))
        except Exception:
            pass
    plt.close('all')
    return r


def decorations(r, key, ax, inv, clean, title, cbar, asp, lims, nticks):
    if ax.yaxis_inverted() != inv or not ax.xaxis_inverted():
        r.fail('options/invert_y', 'the axes are inverted wrongly', case=key)
    if ax.get_title() != title:
        r.fail('options/title', 'title %r' % ax.get_title(), case=key)
    if (ax.get_aspect() in (1., 'equal')) != (asp == 'equal'):
        r.fail('options/aspect', 'aspect %r' % ax.get_aspect(), case=key)
    others = [a for a in ax.figure.axes if a is not ax]
    if len(others) != int(cbar):
        r.fail('options/colorbar', '%d color bars' % len(others), case=key)
    elif cbar:
        ticks = sorted(t for t in others[0].get_yticks())
        r.close((key, 'ticks'), np.array(ticks), np.linspace(lims[0], lims[1], nticks), scale=1., rtol=1e-9, fkey='options/colorbar ticks')
        if 'cb' not in [t.get_text() for t in others[0].texts]:
            r.fail('options/colorbar title', 'the title of the color bar is missing', case=key)
    labels = [t.get_text() for t in ax.get_xticklabels()]
    if clean and any(labels):
        r.fail('options/clean', 'labels in a clean plot', case=key)
    if not clean and not any(labels):
        r.fail('options/clean', 'no labels', case=key)


def files(r, key, fn, plt, default):
    """files are written only where asked, and only when asked"""
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix='c24')
    try:
        os.chdir(d)
        for nm, kw, want in (('named', dict(filename='n.png'), ['n.png']), ('elsewhere', dict(filename=os.path.join(d, 'q.png')), ['q.png']), ('not saved', dict(save=False), []),
                             ('not saved, named', dict(save=False, filename='x.png'), []), ('given axes', dict(ax='new'), []), ('given axes, named', dict(ax='new', filename='y.png'), []),
                             ('default', {}, [default])):
            kw = dict(kw)
            if kw.get('ax') == 'new':
                kw['ax'] = axes()
            fn(**kw)
            got = sorted(os.listdir(d))
            r.case(key + ('file', nm))
            if got != want:
                r.fail('files', 'files %s instead of %s' % (got, want), case=key + (nm,))
            for f in got:
                with open(f, 'rb') as h:
                    if h.read(4) != b'\x89PNG':
                        r.fail('files', 'not an image', case=key + (nm,))
                os.remove(f)
            plt.close('all')
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def md(model, groups):
    from panels.multidomain import MultiDomain
    pos = ((0., 0., 1.3, .7), (1.3, .1, .9, .7), (-.4, .7, 1.3, .5), (2.2, 0., .6, .4))
    ps = [shell(model, m=3 + i, n=5 - i, stack=(17. + i, -38.), group=g, x0=pos[i][0], y0=pos[i][1], a=pos[i][2], b=pos[i][3]) for i, g in enumerate(groups)]
    return MultiDomain(ps, [])


def t_md(model, groups):
    r = R()
    record()
    import matplotlib
    size = md(model, groups).get_size()
    c = vec(size)
    P = {'grid': dict(gridx=6, gridy=5), 'gauss': dict(use_gauss_points=True, x_gauss=XG, y_gauss=YG), 'gauss x': dict(use_gauss_points=True, x_gauss=XG), 'gauss y': dict(use_gauss_points=True, y_gauss=YG)}
    for v, g, pts, lim in itertools.product(ALL, sorted(set(groups)), P, LIMS):
        if pts != 'grid' and lim not in ('own', 'both'):
            continue
        key = ('assembly', model, groups, v, g, pts, lim)
        kw = P[pts]
        def calc():
            assy = md(model, groups)
            if pts == 'grid':
                return copy.deepcopy(getattr(assy, kind(v))(c.copy(), g, **kw))
            return copy.deepcopy(getattr(assy, kind(v) + '_gauss_points')(c.copy(), g, kw.get('x_gauss'), kw.get('y_gauss')))
        res = cached((model, groups, kind(v), g, pts), calc)
        idx = [i for i, gg in enumerate(groups) if gg == g]
        fs = [np.array(f) for f in res[v]]
        lims = limits(lim, fs)
        assy = md(model, groups)
        # only the data
        del rec[:]
        ax, data = assy.plot(c.copy(), g, vec=v, calc_data_only=True, save=False, **kw, **LIMS[lim])
        if ax is not None or rec:
            r.fail('assembly/data only', 'something was drawn', case=key)
        r.close((key, 'data'), np.array([data['vecmin'], data['vecmax']]), np.array(lims), rtol=1e-12, fkey='assembly/data only')
        if min(np.ndim(f) for f in fs) < 2 or min(min(f.shape) for f in fs) < 2:
            continue
        ax = axes()
        carg = c.copy()
        out, data = assy.plot(carg, g, vec=v, ax=ax, num_levels=7, identify=True, show_boundaries=True, **kw, **LIMS[lim])
        r.transitions += 1
        r.close((key, 'limits'), np.array([data['vecmin'], data['vecmax']]), np.array(lims), rtol=1e-12, fkey='assembly/limits')
        if out is not ax or not np.array_equal(carg, c):
            r.fail('assembly/returned', 'other axes or changed constants', case=key)
        if len(rec) != len(idx):
            r.fail('assembly/contours', '%d contours for %d panels' % (len(rec), len(idx)), case=key)
            continue
        names, lines = [], []
        for k, i in enumerate(idx):
            p = assy.panels[i]
            x, y = np.array(res['y'][k]) + p.y0, np.array(res['x'][k]) + p.x0
            shown(r, key + (i,), rec[k], ax, x, y, fs[k], lims, 7, 'assembly')
            if pts == 'grid':
                # the grid spans the panel where it stands
                r.close((key, i, 'outline'), np.array([x.min(), x.max(), y.min(), y.max()]), np.array([p.y0, p.y0 + p.b, p.x0, p.x0 + p.a]), scale=1., rtol=1e-12, fkey='assembly/outline')
            names.append(('P %02d' % (i + 1), x.mean(), y.mean()))
            x1, x2, y1, y2 = x.min(), x.max(), y.min(), y.max()
            lines += [((x1, y1), (x2, y1)), ((x1, y2), (x2, y2)), ((x1, y1), (x1, y2)), ((x2, y1), (x2, y2))]
        got = [(t.get_text(),) + tuple(t.get_position()) for t in ax.texts]
        if sorted(t[0] for t in got) != sorted(t[0] for t in names):
            r.fail('assembly/identify', 'names %s instead of %s' % ([t[0] for t in got], [t[0] for t in names]), case=key)
        else:
            r.close((key, 'names'), np.array([t[1:] for t in sorted(got)]), np.array([t[1:] for t in sorted(names)]), scale=1., rtol=1e-9, fkey='assembly/identify')
        gl = sorted(sorted((float(a), float(b)) for a, b in zip(*l.get_data())) for l in ax.lines)
        el = sorted(sorted((float(a), float(b)) for a, b in l) for l in lines)
        r.close((key, 'boundaries'), np.array(gl), np.array(el), scale=1., rtol=1e-9, fkey='assembly/boundaries')
    return r


def t_md_opts(model):
    import matplotlib.pyplot as plt
    r = R()
    record()
    assy = md(model, 'aab')
    c = vec(assy.get_size())
    for inv, clean, title, cbar, asp in itertools.product((False, True), (False, True), ('', 'a title'), (False, True), ('equal', 'auto')):
        key = ('assembly options', model, inv, clean, title, cbar, asp)
        ax = axes()
        r.case(key)
        assy.plot(c, 'a', ax=ax, gridx=6, gridy=5, num_levels=5, invert_y=inv, clean=clean, title=title, colorbar=cbar, cbar_nticks=3, cbar_title='cb' if cbar else '', aspect=asp,
                  vecmin=-2., vecmax=2.)
        decorations(r, key, ax, inv, clean, title, cbar, asp, (-2., 2.), 3)
        if ax.texts or ax.lines:
            r.fail('assembly/not asked', 'names or boundaries that were not asked for', case=key)
    files(r, ('assembly', model), lambda **k: assy.plot(c, 'a', gridx=6, gridy=5, num_levels=5, dpi=20, **k), plt, 'a.png')
    for bad in (dict(vec='zz'), dict(vec=''), dict(ax=3), dict(vec='zz', use_gauss_points=True, x_gauss=XG, y_gauss=YG), dict(use_gauss_points=True)):
        r.case(('refused', 'md', model, sorted(bad)))
        try:
            assy.plot(c, 'a', gridx=6, gridy=5, num_levels=5, **dict(dict(save=False), **bad))
            r.fail('refused/assembly', 'accepted', case=sorted(bad))
        except Exception:
            pass
    plt.close('all')
    return r


def bay():
    from panels.stiffpanelbay import StiffPanelBay
    s = StiffPanelBay()
    s.a, s.b, s.m, s.n = 1.3, .7, 6, 5
    s.stack, s.plyt, s.laminaprop, s.rho, s.model = [17., -38., 61.], .011, MATP, 1.7, C.PLATE
    s.add_panel(y1=0, y2=.2)
    s.add_panel(y1=.2, y2=.5)
    s.add_panel(y1=.5, y2=.7)
    s.add_bladestiff1d(ys=.2, rho=1.1, bf=.08, fstack=[0., 30.], fplyt=.009, flaminaprop=MATP)
    s.add_bladestiff2d(ys=.5, rho=1.1, bf=.08, fstack=[0., 30.], fplyt=.009, flaminaprop=MATP, mf=5, nf=6)
    s.add_bladestiff2d(ys=.2, rho=1.1, bf=.11, fstack=[0., 30.], fplyt=.009, flaminaprop=MATP, mf=6, nf=5)
    return s


def t_bay(what, deform, full):
    import matplotlib.pyplot as plt
    r = R()
    record()
    c, c2 = vec(bay().get_size()), vec(bay().get_size(), 2)
    b = .7 if what == 'skin' else .08 if what == 1 else .11
    gx, gy = np.meshgrid(np.array([.1, .35, .8, 1.1, 1.25]), b*np.array([.05, .2, .5, .96]))
    P = {'grid': dict(gridx=6, gridy=5), 'points': dict(xs=gx.copy(), ys=gy.copy()), 'points2': dict(xs=(gx + .1*gy).T.copy(), ys=(gy*(1 - .01*gx)).T.copy())}

    def calc(s, cc, **kw):
        return s.uvw_skin(cc, **kw) if what == 'skin' else s.uvw_stiffener(cc, what, region='flange', **kw)

    def plot(s, cc, **kw):
        return s.plot_skin(cc, **kw) if what == 'skin' else s.plot_stiffener(cc, what, region='flange', **kw)

    for v, pts, lim, first in itertools.product(DISP, P, LIMS, (None, 'skin', 1, 2)):
        key = ('bay', what, v, deform, pts, lim, first)
        kw = P[pts]
        def fresh():
            q = bay()
            d = dict(zip(DISP, [np.array(z) for z in calc(q, c.copy(), **copy.deepcopy(kw))]))
            return d, np.array(q.Xs), np.array(q.Ys)
        d, X, Y = cached((what, pts), fresh)
        F = d[v]
        sf = .013
        x, y = (Y + sf*d['v'], X - sf*d['u']) if deform else (Y, X)
        if pts == 'grid':
            r.close((key, 'grid'), np.array([X.min(), X.max(), Y.min(), Y.max()]), np.array([0, 1.3, 0, b]), scale=1., rtol=1e-12, fkey='bay/grid')
        s = bay()
        if first is not None:
            before = s.uvw_skin(c2, gridx=3, gridy=4) if first == 'skin' else s.uvw_stiffener(c2, first, region='flange', gridx=3, gridy=4)
            before = [np.array(z) for z in before] + [np.array(s.Xs), np.array(s.Ys)]
        ax = axes()
        carg, kwarg = c.copy(), copy.deepcopy(kw)
        del rec[:]
        out = plot(s, carg, vec=v, ax=ax, num_levels=7, deform_u=deform, deform_u_sf=sf, silent=True, **LIMS[lim], **kwarg)
        r.transitions += 1
        if out is not ax:
            r.fail('bay/returned', 'other axes returned than those given', case=key)
        if len(rec) != 1:
            r.fail('bay/contours', '%d contours' % len(rec), case=key)
            continue
        shown(r, key, rec[0], ax, x, y, F, limits(lim, [F]), 7, 'bay')
        if not np.array_equal(carg, c) or any(not np.array_equal(kwarg[k], kw[k]) for k in kw):
            r.fail('bay/arguments', 'the given arrays were changed', case=key)
        if first is not None:
            now = [s.u, s.v, s.w, s.phix, s.phiy, s.Xs, s.Ys]
            for k, z, w in zip(DISP + ('Xs', 'Ys'), now, before):
                if np.shape(z) != np.shape(w) or not np.array_equal(z, w):
                    r.fail('bay/earlier fields', 'the fields calculated before the plot were changed: ' + k, case=key)
    if not deform:
        s = bay()
        for inv, clean, title, cbar, asp in itertools.product((False, True), (False, True), ('', 'a title'), (False, True), ('equal', 'auto')):
            key = ('bay options', what, inv, clean, title, cbar, asp)
            ax = axes()
            r.case(key)
            plot(s, c, ax=ax, gridx=6, gridy=5, num_levels=5, invert_y=inv, clean=clean, title=title, colorbar=cbar, cbar_nticks=3, cbar_title='cb' if cbar else '', aspect=asp,
                 vecmin=-2., vecmax=2., silent=True)
            decorations(r, key, ax, inv, clean, title, cbar, asp, (-2., 2.), 3)
        files(r, ('bay', what), lambda **k: plot(s, c, gridx=6, gridy=5, num_levels=5, dpi=20, silent=True, **k), plt, 'test.png')
        for bad in (dict(vec='zz'), dict(vec='exx'), dict(ax=3)) + (() if what == 'skin' else (dict(region='web'),)):
            r.case(('refused', 'bay', what, sorted(bad)))
            try:
                (s.plot_skin if what == 'skin' else lambda cc, **k: s.plot_stiffener(cc, what, **k))(c, gridx=6, gridy=5, num_levels=5, **dict(dict(save=False), **bad))
                r.fail('refused/bay', 'accepted', case=sorted(bad))
            except Exception:
                pass
    plt.close('all')
    return r


def jobs(tier, seed):
    out = []
    firsts = (None, 'uvw', 'strain', 'stress') if tier == 'thorough' else (None, 'uvw', 'stress')
    for model in C.MODELS:
        for deform in (False, True):
            for first in firsts:
                if tier == 'quick' and model == C.CYL and first == 'uvw':
                    continue
                out.append(('t_shell', (model, deform, first)))
        out += [('t_shell_opts', (model,)), ('t_md_opts', (model,))]
        for g in (('aa', 'aba', 'abba') if tier == 'quick' else ('a', 'aa', 'ab', 'aba', 'abc', 'abba', 'abab', 'aaab', 'baaa')):
            out.append(('t_md', (model, g)))
    for what in ('skin', 1, 2):
        for deform in (False, True):
            out.append(('t_bay', (what, deform, tier == 'thorough')))
    return out
