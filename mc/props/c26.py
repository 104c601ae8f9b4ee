"""C26: the plots show the analysed geometry, mesh and results."""
import re

import numpy as np

from mc import pt, gen, explore, proj
from mc.pt import P, require
from mc.props import c15, c16

LEVEL = 'exploration'
RULE = ('every configuration (planform, symmetry, segments, panel counts, controls, second wing, deformation fields, centre of gravity, flight states, plotted quantity) within `bound` departures of the default, and all combinations of a mirrored wing with a plate that reaches far to one side, analysed with all '
        'plots switched on; the artists of every figure handed to the file writer are taken apart: lines, surfaces, markers, images, colours, limits and labels compared with the geometry (own construction), the mesh and the numbers in the result files. '
        'Distinct by mesh and results.')
ASSUMPTIONS = ['figures are examined as objects, not as pixels', 'colours are compared through the colour bar of the same figure', 'which colour stands for which kind of line is not fixed, only that kinds differ']
STALL = 300


def prepare(ctx):
    c16.prepare(ctx)
    import matplotlib.pyplot as plt
    plt.tight_layout = lambda *a, **k: None


def bounds(ctx):
    return {'deviations': 3 if ctx.thorough else 2}


QUADS = ('tapered', 'dihedral', 'twisted', 'fwd', 'fin', 'pointed')
FIELD = [[x, y, z, 0.01*y, 0.02*y, 0.05*y*y, 0, 0, 0] for x, y, z in [(0.5, 0, 0), (0.6, 1, 0.1), (0.7, 2, 0.2), (0.8, 2.5, 0.3)]]


def driver(ch):
    w = gen.pick_wing(ch, 'w', quads=QUADS, conts=('kink',), nsegs=(1, 2), ncs=(1, 2), nss=(1, 2), lays=['both', 'none', 'flaptaper', 'twoflaps', 'span2taper', 'outer'])
    hinge = ch.pick('hinge', (None, 0.08))
    for k, c in enumerate(w['ctrls']):
        if hinge:
            c['hi'], c['ho'] = ([x - hinge for x in (c['xi'], c['xo'])] if c['kind'] == 'slat' else [x + hinge for x in (c['xi'], c['xo'])])
        c['defl'], c['deflm'] = 5.0, (None if w['sym'] == 0 else -2.0)
    wings = [w]
    e = ch.pick('extra', list(gen.EXTRA))
    if gen.EXTRA[e]:
        wings.append(gen.extra_wing(e))
    d = ch.pick('field', ('none', 'w', 'w_m', 'both'))
    if d in ('w_m', 'both') and not w['sym']:
        raise explore.Prune()
    refs = dict(pt.REFS)
    refs['gcenter'] = ch.pick('cg', ([0.3, 0.0, 0.1], [1.5, -0.5, 0.6]))
    return {'spec': {'uid': ch.pick('uid', ('ac', 'my aircraft')), 'wings': gen.scaled(wings, ch.pick('scale', (1.0, 10.0, 0.1))), 'refs': refs}, 'field': d, 'opt': ch.pick('opt', ([], ['deformation'])),
            'states': ch.pick('states', ([{}], [{'alpha': -4.0, 'beta': 3.0, 'rate_P': 0.2}], [{'alpha': 1.0}, {'beta': -5.0, 'airspeed': 33.3}])), 'keys': ch.pick('keys', (['cp'], ['gamma', 'fz'], ['vx', 'fy'], ['vy', 'fmag'], ['vz', 'vmag'], ['fx']))}


def plates(ch):
    """A wing with or without mirror image beside a plate that reaches far to one side (the extent of the aircraft)"""
    sym = ch.pick('sym', (2, 0, 1, 3))
    sx, sy, sz = ch.pick('side', ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1), (-1, -1, -1)))
    q = [(sx*(3 + x), sy*(0.5 + y), sz*(0.8 + z)) for x, y, z in gen.QUADS['dihedral']]
    w = pt.wing('w', sym, [pt.seg('s0', *q, nc=1, ns=1)], [])
    ax, end = ch.pick('axis', (0, 1, 2)), ch.pick('end', (9.0, -9.0, 2.0))
    a, b = sorted((0.3, end))
    v = [[a, 0.1, 0.2], [a, 1.1, 0.2], [b, 1.1, 0.2], [b, 0.1, 0.2]] if ax == 0 else [[0.1, a, 0.2], [0.1, b, 0.2], [1.1, b, 0.2], [1.1, a, 0.2]] if ax == 1 else [[0.1, 0.2, a], [0.1, 0.2, b], [1.1, 0.2, b], [1.1, 0.2, a]]
    wings = [w, pt.wing('plate', 0, [pt.seg('s0', *v, nc=1, ns=1)], [])]
    if ch.pick('order', (0, 1)):
        wings.reverse()
    return {'spec': {'uid': 'ac', 'wings': wings, 'refs': dict(pt.REFS)}, 'field': 'none', 'opt': [], 'states': [{}], 'keys': []}


def cases(ctx):
    a, n, cap = explore.enumerate_cases(driver, bound=bounds(ctx)['deviations'])
    b, m, cap2 = explore.enumerate_cases(plates)
    return a + b, n + m, cap or cap2


# --------------------------------------------------------------------------
def seg_of(pts):
    pts = np.asarray(pts, float)
    return np.stack([pts[:-1], pts[1:]], axis=1)


def rgba(c):
    from matplotlib.colors import to_rgba
    return tuple(round(float(x), 6) for x in to_rgba(c))


def dissect(fig):
    """Plain description of a figure"""
    from mpl_toolkits.mplot3d import art3d
    from matplotlib import collections, lines, patches
    out = {'views': [], 'bars': [], 'texts': [t.get_text() for t in fig.texts] + ([fig._suptitle.get_text()] if fig._suptitle else [])}
    for ax in fig.axes:
        if getattr(ax, '_colorbar', None) is not None:
            out['bars'].append(ax._colorbar)
            continue
        three = hasattr(ax, 'get_zlim')
        lab = [ax.get_xlabel(), ax.get_ylabel()] + ([ax.get_zlabel()] if three else [])
        v = {'label': lab, 'title': ax.get_title(), 'lines': [], 'marks': [], 'areas': [], 'images': [np.array(i.get_array()) for i in ax.images], 'texts': [t.get_text() for t in ax.texts],
             'lims': [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if three else []), 'three': three}
        for a in ax.get_children():
            if isinstance(a, art3d.Line3D):
                xyz = np.array(a.get_data_3d(), float).T
            elif isinstance(a, lines.Line2D):
                xyz = np.array(a.get_xydata(), float)
            elif isinstance(a, art3d.Line3DCollection):
                cols = [rgba(c) for c in a.get_colors()] or [None]
                for i, s in enumerate(a._segments3d):
                    v['lines'].append((cols[min(i, len(cols) - 1)], seg_of(s), 'collection'))
                continue
            elif isinstance(a, art3d.Poly3DCollection):
                fc = a._facecolor3d
                for i, sl in enumerate(a._segslices):
                    v['areas'].append((tuple(np.round(fc[min(i, len(fc) - 1)], 6)), a._vec[:3, sl].T))
                continue
            elif isinstance(a, art3d.Path3DCollection):
                v['marks'].append(np.array(a._offsets3d, float).T)
                continue
            elif isinstance(a, collections.LineCollection):
                for s, c in zip(a.get_segments(), np.resize(np.array(a.get_colors()), (len(a.get_segments()), 4))):
                    v['lines'].append((rgba(c), seg_of(s), 'collection'))
                continue
            elif isinstance(a, collections.PolyCollection):
                for q, c in zip(a.get_paths(), np.resize(np.array(a.get_facecolors()), (len(a.get_paths()), 4))):
                    v['areas'].append((rgba(c), np.array(q.vertices)))
                continue
            elif isinstance(a, collections.PathCollection):
                v['marks'].append(np.array(a.get_offsets(), float))
                continue
            elif isinstance(a, patches.Polygon) and not a is ax.patch:
                v['areas'].append((rgba(a.get_facecolor()), np.array(a.get_xy(), float)))
                continue
            else:
                continue
            if len(xyz) > 1 and a.get_linestyle() not in ('None', 'none', '', ' '):
                v['lines'].append((rgba(a.get_color()), seg_of(xyz), 'line'))
            if a.get_marker() not in (None, 'None', 'none', '', ' '):
                v['marks'].append(xyz)
        out['views'].append(v)
    return out


def covered(E, D, tol):
    """every edge of E lies on edges of D"""
    if not len(E):
        return True
    if not len(D):
        return False
    t = np.array([0.0, 0.25, 0.5, 0.75, 1.0])[None, :, None]
    p = (E[:, None, 0]*(1 - t) + E[:, None, 1]*t).reshape(-1, E.shape[-1])
    a, b = D[:, 0], D[:, 1] - D[:, 0]
    l2 = np.maximum((b*b).sum(1), 1e-300)
    s = np.clip(((p[:, None] - a[None])*b[None]).sum(2)/l2[None], 0, 1)
    d = np.linalg.norm(p[:, None] - a[None] - s[..., None]*b[None], axis=2).min(axis=1)
    return bool(np.all(d < tol))


def mirror(pts, sym):
    m = np.ones(3)
    m[pt.SYM_AXIS[sym]] = -1
    return np.asarray(pts)*m


def geometry(spec):
    """class -> (edges that must be drawn, edges that may be drawn)"""
    cl = {'wing': [], 'flap': [], 'slat': [], 'hinge': []}
    may = {'flap': [], 'slat': []}
    for w in spec['wings']:
        vs = {s['uid']: s['v'] for s in w['segs']}
        sides = [lambda x: np.asarray(x)] + ([lambda x, s=w['sym']: mirror(x, s)] if w['sym'] else [])
        p = lambda uid, e, x: pt.bil(vs[uid], np.array([e]), np.array([x]))[0]
        for f in sides:
            for s in w['segs']:
                cl['wing'].append(seg_of(f([s['v'][k] for k in 'abcda'])))
            for c in w['ctrls']:
                end = 1.0 if c['kind'] == 'flap' else 0.0
                q = [p(c['si'], c['ei'], end), p(c['si'], c['ei'], c['xi']), p(c['so'], c['eo'], c['xo']), p(c['so'], c['eo'], end)]
                cl[c['kind']].append(seg_of(f(q)))
                may[c['kind']].append(seg_of(f([q[-1], q[0]])))
                cl['hinge'].append(seg_of(f([p(c['si'], c['ei'], c['hi'] if c['hi'] is not None else c['xi']), p(c['so'], c['eo'], c['ho'] if c['ho'] is not None else c['xo'])])))
    cat = lambda x: np.concatenate(x) if x else np.zeros((0, 2, 3))
    return {k: (cat(v), cat(v + may.get(k, []))) for k, v in cl.items()}


AXES = {'X': 0, 'Y': 1, 'Z': 2}


def axes_of(v):
    return [AXES[re.match(r'\s*([XYZ])', s).group(1)] for s in v['label']]


def check_lines(what, views, classes, size):
    tol = 1e-6*size
    for v in views:
        ax = axes_of(v)
        byc = {}
        for c, s, _ in v['lines']:
            byc.setdefault(c, []).append(s)
        byc = {c: np.concatenate(s) for c, s in byc.items()}
        allmay = np.concatenate([m for _, m in classes.values()])[..., ax]
        for c, s in byc.items():
            require(covered(s, allmay, tol), 'extra-line', lambda: f'{what} {v["label"]}: a line of colour {c} that belongs to nothing')
        used = {}
        for k, (must, may) in classes.items():
            if not len(must):
                continue
            ok = [c for c, s in byc.items() if covered(must[..., ax], s, tol) and covered(s, may[..., ax], tol)]
            require(ok, 'lines', lambda: f'{what} {v["label"]}: {k} not drawn completely and in a colour of its own (colours: { {c: len(s) for c, s in byc.items()} }, {len(must)} edges expected)')
            used[k] = ok
        # different kinds of surfaces can be told apart, unless they coincide in this view
        if v['three']:
            for a, b in (('flap', 'slat'), ('flap', 'hinge'), ('slat', 'hinge'), ('mesh', 'flap'), ('mesh', 'slat'), ('wing', 'flap'), ('wing', 'slat')):
                require(not (a in used and b in used and set(used[a]) & set(used[b])), 'colours', f'{what}: {a} and {b} have the same colour')


def run_case(case):
    return proj.unwrap(proj.isolated(_run, case))


def _run(case):
    import matplotlib.figure as mf
    figs = []

    def savefig(self, fname, *a, **k):
        figs.append((str(fname), dissect(self)))
    mf.Figure.savefig = savefig
    spec = case['spec']
    fields = {}
    if case['field'] in ('w', 'both'):
        fields['w'] = FIELD
    if case['field'] in ('w_m', 'both'):
        fields['w_m'] = [[*mirror(r[:3], spec['wings'][0]['sym'] or 2), *r[3:]] for r in FIELD]
    d = proj.fresh_dir('c26')
    try:
        plots = {k: {'save': True} for k in ('geometry', 'matrix_downwash')}
        plots['lattice'] = {'save': True, 'opt': case['opt']}
        plots['results'] = {'save': bool(case['keys']), 'opt': case['keys']}
        f = proj.write_project(d, spec, case['states'], {'plot': plots, '_deformation_check': False}, deformation=fields or None)
        res = proj.run(f)
        t = proj.tree(d)
    finally:
        proj.rmtree(d)
    n = len(case['states'])
    lat = np.array(res['lattice'].p)
    size = np.max(np.abs(lat))
    pw, mats = [], []
    for i in range(n):
        head, rows = c16.table(t[f'_results/proj_{i:03d}/panelwise.dat'], 'panelwise')
        lab = [x for x, _ in re.findall(r'([A-Za-z_]+)\s*\[([^]]*)\]', ' '.join(head))]
        pw.append({k: rows[:, j] for j, k in enumerate(lab)})
        mats.append(c16.table(t[f'_results/proj_{i:03d}/matrix.dat'], 'matrix')[1][:, :len(lat)])
    names = {}
    for fn, g in figs:
        nm = re.search(r'_(\d{3})/(.*)_\d{4}-\d\d-\d\d_', fn)
        require(nm, 'name', fn)
        key = (int(nm.group(1)), nm.group(2))
        require(key not in names, 'double', fn)
        names[key] = g
    geo = geometry(spec)
    mesh = np.concatenate([seg_of(q[[0, 1, 2, 3, 0]]) for q in lat])
    ctrl = {k: geo[k] for k in ('flap', 'slat', 'hinge')}
    cg = np.array(spec['refs']['gcenter'])
    for i in range(n):
        def pair(nm):
            r = []
            for dim in ('3D', '2D'):
                require((i, nm + dim) in names, 'missing', f'{nm}{dim} of state {i}')
                g = names[i, nm + dim]
                require(sorted(sorted(axes_of(v)) for v in g['views']) == ([[0, 1, 2]] if dim == '3D' else [[0, 1], [0, 2], [1, 2]]), 'views', f'{nm}{dim}')
                require(any(spec['uid'] in x for x in g['texts'] + [v['title'] for v in g['views']]), 'title', f'{nm}{dim}')
                r += [(g, v) for v in g['views']]
            for g, v in r:
                rng = [b - a for a, b in v['lims']]
                require(max(rng) - min(rng) < 1e-6*max(rng), 'aspect', f'{nm}: ranges {rng}')
                E = geo['wing'][0][..., axes_of(v)].reshape(-1, len(rng))
                for j, (a, b) in enumerate(v['lims']):
                    require(a <= E[:, j].min() and E[:, j].max() <= b, 'limits', f'{nm} {v["label"][j]}: {a}..{b} does not show {E[:, j].min()}..{E[:, j].max()}')
                if v['three']:
                    m = re.search(r'Wings\s*=\s*(\d+).*Segments\s*=\s*(\d+).*Controls\s*=\s*(\d+)', ' '.join(v['texts']).replace('\n', ' '))
                    cnt = [len(spec['wings']), sum(len(w['segs']) for w in spec['wings']), sum(len(w['ctrls']) for w in spec['wings'])]
                    require(m and [int(x) for x in m.groups()] == cnt, 'info', f'{nm}: {v["texts"]}, {cnt}')
                    # (diagonal of the bounding box, the origin may be counted in)
                    m = re.search(r'size\s*=\s*([\d.]+)', ' '.join(v['texts']))
                    E = geo['wing'][0].reshape(-1, 3)
                    E0 = np.concatenate([E, np.zeros((1, 3))])
                    require(m and min(abs(float(m.group(1)) - np.linalg.norm(np.ptp(x, axis=0))) for x in (E, E0)) < 0.0051 + 1e-6*size, 'info', f'{nm}: {v["texts"]}')
            return r

        def marks(views, pts, what):
            for v in views:
                got = np.concatenate([m for m in v['marks']] or [np.zeros((0, len(v['label'])))])
                for p in pts:
                    p = np.asarray(p)[axes_of(v)]
                    require(len(got) and np.abs(got - p).max(axis=1).min() < 1e-6*max(size, np.abs(cg).max()), 'marker', lambda: f'{what} {v["label"]}: no marker at {p}')
                for q in got:
                    require(min(np.abs(q - np.asarray(p)[axes_of(v)]).max() for p in pts) < 1e-6*max(size, np.abs(cg).max()), 'extra-marker', lambda: f'{what} {v["label"]}: marker at {q}')
        # ---- geometry
        V = [v for _, v in pair('geometry')]
        check_lines('geometry', V, {'wing': geo['wing'], **ctrl}, size)
        marks(V, [cg], 'geometry')
        # ---- mesh
        V = [v for _, v in pair('lattice')]
        cls = {'mesh': (mesh, mesh)}
        if not fields:
            cls.update(ctrl)
        pts = [cg]
        if 'deformation' in case['opt'] and fields:
            fl = np.concatenate([seg_of(np.array(x)[:, :3]) for x in fields.values()])
            cls['field'] = (fl[:0], fl)
            pts += [r[:3] for x in fields.values() for r in x]
        check_lines('lattice', V, cls, size)
        marks(V, pts, 'lattice')
        # ---- influence matrix
        require((i, 'downwash') in names, 'missing', f'downwash of state {i}')
        im = [x for v in names[i, 'downwash']['views'] for x in v['images']]
        require(len(im) == 1 and im[0].shape == mats[i].shape and np.all(np.abs(im[0] - mats[i]) <= 1e-6*np.abs(mats[i]).max()), 'matrix-image', f'state {i}')
        # ---- results
        st = dict(pt.STATE, **case['states'][i])
        u = pt.freestream(st['alpha'], st['beta'])
        for k in case['keys']:
            val = pw[i][k]
            R = pair('results_' + k)
            bars = [b for g, _ in R for b in g['bars']]
            require(len(bars) == 1, 'colour-bar', f'{len(bars)} colour bars')
            sm = bars[0].mappable
            sm.autoscale_None()
            rg = val.max() - val.min()
            # (equal values everywhere: any range that contains them)
            require(rg <= 1e-5*max(abs(val)) or abs(sm.norm.vmin - val.min()) <= 1e-6*max(abs(val)) and abs(sm.norm.vmax - val.max()) <= 1e-6*max(abs(val)), 'colour-bar', f'{k}: {sm.norm.vmin}..{sm.norm.vmax} for {val.min()}..{val.max()}')
            require(k in bars[0].ax.get_ylabel() + bars[0].ax.get_xlabel(), 'colour-bar', f'label {bars[0].ax.get_ylabel()}')
            for g, v in R:
                ax = axes_of(v)
                verts = np.concatenate([a for _, a in v['areas']] or [np.zeros((0, len(ax)))])
                cols = np.concatenate([np.tile(c, (len(a), 1)) for c, a in v['areas']] or [np.zeros((0, 4))])
                require(len(verts), 'surface', f'{k} {v["label"]}: nothing drawn')
                lo, hi = lat[..., ax].min(axis=1) - 1e-6*size, lat[..., ax].max(axis=1) + 1e-6*size
                per = np.zeros((len(verts), len(lat)), bool)
                for j in range(len(lat)):
                    want = [np.array(sm.to_rgba(val[j] + s*2e-6*max(abs(val)))) for s in (-1, 0, 1)] if rg > 1e-5*max(abs(val)) else None
                    same = np.ones(len(verts), bool) if want is None else np.any([np.abs(cols - w).max(axis=1) < 1e-5 for w in want], axis=0)
                    for corner in lat[j]:
                        hit = same & (np.abs(verts - corner[ax]).max(axis=1) < 1e-6*size)
                        require(hit.any(), 'surface', lambda: f'{k} {v["label"]}: panel {j} (value {val[j]}) not drawn in its colour')
                    per[:, j] = same & np.all(verts >= lo[j], axis=1) & np.all(verts <= hi[j], axis=1)
                require(np.all(per.any(axis=1)), 'surface', lambda: f'{k} {v["label"]}: an area in a colour that belongs to no panel there')
                if v['three']:
                    S = np.concatenate([s for _, s, _ in v['lines']] or [np.zeros((0, 2, 3))])
                    require(len(S), 'arrow', 'no free-stream arrow')
                    dv = S[:, 1] - S[:, 0]
                    shaft = np.argmax(np.linalg.norm(dv, axis=1))
                    e = dv[shaft]/np.linalg.norm(dv[shaft])
                    require(abs(abs(e @ u) - 1) < 1e-6, 'arrow', f'direction {e}, free stream {u}')
                    tip = S[shaft][int(np.argmax(S[shaft] @ u))]
                    head = np.concatenate([S[j] for j in range(len(S)) if j != shaft])
                    require(np.abs(head - tip).sum(axis=1).min() < 1e-9 and np.linalg.norm(head - tip, axis=1).max() < 0.9*np.linalg.norm(dv[shaft]), 'arrow', f'head not at the downstream end {tip}')
                    require(any(re.search(r'(?<![\d.])%.1f m/s' % st['airspeed'], x) for x in v['texts']), 'airspeed', f'{v["texts"]}')
    want = {(i, x) for i in range(n) for x in ['downwash'] + [y + dim for y in ['geometry', 'lattice'] + ['results_' + k for k in case['keys']] for dim in ('2D', '3D')]}
    require(set(names) == want, 'figures', f'{set(names) ^ want}')
    return [np.round(lat, 5).tolist(), case['keys'], [np.round(p[case['keys'][0] if case['keys'] else 'cp'], 5).tolist() for p in pw]], {'figures': len(figs)}
