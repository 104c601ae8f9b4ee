"""C27: example projects are complete, faithful to the database and ready to run."""
import json
import os
import re

from mc import pt, gen, explore, proj, cli
from mc.pt import P, require
from mc.props import c12, c15

LEVEL = 'exploration'
RULE = ('every aircraft of the database (the shipped ones and further ones put into the database of the staged copy: planforms, symmetry planes, segments, controls, given/open/absent panel counts and mirrored deflections within one '
        'departure) and the template x every way of naming it x every set of up to `edits` changes that a user makes before running the project (flight state, settings, aircraft), all executed by the real command line in a fresh '
        'directory. The created files are compared with the database file and the documented start values; the results of the project with those of a project written independently around the database file. Distinct by files and results.')
ASSUMPTIONS = ['free text of the aircraft file (comment, version) and the derived geometry block need not be repeated in the created file', 'numbers of result files compared at 1e-6']
STALL = 400

SHIPPED = ('d150', 'optimale', 'NASA_CRM', 'bwb', 'boxwing')
SPELL = ('{}', '{}.json', 'some/where/{}', './{}.json', '/nowhere/{}.json', '{}.xml')
START = {'airspeed': 100, 'density': 1.225, 'alpha': 2, 'beta': 0, 'rate_P': 0, 'rate_Q': 0, 'rate_R': 0}
TEMPLATE = {'uid': 'template_aircraft', 'refs': {'area': 10, 'span': 5, 'chord': 2, 'gcenter': [0, 0, 0], 'rcenter': [0, 0, 0]}, 'wings': [
    {'uid': 'template_wing', 'symmetry': 2,
     'segments': [{'uid': 'template_segment', 'vertices': {'a': [0, 0, 0], 'b': [0, 5, 0], 'c': [2, 5, 0], 'd': [2, 0, 0]}, 'airfoils': {'inner': 'NACA0000', 'outer': 'NACA0000'}}],
     'controls': [{'uid': 'template_control', 'device_type': 'flap', 'deflection': 5, 'deflection_mirror': -5, 'segment_uid': {'inner': 'template_segment', 'outer': 'template_segment'},
                   'rel_vertices': {'eta_inner': 0.2, 'eta_outer': 0.8, 'xsi_inner': 0.7, 'xsi_outer': 0.7}, 'rel_hinge_vertices': {'xsi_inner': 0.7, 'xsi_outer': 0.7}}]}]}
# names that are easily taken for one another
NAMES = ('d15', 'd150b', 'D150', 'my_plane', 'plane', 'my_plane_2', 'json', 'aircraft', '7')
DB = {}


def prepare(ctx):
    pt.load()
    import pytornado.fileio as io
    import matplotlib.pyplot    # noqa: once, before forking
    import pytornado.stdfun.run   # noqa
    P.io = io
    cli.load()
    d = os.path.join(P.lib, 'pytornado', 'database', 'aircraft')
    DB.clear()
    for f in sorted(os.listdir(d)):
        if f.endswith('.json'):
            DB[f[:-5]] = json.load(open(os.path.join(d, f)))
    # further aircraft in the database of this copy
    for i, (_, c) in enumerate(added()):
        n = NAMES[i] if i < len(NAMES) else ('my_plane-%02d' if i % 2 else 'Plane%02d') % i
        if i % 3:
            c['ac']['comment'] = f'number {i} of the extra aircraft'
        DB[n] = c['ac']
        with open(os.path.join(d, n + '.json'), 'w') as fp:
            json.dump(c['ac'], fp)


def added():
    cs, _, _ = explore.enumerate_cases(c12.driver, bound=1)
    # airfoil files are not part of the database
    return [(k, c) for k, c in cs if '.foil' not in json.dumps(c) and '.dat' not in json.dumps(c) and 'blade' not in json.dumps(c)]


def bounds(ctx):
    return {'edits': 3 if ctx.thorough else 2, 'shipped': len(SHIPPED), 'added_aircraft': len(added()), 'spellings': len(SPELL)}


def edits(ch):
    return {'auto': ch.pick('auto', ([2, 6], 'as created', [1, 3], [None, None], [3, 40])),
            'state': ch.pick('state', ({}, {'alpha': [0, 4, -3]}, {'beta': 5}, {'rate_P': 0.1, 'rate_Q': -0.05, 'rate_R': 0.2}, {'airspeed': None, 'mach': 0.2, 'altitude': 1500, 'density': None})),
            'defl': ch.pick('defl', ('kept', 'set', 'zero')),
            'refs': ch.pick('refs', ('kept', 'changed')),
            'plot': ch.pick('plot', ('off', 'kept')),
            'save': ch.pick('save', ('all', 'none'))}


def cases(ctx):
    names = list(SHIPPED) + [None]
    extra = [n for n in DB if n not in SHIPPED]
    out, nodes = [], 0
    for i, n in enumerate(names + extra):
        for j, s in enumerate(SPELL if n in SHIPPED or n in NAMES[:3] else SPELL[:1]):
            out.append(((0, i, j), {'kind': 'make', 'name': n, 'spell': s}))
            nodes += 1
    es, nd, capped = explore.enumerate_cases(edits, bound=bounds(ctx)['edits'])
    ones, _, _ = explore.enumerate_cases(edits, bound=1)
    few = {explore.fingerprint(e) for _, e in ones}
    for i, n in enumerate(names + extra):
        for c, e in es:
            big = n in ('NASA_CRM', 'bwb', 'boxwing')
            if n in extra or big and not ctx.thorough:
                if explore.fingerprint(e) not in few or n in extra and not ctx.thorough and (e['auto'] == 'as created' or e['plot'] == 'kept' or e['refs'] != 'kept' or e['save'] == 'none'):
                    continue
            if big and e['auto'] == [3, 40]:
                continue
            out.append(((1, i) + tuple(c), {'kind': 'run', 'name': n, 'edits': e}))
            nodes += 1
    out.append(((2,), {'kind': 'list'}))
    return out, nodes + nd + 1, capped


def created(box, name, spell='{}'):
    arg = spell.format(name)
    st, txt, exc = cli.run(['--make-example-from-db', arg] if name else ['--make-example'], box, box)
    require(st == 0, 'not-created', f'{arg}: status {st} ({exc}) {txt[-400:]}')
    p = name or 'template'
    t = proj.tree(os.path.join(box, 'pytornado'))
    got = {k for k, v in t.items() if v is not None}
    ac = f'aircraft/{name or "template_aircraft"}.json'
    require(got == {ac, f'settings/{p}.json', f'state/{p}.json'}, 'files', f'{arg}: {sorted(got)}')
    return {k.split('/')[0]: json.loads(t[k]) for k in got}, {k.split('/')[0]: k for k in got}


def faithful(orig, saved, path=''):
    """The saved file says the same as the database file; what it says in addition is 'not given'"""
    if isinstance(orig, dict):
        require(isinstance(saved, dict), 'aircraft-file', f'{path}: {saved!r}')
        for k in set(orig) | set(saved):
            if k in ('comment', 'version') or k == 'geometry' and path.endswith('segments[]'):
                continue
            a, b = orig.get(k), saved.get(k)
            if a in (None, {}, []) or isinstance(a, dict) and all(x is None for x in a.values()):
                if k == 'deflection_mirror' and b == orig['deflection']:
                    continue    # the documented meaning of a missing value
                empty = b in (None, {}, []) or isinstance(b, dict) and all(x is None for x in b.values())
                require(empty, 'aircraft-file', f'{path}.{k} is {b!r}, not given in the database')
                continue
            faithful(a, b, path + '.' + k)
    elif isinstance(orig, list):
        require(isinstance(saved, list) and len(saved) == len(orig), 'aircraft-file', f'{path}: {saved!r} instead of {orig!r}')
        for a, b in zip(orig, saved):
            faithful(a, b, path + '[]')
    elif isinstance(orig, str):
        same = orig == saved or path.split('.')[-2:-1] == ['airfoils'] and str(saved).upper() == orig.upper()
        require(same, 'aircraft-file', f'{path}: {saved!r} instead of {orig!r}')
    else:
        require(isinstance(saved, (int, float)) and not isinstance(saved, bool) and abs(saved - orig) <= 1e-12*abs(orig), 'aircraft-file', f'{path}: {saved!r} instead of {orig!r}')


def start_values(f, name):
    s = f['settings']
    p = name or 'template'
    want = {'aircraft': (name or 'template_aircraft') + '.json', 'state': p + '.json', 'vlm_autopanels_s': 20, 'vlm_autopanels_c': 5}
    for k, v in want.items():
        require(s.get(k) == v, 'settings-file', f'{k} is {s.get(k)!r}, expected {v!r}')
    require(not s.get('deformation'), 'settings-file', f'deformation is {s.get("deformation")!r}')
    require(not any((s.get('save_results') or {}).values()), 'settings-file', f'save_results {s.get("save_results")}')
    for k, d in s['plot'].items():
        opt = list(d.get('opt') or [])
        require((opt, bool(d.get('show')), bool(d.get('save'))) == ((['cp'], True, False) if k == 'results' else ([], False, False)), 'settings-file', f'plot {k}: {d}')
    a = f['state']['aero']
    for k in set(a) | set(START):
        v = a.get(k)
        v = v[0] if isinstance(v, list) and len(v) == 1 else v
        require(v == START.get(k), 'state-file', f'{k} is {v!r}, expected {START.get(k)!r}')


def edited(f, e):
    """The files after the user's changes"""
    f = json.loads(json.dumps(f))
    s, a, ac = f['settings'], f['state']['aero'], f['aircraft']
    if e['auto'] != 'as created':
        s['vlm_autopanels_c'], s['vlm_autopanels_s'] = e['auto']
        for k in ('vlm_autopanels_c', 'vlm_autopanels_s'):
            if s[k] is None:
                del s[k]
    a.update(e['state'])
    n = max(len(v) for v in a.values() if isinstance(v, list)) if any(isinstance(v, list) for v in a.values()) else 0
    for k, v in a.items():
        if n and v is not None and not isinstance(v, list):
            a[k] = [v]*n
    if e['defl'] != 'kept':
        for w in ac['wings']:
            for i, c in enumerate(w.get('controls') or []):
                c['deflection'] = (6.0 + i) if e['defl'] == 'set' else 0
                if w['symmetry']:
                    c['deflection_mirror'] = -3.0 if e['defl'] == 'set' else 0
    if e['refs'] == 'changed':
        ac['refs']['area'] *= 2
        ac['refs']['rcenter'] = [1.0, 0.5, -0.25]
    if e['plot'] == 'off':
        s['plot']['results']['show'] = False
    if e['save'] == 'all':
        s['save_results'] = dict(proj.SAVE_ALL)
    return f


def put(box, f, where):
    for k, rel in where.items():
        proj._put(os.path.join(box, 'pytornado', rel), f[k])


def analysed(box, p, what):
    st, txt, exc = cli.run(['-q', '--run', f'pytornado/settings/{p}.json'], box, box)
    require(st == 0, 'not-runnable', f'{what}: status {st} ({exc}) {txt[-500:]}')
    return {k: v for k, v in c15.normal(proj.tree(os.path.join(box, 'pytornado'))).items() if v is not None and k.split('/')[0] in ('_results', '_plots')}


def run_case(case):
    if case['kind'] == 'list':
        return listing()
    name = case['name']
    p = name or 'template'
    require(not name or name in DB, 'shipped', f'aircraft {name} not in the database')
    db = DB[name] if name else TEMPLATE
    top = proj.fresh_dir('c27')
    box = os.path.join(top, 'box')
    ref = os.path.join(top, 'ref')
    os.makedirs(box)
    os.makedirs(ref)
    try:
        f, where = created(box, name, case.get('spell', '{}'))
        faithful(db, f['aircraft'])
        start_values(f, name)
        if case['kind'] == 'make':
            return [p, case['spell']]
        e = case['edits']
        put(box, edited(f, e), where)
        got = analysed(box, p, f'{p} with {e}')
        # the same around the database file itself
        own = {'aircraft': db, 'state': {'aero': dict(START)},
               'settings': {'aircraft': (name or 'template_aircraft') + '.json', 'state': p + '.json', 'vlm_autopanels_s': 20, 'vlm_autopanels_c': 5, 'plot': {'results': {'show': True, 'opt': ['cp']}}}}
        put(ref, edited(own, e), where)
        want = analysed(ref, p, f'database file {p} with {e}')
        require(set(got) == set(want), 'results-files', f'{p} with {e}: {sorted(got)} instead of {sorted(want)}')
        if e['save'] == 'all':
            require(len(got) >= 1 + 3*(3 if isinstance(e['state'].get('alpha'), list) else 1), 'no-results', f'{p} with {e}: {sorted(got)}')
        for k in want:
            require(cli.same_text(want[k], got[k]), 'results', f'{p} with {e}: {k} differs from the analysis of the database file')
        return [p, explore.fingerprint(e), sorted(got), explore.fingerprint(sorted((k, v.decode(errors='replace')[:3000]) for k, v in got.items() if k.endswith('json')))]
    finally:
        proj.rmtree(top)


def listing():
    top = proj.fresh_dir('c27')
    box = os.path.join(top, 'box')
    os.makedirs(box)
    try:
        seen = []
        for o in ('--ldb', '--list-example-from-db'):
            st, txt, exc = cli.run([o], box, box)
            require(st == 0 and not proj.tree(box), 'list', f'{o}: status {st} ({exc})')
            names = re.findall(r'^\* (\S+) +-- (.*?)\s*$', txt, re.M)
            require(len(names) == len(DB) and {n for n, _ in names} == set(DB), 'list', f'listed {sorted(n for n, _ in names)}')
            for n, c in names:
                require(c == DB[n].get('comment', '[no information]'), 'list', f'{n}: {c!r}')
            seen.append(sorted(names))
        # an unknown name: refused, shows what there is
        st, txt, exc = cli.run(['--mdb', 'nosuch'], box, box)
        require(st != 0 and not proj.tree(box), 'unknown', f'status {st} ({exc})')
        require(all(n in txt for n in DB), 'unknown', f'names missing in: {txt[-300:]}')
        return seen
    finally:
        proj.rmtree(top)
