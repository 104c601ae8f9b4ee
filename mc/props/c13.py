"""C13: settings - defaults, validation, isolation, persistence."""
import copy
import itertools
import json
import os

from mc import pt, explore, proj
from mc.pt import P, require

LEVEL = 'model_checking'
RULE = ('(a) every settings dictionary within `deviations` departures from the empty one (each key: absent, valid values, wrong types; nested plot/save options absent, partial, complete), created in memory and loaded from file, '
        'saved, re-loaded; compared with an independently written table of defaults. (b) every history of operations (create, update, mutate in place, save, load) up to the depth bound on two instances sharing caller dictionaries, executed on the '
        'real code in a process of its own; both instances and the caller\'s dictionaries compared with a reference model after every step; states = distinct model states reached. '
        '(c) settings before and after an analysis, with plot options.')
ASSUMPTIONS = ['the type of the deformation entry is not checked (existing projects use false for no deformation)', 'booleans in place of integers are not in the alphabet (Python accepts them)', 'the state of a settings object after a refused update is not compared']
STALL = 400

NO = object()
OPT = {'opt': [], 'show': False, 'save': False}
PLOTS = ('geometry', 'lattice', 'matrix_downwash', 'results')
SAVES = ('global', 'panelwise', 'aeroperformance', 'matrix_system')


def defaults():
    return {'aircraft': None, 'state': None, 'deformation': None, 'vlm_autopanels_c': 4, 'vlm_autopanels_s': 4,
            'save_results': {k: False for k in SAVES}, 'plot': {k: copy.deepcopy(OPT) for k in PLOTS},
            '_do_normal_rotations': True, '_deformation_check': True, '_epsilon': 1e-6}


def overlay(base, new):
    for k, v in new.items():
        if isinstance(v, dict) and isinstance(base.get(k), dict):
            overlay(base[k], v)
        else:
            base[k] = copy.deepcopy(v)
    return base


def model_update(cur, d):
    """-> settings or None (refused)"""
    s = overlay(copy.deepcopy(cur), d)
    try:
        if not s['plot']['results']['opt']:
            s['plot']['results']['opt'] = ['cp']
    except (TypeError, KeyError):
        return None
    t = type
    ok = t(s['aircraft']) is str and t(s['state']) is str and t(s['deformation']) in (str, type(None))
    ok &= all(t(s[k]) is int for k in ('vlm_autopanels_c', 'vlm_autopanels_s')) and all(t(s[k]) is bool for k in ('_do_normal_rotations', '_deformation_check'))
    ok &= t(s['_epsilon']) is float and 0 < s['_epsilon'] < 1
    ok &= t(s['save_results']) is dict and all(t(s['save_results'][k]) is bool for k in SAVES)
    ok &= all(t(p) is dict and t(p['opt']) is list and t(p['show']) is bool and t(p['save']) is bool for p in (s['plot'][k] for k in PLOTS))
    return s if ok else None


def visible(s):
    return {k: v for k, v in s.items() if not k.startswith('_')}


BASE = {'aircraft': 'ac.json', 'state': 'st.json'}


def driver(ch):
    d = {}

    def put(key, *alts):
        v = ch.pick(key, alts)
        if v is not NO:
            d[key] = v
    put('aircraft', 'ac.json', 'x.xml', 'A B.JSON', NO, 5, None)
    put('state', 'st.json', 'ä.json', NO, 3.0, ['st.json'])
    put('deformation', NO, None, 'def.json', 'ü x.json')
    put('vlm_autopanels_c', NO, 1, 7, 4.0, '4', None)
    put('vlm_autopanels_s', NO, 20, 2, 3.5, [4])
    put('save_results', NO, {}, {'global': True}, {'panelwise': True, 'matrix_system': True}, {k: True for k in SAVES}, {k: False for k in SAVES}, {'aeroperformance': 'yes'}, {'global': 1},
        [], True, None)
    put('plot', NO, {}, {'results': {'opt': ['cp', 'mag'], 'show': False, 'save': True}}, {'results': {'opt': []}}, {'geometry': {'save': True}}, {'lattice': {'opt': ['deformation'], 'show': True}},
        {k: {'opt': ['cp'], 'show': True, 'save': True} for k in PLOTS}, {k: copy.deepcopy(OPT) for k in PLOTS}, {'matrix_downwash': {'show': True}, 'geometry': {}},
        {'geometry': {'show': 'true'}}, {'lattice': {'opt': 'cp'}}, {'results': {'save': 0}}, {'results': True}, {'geometry': None}, 'all', None)
    put('_do_normal_rotations', NO, False, True, 0, 'no')
    put('_deformation_check', NO, False, 1)
    put('_epsilon', NO, 1e-3, 0.5, 1.0, 0.0, -1e-6, 1, '1e-6', None)
    return {'kind': 'dict', 'd': d, 'where': ch.pick('where', ('settings/x.json', 'x.json', 'settings/my.run.json'))}


# --------------------------------------------------------------------------
D1 = {'aircraft': 'a1.json', 'state': 's1.json', 'plot': {'results': {'opt': ['mag'], 'show': False, 'save': False}, 'geometry': {'opt': ['o']}}, 'save_results': {'global': True}}
D2 = {'aircraft': 'a2.json', 'state': 's2.json', 'deformation': 'd.json', '_epsilon': 1e-4, '_do_normal_rotations': False}
U1 = {'plot': {'lattice': {'show': True}}, 'vlm_autopanels_c': 9}
U2 = {'save_results': {'global': False, 'panelwise': True}, '_epsilon': 1e-5}
OPS = [('new', 0, None), ('new', 0, 'D1'), ('new', 1, 'D1'), ('new', 1, 'D2'), ('update', 0, 'U1'), ('update', 1, 'U1'), ('update', 0, 'U2'), ('append', 0, 'geometry'), ('append', 1, 'results'), ('flip', 0, 'lattice'),
       ('flip', 1, 'global'), ('save', 0, None), ('save', 1, None), ('load', 1, 0), ('load', 0, 1), ('caller', 'D1', None)]


def enabled(st, op):
    k, i, x = op
    if k in ('update', 'append', 'flip', 'save'):
        return st[i] is not None and (k != 'update' or 'aircraft' in st[i] and st[i]['aircraft'] is not None)
    if k == 'load':
        return st[2][x] is not None
    return True


def model_step(st, op):
    """st: [settings 0, settings 1, [file 0, file 1], caller dictionaries]"""
    k, i, x = op
    st = copy.deepcopy(st)
    if k == 'new':
        st[i] = defaults() if x is None else model_update(defaults(), st[3][x])
    elif k == 'update':
        st[i] = model_update(st[i], st[3][x])
    elif k == 'append':
        st[i]['plot'][x]['opt'].append('fmag')
    elif k == 'flip':
        if x == 'lattice':
            st[i]['plot']['lattice']['save'] ^= True
        else:
            st[i]['save_results'][x] ^= True
    elif k == 'save':
        st[2][i] = visible(copy.deepcopy(st[i]))
    elif k == 'load':
        st[i] = model_update(defaults(), st[2][x])
    elif k == 'caller':
        st[3]['D1']['plot']['geometry']['opt'].append('z')
        st[3]['D1']['save_results']['global'] ^= True
    return st


def init_state():
    return [None, None, [None, None], copy.deepcopy({'D1': D1, 'D2': D2, 'U1': U1, 'U2': U2})]


def key(st):
    return json.dumps(st, sort_keys=True)


def histories(depth):
    """All enabled histories of maximal length"""
    out, seen, trans = [], set(), set()

    def rec(st, path):
        seen.add(key(st))
        if len(path) == depth:
            out.append(path)
            return
        for n, op in enumerate(OPS):
            if not enabled(st, op):
                continue
            nx = model_step(st, op)
            if op[0] in ('new', 'update', 'load') and nx[op[1]] is None:
                continue
            trans.add((key(st), n))
            rec(nx, path + (n,))
    rec(init_state(), ())
    return out, len(seen), len(trans)


_tot = {}


def bounds(ctx):
    return {'deviations': 3 if ctx.thorough else 2, 'history_depth': 5 if ctx.thorough else 4, 'operations': len(OPS), **_tot}


def prepare(ctx):
    pt.load()
    import pytornado.fileio as io
    import pytornado.objects.settings as ob
    import pytornado.stdfun.run     # noqa
    P.io, P.ob = io, ob


def cases(ctx):
    b = bounds(ctx)
    cs, nodes, capped = explore.enumerate_cases(driver, bound=b['deviations'])
    out = [((0,) + c, x) for c, x in cs]
    hs, ns, nt = histories(b['history_depth'])
    _tot.update(model_states=ns, model_transitions=nt)
    group = 16
    for i in range(0, len(hs), group):
        out.append(((1, i), {'kind': 'histories', 'hs': [list(h) for h in hs[i:i + group]]}))
    for i, d in enumerate(({}, {'_epsilon': 1e-3, '_do_normal_rotations': False}, {'plot': {'results': {'save': True}}}, {'plot': {'geometry': {'save': True}, 'lattice': {'opt': ['deformation']}}},
                           {'plot': {'matrix_downwash': {'save': True}}, 'save_results': {k: True for k in SAVES}}, {'vlm_autopanels_c': 2, 'vlm_autopanels_s': 3, '_deformation_check': False})):
        out.append(((2, i), {'kind': 'run', 'd': d}))
    return out, nodes + ns, capped


def same(a, b):
    """equal, types included"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def agree(sig, got, exp, what):
    require(same(got, exp), sig, f'{what}:\n got {got}\n expected {exp}')


def in_scratch(fn):
    root = proj.fresh_dir()
    try:
        return fn(root)
    finally:
        proj.rmtree(root)


def run_case(case):
    if case['kind'] == 'dict':
        return in_scratch(lambda root: run_dict(case, root)), {'states': 1, 'transitions': 4, 'traces': 1}
    if case['kind'] == 'run':
        proj.unwrap(proj.isolated(in_scratch, lambda root: run_run(case, root)))
        return case['d'], {'states': 1, 'transitions': 1, 'traces': 1}
    for h in case['hs']:
        proj.unwrap(proj.isolated(in_scratch, lambda root: run_history(h, root)))
    return case['hs'][0], {'states': 0, 'transitions': sum(len(h) for h in case['hs']), 'traces': len(case['hs']), 'op_histories': len(case['hs'])}


def attempt(fn):
    try:
        return fn()
    except (TypeError, ValueError, KeyError, AttributeError, RuntimeError) as e:
        return e


def run_dict(case, root):
    d = case['d']
    exp = model_update(defaults(), d)
    given = copy.deepcopy(d)
    fname = os.path.basename(case['where'])
    # the file type of the aircraft is checked as well
    a = exp and os.path.splitext(exp['aircraft'])[1].lower()
    s = attempt(lambda: P.ob.Settings(fname, root, settings_dict=given))
    agree('caller-dict', given, d, 'dictionary given by the caller was modified')
    path = os.path.join(root, case['where'])
    proj._put(path, json.dumps(d))
    with open(path, 'rb') as fp:
        before = fp.read()
    s2 = attempt(lambda: P.io.native.settings.load(path))
    if exp is None or a not in ('.json', '.xml'):
        require(isinstance(s, Exception), 'invalid-accepted', f'{d} accepted')
        require(isinstance(s2, Exception), 'invalid-accepted-file', f'file with {d} accepted')
        return ['refused', type(s).__name__]
    for what, x in (('created', s), ('loaded', s2)):
        require(not isinstance(x, Exception), 'valid-refused', f'{what}: {d} refused: {x!r}')
        agree('settings', x.settings, exp, f'settings {what} from {d}')
        require(x.aircraft_is_cpacs == (a == '.xml'), 'file-type', f'{what}: aircraft {exp["aircraft"]} taken as cpacs={x.aircraft_is_cpacs}')
    with open(path, 'rb') as fp:
        require(fp.read() == before, 'file-changed', 'loading changed the settings file')
    require(os.path.realpath(s2.paths('root')) == os.path.realpath(root), 'project-dir', f'project directory {s2.paths("root")} for {path}')
    # saving
    for _ in range(2):
        P.io.native.settings.save(s2)
        agree('live', s2.settings, exp, 'settings in use after saving')
    f = str(s2.paths('f_settings'))
    require(os.path.realpath(f) == os.path.realpath(os.path.join(root, 'settings', fname)), 'saved-file', f'saved to {f} instead of settings/{fname}')
    r = P.io.native.settings.load(f)
    agree('reloaded', visible(r.settings), visible(exp), f'visible settings after saving and loading {d}')
    agree('hidden-default', {k: v for k, v in r.settings.items() if k.startswith('_')}, {k: v for k, v in defaults().items() if k.startswith('_')}, 'hidden settings after loading a saved file')
    agree('other-instance', s.settings, exp, 'other instance')
    agree('fresh', P.ob.Settings('n.json', root, check_ac_file_type=False).settings, defaults(), 'defaults of a new instance')
    return ['accepted', exp]


def run_history(h, root):
    st = init_state()
    real = [None, None]
    dicts = init_state()[3]
    for i in (0, 1):
        os.makedirs(os.path.join(root, str(i)))
    for pos, n in enumerate(h):
        k, i, x = OPS[n]
        st = model_step(st, OPS[n])
        d = [os.path.join(root, str(j)) for j in (0, 1)]
        if k == 'new':
            real[i] = P.ob.Settings('s.json', d[i], settings_dict=None if x is None else dicts[x], check_ac_file_type=x is not None)
        elif k == 'update':
            real[i].update_from_dict(dicts[x])
        elif k == 'append':
            real[i].settings['plot'][x]['opt'].append('fmag')
        elif k == 'flip':
            if x == 'lattice':
                real[i].settings['plot']['lattice']['save'] ^= True
            else:
                real[i].settings['save_results'][x] ^= True
        elif k == 'save':
            proj_dir = str(real[i].paths('root'))
            P.io.native.settings.save(real[i])
            saved = os.path.join(proj_dir, 'settings', 's.json')
            target = os.path.join(root, f'saved{i}', 'settings', 's.json')
            with open(saved) as fp:
                proj._put(target, fp.read())
        elif k == 'load':
            real[i] = P.io.native.settings.load(os.path.join(root, f'saved{x}', 'settings', 's.json'))
        elif k == 'caller':
            dicts['D1']['plot']['geometry']['opt'].append('z')
            dicts['D1']['save_results']['global'] ^= True
        done = [OPS[m] for m in h[:pos + 1]]
        for j in (0, 1):
            if st[j] is not None:
                agree('instance', real[j].settings, st[j], f'instance {j} after {done}')
        agree('caller', dicts, st[3], f'caller dictionaries after {done}')


def run_run(case, root):
    d = dict(BASE, **case['d'])
    from mc import gen
    spec = {'wings': [pt.wing('w', 2, [pt.seg('s', *gen.quad('tapered'), nc=2, ns=2)])]}
    f = proj.write_project(root, spec, [{}, {'alpha': 5.0}], d)
    if 'save_results' not in case['d']:
        d['save_results'] = dict(proj.SAVE_ALL)
    exp = model_update(defaults(), d)
    r = proj.run(f)
    agree('after-run', r['settings'].settings, exp, 'settings after an analysis')
    P.io.native.settings.save(r['settings'])
    agree('after-run-saved', visible(P.io.native.settings.load(f).settings), visible(exp), 'settings saved after an analysis')
