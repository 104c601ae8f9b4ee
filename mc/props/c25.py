"""C25: damaged, missing or ill-defined input files are refused before anything is written."""
import copy
import json
import os

from mc import pt, gen, explore, proj, cli
from mc.pt import P, require
from mc.props import c11, c13, c14, c15

LEVEL = 'exploration'
RULE = ('each input file of an analysis (settings, aircraft, flight states, deformation, airfoil) in every damaged form of the catalogue: missing, a directory, a dangling link, empty, cut off after every byte, every structural character left out, '
        'foreign bytes at every position of the grid, another JSON value instead of an object, every key with a value of the wrong form at every place; every ill-defined aircraft of C14 (single defects) and settings of C13 (single), '
        'ill-defined flight-state values at every position of the list; each with and without results of an earlier analysis, executed by the real command line. Exit status, results, plots, inputs and earlier results compared. Distinct by file, form and outcome.')
ASSUMPTIONS = ['a damaged text that still is a complete JSON object is not decided by the damage itself (values: C11, C13, C14, C17)', 'deformation files below 10 bytes count as empty, as documented in the code', 'the log file may be written, result and plot directories may be created']
STALL = 300


def prepare(ctx):
    c15.prepare(ctx)
    import pytornado.fileio as io
    P.io = io


def bounds(ctx):
    return {'cut_positions': 'all', 'foreign_byte_positions': 'every 3rd' if ctx.thorough else 'every 29th', 'state_list_length': 4 if ctx.thorough else 3, 'earlier_results': 'both' if ctx.thorough else 'both for single forms, alternating for positions'}


SAVE = dict.fromkeys(('global', 'panelwise', 'aeroperformance', 'matrix_system'), True)
AIR = 'airfoils/blade.dat'


def base():
    """{relative path: text} of the intact project"""
    q = gen.quad('tapered')
    ac = proj.aircraft_dict({'wings': [pt.wing('w', 2, [pt.seg('s0', *q, af=(AIR, 'NACA2412'), nc=2, ns=2), pt.seg('s1', *gen.next_quad(q, 'kink'), nc=1, ns=1)],
                                               [pt.ctrl('f', 'flap', 's0', 's1', 0.3, 0.6, 0.7, 0.7, defl=5.0, deflm=-2.0)])], 'refs': pt.REFS})
    st = proj.state_dict([{}, {'alpha': -2.0, 'rate_P': 0.2}, {'beta': 3.0}])
    se = {'aircraft': 'ac.json', 'state': 'st.json', 'deformation': 'def.json', 'save_results': SAVE, 'plot': {'results': {'opt': ['cp'], 'show': False, 'save': False}},
          'vlm_autopanels_c': 2, '_epsilon': 1e-6, '_deformation_check': False}
    de = {'w': [[x, y, z, 0.01*y, 0.0, 0.05*y*y, 0, 0, 0] for x, y, z in [(0.5, 0, 0), (0.6, 1, 0.1), (0.7, 2, 0.2), (0.8, 2.5, 0.3)]]}
    return {'settings/p.json': json.dumps(se), 'aircraft/ac.json': json.dumps(ac), 'state/st.json': json.dumps(st), 'deformation/def.json': json.dumps(de), AIR: c14.airfoil()}


JS = ('settings/p.json', 'aircraft/ac.json', 'state/st.json', 'deformation/def.json')


def broken(txt):
    """not a complete JSON object"""
    try:
        return not isinstance(json.loads(txt.decode()), dict)
    except ValueError:
        return True


def paths(d, pre=()):
    for k, v in (d.items() if isinstance(d, dict) else enumerate(d)):
        yield pre + (k,)
        if isinstance(v, (dict, list)) and not (isinstance(v, list) and not any(isinstance(x, (dict, list)) for x in v)):
            yield from paths(v, pre + (k,))


def damage(rel, how):
    """-> bytes, or a keyword"""
    b = base()[rel].encode()
    k, x = how[0], how[1] if len(how) > 1 else None
    if k in ('missing', 'directory', 'dangling'):
        return k
    return {'empty': lambda: b'', 'cut': lambda: b[:x], 'drop': lambda: b[:x] + b[x+1:], 'byte': lambda: b[:x] + bytes([how[2]]) + b[x:], 'text': lambda: x.encode(),
            'twice': lambda: b + b, 'tail': lambda: b + x.encode()}[k]()


def cases(ctx):
    out, n = [], 0

    def add(rank, **c):
        nonlocal n
        n += 1
        out.append(((rank, n), c))
    B = base()
    singles = [['missing'], ['directory'], ['dangling'], ['empty'], ['twice'], ['tail', 'x'], ['tail', ']'], ['tail', '}'], ['tail', '\n{}']] + \
              [['text', t] for t in ('[]', 'null', '3', '"text"', 'true', 'not json at all', '[{}]', '{,}', "{'aircraft': 'ac.json'}", '\x00'*64, '[' * 30, 'NaN')]
    for rel in JS:
        for h in singles:
            t = damage(rel, h)
            if rel.startswith('deformation') and isinstance(t, bytes) and len(t) < 10:
                continue
            for prev in (False, True):
                add(0, rel=rel, how=h, prev=prev)
    for h in (['missing'], ['directory'], ['dangling'], ['empty'], ['text', 'only a name\n'], ['text', 'name\nx y\n'], ['text', 'name\n1.0 0.0\n0.5 abc\n']):
        for prev in (False, True):
            add(0, rel=AIR, how=h, prev=prev)
    step = 3 if ctx.thorough else 29
    for rel in JS:
        b = B[rel].encode()
        pos = [['cut', i] for i in range(len(b))] + [['drop', i] for i in range(len(b)) if chr(b[i]) in '{}[],:"']
        pos += [['byte', i, c] for i in range(0, len(b), step) for c in (0xff, 0x00, 0x7b)]
        for i, h in enumerate(pos):
            for prev in (False, True) if ctx.thorough else (bool(i % 2),):
                n += 1
                t = damage(rel, h)
                if not broken(t) or rel.startswith('deformation') and len(t) < 10:
                    continue
                out.append(((1, n), {'rel': rel, 'how': h, 'prev': prev}))
    # ill-defined values; two damaged files
    for i, e in enumerate(c14.defects()):
        add(2, edits=e, prev=bool(i % 2))
    for i, (c, x) in enumerate(explore.enumerate_cases(c13.driver, bound=1)[0]):
        s = x['d']
        if c13.model_update(c13.defaults(), s) is None:
            add(3, settings=s, prev=bool(i % 2))
    for k in ('aircraft', 'state', 'deformation'):
        for v in ('nothere.json', '', '.', '..', '../settings', 'ac.json/x', 5, [], {}) if k != 'deformation' else ('nothere.json', '../settings', 'def.json/x', 5, [1]):
            add(3, settings_entry=[k, v], prev=False)
    for ln in range(1, (4 if ctx.thorough else 3) + 1):
        aero = {k: [x]*ln for k, x in pt.STATE.items()}
        for k in aero:
            for how, vals in (('value', (None, 'x', [1.0])), ('all', (None, 'x', {}, [])), ('shorter', (0,)), ('longer', (0,)), ('gone', (0,))):
                for pos in range(ln) if how == 'value' else (0,):
                    for v in vals:
                        a = copy.deepcopy(aero)
                        if how == 'value':
                            a[k][pos] = v
                        elif how == 'all':
                            a[k] = v
                        elif how == 'gone':
                            del a[k]
                        else:
                            a[k] = a[k][:-1] if how == 'shorter' else a[k] + a[k][:1]
                        if c11_model(a) is None:
                            add(4, aero=a, prev=bool(n % 2))
            if k in ('alpha', 'beta'):
                for pos in range(ln):
                    for v in (90.0001, -91.0, 1e9, float('nan'), float('inf')):
                        a = copy.deepcopy(aero)
                        a[k][pos] = v
                        add(4, aero=a, prev=bool(n % 2))
        for extra in ('mach', 'altitude'):
            add(4, aero=dict(copy.deepcopy(aero), **{extra: [0.5]*ln}), prev=bool(n % 2))
    for v in (None, [], {}, 'x', 3):
        add(4, aero=v, prev=False)
    row = [0.5, 0.0, 0.0, 0.0, 0.0, 0.1, 0.0, 0.0, 0.0]
    for j, d in enumerate(({'nowing': [row, row]}, {'nowing_m': [row, row]}, {'w': [row, row[:5]]}, {'w': [row[:2], row[:2]]}, {'w': [row, ['x'] + row[1:]]}, {'w': [row, None]}, {'w': None}, {'w': 'x' * 12}, {'w': 3.000001},
                           {'w': {'a': row}}, {'w_m': [row[:8] + [None]]*2}, {'w_m': [[row]]}, {'w': [row, row], 'v': [row]})):
        for prev in (False, True):
            add(4, deform=d, prev=prev)
    for i, a in enumerate(JS + (AIR,)):
        for b in (JS + (AIR,))[i + 1:]:
            for h in (['missing'], ['cut', 20]):
                if h[0] == 'cut' and AIR in (a, b):
                    continue
                add(5, rel=a, how=h, rel2=b, prev=True)
    # the intact project
    for prev in (False, True):
        add(6, intact=True, prev=prev)
    return out, n, False


def c11_model(aero):
    if any(isinstance(v, dict) for v in aero.values()):
        return None
    if any(isinstance(v, list) and not v for v in aero.values()):
        return None
    return c11.model(aero)


EARLIER = {'_results/p_000/global.json': '{"old": 1}', '_results/p_000/panelwise.dat': '# old\n1.0\n', '_results/p_aeroperformance.json': '[1.0, 2.0]', '_plots/p_000/lattice2D_x.png': 'old', '_results/keep.txt': 'mine'}


def run_case(case):
    B = {k: v.encode() for k, v in base().items()}
    if 'rel' in case:
        B[case['rel']] = damage(case['rel'], case['how'])
        if 'rel2' in case:
            B[case['rel2']] = damage(case['rel2'], case['how'])
        label = [case['rel'], case['how'][0]]
    elif 'edits' in case:
        B['aircraft/ac.json'] = json.dumps(c14.apply(case['edits'])).encode()
        B['airfoils/good.dat'] = c14.airfoil().encode()
        s = json.loads(base()['settings/p.json'])
        del s['deformation']
        B['settings/p.json'] = json.dumps(s).encode()
        label = ['aircraft', str(case['edits'][0][0][-1])]
    elif 'settings' in case:
        B['settings/p.json'] = json.dumps(case['settings']).encode()
        label = ['settings', sorted(case['settings'])]
    elif 'settings_entry' in case:
        s = json.loads(base()['settings/p.json'])
        s[case['settings_entry'][0]] = case['settings_entry'][1]
        B['settings/p.json'] = json.dumps(s).encode()
        label = ['entry', case['settings_entry']]
    elif 'deform' in case:
        B['deformation/def.json'] = json.dumps(case['deform']).encode()
        label = ['deformation', str(case['deform'])[:40]]
    elif 'aero' in case:
        B['state/st.json'] = json.dumps({'aero': case['aero']}).encode()
        label = ['state', str(case['aero'])[:40]]
    else:
        label = ['intact']
    top = proj.fresh_dir('c25')
    box = os.path.join(top, 'box')
    os.makedirs(box)
    try:
        if case['prev']:
            B.update({k: v.encode() for k, v in EARLIER.items()})
        for rel, v in B.items():
            p = os.path.join(box, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if v == 'directory':
                os.makedirs(p)
            elif v == 'dangling':
                os.symlink('nowhere', p)
            elif v != 'missing':
                with open(p, 'wb') as fp:
                    fp.write(v)
        before = proj.tree(box)
        st, txt, exc = cli.run(['--run', 'settings/p.json'], box, box)
        after = proj.tree(box)
    finally:
        proj.rmtree(top)
    what = f'{label} {str(case)[:200]}: status {st}, {exc}'
    if case.get('intact'):
        require(st == 0, 'intact-refused', f'{what}\n{txt[-500:]}')
        for i in range(3):
            for f in ('global.json', 'panelwise.dat', 'matrix.dat'):
                require(after.get(f'_results/p_{i:03d}/{f}'), 'intact-results', f)
        return ['intact', case['prev']]
    require(st != 0, 'accepted', f'{what}\n{txt[-300:]}')
    for k, v in before.items():
        require(k in after and after[k] == v, 'changed', f'{what}: {k}')
    new = sorted(k for k, v in after.items() if k not in before and v is not None and not k.endswith('log.txt'))
    require(not new, 'written', f'{what}: {new}')
    return [label, str(exc).split(':')[0]]
