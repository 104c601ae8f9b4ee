"""C15: project commands never damage input files and only create what they should."""
import json
import os
import re
import shutil

from mc import pt, gen, explore, proj, cli
from mc.pt import P, require
from mc.explore import Fail

LEVEL = 'model_checking'
RULE = ('explicit-state search: from every initial directory, every command / user action is executed on every reachable directory state (real command line in a process of its own on the restored directory), '
        'breadth first up to the depth bound, states identified by directory tree and file contents. Every transition is compared with an independent model of what the command may create, change and remove; '
        'results of runs are compared with a run in a fresh copy of the project.')
ASSUMPTIONS = ['log files are not compared', 'plot files are compared by number and name without time stamp', 'result files compared at 1e-6',
               'creating the (empty) standard directories of a project is allowed to every command that loads its settings']
STALL = 800

SMALL = {'wings': [pt.wing('w', 2, [pt.seg('s', *gen.quad('tapered'), nc=2, ns=2)], [pt.ctrl('f', 'flap', 's', 's', 0.3, 0.7, 0.7, 0.7, defl=5.0, deflm=-2.0)])]}
STD = ('aircraft', 'airfoils', 'deformation', 'settings', 'state', '_plots', '_results')
DB = 'd150'


def other_project():
    """files of the user's own project: two settings files, foreign files, old results"""
    f = {}
    f['other/aircraft/ac.json'] = json.dumps(proj.aircraft_dict(SMALL))
    f['other/state/one.json'] = json.dumps(proj.state_dict([{}]))
    f['other/state/two.json'] = json.dumps(proj.state_dict([{}, {'alpha': 6.0, 'beta': 2.0}]))
    f['other/settings/a.json'] = json.dumps({'aircraft': 'ac.json', 'state': 'two.json', 'save_results': {'global': True, 'panelwise': True}})
    f['other/settings/b.json'] = json.dumps({'aircraft': 'ac.json', 'state': 'one.json', 'save_results': {'aeroperformance': True, 'matrix_system': True}})
    f['other/settings/bad.json'] = json.dumps({'aircraft': 'nothere.json', 'state': 'one.json'})
    return f


CONF = {'aircraft': None, 'state': None, 'vlm_autopanels_c': 1, 'vlm_autopanels_s': 1, 'save_results': {'global': True, 'aeroperformance': True}}
DEEP = ['other/deformation/keep.csv', 'other/aircraft/blade.Y', 'other/state/deep/x.txt', 'other/settings/old/b.json', 'other/results/x.txt', 'other/_results.txt', 'other/_plots_old', 'other/_other/x', 'other/log.txt.1',
        'other/_results/old.txt', 'other/_results/a_007/global.json', 'other/_plots/x.png', 'other/_results_keep/y.txt', 'other/notes.txt', 'other/a_plots/z', 'notes.txt', 'other/airfoils/blade.X']
OPS = {
    'make': ['--make-example'], 'mdb': ['--mdb', DB], 'mdb?': ['--make-example-from-db', 'nosuch'], 'ldb': ['--ldb'],
    'runP': ['-q', '--run', 'pytornado/settings/{p}.json'], 'runPc': ['-c', '-r', 'pytornado/settings/{p}.json', '-v'], 'cleanP': ['--clean-only', '-r', 'pytornado/settings/{p}.json'],
    'runA': ['-r', 'other/settings/a.json'], 'runAc': ['-r', 'other/settings/a.json', '--clean', '-d'], 'cleanA': ['-r', 'other/settings/a.json', '--clean-only', '-q'],
    'runB': ['-q', '-r', 'other/settings/b.json'], 'runBc': ['-q', '-c', '-r', 'other/settings/b.json'],
    'run?': ['-r', 'other/settings/none.json'], 'runc?': ['-c', '-r', 'other/settings/none.json'], 'clean?': ['--clean-only', '-r', 'pytornado/none.json'], 'runbad': ['-r', 'other/settings/bad.json'],
    'clash': ['--make-example', '--clean'], 'none': [],
    'U:foreign': None, 'U:configure': None, 'U:rename': None,
}
QUICK_SKIP = ()


def prepare(ctx):
    pt.load()
    import pytornado.fileio as io
    import matplotlib.pyplot    # noqa: once, before forking
    import pytornado.stdfun.run   # noqa
    P.io = io
    cli.load()
    global REF
    REF = {}
    # reference results of the user's project
    for s in 'ab':
        REF['other', s] = proj.unwrap(proj.isolated(reference, s))


def reference(s):
    root = proj.fresh_dir()
    for rel, txt in other_project().items():
        proj._put(os.path.join(root, rel), txt)
    proj.run(os.path.join(root, 'other/settings', s + '.json'))
    t = proj.tree(root + '/other')
    proj.rmtree(root)
    return outputs(t)


def outputs(t):
    return {k: v for k, v in t.items() if k.split('/')[0] in ('_results', '_plots') and v is not None}


def bounds(ctx):
    return {'depth': 6 if ctx.thorough else 4, 'operations': len(OPS), 'initial_directories': list(initials())}


def initials():
    o = {k: v.encode() for k, v in other_project().items()}
    return {'empty': {}, 'other': full(o), 'blocked': full({'pytornado': b'a file'}), 'blocked-dir': full({'pytornado/keep.txt': b'x'}, ['pytornado/_results'])}


def full(files, dirs=()):
    out = dict(files)
    for f in list(files) + [d + '/x' for d in dirs]:
        d = os.path.dirname(f)
        while d:
            out[d] = None
            d = os.path.dirname(d)
    return out


TS = re.compile(r'_\d{4}-\d\d-\d\d_\d\d-\d\d-\d\d-\d+(?=\.)')


def normal(t):
    """tree with volatile parts removed"""
    out = {}
    for k, v in t.items():
        if k.endswith('log.txt'):
            continue
        if TS.search(k):
            k, v = TS.sub('_TS', k), b'plot'
        out[k] = v
    return out


def key(t):
    import hashlib
    h = hashlib.sha256()
    for k in sorted(t):
        v = t[k]
        if v is not None and '/_results/' in k:
            v = cli.NUM.sub(b'#', v)
        h.update(repr((k, v)).encode())
    return h.hexdigest()


def restore(t, box):
    for k in sorted(t):
        v = t[k]
        p = os.path.join(box, k)
        if v is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fp:
                fp.write(v)


def pname(t):
    s = [k for k in t if k.startswith('pytornado/settings/') and k.endswith('.json')]
    return os.path.basename(s[0])[:-5] if s else 'template'


def conf_text(t):
    p = pname(t)
    return json.loads(t[f'pytornado/settings/{p}.json'])


def enabled(t, op):
    if op == 'U:configure':
        return any(k.startswith('pytornado/settings/') for k in t) and conf_text(t).get('vlm_autopanels_c') != 1
    if op == 'U:rename':
        return 'pytornado' in t and 'moved' not in t
    if op == 'U:foreign':
        return 'other' in t and DEEP[0] not in t
    if op in ('runP', 'runPc') and any(k.startswith('pytornado/settings/') for k in t):
        return conf_text(t).get('vlm_autopanels_c') == 1 or pname(t) == 'template' and op == 'runP'
    if op in ('runA', 'runAc', 'runB', 'runBc', 'cleanA', 'runbad'):
        return 'other' in t
    return True


def user(t, op):
    t = dict(t)
    if op == 'U:configure':
        p = pname(t)
        c = conf_text(t)
        t[f'pytornado/settings/{p}.json'] = json.dumps(dict(CONF, aircraft=c['aircraft'], state=c['state'])).encode()
    elif op == 'U:rename':
        t = {('moved' + k[9:] if k == 'pytornado' or k.startswith('pytornado/') else k): v for k, v in t.items()}
    else:
        t.update(full({k: k.encode() for k in DEEP}))
    return t


def execute(t, op):
    """-> (status, output, tree afterwards)"""
    top = proj.fresh_dir('c15')
    box = os.path.join(top, 'box')
    os.makedirs(box)
    try:
        restore(t, box)
        st, txt, exc = cli.run([a.format(p=pname(t)) for a in OPS[op]], box, box)
        extra = [x for x in os.listdir(top) if x != 'box']
        require(not extra, 'escape', f'{op} created {extra} outside of the working directory')
        return st, txt, exc, normal(proj.tree(box))
    finally:
        proj.rmtree(top)


def diff(a, b, what, ignore=lambda k: False):
    ch = []
    for k in sorted(set(a) | set(b)):
        if ignore(k):
            continue
        if k not in b:
            ch.append('removed ' + k)
        elif k not in a:
            ch.append('created ' + k)
        elif a[k] != b[k]:
            ch.append('changed ' + k)
    require(not ch, 'tree', f'{what}: {ch[:8]}')


def step(t, op):
    """Execute op on directory t, check it against the model; -> new tree"""
    if op.startswith('U:'):
        return user(t, op)
    st, txt, exc, n = execute(t, op)
    what = f'{op} {OPS[op]} (status {st}, {exc})'
    ok = lambda c: require(c, 'status', f'{what}: {txt[-300:]}')
    if op in ('make', 'mdb'):
        if 'pytornado' in t:
            ok(st != 0)
            diff(t, n, what)
            return n
        ok(st == 0)
        diff(t, n, what, lambda k: k == 'pytornado' or k.startswith('pytornado/'))
        p = 'template' if op == 'make' else DB
        a = 'template_aircraft' if op == 'make' else DB
        exp = {f'pytornado/aircraft/{a}.json', f'pytornado/settings/{p}.json', f'pytornado/state/{p}.json'}
        got = {k for k, v in n.items() if k.startswith('pytornado/') and v is not None}
        require(got == exp, 'template-files', f'{what}: {sorted(got)}')
        c = json.loads(n[f'pytornado/settings/{p}.json'])
        require(c['aircraft'] == a + '.json' and c['state'] == p + '.json', 'template-settings', f'{what}: {c}')
        return n
    if op in ('ldb', 'none'):
        ok(st == 0)
        diff(t, n, what)
        require(DB in txt if op == 'ldb' else 'usage' in txt, 'output', txt[:200])
        return n
    if op in ('mdb?', 'run?', 'runc?', 'clean?', 'clash'):
        ok(st != 0)
        diff(t, n, what)
        return n
    root = 'pytornado' if op.endswith('P') or op.endswith('Pc') else 'other'
    if root == 'pytornado' and not any(k.startswith('pytornado/settings/') for k in t):
        ok(st != 0)
        diff(t, n, what)
        return n
    return project_command(t, n, op, root, st, txt, what)


def project_command(t, n, op, root, st, txt, what):
    outdirs = (root + '/_results', root + '/_plots')
    isout = lambda k: k in outdirs or k.startswith(outdirs[0] + '/') or k.startswith(outdirs[1] + '/')
    std = {root + '/' + d for d in STD}
    clean = op in ('runPc', 'runAc', 'runBc') or op.startswith('clean')
    # nothing but the output directories may change (standard directories may appear)
    diff({k: v for k, v in t.items() if k not in std}, {k: v for k, v in n.items() if k not in std}, what, isout)
    for d in std:
        require(d in n or d not in t or clean and d in outdirs, 'tree', f'{what} removed {d}')
    before = {} if clean else {k: v for k, v in t.items() if isout(k)}
    after = {k: v for k, v in n.items() if isout(k)}
    if op == 'runbad':
        require(st != 0, 'status', f'{what} reported success')
        diff({k: v for k, v in before.items() if v is not None}, {k: v for k, v in after.items() if v is not None}, what)
        return n
    require(st == 0, 'status', f'{what}: {txt[-500:]}')
    if op.startswith('clean'):
        require(not after, 'not-cleaned', f'{what} left {sorted(after)[:6]}')
        return n
    if root == 'other':
        fresh = {root + '/' + k: v for k, v in REF['other', op[3].lower()].items()}
    else:
        fresh = expected_template(t, after)
    for k, v in fresh.items():
        require(k in after, 'result-missing', f'{what}: {k} missing')
        require(v is None or cli.same_text(v, after[k]), 'result-content', f'{what}: {k} differs from a run in a fresh project:\n{after[k][:300]}')
    for k, v in after.items():
        if v is not None and k not in fresh:
            require(k in before and before[k] == v, 'result-extra', f'{what}: unexpected {k}')
    for k in before:
        require(k in after, 'removed-without-clean', f'{what} removed {k}')
        require(before[k] == after[k] or k in fresh, 'overwritten', f'{what} changed {k}')
    return n


_tref = {}


def expected_template(t, after):
    """results of the generated project: those of a fresh copy of its inputs"""
    inp = {k[len('pytornado/'):]: v for k, v in t.items() if k.startswith('pytornado/') and k.split('/')[1] in ('aircraft', 'state', 'settings', 'airfoils') and v is not None}
    kk = key(inp)
    if kk not in _tref:
        def ref():
            root = proj.fresh_dir()
            for rel, v in inp.items():
                proj._put(os.path.join(root, rel), v.decode())
            proj.run(os.path.join(root, 'settings', pname(t) + '.json'))
            o = outputs(normal(proj.tree(root)))
            proj.rmtree(root)
            return o
        _tref[kk] = proj.unwrap(proj.isolated(ref))
    return {'pytornado/' + k: v for k, v in _tref[kk].items()}


# The search itself runs in the main process, level by level; each level's transitions are the cases of one parallel sweep.
def cases(ctx):
    b = bounds(ctx)
    out, nodes = [], 0
    seen = set()
    level = []
    for name, t in initials().items():
        seen.add(key(t))
        level.append(((name,), t))
    tot = {'states': len(level), 'transitions': 0}
    fails = []
    for depth in range(b['depth']):
        work = []
        for path, t in level:
            for op in OPS:
                if enabled(t, op):
                    work.append((path + (op,), t, op))
        res = parallel(work, ctx.workers)
        level = []
        for (path, t, op), r in zip(work, res):
            tot['transitions'] += 1
            if r[0] == 'fail':
                fails.append({'path': list(path), 'fail': [r[1], r[2]]})
                continue
            k = key(r[1])
            if k not in seen:
                seen.add(k)
                tot['states'] += 1
                level.append((path, r[1]))
        if not level or len(fails) > 5:
            break
    closed = not level
    _tot.update(tot, reached_closure=closed, depth_reached=depth + 1)
    # one case per failing history (re-executed from its initial directory) and one that carries the totals
    out = [((0, i), {'path': f['path']}) for i, f in enumerate(fails)]
    out.append(((1,), {'path': ['other', 'runA', 'U:foreign', 'runB', 'cleanA', 'make'], 'totals': tot}))
    return out, tot['transitions'], False


_tot = {}


def parallel(work, workers):
    """-> [('ok', tree) | ('fail', sig, msg)]"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    with ctx.Pool(workers) as pool:
        return pool.map(_one, [(t, op) for _, t, op in work], chunksize=4)


def _one(a):
    try:
        return 'ok', step(*a)
    except Fail as e:
        return 'fail', e.sig, str(e.msg)
    except MemoryError:
        raise
    except Exception:
        import traceback
        return 'fail', 'unexpected', traceback.format_exc()[-1500:]


def run_case(case):
    t = initials()[case['path'][0]]
    for op in case['path'][1:]:
        t = step(t, op)
    tot = case.get('totals', {'states': 0, 'transitions': 0})
    return sorted(t), {'states': tot['states'], 'transitions': tot['transitions'], 'traces': tot['transitions']}
