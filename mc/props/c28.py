"""C28: a project gives the same results wherever it lies and from wherever it is run."""
import copy
import json
import os

from mc import pt, gen, explore, proj, cli
from mc.pt import P, require
from mc.explore import Prune
from mc.props import c15

LEVEL = 'exploration'
RULE = ('every project (airfoil reference, deformation, flight states, saved plots) x name of its directory x name of its settings file x directory it is run from x way of writing the settings path x links used for input files x other '
        'projects and files of the same names around it x sequence of commands, within `bound` departures of the default, executed by the real command line (and by the Python interface) in a process of its own. Everything below the scratch '
        'directory is compared before and after: results with those of a plainly placed copy run from its own root, nothing else created, changed or removed. Distinct by placement and results.')
ASSUMPTIONS = ['text of log files is not compared', 'plot files compared by number and name without time stamp', 'numbers of result files compared at 1e-6',
               'a settings file that is itself a link is not decided (the project directory would be that of its target)']
STALL = 300

DIRS = ('proj', 'my project', 'p.v2.json', 'settings', 'airfoils', '_results', 'übung-ß', "o'neil [1]* 100%s", '-r', '~', '$HOME', 'a/b/c', 'settings/inner', 'x/settings/settings', 'proj/', 'ac.json', 'blade.x', 'NACA2412', '{x}', '{counter}')
NAMES = ('run.json', 'my run.json', 'run', 'run.v2.json', 'Ä.json', 'settings.json', 'run.JSON', '-c.json', '100%d.json', '{x}.json')
BRACES = ('{x}', '{counter}', '{x}.json')
CWDS = ('project', 'parent', 'settings', 'elsewhere', 'results', '/', 'linked', 'other project')
FORMS = ('relative', 'absolute', './', 'dots', 'double', 'link', 'dotdot link')
FOILS = ('NACA2412', 'naca4412', 'airfoils/w.dat', 'airfoils/sub/w.dat', '{root}/airfoils/w.dat', './airfoils/w.dat', 'foils/w.dat', '../shared/w.dat', '{box}/shared/w.dat', 'NACA2412.dat', 'naca/w.dat', 'w')
COMMANDS = ('run', 'run -c', 'clean-only', 'run run', 'api str', 'api Path')
AROUND = ('nothing', 'project in cwd', 'results in cwd', 'foils in cwd', 'project in parent')


def foil(k):
    out = ['foil %g' % k]
    xs = (1.0, 0.75, 0.5, 0.25, 0.1, 0.0)
    t = lambda x: 0.15*(x*(1 - x))**0.5
    out += ['%.6f %.6f' % (x, t(x) + k*x*(1 - x)) for x in xs]
    out += ['%.6f %.6f' % (x, -t(x) + k*x*(1 - x)) for x in xs[-2::-1]]
    return '\n'.join(out) + '\n'


def spec(af, defl=5.0):
    return {'wings': [pt.wing('w', 2, [pt.seg('s', *gen.quad('tapered'), nc=2, ns=3, af=(af, af))], [pt.ctrl('f', 'flap', 's', 's', 0.3, 0.7, 0.7, 0.7, defl=defl, deflm=-2.0)])]}


def inputs(c, root, box):
    """files of the project {relative path: content}"""
    af = c['foil'].format(root=root, box=box)
    f = {'aircraft/ac.json': json.dumps(proj.aircraft_dict(spec(af))),
         'state/st.json': json.dumps(proj.state_dict([{}, {'alpha': 5.0, 'beta': -2.0}] if c['states'] == 2 else [{}])),
         'airfoils/w.dat': foil(0.2), 'airfoils/sub/w.dat': foil(0.12), 'foils/w.dat': foil(0.3), 'NACA2412.dat': foil(0.25), 'naca/w.dat': foil(0.15), 'w': foil(0.05)}
    s = {'aircraft': 'ac.json', 'state': 'st.json', 'save_results': dict(proj.SAVE_ALL)}
    if c['plot']:
        s['plot'] = {'lattice': {'save': True}}
    if c['deform']:
        s['deformation'] = 'def.json'
        f['deformation/def.json'] = json.dumps({'w': [[x, y, z, 0.01*y, 0.02*y, 0.05*y*y, 0, 0, 0] for x, y, z in [(0.5, 0, 0), (0.6, 1, 0.1), (0.7, 2, 0.2), (0.8, 2.5, 0.3)]]})
    f['settings/' + c['name']] = json.dumps(s)
    return f


SHARED = {'shared/w.dat': foil(0.08)}


def prepare(ctx):
    pt.load()
    import pytornado.fileio as io
    import matplotlib.pyplot    # noqa: once, before forking
    import pytornado.stdfun.run   # noqa
    P.io = io
    cli.load()


def bounds(ctx):
    return {'bound': 3 if ctx.thorough else 2, 'directories': len(DIRS), 'settings_names': len(NAMES), 'working_directories': len(CWDS), 'path_forms': len(FORMS), 'airfoil_references': len(FOILS), 'commands': len(COMMANDS)}


def driver(ch):
    c = {'dir': ch.pick('dir', DIRS), 'cwd': ch.pick('cwd', CWDS), 'form': ch.pick('form', FORMS), 'foil': ch.pick('foil', FOILS), 'around': ch.pick('around', AROUND),
         'name': ch.pick('name', NAMES), 'command': ch.pick('command', COMMANDS), 'links': ch.pick('links', ('none', 'aircraft', 'state', 'airfoils dir', 'aircraft dir', 'deformation')),
         'deform': ch.pick('deform', (False, True)), 'states': ch.pick('states', (1, 2)), 'plot': ch.pick('plot', (False, True))}
    if c['dir'] in BRACES or c['name'] in BRACES:
        d = dict(DEFAULT, dir=c['dir'], name=c['name'])
        if c != d or c['dir'] in BRACES and c['name'] != DEFAULT['name'] or c['name'] in BRACES and c['dir'] != DEFAULT['dir']:
            raise Prune()   # one case each
    if c['links'] == 'deformation' and not c['deform']:
        raise Prune()
    if c['around'] != 'nothing' and 'cwd' in c['around'] and c['cwd'] in ('/', 'project', 'linked', 'other project'):
        if c['around'] != 'foils in cwd' or c['cwd'] == '/':
            raise Prune()
    if c['cwd'] == 'results' and c['command'] == 'run -c':
        raise Prune()       # removes the directory it is run from
    return c


DEFAULT = {'dir': 'proj', 'cwd': 'project', 'form': 'relative', 'foil': 'NACA2412', 'around': 'nothing', 'name': 'run.json', 'command': 'run', 'links': 'none', 'deform': False, 'states': 1, 'plot': False}


def cases(ctx):
    cs, nodes, capped = explore.enumerate_cases(driver, bound=bounds(ctx)['bound'])
    seen, out = set(), []
    for ch, c in cs:
        out.append((ch, c))
    if not ctx.thorough:
        # airfoil files, directory and surroundings together, always
        for d in ('proj', 'settings'):
            for cwd in CWDS:
                for f in FOILS:
                    for a in AROUND:
                        c = dict(DEFAULT, dir=d, cwd=cwd, foil=f, around=a)
                        if 'cwd' in a and cwd in ('/', 'project', 'linked', 'other project') and (a != 'foils in cwd' or cwd == '/'):
                            continue
                        out.append(((7, d, cwd, f, a), c))
                        nodes += 1
    uniq = []
    for ch, c in out:
        k = explore.fingerprint(c)
        if k not in seen:
            seen.add(k)
            uniq.append((ch, c))
    return uniq, nodes, capped


def put(root, files):
    for rel, txt in files.items():
        proj._put(os.path.join(root, rel), txt)


_base = {}


def baseline(c):
    """results of a copy in a plain place, run from its own root"""
    k = (c['foil'], c['deform'], c['states'], c['plot'])
    if k not in _base:
        top = proj.fresh_dir('c28b')
        try:
            root = os.path.join(top, 'box', 'plain')
            cc = dict(c, name='run.json')
            # the airfoil by its absolute path
            f = inputs(cc, root, os.path.join(top, 'box'))
            cc['foil'] = where(c['foil'], root, os.path.join(top, 'box'))
            f['aircraft/ac.json'] = inputs(cc, root, os.path.join(top, 'box'))['aircraft/ac.json']
            put(root, f)
            put(os.path.join(top, 'box'), SHARED)
            st, txt, exc = cli.run(['-q', '-r', 'settings/run.json'], root, os.path.join(top, 'box'))
            require(st == 0, 'not-run', f'plain project with {cc["foil"]}: status {st} ({exc}) {txt[-400:]}')
            _base[k] = {a: v for a, v in c15.normal(proj.tree(root)).items() if a.split('/')[0] in ('_results', '_plots') and v is not None}
        finally:
            proj.rmtree(top)
    return _base[k]


def where(af, root, box):
    """absolute path of an airfoil file, as documented: relative paths refer to the project directory"""
    af = af.format(root=root, box=box)
    return af if af.upper() in ('NACA2412', 'NACA4412') else os.path.normpath(os.path.join(root, af))


def settings_path(c, root, cwd, box):
    p = os.path.join(root, 'settings', c['name'])
    rel = os.path.relpath(p, cwd)
    if not os.path.exists(os.path.join(cwd, rel)):
        rel = p
    f = c['form']
    if f == 'absolute':
        return p
    if f == './':
        return './' + rel if not rel.startswith('/') else '/.' + rel
    if f == 'dots':
        return os.path.join(os.path.dirname(p), '..', 'state', '..', 'settings', c['name'])
    if f == 'double':
        return p.replace('/settings/', '//settings///')
    if f == 'link':
        os.symlink(root, os.path.join(box, 'link to it'))
        return os.path.join(box, 'link to it', 'settings', c['name'])
    if f == 'dotdot link':
        os.symlink(os.path.join(root, 'settings'), os.path.join(box, 'sl'))
        return os.path.join(box, 'sl', '..', 'settings', c['name'])
    return rel


def api(path):
    import pytornado.stdfun.run as stdrun
    stdrun.standard_run(stdrun.StdRunArgs(run=path, quiet=True))


def allowed(k, pr):
    """may a run create or change this?"""
    return k in {os.path.join(pr, d) for d in c15.STD} or k == os.path.join(pr, 'log.txt') or k.startswith((os.path.join(pr, '_results/'), os.path.join(pr, '_plots/')))


def run_case(c):
    top = proj.fresh_dir('c28')
    box = os.path.join(top, 'box')
    os.makedirs(box)
    try:
        root = os.path.join(box, 'work', c['dir']).rstrip('/')
        put(root, inputs(c, root, box))
        put(box, SHARED)
        if c['foil'] == '../shared/w.dat':
            put(os.path.join(root, '..'), SHARED)
        os.makedirs(os.path.join(root, '_results'))
        links(c, root, box)
        other = os.path.join(box, 'other')
        decoy = {k: v for k, v in inputs(dict(DEFAULT, name=c['name'], foil='NACA0012', deform=True, states=2), other, box).items()}
        decoy.update({'airfoils/w.dat': foil(-0.1), 'airfoils/sub/w.dat': foil(-0.1), 'foils/w.dat': foil(-0.1), '../shared/w.dat': foil(-0.1)})
        cwd = {'project': root, 'parent': os.path.dirname(root), 'settings': os.path.join(root, 'settings'), 'elsewhere': os.path.join(box, 'else', 'where'), 'results': os.path.join(root, '_results'),
               '/': '/', 'linked': os.path.join(box, 'linked cwd'), 'other project': other}[c['cwd']]
        if c['cwd'] == 'linked':
            os.symlink(root, cwd)
        elif cwd != '/':
            os.makedirs(cwd, exist_ok=True)
        if c['cwd'] == 'other project':
            put(other, {k: v for k, v in decoy.items() if not k.startswith('..')})
        a = c['around']
        if a == 'project in cwd' or a == 'project in parent':
            d = cwd if 'cwd' in a else os.path.dirname(root)
            for k, v in decoy.items():
                p = os.path.normpath(os.path.join(d, k))
                if not os.path.lexists(p):
                    proj._put(p, v)
        elif a == 'results in cwd':
            put(cwd, {'_results/run_000/global.json': 'x', '_plots/a.png': 'x', '_results/old.txt': 'x', 'log.txt': 'mine'})
        elif a == 'foils in cwd':
            for k, v in {'NACA2412': foil(-0.1), 'naca4412': foil(-0.1), 'NACA4412': foil(-0.1), 'w.dat': foil(-0.1), 'airfoils/w.dat': foil(-0.1), 'airfoils/sub/w.dat': foil(-0.1), 'foils/w.dat': foil(-0.1), 'shared/w.dat': foil(-0.1), 'NACA2412.dat': foil(-0.1), 'naca/w.dat': foil(-0.1), 'w': foil(-0.1)}.items():
                if not os.path.lexists(os.path.join(cwd, k)):
                    proj._put(os.path.join(cwd, k), v)
        cleans = c['command'] in ('run -c', 'clean-only')
        old = {'_results/old.txt': 'old', '_plots/old_000/x.png': 'old'}
        put(root, old)
        return judge(c, root, cwd, box, cleans, old, top)
    finally:
        proj.rmtree(top)


def links(c, root, box):
    """input files that are links to a common store"""
    m = {'aircraft': 'aircraft/ac.json', 'state': 'state/st.json', 'airfoils dir': 'airfoils', 'aircraft dir': 'aircraft', 'deformation': 'deformation/def.json'}.get(c['links'])
    if m:
        store = os.path.join(box, 'store')
        os.makedirs(store)
        to = os.path.join(store, os.path.basename(m))
        os.rename(os.path.join(root, m), to)
        os.symlink(to, os.path.join(root, m))


def judge(c, root, cwd, box, cleans, old, top):
    sp = settings_path(c, root, cwd, box)
    before = proj.tree(box)
    pr = os.path.relpath(root, box)
    what = f'{c["command"]} on {sp!r} from {c["cwd"]} ({", ".join("%s=%s" % (k, v) for k, v in c.items() if v != DEFAULT[k])})'
    arg = sp if not sp.startswith('-') else './' + sp
    for cmd in {'run': ['-q'], 'run -c': ['-c'], 'clean-only': ['--clean-only'], 'run run': ['-q', '-v'], 'api str': [str], 'api Path': [None]}[c['command']]:
        if isinstance(cmd, str):
            st, txt, exc = cli.run([cmd, '-r', arg], cwd, box)
        else:
            import pathlib
            st, txt, exc = 0, '', None
            r = proj.isolated(api_child, (cmd or pathlib.Path)(sp), cwd, box)
            if r[0] == 'exc':
                st, txt, exc = 1, r[2], r[1]
            elif r[0] == 'fail':
                proj.unwrap(r)
        require(st == 0, 'not-run', f'{what}: status {st} ({exc}) {txt[-500:]}')
    after = proj.tree(box)
    out = (os.path.join(pr, '_results'), os.path.join(pr, '_plots'))
    for k in sorted(set(before) | set(after)):
        if before.get(k, 0) == after.get(k, 0):
            continue
        isold = k.startswith(tuple(o + '/' for o in out)) or k in out
        if k not in after:
            require(cleans and isold, 'removed', f'{what} removed {k}')
        else:
            require(allowed(k, pr), 'stray', f'{what} {"changed" if k in before else "created"} {k}')
            # inputs, also those that are links
            require(k not in before or isold and k.split('/')[-1] not in ('old.txt', 'x.png') or k.endswith('/log.txt') and k == os.path.join(pr, 'log.txt'), 'changed', f'{what} changed {k}')
    for k in old:
        require((os.path.join(pr, k) in after) != cleans, 'cleaning', f'{what}: {k} {"kept" if cleans else "removed"}')
    res = {k[len(pr) + 1:]: v for k, v in c15.normal(after).items() if v is not None and k.startswith(tuple(o + '/' for o in out)) and before.get(k) != v}
    if c['command'] == 'clean-only':
        require(not res, 'cleaning', f'{what} left {sorted(res)[:5]}')
        return [c['command'], c['dir'], c['cwd'], c['form'], c['around']]
    want = baseline(c)
    base = os.path.splitext(c['name'])[0]
    named = {rename(k, base): v for k, v in want.items()}
    require(set(res) == set(named), 'result-files', f'{what}: {sorted(set(res) ^ set(named))[:6]}')
    for k, v in named.items():
        require(k.startswith('_plots') or cli.same_text(v, res[k]), 'results', f'{what}: {k} differs from that of the plain project')
    return [c['dir'], c['cwd'], c['form'], c['around'], c['foil'], c['name'], c['links'], explore.fingerprint(sorted((k, v.decode(errors='replace')[:2000]) for k, v in res.items() if k.endswith('.json')))]


def api_child(path, cwd, box):
    os.chdir(cwd)
    cli.guard(box)
    api(path)


def rename(k, base):
    parts = k.split('/')
    if len(parts) > 1 and parts[1].startswith('run_'):
        parts[1] = base + parts[1][3:]
    return '/'.join(parts)
