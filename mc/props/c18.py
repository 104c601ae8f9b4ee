"""C18: the command line performs exactly the requested action."""
import itertools
import json
import os

from mc import pt, gen, explore, proj, cli
from mc.pt import P, require
from mc.props import c15

LEVEL = 'exploration'
RULE = ('every set of up to `size` command-line options from the alphabet (every action with valid, invalid and missing operand, verbosity flags, cleaning flags, unknown options, stray arguments; long and short spellings), '
        'in every order for the sizes stated, executed by the real command line in a fresh project directory; exit status, directory tree and output compared with an independent model of the option grammar. '
        'Every single option also in a real process. Distinct by option set, order and outcome.')
ASSUMPTIONS = ['CPACS libraries are not installed, so a conversion must be refused without touching files (conversion itself: C20)']
STALL = 300

# name -> (argv, role)
OPT = {
    'run': (['--run', 'other/settings/a.json'], 'run'), 'r': (['-r', 'other/settings/b.json'], 'run'), 'run=': (['--run=other/settings/b.json'], 'run'),
    'run-missing': (['-r', 'other/settings/none.json'], 'badrun'), 'run-dir': (['-r', 'other'], 'badrun'), 'run-noarg': (['--run'], 'noarg'),
    'make': (['--make-example'], 'make'), 'ldb': (['--list-example-from-db'], 'ldb'), 'ldb2': (['--ldb'], 'ldb'),
    'mdb': (['--mdb', 'd150'], 'mdb'), 'mdb.json': (['--make-example-from-db', 'some/where/optimale.json'], 'mdb'), 'mdb-unknown': (['--mdb', 'nosuch'], 'badmdb'), 'mdb-noarg': (['--mdb'], 'noarg'),
    'cpacs': (['--cpacs2json', 'other/aircraft/ac.json'], 'cpacs'), 'cpacs-missing': (['--cpacs2json', 'nothere.xml'], 'cpacs'),
    'v': (['-v'], 'verb'), 'debug': (['--debug'], 'verb'), 'q': (['-q'], 'verb'),
    'c': (['-c'], 'clean'), 'clean-only': (['--clean-only'], 'cleanonly'),
    'unknown': (['--frobnicate'], 'bad'), 'short-unknown': (['-x'], 'bad'), 'stray': (['stray'], 'bad'), 'help': (['--help'], 'help'),
}
ACTIONS = ('run', 'badrun', 'make', 'ldb', 'mdb', 'badmdb', 'cpacs')


def prepare(ctx):
    c15.prepare(ctx)


def bounds(ctx):
    return {'size': 4 if ctx.thorough else 3, 'orders': 'all' if ctx.thorough else 'all up to size 2, given and reversed for size 3', 'options': len(OPT)}


def cases(ctx):
    out, n = [], 0
    for size in range(0, bounds(ctx)['size'] + 1):
        for s in itertools.combinations(OPT, size):
            orders = list(itertools.permutations(s)) if size < 3 or ctx.thorough and size == 3 else [s, s[::-1]]
            for o in orders:
                n += 1
                # operands that consume the next option are ambiguous: an option without its operand comes last
                if any(OPT[x][1] == 'noarg' for x in o[:-1]) and not all(OPT[x][0][0].startswith('-') for x in o):
                    continue
                out.append(((size, n), {'opts': list(o)}))
    # conformance of the in-process execution: the same in a real process
    for o in OPT:
        n += 1
        out.append(((9, n), {'opts': [o], 'process': True}))
    out.append(((9, n + 1), {'opts': ['r', 'v', 'c'], 'process': True}))
    return out, n + 1, False


def process(argv, box):
    import subprocess
    import sys
    r = subprocess.run([sys.executable, P.exe] + argv, cwd=box, env=dict(os.environ, PYTHONPATH=P.lib), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=250)
    return r.returncode, r.stdout, None


def model(opts):
    """-> (kind, detail): refused | help | ldb | make | mdb | run | cleanonly"""
    roles = [OPT[o][1] for o in opts]
    # arguments are read from left to right: help ends the reading
    actions = set()
    verb, clean = set(), set()
    for o, r in zip(opts, roles):
        if r == 'noarg':
            return 'refused', None
        if r in ACTIONS:
            # repeating the same action with another operand is the same option again
            fam = {'badrun': 'run', 'badmdb': 'mdb'}.get(r, r)
            actions.add(fam)
        if r == 'verb':
            verb.add(o)
        if r in ('clean', 'cleanonly'):
            clean.add(r)
        if len(actions) > 1 or len(verb) > 1 or len(clean) > 1:
            return 'refused', None
        if r == 'help':
            return 'help', None
    if 'bad' in roles:
        return 'refused', None
    runs = [o for o, r in zip(opts, roles) if r in ('run', 'badrun')]
    mdbs = [o for o, r in zip(opts, roles) if r in ('mdb', 'badmdb')]
    if clean and not runs:
        return 'refused', None
    if runs:
        o = runs[-1]
        if OPT[o][1] == 'badrun':
            return 'refused', None
        return ('cleanonly' if 'cleanonly' in clean else 'runclean' if 'clean' in clean else 'run'), ('a' if o == 'run' else 'b')
    if mdbs:
        return ('refused', None) if OPT[mdbs[-1]][1] == 'badmdb' else ('mdb', 'd150' if mdbs[-1] == 'mdb' else 'optimale')
    if 'cpacs' in roles:
        return 'refused', None
    if 'make' in roles:
        return 'make', None
    if 'ldb' in roles:
        return 'ldb', None
    return 'help', None


def run_case(case):
    opts = case['opts']
    roles = [OPT[o][1] for o in opts]
    kind, arg = model(opts)
    argv = [a for o in opts for a in OPT[o][0]]
    files = c15.full({k: v.encode() for k, v in c15.other_project().items()})
    files.update(c15.full({k: k.encode() for k in c15.DEEP}))
    top = proj.fresh_dir('c18')
    box = os.path.join(top, 'box')
    os.makedirs(box)
    try:
        c15.restore(files, box)
        st, txt, exc = process(argv, box) if case.get('process') else cli.run(argv, box, box)
        t = c15.normal(proj.tree(box))
        what = f'{argv} (status {st}, {exc}) expected: {kind}'
        if kind == 'refused':
            require(st != 0, 'not-refused', f'{what}\n{txt[-300:]}')
            c15.diff(files, t, what)
        elif kind in ('help', 'ldb'):
            require(st == 0, 'status', f'{what}\n{txt[-300:]}')
            c15.diff(files, t, what)
            require('usage' in txt if kind == 'help' else 'd150' in txt and 'optimale' in txt, 'output', f'{what}\n{txt[:300]}')
        elif kind in ('make', 'mdb'):
            require(st == 0, 'status', f'{what}\n{txt[-300:]}')
            c15.diff(files, t, what, lambda k: k == 'pytornado' or k.startswith('pytornado/'))
            a, p = (arg, arg) if arg else ('template_aircraft', 'template')
            got = {k for k, v in t.items() if k.startswith('pytornado/') and v is not None}
            require(got == {f'pytornado/aircraft/{a}.json', f'pytornado/settings/{p}.json', f'pytornado/state/{p}.json'}, 'template-files', f'{what}: {sorted(got)}')
        else:
            op = {'run': 'run', 'runclean': 'run', 'cleanonly': 'clean'}[kind] + arg.upper() + ('c' if kind == 'runclean' else '')
            if op == 'cleanB':
                op = 'cleanA'
            c15.project_command(files, t, op, 'other', st, txt, what)
    finally:
        proj.rmtree(top)
    return [kind, arg, sorted(roles)]
