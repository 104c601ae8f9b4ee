"""C23: the numerical kernels stay inside their arrays and leave inputs unchanged."""
import json
import os
import subprocess
import sys

from mc import pt, gen, explore, stage, proj
from mc.pt import P, require
from mc.explore import Fail, Prune

LEVEL = 'exploration'
RULE = ('every lattice with up to `panels` panels from the mesh alphabet (panel counts, symmetry, segments, controls, second wing) x flight states, run through the real pipeline built four ways: as installed, with address and '
        'undefined-behaviour sanitizers (every access of the kernels to every buffer is checked), and twice with all uninitialised stack and heap memory filled with different patterns. Every stage is called twice; '
        'everything else that the process holds is compared before and after each call. Distinct by results.')
ASSUMPTIONS = ['accesses are checked at the granularity of the address sanitizer; uninitialised reads are detected by their effect on results',
               'the linear solver is the external LAPACK']
STALL = 400
VARIANTS = {'plain': ((), {}), 'asan': (('-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'), {}),
            'zero': (('-ftrivial-auto-var-init=zero',), {'MALLOC_PERTURB_': '0'}), 'pattern': (('-ftrivial-auto-var-init=pattern',), {'MALLOC_PERTURB_': '91'})}


def prepare(ctx):
    for v, (flags, _) in VARIANTS.items():
        LIB[v] = stage.stage(activate=False, extra=flags, name='src_' + v)


LIB = {}
CHUNK = 40


def bounds(ctx):
    return {'panels': 40 if ctx.thorough else 12, 'deviations': 4 if ctx.thorough else 3, 'builds': list(VARIANTS), 'calls': 2}


def driver(ch, limit):
    w = gen.pick_wing(ch, 'w', syms=(2, 0, 1, 3), nsegs=(1, 2, 3), ncs=(1, 2, 3, 4, 5, 7), nss=(1, 2, 3, 4, 5, 7), quads=('tapered', 'twisted'), lays=('none', 'flap', 'slat', 'bothsame', 'span2', 'twoflaps'),
                      airfoils=(('NACA0000', 'NACA0000'), ('NACA2412', 'NACA0012')), conts=('straight',))
    for c in w['ctrls']:
        c['defl'], c['deflm'] = 6.0, -3.0
    wings = [w]
    e = ch.pick('extra', ('none', 'fin', 'tail', 'xy'))
    if gen.EXTRA[e]:
        wings.append(gen.extra_wing(e))
    st = ch.pick('state', ({}, {'alpha': -5.0, 'beta': 4.0, 'rate_P': 0.3, 'rate_Q': 0.2, 'rate_R': -0.1}, {'airspeed': 0.0}))
    n = sum((2 if x['sym'] else 1)*sum(s['nc']*s['ns'] for s in x['segs']) for x in wings)
    if n > limit:
        raise Prune()
    return {'wings': wings, 'state': st, 'refs': dict(pt.REFS)}


def cases(ctx):
    b = bounds(ctx)
    cs, nodes, capped = explore.enumerate_cases(lambda ch: driver(ch, b['panels']), bound=b['deviations'])
    cs = [c for _, c in explore.dedupe(cs)]
    return [((i,), {'chunk': cs[i:i + CHUNK]}) for i in range(0, len(cs), CHUNK)], nodes, capped


def run_variant(v, f, out):
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', **VARIANTS[v][1])
    env.pop('MALLOC_PERTURB_', None) if v in ('plain', 'asan') else None
    if v == 'asan':
        lib = subprocess.run(['g++', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
        ub = subprocess.run(['g++', '-print-file-name=libubsan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
        env['LD_PRELOAD'] = lib + ' ' + ub
        env['ASAN_OPTIONS'] = 'detect_leaks=0,abort_on_error=0,allocator_may_return_null=1,halt_on_error=1'
    child = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'c23child.py')
    return subprocess.run([sys.executable, child, LIB[v], f, out], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=350)


def run_case(case):
    d = proj.fresh_dir('c23')
    try:
        f = os.path.join(d, 'cases.json')
        json.dump(case['chunk'], open(f, 'w'))
        res = {}
        for v in VARIANTS:
            out = os.path.join(d, v + '.json')
            r = run_variant(v, f, out)
            if r.returncode:
                k = max([int(x.split()[1]) for x in r.stderr.splitlines() if x.startswith('case ')] or [0])
                tail = '\n'.join(x for x in r.stderr.splitlines() if not x.startswith('case '))
                if 'MemoryError' in tail or r.returncode == -9:
                    raise MemoryError(tail[-300:])
                i = max(tail.find('ERROR: AddressSanitizer'), tail.find('runtime error'))
                require('AddressSanitizer' not in tail and 'runtime error' not in tail, 'invalid-access', lambda: f'case {case["chunk"][k]}\n{tail[max(0, i - 200):i + 1500]}')
                raise Fail('crash', f'build {v}, status {r.returncode}, case {case["chunk"][k]}\n{tail[-1500:]}')
            res[v] = json.load(open(out))
    finally:
        proj.rmtree(d)
    for k, c in enumerate(case['chunk']):
        for v in VARIANTS:
            require('bad' not in res[v][k], 'changed', lambda: f'build {v}: {res[v][k]["bad"]}: case {c}')
            require(v == 'asan' or json.dumps(res[v][k]) == json.dumps(res['plain'][k]), 'uninitialised', lambda: f'build {v}: other results in {[x for x in res[v][k] if res[v][k][x] != res["plain"][k][x]]}: case {c}')
            require(res[v][k]['panels'] == res['plain'][k]['panels'], 'panels', f'build {v}: case {c}')
    return explore.fingerprint([r['mesh'] + r['results'] for r in res['plain']]), {'lattices': len(case['chunk']), 'pipelines_executed': 4*len(case['chunk']), 'kernel_calls': 4*9*len(case['chunk'])}
