"""Child process of C23: runs the pipeline of one build variant over a list of cases.
usage: c23child.py LIB CASES.json OUT.json"""
import hashlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
LIB = sys.argv[1]
sys.path.insert(0, LIB)

import logging  # noqa: E402
logging.disable(logging.CRITICAL)
from mc import stage  # noqa: E402
stage.stage = lambda *a, **k: LIB
from mc import pt  # noqa: E402
from mc.pt import P  # noqa: E402
import numpy as np  # noqa: E402

SKIP = (type(sys), type(len), type(lambda: 0), type)


def snap(x, seen=None):
    """content of an object and everything that belongs to it"""
    seen = {} if seen is None else seen
    h = hashlib.sha256()

    def go(x):
        if x is None or isinstance(x, (str, bytes, int, float, complex, np.number, np.bool_)):
            h.update(repr((type(x).__name__, x)).encode())
            return
        if id(x) in seen:
            h.update(b'ref%d' % seen[id(x)])
            return
        seen[id(x)] = len(seen)
        keep.append(x)
        if isinstance(x, np.ndarray):
            h.update(repr((x.shape, x.dtype.str)).encode() + (np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()).encode()))
        elif isinstance(x, dict):
            h.update(b'{')
            for k, v in x.items():
                go(k)
                go(v)
            h.update(b'}')
        elif isinstance(x, (list, tuple, set, frozenset)):
            h.update(b'[')
            for v in (x if not isinstance(x, (set, frozenset)) else sorted(x, key=repr)):
                go(v)
            h.update(b']')
        elif isinstance(x, range):
            h.update(repr(x).encode())
        elif isinstance(x, SKIP):
            h.update(getattr(x, '__name__', '').encode())
        elif hasattr(x, '__dict__'):
            h.update(type(x).__name__.encode())
            go(vars(x))
        else:
            h.update(type(x).__name__.encode())
    keep = []
    go(x)
    return h.hexdigest()


def arrays(lat):
    return {k: v for k, v in vars(lat).items() if isinstance(v, np.ndarray)}


def definition(ac):
    """what the user has defined"""
    return json.dumps([[w.uid, w.symmetry, [[s.uid, {k: np.asarray(v).tolist() for k, v in s.vertices.items()}, {k: v for k, v in s.geometry.items()}, dict(s.panels), [str(a) for a in s.airfoils.values()]]
                                            for s in w.segments.values()],
                        [[c.uid, c.deflection, c.deflection_mirror, dict(c.rel_vertices), dict(c.rel_hinge_vertices), dict(c.panels), dict(c.segment_uid), c.device_type] for c in w.controls.values()]]
                       for w in ac.wings.values()] + [{k: np.asarray(v).tolist() for k, v in ac.refs.items()}], default=float)


class Bad(Exception):
    pass


def one(case):
    ac = pt.make_aircraft({'wings': case['wings'], 'refs': case['refs']})
    st = pt.one_state(ac, case['state'])
    settings = pt.make_settings()
    d0, s0 = definition(ac), snap([vars(st), settings.settings])

    def unchanged(where, *pairs):
        for what, a, b in pairs:
            if a != b:
                raise Bad(f'{where} changed {what}')
    lat = pt.lattice_for(ac, st, settings)
    unchanged('mesh generation', ('the aircraft definition', d0, definition(ac)), ('the state or settings', s0, snap([vars(st), settings.settings])))
    m0 = snap(arrays(lat))
    lat2 = pt.lattice_for(ac, st, settings, fresh=False)
    unchanged('second mesh generation', ('the result', m0, snap(arrays(lat2))), ('the first mesh', m0, snap(arrays(lat))))
    vd = P.vs.VLMData()
    world = lambda: snap([ac, st, settings.settings, lat])
    w0 = world()
    out = {'mesh': m0, 'info': snap({k: float(v) for k, v in lat.info.items()})}
    done = {}

    def step(name, fn, result):
        prev = {k: snap(v()) for k, v in done.items()}
        for i in range(2):
            fn()
            unchanged(name, ('aircraft, state, settings or mesh', w0, world()), *[(k, v, snap(done[k]())) for k, v in prev.items()])
            r = snap(result())
            if i and r != first:
                raise Bad(f'{name}: called again with other result')
            first = r
        done[name] = result
        out[name] = first
    step('downwash', lambda: P.vlm.calc_downwash(lat, vd), lambda: vd.matrix_downwash)
    step('boundary', lambda: P.vlm.calc_boundary(lat, st, vd), lambda: vd.array_rhs)
    step('solver', lambda: P.vlm.solver(vd), lambda: vd.panelwise['gamma'])
    step('results', lambda: P.vlm.calc_results(lat, st, vd), lambda: [vd.panelwise[k] for k in sorted(vd.panelwise)] + [sorted(vd.forces.items()), sorted(vd.coeffs.items())])
    # a second lattice in between does not disturb the first one
    other = pt.make_aircraft({'wings': [pt.wing('o', 2, [pt.seg('s', (0, 0.5, 0), (0, 1, 0), (1, 1, 0), (1, 0.5, 0), nc=1, ns=1)])]})
    pt.solve(other, pt.one_state(other, {}), settings)
    unchanged('another analysis', ('aircraft, state, settings or mesh', w0, world()), *[(k, out[k], snap(v())) for k, v in done.items()])
    out['loads'] = [float(vd.coeffs[k]) for k in pt.FKEYS]
    out['panels'] = int(len(lat.p))
    return out


def main():
    P.lib = LIB
    pt.load()
    res = []
    for c in json.load(open(sys.argv[2])):
        print('case', len(res), file=sys.stderr, flush=True)
        try:
            res.append(one(c))
        except Bad as e:
            res.append({'bad': str(e)})
    json.dump(res, open(sys.argv[3], 'w'))


main()
