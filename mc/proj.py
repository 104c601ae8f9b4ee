"""Project layer: writes project directories (own writer, plain json) and runs real analyses in them."""
import json
import os
import pickle
import shutil
import sys
import traceback

import numpy as np

from mc import pt, stage
from mc.explore import Fail
from mc.pt import P

_n = [0]


def fresh_dir(tag='p'):
    _n[0] += 1
    d = os.path.join(stage.scratch_root(), 'w', f'{tag}{os.getpid()}-{_n[0]}')
    os.makedirs(d)
    return d


def rmtree(d):
    assert os.path.realpath(d).startswith(os.path.realpath(stage.scratch_root()) + os.sep)
    shutil.rmtree(d, ignore_errors=True)


def aircraft_dict(spec):
    out = {'uid': spec.get('uid', 'ac'), 'refs': dict(spec.get('refs') or pt.REFS), 'wings': []}
    for w in spec['wings']:
        we = {'uid': w['uid'], 'symmetry': w['sym'], 'segments': [], 'controls': []}
        for s in w['segs']:
            we['segments'].append({'uid': s['uid'], 'vertices': dict(s['v']), **({'geometry': dict(s['geo'])} if s.get('geo') else {}),
                                   'airfoils': {'inner': s['af'][0], 'outer': s['af'][1]}, 'panels': {'num_c': s['nc'], 'num_s': s['ns']}})
        for c in w['ctrls']:
            we['controls'].append({
                'uid': c['uid'], 'device_type': c['kind'], 'deflection': c['defl'], 'deflection_mirror': c['deflm'],
                'segment_uid': {'inner': c['si'], 'outer': c['so']},
                'rel_vertices': {'eta_inner': c['ei'], 'eta_outer': c['eo'], 'xsi_inner': c['xi'], 'xsi_outer': c['xo']},
                'rel_hinge_vertices': {'xsi_inner': c['hi'], 'xsi_outer': c['ho']}, 'panels': {'num_c': c['nc']}})
        out['wings'].append(we)
    return out


def state_dict(states):
    full = [dict(pt.STATE, **s) for s in states]
    aero = {k: [s[k] for s in full] for k in full[0]}
    return {'aero': aero}


SAVE_ALL = {'global': True, 'panelwise': True, 'aeroperformance': True, 'matrix_system': True}


def write_project(root, spec, states, settings=None, name='proj', deformation=None, files=None):
    """-> path of the settings file"""
    put = lambda rel, obj: _put(os.path.join(root, rel), obj)
    put('aircraft/ac.json', spec if 'refs' in spec and 'segments' in json.dumps(spec) else aircraft_dict(spec))
    put('state/st.json', states if isinstance(states, dict) else state_dict(states))
    s = {'aircraft': 'ac.json', 'state': 'st.json', 'save_results': dict(SAVE_ALL)}
    s.update(settings or {})
    if deformation is not None:
        s['deformation'] = 'def.json'
        put('deformation/def.json', deformation)
    for rel, txt in (files or {}).items():
        put(rel, txt)
    put(f'settings/{name}.json', s)
    return os.path.join(root, 'settings', f'{name}.json')


def _put(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as fp:
        if isinstance(obj, str):
            fp.write(obj)
        else:
            json.dump(obj, fp)


def run(settings_file, **kw):
    import pytornado.stdfun.run as stdrun
    return stdrun.standard_run(stdrun.StdRunArgs(run=settings_file, quiet=True, **kw))


APM = ['Fx', 'Fy', 'Fz', 'FD', 'FC', 'FL', 'Mx', 'My', 'Mz', 'Cx', 'Cy', 'Cz', 'CD', 'CC', 'CL', 'Cl', 'Cm', 'Cn']
LOADKEY = dict(zip(APM, ['x', 'y', 'z', 'D', 'C', 'L', 'l', 'm', 'n']*2))


def tree(root, ignore=()):
    """{relative path: content bytes (files) or None (directories)}"""
    out = {}
    for dp, dn, fn in os.walk(root):
        rel = os.path.relpath(dp, root)
        for x in dn:
            p = os.path.normpath(os.path.join(rel, x))
            out[p] = ('link', os.readlink(os.path.join(dp, x))) if os.path.islink(os.path.join(dp, x)) else None
        for x in fn:
            p = os.path.normpath(os.path.join(rel, x))
            if p in ignore:
                continue
            f = os.path.join(dp, x)
            out[p] = ('link', os.readlink(f)) if os.path.islink(f) else open(f, 'rb').read()
    return out


def isolated(fn, *args):
    """Run fn(*args) in a forked child; -> ('ok', value) | ('fail', sig, msg) | ('exc', type name, text, code)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                res = ('ok', fn(*args))
            except Fail as e:
                res = ('fail', e.sig, str(e.msg))
            except BaseException as e:
                inside = any('/pytornado/' in f.filename for f in traceback.extract_tb(e.__traceback__))
                res = ('exc', type(e).__name__, traceback.format_exc()[-2500:], getattr(e, 'code', None), inside)
            b = pickle.dumps(res)
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not buf or os.WIFSIGNALED(st):
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == 9:
            raise MemoryError('child killed')
        raise Fail('crash', f'process died with status {st}')
    return pickle.loads(buf)


def unwrap(res):
    if res[0] == 'ok':
        return res[1]
    if res[0] == 'fail':
        raise Fail(res[1], res[2])
    if res[1] == 'MemoryError':
        raise MemoryError(res[2])
    if not res[4] and res[1] != 'SystemExit':
        raise AssertionError('harness: ' + res[2])
    raise Fail('exception-' + res[1], res[2])
