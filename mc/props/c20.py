"""C20: CPACS models are mapped completely and results return to the same map entries."""
import json
import os
import sys
import xml.etree.ElementTree as ET

import numpy as np

FAKE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fakecpacs')
sys.path.insert(0, FAKE)

from mc import pt, gen, explore, proj  # noqa: E402
from mc.pt import P, require, close  # noqa: E402
from mc.explore import Fail, Prune  # noqa: E402

LEVEL = 'exploration'
RULE = ('every CPACS document with up to `deviations` departures from a default (wings, symmetry, segments, sections given from inside out or from outside in, airfoils, leading- and trailing-edge devices, identifiers, deflections, '
        'reference values, aeroperformance maps with existing or missing result vectors, native or CPACS flight states, failing write-back) analysed directly and after conversion to the native format by the real '
        'conversion function, both compared with an aircraft file written independently from the same data; coefficients compared with those in the document. Distinct by document and states.')
ASSUMPTIONS = ['the external libraries TIXI and TIGL are replaced by stand-ins with their documented behaviour (they are not installed)', 'no device border lies exactly on a border between two segments',
               'coefficients are written with 6 significant digits (TIXI format %g)', 'side edges of devices run chordwise', 'correctness of native runs: C01 to C14']
STALL = 240


def prepare(ctx):
    pt.load()
    import tixi3.tixi3wrapper as tx
    import tigl3.tigl3wrapper as tg
    P.tx, P.tg = tx, tg
    import pytornado.stdfun.run   # noqa: F401
    import pytornado.stdfun.setup   # noqa: F401


def bounds(ctx):
    return {'deviations': 3} if ctx.thorough else {'deviations': 2, 'deviations_in_reduced_alphabet': 3}


SELF = {'name': 1}
AF = {
    'A12': (0.0, 0.0, 0.12), 'B24': (0.02, 0.4, 0.12), 'C.44 15': (0.04, 0.4, 0.15),
}


def airfoil_points(name):
    m, p, t = AF[name]
    n = 24
    x = 0.5*(1 - np.cos(np.pi*np.arange(n + 1)/n))
    yt = 5*t*(0.2969*np.sqrt(x) - 0.1260*x - 0.3516*x**2 + 0.2843*x**3 - 0.1036*x**4)
    yc = np.zeros_like(x)
    if m:
        yc = np.where(x < p, m/p**2*(2*p*x - x**2), m/(1 - p)**2*(1 - 2*p + 2*p*x - x**2))
    up, lo = np.c_[x, yc + yt][::-1], np.c_[x, yc - yt][1:]
    return np.round(np.vstack([up, lo]), 7)


def clean(s):
    return ''.join(c for c in s if c.isalnum() or c in '-_')


def driver(ch, full=True):
    r = (lambda xs, q: xs) if full else (lambda xs, q: q)
    names = ch.pick('uids', ('plain', 'dots', 'nosegwing'))
    comp = ch.pick('comp', ('one', 'each'))
    w = gen.pick_wing(ch, 'w', quads=r(('tapered', 'dihedral', 'swept', 'fin', 'pointed'), ('tapered', 'fin')), syms=r((2, 0, 1, 3), (2, 0)), nsegs=r((1, 2, 3), (2, 1, 3)), ncs=(None,), nss=(None,), conts=r(('straight', 'up'), ('straight',)),
                      airfoils=r((('A12', 'A12'), ('B24', 'A12'), ('C.44 15', 'B24')), (('B24', 'C.44 15'),)), lays=r(('none', 'flap', 'flaptaper', 'slat', 'both', 'bothsame', 'twoflaps', 'span2', 'span2taper', 'outer', 'border', 'span3'), ('none', 'flaptaper', 'both', 'span2taper', 'outer', 'border')))
    way = ch.pick('way', ('inout', 'left', 'down', 'outin', 'noise', 'fold', 'back'))
    if way == 'left' and (w['sym'] or w['segs'][0]['v']['a'][1] == w['segs'][0]['v']['b'][1]):
        raise Prune()
    if way in ('down', 'noise') and (w['sym'] or abs(w['segs'][-1]['v']['a'][1] - w['segs'][-1]['v']['b'][1]) > 0 or len({s['v'][k][1] for s in w['segs'] for k in 'abcd'}) > 1):
        raise Prune()
    if way == 'fold' and (len(w['segs']) < 2 or any(c['si'] != c['so'] for c in w['ctrls'])):
        raise Prune()
    if way == 'back' and (w['ctrls'] or any(s['v'][m][0] >= s['v'][n][0] for s in w['segs'] for m, n in ('ad', 'bc'))):
        raise Prune()
    if comp == 'each' and any(c['si'] != c['so'] for c in w['ctrls']):
        raise Prune()
    defl = ch.pick('defl', ('both', 'none', 'onlymain', 'partial', 'zeromirror', 'zeromain')) if w['ctrls'] else 'none'
    extra = ch.pick('extra', r(('none', 'fin', 'tail'), ('none', 'tail')))
    refs = ch.pick('refs', (0, 1))
    maps = ch.pick('maps', ('one', 'second', 'first'))
    nst = ch.pick('nst', r((2, 1, 3), (2, 1)))
    old = ch.pick('old', r(('none', 'all', 'some', 'longer'), ('none', 'some', 'longer')))
    state = ch.pick('state', ('cpacs', 'native'))
    fail = ch.pick('fail', r((0, 1, 3, 6), (0, 3))) if state == 'cpacs' else 0
    return {'names': names, 'comp': comp, 'wing': w, 'way': way, 'defl': defl, 'extra': extra, 'refs': refs, 'maps': maps, 'nst': nst, 'old': old, 'state': state, 'fail': fail}


def cases(ctx):
    b = bounds(ctx)
    cs, nodes, capped = explore.enumerate_cases(lambda ch: driver(ch, True), bound=b['deviations'])
    if not ctx.thorough:
        c2, n2, k2 = explore.enumerate_cases(lambda ch: driver(ch, False), bound=b['deviations'] + 1)
        cs, nodes, capped = cs + c2, nodes + n2, capped or k2
    return explore.dedupe(cs), nodes, capped


# ----------------------------------------------------------------------
def flipy(p):
    return [p[0], -p[1], p[2]]


def flipz(p):
    return [p[0], p[1], -p[2]]


def build(case):
    """-> list of wings as (uid, symmetry, [segments: uid, corners, airfoils], [controls]) in CPACS order, and the native description"""
    w = case['wing']
    mk = {'plain': lambda s: s, 'dots': lambda s: s[0] + '.' + s[1:] + ':x', 'nosegwing': lambda s: s}[case['names']]
    ctrls = [dict(c) for c in w['ctrls']]
    for i, c in enumerate(ctrls):
        c['defl'], c['deflm'] = {'both': (4.0 + i, -3.0 - i), 'none': (0.0, None), 'onlymain': (4.0 + i, None), 'zeromirror': (4.0 + i, 0.0), 'zeromain': (0.0, -3.0 - i), 'partial': (4.0, -2.0) if i == 0 else (0.0, None)}[case['defl']]
    t = {'left': flipy, 'down': flipz}.get(case['way'], lambda p: list(p))
    segs = [dict(s, v={k: t(p) for k, p in s['v'].items()}) for s in w['segs']]
    if case['way'] == 'outin':
        # the same wing, its sections listed from outside in
        segs = [dict(s, v=dict(zip('abcd', [s['v'][k] for k in 'badc'])), af=[s['af'][1], s['af'][0]]) for s in reversed(segs)]
        ctrls = [dict(c, si=c['so'], so=c['si'], ei=1 - c['eo'], eo=1 - c['ei'], xi=c['xo'], xo=c['xi'], hi=c['ho'], ho=c['hi']) for c in ctrls]
    if case['way'] == 'back':
        # sections run from the rear to the front
        segs = [dict(s, v=dict(zip('abcd', [s['v'][k] for k in 'dcba']))) for s in segs]
    if case['way'] == 'fold':
        # the outermost segment leads back inwards, above the others
        v = segs[-1]['v']
        sh = [0.1, -1.2, 0.9]
        segs[-1] = dict(segs[-1], v={'a': v['a'], 'd': v['d'], 'b': [x + y for x, y in zip(v['a'], sh)], 'c': [x + 0.9*y + 0.1*z for x, y, z in zip([p + q for p, q in zip(v['a'], sh)], [p - q for p, q in zip(v['d'], v['a'])], (0, 0, 0))]})
    cp = [{'uid': w['uid'], 'sym': w['sym'], 'segs': segs, 'ctrls': ctrls}]
    if case['extra'] != 'none':
        e = gen.extra_wing(case['extra'])
        for s in e['segs']:
            s['af'] = ['A12', 'A12']
        for c in e['ctrls']:
            if case['defl'] == 'none':
                c['defl'], c['deflm'] = 0.0, None
            elif case['defl'] == 'onlymain':
                c['deflm'] = None
        cp.append(e)
    # native description
    nat = []
    for x in cp:
        flip = [s['uid'] for s in x['segs'] if x is cp[0] and (case['way'] in ('left', 'down', 'outin') or case['way'] == 'fold' and s is x['segs'][-1])]
        ss = [dict(s, af=['airfoils/blade.' + clean(a) for a in s['af']], nc=None, ns=None) for s in x['segs']]
        cc = []
        for c in x['ctrls']:
            f = P.tg.seg_xsi
            if case['comp'] == 'one':      # TIGL: a border between segments belongs to the outer one
                us = [q['uid'] for q in x['segs']]
                for sk, ek in (('si', 'ei'), ('so', 'eo')):
                    if c[ek] == 1.0 and c[sk] != us[-1]:
                        c = dict(c, **{sk: us[us.index(c[sk]) + 1], ek: 0.0})
            cc.append(dict(c, xi=f(c['xi']), xo=f(c['xo']), hi=f(c['hi']), ho=f(c['ho']), nc=None))
        ss = [dict(s, v=dict(zip('abcd', [s['v'][k] for k in 'badc'])), af=s['af'][::-1]) if s['uid'] in flip else s for s in ss]
        cc = [dict(c, si=c['so'], so=c['si'], ei=1 - c['eo'], eo=1 - c['ei'], xi=c['xo'], xo=c['xi'], hi=c['ho'], ho=c['hi']) if c['si'] in flip else c for c in cc]
        if x is cp[0] and case['way'] == 'back':
            ss = [dict(s, v=dict(zip('abcd', [s['v'][k] for k in 'dcba']))) for s in ss]
        if len(flip) == len(ss):
            ss.reverse()
        nat.append({'uid': x['uid'], 'sym': x['sym'], 'segs': ss, 'ctrls': cc})
    return cp, nat, mk


REFS = [{'gcenter': [0.3, 0.0, 0.1], 'rcenter': [0.3, 0.0, 0.1], 'area': 4.0, 'chord': 1.25, 'span': 1.25},
        {'gcenter': [-1.0, 0.5, 0.75], 'rcenter': [-1.0, 0.5, 0.75], 'area': 7.5, 'chord': 2.5, 'span': 2.5}]
STATES = [(1000.0, 0.3, 2.0, 0.0), (0.0, 0.2, -3.0, 4.0), (8000.0, 0.55, 5.0, -1.0)]
COEF = {'cd': 'CD', 'cs': 'CC', 'cl': 'CL', 'cmd': 'Cl', 'cms': 'Cm', 'cml': 'Cn'}


def sub(e, tag, text=None, **attr):
    x = ET.SubElement(e, tag, attr)
    if text is not None:
        x.text = str(text)
    return x


def vec(v):
    return ';'.join(repr(float(x)) for x in v)


def write_cpacs(path, case, cp, mk):
    root = ET.Element('cpacs')
    veh = sub(root, 'vehicles')
    model = sub(sub(veh, 'aircraft'), 'model', uID='my ac.1')
    r = REFS[case['refs']]
    ref = sub(model, 'reference')
    sub(ref, 'area', r['area'])
    sub(ref, 'length', r['chord'])
    pnt = sub(ref, 'point')
    for k, v in zip('xyz', r['gcenter']):
        sub(pnt, k, v)
    wings = sub(model, 'wings')
    for iw, w in enumerate(cp):
        attr = {'uID': w['uid']} if not (case['names'] == 'nosegwing' and iw == 0) else {}
        if w['sym']:
            attr['symmetry'] = {1: 'x-y-plane', 2: 'x-z-plane', 3: 'y-z-plane'}[w['sym']]
        we = sub(wings, 'wing', **attr)
        sub(we, 'name', 'name of ' + w['uid'])
        ss = sub(we, 'segments')
        for k, s in enumerate(w['segs']):
            se = sub(ss, 'segment', uID=f"{w['uid']}_{mk(s['uid'])}", inner=s['af'][0], outer=s['af'][1])
            pts = [list(s['v'][x]) for x in 'abcd']
            if case['way'] == 'noise':
                for p, d in zip(pts, (1e-16, -1e-16, 2e-16, -1e-16)):
                    p[1] += d
            sub(se, 'geom', vec(np.ravel(pts)))
        cs = sub(we, 'componentSegments')
        n = len(w['segs'])
        groups = [(0, n)] if case['comp'] == 'one' else [(i, 1) for i in range(n)]
        pos = {s['uid']: k for k, s in enumerate(w['segs'])}
        for gi, (first, num) in enumerate(groups):
            ce = sub(cs, 'componentSegment', uID=f"{w['uid']}_comp{gi}", first=str(first), n=str(num))
            dev = sub(ce, 'controlSurfaces')
            lists = {}
            for c in w['ctrls']:
                if not first <= pos[c['si']] < first + num:
                    continue
                edge = 'trailing' if c['kind'] == 'flap' else 'leading'
                if edge not in lists:
                    lists[edge] = sub(dev, edge + 'EdgeDevices')
                d = sub(lists[edge], edge + 'EdgeDevice', uID=w['uid'] + '_' + c['uid'])
                sub(d, 'name', c['uid'])
                sh, pa = sub(d, 'outerShape'), sub(d, 'path')
                for b, s, e, x, h in (('inner', c['si'], c['ei'], c['xi'], c['hi']), ('outer', c['so'], c['eo'], c['xo'], c['ho'])):
                    eta = (pos[s] - first + e)/num
                    be = sub(sh, b + 'Border')
                    sub(sub(be, 'etaLE'), 'eta', repr(eta))
                    sub(sub(be, 'etaTE'), 'eta', repr(eta))
                    nm = 'xsiLE' if edge == 'trailing' else 'xsiTE'
                    sub(sub(be, nm), 'xsi', repr(x))
                    sub(sub(pa, b + 'HingePoint'), 'hingeXsi', repr(h))
    apm = sub(sub(model, 'analyses'), 'aeroPerformance')
    which = {'one': [1], 'single2': [1], 'second': [0, 1], 'first': [1, 0]}[case['maps']]
    for k, used in enumerate(which):
        am = sub(apm, 'aeroMap', uID=f'map{k}')
        sub(am, 'name', f'map {k}')
        m = sub(am, 'aeroPerformanceMap')
        st = STATES[:case['nst']] if used else [(500.0, 0.1, 1.0, 1.0)]
        for j, key in enumerate(('altitude', 'machNumber', 'angleOfAttack', 'angleOfSideslip')):
            sub(m, key, vec([s[j] for s in st]), mapType='vector')
        if case['old'] != 'none':
            for key in list(COEF)[:3 if case['old'] == 'some' else 6]:
                sub(m, key, vec([9.5]*(len(st) + (2 if case['old'] == 'longer' else 0))), mapType='vector')
    pr = sub(sub(veh, 'profiles'), 'wingAirfoils')
    for a in AF:
        ae = sub(pr, 'wingAirfoil', uID='uid' + clean(a))
        sub(ae, 'name', a)
        pts = airfoil_points(a)
        pl = sub(ae, 'pointList')
        sub(pl, 'x', vec(pts[:, 0]))
        sub(pl, 'y', vec(0*pts[:, 0]))
        sub(pl, 'z', vec(pts[:, 1]))
    ts = sub(sub(root, 'toolspecific'), 'pytornado')
    if len(which) > 1:
        sub(ts, 'aeroMapUID', f'map{which.index(1)}')
    if case['defl'] != 'none':
        cd = sub(ts, 'controlDevices')
        for iw, w in enumerate(cp):
            for i, c in enumerate(w['ctrls']):
                if case['defl'] == 'partial' and iw == 0 and i:
                    continue
                x = sub(cd, 'controlDevice', uID=w['uid'] + '_' + c['uid'])
                sub(x, 'deflection', c['defl'])
                if c['deflm'] is not None:
                    sub(x, 'deflectionMirror', c['deflm'])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    ET.ElementTree(root).write(path)
    return which.index(1)


SETT = {'vlm_autopanels_c': 2, 'vlm_autopanels_s': 3, 'save_results': {'global': False, 'panelwise': False, 'aeroperformance': False, 'matrix_system': False}}


def native_project(d, case, nat, mk):
    wings = []
    for w in nat:
        m = {s['uid']: clean(f"{w['uid']}_{mk(s['uid'])}") for s in w['segs']}
        wings.append(dict(w, segs=[dict(s, uid=m[s['uid']]) for s in w['segs']], ctrls=[dict(c, uid=w['uid'] + '_' + c['uid'], si=m[c['si']], so=m[c['so']]) for c in w['ctrls']]))
    if case['names'] == 'nosegwing':
        wings[0]['uid'] = 'WING01'
    spec = {'uid': 'myac1', 'wings': wings, 'refs': REFS[case['refs']]}
    files = {'airfoils/blade.' + clean(a): f'# {clean(a)}\n' + ''.join('%.7f %.7f\n' % tuple(p) for p in airfoil_points(a)) for a in AF}
    return proj.write_project(d, spec, native_state(case), SETT, files=files), spec


def native_state(case):
    st = STATES[:case['nst']]
    z = [0.0]*len(st)
    none = [None]*len(st)
    return {'aero': {'airspeed': none, 'density': none, 'altitude': [s[0] for s in st], 'mach': [s[1] for s in st], 'alpha': [s[2] for s in st], 'beta': [s[3] for s in st], 'rate_P': z, 'rate_Q': z, 'rate_R': z}}


def analyse(sf):
    r = proj.run(sf)
    lat = r['lattice']
    return {'res': {k: [float(x) for x in r['state'].results[k]] for k in proj.APM}, 'n': int(lat.info.num_panels if hasattr(lat.info, 'num_panels') else len(lat.p)),
            'mid': sorted(tuple(np.round(np.mean(q, axis=0), 7) + 0.0) for q in np.asarray(lat.p)), 'ac': None, 'open': len(P.tx.OPENED)}


def run_case(case):
    cp, nat, mk = build(case)
    d = proj.fresh_dir('cpacs')
    try:
        return _run(d, case, cp, nat, mk)
    finally:
        proj.rmtree(d)


def _run(d, case, cp, nat, mk):
    dn, dc, dk = (os.path.join(d, x) for x in ('native', 'cpacs', 'conv'))
    sn, spec = native_project(dn, case, nat, mk)
    ref = proj.unwrap(proj.isolated(analyse, sn))
    xml = os.path.join(dc, 'aircraft', 'ac.xml')
    used = write_cpacs(xml, case, cp, mk)
    before = open(xml, 'rb').read()
    s = dict(SETT, aircraft='ac.xml', state='__CPACS' if case['state'] == 'cpacs' else 'st.json')
    sc = os.path.join(dc, 'settings', 'proj.json')
    proj._put(sc, s)
    proj._put(os.path.join(dc, 'state', 'st.json'), native_state(case))

    def direct():
        P.tx.FAIL[:] = [case['fail'], 0]
        return analyse(sc)
    out = proj.isolated(direct)
    if case['fail']:
        require(out[0] == 'exc', 'write-fault-ignored', 'writing a coefficient fails, but the run reports success')
        require(open(xml, 'rb').read() == before, 'partial-document', 'writing a coefficient failed, the document was changed nevertheless')
        return ('fault', case['fail'])
    got = proj.unwrap(out)
    compare(got, ref, 'direct')
    # ---------- coefficients in the document ----------
    after = ET.parse(xml).getroot()
    if case['state'] == 'native':
        require(open(xml, 'rb').read() == before, 'document-changed', 'the document was changed by a run with a native flight state')
    else:
        maps = after.findall('./vehicles/aircraft/model/analyses/aeroPerformance/aeroMap')
        m = maps[used].find('aeroPerformanceMap')
        for key, nk in COEF.items():
            es = m.findall(key)
            require(len(es) == 1, 'coeff-missing', f'{key}: {len(es)} vectors')
            require(es[0].attrib.get('mapType') == 'vector', 'coeff-type', key)
            v = [float(x) for x in es[0].text.split(';')]
            require(len(v) == case['nst'], 'coeff-number', f'{key} has {len(v)} values for {case["nst"]} entries')
            for i, (x, y) in enumerate(zip(v, ref['res'][nk])):
                require(abs(x - y) <= 1e-5*abs(y) + 1e-9, 'coeff-value', f'{key}[{i}] = {x}, expected {nk} = {y}')
        # everything else in the document is unchanged
        b4 = ET.fromstring(before)
        for t in (b4, after):
            mm = t.findall('./vehicles/aircraft/model/analyses/aeroPerformance/aeroMap')[used].find('aeroPerformanceMap')
            for e in list(mm):
                if e.tag in COEF:
                    mm.remove(e)
        require(canon(b4) == canon(after), 'document-changed', 'other parts of the document were changed')
    # ---------- conversion ----------
    xk = os.path.join(dk, 'aircraft', 'ac.xml')
    write_cpacs(xk, case, cp, mk)

    def convert():
        import pytornado.stdfun.setup as su
        os.chdir(dk)
        su.cpacs2pytornado(os.path.join('aircraft', 'ac.xml'))
    proj.unwrap(proj.isolated(convert))
    require(open(xk, 'rb').read() == before, 'document-changed', 'the conversion changed the document')
    jf = os.path.join(dk, 'aircraft', 'ac.json')
    require(os.path.exists(jf), 'no-json', str(os.listdir(os.path.join(dk, 'aircraft'))))
    structure(json.load(open(jf)), spec)
    sk = os.path.join(dk, 'settings', 'proj.json')
    proj._put(sk, dict(SETT, aircraft='ac.json', state='st.json'))
    proj._put(os.path.join(dk, 'state', 'st.json'), native_state(case))
    conv = proj.unwrap(proj.isolated(analyse, sk))
    compare(conv, ref, 'converted')
    return (explore.fingerprint({k: [round(x, 7) for x in v] for k, v in ref['res'].items()}), case['state'], case['old'], case['maps']), {'analyses': 3, 'coefficients': 6*case['nst']}


def canon(e):
    return (e.tag, tuple(sorted(e.attrib.items())), (e.text or '').strip(), tuple(canon(c) for c in e))


def compare(got, ref, what):
    require(got['n'] == ref['n'], what + '-panels', f'{got["n"]} panels, expected {ref["n"]}')
    for k in proj.APM:
        close(what + '-' + k, got['res'][k], ref['res'][k], rtol=1e-6, atol=1e-6*(1 if k[0] == 'C' else 2e4), what=f'{what} run: {k}')
    close(what + '-mesh', np.array(got['mid']), np.array(ref['mid']), atol=1e-5, what='panel centres')


def structure(got, spec):
    """the same aircraft: segments, airfoils at their edges, control borders (in space), deflections, reference values"""
    exp = proj.aircraft_dict(spec)
    require(got['uid'] == exp['uid'], 'uid', f"{got['uid']} != {exp['uid']}")
    for k in exp['refs']:
        close('refs', got['refs'][k], exp['refs'][k], rtol=1e-12, atol=1e-12, what=k)
    require([w['uid'] for w in got['wings']] == [w['uid'] for w in exp['wings']], 'wings', str([w['uid'] for w in got['wings']]))
    for g, e in zip(got['wings'], exp['wings']):
        require(g['symmetry'] == e['symmetry'], 'symmetry', f"{g['symmetry']} != {e['symmetry']}")
        gs, es = ({s['uid']: s for s in x['segments']} for x in (g, e))
        require(sorted(gs) == sorted(es), 'segments', f'{sorted(gs)} != {sorted(es)}')
        for u in es:
            for k in 'abcd':
                close('vertices', np.array(gs[u]['vertices'][k]), np.array(es[u]['vertices'][k]), atol=1e-12, what=f'{u} {k}')
            for k in ('inner', 'outer'):
                require(gs[u]['airfoils'][k] == es[u]['airfoils'][k], 'airfoil', f"{u} {k}: {gs[u]['airfoils'][k]} != {es[u]['airfoils'][k]}")
        gc, ec = ({c['uid']: c for c in x['controls']} for x in (g, e))
        require(sorted(gc) == sorted(ec), 'controls', f'{sorted(gc)} != {sorted(ec)}')
        for u in ec:
            a, b = gc[u], ec[u]
            for k in ('device_type', 'segment_uid'):
                require(a[k] == b[k], 'control-' + k, f'{u}: {a[k]} != {b[k]}')
            for k in ('rel_vertices', 'rel_hinge_vertices'):
                for j in b[k]:
                    close('control-' + k, a[k][j], b[k][j], atol=1e-9, what=f'{u} {j}')
            close('deflection', a['deflection'], b['deflection'], atol=1e-12, what=u)
            if e['symmetry']:
                require(a['deflection_mirror'] is not None, 'deflection-mirror', u)
                close('deflection-mirror', a['deflection_mirror'], b['deflection'] if b['deflection_mirror'] is None else b['deflection_mirror'], atol=1e-12, what=u)
