"""C29: analyses that run at the same time do not disturb each other."""
import json
import os
import sys
import threading

from mc import pt, gen, explore, proj, cli, interleave
from mc.pt import P, require, seg, ctrl, wing
from mc.explore import Fail
from mc.props import c15, c28

LEVEL = 'model_checking'
RULE = ('two real analyses under a controlled scheduler: exactly one runs at a time and control passes at chosen switch points. Threads of one process: every executed line of the package is a switch point (its first executions; every line of '
        'the run function for more than one preemption). Two processes: every file operation below the scratch directory and every executed line of the file and run modules is a switch point. Every schedule with one preemption is executed '
        'for either starting analysis and, on the coarser points, every schedule with up to `preemptions`. After every schedule the result files of both, and what they returned, are those of the analysis run alone; nothing else has '
        'changed. states = switch points, schedules = executed interleavings.')
ASSUMPTIONS = ['one processor: activities are interleaved at switch points, C++ kernels run atomically (they hold the interpreter lock)', 'no command that cleans the project runs at the same time', 'text of the shared log file is not compared',
               'files are compared at 1e-6 of their numbers']
STALL = 400

SCEN = {
    # name: (kind, project of the one, project of the other, settings)
    'threads, two projects': ('thread', ('one', 'uno'), 'one', 'two'),
    'threads, one project': ('thread', ('one', 'one'), 'one', 'two'),
    'processes, one project': ('process', ('one', 'one'), 'one', 'two'),
    'processes, same settings': ('process', ('one', 'one'), 'one', 'one'),
    'process beside a failing one': ('process', ('one', 'one'), 'two', 'bad'),
}
N = {}          # scenario -> activity -> {'fine': points, 'coarse': points}
ALONE = {}


def specs():
    q = gen.quad('tapered')
    a = {'wings': [wing('w', 2, [seg('s0', *q, af=('NACA2412', 'NACA0010'), nc=1, ns=1), seg('s1', *gen.next_quad(q, 'kink'), nc=1, ns=1)],
                        [ctrl('f', 'flap', 's0', 's1', 0.4, 1.0, 0.7, 0.75, defl=7.0, deflm=-3.0, nc=1)])]}
    q = gen.quad('swept')
    b = {'wings': [wing('w', 0, [seg('s0', *q, af=('airfoils/w.dat', 'NACA4412'), nc=None, ns=None)], [ctrl('f', 'slat', 's0', 's0', 0.0, 0.6, 0.2, 0.15, defl=-4.0, deflm=2.0)])],
         'refs': dict(pt.REFS, area=2.5, span=3.5, rcenter=[1.0, 0.2, 0.0])}
    return a, b


def files():
    a, b = specs()
    f = {'aircraft/ac.json': json.dumps(proj.aircraft_dict(a)), 'aircraft/ac2.json': json.dumps(proj.aircraft_dict(b)),
         'state/st.json': json.dumps(proj.state_dict([{'alpha': 3.0, 'beta': 2.0}])),
         'state/st2.json': json.dumps(proj.state_dict([{'alpha': -2.0, 'airspeed': 40.0, 'density': 0.7, 'rate_P': 0.3}, {'beta': 5.0, 'rate_Q': 0.4, 'airspeed': 80.0}])),
         'deformation/def.json': json.dumps({'w': [[x, y, z, 0.01*y, 0.02*y, 0.05*y*y, 0, 0, 0] for x, y, z in [(0.5, 0, 0), (0.6, 1, 0.1), (0.7, 2, 0.2), (0.8, 2.5, 0.3)]]}),
         'airfoils/w.dat': c28.foil(0.2)}
    s = {'save_results': dict(proj.SAVE_ALL)}
    f['settings/one.json'] = json.dumps(dict(s, aircraft='ac.json', state='st.json', deformation='def.json'))
    f['settings/two.json'] = json.dumps(dict(s, aircraft='ac2.json', state='st2.json', vlm_autopanels_s=2, vlm_autopanels_c=2, _epsilon=1e-4))
    f['settings/bad.json'] = json.dumps(dict(s, aircraft='ac2.json', state='none.json'))
    return f


def activity(root, name, out, me):
    """one analysis, as a user's script does it"""
    try:
        r = proj.run(os.path.join(root, 'settings', name + '.json'))
        out[me] = ('ok', observe(r))
    except Exception as e:      # noqa: reported by the judge
        out[me] = ('exc', f'{type(e).__name__}: {e}')


def observe(r):
    o = {k: [float(x) for x in r['state'].results[k]] for k in proj.APM}
    o['gamma'] = [float(x) for x in r['vlmdata'].panelwise['gamma']]
    o['panels'] = [float(x) for x in r['lattice'].p.reshape(-1)]
    o['book'] = [[e.subarea.parent_segment.uid, [int(i) for i in e.pan_idx], bool(e.mirror)] for e in r['lattice'].panel_bookkeeping]
    return o


LIB = [None]


def tracer(kind, level, sched, me):
    """switch points of this activity"""
    if not any(a == me for a, _ in sched.schedule):
        return None         # never switches by itself
    pt_ = lambda *a: sched.point(me)
    if kind == 'thread' and level == 'calls':
        return interleave.call_tracer(LIB[0], '/stdfun/run.py', pt_)
    if kind == 'thread':
        return interleave.line_tracer(LIB[0], pt_, repeat=REPEAT[level], only=None if level == 'fine' else ('/stdfun/run.py',), done=sched.done)
    return interleave.line_tracer(LIB[0], pt_, repeat=1, only=('/fileio/', '/stdfun/', '/objects/settings.py'), done=sched.done) if level == 'fine' else None


REPEAT = {'fine': 1, 'coarse': 2}
LEVELS = ('fine', 'coarse', 'calls')


def audits(box, sched, me):
    def f(event, args):
        p = args[0] if args else None
        if isinstance(p, (str, bytes, os.PathLike)) and os.path.abspath(os.fsdecode(p)).startswith(box + os.sep):
            interleave.audit(None)      # file operations of the harness itself
            try:
                sched.point(me)
            finally:
                interleave.audit(f)
    return f


def body(kind, level, sched, me, box, root, name, out):
    sched.start(me)
    if kind == 'process':
        interleave.audit(audits(box, sched, me))
    t = tracer(kind, level, sched, me)
    if t:
        sys.settrace(t)
    try:
        activity(root, name, out, me)
    finally:
        sys.settrace(None)
        if kind == 'process':
            interleave.audit(None)
        sched.end(me)


def execute(scen, level, schedule, top, only=None):
    """-> (outcomes, points of either activity, switches that took place)"""
    kind, roots, *names = SCEN[scen]
    roots = [os.path.join(top, r) for r in roots]
    for r in set(roots):
        for k, v in files().items():
            proj._put(os.path.join(r, k), v)
    os.chdir(top)
    sched = interleave.Sched(schedule)
    out = {}
    todo = (0, 1) if only is None else (only,)
    if only is not None:
        sched.mem[1 + (1 - only)] = 1
    if kind == 'thread':
        ts = [threading.Thread(target=body, args=(kind, level, sched, i, top, roots[i], names[i], out)) for i in todo]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    else:
        import pickle
        rd = {}
        for i in todo:
            r, w = os.pipe()
            if os.fork() == 0:
                try:
                    body(kind, level, sched, i, top, roots[i], names[i], out)
                    b = pickle.dumps((out.get(i), sched.n))
                    while b:
                        b = b[os.write(w, b):]
                finally:
                    os._exit(0)
            os.close(w)
            rd[i] = r
        n = [0, 0]
        for i in todo:
            buf = b''
            while True:
                d = os.read(rd[i], 1 << 16)
                if not d:
                    break
                buf += d
            if buf:
                out[i], m = pickle.loads(buf)
                n[i] = m[i]
        for i in todo:
            os.wait()
        sched.n = n
    res = (out, list(sched.n), sched.mem[3], sched.mem[4])
    sched.close()
    return res


def snapshot(top):
    return {k: v for k, v in proj.tree(top).items() if not k.endswith('log.txt')}


def alone(scen, i):
    """the analysis alone: outcome, files, number of switch points"""
    r = {}
    for level in LEVELS:
        top = proj.fresh_dir('c29a')
        try:
            out, n, _, _ = proj.unwrap(proj.isolated(execute, scen, level, [[i, 10**9]], top, i))
            r[level] = n[i]
            r['out'] = out.get(i)
            r['files'] = snapshot(top)
        finally:
            proj.rmtree(top)
    return r


def prepare(ctx):
    pt.load()
    import pytornado.fileio as io
    import pytornado.stdfun.run   # noqa
    P.io = io
    LIB[0] = os.path.dirname(os.path.abspath(sys.modules['pytornado.stdfun'].__file__)).rsplit('/stdfun', 1)[0] + os.sep
    REPEAT['fine'] = 3 if ctx.thorough else 1
    for s in SCEN:
        for i in (0, 1):
            ALONE[s, i] = alone(s, i)
            bad = SCEN[s][2 + i] == 'bad'
            o = ALONE[s, i]['out']
            require((o[0] == 'ok') != bad, 'not-run', f'{s}: {SCEN[s][2 + i]} alone: {o[1]!r}'[:500])
            N[s, i] = {k: ALONE[s, i][k] for k in LEVELS}


def bounds(ctx):
    return {'preemptions_fine': 1, 'preemptions': 3 if ctx.thorough else 2, 'executions_of_a_line': REPEAT['fine'], 'scenarios': list(SCEN)}


def cases(ctx):
    out, nodes = [], 0
    for s in SCEN:
        kind = SCEN[s][0]
        same = SCEN[s][1][0] == SCEN[s][1][1] and SCEN[s][2] == SCEN[s][3]
        # more than one preemption: file operations (processes), lines of the run function or the calls it makes (threads)
        level = 'coarse' if kind == 'process' or ctx.thorough else 'calls'
        for first in ((0,) if same else (0, 1)):
            other = 1 - first
            for n in range(0, N[s, first]['fine'] + 1):
                if s == 'threads, one project' and not ctx.thorough:
                    break
                nodes += 1
                out.append(((0, len(out)), {'scen': s, 'level': 'fine', 'schedule': [[first, n]] if n else [[first, 10**9]]}))
            if s == 'process beside a failing one' and not ctx.thorough:
                continue
            for n in range(1, N[s, first][level] + 1):
                for m in range(1, N[s, other][level] + 1):
                    nodes += 1
                    out.append(((1, len(out)), {'scen': s, 'level': level, 'schedule': [[first, n], [other, m]]}))
            if ctx.thorough:
                # three preemptions
                k = 'calls' if kind == 'thread' else 'coarse'
                if k == 'coarse' and not same:
                    continue
                for n in range(1, N[s, first][k] + 1):
                    for m in range(1, N[s, other][k] + 1):
                        for p in range(n + 1, N[s, first][k] + 1):
                            nodes += 1
                            out.append(((2, len(out)), {'scen': s, 'level': k, 'schedule': [[first, n], [other, m], [first, p]]}))
    return out, nodes, False


def run_case(c):
    top = proj.fresh_dir('c29')
    try:
        out, n, switched, impatient = proj.unwrap(proj.isolated(execute, c['scen'], c['level'], c['schedule'], top))
        what = f'{c["scen"]}, switching at {c["schedule"]} ({c["level"]})'
        for i in (0, 1):
            a, o = ALONE[c['scen'], i]['out'], out.get(i)
            name = SCEN[c['scen']][2 + i]
            require(o is not None, 'died', f'{what}: analysis {name} ended without a result')
            require(o[0] == a[0], 'not-run' if a[0] == 'ok' else 'accepted', f'{what}: {name}: {o[1] if o[0] == "exc" else "succeeded"}')
            if a[0] == 'ok':
                require(o[1]['book'] == a[1]['book'], 'returned', f'{what}: {name} returned another panel bookkeeping')
                for k in a[1]:
                    if k != 'book':
                        pt.close('returned', o[1][k], a[1][k], rtol=1e-9, atol=1e-9, what=f'{what}: {k} returned by {name}')
        want = dict(ALONE[c['scen'], 0]['files'])
        for k, v in ALONE[c['scen'], 1]['files'].items():
            want.setdefault(k, v)
        have = snapshot(top)
        require(set(have) == set(want), 'files', f'{what}: files {sorted(set(have) ^ set(want))[:6]}')
        for k, v in want.items():
            require(v == have[k] or v is not None and isinstance(v, bytes) and cli.same_text(v, have[k]), 'inputs' if '_results/' not in k else 'results', f'{what}: {k} differs from that of the analysis run alone')
    finally:
        proj.rmtree(top)
    return [c['scen'], c['level'], switched], {'schedules': 1, 'switches': switched, 'locks_waited_for': impatient}
