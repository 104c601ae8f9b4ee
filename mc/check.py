"""Entry point: check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import logging
import os
import re
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from mc import explore, stage  # noqa: E402

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(pid):
    """Lines 'finding: property=<id> sig=<sig> case=<fingerprint> <what>'"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) sig=(\S+) case=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[(m.group(2), m.group(3))] = m.group(4).strip()
    return out


class Ctx:
    """What a check module gets"""

    def __init__(self, tier, seed, workers):
        self.tier, self.seed, self.workers = tier, seed, workers
        self.thorough = tier == 'thorough'


def write_replay(pid, n, choices, case, sig, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{n}.json')
    with open(path, 'w') as fp:
        json.dump({'property': pid, 'sig': sig, 'message': msg, 'choices': choices, 'case': case}, fp,
                  indent=1, default=str)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--list', action='store_true', help='only count the cases')
    args = ap.parse_args()
    pid = args.pid.upper()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('mc.props.' + pid.lower())
    ctx = Ctx(args.tier, seed, args.workers)

    if args.replay:
        rep = json.load(open(args.replay))
        if rep.get('sig') == 'baseline':
            mod.prepare(ctx)
            mod.cases(ctx)
            print('ok')
            return 0
        mod.prepare(ctx)
        kind, pay = explore._run_one(mod.run_case, rep['case'])
        print(kind, pay if kind != 'ok' else '')
        if kind != 'ok':
            print(f'VIOLATION property={pid} replay={args.replay}')
            return 1
        return 0

    try:
        mod.prepare(ctx)
        cases, nodes, capped = mod.cases(ctx)
    except Exception as e:
        if not isinstance(e, explore.Fail) and not any('/src/lib/pytornado/' in f.filename for f in traceback.extract_tb(e.__traceback__)):
            raise
        # the unmodified baseline cases of the check do not work: reported like any other case
        msg = f'{e.sig}: {e.msg}' if isinstance(e, explore.Fail) else traceback.format_exc()
        print(f'baseline of the check failed: {msg[-3000:]}')
        path = write_replay(pid, 0, None, None, 'baseline', msg)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fp:
            json.dump({'property': pid, 'tier': args.tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': {'samples': [], 'exhaustive': False, 'bounds': '', 'rule': mod.RULE, 'evaluations': 1,
                       'distinct_nontrivial': 0, 'states': 1, 'transitions': 0, 'traces_validated_against_impl': 0}, 'assumptions': [], 'wall_s': round(time.time() - t0, 2), 'violations': 1}, fp)
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    n_raw = len(cases)
    cases = explore.dedupe(cases)
    if args.list:
        print(f'{pid}: cases={len(cases)} raw={n_raw} nodes={nodes} capped={capped}')
        return 0
    init = getattr(mod, 'worker_init', None)
    known = known_findings(pid)
    res = explore.run_cases(mod.run_case, cases, workers=args.workers, init=init, max_fail=5 + len(known),
                            stall=getattr(mod, 'STALL', 300))
    fails = list(res['fails'])
    infra = []
    for idx, txt in res['errors']:
        if 'out of memory' in txt or 'MemoryError' in txt:
            infra.append(txt)
        else:
            fails.append((idx if idx is not None else -1, 'harness-exception', txt))

    new, hit = [], {}
    for idx, sig, msg in fails:
        case = cases[idx][1] if idx is not None and idx >= 0 else None
        k = (sig, explore.fingerprint(case))
        if k in known:
            hit[k] = known[k]
        else:
            new.append((idx, sig, msg, case, k[1]))

    samples = [c for _, c in cases[:2]]
    if len(cases) > 4:
        samples += [cases[len(cases) // 2][1], cases[-1][1]]
    level = mod.LEVEL
    cov = {'samples': samples, 'exhaustive': not capped and not new,
           'bounds': mod.bounds(ctx) if hasattr(mod, 'bounds') else '', 'rule': mod.RULE}
    extra = dict(res['extra'])
    if level == 'model_checking':
        cov['states'] = extra.pop('states', 0) or nodes
        cov['transitions'] = extra.pop('transitions', 0)
        cov['traces_validated_against_impl'] = extra.pop('traces', 0) or res['done']
        cov['histories_executed'] = res['done']
        cov['distinct_outcomes'] = len(res['outcomes'])
    else:
        cov['evaluations'] = res['done']
        cov['distinct_nontrivial'] = len(res['outcomes'])
        cov['choice_tree_nodes'] = nodes
    for k, v in extra.items():
        cov[k] = v
    ev = {'property': pid, 'tier': args.tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2),
          'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(tmp, 'w') as fp:
        json.dump(ev, fp, indent=1, default=str)

    short = {k: v for k, v in cov.items() if k not in ('samples', 'rule', 'bounds')}
    print(f'{pid} [{args.tier}] {short} wall={ev["wall_s"]}s')
    for k, what in sorted(hit.items()):
        print(f'KNOWN-FINDING: property={pid} {what}')
    if new:
        for n, (idx, sig, msg, case, fp) in enumerate(new[:5]):
            choices = cases[idx][0] if idx is not None and idx >= 0 else None
            path = write_replay(pid, n, choices, case, sig, msg)
            print(f'--- {sig} case={fp}\n{msg}\ncase: {explore.canon(case)[:600]}')
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    if infra or res['done'] < len(cases):
        print('INFRA', infra[:1], res['done'], len(cases))
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except stage.BuildError as e:
        print('BUILD ERROR', e)
        rc = 2
    sys.stdout.flush()
    stage.cleanup()
    os._exit(rc)
