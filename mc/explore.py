"""Systematic exploration: choice trees, explicit-state search, parallel replay.

* `Chooser`/`enumerate_cases`: the environment of a driver is a sequence of
  finite choices; every choice sequence with at most `bound` departures from
  option 0 is enumerated (bound=None: all of them).
* `bfs`: breadth-first explicit-state search over a transition function.
* `run_cases`: runs every enumerated case against the real code in forked
  workers; a case that raises, kills its worker or never returns is a failure.
"""
import collections
import hashlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback


class Fail(Exception):
    """Property violated; `sig` classifies the failure"""

    def __init__(self, sig, msg=''):
        super().__init__(f'{sig}: {msg}')
        self.sig = sig
        self.msg = msg


class Prune(Exception):
    """The driver declares the current choice sequence outside the space"""


class Chooser:
    def __init__(self, prefix):
        self.prefix = prefix
        self.points = []   # (name, n_options)
        self.choices = []

    def pick(self, name, options):
        options = list(options)
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < len(options):
            raise AssertionError(f'replay diverged at {name}: {c} of {len(options)}')
        self.points.append((name, len(options)))
        self.choices.append(c)
        return options[c]


def enumerate_cases(driver, bound=None, cap=None):
    """All (choices, case) of `driver(chooser)` with at most `bound` deviations.

    Returns (cases, n_nodes, capped).  n_nodes counts the nodes of the choice tree.
    """
    out, nodes = [], 0
    stack = [((), 0)]
    capped = False
    while stack:
        prefix, dev = stack.pop()
        ch = Chooser(prefix)
        try:
            case = driver(ch)
            ok = True
        except Prune:
            ok = False
        nodes += len(ch.choices) - len(prefix) + 1
        if ok:
            out.append((tuple(ch.choices), case))
            if cap and len(out) >= cap:
                capped = True
                break
        nxt = []
        for i in range(len(prefix), len(ch.choices)):
            if bound is not None and dev + 1 > bound:
                break
            for alt in range(1, ch.points[i][1]):
                nxt.append((tuple(ch.choices[:i]) + (alt,), dev + 1))
        stack.extend(reversed(nxt))
    # Simplest first: fewest deviations
    out.sort(key=lambda t: (sum(1 for c in t[0] if c), len(t[0]), t[0]))
    return out, nodes, capped


def canon(x):
    return json.dumps(x, sort_keys=True, default=str)


def dedupe(cases):
    seen, out = set(), []
    for ch, case in cases:
        k = canon(case)
        if k not in seen:
            seen.add(k)
            out.append((ch, case))
    return out


def fingerprint(obj):
    return hashlib.sha1(canon(obj).encode()).hexdigest()[:16]


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<I', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


class _Reader:
    def __init__(self):
        self.buf = b''

    def feed(self, data):
        self.buf += data
        while len(self.buf) >= 4:
            n = struct.unpack('<I', self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            yield pickle.loads(self.buf[4:4 + n])
            self.buf = self.buf[4 + n:]


def _run_one(fn, case):
    """-> (kind, payload); kind in ok/fail"""
    try:
        r = fn(case)
        return 'ok', r
    except Fail as e:
        return 'fail', (e.sig, str(e.msg)[:2000])
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except MemoryError:
        raise
    except BaseException as e:   # SystemExit from the code under test included
        tb = traceback.extract_tb(e.__traceback__)
        inside = any('/pytornado/' in f.filename for f in tb) or isinstance(e, SystemExit)
        txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
        if inside:
            return 'fail', (f'exception-{type(e).__name__}', txt)
        return 'error', txt


def run_cases(fn, cases, workers=8, max_fail=5, stall=300, init=None):
    """fn(case) -> outcome.  Yields summary dict."""
    workers = max(1, min(workers, len(cases) or 1))
    res = {'done': 0, 'fails': [], 'outcomes': {}, 'errors': [], 'extra': collections.Counter()}
    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()

    def spawn(w, start):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for p in procs.values():
                    os.close(p['fd'])
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                if init:
                    init(w)
                nf = 0
                for i in range(start, len(cases), workers):
                    _send(wr, ('start', i))
                    kind, pay = _run_one(fn, cases[i][1])
                    if kind == 'ok':
                        extra = None
                        if isinstance(pay, tuple) and len(pay) == 2 and isinstance(pay[1], dict):
                            pay, extra = pay
                        pay = (fingerprint(pay), extra)
                    _send(wr, (kind, i, pay))
                    if kind != 'ok':
                        nf += 1
                        if nf >= max_fail:
                            break
                _send(wr, ('end', None))
                code = 0
            except BaseException:
                try:
                    _send(wr, ('error', -1, traceback.format_exc()[-3000:]))
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(wr)
        procs[w] = {'fd': r, 'pid': pid, 'cur': None, 't': time.time(), 'rd': _Reader(), 'ended': False}

    for w in range(workers):
        spawn(w, w)
    crashes = collections.Counter()
    while procs:
        fds = [p['fd'] for p in procs.values()]
        ready, _, _ = select.select(fds, [], [], 5)
        now = time.time()
        for w in list(procs):
            p = procs[w]
            if p['fd'] in ready:
                data = os.read(p['fd'], 1 << 16)
                if data:
                    for m in p['rd'].feed(data):
                        p['t'] = now
                        if m[0] == 'start':
                            p['cur'] = m[1]
                        elif m[0] == 'ok':
                            res['done'] += 1
                            fp, extra = m[2]
                            res['outcomes'][fp] = res['outcomes'].get(fp, 0) + 1
                            if extra:
                                res['extra'].update(extra)
                        elif m[0] == 'fail':
                            res['done'] += 1
                            res['fails'].append((m[1], m[2][0], m[2][1]))
                            if os.environ.get('MC_FAILFAST') and len(res['fails']) > max_fail - 5:
                                for q in procs.values():
                                    os.kill(q['pid'], signal.SIGKILL)
                                return res
                        elif m[0] == 'error':
                            res['errors'].append((m[1], m[2]))
                        elif m[0] == 'end':
                            p['ended'] = True
                    continue
                # EOF
                _, st = os.waitpid(p['pid'], 0)
                os.close(p['fd'])
                del procs[w]
                if not p['ended']:
                    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
                    if sig == signal.SIGKILL:
                        res['errors'].append((p['cur'], 'worker killed (out of memory?)'))
                    elif sig is not None:
                        res['fails'].append((p['cur'], f'crash-signal-{sig}', f'worker died with signal {sig}'))
                        crashes[w] += 1
                        if crashes[w] < max_fail:
                            spawn(w, p['cur'] + workers)
                    elif not res['errors']:
                        res['fails'].append((p['cur'], 'exit', f'process ended itself with status {st}'))
            elif now - p['t'] > stall:
                os.kill(p['pid'], signal.SIGKILL)
                os.waitpid(p['pid'], 0)
                os.close(p['fd'])
                del procs[w]
                res['fails'].append((p['cur'], 'hang', f'no result within {stall} s'))
    res['fails'].sort()
    return res


def bfs(init_history, enabled, execute, canon_state, max_depth, max_states=None):
    """Explicit-state BFS.  A state is represented by a history; `execute(history)`
    replays it on fresh real objects, checks the invariant at every step and
    returns the resulting observation; `canon_state` maps it to a hashable key."""
    obs = execute(init_history)
    seen = {canon_state(obs): init_history}
    frontier = collections.deque([(init_history, obs, 0)])
    transitions, depth = 0, 0
    capped = False
    while frontier:
        hist, ob, d = frontier.popleft()
        depth = max(depth, d)
        if d >= max_depth:
            continue
        for ev in enabled(hist, ob):
            nxt = hist + [ev]
            nob = execute(nxt)
            transitions += 1
            k = canon_state(nob)
            if k not in seen:
                if max_states and len(seen) >= max_states:
                    capped = True
                    continue
                seen[k] = nxt
                frontier.append((nxt, nob, d + 1))
    return {'states': len(seen), 'transitions': transitions, 'max_depth': depth, 'capped': capped}
