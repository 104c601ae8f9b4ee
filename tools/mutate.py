#!/usr/bin/env python3
"""tools/mutate.py OUT.jsonl [--n N] [--seed S] [--files REGEX]: mutation testing of the checks.

Makes one small change at a time in a scratch copy of /repo (/tmp/mut) and runs the checks that concern the changed file until one reports it.
A development tool: no check uses it."""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('MUT_DIR', '/tmp/mut')
L = 'src/lib/pytornado/'
CHECKS = [
    ('src/bin/_pytornado_exe.py', 'C18 C15'),
    (L + 'objects/aircraft.py', 'C01 C19 C02 C21 C14 C06 C24 C12 C20 C17'),
    (L + 'objects/state.py', 'C11 C12 C10 C20 C08 C05'),
    (L + 'objects/settings.py', 'C13 C18 C15 C16'),
    (L + 'objects/objecttools.py', 'C02 C01 C17 C19 C14'),
    (L + 'objects/utils.py', 'C14 C13 C11 C12 C19'),
    (L + 'objects/vlm_struct.py', 'C10 C01 C16 C08'),
    (L + 'aero/vlm.py', 'C01 C02 C06 C21 C03 C04 C17 C10 C08 C07 C05'),
    (L + 'aero/c_lattice.cpp', 'C03 C01 C02 C04 C06 C23 C24'),
    (L + 'aero/c_downwash.cpp', 'C07 C23'),
    (L + 'aero/c_boundary.cpp', 'C07 C08 C05 C23'),
    (L + 'aero/c_results.cpp', 'C08 C05 C09 C23'),
    (L + 'aero/c_vlm.cpp', 'C08 C07 C23'),
    (L + 'fileio/cpacs', 'C20'),
    (L + 'fileio/native/aircraft.py', 'C12 C14 C01 C15'),
    (L + 'fileio/native/state.py', 'C11 C12 C15'),
    (L + 'fileio/native/settings.py', 'C13 C12 C15'),
    (L + 'fileio/native/results.py', 'C16 C22 C15'),
    (L + 'fileio/native/deformation.py', 'C17'),
    (L + 'fileio/utils.py', 'C15 C12 C13 C22 C20'),
    (L + 'stdfun/setup.py', 'C15 C18 C20'),
    (L + 'stdfun/run.py', 'C16 C18 C15 C10 C13 C20'),
    (L + 'database/tools.py', 'C15 C18'),
    (L + 'plot/makeplots.py', 'C16'),
]
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.And: ast.Or, ast.Or: ast.And}
NAMES = {'sin': 'cos', 'cos': 'sin', 'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'x': 'y', 'y': 'z', 'inner': 'outer', 'outer': 'inner', 'update': 'clear', 'append': 'clear', 'break': 'continue'}


def py_mutants(src):
    """-> [(line, description, new source)]"""
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or 'logger.' in ast.unparse(n) or 'warnings.' in ast.unparse(n)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.If) and '__main__' in ast.unparse(n.test):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
    out = []

    def emit(node, what, undo):
        txt = ast.unparse(tree)
        undo()
        out.append((getattr(node, 'lineno', 0), what, txt))
    for n in list(ast.walk(tree)):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                if type(o) in SWAP:
                    n.ops[i] = SWAP[type(o)]()
                    w = ast.unparse(n)
                    emit(n, w, lambda n=n, i=i, o=o: n.ops.__setitem__(i, o))
        if isinstance(n, (ast.BinOp, ast.BoolOp)) and type(n.op) in SWAP:
            o = n.op
            n.op = SWAP[type(o)]()
            w = ast.unparse(n)
            emit(n, w, lambda n=n, o=o: setattr(n, 'op', o))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            o = n.op
            n.op = ast.UAdd() if isinstance(o, ast.USub) else ast.Not()
            if isinstance(o, ast.Not):
                v = n.operand
                n.operand = ast.UnaryOp(ast.Not(), v)
                w = ast.unparse(n)
                emit(n, w, lambda n=n, o=o, v=v: (setattr(n, 'op', o), setattr(n, 'operand', v)))
            else:
                w = ast.unparse(n)
                emit(n, w, lambda n=n, o=o: setattr(n, 'op', o))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            v = n.value
            n.value = (not v) if isinstance(v, bool) else v + 1
            emit(n, f'constant {v} -> {n.value}', lambda n=n, v=v: setattr(n, 'value', v))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in NAMES:
            v = n.value
            n.value = NAMES[v]
            emit(n, f'{v} -> {n.value}', lambda n=n, v=v: setattr(n, 'value', v))
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            v = n.attr
            n.attr = NAMES[v]
            w = ast.unparse(n)
            emit(n, w, lambda n=n, v=v: setattr(n, 'attr', v))
        if isinstance(n, (ast.If, ast.IfExp)):
            t = n.test
            for b in (True, False):
                n.test = ast.Constant(b)
                emit(n, f'if {ast.unparse(t)} -> {b}', lambda n=n, t=t: setattr(n, 'test', t))
        for f in ('body', 'orelse', 'finalbody'):
            body = getattr(n, f, None)
            if not isinstance(body, list):
                continue
            for i, st in enumerate(body):
                if id(st) in skip or not isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Return, ast.Raise, ast.Delete)):
                    continue
                body[i] = ast.Pass()
                emit(st, 'deleted: ' + ast.unparse(st)[:150], lambda body=body, i=i, st=st: body.__setitem__(i, st))
    return out


CPP = [(r'(?<![<>=!])<(?![<=])', '<='), (r'<=', '<'), (r'(?<!-)>(?![>=])', '>='), (r'==', '!='), (r'(?<=[\w\])] )\+(?= )', '-'), (r'(?<=[\w\])] )-(?= )', '+'), (r'(?<=[\w\])])\*(?=[\w(])', '/'),
       (r'(?<=[\w\])])/(?=[\w(])', '*'), (r'\+= ', '-= '), (r'-= ', '+= '), (r'&&', '||'), (r'\|\|', '&&'), (r'\bsin\(', 'cos('), (r'\bcos\(', 'sin('), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'),
       (r'\.x\b', '.y'), (r'\.y\b', '.z'), (r'\.z\b', '.x'), (r'\+\+', '--'), (r'= -', '= ')]


def cpp_mutants(src):
    out = []
    lines = src.split('\n')
    comment = False
    for i, l in enumerate(lines):
        if '/*' in l:
            comment = True
        if '*/' in l:
            comment = False
            continue
        if comment or l.strip().startswith(('//', '#', '*', 'printf', 'fprintf')):
            continue
        code = l.split('//')[0]
        for pat, rep in CPP:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + rep + code[m.end():]
                out.append((i + 1, f'{code.strip()} -> {new.strip()}', '\n'.join(lines[:i] + [new] + lines[i + 1:])))
        if re.match(r'^\s+[\w\[\].>()-]+ [+*/-]?= .*;\s*$', code):
            out.append((i + 1, 'deleted: ' + code.strip(), '\n'.join(lines[:i] + [''] + lines[i + 1:])))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=100)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--files', default='.')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    if not os.path.isdir(W):
        subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)
    files = subprocess.run(['git', '-C', W, 'ls-files', 'src'], stdout=subprocess.PIPE, text=True).stdout.split()
    todo = []
    for f in files:
        ch = next((c for p, c in CHECKS if f.startswith(p)), None)
        if not ch or not f.endswith(('.py', '.cpp')) or not re.search(a.files, f) or f.endswith('__init__.py') or '__patch' in f:
            continue
        src = open(os.path.join(W, f)).read()
        for line, what, new in (py_mutants(src) if f.endswith('.py') else cpp_mutants(src)):
            todo.append((f, line, what, new, ch.split()))
    rng = random.Random(a.seed)
    rng.shuffle(todo)
    print(len(todo), 'mutants in all')
    seen = set()
    if os.path.exists(a.out):
        seen = {(d['file'], d['line'], d['what']) for d in map(json.loads, open(a.out))}
    if a.list:
        return
    env = dict(os.environ, VERIF_REPO=W, MC_FAILFAST='1', VERIF_SEED='1')
    for f, line, what, new, ch in todo[:a.n]:
        if (f, line, what) in seen:
            continue
        p = os.path.join(W, f)
        old = open(p).read()
        open(p, 'w').write(new)
        t, hit, rcs = time.time(), None, []
        for c in ch:
            try:
                r = subprocess.run(['timeout', '900', os.path.join(V, 'check'), c], env=env, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                rc = r.returncode
            except Exception as e:
                rc = str(e)
            rcs.append((c, rc))
            if rc == 1:
                hit = c
                break
            if rc != 0:
                hit = f'rc{rc}:' + r.stdout[-200:]
                break
        open(p, 'w').write(old)
        with open(a.out, 'a') as fp:
            fp.write(json.dumps({'file': f, 'line': line, 'what': what, 'hit': hit, 't': round(time.time() - t, 1)}) + '\n')
        print(hit or 'SURVIVED', f, line, what[:120], flush=True)


if __name__ == '__main__':
    main()
