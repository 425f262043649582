"""Mutation campaign: small syntactic changes of the code, one at a time, against the quick checks.

usage: mutate.py list [PART-OF-PATH...]                  print the mutants
       mutate.py run OUT.jsonl WORKERS STRIDE [OFFSET] [PART-OF-PATH...]

Every mutant is tried in a scratch copy of the repository (never in /repo itself); a mutant that no check of its file
reports is run through the stable tests; what survives both is listed with status 'survived'.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = [
    ('proc/geo/', 'C10 C11'),
    ('proc/functions/', 'C10 C04 C11'),
    ('algorithms/azimuth', 'C07 C04 C06'),
    ('algorithms/beam_angles', 'C04 C07 C09'),
    ('algorithms/geometry', 'C08 C04 C09'),
    ('algorithms/multilooking', 'C09 C14 C06 C12'),
    ('algorithms/range_comp', 'C08 C09'),
    ('algorithms/sigma', 'C15 C06 C14'),
    ('algorithms/stack_gath', 'C04 C09 C01 C14'),
    ('algorithms/stack_mask', 'C08 C09 C04'),
    ('algorithms/surface_loc', 'C11 C12 C04 C02 C01'),
    ('sar/base_alg', 'C04 C01'),
    ('sar/cal/', 'C13'),
    ('sar/processor', 'C04 C02 C03 C05 C01 C06 C11 C22 C21'),
    ('model/l1a_proc', 'C13 C04 C11 C02 C06 C14'),
    ('model/surface_data', 'C11 C04 C12 C15 C09 C14'),
    ('model/', 'C05 C21'),
    ('data/input/', 'C13 C03 C02 C05'),
    ('l1b_writer', 'C14 C06 C12 C15 C09 C04'),
    ('l1bs_writer', 'C14 C06 C12 C15 C04'),
    ('netcdf_writer', 'C14 C05 C06'),
    ('conf/', 'C16 C17 C01 C03'),
    ('ui/workspace', 'C18 C20 C19 C17 C24 C21 C22'),
    ('ui/inspect', 'C26'),
    ('ui/compare', 'C26'),
    ('ui/figurew', 'C26'),
    ('util/monitor', 'C23 C05'),
    ('util/config', 'C25 C24'),
    ('util/', 'C16 C12 C21'),
    ('webapi/', 'C22 C24'),
    ('cli/', 'C21 C25'),
    ('', 'C21 C22'),
]
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*',
       ast.BitAnd: '|', ast.BitOr: '&'}


def offsets(text):
    at, out = 0, [0]
    for line in text.splitlines(keepends=True):
        at += len(line)
        out.append(at)
    return out


def mutants(path):
    raw = open(os.path.join(REPO, path), newline='').read()
    tree = ast.parse(raw)
    off = offsets(raw)

    def pos(line, col):
        return off[line - 1] + col        # (the sources are ASCII where it matters)

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.arguments):
            for d in n.defaults + n.kw_defaults:
                pass
        if isinstance(n, ast.arg) and n.annotation is not None:
            skip |= set(ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip |= set(ast.walk(n.returns))
        if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr):
            skip |= set(ast.walk(n)) - {n}
    for n in ast.walk(tree):
        if n in skip or n in docs:
            continue

        def rep(a, b, new, what):
            out.append((n.lineno, a, b, new, what))
        src = ast.get_source_segment(raw, n) if hasattr(n, 'lineno') else ''
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            mid = raw[a:b]
            head, tail = mid[:len(mid) - len(mid.lstrip(') '))], mid[len(mid.rstrip('( ')):]
            if len(mid.strip(' ()')) <= 6:
                rep(a, b, (head or ' ') + CMP[type(n.ops[0])] + (tail or ' '), 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            a, b = span(n.left)[1], span(n.right)[0]
            mid = raw[a:b]
            sym = mid.strip(' ()\\\r\n')
            if 0 < len(sym) <= 2 and mid.count(sym) == 1:
                rep(a, b, mid.replace(sym, BIN[type(n.op)]), 'operator')
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[a:b]
            o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if mid.count(o) == 1:
                rep(a, b, mid.replace(o, w), 'boolean')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, b = span(n)
            rep(a, span(n.operand)[0], '', 'sign')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            rep(a, span(n.operand)[0], ' ', 'not')
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            if isinstance(n.value, bool):
                rep(a, b, str(not n.value), 'constant')
            elif isinstance(n.value, int):
                rep(a, b, str(n.value + 1), 'constant')
            elif isinstance(n.value, float):
                rep(a, b, repr(n.value * 1.5 if n.value else 1.0), 'constant')
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            a, b = span(n.test)
            rep(a, b, 'not (' + raw[a:b] + ')', 'condition')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, 'value', None), ast.Constant):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                continue
            if n.col_offset == 0:
                continue
            a, b = span(n)
            rep(a, b, 'pass', 'delete')
        elif isinstance(n, (ast.Break, ast.Continue)):
            a, b = span(n)
            rep(a, b, 'pass', 'delete')
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords \
                and not any(isinstance(x, ast.Starred) for x in n.args):
            (a, b), (c, d) = span(n.args[0]), span(n.args[1])
            if raw[a:b] != raw[c:d]:
                rep(a, d, raw[c:d] + raw[b:c] + raw[a:b], 'swap')
    res = []
    lines = raw.splitlines()
    for line, a, b, new, what in out:
        text = raw[:a] + new + raw[b:]
        try:
            compile(text, path, 'exec')
        except SyntaxError:
            continue
        s, e = raw.rfind('\n', 0, a) + 1, raw.find('\n', b)
        changed = raw[s:a] + new + raw[b:e]
        if any(w in lines[line - 1] for w in ('long_name', 'comment', 'help=', 'print(', 'standard_name', 'warn(')):
            continue
        res.append({'path': path, 'line': line, 'kind': what, 'old': ' '.join(raw[s:e].split())[:200],
                    'new': ' '.join(changed.split())[:200], 'a': a, 'b': b, 'text': new})
    return res


def files():
    for root, dirs, names in os.walk(os.path.join(REPO, 'dedop')):
        dirs.sort()
        for n in sorted(names):
            p = os.path.relpath(os.path.join(root, n), REPO)
            if n.endswith('.py') and n != '__init__.py' and n != 'config-template.py' and '/tests/' not in p:
                yield p


def all_mutants(parts):
    out = []
    for p in files():
        if not parts or any(x in p for x in parts):
            out += mutants(p)
    return out


def checks_of(path):
    for frag, ids in CHECKS:
        if frag in path:
            return ids.split()


def stable(copy):
    base = json.load(open('/opt/vp/BASELINE.json'))
    return base


def trial(m, k):
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp/mut')
    try:
        copy = os.path.join(d, 'repo')
        shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns('.git', '*.ipynb', 'docs'))
        shutil.copytree(os.path.join(REPO, 'dedop/ui/data'), os.path.join(copy, 'dedop/ui/data'), dirs_exist_ok=True)
        p = os.path.join(copy, m['path'])
        raw = open(p, newline='').read()
        open(p, 'w', newline='').write(raw[:m['a']] + m['text'] + raw[m['b']:])
        v = os.path.join(d, 'verif')
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'))
        env = dict(os.environ, VERIF_REPO=copy, VERIF_STOP='1', VERIF_SEED='1')
        codes = {}
        for c in checks_of(m['path']):
            try:
                r = subprocess.run(['/opt/venv/bin/python', 'run.py', c, 'quick'], cwd=v, env=env, capture_output=True,
                                   text=True, timeout=900)
                codes[c] = r.returncode
            except subprocess.TimeoutExpired:
                codes[c] = 'timeout'
            if codes[c] == 1:
                return dict(m, status='killed', by=c, codes=codes)
            if codes[c] != 0:
                return dict(m, status='no answer', by=c, codes=codes)
        return dict(m, status='survived', codes=codes)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == 'list':
        ms = all_mutants(sys.argv[2:])
        for m in ms:
            print('%(path)s:%(line)d %(kind)s: %(new)s' % m)
        print(len(ms))
        return
    out, workers, stride = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    rest = sys.argv[5:]
    offset = 0
    if rest and rest[0].isdigit():
        offset = int(rest.pop(0))
    os.makedirs('/tmp/mut', exist_ok=True)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            m = json.loads(l)
            done.add((m['path'], m['a'], m['text']))
    ms = [m for m in all_mutants(rest)[offset::stride] if (m['path'], m['a'], m['text']) not in done]
    print(len(ms), 'mutants', flush=True)
    with ThreadPoolExecutor(workers) as ex, open(out, 'a') as f:
        for r in ex.map(lambda a: trial(*a), [(m, i) for i, m in enumerate(ms)]):
            f.write(json.dumps(r) + '\n')
            f.flush()
            if r['status'] != 'killed':
                print(r['status'], '%(path)s:%(line)d %(kind)s\n    %(old)s\n    %(new)s' % r, r['codes'], flush=True)


if __name__ == '__main__':
    main()
