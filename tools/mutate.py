"""Mutation campaign: python3 tools/mutate.py OUT.jsonl [--files a.py,b.py] [--jobs 8] [--sample N] [--seed S]

Makes single-place changes to ezodf in scratch copies below /tmp, keeps those
which pass the tests of the repository and runs the checks (fewer cases each)
against them. Only for finding gaps; no check depends on it."""
import argparse
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Div: [ast.Mult]}
ORDER = {
    'nodeorganizer': 'C14 C15 C31', 'nodestructurechecker': 'C14', 'pagecontainer': 'C12 C30 C31', 'presentationpage': 'C12', 'protection': 'C25', 'wrapcache': 'C26 C17 C30',
    'filemanager': 'C01 C02 C03 C27 C04 C20 C21 C29', 'bytestreammanager': 'C01 C02 C03 C27', 'document': 'C28 C21 C20 C05 C04 C02 C31', 'manifest': 'C01 C02 C29',
    'meta': 'C06 C05 C19 C31', 'styles': 'C24 C31', 'content': 'C01 C14 C15 C31', 'body': 'C14 C15 C12 C31', 'base': 'C14 C25 C19', 'table': 'C07 C11 C25 C19 C26 C22',
    'tablecontroller': 'C07 C11 C19', 'tablerowcontroller': 'C07 C11 C19 C31', 'tablecolumncontroller': 'C07 C31', 'tablenormalizer': 'C08 C07',
    'tableutils': 'C11 C08 C10 C31', 'cells': 'C09 C19 C31', 'cellspancontroller': 'C10', 'sheets': 'C12', 'pages': 'C12', 'text': 'C13 C25 C31',
    'whitespaces': 'C13', 'variables': 'C15 C31', 'timeparser': 'C16 C32', 'observer': 'C18 C32', 'xmlns': 'C14 C26 C01 C31', 'propertymixins': 'C25 C31', 'ezlist': 'C25 C31',
    'tablesandsheets': 'C12', 'drawingpage': 'C25 C12', 'conf': 'C08'}
ALL = ['C%02d' % i for i in range(1, 33)]


def sites(source):
    """[(description, mutated source)]"""
    tree = ast.parse(source)
    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)) and node.body and isinstance(node.body[0], ast.Expr) \
                and isinstance(node.body[0].value, ast.Constant):
            docs.add(node.body[0].value)
    out = []
    lines = source.split('\n')
    offs = [0]
    for line in lines:
        offs.append(offs[-1] + len(line.encode()) + 1)
    data = source.encode()

    def span(node):
        return offs[node.lineno - 1] + node.col_offset, offs[node.end_lineno - 1] + node.end_col_offset

    def put(node, text, what):
        a, b = span(node)
        new = data[:a] + text.encode() + data[b:]
        try:
            ast.parse(new)
        except SyntaxError:
            return
        out.append(('%d: %s: %s -> %s' % (node.lineno, what, data[a:b].decode()[:70].replace('\n', ' '), text[:70].replace('\n', ' ')), new.decode()))

    def seg(node):
        a, b = span(node)
        return data[a:b].decode()
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                infunc.add(n)
    quiet = set()       # what is raised and its message
    for r in ast.walk(tree):
        if isinstance(r, ast.Raise):
            quiet.update(n for n in ast.walk(r) if n is not r)
    for node in ast.walk(tree):
        if node in quiet or node not in infunc and not isinstance(node, (ast.Dict, ast.FunctionDef)):
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for new in CMP.get(type(node.ops[0]), ()):
                m = ast.Compare(node.left, [new()], node.comparators)
                put(node, '(' + ast.unparse(m) + ')', 'compare')
        elif isinstance(node, ast.BinOp):
            for new in BIN.get(type(node.op), ()):
                if isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
                    continue
                put(node, '(' + ast.unparse(ast.BinOp(node.left, new(), node.right)) + ')', 'arith')
        elif isinstance(node, ast.BoolOp):
            new = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            put(node, '(' + ast.unparse(ast.BoolOp(new, node.values)) + ')', 'bool')
            for v in node.values:
                put(node, '(' + ast.unparse(ast.BoolOp(node.op, [x for x in node.values if x is not v]) if len(node.values) > 2 else
                                            [x for x in node.values if x is not v][0]) + ')', 'drop operand')
        elif isinstance(node, ast.UnaryOp):
            if isinstance(node.op, (ast.Not, ast.USub)):
                put(node, '(' + seg(node.operand) + ')', 'unary')
        elif isinstance(node, ast.Constant) and node not in docs:
            if isinstance(node.value, bool):
                put(node, str(not node.value), 'const')
            elif isinstance(node.value, int):
                put(node, str(node.value + 1), 'const')
                if node.value:
                    put(node, str(node.value - 1), 'const')
            elif isinstance(node.value, str) and node.value:
                put(node, repr(node.value + 'X'), 'str')
            elif node.value is None:
                pass
        elif isinstance(node, (ast.If, ast.While)):
            put(node.test, 'True', 'cond')
            put(node.test, 'False', 'cond')
        elif isinstance(node, ast.IfExp):
            put(node, '(' + seg(node.body) + ')', 'ifexp')
            put(node, '(' + seg(node.orelse) + ')', 'ifexp')
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) and not (isinstance(node, ast.Expr) and node.value in docs):
            put(node, 'pass', 'drop')
        if isinstance(node, ast.Return) and node.value is not None:
            put(node, 'return None', 'return')
        if isinstance(node, ast.Call):
            if len(node.args) == 2 and not node.keywords:
                put(node, '%s(%s, %s)' % (seg(node.func), seg(node.args[1]), seg(node.args[0])), 'swap')
            for k in node.keywords:
                rest = [seg(a) for a in node.args] + ['%s=%s' % (x.arg, seg(x.value)) for x in node.keywords if x is not k and x.arg]
                put(node, '%s(%s)' % (seg(node.func), ', '.join(rest)), 'drop keyword')
            if len(node.args) == 1 and not node.keywords:
                put(node, '(' + seg(node.args[0]) + ')', 'unwrap')
        if isinstance(node, ast.Slice):
            for which in ('lower', 'upper'):
                if getattr(node, which) is not None:
                    m = ast.Slice(None if which == 'lower' else node.lower, None if which == 'upper' else node.upper, node.step)
                    put(node, ast.unparse(m), 'slice')
        if isinstance(node, (ast.Break, ast.Continue)):
            put(node, 'pass', 'drop')
    return out


def tests_pass(folder):
    env = dict(os.environ, PYTHONPATH=folder, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', LC_ALL='C.UTF-8', TZ='UTC')
    try:
        r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests',
                            '-W', 'ignore'],
                           cwd=folder, env=env, capture_output=True, timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def check(folder, cid, cases, seed):
    env = dict(os.environ, VERIF_REPO=folder, VERIF_JOBS='1', VERIF_SEED=str(seed), VERIF_EVIDENCE=os.path.join(folder, 'evidence'))
    try:
        r = subprocess.run(['python3', 'check.py', cid, '--cases', str(cases)], cwd=HERE, env=env, capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    line = ''
    for l in r.stdout.splitlines():
        if l.startswith('  ') and 'VIOLATION' in r.stdout and not l.startswith('  events'):
            line = l.strip()[:200]
            break
    return r.returncode, line


def work(job):
    n, name, what, text = job
    folder = '/tmp/mutate/w%d' % os.getpid()
    if not os.path.isdir(folder):
        shutil.copytree('/repo', folder, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs', 'specs'))
    path = os.path.join(folder, 'ezodf', name)
    original = open(os.path.join('/repo/ezodf', name)).read()
    result = {'n': n, 'file': name, 'what': what}
    with open(path, 'w') as f:
        f.write(text)
    try:
        if not tests_pass(folder):
            result['status'] = 'tests'
            return result
        stem = name[:-3]
        order = ORDER.get(stem, '').split()
        order += [x for x in ALL if x not in order]
        for cid in order:
            full = CASES[cid]
            code, line = check(folder, cid, max(8, full // 4 if cid in order[:4] else full // 30), 1)
            if code == 1:
                result.update(status='caught', by=cid, line=line)
                return result
            if code not in (0, 1, 3):
                result.setdefault('odd', []).append((cid, code))
        result['status'] = 'survived'
        return result
    finally:
        with open(path, 'w') as f:
            f.write(original)


def cases_of():
    out = {}
    for cid in ALL:
        src = open(os.path.join(HERE, 'checks', cid.lower() + '.py')).read()
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'CASES':
                out[cid] = ast.literal_eval(node.value)['quick']
    return out


CASES = cases_of()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--count', action='store_true')
    a = ap.parse_args()
    files = a.files.split(',') if a.files else sorted(os.listdir('/repo/ezodf'))
    jobs = []
    for name in files:
        if not name.endswith('.py') or name in ('__init__.py', 'version.py', 'compatibility.py', 'const.py', 'nodestructuretags.py'):
            continue
        for what, text in sites(open(os.path.join('/repo/ezodf', name)).read()):
            jobs.append((len(jobs), name, what, text))
    print(len(jobs), 'mutants')
    if a.count:
        return
    if a.sample:
        random.Random(a.seed).shuffle(jobs)
        jobs = jobs[:a.sample]
    done = set()
    if os.path.exists(a.out):
        done = set((r['file'], r['what']) for r in map(json.loads, open(a.out)))
    jobs = [j for j in jobs if (j[1], j[2]) not in done]
    with multiprocessing.Pool(a.jobs) as pool, open(a.out, 'a') as f:
        for r in pool.imap_unordered(work, jobs):
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
