"""Sensitivity of the checks: makes small changes of the repository's code in scratch copies, and sees which of them that
pass the stable tests go unnoticed.

python3-vt tools/mutate.py OUT.jsonl [--seed N] [--count N] [--module M ...]"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from xml.etree import ElementTree

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CHECKS = {'cont_fracs': 'C03 C04 C16 C17 C23', 'basic_representation_types': 'C03 C17 C16',
          'enum_params': 'C01 C02 C27 C14 C15 C16 C17 C22 C23 C24 C09 C10', 'enum_poly_params': 'C05 C06 C07 C28 C27',
          'lhs_evaluators': 'C11 C12 C13 C14 C22 C07 C02 C01 C09', 'decimal_hashtable': 'C08 C09 C10 C27',
          'postprocfuncs': 'C25 C22 C14', 'latex': 'C22', 'configfile': 'C19 C20 C21 C24', 'distribute_run': 'C21 C29',
          'run_distributed_configs': 'C21', 'join_hashtables': 'C10', 'fix_hashtable_filter_init_b_root': 'C28',
          'main': 'C24', 'utils': 'C26', 'gen_consts': 'C18'}
CMP = {'Lt': ['<=', '>'], 'LtE': ['<', '>='], 'Gt': ['>=', '<'], 'GtE': ['>', '<='], 'Eq': ['!='], 'NotEq': ['=='],
       'In': ['not in'], 'NotIn': ['in'], 'Is': ['is not'], 'IsNot': ['is']}
BIN = {'Add': ['-'], 'Sub': ['+'], 'Mult': ['+', '/'], 'Div': ['*'], 'Mod': ['+'], 'Pow': ['*'], 'FloorDiv': ['/']}


def candidates(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)

    def pos(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(n.value)
    prints = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print' or isinstance(n, ast.Raise):
            prints.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in prints:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            for r in CMP.get(type(n.ops[0]).__name__, ()):
                out.append((a, b, ' %s ' % r))
        elif isinstance(n, ast.BinOp):
            a, b = span(n.left)[1], span(n.right)[0]
            mid = src[a:b]
            for r in BIN.get(type(n.op).__name__, ()):
                sym = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Mod': '%', 'Pow': '**', 'FloorDiv': '//'}[
                    type(n.op).__name__]
                if mid.count(sym) >= 1 and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    out.append((a, b, mid.replace(sym, r, 1)))
        elif isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                a, b = span(x)[1], span(y)[0]
                old, new = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                out.append((a, b, src[a:b].replace(old, new)))
        elif isinstance(n, ast.UnaryOp):
            a, b = span(n)
            c, d = span(n.operand)
            out.append((a, b, src[c:d]))
        elif isinstance(n, ast.Constant) and n not in doc:
            a, b = span(n)
            if isinstance(n.value, bool):
                out.append((a, b, str(not n.value)))
            elif isinstance(n.value, int):
                out.append((a, b, str(n.value + 1)))
                out.append((a, b, str(n.value - 1)))
            elif isinstance(n.value, float):
                out.append((a, b, repr(n.value * 2)))
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp)):
            a, b = span(n.test)
            out.append((a, b, 'not (%s)' % src[a:b]))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and n.value in doc):
            a, b = span(n)
            out.append((a, b, 'pass'))
        elif isinstance(n, (ast.Continue, ast.Break)):
            a, b = span(n)
            out.append((a, b, 'pass'))
            out.append((a, b, 'break' if isinstance(n, ast.Continue) else 'continue'))
        elif isinstance(n, ast.Return) and n.value is not None:
            a, b = span(n.value)
            if isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                continue
        elif isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and \
                n.func.id in ('abs', 'int', 'floor', 'nint', 'tuple', 'list', 'sorted', 'set'):
            a, b = span(n)
            c, d = span(n.args[0])
            out.append((a, b, '(%s)' % src[c:d]))
    seen, uniq = set(), []
    for c in out:
        if c not in seen and src[c[0]:c[1]] != c[2]:
            seen.add(c)
            uniq.append(c)
    return uniq


def run(cmd, cwd, env=None, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout[-3000:] + p.stderr[-500:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def tests_pass(repo):
    """Do the stable tests pass in this copy?"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONINTMAXSTRDIGITS='0',
               OPENBLAS_NUM_THREADS='1')
    xml = os.path.join(repo, '.junit.xml')
    rc, out = run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '--tb=no', '-p', 'no:cacheprovider',
                   '--timeout=60', '--continue-on-collection-errors', '--junitxml=' + xml], repo, env, 300)
    if rc == 'timeout' or not os.path.exists(xml):
        return False
    passed = {'%s::%s' % (t.get('classname'), t.get('name')) for t in ElementTree.parse(xml).iter('testcase')
              if not len(t)}
    os.unlink(xml)
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable']) <= passed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--count', type=int, default=50)
    ap.add_argument('--module', action='append')
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    pool = []
    for m in a.module or CHECKS:
        src = open('/repo/%s.py' % m).read()
        if m == 'gen_consts':
            continue
        for c in candidates(src):
            pool.append((m, c))
    rnd.shuffle(pool)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r['module'], tuple(r['change'])))
    top = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    repo = os.path.join(top, 'repo')
    shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', 'results', '*.pkl', '*.pdf', '*.svg'))
    n = 0
    try:
        for m, c in pool:
            if n >= a.count:
                break
            if (m, c) in done:
                continue
            path = os.path.join(repo, m + '.py')
            src = open('/repo/%s.py' % m).read()
            new = src[:c[0]] + c[2] + src[c[1]:]
            line = src[:c[0]].count('\n') + 1
            res = {'module': m, 'change': list(c), 'line': line, 'old': src.split('\n')[line - 1].strip(),
                   'new': new.split('\n')[line - 1].strip()}
            try:
                compile(new, m, 'exec')
            except (SyntaxError, ValueError):
                continue
            open(path, 'w').write(new)
            t0 = time.time()
            n += 1
            try:
                if not tests_pass(repo):
                    res['result'] = 'tests'
                else:
                    res['result'] = 'SURVIVED'
                    for ch in CHECKS[m].split():
                        if not os.path.exists(os.path.join(ROOT, 'checks', ch.lower() + '.py')):
                            continue
                        env = dict(os.environ, VERIF_REPO=repo, VERIF_NOSHRINK='1', VERIF_EVIDENCE=top)
                        rc, out = run(['python3-vt', os.path.join(ROOT, 'run.py'), ch, '--tier', 'quick'], ROOT, env, 900)
                        if rc == 1 and 'VIOLATION property=' in out:
                            res['result'] = ch
                            break
                        if rc != 0:
                            res['result'] = 'ERROR %s %s %s' % (ch, rc, out[-400:])
                            break
            finally:
                open(path, 'w').write(src)
            res['wall'] = round(time.time() - t0, 1)
            with open(a.out, 'a') as f:
                f.write(json.dumps(res) + '\n')
            print(res['result'], m, line, '|', res['old'], '=>', res['new'], flush=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


main()
