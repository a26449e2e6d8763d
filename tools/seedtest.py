"""Tries the planted bugs of seeded/ in scratch copies of /repo: that the patch applies and changes original lines, that
the stable tests still pass, that the demonstration fails with it and passes without it, and which checks report it.

python3-vt tools/seedtest.py [--checks C01,C02 | --checks all] [--no-tests] [--out FILE] [ID ...]"""
import argparse
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from xml.etree import ElementTree

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BASE = '58b9031'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONINTMAXSTRDIGITS='0',
           OPENBLAS_NUM_THREADS='1')
ENV.pop('PYTHONPATH', None)


def run(cmd, cwd, timeout, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def stable_pass(copy):
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    out = tempfile.mktemp(suffix='.xml')
    try:
        run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '--tb=no', '-p', 'no:cacheprovider', '--timeout=60',
             '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + out], copy, 600)
        ok = set()
        for c in ElementTree.parse(out).iter('testcase'):
            if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
                ok.add('%s::%s' % (c.get('classname'), c.get('name')))
        return [s for s in stable if s not in ok]
    finally:
        if os.path.exists(out):
            os.remove(out)


def original_lines(patch):
    """The patch has to change lines of the original repository."""
    hunks = re.findall(r'^--- a/(\S+)', patch, re.M)
    cur, line, touched, foreign = None, 0, 0, 0
    blame = {}
    for l in patch.split('\n'):
        if l.startswith('--- a/'):
            cur = l[6:]
        elif l.startswith('@@'):
            line = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if cur not in blame:
                rc, o = run(['git', 'blame', '-s', cur], '/repo', 60)
                blame[cur] = o.split('\n')
            touched += 1
            foreign += not blame[cur][line - 1].lstrip('^').startswith(BASE)
            line += 1
        elif l.startswith(' ') or l == '':
            line += 1
    return touched, foreign, hunks


def one(sid, args):
    d = os.path.join(ROOT, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    res = {'id': sid, 'property': meta['property']}
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        copy = os.path.join(w, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', copy])
        patch = open(os.path.join(d, 'patch.diff')).read()
        touched, foreign, hunks = original_lines(patch)
        res['lines'] = '%d removed, %d of them not original' % (touched, foreign)
        if not touched or foreign == touched:
            res['bad'] = 'changes no original line'
        demo = os.path.join(w, 'demo')
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        if not args.no_demo:
            rc, o = run(['bash', os.path.join(demo, 'demo.sh')], copy, 300)
            if rc:
                res['bad'] = 'demo fails unchanged: ' + o[-600:]
        rc, o = run(['git', 'apply', os.path.join(d, 'patch.diff')], copy, 60)
        if rc:
            res['bad'] = 'patch does not apply: ' + o
            return res
        if not args.no_demo:
            rc, o = run(['bash', os.path.join(demo, 'demo.sh')], copy, 300)
            res['demo'] = o[-300:].strip()
            if rc == 0:
                res['bad'] = 'demo passes with the patch'
            if rc == 124:
                res['bad'] = 'demo times out'
        if not args.no_tests:
            failed = stable_pass(copy)
            if failed:
                res['bad'] = 'tests fail: %s' % failed
        props = [meta['property']] if not args.checks else args.checks.split(',')
        if props == ['all']:
            props = ['C%02d' % i for i in range(1, 40) if os.path.exists(os.path.join(ROOT, 'checks', 'c%02d.py' % i))]
        res['caught'] = {}
        for p in props:
            env = dict(ENV, VERIF_REPO=copy, VERIF_EVIDENCE=os.path.join(w, 'ev'), VERIF_SEED=str(args.seed),
                       VERIF_TIER='quick')
            if args.checks:
                env['VERIF_NOSHRINK'] = '1'
            if args.shards:
                env['VERIF_SHARDS'] = str(args.shards)
            rc, o = run([sys.executable, '-W', 'ignore', os.path.join(ROOT, 'run.py'), p, '--tier', 'quick'], ROOT, 1200, env)
            hit = rc == 1 and 'VIOLATION property=%s ' % p in o
            res['caught'][p] = 'caught' if hit else ('missed' if rc == 0 else 'rc=%d %s' % (rc, o[-300:]))
    finally:
        shutil.rmtree(w)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--checks')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('--no-demo', action='store_true')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--shards', type=int)
    ap.add_argument('--jobs', type=int, default=1)
    ap.add_argument('--out')
    args = ap.parse_args()
    ids = args.ids or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex:
        for r in ex.map(lambda s: one(s, args), ids):
            print('%-28s %s %s %s' % (r['id'], r['property'], r.get('caught'), r.get('bad', 'ok')), flush=True)
            if args.out:
                with open(args.out, 'a') as f:
                    f.write(json.dumps(r) + '\n')


if __name__ == '__main__':
    main()
