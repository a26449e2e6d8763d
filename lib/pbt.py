"""The driver of the checks: Hypothesis generates and shrinks the cases, a worker runs the code under test on them,
and the check's own oracle judges what came out.

A check module defines
    PROPERTY  - the id,
    RULE      - what makes a case non-trivial,
    PARTS     - a list of Part.
"""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'checks'))
sys.set_int_max_str_digits(0)
sys.setrecursionlimit(10000)

from client import Worker, Violation, HarnessFailure  # noqa: E402

SHARDS = int(os.environ.get('VERIF_SHARDS', '7'))


class Part:
    """strategy -> JSON-able case;  check(case, env) raises Violation.
    quick/thorough: number of cases over all the shards; examples: cases that are always run (first, on one shard)."""
    def __init__(self, name, strategy, check, quick, thorough=None, examples=(), shards=None, shrink=300):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 12
        self.examples = list(examples)
        self.shards = shards
        self.shrink = shrink


class Env:
    """What a check gets to run a case."""
    def __init__(self, worker):
        self.worker = worker
        self._other = None
        self.reset()

    @property
    def other(self):
        """A second process."""
        if self._other is None:
            self._other = Env(Worker())
        return self._other

    def close(self):
        if self._other is not None:
            self._other.worker.close()
            self._other = None

    def reset(self):
        self.labels = set()
        self.is_nontrivial = False

    def label(self, *labels):
        self.labels.update(str(x) for x in labels)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def call(self, op, **args):
        self.asked = True
        return self.worker.call(op, args)

    def ok(self, op, **args):
        """The operation is expected to succeed."""
        self.asked = True
        kind, val = self.worker.call(op, args)
        if kind == 'exc':
            raise Violation('%s raised %s: %s\n%s' % (op, val['type'], val['msg'], val['tb']))
        return val


def judge_case(part, case, env):
    """Runs the check of a case. An answer so ill-formed that the oracle fails on it is a wrong answer."""
    env.asked = False
    try:
        part.check(case, env)
    except (TypeError, ValueError, LookupError, AttributeError, ArithmeticError):
        if not env.asked:
            raise
        raise Violation('no sense can be made of the answer\n' + traceback.format_exc()[-2500:])


def canon(case):
    return json.dumps(case, sort_keys=True)


def digest(part, case):
    return hashlib.sha1((part + canon(case)).encode()).hexdigest()


def short(obj, n=600):
    s = canon(obj)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def load_known(prop):
    """Lines 'known: property=<id> part=<part> case=<json> what=<text>' of known_findings.txt."""
    out = []
    path = os.path.join(ROOT, 'known_findings.txt')
    for line in open(path, encoding='utf-8'):
        if line.startswith('known: property=%s ' % prop):
            rest = line.split(' part=', 1)[1]
            part, rest = rest.split(' case=', 1)
            case, what = rest.split(' what=', 1)
            out.append((part, canon(json.loads(case)), what.strip()))
    return out


def run_shard(prop, tier, seed, shard, out_path, only=None):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    from hypothesis import given
    mod = importlib.import_module(prop.lower())
    known = {(p, c) for p, c, _ in load_known(prop)}
    res = {'parts': {}, 'failure': None, 'harness': None}
    worker = Worker()
    env = Env(worker)
    t_end = time.monotonic() + (400 if tier == 'quick' else 3600)
    try:
        for part in mod.PARTS:
            if only and part.name not in only:
                continue
            nshards = min(part.shards or SHARDS, SHARDS)
            if shard >= nshards:
                continue
            # (a check of cheap cases makes more of them)
            total = part.quick * getattr(mod, 'SCALE', 2.5) if tier == 'quick' else part.thorough
            total = int(total * float(os.environ.get('VERIF_SCALE', '1')))
            n = max(1, total // nshards)
            st = {'evaluations': 0, 'nontrivial': [], 'labels': {}, 'samples': [], 'skipped': 0}
            nontriv = set()
            res['parts'][part.name] = st
            memo = {}
            fail = {'first': None, 'evals': 0, 'best': None}
            t_part = time.monotonic()

            def judge(case, part=part, st=st, memo=memo, fail=fail, nontriv=nontriv):
                key = canon(case)
                if (part.name, key) in known:
                    return
                if key in memo:
                    if memo[key] is not None:
                        raise Violation(memo[key])
                    return
                if fail['first'] is not None:
                    fail['evals'] += 1
                    if fail['evals'] > part.shrink or time.monotonic() - fail['first'] > 60:
                        return
                elif time.monotonic() > t_end:
                    st['skipped'] += 1
                    return
                env.reset()
                if len(worker.history) > 3000:
                    worker.stop()
                try:
                    judge_case(part, case, env)
                    memo[key] = None
                except Violation as e:
                    memo[key] = str(e)
                    if fail['first'] is None:
                        fail['first'] = time.monotonic()
                    if fail['best'] is None or len(key) <= len(canon(fail['best'][0])):
                        fail['best'] = (case, str(e), list(worker.history))
                    raise
                finally:
                    st['evaluations'] += 1
                    for l in env.labels:
                        st['labels'][l] = st['labels'].get(l, 0) + 1
                    if env.is_nontrivial:
                        d = digest(part.name, case)
                        if d not in nontriv:
                            nontriv.add(d)
                            if len(st['samples']) < 2:
                                st['samples'].append(short(case))

            try:
                if shard == 0:
                    for ex in part.examples:
                        # as it is after a JSON round-trip, like generated and replayed cases
                        judge(json.loads(canon(ex)))

                pseed = int(hashlib.sha1(('%s/%s/%d/%d' % (prop, part.name, seed, shard)).encode()).hexdigest()[:12],
                            16)

                @hypothesis.seed(pseed)
                @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                          suppress_health_check=list(HealthCheck),
                          phases=(Phase.generate,) if os.environ.get('VERIF_NOSHRINK') else (Phase.generate,
                                                                                             Phase.shrink),
                          print_blob=False, verbosity=hypothesis.Verbosity.quiet)
                @given(part.strategy)
                def run(case):
                    judge(case)

                run()
            except HarnessFailure:
                raise
            except Exception:
                # what Hypothesis raises once a violation was found: the violation itself, or that the capped
                # shrinking looks flaky to it
                if fail['best'] is None:
                    raise
            st['nontrivial'] = sorted(nontriv)
            st['wall_s'] = round(time.monotonic() - t_part, 2)
            if fail['best'] is not None:
                case, msg, history = fail['best']
                # does the case fail on its own, in a fresh process?
                w2 = Worker()
                e2 = Env(w2)
                alone = False
                try:
                    judge_case(part, case, e2)
                except Violation as e:
                    alone, msg = True, str(e)
                finally:
                    e2.close()
                    w2.close()
                res['failure'] = {'part': part.name, 'case': case, 'message': msg, 'alone': alone,
                                  'history': None if alone else history[-400:]}
                break
    except BaseException:
        res['harness'] = traceback.format_exc()
    finally:
        env.close()
        worker.close()
    with open(out_path, 'w') as f:
        json.dump(res, f)


def run_check(prop, tier, seed, only=None):
    t0 = time.monotonic()
    mod = importlib.import_module(prop.lower())
    shard_dir = os.path.join(ROOT, 'work')
    os.makedirs(shard_dir, exist_ok=True)
    tag = '%s_%d' % (prop, os.getpid())
    procs = []
    for shard in range(SHARDS):
        out = os.path.join(shard_dir, '%s_%d.json' % (tag, shard))
        cmd = [sys.executable, os.path.join(ROOT, 'run.py'), prop, '--tier', tier, '--seed', str(seed),
               '--shard', str(shard), '--out', out]
        for o in only or ():
            cmd += ['--only', o]
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        procs.append((out, subprocess.Popen(cmd, env=env)))
    results = []
    harness = []
    for out, p in procs:
        rc = p.wait()
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
            os.unlink(out)
            if results[-1]['harness']:
                harness.append(results[-1]['harness'])
        else:
            harness.append('shard ended with %d and no result' % rc)

    # known findings, shown again
    known = load_known(prop)
    parts = {p.name: p for p in mod.PARTS}
    for pname, ckey, what in known:
        w = Worker()
        e = Env(w)
        try:
            judge_case(parts[pname], json.loads(ckey), e)
        except Violation:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
        finally:
            e.close()
            w.close()

    failures = [r['failure'] for r in results if r['failure']]
    evaluations = sum(s['evaluations'] for r in results for s in r['parts'].values())
    nontriv = {d for r in results for s in r['parts'].values() for d in s['nontrivial']}
    per_part = {}
    samples = []
    for part in mod.PARTS:
        ss = [r['parts'][part.name] for r in results if part.name in r['parts']]
        labels = {}
        for s in ss:
            for k, v in s['labels'].items():
                labels[k] = labels.get(k, 0) + v
        per_part[part.name] = {'evaluations': sum(s['evaluations'] for s in ss),
                               'distinct_nontrivial': len({d for s in ss for d in s['nontrivial']}),
                               'classes': dict(sorted(labels.items())),
                               'not_run_for_lack_of_time': sum(s['skipped'] for s in ss)}
        picked = [x for s in ss for x in s['samples']][:2]
        samples += ['%s: %s' % (part.name, x) for x in picked]
    evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
                'coverage': {'evaluations': evaluations, 'distinct_nontrivial': len(nontriv), 'rule': mod.RULE,
                             'samples': samples, 'parts': per_part},
                'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
                'wall_s': round(time.monotonic() - t0, 2), 'violations': len(failures)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence'), '%s.json' % prop), 'w') as f:
        json.dump(evidence, f, indent=1)

    if failures:
        failures.sort(key=lambda f: (not f['alone'], len(canon(f['case']))))
        fl = failures[0]
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        rel = 'replays/%s_%s.json' % (prop, digest(fl['part'], fl['case'])[:12])
        with open(os.path.join(ROOT, rel), 'w') as f:
            json.dump(dict(fl, property=prop, seed=seed, tier=tier,
                           how='python3-vt run.py %s --replay %s' % (prop, rel)), f, indent=1)
        print('part %s, case %s' % (fl['part'], short(fl['case'], 3000)))
        print(fl['message'][:3000])
        print('VIOLATION property=%s replay=%s' % (prop, rel))
        return 1
    if harness:
        print('HARNESS ERROR in %s' % prop)
        print('\n'.join(sorted(set(harness)))[:6000])
        return 2
    if evaluations == 0:
        print('HARNESS ERROR: nothing was evaluated')
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (prop, evaluations, len(nontriv),
                                                                 time.monotonic() - t0))
    return 0


def replay(prop, path):
    mod = importlib.import_module(prop.lower())
    with open(path) as f:
        fl = json.load(f)
    part = {p.name: p for p in mod.PARTS}[fl['part']]
    w = Worker()
    e2 = Env(w)
    try:
        if fl.get('history'):
            for op, args in fl['history']:
                w.call(op, args)
        try:
            judge_case(part, fl['case'], e2)
        except Violation as e:
            print(str(e)[:5000])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
    finally:
        e2.close()
        w.close()
    print('the replayed case passes')
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--shard', type=int)
    ap.add_argument('--out')
    ap.add_argument('--only', action='append')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.property, a.replay)
    if a.shard is not None:
        run_shard(a.property, a.tier, a.seed, a.shard, a.out, a.only)
        return 0
    return run_check(a.property, a.tier, a.seed, a.only)
