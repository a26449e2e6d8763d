"""Writes MANIFEST.json from the checks."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(ROOT, 'lib'), os.path.join(ROOT, 'checks')]

TECHNIQUE = {
    'C01': 'property-based testing (Hypothesis): random searches against a brute-force model in exact/interval arithmetic',
    'C02': 'property-based testing: random click lists with planted agreement, refined, against exact digit comparison',
    'C03': 'stateful property-based testing: operation histories against exact rational convergents',
    'C04': 'property-based differential testing of all evaluators against exact rational evaluation',
    'C05': 'property-based testing: enumeration against an independent model of the ranges and skips',
    'C06': 'property-based testing: enumeration against independent polynomial expansion/placement',
    'C07': 'property-based testing: announced lengths against enumerated counts',
    'C08': 'stateful (model-based) property-based testing against a dictionary of truncated keys',
    'C09': 'stateful property-based testing: save/load round trips at random points of histories, metamorphic',
    'C10': 'property-based metamorphic testing: divided and joined tables against the undivided table',
    'C11': 'stateful property-based testing: operation histories against exact expression values',
    'C12': 'property-based metamorphic testing of canonical forms with own polynomial arithmetic',
    'C13': 'property-based testing: enumeration against an independent model of ranges and skips',
    'C14': 'property-based testing: lists of disguised and near-miss results against own equivalence of functions',
    'C15': 'property-based testing: lists of results with chosen roots against exact rational root finding',
    'C16': 'property-based testing: classification against exact ratios of the convergents\' steps',
    'C17': 'property-based testing: estimates, goals and filters against exact convergents',
    'C18': 'stateful property-based testing: request histories against the constants\' definitions',
    'C19': 'property-based testing: generated configurations, parse and write/parse round trips',
    'C20': 'stateful property-based testing: histories over directories against a model of versions',
    'C21': 'property-based testing: split configurations against the exact product of ranges; recorded launches',
    'C22': 'property-based testing: exported LaTeX read back by an own parser and evaluated',
    'C23': 'property-based testing: exported csv read back and compared with exact values',
    'C24': 'stateful property-based testing: whole runs over one directory against a model of the search',
    'C25': 'property-based testing of all post-functions against their definitions',
    'C26': 'property-based testing of helpers against exact models (with an own clock)',
    'C27': 'stateful property-based testing: build histories against one build of everything',
    'C28': 'property-based testing: repaired tables against exact integer roots',
    'C29': 'property-based metamorphic testing: distributed, run, joined and searched against one undivided run',
    'C30': 'property-based fault injection: runs cancelled at random steps against the same run uncancelled',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, missing = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
            mod = importlib.import_module(i.lower())
        else:
            missing.append({'property': i, 'reason': 'no check yet'})
            continue
        note = ('Every generated case is judged by an oracle that shares no code with the repository; cases: %s.'
                % mod.RULE.rstrip('.'))
        if getattr(mod, 'ASSUMPTIONS', None):
            note += ' Assumes/does not judge: %s.' % '; '.join(mod.ASSUMPTIONS)
        note += ' Random search shows no violation among the generated cases; it does not prove absence.'
        checks.append({'property': i, 'quick_cmd': 'python3-vt run.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt run.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECHNIQUE[i], 'level': 'exploration',
                       'level_note': note})
    m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': missing,
         'notes': 'No hooks: the checks drive the public interface of /repo\'s working tree in its own interpreter. '
                  'VERIF_SEED selects the random choices. Replay a failure with the command in its replay file.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
