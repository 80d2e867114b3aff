"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECHNIQUE = {
    'exploration': 'runtime monitoring: randomized hostile workload on the real code, online model/oracle monitors',
    'fault_enumeration': 'runtime monitoring with libc fault injection (LD_PRELOAD): every call of a save failed or '
                         'killed in turn, offline checker of the directory afterwards',
}


def main():
    import ast
    checks, missing = [], []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        path = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
        if not os.path.exists(path):
            missing.append({'property': p['id'], 'reason': 'check under construction'})
            continue
        const = {}
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign):
                try:
                    const[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
        note = const['RULE']
        extra = const.get('ASSUMPTIONS')
        level = const['LEVEL']
        checks.append({
            'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': const.get('TECHNIQUE') or TECHNIQUE[level],
            'level': level,
            'level_note': 'Held on the executions observed, not proved: %s%s Trusts lxml, zipfile of the checker, and '
                          'the oracle in checks/%s.py.' % (note, ' Assumes: ' + '; '.join(extra) + '.' if extra else '',
                                                           p['id'].lower())})
    out = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import lxml" && gcc --version > /dev/null', 'checks': checks, 'not_applicable': missing,
           'notes': 'No hooks in /repo: the monitors observe through the public API, the written bytes, sys.settrace, '
                    '/proc/self/fd and LD_PRELOAD shims built from native/*.c by the checks that need it.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    main()
