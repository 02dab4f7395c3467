"""Write MANIFEST.json for the checks that exist."""
import importlib.util
import json
import os
import re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(root, 'properties.jsonl')):
    pid = json.loads(line)['id']
    path = os.path.join(root, 'mc', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': pid, 'reason': 'check under construction'})
        continue
    src = open(path).read()
    ns = {}
    def const(name):
        import ast
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and node.targets[0].id == name:
                return ast.literal_eval(node.value)
    bound = const('BOUND')
    checks.append({
        'property': pid, 'quick_cmd': './check %s quick' % pid,
        'thorough_cmd': './check %s thorough' % pid,
        'technique': 'model checking: ' + const('TECHNIQUE'),
        'level': 'model_checking',
        'level_note': 'bounded and exhaustive within the bound; quick: %s; '
        'thorough: %s; oracle: %s' % (bound['quick'], bound['thorough'],
                                      const('ORACLE'))})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': na}, open(os.path.join(root, 'MANIFEST.json'),
                                       'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
