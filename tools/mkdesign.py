"""Write the generated part of DESIGN.md: one section for each property and
the table of planted bugs.  usage: python3 tools/mkdesign.py"""
import ast
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))


def constants(pid):
    out = {}
    tree = ast.parse(open(os.path.join(ROOT, 'mc', pid.lower() + '.py')).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(
                node.targets[0], 'id', None) in (
                'TECHNIQUE', 'ORACLE', 'BOUND', 'ASSUMPTIONS'):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


lines = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    prop = json.loads(line)
    pid = prop['id']
    con = constants(pid)
    note = NOTES['properties'].get(pid, {})
    lines += ['### %s — %s' % (pid, prop['title']), '',
              '*Method.* ' + con['TECHNIQUE'] + '.', '',
              '*Oracle.* ' + con['ORACLE'] + '.', '',
              '*Quick bound.* ' + con['BOUND']['quick'] + '.', '',
              '*Thorough bound.* ' + con['BOUND']['thorough'] + '.', '']
    if con.get('ASSUMPTIONS'):
        lines += ['*Assumptions.* ' + '; '.join(con['ASSUMPTIONS']) + '.', '']
    for key, name in (('reach', 'Beyond the tests'), ('out', 'Left out'),
                      ('cost', 'Cost')):
        if note.get(key):
            lines += ['*%s.* %s' % (name, note[key]), '']
seeds = ['| bug | property | needs | caught by |', '|---|---|---|---|']
sdir = os.path.join(ROOT, 'seeded')
for sid in sorted(os.listdir(sdir)):
    meta = json.load(open(os.path.join(sdir, sid, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (
        sid, meta['property'], re.sub(r'\s+', ' ', meta['needs']).replace(
            '|', '/'),
        NOTES['caught'].get(sid, meta['property'])))
text = open(os.path.join(ROOT, 'DESIGN.md')).read()
for mark, new in (('PROPERTIES', lines), ('SEEDED', seeds)):
    text = re.sub(r'(<!-- %s -->\n).*?(<!-- END %s -->)' % (mark, mark),
                  lambda m: m.group(1) + '\n'.join(new) + '\n' + m.group(2),
                  text, flags=re.S)
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(text)
