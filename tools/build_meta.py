"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties import TABLE  # noqa: E402
try:
    from properties import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []

PY = '/opt/venv/bin/python'
TECHNIQUE = ('symbolic execution of the real Python code (source instrumented at import, z3 decides every branch and '
             'assertion over all values in the bounds), counterexamples replayed on the unmodified code')
TRUST = (' Trusts: z3, the symbolic models of int/str/datetime/regex (every path is also run concretely on the unmodified '
         'package and compared), CPython. Nothing is claimed outside the bounds that the evidence file states.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in sorted(TABLE, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                       'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                anchors['state'] = list(p['state'])
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    skip = {n['property'] for n in NOT_APPLICABLE}
    checks = [{'property': p['id'], 'quick_cmd': '%s check.py %s quick' % (PY, p['id']),
               'thorough_cmd': '%s check.py %s thorough' % (PY, p['id']),
               'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECHNIQUE, 'level': 'model_checking',
               'level_note': p['note'] + TRUST}
              for p in sorted(TABLE, key=lambda p: p['id']) if p['id'] not in skip]
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': '%s tools/selftest.py' % PY, 'checks': checks,
                   'not_applicable': NOT_APPLICABLE,
                   'notes': 'One engine (symex/) and one harness module per property (harness/cNN.py). No hooks in /repo.'}, f, indent=1)
        f.write('\n')

    design()


def module_text(pid, what):
    import ast
    path = os.path.join(ROOT, 'harness', pid.lower() + '.py')
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == what:
            return ast.literal_eval(node.value)
    return ''


def fill(text, name, body):
    start = '<!-- generated by tools/build_meta.py: %s -->' % name
    i = text.index(start) + len(start)
    return text[:i] + '\n' + body + text[text.index('<!-- end -->', i):]


def design():
    path = os.path.join(ROOT, 'DESIGN.md')
    text = open(path).read()
    skip = {n['property']: n['reason'] for n in NOT_APPLICABLE}
    out = []
    for p in sorted(TABLE, key=lambda p: p['id']):
        out.append('### %s %s\n' % (p['id'], p['title']))
        if p['id'] in skip:
            out.append('Not applicable: %s\n' % skip[p['id']])
            continue
        out.append('%s\n' % p['statement'])
        out.append('* Code executed symbolically: %s.' % '; '.join('%s (`%s`)' % m for m in p['mechanism']))
        out.append('* Observed: %s.' % '; '.join(p['observe']))
        out.append('* Bounds: %s' % module_text(p['id'], 'BOUNDS'))
        out.append('* Assumptions: %s.' % ('; '.join(module_text(p['id'], 'ASSUMPTIONS') or []) or 'none'))
        out.append('* Why tests cannot settle it: %s\n' % p['why'])
    text = fill(text, 'properties', '\n'.join(out) + '\n')
    rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    base = os.path.join(ROOT, 'seeded')
    caught = {}
    cpath = os.path.join(ROOT, 'tools', 'caught.json')
    if os.path.exists(cpath):
        caught = json.load(open(cpath))
    for d in sorted(os.listdir(base)) if os.path.isdir(base) else []:
        meta = os.path.join(base, d, 'meta.json')
        if os.path.exists(meta):
            m = json.load(open(meta))
            rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), caught.get(d, '?')))
    text = fill(text, 'seeded', '\n'.join(rows) + '\n')
    with open(path, 'w') as f:
        f.write(text)


main()
