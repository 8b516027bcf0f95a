#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id, title, statement, over, quantifier text, why tests cannot, files,
# [(mechanism, where)], technique, level note
P = []


def prop(*a):
    P.append(a)


exec(open(os.path.join(HERE, 'tools', 'props_table.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for (pid, title, stmt, over, qtext, why, files, mech, tech,
             note) in P:
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps({
                'id': pid, 'title': title, 'statement': stmt,
                'quantifier': {'over': over, 'text': qtext},
                'why_tests_cant': why,
                'anchors': {
                    'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'hook_needed': None,
                }}) + '\n')
    checks = []
    for (pid, title, stmt, over, qtext, why, files, mech, tech, note) in P:
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s' % pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': tech,
            'level': 'exploration',
            'level_note': note,
        })
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({
            'version': 1,
            'setup_cmd': 'python3 check.py --selftest',
            'checks': checks,
            'not_applicable': [],
            'notes': 'Property-based testing with Hypothesis against '
                     'independent oracles; see DESIGN.md. No hooks are '
                     'needed in the code under test.',
        }, f, indent=1)
        f.write('\n')


def design():
    """DESIGN.md from tools/design.in.md, the tables and the planted bugs."""
    sys.path.insert(0, HERE)
    ns = {}
    exec(open(os.path.join(HERE, 'tools', 'design_table.py')).read(), ns)
    table, per = [], []
    for p in P:
        oracle, bounds, reach = ns['DESIGN'][p[0]]
        src = open(os.path.join(HERE, 'dsverif', 'props',
                                p[0].lower() + '.py')).read()
        consts = {}
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and \
                    getattr(node.targets[0], 'id', '') in ('RULE',
                                                           'ASSUMPTIONS'):
                consts[node.targets[0].id] = ast.literal_eval(node.value)
        table.append('| %s | %s | %s |' % (p[0], p[1], oracle))
        asm = consts.get('ASSUMPTIONS') or ()
        per.append('### %s %s\n\n*Specified*: %s\n\n*Generated*: %s\n\n'
                   '*Oracle*: %s.\n\n*Bounds*: %s; quick tier below a minute '
                   'on 8 cores.\n\n*Beyond the tests*: %s. %s%s\n' % (
                       p[0], p[1], p[2], consts['RULE'], oracle,
                       bounds or 'the common ones', reach, p[5],
                       '\n\n*Not spoken about*: ' + '; '.join(asm) + '.'
                       if asm else ''))
    bugs = []
    seeded = os.path.join(HERE, 'seeded')
    caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
    for b in sorted(os.listdir(seeded)):
        m = json.load(open(os.path.join(seeded, b, 'meta.json')))
        bugs.append('| %s | %s | %s |' % (b, m['what_it_breaks'],
                                          caught.get(b, 'not run')))
    text = open(os.path.join(HERE, 'tools', 'design.in.md')).read()
    for key, rows in (('@TABLE@', table), ('@PERPROP@', per),
                      ('@BUGS@', bugs)):
        text = text.replace(key, '\n'.join(rows))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write(text)


if __name__ == '__main__':
    main()
    design()
