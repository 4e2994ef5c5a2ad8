#!/usr/bin/env python3
"""Rewrites the generated tables at the end of DESIGN.md (genuine defects, planted bugs)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- the tables below are written by tools/design.py -->\n'


def main():
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read().split(MARK)[0] + MARK
    text += '\n## Genuine defects found and repaired\n\n| property | commit in /repo | what failed |\n|---|---|---|\n'
    for f in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']:
        text += '| %s | %s | %s |\n' % (f['property'], f['commit'], f['text'].split(f['commit'] + ' ', 1)[1])
    text += '\n## Planted bugs\n\nEach is caught by the check of its property (`tools/seed.py check`, and vcheck).\n\n'
    text += '| id | property | what it breaks | what it needs |\n|---|---|---|---|\n'
    for name in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(name))
        text += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(name)), m['property'], m['what_it_breaks'], m['needs'])
    open(path, 'w').write(text)


if __name__ == '__main__':
    main()
