#!/usr/bin/env python3
"""Fills in the tables of DESIGN.md from known_findings.json and seeded/."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table(head, rows):
    return '\n'.join(['| %s |' % ' | '.join(head), '|' + '---|' * len(head)]
                     + ['| %s |' % ' | '.join(r) for r in rows])


def main():
    k = json.load(open(os.path.join(HERE, 'known_findings.json')))
    k = k if isinstance(k, list) else k['findings']
    fixed = table(['Property', 'Commit', 'What failed'], [
        (e['property'], e['commit'], e['what'].split(e['commit'] + ' ', 1)[1])
        for e in sorted(k, key=lambda e: e['property'])
        if e['status'] == 'fixed'])
    known = table(['Finding', 'What fails'], [
        (e['id'], e['what']) for e in k if e['status'] == 'known'])
    caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
    rows = []
    sd = os.path.join(HERE, 'seeded')
    for b in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, b, 'meta.json')))
        rows.append((b, m['what_it_breaks'], m['needs'],
                     caught.get(b, 'not run')))
    bugs = table(['Bug', 'Breaks', 'Needs', 'Caught by'], rows)
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    for n, t in (('FIXED', fixed), ('KNOWN', known), ('BUGS', bugs)):
        a, b = '<!-- %s -->' % n, '<!-- /%s -->' % n
        new = '%s\n%s\n%s' % (a, t, b)
        if a in s:
            s = re.sub(re.escape(a) + '.*?' + re.escape(b),
                       lambda m: new, s, flags=re.S)
        else:
            s = s.replace('@%s@' % n, new)
    open(p, 'w').write(s)


if __name__ == '__main__':
    main()
