"""Writes the table of planted bugs into DESIGN.md (python3 tools/bugs.py)."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set('''load-added-in-place empty-path-means-anywhere reset-info-of-last-episode measured-before-moving column-sorted
atmosphere-restored-with-winds-only target-synced-only-when-updating mlp-forgets-while-evaluating'''.split())


def main():
  rows = ['| planted bug | property | caught | what it needs |', '|---|---|---|---|']
  for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')),
                  key=lambda f: (json.load(open(f))['property'], f)):
    d, n = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (n, d['property'], 'after strengthening' if n in MISSED else 'yes',
                                           ' '.join(d['needs'].split()).replace('|', '/')))
  p = os.path.join(HERE, 'DESIGN.md')
  s = open(p).read()
  a, b = '<!-- bugs -->\n', '<!-- end of bugs -->\n'
  s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
  with open(p, 'w') as g:
    g.write(s)


if __name__ == '__main__':
  main()
