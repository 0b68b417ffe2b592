"""catch.py [--all] ID...: applies seeded bugs to /repo one by one, runs the property's check (or all checks), undoes it."""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(p):
  q = subprocess.run(['python3', 'check.py', '--property', p, '--tier', 'quick'], cwd=V,
                     capture_output=True, text=True, timeout=1500)
  und = sum('UNDECIDED' in l for l in q.stdout.splitlines())
  msg = [l for l in q.stdout.splitlines() if 'violated ' in l and 'rule' not in l][:2]
  return p, q.returncode, und, msg


def main():
  al = '--all' in sys.argv
  ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
  props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
  for i in ids:
    d = os.path.join(V, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
      with cf.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(run, props if al else [prop]))
    finally:
      subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    hit = [p for p, rc, _, _ in res if rc == 1]
    print('%-40s %s %s hit=%s und=%s bad=%s' % (
        i, prop, 'CAUGHT' if prop in hit else 'MISSED', hit,
        [(p, u) for p, rc, u, _ in res if u], [(p, rc) for p, rc, _, _ in res if rc not in (0, 1)]))
    for p, rc, _, m in res:
      if rc == 1 and p == prop:
        print('    ' + ' || '.join(x[:200] for x in m))
    sys.stdout.flush()


main()
