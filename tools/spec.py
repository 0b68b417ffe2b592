"""The property table: generates properties.jsonl and MANIFEST.json (python3 tools/spec.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.path.insert(0, os.path.join(HERE, 'tools'))
B = 'balloon_learning_environment/'
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, tech=None, note=None, observe=None, na=None):
  assert len(title) <= 80, (id, len(title))
  p = {'id': id, 'title': title, 'statement': ' '.join(statement.split()),
       'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
       'why_tests_cant': ' '.join(why.split()),
       'anchors': {'files': [B + f for f in files],
                   'mechanism': [{'name': n, 'where': B + w} for n, w in mech]}}
  if observe:
    p['anchors']['observe_at'] = observe
  PROPS.append((p, tech, note))
  if na:
    NA.append({'property': id, 'reason': ' '.join(na.split())})


def main():
  import registry
  import table  # pylint: disable=unused-import
  ids = [p['id'] for p, _, _ in PROPS]
  assert len(ids) == len(set(ids)), ids
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _, _ in sorted(PROPS, key=lambda x: x[0]['id']):
      f.write(json.dumps(p) + '\n')
  na = {n['property'] for n in NA}
  checks = []
  for p, tech, note in sorted(PROPS, key=lambda x: x[0]['id']):
    i = p['id']
    if i in na:
      assert i not in registry.CHECKS, i
      continue
    assert i in registry.CHECKS, 'no check for ' + i
    lev = registry.CHECKS[i][2]
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py --property %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py --property %s --tier thorough' % i,
        'technique': tech, 'level': lev, 'level_note': note})
  for i in registry.CHECKS:
    assert i in ids, 'no property for ' + i
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -B -c "import pyabs.driver"',
               'checks': checks, 'not_applicable': sorted(NA, key=lambda n: n['property'])}, f, indent=1)
    f.write('\n')
  print(len(checks), 'checks,', len(NA), 'not applicable')


if __name__ == '__main__':
  sys.modules['spec'] = sys.modules['__main__']
  main()
