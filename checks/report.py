"""Obligations, verdicts, known findings and evidence."""
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Report:

  def __init__(self, prop, tier='quick', seed=1):
    self.prop, self.tier, self.seed = prop, tier, seed
    self.t0 = time.time()
    self.rules = {}        # rule -> [discharged, failed, undecided]
    self.fails = []        # (rule, construct, where, detail)
    self.und = []
    self.samples = []
    self.assumptions = []
    self.analysed = {}     # free-form counts
    self.functions = set()
    self.scope = []

  # -- obligations
  def _r(self, rule):
    return self.rules.setdefault(rule, [0, 0, 0])

  def ok(self, rule, what=''):
    self._r(rule)[0] += 1
    if len([s for s in self.samples if s.startswith(rule + ':')]) < 3:
      self.samples.append('%s: %s' % (rule, what))

  def fail(self, rule, construct, where='', detail=''):
    self._r(rule)[1] += 1
    self.fails.append((rule, construct, where, detail))

  def undecided(self, rule, construct, where='', detail=''):
    self._r(rule)[2] += 1
    self.und.append((rule, construct, where, detail))

  def check(self, verdict, rule, construct, where='', detail=''):
    """verdict: True (discharged), False (violated), None (undecided)."""
    if verdict is True:
      self.ok(rule, construct)
    elif verdict is False:
      self.fail(rule, construct, where, detail)
    else:
      self.undecided(rule, construct, where, detail)
    return verdict

  def count(self, k, n=1):
    self.analysed[k] = self.analysed.get(k, 0) + n

  def took(self, I):
    """Records what an interpreter analysed."""
    self.functions |= {f for f in I.visited}
    self.count('abstract call sites', I.callsites)
    self.count('abstract steps', I.steps)
    for n in sorted(I.summaries):
      a = 'summarised (its contract is a separate obligation or documented): ' + n
      if a not in self.assumptions:
        self.assumptions.append(a)

  # -- verdict
  def finish(self, level, assumptions=(), out=print):
    known = load_known(self.prop)
    listed, new = {}, {}
    for rule, construct, where, detail in self.fails:
      key = rule + ' ' + construct
      k = next((k for k in known if key == k), None)
      if k is not None:
        listed.setdefault(k, where)
      else:
        new.setdefault(key, (rule, construct, where, detail))
    for rule, c in sorted(self.rules.items()):
      out('%s: rule %-28s discharged %d, violated %d, undecided %d' % (
          self.prop, rule, c[0], c[1], c[2]))
    seen = set()
    for rule, construct, where, detail in self.und:
      if (rule, construct) not in seen:
        seen.add((rule, construct))
        out('%s: UNDECIDED %s: %s [%s] %s' % (self.prop, rule, construct, where, detail[:300]))
    for k in sorted(listed):
      out('KNOWN-FINDING: property=%s %s' % (self.prop, k))
    total = sum(sum(c) for c in self.rules.values())
    disch = sum(c[0] for c in self.rules.values())
    cov = {
        'obligations': total, 'discharged': disch,
        'undecided': sum(c[2] for c in self.rules.values()),
        'rules': {r: {'discharged': c[0], 'violated': c[1], 'undecided': c[2]}
                  for r, c in sorted(self.rules.items())},
        'functions_analysed': len(self.functions),
        'functions': sorted(self.functions)[:400],
        'analysed': self.analysed,
        'samples': self.samples[:40] or ['none'],
        'checker_cmd': 'python3 check.py --property %s --tier %s' % (self.prop, self.tier),
        'trusted_base': [
            'the abstract interpreter in pyabs/ (Python semantics over symbolic terms, real '
            'arithmetic instead of floating point)',
            'the library models in pyabs/stubs*.py',
            'CPython\'s ast module',
        ],
        'undecided_items': ['%s: %s' % (a, b) for a, b, _, _ in self.und][:40],
        'known_findings': sorted(listed),
    }
    if level == 'other':
      cov['explanation'] = (
          'Static rules over the resolved source of /repo: every instance of each rule is '
          'enumerated on the current tree and discharged or reported.')
    ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
          'coverage': cov, 'assumptions': list(assumptions) + self.assumptions,
          'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', self.prop + '.json')
    with open(path + '.tmp', 'w') as f:
      json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.tmp', path)
    rep = os.path.join(HERE, 'evidence', self.prop + '.violations.txt')
    if not new:
      if os.path.exists(rep):
        os.remove(rep)
      if disch == 0:
        out('%s: error: no obligation was discharged' % self.prop)
        return 2
      out('%s: ok (%d obligations, %d discharged, %.1fs)' % (
          self.prop, total, disch, time.time() - self.t0))
      return 0
    with open(rep, 'w') as f:
      for key, (rule, construct, where, detail) in sorted(new.items()):
        f.write('%s\n  at %s\n  %s\n' % (key, where, detail))
    for key, (rule, construct, where, detail) in sorted(new.items())[:12]:
      out('%s: violated %s: %s [%s] %s' % (self.prop, rule, construct, where, detail[:500]))
    out('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(rep, HERE)))
    return 1


def load_known(prop):
  """The listed findings of a property: lines 'known: property=<id> <rule> <construct>'."""
  r = []
  if os.path.exists(KNOWN):
    with open(KNOWN) as f:
      for l in f:
        l = l.strip()
        p = 'known: property=%s ' % prop
        if l.startswith(p):
          r.append(l[len(p):].split(' -- ')[0].strip())
  return r
