"""Shared driver of the checks: runs one analysis, applies the known-findings
file, rewrites the evidence file and sets the exit status."""
import importlib, json, os, sys, time, traceback
from . import core

VERIF = core.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Violation(object):
    """rule: short rule id; key: stable identity of the construct (no line
    numbers), used to match known findings; where: file:line; msg: text"""

    def __init__(self, rule, key, where, msg, trace=None):
        self.rule, self.key, self.where, self.msg = rule, key, where, msg
        self.trace = trace or []

    def render(self):
        s = '%s: [%s] %s' % (self.where, self.rule, self.msg)
        for t in self.trace:
            s += '\n      ' + t
        return s + '\n      key: %s' % self.key


class Result(object):
    def __init__(self):
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self.level = 'other'

    def add(self, rule, key, where, msg, trace=None):
        v = Violation(rule, key, where, msg, trace)
        if any(o.rule == rule and o.key == key and o.where == where for o in self.violations):
            return
        self.violations.append(v)


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            d = json.loads(line)
            if d.get('property') == pid and d.get('status') == 'open':
                out.append(d)
    return out


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, pid + '.report.txt')
    try:
        mod = importlib.import_module('glua.checks.' + pid.lower())
        res = mod.run(tier, seed)
    except core.AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % pid)
        return 4
    kf = known(pid)
    new, old = [], {}
    for v in res.violations:
        m = [k for k in kf if k['rule'] == v.rule and k['key'] == v.key]
        if m:
            old.setdefault(id(m[0]), (m[0], []))[1].append(v)
        else:
            new.append(v)
    cov = dict(res.coverage)
    cov.setdefault('explanation', '')
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': res.level, 'coverage': cov,
           'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if res.assumptions:
        doc['assumptions'] = res.assumptions
    doc['coverage']['known_findings_seen'] = len(old)
    with open(os.path.join(ev, pid + '.json'), 'w') as fh:
        json.dump(doc, fh, indent=1, sort_keys=True)
        fh.write('\n')
    for k, vs in old.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    with open(rep, 'w') as fh:
        for v in new:
            fh.write(v.render() + '\n')
    print('%s: %s' % (pid, ', '.join('%s=%s' % (a, b) for a, b in sorted(cov.items()) if isinstance(b, int))))
    if new:
        for v in new[:40]:
            print(v.render())
        if len(new) > 40:
            print('... %d more in %s' % (len(new) - 40, rep))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
