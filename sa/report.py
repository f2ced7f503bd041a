"""Obligations, findings, known findings and evidence of one check run."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('SA_OUT', VERIF)     # where evidence/ goes


class Finding:
    """A violated instance of a rule. It is identified by rule, function and construct, never by a line number."""

    def __init__(self, rule, where, construct, message, path=''):
        self.rule, self.where, self.construct, self.message, self.path = rule, tuple(where), construct, message, path

    @property
    def key(self):
        return '%s|%s|%s' % (self.rule, self.where[1], self.construct)

    def text(self):
        s = '%s:%s in %s: [%s] %s' % (self.where[0], self.where[2], self.where[1], self.rule, self.message)
        if self.path:
            s += '\n    path: ' + self.path
        return s


class Check:
    def __init__(self, pid, tier, seed, root):
        self.pid, self.tier, self.seed, self.root = pid, tier, seed, root
        self.findings = {}
        self.obligations = []       # (rule, instance) that were decided
        self.notes = []
        self.stats = {}
        self.functions = set()
        self.rules = {}             # rule id -> text
        self.t0 = time.time()
        self.minimum = {}
        self.incomplete = []

    def rule(self, rid, text, minimum=1):
        """Declare a rule and how many instances of it must at least be decided."""
        self.rules[rid] = text
        self.minimum[rid] = minimum

    def ob(self, rule, instance):
        self.obligations.append((rule, str(instance)))

    def report(self, f):
        if f.rule not in self.rules:
            self.rules[f.rule] = f.rule
        self.findings.setdefault(f.key, f)

    def fail(self, rule, where, construct, message, path=''):
        self.report(Finding(rule, where, construct, message, path))

    def add(self, **kw):
        for k, v in kw.items():
            self.stats[k] = self.stats.get(k, 0) + v

    def known(self):
        out = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('known: property=%s ' % self.pid):
                    rest = line.split(' ', 2)[2]
                    key, _, desc = rest.partition(' -- ')
                    out[key[len('key='):].strip()] = desc.strip()
        return out

    def finish(self):
        counts = {}
        for r, i in set(self.obligations):
            counts[r] = counts.get(r, 0) + 1
        known = self.known()
        new = [f for k, f in sorted(self.findings.items()) if k not in known]
        seen = [k for k in self.findings if k in known]
        for k in seen:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
        short = [r for r, m in self.minimum.items() if counts.get(r, 0) < m]
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the source under %s; nothing of it is executed. Rules: %s' % (
                    self.root, ' | '.join('%s: %s' % kv for kv in sorted(self.rules.items()))),
                'obligations': len(set(self.obligations)),
                'discharged': len(set(self.obligations)) - len(self.findings) if len(self.findings) <= len(
                    set(self.obligations)) else 0,
                'rule_instances': counts,
                'functions_analysed': sorted(self.functions),
                'function_count': len(self.functions),
                'measured': self.stats,
                'samples': ['%s: %s' % o for o in sorted(set(self.obligations))][:40],
                'not_fully_explored': self.incomplete,
            },
            'assumptions': self.notes,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        os.makedirs(os.path.join(OUT, 'evidence', 'replay'), exist_ok=True)
        replay = os.path.join(OUT, 'evidence', 'replay', self.pid + '.txt')
        with open(os.path.join(OUT, 'evidence', self.pid + '.json'), 'w', encoding='utf8') as f:
            json.dump(ev, f, indent=1)
        if new:
            with open(replay, 'w', encoding='utf8') as f:
                f.write('\n'.join(x.text() + '\n    key: ' + x.key for x in new) + '\n')
            for x in new:
                print(x.text())
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        if os.path.exists(replay):
            os.unlink(replay)
        if short:
            for r in short:
                print('ANALYSIS-BROKEN property=%s rule %s was applied to %d instances, at least %d expected' % (
                    self.pid, r, counts.get(r, 0), self.minimum[r]))
            return 2
        print('OK property=%s: %d obligations in %d functions, %.1fs' % (
            self.pid, len(set(self.obligations)), len(self.functions), time.time() - self.t0))
        return 0
