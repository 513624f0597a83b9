"""Result collection, known findings, evidence and exit codes."""
import json
import os
import subprocess
import sys
import time

from .project import AnalysisError, repo_root

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.json')


class Report:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.findings = []        # dicts: rule, key, where, msg
        self.counts = {}
        self.rules = {}
        self.assumptions = []
        self.notes = []
        self.samples = {}
        self._keys = set()

    # --- recording ---------------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, name, item, limit=40):
        s = self.samples.setdefault(name, [])
        if len(s) < limit:
            s.append(item)

    def finding(self, rule, key, where, msg):
        """key: rule specific, built from names of constructs, never line numbers."""
        k = f"{rule}:{key}"
        if k in self._keys:
            return
        self._keys.add(k)
        self.findings.append({'rule': rule, 'key': k, 'where': where, 'message': msg})

    def need(self, name, minimum):
        """Too few analysed instances means the analysis lost its subject."""
        n = self.counts.get(name, 0)
        if n < minimum:
            raise AnalysisError(f"only {n} instances of '{name}' were found, at least "
                                f"{minimum} were confirmed to exist")

    # --- end ---------------------------------------------------------------
    def finish(self):
        known = [k for k in load_known() if k.get('property') == self.pid
                 and k.get('status', 'known') == 'known']
        by_key = {}
        for k in known:
            by_key[k['key']] = k
        viol, matched = [], []
        for f in self.findings:
            if f['key'] in by_key:
                matched.append((by_key[f['key']], f))
            else:
                viol.append(f)
        for k, f in matched:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']} [{f['where']}]")
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the current source tree; nothing of the '
                               'analysed program is executed. Rules: ' + ' '.join(
                                   f"({n}) {t}" for n, t in self.rules.items()),
                'counts': self.counts,
                'rules': self.rules,
                'samples': self.samples,
                'known_findings_seen': [f['key'] for _, f in matched],
                'notes': self.notes,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(viol),
        }
        d = os.environ.get('VERIF_OUT') or os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{self.pid}.violations.json")
        if viol:
            with open(replay, 'w') as fh:
                json.dump({'property': self.pid, 'repo': repo_root(), 'violations': viol,
                           'replay': f"python3 {HERE}/check.py {self.pid}"}, fh, indent=1)
        elif os.path.exists(replay):
            os.remove(replay)
        with open(os.path.join(d, f"{self.pid}.json"), 'w') as fh:
            json.dump(ev, fh, indent=1)
        print(f"{self.pid}: " + ', '.join(f"{k}={v}" for k, v in self.counts.items()))
        for f in viol:
            print(f"  {f['rule']} {f['where']}: {f['message']}  [{f['key']}]")
        if viol:
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        print(f"{self.pid}: holds on everything analysed ({ev['wall_s']} s)")
        return 0


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as fh:
        return json.load(fh)['findings']


def contract(name):
    with open(os.path.join(HERE, 'contracts', name)) as fh:
        return json.load(fh)


def has_contract(name):
    return os.path.exists(os.path.join(HERE, 'contracts', name))


def write_contract(name, obj):
    with open(os.path.join(HERE, 'contracts', name), 'w') as fh:
        json.dump(obj, fh, indent=1, sort_keys=True)
        fh.write('\n')
