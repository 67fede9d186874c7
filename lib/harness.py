"""Common frame of every check: seed, tier, evidence, violations, findings."""
from __future__ import annotations
import json, os, sys, time, traceback, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')


class Check:
    """Collects what one run of one property's check explored and found."""

    def __init__(self, prop: str, tier: str, seed: int) -> None:
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples: list = []
        self.assumptions: list[str] = []
        self.violations: list[dict] = []
        self.extra: dict = {}
        self.exhaustive = True
        self.rng = random.Random(f'{prop}:{seed}')
        self.known = []
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                line = line.strip()
                if line.startswith('{'):
                    rec = json.loads(line)
                    if rec.get('property') == prop and rec.get('status') == 'known':
                        self.known.append(rec)
        self.known_hits: dict[str, dict] = {}

    @property
    def thorough(self) -> bool:
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, res, label: str) -> None:
        """Account for one TLC run."""
        self.states += res.states
        self.transitions += res.transitions
        self.extra.setdefault('models', []).append(
            {'model': label, 'states': res.states,
             'transitions': res.transitions, 'wall_s': round(res.wall, 2)})
        if res.violated:
            self.violation({'kind': 'model', 'model': label,
                            'violated': res.violated, 'trace': res.trace},
                           f'model:{label}:{res.violated}')

    def traced(self, n: int, label: str | None = None) -> None:
        self.traces += n
        if label:
            d = self.extra.setdefault('conformance', {})
            d[label] = d.get(label, 0) + n

    def sample(self, value) -> None:
        if len(self.samples) < 8:
            self.samples.append(value)

    def violation(self, detail: dict, key: str) -> None:
        """`key` identifies the failing input / call site / history."""
        for rec in self.known:
            if rec['key'] == key:
                self.known_hits[key] = rec
                return
        self.violations.append({'key': key, **detail})

    def finish(self) -> int:
        os.makedirs(EVID, exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples, **self.extra}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        with open(os.path.join(EVID, f'{self.prop}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        for rec in self.known_hits.values():
            print(f'KNOWN-FINDING: property={self.prop} {rec["what"]}')
        old = os.path.join(EVID, 'replay', f'{self.prop}.json')
        if os.path.exists(old):
            os.remove(old)
        if self.violations:
            rdir = os.path.join(EVID, 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{self.prop}.json')
            with open(path, 'w') as fh:
                json.dump(self.violations[:40], fh, indent=1, default=str)
            seen: dict[str, int] = {}
            for v in self.violations:
                seen[v['key']] = seen.get(v['key'], 0) + 1
            for i, (k, n) in enumerate(seen.items()):
                if i < 12:
                    v = next(v for v in self.violations if v['key'] == k)
                    print(f'# {n}x {k}: {json.dumps(v, default=str)[:600 if i < 3 else 160]}')
            print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        print(f'OK property={self.prop} states={self.states} '
              f'transitions={self.transitions} conformance={self.traces} '
              f'wall={time.time() - self.t0:.1f}s')
        return 0
