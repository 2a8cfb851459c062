"""Observation log of one case: what the monitors saw and what they objected to."""


class Obs:
    def __init__(self, prop, seed, index):
        self.prop, self.seed, self.index = prop, seed, index
        self.counts = {}
        self.violations = []
        self.sigs = set()
        self.samples = []
        self.case = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def sig(self, *parts):
        """Signature of a distinct non-trivial situation reached by this case."""
        self.sigs.add('|'.join(str(p) for p in parts))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def fail(self, mech, msg):
        if len(self.violations) < 5:
            self.violations.append({'mech': mech, 'msg': str(msg)[:1500]})

    def check(self, cond, mech, msg=''):
        self.count('assertions')
        if not cond:
            self.fail(mech, msg() if callable(msg) else msg)
        return bool(cond)

    def to_json(self):
        return dict(index=self.index, counts=self.counts, violations=self.violations, sigs=sorted(self.sigs),
                    samples=self.samples, case=self.case)
