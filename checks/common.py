"""Bookkeeping shared by the bounded contract checks."""
import hashlib, json, os
from lib import cli, build


class Cases:
    """counts of one bounded check, measured while it runs"""

    def __init__(self):
        self.n = 0
        self.seen = set()
        self.by = {}
        self.samples = []

    def add(self, rule, key, sample=None, nontrivial=True):
        self.n += 1
        self.by[rule] = self.by.get(rule, 0) + 1
        if nontrivial:
            self.seen.add(hashlib.md5(repr((rule, key)).encode()).digest())
        if sample is not None and sum(1 for s in self.samples if s['rule'] == rule) < 1 and len(self.samples) < 12:
            self.samples.append(dict(rule=rule, case=sample))

    def into(self, rep, rule, bound):
        c = rep.coverage
        c['evaluations'] = c.get('evaluations', 0) + self.n
        c['distinct_nontrivial'] = c.get('distinct_nontrivial', 0) + len(self.seen)
        c.setdefault('rule', rule)
        c.setdefault('samples', []).extend(self.samples)
        c['bounded'] = dict(by_contract=self.by, bound=bound, counted_as_proved=False)


def clip(s, n=600):
    s = s if isinstance(s, str) else s.decode(errors='replace')
    return s if len(s) <= n else s[:n] + '...'


def diag(r):
    e = [l for l in r.err.splitlines() if l.strip() and 'RUST_BACKTRACE' not in l]
    return clip(' | '.join(e), 300)
