"""Verdict, replay files and evidence of one check."""
import os, json, time, sys
from . import build

V = build.VERIF


def known_findings():
    p = V + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return json.load(open(p))


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations = []     # (key, text, replay, confirmed)
        self.undecided = []
        self.known = []
        self.coverage = {}
        self.assumptions = []
        self.level = 'other'
        self.kf = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']

    def violation(self, key, text, replay=None, confirmed=True):
        """key identifies the failing input / call site / obligation"""
        for k in self.kf:
            if k['key'] == key:
                self.note_known(k)
                return
        self.violations.append((key, text, replay or {}, confirmed))

    def note_known(self, k):
        if k not in self.known:
            self.known.append(k)

    def undecide(self, what):
        self.undecided.append(what)

    def finish(self):
        rd = V + '/build/replays'
        os.makedirs(rd, exist_ok=True)
        lines = []
        # confirmed first, one line per violation, at most 20
        vs = sorted(self.violations, key=lambda v: not v[3])
        seen = set()
        uniq = []
        for v in vs:
            if v[0] not in seen:
                seen.add(v[0])
                uniq.append(v)
        for n, (key, text, replay, conf) in enumerate(uniq[:20]):
            p = '%s/%s-%d.json' % (rd, self.pid, n)
            with open(p, 'w') as fh:
                json.dump(dict(property=self.pid, key=key, what=text, confirmed_by_execution=conf, **replay), fh, indent=1, default=str)
            print('%s: %s' % (self.pid, text))
            lines.append('VIOLATION property=%s replay=%s%s' % (self.pid, p, '' if conf else ' no-failing-input-found'))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for u in self.undecided[:40]:
            print('UNDECIDED %s: %s' % (self.pid, u[:300]))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.coverage,
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions,
                  violations=len(uniq))
        ev['coverage']['violated'] = [dict(key=k, what=t, replayed=c) for k, t, _, c in uniq]
        ev['coverage']['undecided'] = self.undecided[:60]
        ev['coverage']['known_findings'] = [k['what'] for k in self.known]
        evd = os.environ.get('VERIF_EVIDENCE') or V + '/evidence'
        os.makedirs(evd, exist_ok=True)
        tmp = evd + '/%s.json' % self.pid
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        for l in lines:
            print(l)
        print('%s %s in %.1f s: %s' % (self.pid, self.tier, time.time() - self.t0,
                                       'violated' if uniq else 'held on everything explored'))
        sys.stdout.flush()
        return 1 if uniq else 0
