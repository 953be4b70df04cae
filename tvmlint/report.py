"""Obligations, violations, known findings and evidence of one property's check."""
import json, os, time
from .ir import VERIF, REPO, AnalysisBroken


class Report:
    def __init__(self, prop, tier='quick'):
        self.prop, self.tier = prop, tier
        self.obs = []          # (rule, instance, ok, where, msg)
        self.rules = {}        # rule -> text
        self.funcs = set()
        self.paths = 0
        self.broken = []
        self.t0 = time.time()
        self.notes = []

    def rule(self, rid, text):
        self.rules[rid] = text

    def ob(self, rule, inst, ok, where='', msg=''):
        """Records the obligation `inst` of `rule`."""
        self.obs.append((rule, str(inst), bool(ok), where, msg))
        return bool(ok)

    def bad(self, rule, inst, where, msg):
        return self.ob(rule, inst, False, where, msg)

    def good(self, rule, inst, where=''):
        return self.ob(rule, inst, True, where)

    def floor(self, rule, n):
        """At least n distinct instances must have been analysed, otherwise the rule gives no verdict."""
        k = len({o[1] for o in self.obs if o[0] == rule})
        if k < n:
            self.broken.append('rule %s analysed %d instances, expected at least %d (anchor vanished?)' % (rule, k, n))

    def used(self, eng, paths=()):
        self.funcs |= eng.analysed
        self.paths += len(paths)

    def finish(self, level, explanation, trusted, run_errors=()):
        kf = {}
        p = VERIF + '/known_findings.json'
        if os.path.exists(p):
            for k in json.load(open(p))['findings']:
                if k['property'] == self.prop:
                    kf[(k['rule'], k['instance'])] = k
        fails, known = {}, {}
        for r, i, ok, w, m in self.obs:
            if not ok:
                if (r, i) in kf:
                    known[(r, i)] = (w, m)
                else:
                    fails.setdefault((r, i), (w, m))
        insts = {}
        for r, i, ok, w, m in self.obs:
            insts.setdefault((r, i), True)
            insts[(r, i)] &= ok
        per = {}
        for (r, i), ok in insts.items():
            per.setdefault(r, [0, 0])
            per[r][0] += 1
            per[r][1] += ok
        cov = {'explanation': explanation,
               'rules': [{'id': r, 'rule': self.rules.get(r, ''), 'instances': per.get(r, [0, 0])[0], 'holding': per.get(r, [0, 0])[1]}
                         for r in sorted(set(self.rules) | set(per))],
               'obligations': len(insts), 'discharged': sum(insts.values()),
               'functions_analysed': len(self.funcs), 'path_summaries': self.paths,
               'samples': [{'rule': r, 'instance': i, 'where': w, 'holds': ok} for r, i, ok, w, m in dedup(self.obs)][:400],
               'known_findings': [list(k) for k in known]}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
              'coverage': cov, 'assumptions': list(trusted), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(fails)}
        EV = os.environ.get('TVMLINT_EVID', VERIF + '/evidence')
        os.makedirs(EV, exist_ok=True)
        json.dump(ev, open('%s/%s.json' % (EV, self.prop), 'w'), indent=1)
        for (r, i), (w, m) in sorted(known.items()):
            print('KNOWN-FINDING: property=%s %s [%s %s at %s]' % (self.prop, kf[(r, i)].get('what', m), r, i, w))
        for r in sorted(per):
            print('  %-10s %4d/%d  %s' % (r, per[r][1], per[r][0], self.rules.get(r, '')[:150]))
        if fails:
            rp = '%s/%s.violations.json' % (EV, self.prop)
            json.dump([{'rule': r, 'rule_text': self.rules.get(r, ''), 'instance': i, 'where': w, 'message': m} for (r, i), (w, m) in sorted(fails.items())],
                      open(rp, 'w'), indent=1)
            for (r, i), (w, m) in sorted(fails.items()):
                print('  violated: [%s] %s at %s: %s' % (r, i, w, m))
            for b in self.broken:
                print('  note: ' + b)
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.broken:
            for b in self.broken:
                print('ANALYSIS-BROKEN property=%s: %s' % (self.prop, b))
            return 2
        print('OK property=%s: %d obligations hold, %d functions analysed' % (self.prop, len(insts), len(self.funcs)))
        return 0


def dedup(obs):
    seen = set()
    for o in obs:
        if (o[0], o[1]) not in seen:
            seen.add((o[0], o[1]))
            yield o
