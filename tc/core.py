"""Obligations, findings, evidence and the command line shared by every check."""
import json
import os
import sys
import time
import traceback

from .pyrepo import AnalysisBroken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


EVID = os.environ.get('TC_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Check:
    def __init__(self, prop, tier='quick', seed=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rules = {}             # rule -> description
        self.counts = {}            # rule -> obligations decided
        self.minimum = {}           # rule -> hand-confirmed minimum
        self.samples = {}           # rule -> some obligations written out
        self.viol = []              # dict(rule, construct, where, msg)
        self.assumptions = []
        self.analysed = set()       # functions / units looked at

    def rule(self, name, text, minimum=1):
        self.rules[name] = text
        self.counts.setdefault(name, 0)
        self.minimum[name] = minimum

    def ob(self, rule, construct, ok, msg='', where=''):
        """One obligation of `rule` on `construct`; a false one is a violation."""
        if rule not in self.rules:
            raise AnalysisBroken('undeclared rule %s' % rule)
        self.counts[rule] += 1
        s = self.samples.setdefault(rule, [])
        if len(s) < 6:
            s.append('%s%s: %s' % (construct, ' @ ' + where if where else '', 'holds' if ok else 'VIOLATED ' + msg))
        if not ok:
            key = (rule, construct)
            if not any((v['rule'], v['construct']) == key for v in self.viol):
                self.viol.append({'rule': rule, 'construct': construct, 'where': where, 'msg': msg})
        return ok

    def saw(self, *names):
        self.analysed.update(str(n) for n in names)

    def saw_flow(self, flow):
        for m, f, c in flow.nfuncs:
            self.analysed.add('%s.%s%s' % (m, (c + '.') if c else '', f))


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            # finding: property=C01 rule=<rule> construct=<construct> :: text
            head, _, text = line[len('finding:'):].partition('::')
            d = {}
            for tok in head.split():
                k, _, v = tok.partition('=')
                d[k] = v
            out[(d.get('property'), d.get('rule'), d.get('construct'))] = text.strip()
    return out


def run_check(prop, fn, tier, seed, title=''):
    t0 = time.time()
    ck = Check(prop, tier, seed)
    broken = None
    try:
        fn(ck)
        low = ['%s: %d < %d' % (r, ck.counts[r], ck.minimum[r]) for r in ck.rules
               if ck.counts[r] < ck.minimum[r]]
        if low and not ck.viol:
            broken = 'rule instances fell below the confirmed minimum: ' + '; '.join(low)
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    known = load_known()
    fresh, listed = [], []
    for v in ck.viol:
        k = (prop, v['rule'], v['construct'].replace(' ', '_'))
        (listed if k in known else fresh).append(v)
    wall = time.time() - t0
    total = sum(ck.counts.values())
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the sources under %s. %s' % (
                REPO, ' '.join('[%s] %s' % (r, t) for r, t in ck.rules.items())),
            'obligations_decided': total,
            'obligations_failed': len(ck.viol),
            'obligations_per_rule': dict(ck.counts),
            'functions_analysed': len(ck.analysed),
            'functions': sorted(ck.analysed)[:400],
            'samples': [x for r in ck.samples for x in ck.samples[r]][:60],
        },
        'wall_s': round(wall, 3),
        'assumptions': ck.assumptions,
        'violations': [dict(v) for v in fresh],
        'known_findings': [dict(v) for v in listed],
    }
    if broken:
        ev['coverage']['analysis_broken'] = broken
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in listed:
        print('KNOWN-FINDING: property=%s %s %s: %s' % (prop, v['rule'], v['construct'], v['msg']))
    print('%s: %d obligations over %d functions in %.1fs: %s' % (
        prop, total, len(ck.analysed), wall, ', '.join('%s=%d' % kv for kv in sorted(ck.counts.items()))))
    if fresh:
        rep = os.path.join(EVID, prop + '.violation.txt')
        with open(rep, 'w') as f:
            for v in fresh:
                f.write('%s\n  rule: %s -- %s\n  at: %s\n  %s\n' % (
                    v['construct'], v['rule'], ck.rules[v['rule']], v['where'], v['msg']))
        for v in fresh[:20]:
            print('  %s | %s | %s | %s' % (v['rule'], v['construct'], v['where'], v['msg'][:600]))
        if broken:
            print('  (analysis also incomplete: %s)' % broken.splitlines()[-1])
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if broken:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, broken))
        return 3
    return 0


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    props = a.prop or sorted(checks)
    sys.setrecursionlimit(20000)
    rc = 0
    for p in props:
        r = run_check(p, checks[p], a.tier, seed)
        rc = max(rc, r) if rc != 1 else 1
        if r == 1:
            rc = 1
    sys.exit(rc)
