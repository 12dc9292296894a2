"""Reporting: obligations, violations, evidence."""

import json
import os
import time
import traceback

from . import terms as T
from . import frontend as F

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Enough(BaseException):
    """Further violations would add nothing."""


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obligations = 0
        self.discharged = 0
        self.violations = []
        self.samples = []
        self.analysed = {}
        self.rules = {}
        self.configs = []
        self.notes = []
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def ir(self, ir):
        self.analysed[ir.label] = max(self.analysed.get(ir.label, 0), ir.neqns)

    def config(self, c):
        self.configs.append(str(c))

    def ok(self, rule, cond, what, loc, detail=''):
        """One obligation with an already decided outcome."""
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if cond:
            self.discharged += 1
            if len(self.samples) < 12 and self.rules[rule] == 1:
                self.samples.append(f'{rule}: {what}')
            return True
        self.violations.append(dict(rule=rule, construct=loc, what=what, detail=str(detail)[:3000]))
        if len(self.violations) >= 40 and time.time() - self.t0 > 60:
            raise Enough
        return False

    def same(self, rule, got, want, what, loc, assume=None, root=False):
        """Obligation: two value numbers are equal. With `root`, the value
        required is not negative and may be written as the root of its square."""
        w = T.difference(got, want, assume)
        if w is not None and root and all(T.rf_interval(r)[0] >= 0 for r in T.leaf_set(got)):
            w = T.difference(T.mul(got, got), T.mul(want, want), assume) and w
        if w is None:
            return self.ok(rule, True, what, loc)
        path, rf = w
        return self.ok(rule, False, what, loc,
                       f'under {T.path_str(path)}: difference {T.rf_str(rf, 2)[:600]}; '
                       f'code computes {T.node_str(got, 2, 4)[:800]}; rule requires {T.node_str(want, 2, 4)[:800]}')

    def same_arr(self, rule, got, want, what, loc, assume=None, root=False):
        import numpy as np
        if got.shape != want.shape:
            return self.ok(rule, False, what, loc, f'shape {got.shape} instead of {want.shape}')
        r = True
        for idx in np.ndindex(*got.shape):
            r &= self.same(rule, got[idx], want[idx], f'{what}{list(idx)}', loc, assume, root)
        return r

    def require(self, n, what, minimum=1):
        """A rule that matched nothing is an error, not a pass."""
        if n < minimum:
            raise F.MissingAnchor(f'{what}: found {n}, expected at least {minimum}')


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def finish(rep, seed, level_note=None):
    known = [k for k in load_known() if k.get('property') == rep.prop and not k.get('fixed')]
    printed = set()
    new = []
    for v in rep.violations:
        hit = None
        for k in known:
            if k['rule'] == v['rule'] and k['construct'] in v['construct'] and k.get('what', '') in v['what']:
                hit = k
                break
        if hit is None:
            new.append(v)
        elif hit['summary'] not in printed:
            printed.add(hit['summary'])
            print(f'KNOWN-FINDING: property={rep.prop} {hit["summary"]}')
    wall = time.time() - rep.t0
    cov = dict(
        explanation=(f'{rep.obligations} obligations over the IR of {len(rep.analysed)} traced functions '
                     f'({sum(rep.analysed.values())} IR equations), {rep.discharged} discharged'),
        obligations=rep.obligations, discharged=rep.discharged,
        rules=rep.rules, analysed=rep.analysed, configurations=rep.configs[:60],
        n_configurations=len(rep.configs),
        samples=rep.samples, notes=rep.notes,
    )
    ev = dict(property=rep.prop, tier=rep.tier, seed=seed, level='other', coverage=cov,
              wall_s=round(wall, 3), violations=len(new),
              assumptions=ASSUMPTIONS)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{rep.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not rep.obligations:
        print(f'ERROR property={rep.prop}: no obligation was generated')
        return 2
    if new:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        path = os.path.join(VERIF, 'replay', f'{rep.prop}.json')
        with open(path, 'w') as f:
            json.dump(new, f, indent=1)
        seen = set()
        for v in new:
            k = (v['rule'], v['construct'])
            if k in seen:
                continue
            seen.add(k)
            print(f'  {v["construct"]}: [{v["rule"]}] {v["what"]}: {v["detail"][:500]}')
        print(f'VIOLATION property={rep.prop} replay={path}')
        return 1
    print(f'OK property={rep.prop}: {rep.discharged}/{rep.obligations} obligations, '
          f'{sum(rep.analysed.values())} IR equations, {wall:.1f}s')
    return 0


ASSUMPTIONS = [
    'JAX front end (make_jaxpr) and library samplers are correct; the IR it emits is the program that runs',
    'values are compared as real numbers: floating point roundoff, NaN inputs and denormals are outside the rules',
    'array extents are those listed under configurations (static in the IR); data values are unconstrained within dtype and documented ranges',
]
