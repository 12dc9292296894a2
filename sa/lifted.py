"""Lifting of traced functions with named inputs/outputs."""

import numpy as np
from fractions import Fraction
from jax import numpy as jnp

from . import terms as T
from .terms import leaf, rf_atom, mkatom
from . import lift as L
from . import frontend as F


class Result:
    def __init__(self, ir, outs, lifter):
        self.ir, self.lifter = ir, lifter
        self.out = dict(zip(ir.out_names, outs))

    def __getitem__(self, k):
        if k not in self.out:
            raise F.MissingAnchor(f'output {k!r} of {self.ir.label}')
        return self.out[k]


class SummaryLifter(L.Lifter):
    """Lifter with opaque call nodes."""

    def __init__(self, *a, call_ranges=None, **kw):
        super().__init__(*a, **kw)
        self.calls = []
        self.call_ranges = call_ranges or {}

    def p_summary(self, e, *ins):
        p = e.params
        name = p['name']
        key = (name,) + tuple(x.id for a in ins for x in a.ravel())
        for a, v in zip(ins, e.invars):
            if L.is_key(v.aval.dtype):
                for k in a.ravel():
                    self.use_key(k, 'call', e, name)
        ident = None
        for c in self.calls:
            if c['key'] == key:
                ident = c['id']
        cid = len(self.calls) if ident is None else ident
        outs = []
        rng = self.call_ranges.get(name, {})
        for q, (nm, v) in enumerate(zip(p['out_names'], e.outvars)):
            outs.append(L.make_input(f'{name}#{cid}.{nm}', v.aval.shape, v.aval.dtype, **rng.get(nm, {})))
        self.calls.append(dict(key=key, id=cid, name=name, args=dict(zip(p['in_names'], ins)),
                               static=p['static'].values, guard=self.guard, loc=L.eqn_loc(e),
                               out=dict(zip(p['out_names'], outs))))
        return outs


def lift(ir, inputs=None, ranges=None, cut=None, lifter=None):
    """inputs: name -> array of nodes (overrides); ranges: name -> kwargs of
    make_input for the remaining inputs."""
    inputs, ranges = inputs or {}, ranges or {}
    args = []
    given = {}
    for nm, av in zip(ir.in_names, ir.in_avals):
        if nm in inputs:
            a = inputs[nm]
            if not isinstance(a, np.ndarray):
                a = L.scalar(a)
            assert a.shape == tuple(av.shape), (nm, a.shape, av.shape)
        else:
            a = L.make_input(nm, av.shape, av.dtype, **ranges.get(nm, {}))
        given[nm] = a
        args.append(a)
    lf = lifter or SummaryLifter(cut=cut)
    outs = lf.run(ir.closed, args)
    r = Result(ir, outs, lf)
    r.inp = given
    return r
