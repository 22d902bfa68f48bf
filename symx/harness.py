"""Harness description"""


class Harness:
    def __init__(self, fn, name=None, weight=1.0, order='dfs', quick=None, thorough=None, bounds='', hang_ok=False, strata=3):
        self.fn = fn
        self.name = name or fn.__name__
        self.weight = weight
        self.order = order
        self.quick = quick or {}
        self.thorough = dict(self.quick, **(thorough or {}))
        self.bounds = bounds
        self.hang_ok = hang_ok
        self.strata = strata if order == 'random' else 0
