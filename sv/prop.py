"""registration of properties and their harness cases"""
REG = {}


class Prop:
    def __init__(self, pid, bounds='', assumptions=(), outside=''):
        self.pid = pid
        self.cases = []
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.outside = outside
        REG[pid] = self

    def case(self, name=None, quick=(None,), thorough=None, budget=100, tbudget=None, **cfg):
        def deco(f):
            self.cases.append(dict(name=name or f.__name__, fn=f, quick=list(quick),
                                   thorough=list(thorough) if thorough is not None else list(quick), budget=budget,
                                   tbudget=tbudget or max(600, budget * 6), cfg=cfg))
            return f
        return deco
