"""Case registration shared by both worlds (symbolic CPython and the real PyPy runtime).

Harness modules live in /verif/props.  Each defines cases with the `case` decorator; the
decorated function takes a context `ctx` and the case parameters and uses only the public
API of skcurve plus the context methods documented in symctx.py / conctx.py.
"""
import itertools


class Registry:
    def __init__(self):
        self.cases = {}      # (module, name) -> (fn, params, opts)

    def add(self, name, fn, params, opts):
        key = (fn.__module__, name)
        assert key not in self.cases, key
        self.cases[key] = (fn, params, opts)

    def of(self, module):
        return {n: v for (m, n), v in self.cases.items() if m == module}


REG = Registry()


def case(_tier='quick', _where=None, _name=None, _opts=None, _cost=1, _thorough=None, **grid):
    """Registers one case per point of the parameter grid.

    `_tier`: 'quick' (both tiers) or 'thorough' (thorough only).
    `_thorough`: dict of parameter -> extra values explored by the thorough tier only.
    `_where`: predicate over the parameters, drops meaningless combinations.
    """
    def deco(fn):
        keys = list(grid)
        ext = dict(_thorough or {})
        full = [list(grid[k]) + [v for v in ext.get(k, []) if v not in grid[k]] for k in keys]
        for combo in itertools.product(*full):
            p = dict(zip(keys, combo))
            if _where is not None and not _where(**p):
                continue
            tier = _tier
            if any(k in ext and p[k] not in grid[k] for k in keys):
                tier = 'thorough'
            nm = (_name or fn.__name__) + ''.join('-%s=%s' % (k, p[k]) for k in keys)
            REG.add(nm, fn, p, {'tier': tier, 'cost': _cost, 'opts': dict(_opts or {})})
        return fn
    return deco
