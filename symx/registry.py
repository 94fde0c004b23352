"""Jobs: one harness with one set of parameters, belonging to one property."""
JOBS = []


class Job:
    def __init__(self, prop, name, fn, params, bounds, opts, tier, finding):
        self.prop, self.name, self.fn = prop, name, fn
        self.params, self.bounds, self.opts = params, bounds, opts
        self.tier = tier
        self.finding = finding

    @property
    def key(self):
        p = ",".join(f"{k}={v}" for k, v in self.params.items())
        return f"{self.name}({p})" if p else self.name


def job(prop, name=None, params=None, bounds="", tier="quick", thorough_params=None, finding=None, **opts):
    """tier: 'quick' jobs run in both tiers, 'thorough' jobs only in the thorough one."""
    def deco(fn):
        for p in (params or [{}]):
            JOBS.append(Job(prop, name or fn.__name__, fn, p, bounds, opts, tier, finding))
        for p in (thorough_params or []):
            JOBS.append(Job(prop, name or fn.__name__, fn, p, bounds, opts, "thorough", finding))
        return fn
    return deco
