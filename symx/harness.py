"""declaration of harnesses"""


class Harness:
    def __init__(self, fn, name=None, bounds="", functions=(), quick_s=60, thorough_s=600, tiers=("quick", "thorough"),
                 max_paths=20000, prove_timeout=10000, batch=True, overrides=None, extra=None, setup=None, custom=None,
                 replay=None, weight=1):
        self.fn = fn
        self.name = name or fn.__name__
        self.bounds = bounds
        self.functions = list(functions)
        self._b = {"quick": quick_s, "thorough": thorough_s}
        self.tiers = tiers
        self.max_paths = max_paths
        self.prove_timeout = prove_timeout
        self.batch = batch
        self.overrides = overrides
        self.extra = extra
        self.setup = setup
        self.custom = custom
        self.replay = replay
        self.weight = weight

    def budget(self, tier):
        return self._b[tier]


class Registry(list):
    """HARNESSES = Registry(); @HARNESSES.add(bounds=..., functions=[...])"""

    def add(self, **kw):
        def deco(f):
            self.append(Harness(f, **kw))
            return f

        return deco

    def each(self, params, **kw):
        """one harness per parameter tuple: fn(ctx, *params); each runs in its own process"""

        def deco(f):
            for key, p in params.items():
                k = dict(kw)
                b = k.pop("bounds", "")
                self.append(Harness((lambda p: lambda c: f(c, *p))(p if isinstance(p, tuple) else (p,)),
                                    name="%s.%s" % (f.__name__, key), bounds="%s [%s]" % (b, key), **k))
            return f

        return deco
