class Task:
    """One harness with fixed bounds.

    fn(e, rt, **params); `covers` are labels some explored path must reach.
    preempt: pre-emption bound; shards: split of the exploration by the position of
    the first pre-emption; gran: scheduling granularity (line / instr)."""

    def __init__(self, name, fn, params=None, covers=(), tier='quick', preempt=0,
                 shards=1, gran='line', max_steps=20000, tmax=300.0, limit=500,
                 free_switch=True, kind='explore'):
        self.name, self.fn, self.params = name, fn, params or {}
        self.covers, self.tier = set(covers), tier
        self.preempt, self.shards, self.gran = preempt, shards, gran
        self.max_steps, self.tmax, self.limit = max_steps, tmax, limit
        self.free_switch = free_switch
        self.kind = kind  # 'explore' or 'smt' (fn(rt, ctx) builds its own queries)
