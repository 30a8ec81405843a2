"""C08: contents independent of how records were inserted; every slot usable."""
import numpy as np

from xv.tableh import Shadow, get_type, pick_rows, slots_of


class _Same(Shadow):
    """a Shadow over a given pool."""

    def __init__(self, base, seed, capacity, bucket, mult, B):
        self.ctx, self.C, self.rng, self.B = base.ctx, base.C, base.rng, B
        self.pool, self.pk, self.n = base.pool, base.pk, base.n
        from xtructure import HashTable
        self.t = HashTable.build(self.C, seed, capacity, bucket_size=bucket, hash_size_multiplier=mult)
        self.slots = slots_of(capacity, bucket, mult)
        self.limit, self.limited = self.slots, False
        self.model, self.trace = {}, []
        self.info = dict(seed=seed, capacity=capacity, bucket_size=bucket, multiplier=mult, slots=self.slots)


def feed(S, rows, how, B):
    """insert the given pool rows (in that order) by single inserts, batches, or both."""
    rng = S.rng
    rows = list(rows)
    while rows:
        single = how == "single" or (how == "mix" and rng.random() < 0.5)
        if single:
            S.insert(int(rows.pop(0)))
        else:
            k = min(len(rows), int(rng.integers(1, B + 1)) if how != "batch" else B)
            part, rows = rows[:k], rows[k:]
            pos = rng.permutation(B)[:k]
            full = rng.integers(0, S.n, size=B)
            mask = np.zeros(B, bool)
            full[pos], mask[pos] = part, True
            S.parallel(full, mask, "array", contract=False)


def layouts(ctx, cls, configs, nrec, B, weak=None, near=0.5, mode="uniform"):
    C = get_type(cls, weak)
    rng = ctx.rng
    base = Shadow(ctx, C, 0, 8, 8, 2, None, B, nrec + 20, near, mode)
    chosen = rng.permutation(base.n)[:nrec]
    want = {base.pk[i] for i in chosen}
    for cap, bucket, mult in configs:
        for how in ("batch", "mix", "single"):
            S = _Same(base, int(rng.integers(0, 2**31)), cap, bucket, mult, B)
            order = rng.permutation(np.concatenate([chosen, chosen[rng.integers(0, nrec, size=nrec // 3)]]))
            if how == "single":
                order = order[:60] if nrec > 60 else order
                feed(S, order, how, B)
                feed(S, chosen, "batch", B)
            else:
                feed(S, order, how, B)
            S.req(set(S.model) == want, "contents", f"layout {S.info} fed by {how}: the set of records held differs", missing=len(want - set(S.model)), extra=len(set(S.model) - want))
            S.audit()
            ctx.ev("layouts")
            ctx.case(cap, bucket, mult, how, S.info["seed"], nrec)
    ctx.sample(dict(type=cls, records=nrec, configs=configs))


def fill(ctx, cls, capacity, bucket, mult, B, how, weak=None, mode="uniform", seed=0, near=0.5):
    """every slot gets used before a new record is refused, and nothing is lost."""
    C = get_type(cls, weak)
    rng = ctx.rng
    slots = slots_of(capacity, bucket, mult)
    S = Shadow(ctx, C, seed, capacity, bucket, mult, None, B, slots + max(6, B), near, mode)
    order = rng.permutation(S.n)
    feed(S, order[:slots], how, B)
    S.req(len(S.model) == slots, "not-full", f"only {len(S.model)} of {slots} slots could be filled")
    ctx.ev("tables_filled")
    S.audit()
    feed(S, order[slots:], "mix", B)   # all refused
    S.req(len(S.model) == slots, "overfull", "a full table took another record")
    for i in order[:5]:
        S.insert(int(i))
    S.audit()
    ctx.case(capacity, bucket, mult, how, B, order)
    ctx.sample(dict(type=cls, slots=slots, bucket_size=bucket, how=how))
