"""C04: key-value pairing."""
from xv.bgpqh import history as _h


def history(ctx, **kw):
    _h(ctx, pairs=True, **kw)
