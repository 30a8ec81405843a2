"""C03: delete-min order, conservation and size."""
from xv.bgpqh import history as _h


def history(ctx, **kw):
    _h(ctx, pairs=False, **kw)
