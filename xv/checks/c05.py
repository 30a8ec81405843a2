"""C05: behaviour beyond capacity."""
from xv.bgpqh import overflow  # noqa: F401
