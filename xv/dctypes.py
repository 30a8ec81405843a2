"""Plain dataclasses built with base_dataclass, used by C22 (module level: picklable)."""
import dataclasses
from typing import Any, ClassVar

from xtructure import base_dataclass


@base_dataclass
class B0:
    pass


@base_dataclass
class B1:
    zeta: Any
    alpha: Any
    mid: Any


@base_dataclass(static_fields=("n", "name"))
class B2:
    x: Any
    n: int
    b: Any
    name: str
    a: Any


@base_dataclass(frozen=True)
class B3:
    y: Any
    x: Any


@base_dataclass(frozen=True, static_fields=("meta", "k"))
class B4:
    k: int
    z: Any
    meta: tuple
    q: Any


@base_dataclass(kw_only=True)
class B5:
    p: Any
    o: Any = 5
    m: Any = dataclasses.field(default_factory=dict)


@base_dataclass
class B6(B1):
    beta: Any


@base_dataclass(static_fields=("size",))
class B7:
    inner: Any
    size: int = 3
    extra: Any = None


@base_dataclass(static_fields=("only",))
class B8:
    only: int


@base_dataclass
class B9:
    LIMIT: ClassVar[int] = 7
    v: Any
    _private: Any

    def __post_init__(self):
        if not hasattr(self, "v"):
            raise AssertionError("post-init ran before the fields were set")


@base_dataclass(order=False, eq=False, static_fields=("tag",))
class B10(B1):
    tag: str = "t"


STATIC = {B2: ("n", "name"), B4: ("meta", "k"), B7: ("size",), B8: ("only",), B10: ("tag",)}
FIELDS = {B0: (), B1: ("zeta", "alpha", "mid"), B2: ("x", "n", "b", "name", "a"), B3: ("y", "x"), B4: ("k", "z", "meta", "q"), B5: ("p", "o", "m"), B6: ("zeta", "alpha", "mid", "beta"),
          B7: ("inner", "size", "extra"), B8: ("only",), B9: ("v", "_private"), B10: ("zeta", "alpha", "mid", "tag")}
FROZEN = (B3, B4)
ALL = list(FIELDS)
