"""Strategies shared by the properties. Everything they make is plain data."""

from __future__ import annotations

import struct
from typing import Any

from hypothesis import strategies as st

from vt import ref

PRIMS = list(ref.PRIMS)
prims = st.sampled_from(PRIMS)
# small types more often: more elements fit, more frame boundaries are hit
NUMERIC = [x for x in PRIMS if x != "BOOLEAN"]


def f32(value: float) -> float:
    """Round to what a 32-bit float holds."""
    return struct.unpack(">f", struct.pack(">f", value))[0]


_SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.1, 1e-40, 3.4028234663852886e38, 1e10]


def value_of(prim: str) -> Any:
    """Values a channel of a type holds, biased to the edges of the type."""
    if prim == "BOOLEAN":
        return st.booleans()
    if prim == "FLOAT":
        return st.one_of(
            st.sampled_from(_SPECIAL),
            st.integers(-1000, 1000).map(float),
            st.floats(width=32, allow_nan=False),
            st.floats(-1e6, 1e6),
        )
    if prim == "DOUBLE":
        return st.one_of(
            st.sampled_from(_SPECIAL + [1e300, -1e300, 5e-324]),
            st.integers(-1000, 1000).map(float),
            st.floats(allow_nan=False),
        )
    low, high = ref.bounds(prim)
    return st.one_of(
        st.integers(max(low, -3), 3),
        st.sampled_from([low, high, low + 1, high - 1]),
        st.integers(low, high),
    )


def any_value() -> Any:
    """A (primitive, value) pair."""
    return prims.flatmap(lambda p: st.tuples(st.just(p), value_of(p)))


# times that a binary float holds exactly, so that milliseconds are exact
def exact_times(high: int = 4000) -> Any:
    """Multiples of 1/8 s."""
    return st.integers(0, high).map(lambda x: x / 8.0)


rates = st.one_of(
    st.just(0.0),
    st.integers(1, 40).map(lambda x: x / 8.0),
)
names = st.text(
    alphabet=st.characters(codec="utf-8", exclude_categories=("Cs",)),
    min_size=1,
    max_size=12,
)
idents = st.from_regex(r"[a-z][a-z0-9_]{0,10}", fullmatch=True)


def weighted(*pairs: Any) -> Any:
    """One of several strategies, picked by weight."""
    bag = []
    for weight, strat in pairs:
        bag.extend([strat] * weight)
    return st.sampled_from(range(len(bag))).flatmap(lambda i: bag[i])
