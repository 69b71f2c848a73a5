"""Helpers that drive the real telemetry environment from plain data."""

from __future__ import annotations

from typing import Any, Dict, List, Tuple

from hypothesis import strategies as st
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import gen, ref
from vt.core import Violation, check, short

METRICS = 1 + 4 + 3 + 2  # not relied on, only sizes cases


def make_env(spec: Dict[str, Any]) -> TelemetryEnvironment:
    """An environment with the requested options."""
    return TelemetryEnvironment(
        spec["mtu"],
        init_time=spec.get("time"),
        metrics_rate=spec.get("metrics"),
        app_id_basis=spec.get("basis"),
        **checksums(spec),
    )


def checksums(spec: Dict[str, Any]) -> Dict[str, bool]:
    """The argument for whether frames have checksums, which is the default."""
    wanted = spec.get("crc", True)
    return {} if wanted and spec["mtu"] % 2 else {"use_crc": wanted}


def options(**given: Any) -> Dict[str, Any]:
    """Arguments for a channel, those that say what the default is left out."""
    default = {"track_change": False, "initial": None, "commandable": True}
    return {
        name: value for name, value in given.items() if value != default[name]
    }


def drain(env: TelemetryEnvironment) -> List[bytes]:
    """All frames that wait to be sent."""
    result = []
    while not env.frame_queue.empty():
        frame = env.frame_queue.get(timeout=30)
        data, size = frame.raw
        check(
            len(data) == size,
            f"a frame of {len(data)} bytes says its size is {size}",
        )
        result.append(bytes(data))
    return result


def channel_types(env: TelemetryEnvironment) -> Dict[int, Tuple[str, bool]]:
    """What a client learns about channels: identifier -> (type, stream)."""
    result = {}
    for ident in range(env.channel_registry.count()):
        chan = env.channel_registry.get_item(ident)
        check(chan is not None, f"identifier {ident} has no channel")
        result[ident] = (chan.type.name, chan.is_stream)
    return result


def parse(
    data: bytes, types: Dict[int, Tuple[str, bool]], crc: bool
) -> Dict[str, Any]:
    """Decode with the reference, an undecodable frame is a violation."""
    try:
        return ref.parse(data, types, crc)
    except ref.Malformed as exc:
        raise Violation(
            f"frame doesn't follow the wire format: {exc}: "
            f"{short(data.hex())}"
        ) from exc


def min_mtu(prims: List[str], events: bool) -> int:
    """The smallest frame that has room for any one element."""
    best = 0
    for prim in prims:
        size = ref.size_of(prim)
        best = max(best, 2 + (2 * size + 16 if events else size))
    return 15 + 4 + best


specs = st.fixed_dictionaries(
    {
        "mtu": st.one_of(
            st.integers(53, 80), st.integers(81, 300), st.just(1400)
        ),
        "basis": st.sampled_from([0.5, 0.0, 1.0, 0.25, -3.0, 1e-9]),
        "crc": st.booleans(),
        "metrics": st.sampled_from([None, None, 1.0, 0.5]),
        "time": st.one_of(st.none(), gen.exact_times()),
    }
)


@st.composite
def channels(
    draw: Any, max_size: int = 12, unique: bool = True
) -> List[Dict[str, Any]]:
    """Channel definitions with initial values."""
    amount = draw(
        st.one_of(st.integers(1, 4), st.integers(0, max_size))
    )
    result = []
    for num in range(amount):
        prim, value = draw(gen.any_value())
        result.append(
            {
                "name": f"chan{num}" if unique else draw(gen.names),
                "prim": prim,
                "rate": draw(gen.rates),
                "track": draw(st.booleans()),
                "init": draw(
                    st.one_of(
                        st.none(),
                        st.tuples(st.just(value), gen.exact_times()),
                    )
                ),
            }
        )
    return result


def add_channel(env: TelemetryEnvironment, chan: Dict[str, Any]) -> int:
    """Register a channel."""
    return env.add_channel(
        chan["name"],
        Primitive[chan["prim"]],
        chan["rate"],
        **options(
            track_change=chan["track"],
            initial=None if chan["init"] is None else tuple(chan["init"]),
        ),
    )
