"""C07: a channel only ever holds values of its type that can be sent."""

from __future__ import annotations

import math
from typing import Any

from hypothesis import strategies as st
from vtelem.classes.type_primitive import TypePrimitive
from vtelem.enums.primitive import Primitive, to_dict

from vt import envs, gen, model, ref
from vt.core import Facet, Prop, Rec, check, same, short

KINDS = [
    "set",
    "now",
    "add",
    "command",
    "increment",
    "by-name",
    "by-id",
]


@st.composite
def cases(draw: Any) -> Any:
    """Histories with many values that don't fit."""
    return {
        "env": draw(envs.specs),
        "steps": draw(
            model.histories(
                {"assign": 14, "dispatch": 3, "add": 2, "time": 1},
                KINDS,
                wrong=5,
                max_chans=8,
                max_steps=40,
                rates=st.just(0.0),
                hows=("plain",),
                back=False,
            )
        ),
    }


def run(case: Any, rec: Rec) -> None:
    """Acceptance, value and time are those of the model."""
    driver = model.run(case, {"accept", "held", "sent"})
    stats = driver.stats
    refused = sum(v for k, v in stats.items() if k.startswith("refuse"))
    taken = sum(v for k, v in stats.items() if k.startswith("accept"))
    rec.count("refused", refused)
    rec.count("accepted", taken)
    rec.nontrivial(refused and taken)


# -- one value, one primitive -------------------------------------------------


@st.composite
def singles(draw: Any) -> Any:
    """A type with a value at one of its edges, or any other value."""
    prim = draw(gen.prims)
    edges: Any = st.nothing()
    if ref.is_int(prim):
        low, high = ref.bounds(prim)
        edges = st.sampled_from(
            [low - 1, low, low + 1, high - 1, high, high + 1, -high, 2 * high]
        )
    return {
        "prim": prim,
        "other": draw(st.sampled_from([prim, prim] + gen.PRIMS)),
        "first": draw(gen.value_of(prim)),
        "value": draw(
            st.one_of(edges, gen.value_of(prim), model.WRONG)
            if ref.is_int(prim)
            else st.one_of(gen.value_of(prim), model.WRONG)
        ),
        "add": draw(st.booleans()),
        "time": draw(st.one_of(st.none(), gen.exact_times())),
    }


def run_single(case: Any, rec: Rec) -> None:
    """What is accepted can be encoded, what isn't leaves no trace."""
    prim, value = case["prim"], case["value"]
    elem = TypePrimitive(Primitive[prim])
    check(elem.set(case["first"], 5.0), f"{prim} rejects {case['first']!r}")
    want = model.plus(case["first"], value) if case["add"] else value
    good = model.accepts(prim, want)
    if case["add"]:
        result = elem.add(value, case["time"])
    else:
        result = elem.set(value, case["time"])
    check(
        result is good,
        f"{'adding' if case['add'] else 'setting'} {short(value)} on {prim} "
        f"holding {case['first']!r} returned {result}",
    )
    if good:
        check(
            model.alike(elem.get(), model.stored(prim, want)),
            f"{prim} reads {elem.get()!r} after {short(want)}",
        )
        same(elem.last_set, case["time"] or 0.0, "assignment time")
    else:
        check(
            model.alike(elem.get(), model.stored(prim, case["first"])),
            f"refused value changed {case['first']!r} to {elem.get()!r}",
        )
        same(elem.last_set, 5.0, "assignment time after a refusal")
    data = elem.buffer()
    same(data, ref.pack(prim, elem.get()), "encoded value")
    same(elem.size(), len(data), "size of the type")
    # what's equal has the same type
    other = TypePrimitive(Primitive[case["other"]])
    if math.isfinite(elem.get()) and other.set(elem.get()):
        same(elem == other, case["other"] == prim, "equality")
        other = TypePrimitive(Primitive[case["other"]])
        if case["other"] == prim and abs(elem.get()) >= 1:
            same(elem == other, False, "equality of different values")
    rec.label("accepted" if good else "refused", prim)
    if isinstance(value, float) and not math.isfinite(value):
        rec.label("non-finite")
    rec.nontrivial()


# -- the limits that are described --------------------------------------------

described = st.fixed_dictionaries({"prim": gen.prims})


def run_described(case: Any, rec: Rec) -> None:
    """The described limits are the ones that are enforced."""
    prim = case["prim"]
    data = to_dict(Primitive[prim])
    same(data["size"], ref.size_of(prim), "described size")
    same(data["integer"], ref.is_int(prim), "described as an integer")
    same(data["name"], prim.lower(), "described name")
    if ref.is_int(prim):
        low, high = ref.bounds(prim)
        same((data["min"], data["max"]), (low, high), f"limits of {prim}")
        same(data["signed"], low < 0, f"signedness of {prim}")
        for value, good in (
            (low, True),
            (high, True),
            (low - 1, False),
            (high + 1, False),
        ):
            elem = TypePrimitive(Primitive[prim])
            same(elem.set(value), good, f"setting {prim} to {value}")
    rec.nontrivial()


PROP = Prop(
    "C07",
    [
        Facet(
            "histories",
            lambda: cases(),
            run,
            900,
            rule="histories with about half of the values unacceptable; "
            "non-trivial = accepted and refused assignments",
        ),
        Facet(
            "single",
            lambda: singles(),
            run_single,
            4000,
            rule="one assignment to one primitive; all count",
        ),
        Facet(
            "limits",
            lambda: described,
            run_described,
            40,
            rule="limits described for a type against those enforced; all count",
        ),
    ],
    more=2,
    assumptions=[
        "a bool is an int for Python and is taken by integer channels",
        "an int is not taken by float channels",
        "a float beyond what 32 bits can encode is out of range for FLOAT",
    ],
)
