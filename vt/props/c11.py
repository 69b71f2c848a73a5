"""C11: enumerations map names to values one-to-one and survive JSON."""

from __future__ import annotations

import enum as pyenum
import json
from typing import Any, Dict, List

from hypothesis import strategies as st
from vtelem.classes.user_enum import UserEnum, from_enum, user_enum
from vtelem.enums.primitive import Primitive
from vtelem.registry.enum import EnumRegistry as LiveRegistry
from vtelem.registry.enum_retry import EnumRegistry
from vtelem.registry.type import get_default
from vtelem.schema.manager import SchemaManager

from vt import gen
from vt.core import Facet, Prop, Rec, check, same, short

labels = st.from_regex(r"[A-Za-z][A-Za-z0-9_]{0,7}", fullmatch=True)
values = st.one_of(st.integers(0, 5), st.integers(0, 255), st.just(255))
# UserEnum's schema only knows letters
plain = st.from_regex(r"[a-z]{1,6}", fullmatch=True)


def mapping(names: Any = labels, high: int = 8) -> Any:
    """One-to-one mappings of values to names (whatever their case)."""
    return st.lists(
        st.tuples(values, names),
        min_size=1,
        max_size=high,
        unique_by=(lambda x: x[0], lambda x: x[1].lower()),
    )


def vary(text: str, how: int) -> str:
    """Another letter case."""
    return "".join(
        x.upper() if (how >> (num % 8)) & 1 else x.lower()
        for num, x in enumerate(text)
    )


def refusal(func: Any, *args: Any) -> bool:
    """Whether a lookup is refused."""
    try:
        func(*args)
    except (AssertionError, KeyError):
        return True
    return False


cases = st.fixed_dictionaries(
    {
        "name": st.one_of(plain, labels),
        "map": mapping(),
        "default": st.one_of(st.none(), st.integers(0, 7)),
        "how": st.sampled_from(["user", "class", "raw"]),
        "case": st.integers(0, 255),
        "ops": st.lists(
            st.tuples(
                st.sampled_from(
                    ["value", "str", "primitive", "json", "reload", "iterate"]
                ),
                st.one_of(labels, st.just("nothing"), st.just("")),
                st.integers(-2, 300),
            ),
            min_size=1,
            max_size=14,
        ),
    }
)


def build(case: Any) -> Any:
    """An enumeration made in one of several ways."""
    pairs = dict((x[0], x[1]) for x in case["map"])
    default = None
    if case["default"] is not None:
        default = case["map"][case["default"] % len(case["map"])][1].lower()
    if case["how"] == "class":
        if len({x for x in pairs.values()} & {"name", "value", "mro"}):
            return user_enum(case["name"], pairs, default), pairs, default
        try:
            cls = pyenum.IntEnum(  # type: ignore
                case["name"], {v: k for k, v in pairs.items()}
            )
        except ValueError:
            return user_enum(case["name"], pairs, default), pairs, default
        return from_enum(cls), pairs, None
    if case["how"] == "raw":
        data: Dict[str, Any] = {
            "name": case["name"],
            "mappings": {str(k): v for k, v in pairs.items()},
            "default": default,
        }
        if default is not None and case["case"] % 2:
            data["default"] = default = vary(default, case["case"])
        return UserEnum(data), pairs, default
    return user_enum(case["name"], pairs, default), pairs, default


def verify(enum: Any, pairs: Dict[int, str], default: Any, how: int) -> None:
    """Names and values agree."""
    names = sorted(x.lower() for x in pairs.values())
    same(sorted(x.lower() for x in enum), names, "names of an enumeration")
    for value, name in pairs.items():
        same(enum.get_str(value).lower(), name.lower(), f"name of {value}")
        for probe in (name, name.lower(), name.upper(), vary(name, how)):
            same(enum.get_value(probe), value, f"value of {probe!r}")
        prim = enum.get_primitive(vary(name, how))
        same(prim.get(), value, f"primitive of {name!r}")
        same(prim.type, Primitive.UINT8, "type of an enum value")
        same(enum.get_str(enum.get_value(name)).lower(), name.lower(), "round trip")
    if default is not None:
        same(enum.default, default, "default")
    check(
        enum.default.lower() in names,
        f"default {enum.default!r} isn't one of {names}",
    )


def run(case: Any, rec: Rec) -> None:
    """Lookups of one enumeration."""
    enum, pairs, default = build(case)
    known = {x.lower(): k for k, x in pairs.items()}
    verify(enum, pairs, default, case["case"])
    text = enum.json_str()
    unknown = 0
    for act, name, value in case["ops"]:
        if act == "value":
            if name.lower() in known:
                same(enum.get_value(name), known[name.lower()], "value")
            else:
                unknown += 1
                check(refusal(enum.get_value, name), f"{name!r} has a value")
        elif act == "str":
            if value in pairs:
                same(enum.get_str(value).lower(), pairs[value].lower(), "name")
            else:
                unknown += 1
                check(refusal(enum.get_str, value), f"{value} has a name")
        elif act == "primitive":
            if name.lower() not in known:
                unknown += 1
                check(
                    refusal(enum.get_primitive, name), f"{name!r} has a primitive"
                )
        elif act == "iterate":
            same(len(list(enum)), len(pairs), "amount of names")
        elif act == "json":
            same(enum.json_str(), text, "serialized enumeration")
        else:
            again = enum.load_str(enum.json_str())
            check(again == enum and enum == again, "reloaded enum differs")
            check(isinstance(again, UserEnum), "reloaded enum is something else")
            same(again.name, enum.name, "name of a reloaded enum")
            same(again.json_str(), text, "serialized reloaded enumeration")
            enum = again
        verify(enum, pairs, default, case["case"])
    same(enum.json_str(), text, "serialized enumeration")
    data = json.loads(text)
    same(
        {int(k): v.lower() for k, v in data["mappings"].items()},
        {k: v.lower() for k, v in pairs.items()},
        "serialized mappings",
    )
    rec.label(case["how"])
    rec.nontrivial(unknown and len(pairs) > 1)


# -- defaults that are none ---------------------------------------------------

strays = st.fixed_dictionaries(
    {
        "map": mapping(plain),
        "default": plain,
        "raw": st.booleans(),
        "upper": st.booleans(),
    }
)


def run_stray(case: Any, rec: Rec) -> None:
    """A default that isn't one of the names is refused."""
    pairs = dict((x[0], x[1]) for x in case["map"])
    default = case["default"].upper() if case["upper"] else case["default"]
    good = case["default"] in pairs.values()
    try:
        if case["raw"]:
            enum = UserEnum(
                {"name": "e", "mappings": dict(pairs), "default": default}
            )
        else:
            enum = user_enum("e", pairs, default)
    except AssertionError:
        check(not good, f"default {default!r} of {pairs} is refused")
        rec.label("refused")
    else:
        check(
            enum.default.lower() in {x for x in enum},
            f"default {enum.default!r} isn't one of {list(enum)}",
        )
        same(enum.default.lower(), default.lower(), "default")
        rec.label("accepted")
    rec.nontrivial()


# -- sets of registered enumerations ------------------------------------------

reg_names = st.one_of(
    st.integers(0, 4).map(lambda x: f"enum{'abcde'[x]}"),
    st.sampled_from(["mappings", "enums", "type", "name"]),
    plain,
)
registries = st.fixed_dictionaries(
    {
        "schema": st.booleans(),
        # registered before, some were never kept
        "start": st.one_of(
            st.just([]),
            st.lists(
                st.tuples(st.integers(0, 9), reg_names, mapping(plain, 4)),
                max_size=4,
                unique_by=(lambda x: x[0], lambda x: x[1]),
            ),
        ),
        "ops": st.lists(
            gen.weighted(
                (6, st.tuples(st.just("add"), reg_names, mapping(plain, 4))),
                (1, st.tuples(st.just("class"), reg_names, mapping(plain, 4))),
                (3, st.tuples(st.just("reload"), st.integers(0, 2))),
                (3, st.tuples(st.just("lookup"), st.integers(-1, 9))),
                (1, st.tuples(st.just("json"), st.just(0))),
            ),
            min_size=3,
            max_size=25,
        ),
    }
)


def run_registry(case: Any, rec: Rec) -> None:
    """Ids are stable over serialization and never used twice."""
    manager = None
    if case["schema"]:
        manager = SchemaManager()
        manager.load_package(require_all=True, allow_unknown=False)
    names: Dict[int, str] = {}
    maps: Dict[int, Dict[int, str]] = {}
    for ident, name, pairs in case["start"]:
        names[ident] = name
        maps[ident] = dict((x[0], x[1]) for x in pairs)
    if names:
        reg = EnumRegistry(
            {
                "mappings": {str(k): v for k, v in names.items()},
                "enums": {
                    v: json.loads(user_enum(v, maps[k]).json_str())
                    for k, v in names.items()
                },
            },
            manager=manager,
        )
    else:
        reg = EnumRegistry(manager=manager)
    gaps = bool(names) and len(names) <= max(names)
    reloads = dups = after = 0
    for op in case["ops"]:
        act = op[0]
        if act in ("add", "class"):
            pairs = dict((x[0], x[1]) for x in op[2])
            if act == "class":
                if set(pairs.values()) & {"name", "value", "mro"}:
                    continue
                cls = pyenum.IntEnum(op[1], {v: k for k, v in pairs.items()})
                result = attempt(reg.add_from_enum, cls)
            else:
                result = attempt(reg.add, user_enum(op[1], pairs))
            if op[1] in names.values():
                dups += 1
                same(result, None, f"id of a duplicate {op[1]!r}")
            elif gaps:
                check(
                    isinstance(result, int) and result not in names,
                    f"id of {op[1]!r} is {result}, {sorted(names)} are taken",
                )
            else:
                same(result, len(names), f"id of {op[1]!r}")
            if op[1] not in names.values():
                names[result] = op[1]
                maps[result] = pairs
                after += reloads > 0
        elif act == "reload":
            text = reg.json_str()
            if op[1] == 0:
                new = reg.load_str(text)
            elif op[1] == 1:
                new = reg.load_str(reg.json_str(indent=2))
            else:
                new = EnumRegistry(json.loads(text), manager=manager)
            check(new == reg and reg == new, "reloaded registry differs")
            same(new.json_str(), text, "serialized reloaded registry")
            reg = new
            reloads += 1
        elif act == "lookup":
            if op[1] in names:
                same(reg.get_enum(op[1]).name, names[op[1]], "enum by id")
            else:
                check(refusal(reg.get_enum, op[1]), f"id {op[1]} is known")
        else:
            data = json.loads(reg.json_str())
            same(
                data.get("mappings", {}),
                {str(k): v for k, v in names.items()},
                "serialized ids",
            )
            same(
                sorted(data.get("enums", {})),
                sorted(names.values()),
                "serialized enums",
            )
        for num, name in names.items():
            enum = reg.get_enum(num)
            same(enum.name, name, f"name of enum {num}")
            verify(enum, maps[num], None, 0b1010)
    check(reg.validate(log=False), f"registry is invalid: {short(reg.data)}")
    rec.label("schema" if case["schema"] else "no-schema")
    if gaps:
        rec.label("gaps")
    if dups:
        rec.label("duplicates")
    rec.nontrivial(reloads and after and dups)


def attempt(func: Any, *args: Any) -> Any:
    """A result, nothing when refused."""
    try:
        return func(*args)
    except AssertionError:
        return None


# -- enumerations as types ----------------------------------------------------

exports = st.fixed_dictionaries(
    {
        "ops": st.lists(
            st.tuples(
                st.sampled_from(["add", "add", "export", "export"]),
                st.integers(0, 5),
            ),
            min_size=2,
            max_size=20,
        ),
        "stranger": st.one_of(st.none(), st.integers(0, 20)),
    }
)


def run_export(case: Any, rec: Rec) -> None:
    """Every enumeration becomes one type, as often as it is exported."""
    types = get_default()
    base = types.count()
    reg = LiveRegistry()
    names: List[str] = []
    exported: Dict[str, int] = {}
    poisoned = False
    for num, (act, which) in enumerate(case["ops"]):
        if case["stranger"] == num:
            reg.add_enum(user_enum("float", {0: "a"}))
            poisoned = True
        if act == "add":
            name = f"enum{which}"
            result = reg.add_enum(user_enum(name, {0: "a"}))
            same(result[0], name not in names, f"registering {name}")
            if name not in names:
                names.append(name)
        else:
            result = reg.export(types)
            same(result, not poisoned, "export")
            if not result:
                same(types.get_id("float"), 9, "id of float")
                break
            for name in names:
                ident = types.get_id(name)
                check(ident is not None, f"{name} isn't a type")
                same(exported.setdefault(name, ident), ident, f"type id {name}")
                same(types.get_type(ident), Primitive.UINT8, "type of an enum")
            same(types.count(), base + len(names), "types")
    same(len(set(exported.values())), len(exported), "distinct type ids")
    rec.nontrivial(len(exported) > 1)


PROP = Prop(
    "C11",
    [
        Facet(
            "enum",
            lambda: cases,
            run,
            800,
            rule="lookups and reloads of one enumeration; non-trivial = a "
            "failing lookup on more than one name",
        ),
        Facet(
            "default",
            lambda: strays,
            run_stray,
            200,
            rule="defaults inside and outside of the names; all count",
        ),
        Facet(
            "registry",
            lambda: registries,
            run_registry,
            500,
            rule="histories of a serializable registry; non-trivial = "
            "duplicates, reloads and registrations after them",
        ),
        Facet(
            "export",
            lambda: exports,
            run_export,
            200,
            rule="repeated exports to a type registry; non-trivial = several "
            "enumerations exported",
        ),
    ],
    more=5,
    assumptions=[
        "names are distinct when letter case is ignored, values are distinct",
        "values fit the protocol's enum type",
    ],
)
