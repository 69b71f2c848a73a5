"""C29: serializable objects round-trip through JSON and are validated."""

from __future__ import annotations

import copy
import io
import json
import os
import re
from pathlib import Path
from typing import Any, Dict, List, Optional

from hypothesis import strategies as st
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.serdes import Serializable, SerializableParams
from vtelem.classes.user_enum import UserEnum, from_enum, user_enum
from vtelem.enums.primitive import Primitive
from vtelem.message.cache import MessageCache
from vtelem.message.framer import MessageFramer
from vtelem.parsing.encapsulation import decode_frame
from vtelem.registry.enum_retry import EnumRegistry
from vtelem.schema.manager import SchemaManager
from vtelem.serializables.primitive import (
    SerializablePrimitive,
    from_primitive,
    get_all,
)
from vtelem.types.frame import MessageType

from vt import gen, ref
from vt.core import Facet, Prop, Rec, check, same, short

MEDIA = ["text", "stream", "file", "message"]
texts = st.text(max_size=8)
leaves = st.one_of(
    st.none(),
    st.booleans(),
    st.integers(),
    st.floats(allow_nan=False),
    texts,
)
values = st.recursive(
    leaves,
    lambda x: st.lists(x, max_size=4) | st.dictionaries(texts, x, max_size=4),
    max_leaves=10,
)
media = st.fixed_dictionaries(
    {
        "how": st.sampled_from(MEDIA),
        "indent": st.sampled_from([None, None, 0, 2]),
        "ascii": st.booleans(),
        "mtu": st.integers(67, 300),
        "keep": st.booleans(),
    }
)


def strictly(left: Any, right: Any) -> bool:
    """Equal and of the same types, all the way down."""
    if isinstance(left, dict) and isinstance(right, dict):
        return {(type(x), x) for x in left} == {
            (type(x), x) for x in right
        } and all(strictly(left[x], right[x]) for x in left)
    if isinstance(left, list) and isinstance(right, list):
        return len(left) == len(right) and all(
            strictly(x, y) for x, y in zip(left, right)
        )
    return type(left) is type(right) and left == right


def identical(left: Any, right: Any, what: str) -> None:
    """Fail unless data is strictly the same."""
    check(
        strictly(left, right), f"{what}: {short(left)} instead of {short(right)}"
    )


def transfer(obj: Any, medium: Any, rec: Rec) -> Any:
    """Write an object and load it."""
    how = medium["how"]
    kwargs = {"indent": medium["indent"], "ensure_ascii": medium["ascii"]}
    if how == "text":
        text = obj.json_str(**kwargs)
        wide = medium["indent"] is not None and len(obj.data) > 0
        check(
            ("\n" in text) == wide,
            f"a text with indentation {medium['indent']}: {short(text)}",
        )
        check(
            text.isascii() or not medium["ascii"],
            f"a text with other characters than ASCII's: {short(text)}",
        )
        return obj.load_str(text)
    if how == "stream":
        with io.StringIO() as stream:
            stream.write("")
            obj.json(stream, **kwargs)
            stream.seek(0)
            return obj.load(stream)
    path = os.path.join(rec.tmpdir(), "object.json")
    if how == "file":
        with open(path, "w", encoding="utf-8") as out:
            obj.json(out, **kwargs)
        with open(path, encoding="utf-8") as handle:
            return obj.load(handle)
    framer = MessageFramer(medium["mtu"], 0.5)
    frames, _ = framer.serialize_object(obj, 1.0, MessageType.JSON, **kwargs)
    cache = MessageCache(path)
    for frame in frames if medium["keep"] else reversed(list(frames)):
        data, size = frame.raw
        parsed = decode_frame(ChannelRegistry(), bytes(data), size)
        check(parsed is not None, "a frame of the message isn't decoded")
        cache.ingest(parsed)
    done = cache.complete(MessageType.JSON)
    same(len(done), 1, "complete messages")
    result = cache.content_str(MessageType.JSON, done[0])
    check(result is not None, "the message has no content")
    rec.count("frames", len(frames))
    assert result is not None
    return obj.load_str(result[1])


def intact(obj: Any, medium: Any, rec: Rec) -> Any:
    """Transfer an object that has to stay what it was."""
    before = copy.deepcopy(obj.data)
    text = obj.json_str()
    valid, name = obj.valid, obj.name
    again = transfer(obj, medium, rec)
    identical(obj.data, before, f"object after writing it ({medium['how']})")
    check(type(again) is type(obj), f"{type(obj)} is loaded as {type(again)}")
    identical(again.data, before, f"loaded data ({medium['how']})")
    check(again == obj and obj == again, "the loaded object isn't equal")
    same(hash(again), hash(obj), "hash of the loaded object")
    same(again.name, name, "name of the loaded object")
    same(again.valid, valid, "validity of the loaded object")
    same(again.json_str(), text, "the loaded object's JSON")
    same(obj.json_str(), text, "JSON of the object")
    identical(json.loads(text), json.loads(obj.json_str(indent=1)), "layouts")
    rec.label(medium["how"])
    return again


# -- any data -----------------------------------------------------------------


class Named(Serializable):
    """Something of another class."""


class IntegerKeys(Serializable):
    """Has a map with integer keys."""

    def init(self, data: Any) -> None:
        """Text is what JSON makes of them."""
        self.coerce_int_keys(["one", "two"], data)
        self.coerce_int_keys(["map"], data)


generic = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["plain", "named", "keys"]),
        "data": st.dictionaries(
            st.one_of(texts, st.sampled_from(["type", "name", "a"])),
            values,
            max_size=5,
        ),
        "map": st.dictionaries(st.integers(), leaves, max_size=5),
        "two": st.dictionaries(st.integers(-3, 3), leaves, max_size=5),
        "none": gen.weighted((8, st.just(False)), (1, st.just(True))),
        "medium": media,
        "change": st.tuples(texts, values),
    }
)


def run_generic(case: Any, rec: Rec) -> None:
    """Data of any kind is what it was."""
    data = copy.deepcopy(case["data"])
    # names are hashed
    if not isinstance(data.get("name", ""), (str, int, float, type(None))):
        del data["name"]
    obj: Any
    if case["kind"] == "keys":
        data["map"] = {int(k): v for k, v in case["map"].items()}
        data["one"] = {"two": {int(k): v for k, v in case["two"].items()}}
        obj = IntegerKeys(data)
    elif case["kind"] == "named":
        obj = Named(data)
    else:
        obj = Serializable(None if case["none"] else data)
    if "type" not in case["data"] or (case["kind"] == "plain" and case["none"]):
        want = {"keys": "integer_keys", "named": "named"}.get(
            case["kind"], "serializable"
        )
        same(obj.data["type"], want, "type of the object")
    check(obj.valid, "an object without a schema is invalid")
    again = intact(obj, case["medium"], rec)
    # two objects are two objects
    before = copy.deepcopy(obj.data)
    again.data[case["change"][0]] = case["change"][1]
    again.data["another"] = 1
    check(again != obj, "objects with other data are equal")
    identical(obj.data, before, "object after its copy was changed")
    fresh = Serializable()
    identical(fresh.data, {"type": "serializable"}, "an empty object")
    rec.label(case["kind"])
    rec.nontrivial(len(obj.data) > 2)


# -- real objects -------------------------------------------------------------

labels = st.one_of(
    st.sampled_from(["idle", "run", "stop", "off"]),
    st.sampled_from(["x1", "b_c", "a-b", "Run", "ünï", "", "a b", "9"]),
)
mappings = st.lists(
    st.tuples(
        st.one_of(st.integers(0, 5), st.integers(-300, 300)),
        labels.map(str.lower),
    ),
    min_size=1,
    max_size=6,
    unique_by=(lambda x: x[0], lambda x: x[1]),
)
enums = st.fixed_dictionaries(
    {
        "name": st.sampled_from(
            ["mode", "state", "BigName", "with_digit1", "A", "x y", ""]
        ),
        "map": mappings,
        "default": st.integers(-1, 6),
    }
)
objects = st.one_of(
    st.tuples(st.just("primitive"), gen.prims),
    st.tuples(st.just("enum"), enums),
    st.tuples(
        st.just("registry"),
        st.lists(enums, max_size=4, unique_by=lambda x: x["name"].lower()),
    ),
)
rules = st.sampled_from(
    [
        None,
        None,
        {},
        {"require_all": True},
        {"require_all": True, "allow_unknown": True},
        {"require_all": True, "allow_unknown": False},
    ]
)
MANAGERS: Dict[str, SchemaManager] = {}


def manager(rule: Optional[Dict[str, bool]]) -> Optional[SchemaManager]:
    """The schemas that belong to the package."""
    if rule is None:
        return None
    key = json.dumps(rule, sort_keys=True)
    if key not in MANAGERS:
        MANAGERS[key] = SchemaManager()
        MANAGERS[key].load_package(**rule)
    return MANAGERS[key]


def is_int(value: Any) -> bool:
    """An integer (truth values are, for the validator)."""
    return isinstance(value, int)


def fields(kind: str) -> Dict[str, Any]:
    """What the schemas say, by hand."""
    if kind == "primitive":
        return {
            "integer": (True, lambda x: isinstance(x, bool)),
            "signed": (True, lambda x: isinstance(x, bool)),
            "max": (False, is_int),
            "min": (False, is_int),
            "size": (True, is_int),
            "name": (True, lambda x: isinstance(x, str)),
            "type": (True, lambda x: x == "serializable_primitive"),
        }
    if kind == "enum":
        return {
            "default": (True, lambda x: isinstance(x, str)),
            "mappings": (
                True,
                lambda x: isinstance(x, dict)
                and all(is_int(y) for y in x)
                and all(
                    isinstance(y, str) and re.match("[a-z]+$", y)
                    for y in x.values()
                ),
            ),
            "name": (
                True,
                lambda x: isinstance(x, str) and re.match("[a-z_]+$", x),
            ),
            "type": (True, lambda x: x == "user_enum"),
        }
    return {
        "enums": (
            True,
            lambda x: isinstance(x, dict)
            and all(isinstance(y, str) for y in x)
            and all(isinstance(y, dict) for y in x.values()),
        ),
        "mappings": (
            True,
            lambda x: isinstance(x, dict)
            and all(is_int(y) for y in x)
            and all(isinstance(y, str) for y in x.values()),
        ),
        "type": (True, lambda x: x == "enum_registry"),
    }


def conforms(kind: str, data: Dict[str, Any], rule: Any) -> bool:
    """If data follows the schema of its class."""
    if rule is None:
        return True
    want = fields(kind)
    for name, value in data.items():
        if name not in want:
            if not rule.get("allow_unknown", False):
                return False
        elif not want[name][1](value):
            return False
    if rule.get("require_all", False):
        return all(x in data for x, (need, _) in want.items() if need)
    return True


def make_enum(spec: Any, **kwargs: Any) -> UserEnum:
    """An enumeration of a definition."""
    pairs = {int(k): v for k, v in spec["map"]}
    default = None
    if 0 <= spec["default"] < len(spec["map"]):
        default = spec["map"][spec["default"]][1]
    return user_enum(spec["name"], pairs, default, **kwargs)


def make(kind: str, spec: Any, schemas: Optional[SchemaManager]) -> Any:
    """One of the objects."""
    if kind == "primitive":
        return from_primitive(Primitive[spec], manager=schemas)
    if kind == "enum":
        return make_enum(spec, manager=schemas)
    result = EnumRegistry(manager=schemas)
    for idx, item in enumerate(spec):
        same(result.add(make_enum(item)), idx, "identifier of an enumeration")
    # what was added since is validated now
    return EnumRegistry(copy.deepcopy(result.data), manager=schemas)


def alike(kind: str, left: Any, right: Any) -> None:
    """Objects do the same."""
    if kind == "primitive":
        check(left.primitive is right.primitive, "another primitive")
    elif kind == "enum":
        same(sorted(left), sorted(right), "names of an enumeration")
        same(left.default, right.default, "default of an enumeration")
        for name in right:
            value = right.get_value(name)
            same(left.get_value(name), value, f"value of {name!r}")
            same(left.get_str(value), right.get_str(value), f"name of {value}")
    else:
        same(set(left.enums), set(right.enums), "names of a registry's enums")
        for ident in right.data["mappings"]:
            one, other = left.get_enum(ident), right.get_enum(ident)
            check(one == other, f"enumeration {ident} isn't the same")
            alike("enum", one, other)
        same(left.curr_id, right.curr_id, "next identifier")


def run_object(case: Any, rec: Rec) -> None:
    """A real object, with or without its schema."""
    (kind, spec), rule = case["object"], case["rule"]
    schemas = manager(rule)
    obj = make(kind, spec, schemas)
    want = conforms(kind, obj.data, rule)
    same(obj.valid, want, f"validity of {short(obj.data)} by {rule}")
    if schemas is not None:
        same(
            obj.validate(False, schemas), want, "validity of the object, again"
        )
    again = intact(obj, case["medium"], rec)
    alike(kind, again, obj)
    if kind == "registry":
        # identifiers don't have to be without gaps
        gaps = copy.deepcopy(obj.data)
        moved = {k * case["gap"]: v for k, v in gaps["mappings"].items()}
        gaps["mappings"] = moved
        more = obj.load_str(json.dumps(gaps))
        for ident, name in moved.items():
            same(more.get_enum(ident).name, name, f"name of {ident}")
        ident = more.add(user_enum("one_more", {0: "a"}))
        check(ident not in moved, f"identifier {ident} is given twice")
        for old, name in moved.items():
            same(more.get_enum(old).name, name, f"name of {old} afterwards")
        same(more.get_enum(ident).name, "one_more", "name of the one added")
        for name, enum in again.enums.items():
            same(
                enum.valid,
                conforms("enum", enum.data, rule),
                f"validity of a registry's {name!r} by {rule}",
            )
    second = intact(again, case["medium"], rec)
    alike(kind, second, obj)
    rec.label(kind, "valid" if want else "invalid")
    rec.count("validated", schemas is not None)
    rec.nontrivial(
        schemas is not None or (kind != "primitive" and len(str(spec)) > 40)
    )


def every(case: Any, rec: Rec) -> None:
    """All primitives at once."""
    schemas = manager(case["rule"])
    found = get_all(manager=schemas)
    same(
        {x.primitive for x in found}, set(Primitive), "serializable primitives"
    )
    for obj in found:
        check(obj.valid, f"{obj.name} isn't valid")
        prim = obj.primitive.name
        same(obj.data["size"], ref.size_of(prim), f"size of {prim}")
        same(obj.data["integer"], ref.is_int(prim), f"kind of {prim}")
        if ref.is_int(prim):
            got = (obj.data.get("min"), obj.data.get("max"))
            same(got, ref.bounds(prim), f"limits of {prim}")
        alike("primitive", intact(obj, case["medium"], rec), obj)
    rec.nontrivial()


# -- damaged data -------------------------------------------------------------

other = st.one_of(
    st.none(),
    st.booleans(),
    st.integers(-2, 300),
    st.just(1.5),
    st.sampled_from(["", "run", "Run", "x1", "user_enum", "uint8"]),
    st.just([]),
    st.just({}),
    st.dictionaries(st.sampled_from(["1", "2", "x"]), labels, max_size=2),
)
changes = st.lists(
    st.one_of(
        st.tuples(st.just("drop"), st.integers(0, 9)),
        st.tuples(st.just("value"), st.integers(0, 9), other),
        st.tuples(st.just("inner"), st.integers(0, 9), st.integers(0, 5), other),
        st.tuples(st.just("add"), st.sampled_from(["x", "extra", "min"]), other),
        st.tuples(st.just("type"), st.sampled_from(["user_enum", "x", "Type"])),
    ),
    min_size=1,
    max_size=3,
)
CLASSES = {
    "primitive": SerializablePrimitive,
    "enum": UserEnum,
    "registry": EnumRegistry,
}


def damage(data: Dict[str, Any], steps: Any) -> None:
    """Change some data."""
    for step in steps:
        names = sorted(data)
        if step[0] == "add":
            data[step[1]] = step[2]
        elif step[0] == "type":
            data["type"] = step[1]
        elif names:
            name = names[step[1] % len(names)]
            if step[0] == "drop":
                del data[name]
            elif step[0] == "value":
                data[name] = step[2]
            elif isinstance(data[name], dict) and data[name]:
                inner = sorted(data[name], key=str)
                data[name][inner[step[2] % len(inner)]] = step[3]


def as_loaded(kind: str, data: Dict[str, Any]) -> Optional[Dict[str, Any]]:
    """Data of an object as it is used; None if there's no such object."""
    data = copy.deepcopy(data)
    data.setdefault("type", CLASSES[kind].__name__)
    if data["type"] == CLASSES[kind].__name__:
        data["type"] = {
            "primitive": "serializable_primitive",
            "enum": "user_enum",
            "registry": "enum_registry",
        }[kind]
    if kind == "primitive":
        return data
    if kind == "registry":
        data.setdefault("enums", {})
    keys = data.get("mappings", {})
    try:
        data["mappings"] = {int(k): v for k, v in keys.items()}
    except (AttributeError, ValueError):
        return None
    if kind == "enum" and data.get("default", 0) is None:
        names = list(data["mappings"].values())
        if not names or not isinstance(names[0], str):
            return None
        data["default"] = names[0]
    return data


def run_damaged(case: Any, rec: Rec) -> None:
    """Data that violates the schema never makes a valid object."""
    (kind, spec), rule = case["object"], case["rule"]
    schemas = manager(rule)
    obj = make(kind, spec, None)
    how = case["how"]
    params = None
    if how in ("params", "both") and schemas is not None:
        params = SerializableParams(schema=schemas.get(CLASSES[kind]))
        # an object's own schema is the one that counts
        schemas = None if how == "params" else manager(case["rule2"])
    if how == "load":
        # any object of the class loads another one
        loader = make(kind, spec, schemas)
    else:
        loader = CLASSES[kind](
            copy.deepcopy(obj.data),
            params=params,
            manager=schemas,
        )
    data = json.loads(obj.json_str())
    damage(data, case["changes"])
    seen = as_loaded(kind, data)
    text = json.dumps(data)
    got: Any = None
    try:
        if how == "construct":
            got = CLASSES[kind](json.loads(text), manager=schemas)
        else:
            got = loader.load_str(text)
    except Exception as exc:  # pylint: disable=broad-except
        rec.label(f"raises {type(exc).__name__}")
    if got is None:
        # what conforms and makes sense must not be refused
        original = as_loaded(kind, json.loads(obj.json_str()))
        check(
            seen != original,
            f"{short(data)} can't be loaded as {kind}",
        )
        rec.count("refused")
        return
    check(seen is not None, f"{short(data)} was loaded: {short(got.data)}")
    assert seen is not None
    want = conforms(kind, seen, rule)
    same(
        got.valid,
        want,
        f"validity of {kind} {short(data)} by {rule} ({how})",
    )
    again = got.load_str(got.json_str())
    same(again.valid, want, "validity of the object when it's loaded again")
    rec.label(kind, how, "still valid" if want else "invalid")
    rec.nontrivial(not want)


# -- schemas of others --------------------------------------------------------

KINDS = {
    "integer": lambda x: isinstance(x, int),
    "string": lambda x: isinstance(x, str),
    "boolean": lambda x: isinstance(x, bool),
    "list": lambda x: isinstance(x, list),
}
SAMPLES = [0, 1, -7, 99, True, False, "", "abc", "b", None, [], [1], {}]
keys = st.sampled_from(["a", "b", "c", "kind"])
limits = st.one_of(
    st.fixed_dictionaries(
        {"type": st.just("integer")},
        optional={
            "min": st.integers(-10, 10),
            "max": st.integers(0, 100),
            "required": st.booleans(),
            "nullable": st.booleans(),
        },
    ),
    st.fixed_dictionaries(
        {"type": st.sampled_from(sorted(KINDS))},
        optional={"required": st.booleans(), "nullable": st.booleans()},
    ),
    st.fixed_dictionaries(
        {
            "type": st.just("string"),
            "allowed": st.lists(
                st.sampled_from(["abc", "b", "z"]), min_size=1, unique=True
            ),
        }
    ),
)
schemas_of = st.dictionaries(keys, limits, max_size=4)
UNREADABLE = {"yaml": "a: [1", "json": '{"a": 1'}
stores = st.fixed_dictionaries(
    {
        "dirs": st.lists(
            st.dictionaries(
                st.sampled_from(["One", "Two", "TheThird", "four_x"]),
                st.tuples(st.sampled_from(["yaml", "json"]), schemas_of),
                max_size=3,
            ),
            min_size=1,
            max_size=2,
        ),
        "rules": st.lists(
            rules.filter(lambda x: x is not None), min_size=2, max_size=2
        ),
        "alone": st.lists(
            st.tuples(
                st.sampled_from(["One", "Two", "Extra"]),
                st.sampled_from([None, None, "One", "Extra", "Named"]),
                schemas_of,
            ),
            max_size=3,
        ),
        "broken": st.one_of(
            st.none(),
            st.tuples(
                st.sampled_from(["directory", "file", "missing"]),
                st.sampled_from(["yaml", "json"]),
            ),
        ),
        "order": st.booleans(),
        "data": st.lists(
            st.dictionaries(
                keys | st.just("other"), st.sampled_from(SAMPLES), max_size=4
            ),
            min_size=1,
            max_size=4,
        ),
    }
)


def follows(data: Dict[str, Any], schema: Any, rule: Dict[str, bool]) -> bool:
    """If data follows one of the schemas."""
    for name, value in data.items():
        if name not in schema:
            if not rule.get("allow_unknown", False):
                return False
            continue
        want = schema[name]
        if value is None:
            if not want.get("nullable", False):
                return False
            continue
        if not KINDS[want["type"]](value):
            return False
        if "min" in want and value < want["min"]:
            return False
        if "max" in want and value > want["max"]:
            return False
        if "allowed" in want and value not in want["allowed"]:
            return False
    return all(
        x in data
        for x, y in schema.items()
        if y.get("required", rule.get("require_all", False))
    )


class Shelf:
    """A manager and the schemas it should know."""

    def __init__(self, root: str, case: Any) -> None:
        self.root = root
        self.case = case
        self.manager = SchemaManager()
        self.known: Dict[str, Any] = {}

    def put(self, where: str, name: str, ext: str, schema: Any) -> Path:
        """Write a schema, every object has a type."""
        os.makedirs(os.path.join(self.root, where), exist_ok=True)
        path = Path(self.root, where, f"{name}.{ext}")
        full = {**schema, "type": {"type": "string"}}
        path.write_text(json.dumps(full, indent=1), encoding="utf-8")
        return path

    def directories(self) -> None:
        """Load all of them, later ones count."""
        for num, found in enumerate(self.case["dirs"]):
            rule = self.case["rules"][num]
            os.makedirs(os.path.join(self.root, f"d{num}"), exist_ok=True)
            for name, (ext, schema) in found.items():
                self.put(f"d{num}", name, ext, schema)
                self.known[name] = (schema, rule)
            got = self.manager.load_dir(Path(self.root, f"d{num}"), **rule)
            same(sorted(got), sorted(self.known), "names of the schemas")

    def files(self) -> None:
        """Add them one by one, no name can be taken again."""
        for num, (name, alias, schema) in enumerate(self.case["alone"]):
            path = self.put(f"f{num}", name, "yaml", schema)
            rule = self.case["rules"][num % 2]
            known = name if alias is None else alias
            args = () if alias is None else (alias,)
            refused = raises(lambda p=path, a=args, r=rule: self.manager.add(p, *a, **r))
            same(refused, known in self.known, f"whether {known} is taken")
            if not refused:
                self.known[known] = (schema, rule)

    def unreadable(self) -> None:
        """What can't be read isn't ignored."""
        if self.case["broken"] is None:
            return
        how, ext = self.case["broken"]
        place = Path(self.root, "broken")
        self.put("broken", "Good", "yaml", {})
        path = place.joinpath(f"Bad.{ext}")
        path.write_text(UNREADABLE[ext], encoding="utf-8")
        if how == "directory":
            check(
                raises(lambda: self.manager.load_dir(place)),
                "a directory with an unreadable schema was loaded",
            )
        elif how == "file":
            check(
                raises(lambda: self.manager.add(path)),
                "an unreadable schema was added",
            )
        else:
            check(
                raises(lambda: self.manager.add(place.joinpath("None.yaml"))),
                "a schema that doesn't exist was added",
            )


def raises(call: Any) -> bool:
    """Whether something failed."""
    try:
        call()
        return False
    except Exception:  # pylint: disable=broad-except
        return True


def run_schemas(case: Any, rec: Rec) -> None:
    """Objects are judged by the schema of their class's name."""
    shelf = Shelf(rec.tmpdir(), case)
    steps: List[Any] = [shelf.directories, shelf.files]
    for step in steps if case["order"] else steps[::-1]:
        step()
    shelf.unreadable()
    good = bad = 0
    for name, (schema, rule) in shelf.known.items():
        cls = type(name, (Serializable,), {})
        check(shelf.manager[name] is shelf.manager.get(cls), f"schema of {name}")
        obj = cls({"type": "x"}, manager=shelf.manager)
        for data in case["data"]:
            want = follows(data, schema, rule)
            made = cls({**data, "type": "x"}, manager=shelf.manager)
            loaded = obj.load_str(json.dumps({**data, "type": "x"}))
            alone = cls(
                {**data, "type": "x"},
                SerializableParams(schema=cls.schema(shelf.manager)),
            )
            for item in (made, loaded, alone):
                same(
                    item.valid,
                    want,
                    f"validity of {data} by {schema} with {rule}",
                )
                same(item.data, {**data, "type": "x"}, "data of an object")
            good, bad = good + want, bad + (not want)
    rec.label("broken" if case["broken"] else "fine")
    rec.nontrivial(good and bad)


PROP = Prop(
    "C29",
    [
        Facet(
            "data",
            lambda: generic,
            run_generic,
            1500,
            rule="the object has data beyond its type",
        ),
        Facet(
            "objects",
            lambda: st.fixed_dictionaries(
                {
                    "object": objects,
                    "rule": rules,
                    "medium": media,
                    "gap": st.integers(1, 3),
                }
            ),
            run_object,
            1500,
            rule="validated by a schema, or larger than a few values",
        ),
        Facet(
            "primitives",
            lambda: st.fixed_dictionaries({"rule": rules, "medium": media}),
            every,
            40,
            rule="all primitives",
        ),
        Facet(
            "damaged",
            lambda: st.fixed_dictionaries(
                {
                    "object": objects,
                    "rule": rules.filter(lambda x: x is not None),
                    "changes": changes,
                    "how": st.sampled_from(
                        ["load", "construct", "params", "both"]
                    ),
                    "rule2": rules,
                }
            ),
            run_damaged,
            2500,
            rule="the changed data doesn't follow the schema",
        ),
        Facet(
            "schemas",
            lambda: stores,
            run_schemas,
            800,
            rule="some data follows a schema and some doesn't",
        ),
    ],
    more=2,
    assumptions=[
        "data has texts as keys (integers where a class says so) and no NaN",
        "data that an object can't be made of at all may be refused instead "
        "of giving an invalid object",
        "a registry is valid by its own schema, its enumerations by theirs",
    ],
)
