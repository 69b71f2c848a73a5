"""C28: cached data is restored exactly as it was saved."""

from __future__ import annotations

import copy
import json
import math
import os
from typing import Any, Dict, List, Optional

from hypothesis import strategies as st
from vtelem.classes.data_cache import DataCache

from vt import gen
from vt.core import Facet, Prop, Rec, check, short

# names of entries are names of files
names = st.one_of(
    st.sampled_from(["a", "b", "c", "d", "e", "A"]),
    st.sampled_from(["a.b", "a.yaml", "v1.2.3", "a.b.c.d.e", ".hidden", "a b", "ünï", "-"]),
    st.sampled_from(["null", "1", "true", "~", "yaml", "json", "{}", "#x"]),
    st.text(
        alphabet=st.characters(
            codec="utf-8",
            exclude_categories=("Cs", "Cc"),
            exclude_characters="/",
        ),
        min_size=1,
        max_size=10,
    ),
)
texts = st.one_of(
    st.text(st.characters(codec="utf-8", exclude_characters="\x85"), max_size=8),
    st.sampled_from(
        ["1", "true", "null", "~", "1e5", "0x1f", "- a", "a: b", "{}", "#"]
        + ["", " ", "\n", "a\n", "\t", "---", "...", "&a", "*a", "!x", "<<"]
        + ["2001-01-01", "1:30", "\r", "\u2028", "\ufeff", "=", "yes", "off"]
    ),
)
leaves = st.one_of(
    st.none(),
    st.booleans(),
    st.integers(),
    st.floats(),
    texts,
)
items = st.recursive(
    leaves,
    lambda x: st.lists(x, max_size=4) | st.dictionaries(texts, x, max_size=4),
    max_leaves=12,
)
plain = st.recursive(
    st.integers(0, 9) | st.sampled_from(["x", "y"]),
    lambda x: st.dictionaries(st.sampled_from("pqr"), x, min_size=1, max_size=3),
    max_leaves=6,
)
steps = gen.weighted(
    (7, st.tuples(st.just("set"), names, items)),
    (4, st.tuples(st.just("put"), st.integers(0, 9), texts, items)),
    (3, st.tuples(st.just("drop"), st.integers(0, 9))),
    (2, st.tuples(st.just("take"), st.integers(0, 9))),
    (5, st.tuples(st.just("write"))),
    (4, st.tuples(st.just("open"))),
    (3, st.tuples(st.just("peek"))),
    (1, st.tuples(st.just("load"))),
    (2, st.tuples(st.just("other"), st.integers(0, 1))),
    (1, st.tuples(st.just("clean"))),
)
trees = st.recursive(
    st.tuples(st.sampled_from(["yaml", "json"]), items),
    lambda x: st.dictionaries(
        st.sampled_from(["a", "b", "c", "d", "e"]), x, max_size=3
    ),
    max_leaves=5,
)
histories = st.fixed_dictionaries(
    {
        "start": st.sampled_from(["missing", "deep", "empty", "tree", "tree"]),
        "tree": st.dictionaries(
            st.sampled_from(["a", "b", "c", "a.b", "v1.2", "x y"]),
            trees,
            max_size=4,
        ),
        "others": st.tuples(
            st.dictionaries(st.sampled_from("abcz"), plain, max_size=3),
            st.dictionaries(st.sampled_from("abcz"), plain, max_size=3),
        ),
        "steps": st.lists(steps, min_size=1, max_size=25),
    }
)


def alike(left: Any, right: Any, top: bool = False) -> bool:
    """Equal in value and type; NaN is itself."""
    if top and not left and not right:
        # an entry that is nothing is kept as an empty one
        return True
    if isinstance(left, dict) and isinstance(right, dict):
        return set(left) == set(right) and all(
            alike(left[x], right[x]) for x in left
        )
    if isinstance(left, list) and isinstance(right, list):
        return len(left) == len(right) and all(
            alike(x, y) for x, y in zip(left, right)
        )
    if isinstance(left, float) and isinstance(right, float):
        if math.isnan(left) or math.isnan(right):
            return math.isnan(left) and math.isnan(right)
        return left == right
    return type(left) is type(right) and left == right


def same_data(got: Dict[str, Any], want: Dict[str, Any], what: str) -> None:
    """Two caches hold the same."""
    check(
        set(got) == set(want),
        f"{what}: entries {short(sorted(got))} instead of "
        f"{short(sorted(want))}",
    )
    for name, item in want.items():
        check(
            alike(got[name], item, True),
            f"{what}: entry {name!r} is {short(got[name])} instead of "
            f"{short(item)}",
        )


def build(path: str, tree: Any) -> Any:
    """Write files by hand, give what a cache should find there."""
    os.makedirs(path)
    data = {}
    for name, sub in tree.items():
        place = os.path.join(path, name)
        if isinstance(sub, dict):
            # dots of a directory's name aren't specified
            if "." in name:
                continue
            data[name] = build(place, sub)
        else:
            ext, item = sub
            if ext == "json" or isinstance(item, str):
                item = no_specials(item)
                with open(f"{place}.json", "w", encoding="utf-8") as out:
                    json.dump(item, out)
            else:
                item = no_specials(item)
                with open(f"{place}.yaml", "w", encoding="utf-8") as out:
                    # what JSON writes in ASCII is YAML as well
                    json.dump(item, out, indent=1)
            data[name] = item if item else {}
    return data


def no_specials(item: Any) -> Any:
    """Only what both formats read alike when it's written as JSON."""
    if isinstance(item, dict):
        return {k: no_specials(v) for k, v in item.items() if k.isalnum() and k.isascii()}
    if isinstance(item, list):
        return [no_specials(x) for x in item]
    if isinstance(item, float):
        return 0.5
    if isinstance(item, str) and not (item.isalnum() and item.isascii()):
        return "text"
    return item


def merged(first: Any, second: Any) -> Any:
    """What is there already stays."""
    for name, item in second.items():
        if name not in first:
            first[name] = copy.deepcopy(item)
        elif isinstance(first[name], dict) and isinstance(item, dict):
            merged(first[name], item)
    return first


def fits(first: Any, second: Any) -> bool:
    """If two things of one name are of the same kind, and no lists."""
    if isinstance(first, dict) and isinstance(second, dict):
        return all(fits(first[x], second[x]) for x in second if x in first)
    return type(first) is type(second) and not isinstance(first, list)


class Case:
    """A cache, what it should hold, and what was saved."""

    def __init__(self, case: Any, root: str) -> None:
        self.path = os.path.join(root, "cache")
        self.saved: Dict[str, Any] = {}
        if case["start"] == "deep":
            self.path = os.path.join(root, "one", "two.three", "cache")
        elif case["start"] == "empty":
            os.makedirs(self.path)
        elif case["start"] == "tree":
            self.saved = build(self.path, case["tree"])
        self.others: List[str] = []
        self.contents = case["others"]
        for idx, tree in enumerate(case["others"]):
            self.others.append(os.path.join(root, f"other{idx}"))
            os.makedirs(self.others[-1])
            for name, item in tree.items():
                place = os.path.join(self.others[-1], f"{name}.json")
                with open(place, "w", encoding="utf-8") as out:
                    json.dump(item, out)
        self.loaded: set = set()
        self.model: Dict[str, Any] = {}
        self.cache: Optional[DataCache] = None
        self.files = set(os.listdir(root))
        self.root = root

    def open(self) -> None:
        """A new cache at the same place."""
        self.cache = DataCache(self.path)
        self.model = copy.deepcopy(self.saved)
        same_data(self.cache.data, self.model, "opened cache")
        self.loaded = set()

    def name(self, index: int) -> Optional[str]:
        """One of the entries there are."""
        have = sorted(self.model)
        return have[index % len(have)] if have else None


def entry(name: Any) -> bool:
    """If a name can be that of a file."""
    return name not in (".", "..")


def one(ses: Case, step: Any, rec: Rec) -> None:
    """One step of a history."""
    kind = step[0]
    cache = ses.cache
    assert cache is not None
    if kind == "set":
        cache.data[step[1]] = copy.deepcopy(step[2])
        ses.model[step[1]] = copy.deepcopy(step[2])
    elif kind == "put":
        name = ses.name(step[1])
        if name is not None and isinstance(cache.data[name], dict):
            if not isinstance(ses.model[name], dict):
                ses.model[name] = {}
            cache.data[name][step[2]] = copy.deepcopy(step[3])
            ses.model[name][step[2]] = copy.deepcopy(step[3])
            rec.count("nested changes")
    elif kind in ("drop", "take"):
        name = ses.name(step[1])
        if name is not None and kind == "drop":
            del cache.data[name]
            del ses.model[name]
            rec.count("entries dropped")
        elif name is not None and isinstance(cache.data[name], dict):
            if cache.data[name]:
                key = sorted(cache.data[name])[0]
                del cache.data[name][key]
                del ses.model[name][key]
    elif kind == "write":
        cache.write()
        lost = set(ses.saved) - set(ses.model)
        rec.count("saves")
        rec.count("saves without earlier entries", bool(lost))
        ses.saved = copy.deepcopy(ses.model)
    elif kind == "open":
        ses.open()
        rec.count("reopened with data", bool(ses.saved))
    elif kind == "peek":
        same_data(DataCache(ses.path).data, ses.saved, "second cache")
    elif kind == "load":
        cache.load(ses.path)
    elif kind == "other":
        if not fits(ses.model, ses.contents[step[1]]):
            rec.label("doesn't fit")
            return
        cache.load(ses.others[step[1]])
        if step[1] not in ses.loaded:
            merged(ses.model, ses.contents[step[1]])
            ses.loaded.add(step[1])
            rec.label("loaded another directory")
    else:
        cache.clean()
        ses.model, ses.saved, ses.loaded = {}, {}, set()
        rec.label("cleaned")


def run(case: Any, rec: Rec) -> None:
    """The cache and its model agree after every step."""
    ses = Case(case, rec.tmpdir())
    ses.open()
    for step in case["steps"]:
        if step[0] == "set" and not entry(step[1]):
            continue
        one(ses, step, rec)
        assert ses.cache is not None
        same_data(ses.cache.data, ses.model, f"after {step[0]}")
    same_data(DataCache(ses.path).data, ses.saved, "last look")
    for idx, path in enumerate(ses.others):
        check(
            set(os.listdir(path)) == {f"{x}.json" for x in ses.contents[idx]},
            "a directory that was only loaded changed",
        )
    rec.label(case["start"])
    rec.nontrivial(
        rec.notes.get("saves", 0) and rec.notes.get("reopened with data", 0)
    )


# -- one entry of any kind ----------------------------------------------------

singles = st.dictionaries(names.filter(entry), items, max_size=4)


def run_single(case: Any, rec: Rec) -> None:
    """Any data is what it was."""
    path = os.path.join(rec.tmpdir(), "cache")
    cache = DataCache(path)
    check(not cache.data, f"a new cache holds {cache.data}")
    cache.data.update(copy.deepcopy(case))
    cache.write()
    same_data(cache.data, case, "the cache that was saved")
    again = DataCache(path)
    same_data(again.data, case, "reopened cache")
    again.write()
    same_data(DataCache(path).data, case, "cache that was saved twice")
    rec.label(*{type(x).__name__ for x in case.values()})
    rec.nontrivial(case)


# -- texts --------------------------------------------------------------------

odd = st.text(
    st.sampled_from("ab0 -:#'\"\n\r\t\\{}[],&*!|>%@`~?=\x00\x07\x1b\x7f\x85")
    | st.sampled_from("\xa0\u2028\u2029\ufeff\ud7ff\ue000\ufffd\uffff\U0001f600")
    | st.characters(codec="utf-8"),
    max_size=12,
)


def kept(path: str, text: str, place: str) -> bool:
    """If a text survives."""
    data = {"name": {text: 1} if place == "key" else {"x": [text]}}
    cache = DataCache(path)
    cache.clean()
    cache.data.update(data)
    cache.write()
    return alike(DataCache(path).data, data)


def run_text(case: Any, rec: Rec) -> None:
    """Any text is kept, as a value or as the name of one."""
    path = os.path.join(rec.tmpdir(), "cache")
    text, place = case
    if not kept(path, text, place):
        other = text.replace("\x85", "x")
        nel = "\x85" in text and kept(path, other, place)
        check(
            False,
            f"{text!r} as a {place} isn't restored",
            "next-line" if nel else "text",
        )
    rec.label(place, "ASCII" if text.isascii() else "other characters")
    rec.nontrivial(not text.isalnum() and text)


# -- damage -------------------------------------------------------------------

broken = st.one_of(
    st.tuples(
        st.just("yaml"),
        st.sampled_from(
            ["{", "[1, 2", "a: b: c", "\t- x", '"abc', "- a\nb: c", "a: &", "]"]
            + ["*nothing", "a: 1\na: 2", "a: \x01", "a: [x\n", "%", "key: {x: 1"]
        ),
    ),
    st.tuples(
        st.just("json"),
        st.sampled_from(["{", '{"a": 1,}', "[1 2]", "nope", "", '{"a": 1', "'x'"]),
    ),
)
damages = st.fixed_dictionaries(
    {
        "data": st.dictionaries(
            st.sampled_from(["a", "b", "c", "a.b", "x y"]), items, max_size=4
        ),
        "files": st.lists(
            st.tuples(
                st.sampled_from(["new", "a", "b", "a.b", "deep/er/x", "deep/y"]),
                broken,
            ),
            min_size=1,
            max_size=2,
            unique_by=lambda x: x[0],
        ),
        "first": st.dictionaries(st.sampled_from("pq"), plain, max_size=2),
    }
)


def files(root: str) -> Dict[str, bytes]:
    """What is on disk."""
    result = {}
    for where, _, found in os.walk(root):
        for name in found:
            place = os.path.join(where, name)
            with open(place, "rb") as stream:
                result[os.path.relpath(place, root)] = stream.read()
    return result


def fails(call: Any) -> bool:
    """Whether something failed, however it did."""
    try:
        call()
        return False
    except Exception:  # pylint: disable=broad-except
        return True


def run_damaged(case: Any, rec: Rec) -> None:
    """Data that can't be read isn't left out."""
    root = rec.tmpdir()
    path = os.path.join(root, "cache")
    cache = DataCache(path)
    cache.data.update(copy.deepcopy(case["data"]))
    cache.write()
    good = files(path)
    for name, (ext, text) in case["files"]:
        place = os.path.join(path, f"{name}.{ext}")
        os.makedirs(os.path.dirname(place), exist_ok=True)
        with open(place, "w", encoding="utf-8") as out:
            out.write(text)
    bad = files(path)
    other = DataCache(os.path.join(root, "other"))
    other.data.update(copy.deepcopy(case["first"]))
    for what, call in (
        ("opening a cache", lambda: DataCache(path)),
        ("loading a directory", lambda: other.load(path)),
    ):
        check(
            fails(call),
            f"{what} with {short(case['files'])} didn't fail",
            "unreadable",
        )
    same_data(other.data, case["first"], "cache that couldn't load more")
    check(files(path) == bad, "files changed while they were read")
    # what is repaired is read again
    for name in set(bad) - set(good):
        os.remove(os.path.join(path, name))
    for name, data in good.items():
        with open(os.path.join(path, name), "wb") as stream:
            stream.write(data)
    for name in ("deep/er", "deep"):
        if os.path.isdir(os.path.join(path, name)):
            os.rmdir(os.path.join(path, name))
    same_data(DataCache(path).data, case["data"], "repaired cache")
    other.load(path)
    same_data(
        other.data,
        merged(copy.deepcopy(case["first"]), case["data"]),
        "cache that loaded the repaired one",
    )
    rec.label(*{x[1][0] for x in case["files"]})
    rec.label("an entry" if set(bad) == set(good) else "a new file")
    rec.nontrivial(case["data"])


PROP = Prop(
    "C28",
    [
        Facet(
            "histories",
            lambda: histories,
            run,
            1500,
            rule="a save and a reopened cache that wasn't empty",
        ),
        Facet(
            "data",
            lambda: singles,
            run_single,
            1500,
            rule="there's at least one entry",
        ),
        Facet(
            "texts",
            lambda: st.tuples(odd, st.sampled_from(["key", "value"])),
            run_text,
            1500,
            rule="not just letters and digits",
        ),
        Facet(
            "damaged",
            lambda: damages,
            run_damaged,
            600,
            rule="the cache held something",
        ),
    ],
    more=2,
    assumptions=[
        "names of entries can be names of files, nobody else writes to the "
        "directory",
        "an entry that is nothing (null, zero, an empty text or list) may be "
        "read as an empty dictionary",
        "a directory loaded into a cache with entries of the same name only "
        "adds to them",
    ],
)
