"""C39: NSKeyedArchiver property lists are decoded to the objects that were archived."""

import base64
import hashlib
import json
import os
import plistlib
import uuid

from vf import spec
from vf.checks import c38
from vf.core import Violation

PROPERTY = "C39"
RULE = (
    "a case is one archive of a generated graph of objects: arrays, dictionaries, sets, "
    "composite objects, URLs, UUIDs and values, with shared objects, written as a binary or XML "
    "property list, decoded by the tool and compared with the graph; non-trivial: distinct archive"
)
REQUIRED = [
    "NSArray", "NSMutableArray", "NSDictionary", "NSMutableDictionary", "NSSet", "NSMutableSet",
    "NSURL", "NSURL:base", "NSUUID", "NSHashTable", "composite", "container", "str", "bytes",
    "int", "float", "bool", "null", "falsy", "shared", "inline", "binary", "xml", "tops",
    "refused", "NSURL:empty", "list", "lookalike",
]
SCRIPT = "decode_nskeyedarchiver_plist.py"
COMPOSITES = (
    "BackgroundItemContainer", "BackgroundItems", "BackgroundLoginItem", "Bookmark",
    "BTMUserSettings", "ItemRecord", "Storage",
)


class Archiver:

    def __init__(self, rng, ctx, xml):
        self.rng, self.ctx, self.xml = rng, ctx, xml
        self.objects = ["$null"]
        self.classes = {}
        # References with decoded value of objects that can be shared.
        self.done = []

    def uid(self, index):
        return {"CF$UID": index} if self.xml else plistlib.UID(index)

    def add(self, item):
        self.objects.append(item)
        return self.uid(len(self.objects) - 1)

    def of_class(self, name):
        if name not in self.classes:
            self.classes[name] = self.add({"$classname": name, "$classes": [name, "NSObject"]})
        self.ctx.count("composite" if name in COMPOSITES else name)
        return self.classes[name]

    def plain(self):
        """A value without class: (encoded, decoded)."""
        rng = self.rng
        kind = rng.choice(["str", "bytes", "int", "float", "bool", "falsy"])
        self.ctx.count(kind)
        if kind == "str":
            text = spec.random_text(rng, 1, 40)
            text = "x" if text == "$null" else "".join(c for c in text if c >= " ") or "x"
            return text, text
        if kind == "bytes":
            data = spec.random_bytes(rng, rng.randint(0, 60))
            return data, base64.urlsafe_b64encode(data).decode("ascii")
        if kind == "int":
            number = rng.choice([1, -1, rng.randrange(-1 << 63, 1 << 63), rng.randrange(300)])
            return number, number
        if kind == "float":
            number = rng.choice([1.5, -2.25, rng.uniform(-1e9, 1e9)])
            return number, number
        if kind == "bool":
            return True, True
        number = rng.choice([0, False, 0.0, "", b"", []])
        return number, "" if number == b"" else number

    def value(self, depth):
        """A reference or inline value of a composite object."""
        draw = self.rng.random()
        if draw < 0.25:
            self.ctx.count("inline")
            return self.plain()
        if draw < 0.32:
            self.ctx.count("list")
            parts = [self.value(max(0, depth - 1)) for _ in range(self.rng.randint(0, 3))]
            return [encoded for encoded, _ in parts], [decoded for _, decoded in parts]
        if draw < 0.36:
            # A dictionary that only looks like a reference.
            self.ctx.count("lookalike")
            parts = {"CF$UID": self.rng.randrange(40), "note": "x"}
            return parts, parts
        return self.reference(depth)

    def reference(self, depth):
        """A reference to an object: (encoded, decoded)."""
        rng = self.rng
        if rng.random() < 0.1:
            self.ctx.count("null")
            return self.uid(0), None
        if self.done and rng.random() < 0.15:
            self.ctx.count("shared")
            return rng.choice(self.done)
        result = self.make(depth)
        self.done.append(result)
        return result

    def make(self, depth):
        rng = self.rng
        kinds = ["plain", "plain", "url", "uuid"]
        if depth:
            kinds += ["array", "dictionary", "set", "composite", "table"]
        kind = rng.choice(kinds)
        if kind == "plain":
            encoded, decoded = self.plain()
            return self.add(encoded), decoded
        if kind == "uuid":
            item = uuid.UUID(int=rng.getrandbits(128))
            return self.add(
                {"NS.uuidbytes": item.bytes, "$class": self.of_class("NSUUID")}
            ), str(item)
        if kind == "url":
            relative = spec.random_text(rng, 1, 30)
            relative = "".join(c for c in relative if c >= " ") or "x"
            relative = "x" if relative == "$null" else relative
            if rng.random() < 0.15:
                self.ctx.count("NSURL:empty")
                relative = ""
            base, decoded = self.uid(0), relative
            if rng.random() < 0.4:
                self.ctx.count("NSURL:base")
                base, decoded = self.add("file:///a"), f"file:///a/{relative:s}"
                if rng.random() < 0.3:
                    # A base that is a URL as well.
                    base = self.add({
                        "NS.base": self.uid(0), "NS.relative": base,
                        "$class": self.of_class("NSURL"),
                    })
            return self.add({
                "NS.base": base, "NS.relative": self.add(relative), "$class": self.of_class("NSURL"),
            }), decoded
        number = rng.choice([0, 1, 2, 3, 5])
        if kind in ("array", "set"):
            name = {"array": ("NSArray", "NSMutableArray"), "set": ("NSSet", "NSMutableSet")}[kind]
            name = rng.choice(name)
            index = len(self.objects)
            self.objects.append(None)
            parts = []
            for _ in range(number):
                if kind == "set" and rng.random() < 0.3:
                    # An element with a reference to what contains it.
                    encoded, decoded = self.composite(depth - 1)
                    position = encoded["CF$UID"] if self.xml else encoded.data
                    self.objects[position]["container"] = self.uid(index)
                    self.ctx.count("container")
                    parts.append((encoded, decoded))
                else:
                    parts.append(self.reference(depth - 1))
            self.objects[index] = {
                "NS.objects": [encoded for encoded, _ in parts], "$class": self.of_class(name),
            }
            return self.uid(index), [decoded for _, decoded in parts]
        if kind == "dictionary":
            keys = [f"key{i:d} {rng.choice('aé/')}" for i in range(number)]
            parts = [self.reference(depth - 1) for _ in keys]
            item = {
                "NS.keys": [self.add(key) for key in keys],
                "NS.objects": [encoded for encoded, _ in parts],
                "$class": self.of_class(rng.choice(["NSDictionary", "NSMutableDictionary"])),
            }
            return self.add(item), {k: decoded for k, (_, decoded) in zip(keys, parts)}
        if kind == "table":
            encoded, decoded = self.composite(depth - 1)
            return self.add({
                "$0": 1, "$1": encoded, "$2": 0, "$class": self.of_class("NSHashTable"),
            }), decoded
        return self.composite(depth)

    def composite(self, depth):
        rng = self.rng
        names = [f"member{i:d}" for i in range(rng.choice([0, 1, 2, 4]))]
        parts = [self.value(max(0, depth - 1)) for _ in names]
        item = {name: encoded for name, (encoded, _) in zip(names, parts)}
        item["$class"] = self.of_class(rng.choice(COMPOSITES))
        return self.add(item), {name: decoded for name, (_, decoded) in zip(names, parts)}


def same(found, expected):
    """Compares values with their types."""
    return json.dumps(found, sort_keys=True) == json.dumps(expected, sort_keys=True)


def decode(rng, ctx):
    xml = rng.random() < 0.4
    archiver = Archiver(rng, ctx, xml)
    top, expected = {}, {}
    for index in range(rng.choice([1, 1, 1, 2, 3])):
        name = f"root{index:d}" if index else "root"
        if rng.random() < 0.1:
            top[name], expected[name] = archiver.plain()
            if isinstance(top[name], bytes):
                top[name], expected[name] = 1, 1
        else:
            top[name], expected[name] = archiver.reference(rng.choice([1, 2, 3, 4]))
        if index:
            ctx.count("tops")
    plist = {
        "$archiver": "NSKeyedArchiver", "$version": 100000, "$top": top,
        "$objects": archiver.objects,
    }
    bad = rng.random() < 0.05
    if bad:
        if rng.random() < 0.5:
            plist["$archiver"] = "NSArchiver"
        else:
            plist["$version"] = 100001
    data = plistlib.dumps(plist, fmt=plistlib.FMT_XML if xml else plistlib.FMT_BINARY)
    path = os.path.join(ctx.scratch, "archive.plist")
    with open(path, "wb") as file_object:
        file_object.write(data)
    ctx.keep_input("archive.plist", data)
    if bad:
        status, output, failure = c38.run(SCRIPT, path)
        if status == 0 or output.strip():
            raise Violation(f"property list of {plist['$archiver']!r} decoded", "unsupported")
        ctx.count("refused")
        return
    output = c38.success(SCRIPT, path)
    try:
        found = json.loads(output)
    except ValueError as exception:
        raise Violation(f"output is not JSON: {exception!s}", "json") from exception
    if not same(found, expected):
        raise Violation(f"decoded {found!r:.700}, archived {expected!r:.700}", "decoded")
    ctx.count("xml" if xml else "binary")
    ctx.sample({"archived": expected})
    ctx.seen(hashlib.sha256(data).hexdigest())


FAMILIES = {"decode": (decode, 1500, 60000)}
