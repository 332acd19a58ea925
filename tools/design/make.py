"""Writes DESIGN.md from its parts, the properties, the checks and the planted bugs."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path[:0] = [ROOT, os.environ.get("VERIF_REPO", "/repo"), os.path.join(ROOT, "tools"), HERE]

import methods  # noqa: E402  pylint: disable=wrong-import-position
import properties  # noqa: E402  pylint: disable=wrong-import-position


def read(name):
    with open(os.path.join(HERE, name), encoding="utf-8") as file_object:
        return file_object.read().rstrip("\n")


def main():
    parts = [read("intro.md"), "", read("families.md") if os.path.exists(
        os.path.join(HERE, "families.md")) else ""]
    for entry in properties.PROPERTIES:
        identifier = entry["id"]
        module = importlib.import_module(f"vf.checks.{identifier.lower():s}")
        rule = " ".join(module.RULE.split())
        families = ", ".join(
            f"{name:s} {values[1]:d}/{values[2]:d}" for name, values in module.FAMILIES.items()
        )
        parts += [
            f"### {identifier:s} {entry['title']:s}", "", entry["statement"], "",
            f"*How.* {methods.D.get(identifier, '')}", "",
            f"*Cases.* {rule[:1].upper() + rule[1:]:s}.", "",
            f"*Families (cases quick/thorough).* {families:s}. "
            f"{len(module.REQUIRED):d} required counters.", "",
            f"*Why beyond the tests.* {entry['why']:s}", "",
        ]
    parts += ["## 3. Planted bugs and what catches them", "",
              "| change | property | needs | caught by |", "|---|---|---|---|"]
    seeded = os.path.join(ROOT, "seeded")
    results = {}
    path = os.path.join(HERE, "caught.json")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as file_object:
            results = json.load(file_object)
    for name in sorted(os.listdir(seeded)):
        with open(os.path.join(seeded, name, "meta.json"), encoding="utf-8") as file_object:
            meta = json.load(file_object)
        caught = results.get(name, meta["property"])
        parts.append(
            f"| {name:s}: {meta['what_it_breaks']:s} | {meta['property']:s} | "
            f"{meta['needs']:s} | {caught:s} |"
        )
    parts += ["", read("limits.md"), ""]
    with open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8") as file_object:
        file_object.write("\n".join(parts))


main()
