#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "vf"))
import units

P = []
NA = {}


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), note="", technique=None, level="proof", na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c)
                                      for a, b, c in state],
                               mechanism=[dict(name=a, where=b)
                                          for a, b in mech],
                               observe_at=list(observe),
                               hook_needed=None)))
    if na:
        NA[id] = na
    else:
        P[-1]["_m"] = (note, technique, level)


exec(open(os.path.join(VERIF, "vf", "properties_table.py")).read())

TECH = ("contract-based deductive verification of the real C source: cbmc "
        "code contracts (goto-instrument --dfcc) and per-function harness "
        "obligations, discharged by SAT")


def main():
    checks = []
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            m = p.pop("_m", None)
            f.write(json.dumps(p) + "\n")
            if m is None:
                continue
            if p["id"] not in units.PROPS:
                print("no units for", p["id"])
                NA[p["id"]] = "no check built yet"
                continue
            note, tech, level = m
            assert level == units.PROPS[p["id"]].get("level", "proof"), p["id"]
            checks.append(dict(
                property=p["id"],
                quick_cmd="bin/check %s quick" % p["id"],
                thorough_cmd="bin/check %s thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique=tech or TECH, level=level, level_note=note))
    man = dict(version=1, setup_cmd="bin/setup", checks=checks,
               not_applicable=[dict(property=k, reason=v)
                               for k, v in sorted(NA.items())],
               notes="No hooks: contracts, harnesses and specifications live "
               "in /verif/contracts and include /repo's sources textually.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
