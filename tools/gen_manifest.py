#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
PENDING = set("C17 C18 C19 C20 C21 C22 C23".split()) if os.environ.get("PENDING") else set()
TECH = {
    "C01": "model-based generation of document histories, independent PDF reader as oracle",
    "C02": "model-based generation of document histories, independent PDF reader as oracle",
    "C03": "generated histories with and without repeated ids against a set model",
    "C04": "exhaustive (thorough) / sampled sweep of number bit patterns, exact read-back oracle",
    "C05": "generated byte strings, round trip through an independent reader",
    "C06": "generated names in all positions, round trip through an independent reader",
    "C07": "enumerated and generated text, round trip through an independent decoder",
    "C08": "generated setter sequences against a reference formatter",
    "C09": "generated object trees and call styles, round trip through an independent reader",
    "C10": "generated streams with adversarial data, round trip through an independent reader",
    "C11": "model-based histories of chunk merges",
    "C12": "differential: renumbering against rewriting the same program with mapped ids",
    "C13": "generated operation sequences against an operation-list model",
    "C14": "stateful generation; limits recomputed from parsed output after every step",
    "C15": "generated maps against an independent CMap interpreter",
    "C16": "generated operator trees against a token-level model",
    "C24": "enumeration of all roles and heading levels against reference tables",
    "C25": "boundary-biased generation of valid and invalid arguments and call orders",
    "C26": "metamorphic: the same generated program under other capacities, clones, layouts",
    "C27": "generated values against algebraic laws",
}
LEVEL = "Searches generated inputs with a fixed seed and fixed number of cases against an oracle written from ISO 32000 and the crate's documentation; shrinks any failure to a replay file. Trusts the independent reader and tables in /verif/harness; says nothing about cases it did not generate."
EXTRA = {
    "C04": " The thorough tier enumerates all 2^32 float bit patterns.",
    "C24": " Enumerates the whole domain (all roles, all heading levels, all option sets).",
}
def cmd(i, tier=""):
    return f"{tier}bash ./check.sh {i}"
out = {
    "version": 1,
    "setup_cmd": "bash ./check.sh build",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": cmd(p["id"]),
            "thorough_cmd": cmd(p["id"], "VERIF_TIER=thorough "),
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH.get(p["id"], "generated builder-call programs over every typed method against a key/value model, read back by an independent reader"),
            "level": "exploration",
            "level_note": LEVEL + EXTRA.get(p["id"], ""),
        }
        for p in props if p["id"] not in PENDING
    ],
    "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] in PENDING],
    "notes": "No hooks in /repo. check.sh rebuilds the harness against /repo's current tree (by content hash) and runs one property; VERIF_SEED, VERIF_TIER and VERIF_CASES adjust it.",
}
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
