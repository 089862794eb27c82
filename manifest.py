#!/usr/bin/env python3
"""Writes MANIFEST.json from what the harness can decide."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NOTES = {
 "C01": "random types and values x indentation x writers x readers; oracle: the value that was written",
 "C02": "random trees of serializer calls, valid by construction; oracle: a reference JSON parser over the output",
 "C03": "random and edited texts, and every short sequence of tokens; oracle: a reference JSON parser",
 "C04": "random documents with random comments, against the reference parser and the same document without them",
 "C05": "random documents and random access histories (ask, peek, skip, skip rest, nested), each step against a model of the document",
 "C06": "random and boundary integer literals in every spelling, for every integer type; oracle: exact decimal arithmetic",
 "C07": "random floats and hard decimal literals; oracle: the standard library's correctly rounded conversion",
 "C08": "random strings and escapes, through every way to consume a string; oracle: reference decoding",
 "C09": "random struct types and documents, with mistakes; oracle: a reference reader over the document tree",
 "C10": "random tag and enum types and documents, with mistakes; oracle: a reference reader over the document tree",
 "C11": "random and edited texts x types x call sequences, budgeted readers, nesting of 200000 levels in child processes",
 "C12": "random documents cut short, continued or surrounded; oracle: the reference parser",
 "C13": "the same calls over every text source and chunking; differential, with positions",
 "C14": "random bytes, chunkings and operations; oracle: the standard library's UTF-8 decoder and a vector of characters",
 "C15": "random documents with one or more mistakes; oracle: a reference reader which knows the source offset of every value",
 "C16": "random name sets x lookups by pieces, maps built at compile time; oracle: a sorted list of names",
 "C17": "random values through a recording format which checks the protocol; oracle: the token sequence of the type's model",
 "C18": "random call sequences with one misuse, against a model which says when to panic",
 "C19": "every failure point of the output of random values; oracle: the output when nothing fails",
 "C20": "random type definitions, compiled with the derive macros on every run; oracle: the models of the types",
 "C21": "random sequences x ways to read and write them, with wrong lengths; oracle: a model of the sequence",
 "C22": "random documents and skips, each followed by a check of what is next; oracle: a model of the document",
 "C24": "random malformed texts and all short ones, read whole in several ways, and documents cut short; oracle: a reference parser which says where the text goes wrong",
 "C25": "random parts repeated a few times and many times, read in order, skipped, buffered or written; oracle: the most memory held, counted by the allocator, is the same (metamorphic), or within a bound proportional to the text",
 "C26": "random documents, types and histories over an implementation of the interface in memory, which checks each call and can fail at any; oracle: a model of the document, a reference reader",
 "C27": "random readers, writers and lookups, interleaved call by call, nested in each other's callbacks, abandoned, or on several threads; oracle: each alone (metamorphic)",
 "C23": "random type definitions with one mistake, each compiled; oracle: the compiler accepts the definition without it and must reject the one with it",
}
claimed = [l.strip() for l in open(os.path.join(here, "claimed.txt")) if l.strip()]
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = [{
    "property": p,
    "quick_cmd": f"./check.sh {p}",
    "thorough_cmd": f"./check.sh {p} thorough",
    "technique": "property-based testing (generated cases, explicit oracle, shrinking)",
    "level": "exploration",
    "level_note": NOTES[p],
} for p in props if p in claimed]
out = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "no check yet"} for p in props if p not in claimed],
}
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
