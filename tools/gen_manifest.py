#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
RENDER = ("TLC explores module MC (the explicit TLA+ player machine of Machine.tla on the property's document families and random documents), "
          "checks the invariants and the refinement of the declarative meaning in Lottie.tla in every state, and every finished behaviour is replayed "
          "into the real code and compared on {what}. Bounded by the families and random documents; floating point tolerances as in harness/src.")
WHAT = {
 "C01": "the recorded calls, which a second TLC run validates against the sink protocol automaton (Sink.tla/Trace.tla), together with traces of the example animations",
 "C02": "layer groups (name, index, order) and whether each paints",
 "C03": "the transforms of draws and mask clips",
 "C04": "the alpha of every draw (every gradient stop)",
 "C05": "layer groups, pushed layers, their operators and pops",
 "C06": "clips (outline, transform, order) and their pops",
 "C07": "all calls, transforms, alphas and outlines",
 "C08": "the sequence of draws: outlines, transforms, brushes",
 "C09": "every value handed to the sink",
 "C10": "the outlines of all draws",
 "C11": "equality with a render alone and with its prefix, for every call at which a sink can fail (each failure point is a transition of the specification); module Concur adds every schedule of two renderers with a bounded number of switches, replayed on two threads and by rendering within a sink call",
 "C13": "completion, finiteness and the structure of the calls; module Load adds the documents of the grammar and their edits, rendered where they load",
 "C15": "equality of the static and the constant-keyframe twin, rendered and evaluated through the public model types",
 "C16": "the outlines of all draws",
 "C17": "all calls (repeaters are put into the loaded model through its public types)",
 "C18": "the scene encodings: appended, rendered to a new scene, and the recorded calls performed directly, bit by bit; objects decoded from the encoding against the specification; module Calls adds arbitrary sequences of sink calls",
 "C19": "colours, gradients and stroke styles",
 "C20": "the loaded composition's fields (references, sources, intervals, starts, sizes, opacities, blend modes, remapping) against the specification's import",
}
SCHEMA = {
 "C12": "whether each document loads, is rejected (with the asset's id) or panics",
 "C14": "equality of the three loading routes and of the re-serialised document's schema value, composition and rendering",
}
claimed = sys.argv[1:] or [p["id"] for p in props]
checks = []
for p in props:
    i = p["id"]
    if i not in claimed:
        continue
    if i in SCHEMA:
        note = ("TLC explores module Load (a document of the grammar in Schema.tla around one construct, edited step by step; invariants VerdictOK, NormOK, BlameOK) and every explored document is "
                "loaded by the real code and compared on " + SCHEMA[i] + ". Bounded by the grammar tables and random documents.")
        tech = "TLA+ specification of the document grammar and its mutations, model checked with TLC; every generated document replayed into the loader"
    else:
        note = RENDER.format(what=WHAT[i])
        tech = "explicit TLA+ state machine model checked with TLC; every explored behaviour replayed into the real code"
        if i == "C01":
            tech = "explicit TLA+ state machine model checked with TLC; recorded traces of the real code validated against a TLA+ trace specification"
    checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
                       evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks,
         not_applicable=[dict(property=p["id"], reason="check under construction") for p in props if p["id"] not in claimed],
         notes="No hooks in /repo: everything is observed through the public API (render sink, model types, schema types, scene encoding). See DESIGN.md.")
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
