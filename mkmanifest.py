#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os

ROOT = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("fuzzing: mutated, truncated and hostile byte strings against totality, termination and allocation bounds", "Every decode of a generated hostile input must return a result or an error, within CPU, memory and recursion bounds."),
 "C02": ("property-based testing: framing of generated packet streams and prefixes against the wire length", "Every split and prefix of generated frames."),
 "C03": ("property-based testing: encoder output against a reference MQTT decoder", "Packets built through the public API; the wire image is judged by an independent model of the three MQTT versions."),
 "C04": ("property-based testing: reference-encoded packets decoded and read back", "Well-formed wire images from an independent encoder, all legal short forms."),
 "C05": ("property-based testing: decode/encode/decode round trip", "Round trip over reference-encoded, mutated and lax inputs."),
 "C06": ("property-based testing: structured malformations against a reference decoder's verdict", "Every input the reference decoder calls invalid must be refused; inputs on which MQTT or the library's documentation leave latitude are excluded and counted."),
 "C07": ("property-based testing: encoding into buffers of every size with guard bytes", "All buffer sizes around the announced one, with canaries."),
 "C08": ("property-based testing: encoder refusals around field and packet limits", "Generated packets on and over every length limit and with missing mandatory parts."),
 "C09": ("model-based stateful testing of the property bag", "Operation sequences against a map model, wire image checked by the reference decoder."),
 "C10": ("exhaustive enumeration plus generated blocks against the MQTT 5.0 property table", "All identifiers x hosts x versions enumerated, combinations generated."),
 "C11": ("exhaustive enumeration of codes x packets x versions against the MQTT tables", "The whole finite space; code lists generated."),
 "C12": ("bounded-exhaustive and generated strings against a reference grammar", "All strings up to a bounded length over the significant alphabet, plus generated text, through every entry point."),
 "C13": ("model-based stateful testing of the CONNECT setters", "Operation sequences against a model; wire image by reference decoder."),
 "C14": ("exhaustive flag/version/level enumeration and generated CONNECTs against the reference decoder", "All 256 flag bytes x versions; contents generated."),
 "C15": ("model-based stateful testing of the PUBLISH setters", "Operation sequences against a model; wire image by reference decoder."),
 "C16": ("property-based testing of Clone against the forwarding rules", "Version pairs, property sets and later mutations generated; independence checked both ways."),
 "C17": ("stateful property-based testing of version switches", "Switch/property/reason sequences against a model packet; wire image by reference decoder."),
 "C18": ("property-based testing with bracketing clock reads", "Deadlines generated around whole-second boundaries; the verdict is checked only against the bracket, so it is independent of scheduling."),
 "C19": ("property-based testing of the length-prefix primitives with guard bytes", "Sizes, capacities and surroundings generated around every limit."),
 "C20": ("property-based testing of lists against the built or encoded sequence; all option bytes enumerated", "List contents, stop positions and append-after-decode generated."),
 "C21": ("exhaustive enumeration of type values x versions", "The whole finite space, plus generated packets for state leaks."),
 "C22": ("concurrency stress with generated workloads and a conservation oracle, with and without the race detector", "Interleavings are sampled, not enumerated: a race that needs a rare window may be missed in one run; sequential histories are decided against an exact model."),
 "C23": ("generated concurrent histories against the set of maxima their linearisations allow, with and without the race detector", "Interleavings are sampled; short histories are judged against every order their real-time order allows, one-direction phases exactly; sequential histories against an exact model."),
 "C24": ("property-based testing of NormalizeConfig against key-by-key comparison", "Generated maps of both kinds with nested values and foreign keys, and other values."),
 "C25": ("exhaustive and generated values of every error and status type", "Byte-sized types exhaustively, integer types over boundaries and random values."),
 "C26": ("concurrent execution of generated tasks compared with sequential execution, with and without the race detector", "Interleavings are sampled; results are compared with those of a sequential run and the race detector watches every access."),
 "C27": ("metamorphic testing: overwriting buffers must not change messages", "Generated messages, overwrites of input and output buffers."),
 "C28": ("model-based stateful testing of the acknowledgement and subscription setters", "Generated sequences of setter calls with encodings and reloads between; a reference packet per step."),
 "C29": ("enumeration and property-based testing of refused packets against expected reasons", "Frames with one fault or more; the set of reasons that the faults allow."),
 "C30": ("property-based testing of histories against a model", "Several descriptors alive at once, asked and refilled in any order; the model is a plain copy."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
src = "".join(open(os.path.join(ROOT, "harness/checks", f)).read() for f in os.listdir(os.path.join(ROOT, "harness/checks")) if f.endswith(".go"))
checks, na = [], []
for p in props:
    i = p["id"]
    if 'ID: "%s"' % i not in src:
        na.append({"property": i, "reason": "check not written yet"})
        continue
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "technique": tech, "level": "exploration",
                   "level_note": note + " Trusts the Go toolchain, rapid, and (where a wire image is judged) the reference model in harness/ref."})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check works through the public API. fix: commits are listed in known-findings.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", [x["property"] for x in na])
