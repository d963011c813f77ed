#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of type-checked MIR (linear-integer, bit-level and array-segment domains)"
NOTE = ("Every operation is analysed from an arbitrary vector (any length, capacity, content and stale bits) and arbitrary arguments, on the MIR rustc produces from the current sources. "
        "Obligations that the domains cannot decide are counted as open in the evidence and never reported. Trusts the MIR, the analyser's transfer functions and its models of std/smallvec containers; covers the element widths listed in the evidence.")
AI_MAP = "abstract interpretation of type-checked MIR (linear, monomial and mixed-radix integer domains)"
NOTE_MAP = ("to_discr, from_discr and NUM_VARIANTS of every built-in implementation are analysed with opaque component types of arbitrary NUM_VARIANTS and arbitrary component values, "
            "with and without overflow checks, on the MIR rustc produces from the current sources; a refutation carries a concrete counterexample found by evaluating the abstract value. "
            "Trusts the MIR and the analyser's transfer functions; component types respect the EnumLike contract; the total number of variants fits usize.")
NOTE_MAP_D = ("The code the derive macro generates is analysed for a fixed corpus of declarations (probe/src/derived.rs: every shape and mixture of unit, tuple and named variants, generics, lifetimes, explicit discriminants), each for all component types and values. "
              "Declarations outside the corpus are not covered. Trusts the MIR and the analyser's transfer functions.")
NOTE_L = ("The provided method or implementation is analysed for an opaque element type with an arbitrary number of variants, on the MIR rustc produces from the current sources, with and without overflow checks. "
          "Histories of iterator calls are explored up to a fixed depth from an arbitrary state of the iterator. Trusts the MIR and the analyser's transfer functions.")
NOTE_C12 = ("The public items of all six storage modules are read from the compiler's metadata of the current sources and compared after abstracting module path, storage type and block type; every public method, trait implementation, associated type, bound, variance and Send/Sync is one obligation per variant. "
            "The unchecked operations must be unsafe, and no safe method may hand out storage mutably; a witness crate has to compile with every operation on every variant for an element type that implements nothing but EnumLike. That same-named operations also behave alike is decided by C01-C11, which analyse every variant.")
AI_SET = "abstract interpretation of type-checked MIR (membership of a generic element as a decision diagram, region sizes as linear terms)"
NOTE_S = ("Every method of EnumSet and every iterator is analysed on two arbitrary sets (membership of a generic element, sizes of the Venn regions) of an opaque element type. The bit_set dependency is trusted and modelled as mathematical sets of integers; everything in /repo is analysed. "
          "Iterators are walked to a fixed depth from arbitrary sets; loops over caller items are unrolled, the rest is counted as open.")
CHECKS = {
    "C01": (AI, "other", NOTE),
    "C02": (AI, "other", NOTE),
    "C03": (AI, "other", NOTE),
    "C04": (AI, "other", NOTE),
    "C05": (AI, "other", NOTE),
    "C06": (AI, "other", NOTE),
    "C07": (AI, "other", NOTE),
    "C08": (AI, "other", NOTE),
    "C09": (AI, "other", NOTE),
    "C10": (AI, "other", NOTE),
    "C11": (AI, "other", NOTE),
    "C12": ("queries over the type-checked program: public surface of each storage variant (signatures, bounds, safety, trait implementations, auto traits, variances) compared item by item, plus compile witnesses for every operation", "other", NOTE_C12),
    "C13": (AI, "other", NOTE + " The preconditions the library documents for the unchecked operations are assumed."),
    "C14": (AI, "other", NOTE + " Sets are analysed with the set domain of S01."),
    "C15": (AI, "other", NOTE + " The debug builders of core are modelled as a log of entries; other ways of formatting are counted as open. Sets are analysed with the set domain of S01."),
    "L01": (AI_MAP, "other", NOTE_MAP),
    "L02": (AI_MAP, "other", NOTE_L),
    "L03": (AI_MAP, "other", NOTE_L),
    "L04": (AI_MAP, "other", NOTE_MAP),
    "S01": (AI_SET, "other", NOTE_S),
    "S02": (AI_SET, "other", NOTE_S),
    "S03": (AI_SET, "other", NOTE_S + " The order of two different bit sets is one symbol, so anything but that order is told apart from it; code that compares members itself is followed to a fixed number of members."),
    "D01": (AI_MAP, "other", NOTE_MAP_D),
    "D02": (AI_MAP, "other", NOTE_MAP_D),
}
NA = {
    "N01": "A statement about running time on real hardware; no source-level argument bounds it.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [
        {
            "property": p,
            "quick_cmd": "python3 check.py %s quick" % p,
            "thorough_cmd": "python3 check.py %s thorough" % p,
            "technique": CHECKS[p][0],
            "level": CHECKS[p][1],
            "level_note": CHECKS[p][2],
        }
        for p in props if p in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": NA.get(p, "Check not built yet.")} for p in props if p not in CHECKS],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
