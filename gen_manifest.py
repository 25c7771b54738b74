#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
REPLAY = "TLA+ specification checked with TLC; its states replayed into the real code"
TRACE = REPLAY + "; traces recorded from the code validated by TLC"
COMPILED = REPLAY + ": specifications written by the model are generated, compiled with rustc and run on the model's wires"
NOTE = {
    "C01": (TRACE, "Exhaustive over the specification's universe (every leaf kind at its range ends, every composite kind, nesting depth 2, 3 in thorough), long data to 100003 elements, and random values of 60 Rust types validated against the specification. Trusts TLC, and the harness's serde bindings."),
    "C02": (TRACE, "As C01; the oracle for the bytes is the specification's Enc, which the small-step serializer machine is proved (by TLC, on the same universe) to implement."),
    "C03": (REPLAY + "; arbitrary bytes run to an outcome", "Every truncation, extension, word overwrite and byte overwrite of the universe's wires, run in watched processes with overflow checks on; termination of the decoder machine checked as a liveness property."),
    "C04": (TRACE, "Every proper prefix and several extensions of every wire of the universe; error kinds compared, the count of trailing bytes exactly."),
    "C05": (TRACE, "Every word of every wire overwritten by 47 words at range ends, bytes overwritten; the decoded value compared with the specification's."),
    "C06": (REPLAY, "Enums of 1 to 302 variants of all four kinds, every discriminant word overwritten, at depth 0 and 1."),
    "C07": (REPLAY + " under a counting allocator", "Peak memory held while decoding hostile lengths, on the specification's types (256 KiB + 256 bytes per byte supplied) and on Rust types (6 MiB + the same)."),
    "C08": (REPLAY, "Unknown lengths, lengths and variant numbers at and beyond 2^32 and 2^31, 128-bit integers, in every composite position."),
    "C09": (REPLAY, "Fixed and variable opaque data of every length 0..72 and around powers of two to 65538, at depth 0, 1 (2 in thorough), intact and damaged."),
    "C10": (REPLAY, "Seven accepted sets including the ends of the range, every word overwritten, at depth 0 to 2."),
    "C11": (REPLAY, "A failing part at every position of every composite, depth 2 (3 in thorough), encoding and decoding; the failure must come back as raised."),
    "C12": (REPLAY, "Enums of both styles of number (dense, sparse, 0, 2^32-1-like), unit and data variants of every leaf kind, standing alone and inside every composite; the types are generated as Rust source and compiled against the derive macro, so any accepted shape is exercised as a user would write it."),
    "C13": (REPLAY, "Unions over every discriminant kind, several labels per arm, default arms, several fields per arm; compiled against the derive macro as in C12; every discriminant word overwritten."),
    "C14": (REPLAY, "Every keyword-like name at every place a name may stand, every type in every declaration place, every number form at every place, sequences of definitions, and pseudo-random specifications; the specification's own recogniser proves each text means the definitions it was written from, and the real parser's output is compared with those definitions."),
    "C15": (REPLAY, "Every layout (blanks, comments, pass-through lines) at every boundary of 29 specifications, cyclic and pseudo-random layouts of whole specifications."),
    "C16": (REPLAY, "Every deletion, duplication, swap, cut, merge, replacement and insertion of a word in 29 specifications and of a character in 9; each edited text is judged by the specification's lexer and recogniser, and refused or accepted accordingly."),
    "C17": (REPLAY + "; arbitrary texts run to an outcome", "Every text of C14 and C16 parsed and generated under all 32 configurations in watched processes, and arbitrary texts put together from the words of the language."),
    "C18": (COMPILED, "65 literals in every base at the ends of every range, by themselves and through chains of constants and enumerators, as constants, enumerators, labels and sizes of compiled code; 165 values (too big, too small, unknown and circular names of every kind) at 18 places under 12 modes: generated or refused as the specification says."),
    "C19": (COMPILED, "Eight sets of enumerators (dense, sparse, negative, at the ends of int, by name), enums of up to 300, at every place of use, in all nine modes; every discriminant word overwritten by 22 words."),
    "C20": (COMPILED, "Every member kind alone and among others, sizes by every base and chain, opaque data of every residue, a name for every member kind, structs of up to 130 members, chains of 40 constants, long names, nested structs to depth 14, recursive types, pseudo-random documents; wires damaged at every word. Recursion is unfolded twice."),
    "C21": (COMPILED, "21 sets of labels (literals, constants, enumerators, typedef discriminants) with 8 defaults in all nine modes, 21 contents of arms, arms of up to 130 labels, unions of up to 135 arms, pseudo-random documents, discriminants at the ends of their types; every discriminant word overwritten. Default arms are compared in the mode that carries them."),
    "C22": (COMPILED, "Names for every member kind behind chains of up to 17 names; 19 meanings named by typedefs of typedefs and used in every way, in all nine modes and with aliases kept; five documents reversed, rotated and mixed with programs and lines. The text generated twice, in two processes, is the same, with every definition once."),
    "C23": (REPLAY, "Every name over a small alphabet to length 5 (7 in thorough), and every Rust keyword in 13 spellings, at 13 places; the naming rules are checked by TLC to give legal identifiers and keep letters and digits; all keywords as members, enumerators, arms, types and constants compiled."),
    "C24": (REPLAY, "Every order of every set of options with the path at every place, 17 wrong argument lists, 12 contents, 17 conditions of the file, and two failing outputs, run with the real program against the library's output."),
    "C25": (COMPILED, "The enums of C18, C19 and C23 and pseudo-random ones, in every enum mode: each enumerator cast to a number, borrowed as one, asked for its index, and made from every declared number and its neighbours, the ends of int and words of other places; the numbers are the specification's."),
    "C26": (COMPILED + "; default values recorded from the code validated by TLC", "Every type of the documents of C19 to C23 and of pseudo-random ones, in three modes (all nine in thorough): its default value is made in a watched process, encoded, and TLC decides whether the bytes are those of a value of the type (of the lowest enumerator for an enum); the bytes decode to the same value again."),
}
NA = {}
checks = []
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = []
for p in props:
    i = p["id"]
    if i in NOTE:
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: every observation is made through its public interfaces."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
