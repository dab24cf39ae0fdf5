#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
TECH = "static analysis: path-sensitive abstract interpretation of the crate's MIR (value numbering, bit provenance, intervals), "
C = {
 "C06": ("decode/encode tables compared with the LC-3 encoding table", "Decides decode/encode agreement for every opcode pattern with symbolic operand bits."),
 "C01": ("assembled words compared with an assembler reference over enumerated statement shapes", "Statement shapes enumerated (every instruction form, label position, block layout, sequences up to length 4), operand values, addresses and strings symbolic."),
 "C02": ("acceptance and error kind compared with an assembler reference over enumerated statement shapes", "Statement sequences up to length 4 over the statement alphabet, layouts and label shapes; operand values and addresses symbolic."),
 "C23": ("symbol-table query results compared with a label reference", "Label shapes and statement sequences enumerated, addresses symbolic."),
 "C24": ("line-map query results compared with a line reference", "Line-layout shapes and statement sequences enumerated, addresses symbolic."),
 "C26": ("error-span bounds and coverage on every rejecting path of the assembler", "Rejecting paths of the enumerated statement shapes."),
 "C05": ("outcome paths of the parser over symbolic digit strings compared with the range and value of every literal", "Every numeric and register operand of every instruction and directive, each written prefix, digits symbolic by value class; token automata derived from the token attributes."),
 "C03": ("abstract lexing and parsing of enumerated grammar derivations compared with the derivation's AST", "Statement derivations of the grammar (every keyword, operand style, comment, label and layout form); digit strings and string contents symbolic."),
 "C04": ("outcome paths of the parser over texts with symbolic characters: panic sites and span arithmetic", "Enumerated token sequences and malformed texts; characters of symbolic classes; panics and span bounds judged on every path."),
 "C07": ("composition of the decode, print, lex, parse and assemble summaries compared with identity", "Every opcode class with symbolic operand bits, symbolic load address."),
 "C17": ("composition of the write and read summaries of the binary format compared with identity", "Objects from abstract assembly and linking: program shapes, label and source texts enumerated, addresses and words symbolic; three hash-map orders followed."),
 "C18": ("composition of the write and read summaries of the text format compared with identity", "Objects as for C17, source texts with quotes, backslashes, control and non-ASCII characters, every line-end style."),
 "C19": ("panic-site reachability on the abstract paths of the readers and of every use of an accepted file", "Streams enumerated by structure (chunks, sections, lengths, truncations, field values), payload bytes symbolic; writers, link and load on every accepted object."),
 "C36": ("composition of the print, lex and parse summaries compared with identity", "Every statement shape with symbolic operand values, label and string shapes enumerated."),
 "C20": ("linked object, symbol-table and rejection summaries compared with a linking reference over link trees", "Assembled shapes paired in two- to four-file link trees in both orders and groupings; addresses and words symbolic."),
 "C21": ("relocation summaries (words, table, load) compared with an external-symbol reference", "External declarations, definers and link trees enumerated; addresses symbolic. One known finding."),
 "C22": ("debug-symbol queries of linked objects compared with a combined-source reference", "File sets and link trees enumerated in source layout; addresses symbolic."),
 "C25": ("line-index summaries compared with a text reference", "Texts enumerated up to a length over newline, blank and multi-byte characters; the queried index is symbolic."),
 "C08": ("per-step effect summaries compared with an ISA reference", "Every abstract path of step(), strict mode off; machine contents symbolic."),
 "C09": ("access-control effect rules on memory and step summaries", "Every access of every abstract path of read_mem/write_mem/step."),
 "C10": ("interrupt entry, priority gate and poll/arbitration summaries compared with a reference", "Step paths with a pending request, the device poll loop over concretised device lists."),
 "C15": ("two-copy non-interference of the uninitialized bits by per-bit truth tables over bit provenance", "Every path of the four word operations, compound assignments and constructors, all masks and data symbolic."),
 "C16": ("panic-site reachability on the abstract paths", "Every assertion, unwrap, index and arithmetic check reached from step, run loops, memory access and the standard devices."),
 "C32": ("port-table, dispatch and register-map summaries compared with a table reference", "Device and address lists concretised in length (0-6), contents symbolic."),
 "C35": ("bit-provenance summaries per width compared with sign/zero extension", "All 32 instances (N 1-16, u16/i16) with a symbolic value."),
 "C29": ("memory effect summaries of loading and construction compared with the object image", "Block shapes enumerated, words and the machine symbolic; construction with the load abstracted."),
 "C30": ("field-wise comparison of reset's abstract result with the constructor's", "Deterministic strategies; every other part of the machine symbolic."),
 "C31": ("dependence of initial state and timer samples on the configuration, plus a call-graph audit of nondeterministic sources", "Random sources as uninterpreted functions of their seeds."),
 "C33": ("queue/flag effect summaries of the keyboard and display devices compared with a reference", "Status and data accesses, buffer contents concretised in length, lock contention forked."),
 "C34": ("abstract unrolling of the timer countdown with every sampled value forked", "Ranges of every kind; large intervals by one symbolic poll step; seeds and ranges compared symbolically."),
 "C13": ("loop contracts of the run/step_over/step_out drivers over an abstract step", "Step is abstracted; run loops explored to a fixed number of abstract iterations."),
 "C14": ("strict-mode summaries compared with a non-strict reference", "Every abstract path of step() in strict mode."),
 "C27": ("frame-stack effect summaries compared with a reference", "Frame push/pop per step kind and the queries of FrameStack."),
 "C28": ("access-observer effect summaries compared with the accesses made", "Observer sets per abstract path, through the public queries."),
}
NA = json.load(open(os.path.join(ROOT, "not_applicable.json"))) if os.path.exists(os.path.join(ROOT, "not_applicable.json")) else {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C and os.path.exists(os.path.join(ROOT, "rules", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": TECH + C[i][0], "level": "other",
                       "level_note": C[i][1] + " Trusts rustc's MIR, the std models in engine/models.py and the reference tables in rules/. Obligations the analysis cannot decide are reported UNDECIDED, not as violations."})
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet built in this framework")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the analysis reads private items from the compiler's MIR. fix: commits in /repo are listed in known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
