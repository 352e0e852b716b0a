#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ENC = ("TLA+ model of the source language (Asm.tla) and an independent x86-64 decoder (X86.tla); "
       "trace validation of assembled statements with TLC")
ENCN = ("Every statement form of the language is assembled by the real macro and runtime with systematically chosen "
        "operands; TLC checks each emitted byte string against the specification. Bounded by the operand values "
        "enumerated (all registers, all addressing shapes, boundary and seeded random values). Trusts X86.tla.")
CHECKS = {p: (ENC, "model_checking", ENCN) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08")}
JIT = ("TLA+ state machine of the assembler object (Jit.tla) explored exhaustively with TLC (JitMC.tla); its histories are "
       "replayed on the real JitMemory and every recorded event is validated against the specification (JitTrace.tla)")
JITN = ("The property is an invariant or step property of the model, checked in every state up to a bounded history length; all short histories, "
        "random long ones generated by TLC and hand-picked extreme ones are replayed on the real code and judged event by event. "
        "Bounded by history length and alphabet.")
CHECKS.update({p: (JIT, "model_checking", JITN) for p in ("C09", "C10", "C11", "C12", "C13", "C14", "C15")})
LIFE = ("TLA+ model of assembler lifetimes (Life.tla); all bounded histories from TLC are replayed on real assemblers and every recorded event "
        "(return values, access rights, membership answers, distances) is validated against the specification (LifeTrace.tla)")
CHECKS["C16"] = (LIFE, "model_checking", "All lifetimes up to a bounded length over two or three assemblers plus random long ones with up to twelve; "
                 "trusts /proc/self/maps for access rights.")
EXE = ("TLA+ model of the processor (Cpu.tla over the decoder-independent statement semantics); real executions with every register, flag and memory byte "
       "recorded are validated event by event with TLC (CpuTrace.tla)")
CHECKS["C17"] = (EXE, "model_checking", "Every executable statement form x 48 (quick) or 480 (thorough) machine states of corner and random values; corrupted control events must be refused. "
                 "Values are sampled, not proved for all 2^64.")
PRG = ("TLA+ interpreter of whole programs (Prog.tla over Cpu.tla); random structured programs with loops, calls, data, constants, patches and both pages are assembled, "
       "run and validated with TLC (ProgTrace.tla)")
CHECKS["C18"] = (PRG, "model_checking", "Thousands of generated programs per run; corrupted control runs must be refused. Programs and inputs are sampled.")
BLK = ("TLA+ specification of a block as the concatenation of its statements (Block.tla over Asm.tla/X86.tla), model checked for readability (BlockMC.tla); blocks assembled by the "
       "real macro and runtime in many groupings, pages, positions, rounds and instances are validated with TLC (BlockTrace.tla)")
CHECKS["C19"] = (BLK, "model_checking", "All ordered pairs of the common statements and thousands of random blocks over all statement forms, each assembled in several groupings and places; "
                 "corrupted control blocks must be refused. Longer combinations are sampled.")
PTR = ("TLA+ model of labels and code pointers as handles on addresses (Ptr.tla), its laws checked in all bounded histories (PtrMC.tla); the histories are replayed on real assemblers "
       "and every address, distance and comparison is validated with TLC (PtrTrace.tla)")
CHECKS["C20"] = (PTR, "model_checking", "All histories of a bounded length over one and two assemblers (a sample of them replayed in the quick tier) plus random long ones with up to four and distant labels; "
                 "corrupted control runs must be refused.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i,
                       "thorough_cmd": "python3 tools/check.py %s --tier=thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": "check still being built"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the public API exposes all the state the specification needs."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
