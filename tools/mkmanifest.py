"""Writes /verif/MANIFEST.json (run by hand)."""
import json

T = "TLA+ specification, model-checked with TLC; bound to the code by replaying its behaviours and validating recorded sessions"
NOTE = ("TLC visits every behaviour of the specification for the bounded grammars, inputs and options of the configurations and prints "
        "each; all are replayed on the code. Beyond these bounds random grammars run on the code and every recorded session is judged "
        "by the specification clause by clause. Trusted: TLC, the grammar builder and recorder in harness/, and the specification as the "
        "reading of the property.")
SPECIAL = {
    "C12": ("TLA+ specification of the lexer, model-checked with TLC; every behaviour replayed and recorded lexings validated",
            "Exhaustive over small texts and match tables; the regular expression engine (re) is trusted and its matches are recorded per position."),
    "C13": ("TLA+ specification of client histories, model-checked with TLC; every history replayed step by step on live objects",
            "Exhaustive over short histories of parse, unwrap, fmap, define and mutation steps on shared parsers, plus long recorded sessions; "
            "a disagreement counts if the same parse done alone in a fresh process gives another outcome."),
    "C19": ("TLA+ specification of interleaved parses, schedules enumerated by TLC and forced on real threads",
            "All callback-granularity interleavings within a switch bound; finer preemption (line and opcode) and re-entrant parses sampled. "
            "A disagreement counts against the outcome of the parse run alone."),
}
checks = []
for n in range(1, 25):
    i = "C%02d" % n
    t, note = SPECIAL.get(i, (T, NOTE))
    cmd = "/opt/venv/bin/python -B check.py " + i
    checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd,
                       evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=note))
with open("/verif/MANIFEST.json", "w") as f:
    json.dump(dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=[],
                   notes="TLA+ with TLC. No hooks in /repo: the public API and user callbacks expose everything the specification needs. "
                         "VERIF_REPO selects another checkout of the code (default /repo)."), f, indent=1)
    f.write("\n")
