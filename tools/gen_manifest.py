#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "N01": "Equality of decode(encode(v)) and v for every value is an inductive statement about values computed at run time; the structural halves that are static (layout written per kind, tags read back, lengths checked) are C01 and C02.",
    "N02": "Byte-for-byte equality of a stream across threads, sockets and the kernel's terminal layer is a statement about run-time values and schedules; the static part (no read result is dropped, reordered or sent twice) is C17, C21, C31 and C39.",
    "N03": "The back-off window is a statement about elapsed time inside lomond and the scheduler; no static rule in reach bounds it. That persist is used with a ping timeout is C13.",
    "N05": "Whether a path below the root is a symbolic link, or becomes one between check and use, is file-system state at run time; the lexical containment of every path is C25.",
}
TECH = "static analysis: path-sensitive abstract interpretation of the source (dataflow, typestate, effects)"


def text(src, name):
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == name:
            return ast.literal_eval(node.value)
    return None


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        mod = os.path.join(HERE, "sa", "checks", pid + ".py")
        if os.path.exists(mod):
            src = open(mod).read()
            m, n = text(src, "TECHNIQUE"), text(src, "NOTE")
            checks.append({
                "property": pid,
                "quick_cmd": "python3 run.py " + pid,
                "thorough_cmd": "python3 run.py " + pid,
                "technique": m or TECH,
                "level": "other",
                "level_note": (n + " " if n else "") + "Static: every path of the functions the rule reaches is "
                "followed over abstract values (loops to a fixpoint, external calls by a fixed model); nothing of the "
                "agent is run. Trusted: the models in sa/models.py and the assumptions listed in the evidence file.",
            })
        else:
            na.append({"property": pid, "reason": NA.get(pid, "no check has been built for it (yet)")})
    m = {
        "version": 1,
        "setup_cmd": "python3 -c \"import ast, sys; assert sys.version_info >= (3, 8)\"",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks read /repo's source on every run (python3 run.py <id>); there are no hooks in /repo.",
    }
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", len(na), "not applicable")


main()
