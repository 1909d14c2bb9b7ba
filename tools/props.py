#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "srcs/toolbox/"
P = []
def p(id, title, st, over, text, why, files, mech, level, tech, note, observe=None, state=None):
    P.append(dict(id=id, title=title, st=st, over=over.split(), text=text, why=why, files=files, mech=mech, level=level, tech=tech, note=note, observe=observe or [], state=state or []))

MC = "bounded exhaustive stateless model checking of the real code: every operation sequence within stated bounds, compared step by step with a reference model"
FE = "exhaustive fault enumeration on the real code: every failing/short/interrupted system call (up to a deviation bound) of every scenario"
EX = "bounded exhaustive enumeration of the real code's behaviours against a reference implementation"
NOTE = "complete within the scenario bounds printed in the evidence file; trusts the reference model in the harness, gcc and AddressSanitizer"

exec(open(os.path.join(V, "tools", "plist.py")).read())

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["st"],
                "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in x["state"]],
                            "mechanism": [dict(name=a, where=b) for a, b in x["mech"]], "observe_at": x["observe"], "hook_needed": None}}) + "\n")
            assert len(x["title"]) <= 80, x["title"]
    checks, na = [], []
    for x in P:
        if os.path.exists(os.path.join(V, "harness", x["id"] + ".c")) or os.path.exists(os.path.join(V, "harness", x["id"] + ".py")):
            checks.append({"property": x["id"], "quick_cmd": "python3 check.py %s quick" % x["id"], "thorough_cmd": "python3 check.py %s thorough" % x["id"],
                           "evidence_file": "evidence/%s.json" % x["id"], "technique": x["tech"], "level": x["level"], "level_note": x["note"]})
        else:
            na.append({"property": x["id"], "reason": "no check has been built for it yet"})
    m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every seam is the public API, the library's own allocator/log setters, and libc symbols wrapped at link time by the harnesses."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
    print(len(P), "properties,", len(checks), "checks")
main()
