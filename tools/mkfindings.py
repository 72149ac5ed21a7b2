#!/usr/bin/env python3
# Regenerates known_findings.json.
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
log = dict(reversed(l.split(" ", 1)) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())
FIXED = [
 ("C08", "fix: honour ignore_edge entries of user capability maps", "ignore_edge entries of a user map had no effect"),
 ("C09", "fix: report errors from reading a capability map", "an error while reading a map, or a line longer than 64 KB, silently dropped the rest of the file"),
 ("C08", "fix: let unanalyzed entries of a user map override builtin categories", "an unanalyzed entry of a user map did not override a built-in category of the same function"),
 ("C11", "fix: exclude all unanalyzed classifications when asked to", "functions and packages given CAPABILITY_UNANALYZED by func or package entries were still reported with -noisy"),
 ("C16", "fix: compare intermediate packages when paths are omitted", "comparing at intermediate granularity with paths omitted keyed every entry by an empty name"),
 ("C05", "fix: detect unsafe.Pointer conversions of type parameter values", "(*int)(u) with u of a type parameter constrained by unsafe.Pointer was not reported"),
 ("C06", "fix: detect copies of types defined as reflect.Value", "type V reflect.Value; var G V; G = x was not reported"),
 ("C06", "fix: detect copies of reflect.Value through defined pointer types", "type P *reflect.Value; func F(p P) { *p = x } was not reported"),
]
exec(open(os.path.join(root, "tools", "findings.py")).read()) if os.path.exists(os.path.join(root, "tools", "findings.py")) else None
out = []
for p, subj, what in FIXED:
    out.append({"status": "fixed", "property": p, "commit": log[subj], "what": what, "record": f"fixed: property={p} {log[subj]} {what}"})
for k in globals().get("KNOWN", []):
    out.append({"status": "known", "property": k[0], "engine": k[1], "case": k[2], "what": k[3], "record": f"KNOWN-FINDING: property={k[0]} {k[3]}"})
json.dump(out, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
open(os.path.join(root, "known_findings.json"), "a").write("\n")
