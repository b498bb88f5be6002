#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the monitors that exist (sqlmon list)."""
import json, os, subprocess
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
have = set(subprocess.run(["target/debug/sqlmon", "list"], capture_output=True, text=True, check=True).stdout.split())
props = [json.loads(l) for l in open("properties.jsonl")]
TREE = ("expected-tree monitor over generated statements",
        "Exploration: the reported tree of every generated statement is compared field by field with the tree it was generated from. Trusts the grammar written down in harness/src/g*.rs and derived Debug output; says nothing about texts the generator cannot write.")
T = json.load(open("tools/techniques.json"))
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "-1", "--", "src/verif.rs"], capture_output=True, text=True).stdout.strip()
old = json.load(open("MANIFEST.json")) if os.path.exists("MANIFEST.json") else {}
if not hook or len(subprocess.run(["git", "-C", "/repo", "log", "--format=%H"], capture_output=True, text=True).stdout.split()) < 3:
    commits = old.get("hooks", {}).get("source_commits", [])
else:
    commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=verif", "--", "src/verif.rs", "src/lexer.rs", "src/lib.rs"], capture_output=True, text=True).stdout.split() or [hook]
m = {"version": 1, "setup_cmd": "bash check.sh build",
     "hooks": {"guard": "cfg(sqlparse_verif)", "enable": "RUSTFLAGS=\"--cfg sqlparse_verif\" (set by check.sh): counts the tokens the lexer hands out and lets a monitor set a limit", "source_commits": commits},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i not in have:
        m["not_applicable"].append({"property": i, "reason": "No monitor yet."})
        continue
    t = T.get(i) or TREE
    m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                        "technique": t[0], "level": "exploration", "level_note": t[1]})
m["notes"] = "All checks build harness/ (one crate, path dependency on /repo) with overflow checks and debug assertions on, and run the real parser under generated workloads; see DESIGN.md."
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
