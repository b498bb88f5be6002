#!/usr/bin/env python3
"""mkseed.py FILE: make planted bugs in a scratch clone (/tmp/seed/repo) and keep those that count.

FILE is a Python file defining SEEDS: a list of dicts with id, property, file, edits [(old, new)], needs,
breaks, demo (body of the demonstration's main function). Each is kept in /verif/seeded/ID when the patch
changes only lines of the original repository, builds, passes the tests, and the demonstration tells it
from the unchanged tree."""
import json, os, re, runpy, subprocess, sys
W = "/tmp/seed/repo"; OUT = "/verif/seeded"
ENV = dict(os.environ, CARGO_TARGET_DIR="/tmp/seed/target", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ROOT = subprocess.run(["git", "-C", "/repo", "log", "--format=%H"], capture_output=True, text=True).stdout.split()[-1]
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)
DEMO = '''#!/bin/bash
# Run in the repository: exit 0 when the property holds for the input in main.rs
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'find "$d" -depth -delete' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n[dependencies]\\nsql-parse = { path = "%s" }\\n[workspace]\\n' "$PWD" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 200 cargo run --offline -q 2>"$d/err"
rc=$?
grep -E '^error|panicked|assert|left|right' "$d/err" | head -5
exit $rc
'''
HEAD = '''#![allow(dead_code, unused_imports)]
use sql_parse::*;

const M: SQLDialect = SQLDialect::MariaDB;
const P: SQLDialect = SQLDialect::PostgreSQL;
const L: SQLDialect = SQLDialect::Sqlite;

fn opt(d: SQLDialect) -> ParseOptions {
    let a = match &d {
        SQLDialect::PostgreSQL => SQLArguments::Dollar,
        _ => SQLArguments::QuestionMark,
    };
    ParseOptions::new().dialect(d).arguments(a)
}
/// Printed trees and errors of a script
fn script(o: &ParseOptions, s: &str) -> (Vec<String>, Vec<String>) {
    let mut i = Issues::new(s);
    let t = parse_statements(s, &mut i, o).iter().map(|t| format!("{t:?}")).collect();
    (t, i.get().iter().filter(|i| i.level == Level::Error).map(|i| i.message.to_string()).collect())
}
/// Printed tree and errors of one statement
fn one(o: &ParseOptions, s: &str) -> (String, Vec<String>) {
    let mut i = Issues::new(s);
    let t = format!("{:?}", parse_statement(s, &mut i, o));
    (t, i.get().iter().filter(|i| i.level == Level::Error).map(|i| i.message.to_string()).collect())
}
fn ok(d: SQLDialect, s: &str) -> String {
    let (t, e) = one(&opt(d), s);
    assert!(e.is_empty(), "{s}: {e:?}");
    t
}
fn fails(d: SQLDialect, s: &str) {
    let (t, e) = one(&opt(d), s);
    assert!(!e.is_empty(), "{s} is accepted: {t}");
}
/// The tree without positions
fn flat(s: &str) -> String {
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1 }
            if j + 2 < b.len() && b[j] == '.' && b[j + 1] == '.' && b[j + 2].is_ascii_digit() {
                let mut k = j + 2;
                while k < b.len() && b[k].is_ascii_digit() { k += 1 }
                o.push('#');
                i = k;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

fn main() {
'''
def main(f):
    only = set(sys.argv[2:])
    for s in runpy.run_path(f)["SEEDS"]:
        if only and s["id"] not in only: continue
        sh("git", "-C", W, "checkout", "-q", "--", ".")
        sh("git", "-C", W, "pull", "-q")
        bad = None
        files = s["file"] if isinstance(s["file"], list) else [s["file"]]
        for k, e in enumerate(s["edits"]):
            fn, old, new = (files[0], *e) if len(e) == 2 else e
            p = os.path.join(W, fn); t = open(p).read()
            if t.count(old) != 1: bad = f"edit {k}: found {t.count(old)} times"; break
            open(p, "w").write(t.replace(old, new))
        if not bad:
            diff = sh("git", "-C", W, "diff").stdout
            # removed lines have to be original
            rem = 0
            for fn in files:
                d = sh("git", "-C", W, "diff", "-U0", "--", fn).stdout
                for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                    a, n = int(m[1]), int(m[2] or 1)
                    if n == 0: continue
                    b = sh("git", "-C", W, "blame", "-l", "-s", "--root", "-L", f"{a},{a+n-1}", "HEAD", "--", fn).stdout
                    for l in b.splitlines():
                        rem += 1
                        if not l.lstrip("^").startswith(ROOT[:39]): print("   note: not original:", l[41:120])
            if rem == 0: print("   note: only adds lines")
        if not bad:
            r = sh("cargo", "test", "--offline", "-q", "--no-fail-fast", cwd=W, env=ENV)
            n = sum(int(x) for x in re.findall(r"(\d+) passed", r.stdout)); fl = sum(int(x) for x in re.findall(r"(\d+) failed", r.stdout))
            if n != 36 or fl: bad = f"tests: {n} passed {fl} failed " + (r.stderr[:600] if n == 0 else " ".join(re.findall(r"^test (\S+) ... FAILED|---- (\S+)", r.stdout, re.M)[0] if re.findall(r"^test (\S+) ... FAILED|---- (\S+)", r.stdout, re.M) else []))
        if not bad:
            d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
            open(d + "/main.rs", "w").write(s.get("head", HEAD) + s["demo"].strip("\n") + "\n}\n")
            open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
            a = sh("bash", d + "/demo.sh", cwd="/repo"); b = sh("bash", d + "/demo.sh", cwd=W)
            if a.returncode != 0: bad = "demo fails on the unchanged tree: " + a.stdout[:700]
            elif b.returncode == 0: bad = "demo does not see the change"
            if bad:
                for x in ("main.rs", "demo.sh"): os.unlink(d + "/" + x)
                if not os.listdir(d): os.rmdir(d)
            else:
                open(d + "/patch.diff", "w").write(diff)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                print(s["id"], "kept:", b.stdout.strip()[:200].replace("\n", " | "))
        if bad: print(s["id"], "NOT KEPT:", bad)
    sh("git", "-C", W, "checkout", "-q", "--", ".")
main(sys.argv[1])
