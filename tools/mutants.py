#!/usr/bin/env python3
"""mutants.py OUT N SEED [WORKERS] [FILE...]: sample small changes of /repo/src, run the checks on each in scratch
copies under /tmp/mut, and list those which no check notices and which pass the existing tests.
Only for finding what the monitors miss; no check uses this."""
import json, os, random, re, subprocess, sys, threading, shutil, glob, time
OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
W = int(sys.argv[4]) if len(sys.argv) > 4 else 8
ONLY = sys.argv[5:]
SRC = "/repo/src"
rnd = random.Random(SEED)

def mask(t):
    """Text with comments, strings and test modules blanked"""
    o = list(t); i = 0; n = len(t)
    def blank(a, b):
        for k in range(a, b):
            if o[k] != "\n": o[k] = " "
    while i < n:
        if t.startswith("//", i):
            j = t.find("\n", i); j = n if j < 0 else j
            blank(i, j); i = j
        elif t.startswith("/*", i):
            j = t.find("*/", i) + 2; blank(i, j); i = j
        elif t[i] == '"':
            j = i + 1
            while t[j] != '"': j += 2 if t[j] == "\\" else 1
            blank(i + 1, j); i = j + 1
        elif re.match(r"'(\\.|\\u\{\w+\}|[^\\'])'", t[i:i + 12]):
            m = re.match(r"'(\\.|\\u\{\w+\}|[^\\'])'", t[i:i + 12]); blank(i + 1, i + m.end() - 1); i += m.end()
        else: i += 1
    s = "".join(o)
    for m in re.finditer(r"(?m)(#\[cfg\(test\)\]\s*mod \w+ \{|^mod test\w* \{|#\[test\]\s*(pub )?fn \w+\(\) \{)", s):
        e = close(s, m.end() - 1); blank(m.start(), e + 1)
    return "".join(o)

def close(s, i):
    d = 0
    for k in range(i, len(s)):
        if s[k] in "([{": d += 1
        elif s[k] in ")]}":
            d -= 1
            if d == 0: return k
    return -1

def stmt_end(s, i):
    """Index just past the ';' ending the statement at i, or -1"""
    d = 0
    for k in range(i, len(s)):
        if s[k] in "([{": d += 1
        elif s[k] in ")]}":
            d -= 1
            if d < 0: return -1
        elif s[k] == ";" and d == 0: return k + 1
    return -1

files = sorted(f for f in os.listdir(SRC) if f.endswith(".rs") and f != "verif.rs" and (not ONLY or f in ONLY))
texts = {f: open(f"{SRC}/{f}").read() for f in files}
allmask = {f: mask(open(f"{SRC}/{f}").read()) for f in sorted(os.listdir(SRC)) if f.endswith(".rs")}
enums = {}
for f, s in allmask.items():
    for m in re.finditer(r"\benum (\w+)(?:<'a>)? \{", s):
        body = s[m.end():close(s, m.end() - 1)]
        d = 0; flat = ""
        for c in body:
            if c in "([{<": d += 1
            if d == 0: flat += c
            if c in ")]}>": d -= 1
        flat = re.sub(r"#\S*", "", flat)
        enums[m.group(1)] = [v.strip() for v in flat.split(",") if re.fullmatch(r"\w+", v.strip())]
kinds = {}
def add(kind, f, a, b, new): kinds.setdefault(kind, []).append((kind, f, a, b, new))
for f in files:
    s = allmask[f]; t = texts[f]
    for m in re.finditer(r"\b(\w+)::(\w+)\b", s):
        e = enums.get(m.group(1))
        if e and m.group(2) in e and len(e) > 1 and m.group(1) not in ("Keyword", "Token", "Function"):
            o = rnd.choice([v for v in e if v != m.group(2)])
            add("variant", f, m.start(2), m.end(2), o)
        if m.group(1) == "Keyword" and f != "keywords.rs":
            o = rnd.choice([v for v in enums["Keyword"] if v != m.group(2)])
            add("keyword", f, m.start(2), m.end(2), o)
    for m in re.finditer(r"\s*\.(opt_)?join_span\(", s):
        add("joinspan", f, m.start(), close(s, m.end() - 1) + 1, "")
    for m in re.finditer(r"(?m)^[ ]+(?=[a-z_*])", s):
        if re.match(r"(let|return|break|continue|use|pub|fn|mod|type|impl|for|while|loop|if|match)\b", s[m.end():]): continue
        e = stmt_end(s, m.end())
        if e > 0 and e - m.end() < 500: add("delstmt", f, m.end(), e, "")
    for m in re.finditer(r"\bif (?!let\b)", s):
        d = 0
        for k in range(m.end(), len(s)):
            if s[k] in "([": d += 1
            elif s[k] in ")]": d -= 1
            elif s[k] == "{" and d == 0: break
        for v in ("true", "false"): add("if", f, m.end(), k, v + " ")
    for m in re.finditer(r"(?m)^[ ]+(Token::|_ =>|\w+::\w+|Some|None)", s):
        k = s.find("=>", m.end() - 2)
        if k < 0 or "\n\n" in s[m.end():k] or ";" in s[m.end():k]: continue
        j = k + 2
        while s[j] in " \n": j += 1
        if s[j] == "{": e = close(s, j) + 1
        else:
            d = 0
            for e in range(j, len(s)):
                if s[e] in "([{": d += 1
                elif s[e] in ")]}": d -= 1
                if (s[e] == "," and d == 0) or d < 0: break
        if s[e:e + 1] == ",": e += 1
        if e - m.start() < 3000: add("delarm", f, m.start(), e, "")
        g = re.search(r" if (?!let)", s[m.end():k])
        if g: add("guard", f, m.end() + g.start(), k, " ")
    for m in re.finditer(r"\bmatches!\(", s): add("matches", f, m.start(), m.start(), "!")
    for m in re.finditer(r"(?<![\w.])!(?=[\w(])", s): add("not", f, m.start(), m.end(), "")
    for a, b in (("&&", "||"), ("||", "&&"), ("==", "!="), ("!=", "=="), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" + ", " - "), (" - ", " + "), ("is_some()", "is_none()"), ("is_none()", "is_some()"), ("..=", "..")):
        i = s.find(a)
        while i >= 0:
            add("op", f, i, i + len(a), b); i = s.find(a, i + 1)
    for m in re.finditer(r"\b(true|false)\b", s): add("bool", f, m.start(), m.end(), {"true": "false", "false": "true"}[m.group()])
    for m in re.finditer(r"(?<=[ (])Some\(", s): add("none", f, m.start(), close(s, m.end() - 1) + 1, "None")
    for m in re.finditer(r"(?<![\w.\"'])\d+\b(?!\.)", s): add("num", f, m.start(), m.end(), str(int(m.group()) + 1))
    for m in re.finditer(r" \| \w+::\w+(\([^()]*\))?", s): add("alt", f, m.start(), m.end(), "")
    for m in re.finditer(r"\w+::\w+(\([^()]*\))? \| ", s): add("alt", f, m.start(), m.end(), "")
    for m in re.finditer(r"\?(?=[;.,)])", s): add("q", f, m.start(), m.end(), ".ok().unwrap_or_default()") if 0 else None
    for m in re.finditer(r"\b(optional|if_exists|skip_keyword|skip_token)\b\(", s): pass
HELP = ""
if os.environ.get("MODE") == "combo":
    # What only goes wrong for a combination of parts, or for the n-th of a list
    kinds.clear()
    HELP = "\npub(crate) trait VfP { fn vfp(&self) -> bool; }\nimpl<T> VfP for Option<T> { fn vfp(&self) -> bool { self.is_some() } }\nimpl<T> VfP for alloc::vec::Vec<T> { fn vfp(&self) -> bool { self.len() > 1 } }\nimpl VfP for bool { fn vfp(&self) -> bool { *self } }\n"
    for f in files:
        s = allmask[f]
        for m in re.finditer(r"\b[A-Z]\w*(::[A-Z]\w*)? \{", s):
            if re.search(r"\b(struct|enum|impl|trait|for|match|if|while)\b[^;{}]*$", s[max(0, m.start() - 80):m.start()]): continue
            e = close(s, m.end() - 1)
            body = s[m.end():e]
            d = 0; flat = ""
            for c in body:
                if c in "([{": d += 1
                if d == 0: flat += c
                if c in ")]}": d -= 1
            fs = [x.strip() for x in flat.split(",")]
            fs = [x for x in fs if re.fullmatch(r"[a-z_]\w*", x)]
            if ".." in flat or re.match(r"\s*(=>|=|\|)", s[e + 1:e + 6]) or len(fs) < 2: continue
            for _ in range(10):
                a, *b = rnd.sample(fs, min(len(fs), rnd.choice([2, 3])))
                cond = " && ".join(rnd.choice(["", "", "!"]) + f"{x}.vfp()" for x in b)
                add("combo", f, m.start(), m.start(), (e + 1, f"{{ use crate::parser::VfP as _; let {a} = if {cond} {{ Default::default() }} else {{ {a} }}; ", " }"))
        for m in re.finditer(r"\b([a-z_]\w*)\.push\(", s):
            if m.group(1) in ("stack", "issues"): continue
            e = close(s, m.end() - 1) + 1
            for n in (2, 4, 7):
                add("nth", f, m.start(), e, f"{{ let vf_e = {texts[f][m.end():e - 1]}; if {m.group(1)}.len() != {n} {{ {m.group(1)}.push(vf_e) }} }}")
if os.environ.get("MODE") == "state":
    # What only goes wrong under some options, next to some token, far into the text or after an issue
    kinds.clear()
    D = "parser.options.dialect.is_"
    X = [D + "postgresql()", D + "sqlite()", D + "maria()", "parser.options.list_hack", "parser.options.warn_unquoted_identifiers",
         "matches!(parser.options.arguments, crate::SQLArguments::Dollar)", "matches!(parser.options.arguments, crate::SQLArguments::Percent)",
         "matches!(parser.options.arguments, crate::SQLArguments::None)", "parser.arg >= 3", "parser.span.start > 150", "parser.span.start > 500",
         "!parser.issues.get().is_empty()", "parser.issues.get().len() > 2", "parser.permit_compound_statements", "!parser.permit_compound_statements",
         "matches!(parser.token, crate::lexer::Token::LParen)", "matches!(parser.token, crate::lexer::Token::SingleQuotedString(_))",
         "matches!(parser.token, crate::lexer::Token::Integer(_))", "matches!(parser.token, crate::lexer::Token::Comma)", "matches!(parser.token, crate::lexer::Token::Eof)",
         "matches!(parser.token, crate::lexer::Token::Ident(_, crate::keywords::Keyword::QUOTED_IDENTIFIER))",
         "matches!(&parser.token, crate::lexer::Token::Ident(v, _) if v.len() > 14)", "matches!(&parser.token, crate::lexer::Token::Ident(v, _) if v.contains('_'))",
         "matches!(&parser.token, crate::lexer::Token::Ident(v, _) if v.chars().any(|c| c.is_lowercase()))",
         "!matches!(parser.delimiter, crate::lexer::Token::SemiColon)", "parser.span.len() > 9", "parser.peeked_token.is_some()"]
    for f in files:
        s = allmask[f]
        def grow(kind, a, b, make):
            for x in rnd.sample(X, 6): add(kind, f, a, b, make(x))
        for m in re.finditer(r"parser\.skip_(keyword|token)\(", s):
            e = close(s, m.end() - 1) + 1
            grow("skip", m.start(), e, lambda x: f"(if {x} {{ None }} else {{ {texts[f][m.start():e]} }})")
        for m in re.finditer(r"\b([a-z_]\w*)\.push\(", s):
            e = close(s, m.end() - 1) + 1
            grow("push", m.start(), e, lambda x: f"{{ let vf_e = {texts[f][m.end():e - 1]}; if !({x}) {{ {m.group(1)}.push(vf_e) }} }}")
        for m in re.finditer(r"\bif (?!let)([^{};]*?) \{", s):
            if "=>" in m.group(1): continue
            grow("if", m.start(1), m.end(1), lambda x: f"({texts[f][m.start(1):m.end(1)]}) && !({x})")
            grow("or", m.start(1), m.end(1), lambda x: f"({texts[f][m.start(1):m.end(1)]}) || ({x})")
        for m in re.finditer(r"(?m)^ +(Token::[^\n;{}]*?) =>", s):
            g = " && " if " if " in m.group(1) else " if "
            grow("arm", m.end(1), m.end(1), lambda x: f"{g}!({x})")
        for m in re.finditer(r"\b[A-Z]\w*(::[A-Z]\w*)? \{", s):
            if re.search(r"\b(struct|enum|impl|trait|for|match|if|while)\b[^;{}]*$", s[max(0, m.start() - 80):m.start()]): continue
            e = close(s, m.end() - 1)
            fs = [x.strip() for x in s[m.end():e].split(",")]
            fs = [x for x in fs if re.fullmatch(r"[a-z_]\w*", x)]
            if ".." in s[m.end():e] or re.match(r"\s*(=>|=|\|)", s[e + 1:e + 6]) or not fs: continue
            for _ in range(8):
                a = rnd.choice(fs)
                add("field", f, m.start(), m.start(), (e + 1, f"{{ let {a} = if {rnd.choice(X)} {{ Default::default() }} else {{ {a} }}; ", " }"))
pool = []
cap = {"keyword": 0.5, "num": 0.6}
for k, v in kinds.items():
    rnd.shuffle(v); pool += v[: int(len(v) * cap.get(k, 1))]
rnd.shuffle(pool)
print({k: len(v) for k, v in kinds.items()}, len(pool), flush=True)
pool = pool[int(os.environ.get('START', 0)):][:N]
IDS = "C28 C05 C11 C25 C13 C24 C14 C15 C16 C17 C18 C19 C20 C21 C22 C30 C31 C32 C29 C07 C08 C09 C10 C12 C06 C23 C26 C27 C03 C04 C33 C34 C38 C39 C40 C41 C02".split()
lock = threading.Lock(); it = iter(enumerate(pool)); stats = {}
def run(cmd, to, **k):
    try: return subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=to, **k)
    except subprocess.TimeoutExpired: return None
def work(w):
    d = f"/tmp/mut/w{w}"; os.makedirs(d, exist_ok=True)
    run(["bash", "-c", f"find {d} -mindepth 1 -maxdepth 1 ! -name target -exec find {{}} -depth -delete \\; ; cp -a /repo {d}/repo; mkdir {d}/verif; cp -a /verif/harness {d}/verif/; cp /verif/known_findings.txt {d}/verif/; sed -i 's#/repo#{d}/repo#' {d}/verif/harness/Cargo.toml"], 120)
    env = dict(os.environ, VERIF_ROOT=f"{d}/verif", CARGO_TARGET_DIR=f"{d}/target", CARGO_NET_OFFLINE="true", RUSTFLAGS="--cfg sqlparse_verif -Awarnings", CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_OPT_LEVEL="0", CARGO_PROFILE_DEV_CODEGEN_UNITS="1", CARGO_BUILD_JOBS="1")
    while True:
        with lock:
            try: n, (kind, f, a, b, new) = next(it)
            except StopIteration: return
        t = texts[f]
        if isinstance(new, tuple):
            m = t[:a] + new[1] + t[a:new[0]] + new[2] + t[new[0]:]
            new = new[1]
        else: m = t[:a] + new + t[b:]
        if HELP:
            pt = m if f == "parser.rs" else texts["parser.rs"] if "parser.rs" in texts else open(f"{SRC}/parser.rs").read()
            if f == "parser.rs": m += HELP
            else: open(f"{d}/repo/src/parser.rs", "w").write(pt + HELP)
        open(f"{d}/repo/src/{f}", "w").write(m)
        line = t[:a].count("\n") + 1
        res = None; t0 = time.time()
        p = run(["taskset", "-c", str(w % 8), "cargo", "build", "--offline", "-q"], 400, cwd=f"{d}/verif/harness", env=env)
        if p is None or p.returncode: res = "nobuild"
        tb = time.time() - t0
        if not res:
            for scale, lim in (("0.01", 120), *([("0.1", 400)] if not os.environ.get("FAST") else [])):
                for i in IDS:
                    p = run(["taskset", "-c", str(w % 8), f"{d}/target/debug/sqlmon", "check", i], lim, cwd=d, env=dict(env, VERIF_SCALE=scale))
                    if p is None: res = f"{i} timeout"; break
                    if p.returncode: res = f"{i} rc{p.returncode} s{scale}"; break
                if res: break
        if not res:
            p = run(["bash", "-c", "cargo test --offline -q 2>&1 | grep -E 'test result|error' "], 300, cwd=f"{d}/repo", env=dict(env, RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=f"{d}/target/t"))
            res = "SURVIVED" if p and "FAILED" not in p.stdout and "error" not in p.stdout else "tests"
        open(f"{d}/repo/src/{f}", "w").write(t)
        with lock:
            stats[res.split()[0]] = stats.get(res.split()[0], 0) + 1
            open(OUT, "a").write(json.dumps(dict(n=n, res=res, kind=kind, file=f, line=line, old=t[a:b], new=new, ctx=t[t.rfind("\n", 0, a) + 1:t.find("\n", b)], build=round(tb, 1), s=round(time.time() - t0, 1))) + "\n")
ths = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[x.start() for x in ths]; [x.join() for x in ths]
print(stats)
