//! Supervisor, workers and evidence.
use crate::core::*;
use crate::props;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const STALLED: i32 = 77;
/// Size of the stack on which the parser runs
const STACK: usize = 8 << 20;

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into()))
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(a: &[&str]) -> i32 {
    install_hook();
    match a {
        ["check", id] => check(id),
        ["worker", id, skip @ ..] => worker(id, &skip.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        ["one", id, stream, i] => one(id, stream, i.parse().unwrap(), seed()),
        ["replay", file] => replay(file),
        ["nest", kind, n] => props::nest_child(kind, n.parse().unwrap()),
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id)
            }
            0
        }
        ["rules"] => {
            for p in props::all() {
                println!("{}\t{}", p.id, p.rule)
            }
            0
        }
        ["dev", rest @ ..] => props::dev(rest),
        _ => {
            eprintln!("usage: sqlmon check ID | replay FILE | list | one ID STREAM CASE");
            2
        }
    }
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2)
    })
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

fn one(id: &str, stream: &str, i: u64, seed: u64) -> i32 {
    let (id, stream) = (id.to_string(), stream.to_string());
    on_big_stack(move || {
        let p = find(&id);
        let Some(s) = p.streams.iter().find(|s| s.name == stream) else { return 2 };
        match run_case(&mut Cx::default(), s, seed, i) {
            Out::Ok => {
                println!("held");
                0
            }
            Out::Bad(b) => {
                println!("text:    {:?}\noptions: {}\nproblem: {}", b.text, b.o, b.msg);
                1
            }
            Out::Harness(m) => {
                println!("harness error: {m}");
                2
            }
        }
    })
}

fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap();
    let mut m = BTreeMap::new();
    for l in t.lines() {
        if let Some((k, v)) = l.split_once(": ") {
            m.entry(k.to_string()).or_insert(v.to_string());
        }
    }
    println!("{t}");
    one(&m["property"], &m["stream"], m["case"].parse().unwrap(), m["seed"].parse().unwrap())
}

fn write_replay(id: &str, stream: &str, i: u64, b: &Bad) -> PathBuf {
    let d = root().join("replay");
    let _ = std::fs::create_dir_all(&d);
    let f = d.join(format!("{id}-{stream}-{i}.txt"));
    let t = format!(
        "property: {id}\nseed: {}\nstream: {stream}\ncase: {i}\noptions: {}\nproblem: {}\ntext: {}\n\nreplay with: bash /verif/check.sh replay {}\n\n{}\n",
        seed(),
        b.o,
        b.msg.replace('\n', " "),
        js(&b.text),
        f.display(),
        b.text
    );
    let _ = std::fs::write(&f, t);
    f
}

struct Report<'a> {
    p: &'a Prop,
    cx: Cx,
    violations: u64,
    cases: BTreeMap<String, u64>,
    complete: bool,
    start: Instant,
    known: Vec<String>,
}

fn evidence(r: &Report) {
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ");
    let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    let t = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases\": {{{}}},\n  \"observed\": {{{}}},\n  \"largest\": {{{}}},\n  \"all_cases_run\": {},\n  \"known_findings\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.2}\n}}\n",
        js(r.p.id),
        js(&tier()),
        seed(),
        r.cx.evals,
        r.cx.seen.len(),
        js(r.p.rule),
        map(&r.cases),
        map(&r.cx.feats),
        map(&r.cx.max),
        r.complete,
        list(&r.known),
        list(&r.cx.samples),
        r.p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        r.violations,
        r.start.elapsed().as_secs_f64()
    );
    let _ = std::fs::write(d.join(format!("{}.json", r.p.id)), t);
}

/// How many times a quick check's cases are affordable on every change: about 12 s for each check
fn more(id: &str) -> f64 {
    match id {
        "C08" | "C19" | "C37" => 10.0,
        "C03" | "C07" | "C29" | "C33" | "C39" => 8.0,
        "C04" | "C20" | "C21" => 6.0,
        "C02" | "C17" | "C18" | "C22" | "C28" | "C31" | "C32" | "C36" => 5.0,
        "C10" | "C13" | "C38" => 4.0,
        "C01" | "C05" | "C09" | "C15" | "C16" | "C23" | "C24" => 3.0,
        "C12" | "C14" | "C30" | "C34" | "C40" => 2.0,
        "C11" => 1.5,
        _ => 1.0,
    }
}

/// All cases of all streams, on all cores. Exit code 0, 1, or another one when something went wrong
fn worker(id: &str, skip: &[String]) -> i32 {
    let start = Instant::now();
    let p = find(id);
    let thorough = tier() == "thorough";
    let seed = seed();
    let cap = Duration::from_secs(if thorough { 2400 } else { 300 });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let quick = |s: &Stream| ((s.quick as f64 * more(id)) as u64).min(s.thorough.max(s.quick));
    let counts: Vec<u64> = p.streams.iter().map(|s| ((if thorough { s.thorough } else { quick(s) }) as f64 * scale).ceil() as u64).collect();
    let total: u64 = counts.iter().sum();
    let next = AtomicU64::new(0);
    let found: Mutex<Vec<(usize, u64, Bad)>> = Mutex::new(Vec::new());
    let broken: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let first_bad = AtomicU64::new(u64::MAX);
    let merged = Mutex::new(Cx::default());
    let done: Mutex<Vec<u64>> = Mutex::new(vec![0; counts.len()]);
    let started: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let live = AtomicUsize::new(threads);
    let _ = std::fs::create_dir_all(root().join("work"));
    let trace = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(root().join("work").join(format!("{id}.trace"))).unwrap();
    trace.write_all_at(&vec![0xff; 16 * threads], 0).unwrap();

    std::thread::scope(|sc| {
        for t in 0..threads {
            let (p, counts, next, found, broken, first_bad, merged, done, started, live, trace) = (&p, &counts, &next, &found, &broken, &first_bad, &merged, &done, &started, &live, &trace);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let mut cx = Cx::default();
                    let mut ran = vec![0u64; counts.len()];
                    loop {
                        if start.elapsed() > cap {
                            break;
                        }
                        let fb = first_bad.load(SeqCst);
                        if fb != u64::MAX && start.elapsed().as_millis() as u64 > fb + 1500 {
                            break;
                        }
                        let mut k = next.fetch_add(1, SeqCst);
                        if k >= total {
                            break;
                        }
                        let mut si = 0;
                        while k >= counts[si] {
                            k -= counts[si];
                            si += 1;
                        }
                        let s = &p.streams[si];
                        if !skip.is_empty() && skip.contains(&format!("{}:{}", s.name, k)) {
                            continue;
                        }
                        let mut rec = [0u8; 16];
                        rec[..8].copy_from_slice(&(si as u64).to_le_bytes());
                        rec[8..].copy_from_slice(&k.to_le_bytes());
                        let _ = trace.write_all_at(&rec, 16 * t as u64);
                        started[t].store(start.elapsed().as_secs(), SeqCst);
                        match run_case(&mut cx, s, seed, k) {
                            Out::Ok => ran[si] += 1,
                            Out::Bad(b) => {
                                ran[si] += 1;
                                found.lock().unwrap().push((si, k, b));
                                let _ = first_bad.fetch_min(start.elapsed().as_millis() as u64, SeqCst);
                            }
                            Out::Harness(m) => broken.lock().unwrap().push(format!("{}:{k}: {m}", s.name)),
                        }
                        started[t].store(u64::MAX, SeqCst);
                    }
                    let _ = trace.write_all_at(&[0xff; 16], 16 * t as u64);
                    merged.lock().unwrap().merge(cx);
                    let mut d = done.lock().unwrap();
                    for (a, b) in d.iter_mut().zip(ran) {
                        *a += b
                    }
                    live.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        let (started, live) = (&started, &live);
        sc.spawn(move || {
            // A case that does not return: the supervisor looks into it
            while live.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let now = start.elapsed().as_secs();
                if started.iter().any(|s| {
                    let v = s.load(SeqCst);
                    v != u64::MAX && now > v + 90
                }) {
                    std::process::exit(STALLED);
                }
            }
        });
    });

    let mut found = found.into_inner().unwrap();
    let broken = broken.into_inner().unwrap();
    let cases: BTreeMap<String, u64> = p.streams.iter().zip(done.into_inner().unwrap()).map(|(s, n)| (s.name.to_string(), n)).collect();
    let complete = cases.values().sum::<u64>() + skip.len() as u64 >= total;
    let listed = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut known = Vec::new();
    for (k, m) in props::known_findings(id) {
        if listed.lines().any(|l| l.starts_with(&format!("KNOWN property={id} {k} "))) {
            println!("KNOWN-FINDING: property={id} {k} {m}");
            known.push(format!("{k} {m}"));
        } else {
            found.push((0, u64::MAX, Bad { text: k, o: String::new(), msg: m }));
        }
    }
    let mut rep = Report { p: &p, cx: merged.into_inner().unwrap(), violations: found.len() as u64, cases, complete, start, known };
    rep.cx.fs("threads", threads as u64);
    evidence(&rep);
    for b in broken.iter().take(3) {
        eprintln!("harness error: {b}");
    }
    found.sort_by_key(|f| (f.2.text.len(), f.0, f.1));
    if let Some((si, k, b)) = found.first() {
        let f = write_replay(id, p.streams[*si].name, *k, b);
        println!("{} of {} cases break {id}; the shortest:", found.len(), rep.cases.values().sum::<u64>());
        println!("  text:    {}", b.text.chars().take(2000).collect::<String>().escape_debug());
        println!("  options: {}", b.o);
        println!("  problem: {}", b.msg);
        println!("VIOLATION property={id} replay={}", f.display());
        return 1;
    }
    if !broken.is_empty() {
        return 3;
    }
    if rep.cx.evals == 0 {
        eprintln!("nothing was observed");
        return 4;
    }
    println!("{id}: held on {} executions ({} distinct) in {:.1} s", rep.cx.evals, rep.cx.seen.len(), start.elapsed().as_secs_f64());
    0
}

fn cpu_seconds(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let Some((_, r)) = s.rsplit_once(')') else { return 0.0 };
    let f: Vec<&str> = r.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

fn check(id: &str) -> i32 {
    find(id);
    let exe = std::env::current_exe().unwrap();
    let mut skip: Vec<String> = Vec::new();
    for _ in 0..6 {
        let mut c = Command::new(&exe);
        c.arg("worker").arg(id).args(&skip);
        let st = c.status().unwrap();
        match st.code() {
            Some(c) if c < STALLED => return c,
            _ => {}
        }
        // The worker died or a case did not return: run what it was doing on its own
        eprintln!("worker ended with {st}; looking into it");
        let Some(v) = suspects(id) else { return 5 };
        let p = find(id);
        let n = v.len();
        for (si, k) in v {
            let s = &p.streams[si];
            let out = std::fs::File::create(root().join("work").join(format!("{id}.one"))).unwrap();
            let mut ch = Command::new(&exe).args(["one", id, s.name, &k.to_string()]).stdout(out).stderr(std::process::Stdio::null()).spawn().unwrap();
            let t = Instant::now();
            let st = loop {
                if let Some(st) = ch.try_wait().unwrap() {
                    break Some(st);
                }
                if t.elapsed() > Duration::from_secs(100) {
                    break None;
                }
                std::thread::sleep(Duration::from_millis(50));
            };
            let why = match st {
                Some(st) if matches!(st.code(), Some(0 | 2)) => continue,
                Some(st) if st.code() == Some(1) => "fails".to_string(),
                Some(st) => format!("the process ends with {st}"),
                None => {
                    let c = cpu_seconds(ch.id());
                    let _ = ch.kill();
                    let _ = ch.wait();
                    if c < 50.0 {
                        skip.push(format!("{}:{k}", s.name));
                        continue;
                    }
                    format!("does not return after {c:.0} s of processor time")
                }
            };
            let text = std::fs::read_to_string(root().join("work").join(format!("{id}.one"))).unwrap_or_default();
            let b = Bad { text, o: String::new(), msg: why.clone() };
            let f = write_replay(id, s.name, k, &b);
            let rep = Report { p: &p, cx: Cx { evals: 1, ..Default::default() }, violations: 1, cases: BTreeMap::new(), complete: false, start: t, known: vec![] };
            evidence(&rep);
            println!("  stream {} case {k}: {why}", s.name);
            println!("VIOLATION property={id} replay={}", f.display());
            return 1;
        }
        if n == 0 {
            return 6;
        }
    }
    7
}

fn suspects(id: &str) -> Option<Vec<(usize, u64)>> {
    let t = std::fs::read(Path::new(&root()).join("work").join(format!("{id}.trace"))).ok()?;
    let mut v = Vec::new();
    for c in t.chunks_exact(16) {
        let a = u64::from_le_bytes(c[..8].try_into().unwrap());
        let b = u64::from_le_bytes(c[8..].try_into().unwrap());
        if a != u64::MAX {
            v.push((a as usize, b))
        }
    }
    let _ = std::io::stdout().flush();
    Some(v)
}
