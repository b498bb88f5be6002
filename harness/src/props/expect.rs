//! C39: what an Error says is expected.
use super::*;
use crate::mutate;

/// Alternatives a message names
fn wanted(msg: &str) -> Option<Vec<String>> {
    let m = msg.strip_prefix("Expected ").filter(|m| !m.contains("before"))?;
    let m = match m.strip_prefix('\'') {
        Some(x) => x.strip_suffix("' here")?,
        None => m,
    };
    let m = m.trim_end_matches(" here").replace("','", "COMMA").replace("';'", "SEMI");
    let mut v = Vec::new();
    for a in m.split(", ").flat_map(|a| a.split(" or ")).flat_map(|a| a.split(" OR ")).flat_map(|a| a.split(" | ")) {
        match a.trim().trim_matches('\'') {
            "" => (),
            "COMMA" => v.push(",".into()),
            "SEMI" => v.push(";".into()),
            a => v.push(a.to_string()),
        }
    }
    Some(v)
}

/// Something of the kind that is named
fn text(w: &str) -> Option<&str> {
    Some(match w {
        "identifier" | "Identifier" | "subquery" => "a",
        "Float" | "float" => "1.5",
        "integer" | "Integer" => "1",
        "string" | "String" => "'1'",
        "type" => "INT",
        "time unit" => "DAY",
        "expression" => "1",
        "Statement" | "statement" => "SELECT",
        "droppable" | "alterable" => "TABLE",
        "addable" => "COLUMN",
        "Condition information item name" => "MESSAGE_TEXT",
        "table option" => "COMMENT",
        "alter column action" => "DROP",
        "language name" => "PLPGSQL",
        // Words and symbols stand for themselves
        w if w.bytes().all(|c| !c.is_ascii_lowercase()) => w,
        _ => return None,
    })
}

fn expect(cx: &mut Cx, r: &mut Rng, _: u64) -> R {
    let mut cfg = Cfg::new(r);
    cfg.depth = cfg.depth.min(3);
    let mut m = any(r, cfg);
    if r.p(50) {
        let n = 1 + r.n(m.g.toks.len());
        m.g.toks.truncate(n);
    }
    if r.p(60) {
        mutate::tokens(r, &mut m.g.toks, false);
    }
    let o = m.o(r).single();
    // The last line may be a comment
    let t = render(&m.g.toks, layout(r), Case::Random, r).s + "\n";
    let v = obs::run(&t, &o);
    let errs = v.err_list();
    let Some(e) = errs.first() else { return Ok(()) };
    let at = e.span.0;
    cx.eval(&t, true);
    if e.msg.contains("Unexpected token after statement") {
        cx.f("end of statement");
        let x = &t[..at];
        return if obs::accepts(x, &o) { Ok(()) } else { bad(&t, &o, format!("{:?} at {at}, but the text before it is no statement: {}", e.msg, obs::run(x, &o).messages())) };
    }
    let Some(w) = wanted(&e.msg) else {
        cx.f("says nothing is expected");
        return Ok(());
    };
    for w in w {
        // Locks of PostgreSQL, and the end of the text where a statement must end
        if w.contains("KEY") && w.contains(' ') && o.dialect != 2 || w == ";" {
            continue;
        }
        let Some(new) = text(&w) else {
            cx.f(&format!("unknown.{w}"));
            continue;
        };
        cx.f(&w);
        let mut f = String::new();
        // The semicolon before END and EXCEPTION can be left out after some statements only
        for new in [new.to_string(), format!("; {new}")].iter().take(if w == "END" || w == "EXCEPTION" { 2 } else { 1 }) {
            let x = format!("{} {new} {}", &t[..at], &t[at..]);
            let v = obs::run(&x, &o);
            f = match v.err_list().first() {
                // Others object to what it is used for, or to the dialect
                Some(f) if !f.msg.starts_with("Expected") => String::new(),
                Some(f) if (f.span.0 == at || f.span.0 == at + 1) && f.span.1 <= at + 1 + new.len() => format!("{:?} for {x:?}", f.msg),
                _ => String::new(),
            };
            if f.is_empty() {
                break;
            }
        }
        if !f.is_empty() {
            return bad(&t, &o, format!("{:?} at {at}, but {w} is not accepted there: {f}", e.msg));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C39",
        rule: "valid statements cut or changed at random; each thing that the message of the first Error names as expected is put in at the place of the Error, and must then not be objected to itself",
        assumptions: &["what kind of thing a word of a message means (identifier, statement, type) is listed in props/expect.rs; unknown ones are counted as unknown", "a delimiter that is expected at the end of a single statement is not tried"],
        streams: vec![stream("expect", 120_000, 8_000_000, expect)],
    }]
}
