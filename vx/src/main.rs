//! vx: mechanical extraction of functions of /repo into Verus text.
//!
//! usage: vx <repo-src-dir> <db-dir> <include-dir> <unit-file> <out.rs> <report.json>
//!
//! Every function named by the unit is looked up in the *current* source tree, run through the fixed list of
//! desugarings documented in DESIGN.md, and printed with the contract text that the database holds for it.
mod db;
mod desugar;
mod print;
mod repo;

use std::fmt::Write as _;

fn die(kind: &str, msg: &str) -> ! {
    eprintln!("vx-{kind}: {msg}");
    std::process::exit(if kind == "anchor" { 3 } else { 2 });
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Emitted {
    key: String,
    mode: &'static str,
    start: usize,
    end: usize,
    kinds: Vec<String>,
    expected: Option<Vec<String>>,
    missing: Vec<String>,
    known: Vec<String>,
    known_gone: Vec<String>,
    file: String,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 7 {
        die("usage", "vx <src> <db> <inc> <unit> <out> <report>");
    }
    let repo = repo::Repo::load(&a[1]).unwrap_or_else(|e| die("anchor", &e));
    let db = db::Db::load(&a[2]).unwrap_or_else(|e| die("db", &e));
    let mut unit_path = a[4].clone();
    if let Some(u) = a[7..].iter().filter_map(|k| db.get(k)).filter_map(|e| e.unit.clone()).next() {
        unit_path = std::path::Path::new(&a[4]).with_file_name(format!("{u}.unit")).to_str().unwrap().to_string();
    }
    let unit_name = std::path::Path::new(&unit_path).file_stem().unwrap().to_str().unwrap().to_string();
    let unit = db::Unit::load(&unit_path).unwrap_or_else(|e| die("db", &e));

    let mut out = String::new();
    out.push_str("#![allow(unused, dead_code, non_snake_case, non_camel_case_types)]\nuse vstd::prelude::*;\nverus! {\n");
    for inc in &unit.includes {
        let t = std::fs::read_to_string(format!("{}/{}", a[3], inc)).unwrap_or_else(|e| die("db", &format!("{inc}: {e}")));
        write!(out, "// ==== include {inc} ====\n{t}\n").unwrap();
    }
    for t in &unit.types {
        let Some(item) = repo.find_type(t) else { continue };
        out.push_str("// ==== type ");
        out.push_str(t);
        out.push('\n');
        out.push_str(&desugar::emit_type(item));
        out.push('\n');
    }
    for c in &unit.consts {
        let found = repo.find_consts(c);
        if found.is_empty() {
            eprintln!("vx-note: const {c} not found");
        }
        for f in found {
            out.push_str(&desugar::emit_const(&f));
            out.push('\n');
        }
    }

    let mut emitted: Vec<Emitted> = Vec::new();
    let mut verify: Vec<String> = unit.verify.clone();
    verify.extend(a[7..].iter().cloned());
    // what is emitted: the bodies asked for, the contracts of what they call, and the rest of each trait impl touched
    let mut plan: Vec<(String, bool)> = vec![];
    for k in &verify {
        if !plan.iter().any(|p| &p.0 == k) {
            plan.push((k.clone(), false));
        }
    }
    for k in &unit.stub {
        if !plan.iter().any(|p| &p.0 == k) {
            plan.push((k.clone(), true));
        }
    }
    let prefix = |k: &str| k.rfind(">::").map(|i| k[..i + 1].to_string()).filter(|p| p.starts_with('<'));
    let gen = |key: &str, stub: bool| {
        let entry = db.get(key).unwrap_or_else(|| die("db", &format!("no contract for {key}")));
        let func = match repo.find_fn(key, entry.file.as_deref()) {
            Ok(f) => f,
            Err(e) => die("anchor", &format!("{key}: {e}")),
        };
        let d = desugar::desugar_fn(func, entry, stub).unwrap_or_else(|e| die("anchor", &format!("{key}: {e}")));
        (d, func.file.clone())
    };
    let mut outs: Vec<(String, bool, desugar::Out, String)> = vec![];
    let mut i = 0;
    while i < plan.len() {
        let (k, stub) = plan[i].clone();
        i += 1;
        let (d, file) = gen(&k, stub);
        let calls = d.calls.clone();
        let is_trait = d.is_trait;
        outs.push((k.clone(), stub, d, file));
        let need = db.get(&k).unwrap().need.clone();
        for o in db.keys() {
            if plan.iter().any(|p| p.0 == o) {
                continue;
            }
            let e = db.get(&o).unwrap();
            if e.unit.as_ref().map(|u| *u != unit_name && !unit.uses.contains(u)).unwrap_or(false) {
                continue;
            }
            let last = o.rsplit("::").next().unwrap().split('@').next().unwrap().trim_end_matches('!').to_string();
            let callee = if last == "array_push" { "array_push_".to_string() } else { last };
            let called = calls.iter().any(|c| match c.split_once("::") {
                Some((_, f)) => f == callee,
                None => c == &callee || (c == "into" && callee == "from"),
            });
            let sibling = is_trait && prefix(&o).is_some() && prefix(&o) == prefix(&k);
            if (called && !e.noauto) || sibling || need.contains(&o) {
                plan.push((o, true));
            }
        }
    }
    // group the members of one trait impl into one block
    let mut used = vec![false; outs.len()];
    for i in 0..outs.len() {
        if used[i] {
            continue;
        }
        let members: Vec<usize> = match (&outs[i].2.head, outs[i].2.is_trait) {
            (Some(h), true) => (i..outs.len()).filter(|j| !used[*j] && outs[*j].2.is_trait && outs[*j].2.head.as_ref() == Some(h)).collect(),
            _ => vec![i],
        };
        for j in &members {
            out.push_str(&db.get(&outs[*j].0).unwrap().with);
        }
        if let Some(h) = &outs[i].2.head {
            write!(out, "{h} {{\n").unwrap();
            for j in &members {
                out.push_str(&db.get(&outs[*j].0).unwrap().impl_extra);
            }
        }
        for j in members {
            used[j] = true;
            let (key, stub, d, file) = &outs[j];
            let start = out.lines().count() + 1;
            write!(out, "// ==== {} {key} (from {file}) ====\n{}\n", if *stub { "contract of" } else { "body of" }, d.text).unwrap();
            let end = out.lines().count();
            emitted.push(Emitted {
                key: key.clone(),
                mode: if *stub { "stub" } else { "body" },
                start,
                end,
                kinds: d.loop_kinds.clone(),
                expected: db.get(key).unwrap().kinds.clone(),
                missing: d.missing.clone(),
                known: d.known.clone(),
                known_gone: d.known_gone.clone(),
                file: file.clone(),
            });
        }
        if outs[i].2.head.is_some() {
            out.push_str("}\n");
        }
    }
    for inc in &unit.tail {
        let t = std::fs::read_to_string(format!("{}/{}", a[3], inc)).unwrap_or_else(|e| die("db", &format!("{inc}: {e}")));
        let start = out.lines().count() + 1;
        write!(out, "// ==== include {inc} ====\n{t}\n").unwrap();
        let _ = start;
    }
    out.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&a[5], &out).unwrap();

    let mut rep = String::from("{\"functions\":[");
    for (i, e) in emitted.iter().enumerate() {
        if i > 0 {
            rep.push(',');
        }
        write!(
            rep,
            "{{\"key\":{},\"mode\":{},\"file\":{},\"start\":{},\"end\":{},\"kinds\":[{}],\"expected\":{},\"missing\":[{}],\"known\":[{}],\"known_gone\":[{}]}}",
            jstr(&e.key),
            jstr(e.mode),
            jstr(&e.file),
            e.start,
            e.end,
            e.kinds.iter().map(|k| jstr(k)).collect::<Vec<_>>().join(","),
            match &e.expected {
                Some(k) => format!("[{}]", k.iter().map(|k| jstr(k)).collect::<Vec<_>>().join(",")),
                None => "null".into(),
            },
            e.missing.iter().map(|k| jstr(k)).collect::<Vec<_>>().join(","),
            e.known.iter().map(|k| jstr(k)).collect::<Vec<_>>().join(","),
            e.known_gone.iter().map(|k| jstr(k)).collect::<Vec<_>>().join(","),
        )
        .unwrap();
    }
    rep.push_str("]}\n");
    std::fs::write(&a[6], rep).unwrap();
}
