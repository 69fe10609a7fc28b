//! Mechanical extraction of the code in /repo into one Verus file.
//!
//! Every run reads the Rust sources of the repository, copies the text of the items in scope and
//! splices the contracts (requires/ensures, loop invariants, proof hints) of the `*.vc` files into
//! it. What is rewritten or left out on the way is listed in the map file ("drops", "rewrites").
mod cfg;
mod render;

use std::collections::BTreeMap;

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut repo, mut contracts, mut out, mut map) = (
        "/repo".to_string(),
        String::new(),
        String::new(),
        String::new(),
    );
    let mut stubs: Vec<String> = vec![];
    let mut drops: Vec<String> = vec![];
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--repo" => repo = v(),
            "--contracts" => contracts = v(),
            "--out" => out = v(),
            "--map" => map = v(),
            "--stub" => stubs.push(v()),
            "--drop" => drops.push(v()),
            _ => panic!("unknown argument {a}"),
        }
    }
    let index = std::fs::read_to_string(format!("{contracts}/index")).expect("index");
    let mut tree = render::ModTree::default();
    let mut report = render::Report::default();
    let mut prelude = String::new();
    for line in index.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        if let Some(rest) = line.strip_prefix("spec ") {
            // spec <module> <file>
            let (module, file) = rest.split_once(' ').unwrap();
            let text = std::fs::read_to_string(format!("{contracts}/{file}")).expect(file);
            tree.add(module, vec![render::Chunk::spec(file, text)]);
        } else if line == "prelude" {
            prelude.push_str("");
        } else {
            let text = std::fs::read_to_string(format!("{contracts}/{line}")).expect(line);
            for m in cfg::parse(&text, line) {
                let chunks = render::module(&repo, &m, &stubs, &drops, &mut report);
                tree.add(&m.path, chunks);
            }
        }
    }
    let mut w = render::Writer::default();
    w.put("#![allow(unused, dead_code, non_snake_case, non_camel_case_types)]\n#![feature(allocator_api)]\n#![verifier::allow(autoderive_clone_without_spec)]\nuse vstd::prelude::*;\n");
    w.put(&prelude);
    tree.write(&mut w);
    w.put("fn main() {}\n");
    std::fs::write(&out, &w.text).unwrap();
    let mut calls: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in &report.calls {
        calls.insert(k.clone(), v.clone());
    }
    let j = serde_json::json!({
        "spans": w.spans.iter().map(|s| serde_json::json!({
            "key": s.key, "kind": s.kind, "file": s.file, "repo_line": s.repo_line,
            "start": s.start, "end": s.end})).collect::<Vec<_>>(),
        "drops": report.drops, "rewrites": report.rewrites, "lost": report.lost,
        "missing": report.missing, "trusted": report.trusted, "uncontracted": report.uncontracted,
        "calls": calls, "contracted": report.contracted,
    });
    std::fs::write(&map, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
