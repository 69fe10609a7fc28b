//! Runs the real code side by side with reference implementations that are written from the properties.
//!
//!   conform run ID SEED SECONDS STATE   look for an input on which property ID fails
//!   conform one ID SEED INDEX           repeat one case
//!   conform text ID FILE                the text in FILE instead of a generated one
mod anaref;
mod cmp;
mod conv;
mod gen;
mod lexref;
mod misc;
mod parseref;
mod proc;
mod proj;
mod rng;
mod tree;

use cmp::*;
use gen::{Profile, PLAIN};
use rng::Rng;
use std::io::Write;
use std::time::{Duration, Instant};

const TEXT: Profile = Profile { mutate: 250, soup: 60, no_semi: 10, ..PLAIN };

/// Which differences count for a property
fn aspects(id: &str) -> &'static [&'static str] {
    match id {
        "C01" => &["tok.pos"],
        "C02" => &["tok.kind"],
        "C03" => &["panic"],
        "C04" => &["number", "int"],
        "C06" => &["bytes", "int"],
        "C07" => &["name"],
        "C08" => &["shape", "place", "accept", "number", "bytes"],
        "C09" => &["syntax", "accept", "semicolon"],
        "C10" => &["semicolon", "accept", "shape"],
        "C12" => &["reference"],
        "C14" => &["header"],
        "C15" => &["compatible"],
        "C16" => &["after-node", "omit"],
        "C17" => &["cycle"],
        "C18" => &["include", "files"],
        "C19" => &["include-errors", "reference", "definition"],
        "C20" => &["history"],
        "C21" => &["cursor"],
        "C22" => &["definition"],
        "C23" => &["severity"],
        "C24" => &["filetype"],
        "C25" => &["print"],
        "C26" => &["cli"],
        "C27" => &["lsp.diag"],
        "C28" => &["lsp.symbols"],
        "C29" => &["lsp.sync"],
        "C32" => &["lsp.nav"],
        _ => panic!("unknown property {id}"),
    }
}

pub struct Case {
    pub show: String,
    pub issues: Vec<Issue>,
    pub key: u64,
    pub trivial: bool,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

struct Ctx {
    world: Option<proj::World>,
    procs: proc::Procs,
}

fn text_case(id: &str, text: &str) -> Case {
    let mut out = vec![];
    match id {
        "C01" | "C02" => cmp_tokens(text, &mut out),
        "C03" => {
            cmp_tokens(text, &mut out);
            cmp_parse(text, &mut out);
            misc_on_text(text, &mut out);
        }
        _ => cmp_parse(text, &mut out),
    }
    Case { show: format!("TEXT\n{text}"), issues: out, key: hash(text), trivial: text.len() < 8 }
}

/// Everything else a text goes through: analysis, lookup, printing
fn misc_on_text(text: &str, out: &mut Vec<Issue>) {
    use ginko::dts::{DiagnosticPrinter, FileType, Position, Project, SeverityMap};
    let path = std::path::Path::new("/nonexistent/t.dts");
    guard("analysis", out, || {
        let mut p = Project::default();
        p.add_file_with_text(path.into(), text.to_string(), FileType::DtSource);
        let d: Vec<_> = p.get_diagnostics(path).cloned().collect();
        let code = text.lines().map(|l| l.to_string()).collect();
        let s = DiagnosticPrinter { diagnostics: &d, code, severity_map: SeverityMap::default() }.to_string();
        if let Some(r) = p.get_root(path) {
            let _ = format!("{r}");
        }
        for l in 0..text.lines().count().min(20) {
            for c in 0..8 {
                let _ = p.find_at_pos(path, &Position::new(l as u32, c * 5));
            }
        }
        s.len()
    });
}

/// a well-formed text, and the same with one semicolon less
fn semicolon_case(r: &mut Rng) -> Case {
    let p = Profile { bad_name: 0, bad_num: 0, bad_bytes: 0, misplaced: 0, ..PLAIN };
    let text = gen::text(r, p);
    let mut l = lexref::Lex::new(&text);
    let mut semis = vec![];
    let mut prev_close = false;
    while let Some(t) = l.tok() {
        if t.k == lexref::K::Sym(';') && (!prev_close || r.chance(1, 2)) {
            semis.push(t.ci.0);
        }
        prev_close = t.k == lexref::K::Sym('}');
    }
    let mut c: Vec<char> = text.chars().collect();
    let n = r.range(1, 2);
    for _ in 0..n {
        if !semis.is_empty() {
            let i = semis[r.below(semis.len())];
            c[i] = ' ';
        }
    }
    let text: String = c.into_iter().collect();
    text_case("C10", &text)
}

fn case(id: &str, seed: u64, index: u64, ctx: &mut Ctx) -> Case {
    let mut rng = Rng::new(seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(index).wrapping_add(hash(id)));
    let r = &mut rng;
    let base = TEXT;
    match id {
        "C01" | "C02" => {
            let p = Profile { soup: 400, unicode: 200, comments: 200, ..base };
            let t = gen::text(r, p);
            text_case(id, &t)
        }
        "C03" if index % 400 == 7 => {
            let n = r.range(20, 150);
            let open: String = (0..n).map(|_| *r.pick(&["a {", "l: b@1 {", "p = <(((1)))>; c {"])).collect();
            let mut text = format!("/dts-v1/;\n/ {{ {open}{}", "};".repeat(r.range(0, n + 2)));
            if r.chance(1, 3) {
                text = format!("/dts-v1/;/ {{ a = <{}1{}>; }};", "(".repeat(n * 300), ")".repeat(n * 300));
            }
            text_case(id, &text)
        }
        "C03" if !index.is_multiple_of(8) => {
            let p = Profile { soup: 350, mutate: 500, bad_name: 60, bad_num: 60, bad_bytes: 60, no_semi: 40, misplaced: 80, unicode: 200, ..base };
            let t = gen::text(r, p);
            text_case(id, &t)
        }
        "C04" => {
            let p = Profile { bad_num: 200, mutate: 60, ..base };
            let t = gen::text(r, p);
            text_case(id, &t)
        }
        "C06" => {
            let p = Profile { bad_bytes: 200, mutate: 60, ..base };
            let t = gen::text(r, p);
            text_case(id, &t)
        }
        "C07" => {
            let p = Profile { bad_name: 200, mutate: 30, soup: 10, ..base };
            let t = gen::text(r, p);
            text_case(id, &t)
        }
        "C08" => {
            let p = Profile { mutate: 50, soup: 20, bad_name: 10, ..base };
            let t = gen::text(r, p);
            text_case(id, &t)
        }
        "C09" => {
            let p = Profile { mutate: 700, soup: 200, ..base };
            let t = gen::text(r, p);
            text_case(id, &t)
        }
        "C10" if index.is_multiple_of(2) => semicolon_case(r),
        "C10" => {
            let p = Profile { no_semi: 60, mutate: 50, ..base };
            let t = gen::text(r, p);
            text_case(id, &t)
        }
        "C16" => {
            let p = Profile { misplaced: 200, no_semi: 20, mutate: 30, ..base };
            let t = gen::text(r, p);
            text_case(id, &t)
        }
        "C17" if index.is_multiple_of(2) => {
            let c = misc::graph_case(r);
            let mut out = vec![];
            misc::graph(&c, &mut out);
            let show = format!("GRAPH {c:?}");
            Case { key: hash(&show), show, issues: out, trivial: c.len() < 2 }
        }
        "C23" if index == 0 => {
            let mut out = vec![];
            misc::severities(&mut out);
            Case { show: "SEVERITIES of all codes".into(), issues: out, key: 0, trivial: false }
        }
        "C24" => {
            let mut out = vec![];
            let p = misc::file_types(r, &mut out);
            Case { key: hash(&p), show: format!("FILE {p:?}"), issues: out, trivial: false }
        }
        "C25" => {
            let mut out = vec![];
            let (code, d) = misc::print_case(r);
            misc::print(&code, &d, &mut out);
            let show = format!("PRINT {code:?} {d:?}");
            Case { key: hash(&show), show, issues: out, trivial: d.is_empty() }
        }
        "C26" | "C27" | "C28" | "C29" | "C32" => {
            let world = ctx.world.get_or_insert_with(proj::World::new);
            ctx.procs.case(id, world, r)
        }
        _ => {
            let (p, sh) = project_shape(id, r);
            let s = proj::scenario(r, p, sh);
            let world = ctx.world.get_or_insert_with(proj::World::new);
            let mut out = vec![];
            if id == "C20" {
                proj::history(world, &s, r, &mut out);
            } else {
                proj::run(world, &s, r, &mut out);
            }
            let show = format!("PROJECT\n{}", s.show());
            Case { key: hash(&show), show, issues: out, trivial: false }
        }
    }
}

fn project_shape(id: &str, r: &mut Rng) -> (Profile, proj::Shape) {
    let l = proj::LINKED;
    let one = proj::Shape { files: 1, steps: 1, acyclic: false, remove: false, no_disk: 0 };
    let many = proj::Shape { files: 5, steps: 3, acyclic: false, remove: false, no_disk: 10 };
    match id {
        "C12" => (l, if r.chance(2, 3) { one } else { many }),
        "C14" => (Profile { misplaced: 150, header: 600, ..l }, if r.chance(1, 2) { one } else { many }),
        "C15" => (Profile { compat: 500, ..l }, one),
        "C17" => (l, proj::Shape { files: 7, ..many }),
        "C18" => (l, proj::Shape { no_disk: 25, ..many }),
        "C20" => (Profile { mutate: 100, ..l }, proj::Shape { steps: 6, acyclic: true, no_disk: 20, ..many }),
        "C19" => (Profile { bad_name: 20, no_semi: 15, mutate: 30, ..l }, many),
        "C21" | "C22" => (Profile { unicode: 200, ..l }, if r.chance(1, 2) { one } else { many }),
        _ => (l, proj::Shape { remove: true, ..many }),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn relevant(id: &str, c: &Case) -> Vec<Issue> {
    let a = aspects(id);
    // without an outcome there is nothing the property could hold for
    c.issues.iter().filter(|i| a.contains(&i.aspect) || i.aspect == "panic").cloned().collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let mut ctx = Ctx { world: None, procs: proc::Procs::default() };
    match args[1].as_str() {
        "run" => {
            let (id, seed, secs, state) = (&args[2], args[3].parse::<u64>().unwrap(), args[4].parse::<f64>().unwrap(), &args[5]);
            let max: u64 = args.get(6).map(|m| m.parse().unwrap()).unwrap_or(u64::MAX);
            let state = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(state).unwrap();
            use std::os::unix::fs::FileExt;
            let t0 = Instant::now();
            let limit = Duration::from_secs_f64(secs);
            let (mut n, mut seen, mut samples) = (0u64, std::collections::HashSet::new(), vec![]);
            while t0.elapsed() < limit && n < max {
                state.write_at(format!("{n:<20}").as_bytes(), 0).unwrap();
                let c = case(id, seed, n, &mut ctx);
                let bad = relevant(id, &c);
                if !bad.is_empty() {
                    let what: Vec<String> = bad.iter().map(|i| format!("[{}] {}", i.aspect, i.what)).collect();
                    println!("{{\"fail\":{n},\"seed\":{seed},\"what\":{},\"case\":{}}}", esc(&what.join("\n")), esc(&c.show));
                    let _ = std::io::stdout().flush();
                    drop(ctx);
                    std::process::exit(1);
                }
                n += 1;
                if !c.trivial {
                    seen.insert(c.key);
                }
                if samples.len() < 3 && !c.trivial && c.show.len() < 1500 {
                    samples.push(c.show);
                }
            }
            let s: Vec<String> = samples.iter().map(|s| esc(s)).collect();
            println!("{{\"evaluations\":{n},\"distinct\":{},\"samples\":[{}]}}", seen.len(), s.join(","));
        }
        "one" | "text" => {
            let id = &args[2];
            let c = if args[1] == "one" {
                case(id, args[3].parse().unwrap(), args[4].parse().unwrap(), &mut ctx)
            } else {
                text_case(id, &std::fs::read_to_string(&args[3]).unwrap())
            };
            println!("{}", c.show);
            let bad = relevant(id, &c);
            for i in &c.issues {
                println!("[{}] {}", i.aspect, i.what);
            }
            drop(ctx);
            std::process::exit(if bad.is_empty() { 0 } else { 1 });
        }
        "known" => {
            // the input of a listed finding; ends with a signal or a status other than 0 while it is there
            assert_eq!(args[2], "deep-nesting");
            let text = format!("/dts-v1/;\n/ {{ {}", "a {".repeat(20000));
            let mut out = vec![];
            cmp_parse(&text, &mut out);
            std::process::exit(0);
        }
        x => panic!("unknown command {x}"),
    }
}
