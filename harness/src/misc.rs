//! Import graphs, severities, file types and printed diagnostics
use crate::anaref::{severity, Ft};
use crate::cmp::*;
use crate::rng::Rng;
use ginko::dts::verif::ImportGuard;
use ginko::dts::{Diagnostic, DiagnosticPrinter, ErrorCode, FileType, Position, Severity, SeverityMap, Span};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// A sequence of dependencies that are added to an import guard
pub fn graph_case(r: &mut Rng) -> Vec<(u32, Vec<u32>)> {
    let n = r.range(1, 7);
    let steps = r.range(1, 10);
    (0..steps)
        .map(|_| {
            let e = r.below(n) as u32;
            let deps = (0..*r.pick(&[0, 1, 1, 1, 2, 3])).map(|_| r.below(n) as u32).collect();
            (e, deps)
        })
        .collect()
}
pub fn graph(case: &[(u32, Vec<u32>)], out: &mut Vec<Issue>) {
    let mut g: ImportGuard<u32> = ImportGuard::default();
    let mut edges: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    for (i, (e, deps)) in case.iter().enumerate() {
        edges.entry(*e).or_default().extend(deps);
        let mut seen = BTreeSet::new();
        let mut todo = vec![*e];
        while let Some(x) = todo.pop() {
            for y in edges.get(&x).into_iter().flatten() {
                if seen.insert(*y) {
                    todo.push(*y);
                }
            }
        }
        let cyclic = seen.contains(e);
        let Some(got) = guard("the import guard", out, || g.add(*e, deps)) else { return };
        match got {
            Ok(()) if cyclic => return out.push(issue("cycle", format!("step {i}: {e} -> {deps:?} closes a cycle which is not found"))),
            Err(x) if !cyclic => return out.push(issue("cycle", format!("step {i}: {e} -> {deps:?}: {e} is not on a cycle but {:?} is reported", x.cycle()))),
            Err(x) => {
                let c = x.cycle();
                let real = c.len() >= 2 && c.first() == c.last() && c.contains(e) && c.windows(2).all(|w| edges.get(&w[0]).is_some_and(|d| d.contains(&w[1])));
                if !real {
                    return out.push(issue("cycle", format!("step {i}: {c:?} is reported as cycle but is none")));
                }
            }
            _ => {}
        }
    }
}

pub const CODES: [ErrorCode; 22] = [
    ErrorCode::UnexpectedEOF,
    ErrorCode::Expected,
    ErrorCode::ExpectedName,
    ErrorCode::OddNumberOfBytestringElements,
    ErrorCode::IntError,
    ErrorCode::NonDtsV1,
    ErrorCode::NameTooLong,
    ErrorCode::IllegalChar,
    ErrorCode::IllegalStart,
    ErrorCode::UnresolvedReference,
    ErrorCode::PropertyReferencedByNode,
    ErrorCode::NonStringInCompatible,
    ErrorCode::PathCannotBeEmpty,
    ErrorCode::PropertyAfterNode,
    ErrorCode::UnbalancedParentheses,
    ErrorCode::MisplacedDtsHeader,
    ErrorCode::DuplicateDirective,
    ErrorCode::IncorrectDirective,
    ErrorCode::ParserError,
    ErrorCode::IOError,
    ErrorCode::ErrorsInInclude,
    ErrorCode::CyclicDependencyError,
];

pub fn snake(c: &ErrorCode) -> String {
    match format!("{c:?}").as_str() {
        "UnexpectedEOF" => "unexpected_eof".into(),
        "NonDtsV1" => "non_dts_v1".into(),
        "IOError" => "io_error".into(),
        s => {
            let mut o = String::new();
            for ch in s.chars() {
                if ch.is_ascii_uppercase() && !o.is_empty() {
                    o.push('_');
                }
                o.push(ch.to_ascii_lowercase());
            }
            o
        }
    }
}

pub fn severities(out: &mut Vec<Issue>) {
    let map = SeverityMap::default();
    let mut seen = BTreeSet::new();
    for c in &CODES {
        let d = Diagnostic::new(Position::zero().as_span(), Path::new("x").into(), *c, "m");
        let want = severity(&format!("{c:?}"));
        if format!("{:?}", d.severity(&map)) != want || format!("{:?}", map[*c]) != want {
            out.push(issue("severity", format!("{c:?}: expected {want} but got {:?}", d.severity(&map))));
        }
        let name: &str = c.as_ref();
        if !seen.insert(name.to_string()) {
            out.push(issue("severity", format!("the name {name} stands for two codes")));
        }
    }
    for (s, t) in [(Severity::Error, "error"), (Severity::Warning, "warning"), (Severity::Hint, "hint")] {
        if s.to_string() != t {
            out.push(issue("severity", format!("{t} is shown as {s}")));
        }
    }
}

pub fn file_types(r: &mut Rng, out: &mut Vec<Issue>) -> String {
    let ext = *r.pick(&["dts", "dtsi", "dtso", "overlay", "txt", "DTS", "dtb", "dts ", "dtss", "dt", "", "overlays", "h", "dtsi~", "é"]);
    let stem = *r.pick(&["a", "", "b.dts", "x.y", "dts", ".a", "a.dtsi", "ü", "dir.dts/a", "d/b", "/abs/x.overlay", "a b"]);
    let p = if r.chance(1, 8) { stem.to_string() } else { format!("{stem}.{ext}") };
    let want = Ft::of(Path::new(&p)).real();
    let got = FileType::from(Path::new(&p));
    if want != got {
        out.push(issue("filetype", format!("{p:?}: expected {want:?} but got {got:?}")));
    }
    let w2 = match ext {
        "dts" => FileType::DtSource,
        "dtsi" => FileType::DtSourceInclude,
        "dtso" | "overlay" => FileType::DtSourceOverlay,
        _ => FileType::Unknown,
    };
    if FileType::from_file_ending(ext) != w2 {
        out.push(issue("filetype", format!("ending {ext:?}: expected {w2:?} but got {:?}", FileType::from_file_ending(ext))));
    }
    p
}

/// The form of a printed diagnostic
pub fn print_ref(d: &Diagnostic, code: &[String]) -> String {
    let (s, e) = (d.span.start(), d.span.end());
    let (l, c) = (s.line() as usize, s.character() as usize);
    let line = code.get(l).cloned().unwrap_or_default();
    let num = (l + 1).to_string();
    let pad = " ".repeat(num.len());
    let under: String = line.chars().take(c).map(|x| if matches!(x, ' ' | '\t' | '\n' | '\r' | '\x0c') { x } else { ' ' }).collect();
    let n = if s.line() == e.line() {
        (e.character() - s.character()).max(1) as usize
    } else {
        line.chars().count().saturating_sub(c).max(1)
    };
    format!(
        "{} --> {}:{}:{}\n{pad} |\n{num} | {line}\n{pad} | {under}{} {}\n\n",
        severity(&format!("{:?}", d.kind)).to_lowercase(),
        d.source.to_string_lossy(),
        l + 1,
        c + 1,
        "^".repeat(n),
        d.message
    )
}

pub fn print_case(r: &mut Rng) -> (Vec<String>, Vec<Diagnostic>) {
    let pieces = ["a", "\t", " ", "é", "node", " = <", "中", ";", "0x1", "    "];
    let code: Vec<String> = (0..r.below(14)).map(|_| (0..r.below(8)).map(|_| *r.pick(&pieces)).collect()).collect();
    let diags = (0..r.range(0, 3))
        .map(|_| {
            let l = r.below(code.len() + 2) as u32;
            let len = code.get(l as usize).map(|x| x.chars().count()).unwrap_or(0);
            let c = r.below(len + 3) as u32;
            let end = match r.below(4) {
                0 => Position::new(l, c),
                1 => Position::new(l + 1 + r.below(3) as u32, r.below(9) as u32),
                _ => Position::new(l, c + r.below(12) as u32),
            };
            let m = *r.pick(&["Expected ';'", "x", "", "long message é"]);
            let f = *r.pick(&["/a/b.dts", "t.dtsi", "/x y/ü.dts"]);
            Diagnostic::new(Span::new(Position::new(l, c), end), Path::new(f).into(), CODES[r.below(CODES.len())], m)
        })
        .collect();
    (code, diags)
}

pub fn print(code: &[String], diags: &[Diagnostic], out: &mut Vec<Issue>) {
    let got = guard("printing", out, || {
        DiagnosticPrinter { diagnostics: diags, code: code.to_vec(), severity_map: SeverityMap::default() }.to_string()
    });
    let Some(got) = got else { return };
    let want: String = diags.iter().map(|d| print_ref(d, code)).collect();
    if want != got {
        out.push(issue("print", format!("expected\n{want}\nbut got\n{got}")));
    }
}
