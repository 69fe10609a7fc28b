//! Compares what the real code does with a text with what the reference does.
use crate::conv;
use crate::lexref::{Lex, K};
use crate::parseref;
use crate::tree::*;
use ginko::dts::verif::{CompilerDirective, Lexer, Reference, TokenKind};
use ginko::dts::{Parser, ParserContext};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::Arc;

#[derive(Debug, Clone)]
pub struct Issue {
    pub aspect: &'static str,
    pub what: String,
}
pub fn issue(aspect: &'static str, what: impl Into<String>) -> Issue {
    Issue { aspect, what: what.into() }
}

/// Runs `f`; a panic becomes an issue
pub fn guard<T>(what: &str, out: &mut Vec<Issue>, f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Some(t),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            out.push(issue("panic", format!("{what} panicked: {m}")));
            None
        }
    }
}

fn tok_key(k: &TokenKind) -> K {
    use TokenKind::*;
    match k {
        Semicolon => K::Sym(';'),
        Slash => K::Sym('/'),
        Equal => K::Sym('='),
        OpenBracket => K::Sym('['),
        CloseBracket => K::Sym(']'),
        OpenParen => K::Sym('('),
        CloseParen => K::Sym(')'),
        ChevronLeft => K::Sym('<'),
        ChevronRight => K::Sym('>'),
        Comma => K::Sym(','),
        OpenBrace => K::Sym('{'),
        CloseBrace => K::Sym('}'),
        Ident(s) => K::Ident(s.clone()),
        Label(s) => K::Label(s.clone()),
        String(s) => K::Str(s.clone()),
        UnparsedNumber(s) => K::Num(s.clone()),
        Directive(d) => K::Dir(match d {
            CompilerDirective::DTSVersionHeader => "dts-v1".into(),
            CompilerDirective::MemReserve => "memreserve".into(),
            CompilerDirective::DeleteNode => "delete-node".into(),
            CompilerDirective::DeleteProperty => "delete-property".into(),
            CompilerDirective::Plugin => "plugin".into(),
            CompilerDirective::Bits => "bits".into(),
            CompilerDirective::OmitIfNoRef => "omit-if-no-ref".into(),
            CompilerDirective::Include => "include".into(),
            CompilerDirective::Other(s) => {
                if ["dts-v1", "memreserve", "delete-node", "delete-property", "plugin", "bits", "omit-if-no-ref", "include"].contains(&s.as_str()) {
                    format!("not recognized: {s}")
                } else {
                    s.clone()
                }
            }
        }),
        Ref(Reference::Simple(s)) => K::RefLabel(s.clone()),
        Ref(Reference::Path(s)) => K::RefPath(s.clone()),
        Comment(s) => K::Comment(s.clone()),
        Unknown(b) => K::Unknown(*b),
    }
}

/// `names` changes what comes next, so the comparison stops at the first difference in kind
pub fn cmp_tokens(text: &str, out: &mut Vec<Issue>) {
    let src: Arc<Path> = Path::new("t.dts").into();
    let mut reference = Lex::new(text);
    let _ = guard("lexing", out, || {
        let mut issues = vec![];
        let mut lexer = Lexer::from_text(text, src.clone());
        // more tokens than characters are impossible
        for _ in 0..text.len() + 2 {
            let want = reference.tok();
            let got = lexer.next();
            match (want, got) {
                (None, None) => return issues,
                (Some(w), Some(g)) => {
                    let k = tok_key(&g.kind);
                    let s = conv::sp(g.span);
                    if k != w.k {
                        issues.push(issue("tok.kind", format!("token at {:?}: expected {:?} but got {k:?}", w.s, w.k)));
                        if s != (w.s, w.e) {
                            issues.push(issue("tok.pos", format!("token {:?}: expected at {:?} but got {:?} at {s:?}", w.k, (w.s, w.e), k)));
                        }
                        return issues;
                    }
                    if s != (w.s, w.e) {
                        issues.push(issue("tok.pos", format!("token {k:?}: expected at {:?} but got {s:?}", (w.s, w.e))));
                    }
                    if *g.source != *src {
                        issues.push(issue("tok.pos", format!("token {k:?} claims to be from {:?}", g.source)));
                    }
                }
                (w, g) => {
                    issues.push(issue("tok.kind", format!("expected {w:?} but got {g:?}")));
                    issues.push(issue("tok.pos", format!("expected {w:?} but got {g:?}")));
                    return issues;
                }
            }
        }
        issues.push(issue("panic", "lexing does not end"));
        issues
    })
    .map(|i| out.extend(i));
}

pub fn about(d: &Diag) -> &'static str {
    match d.code.as_str() {
        "Expected" if d.msg == "Expected ';'" => "semicolon",
        "Expected" | "UnexpectedEOF" | "ParserError" | "UnbalancedParentheses" => "syntax",
        "IntError" => "int",
        "OddNumberOfBytestringElements" => "bytes",
        "ExpectedName" | "NameTooLong" | "IllegalChar" | "IllegalStart" | "PathCannotBeEmpty" => "name",
        "PropertyAfterNode" => "after-node",
        "IncorrectDirective" => "omit",
        "IOError" => "include",
        "NonDtsV1" | "MisplacedDtsHeader" | "DuplicateDirective" => "header",
        "UnresolvedReference" => "reference",
        "NonStringInCompatible" => "compatible",
        "ErrorsInInclude" => "include-errors",
        "CyclicDependencyError" => "cycle",
        _ => "other",
    }
}

/// Multisets of diagnostics
pub fn cmp_diags(at: &str, want: &[Diag], got: &[Diag], out: &mut Vec<Issue>) {
    let same = |w: &Diag, g: &Diag| w.code == g.code && (w.code != "Expected" || w.msg == g.msg);
    let mut got: Vec<Option<&Diag>> = got.iter().map(Some).collect();
    let mut rest = vec![];
    for w in want {
        let hit = got.iter().position(|g| g.is_some_and(|g| same(w, g) && (w.s, w.e) == (g.s, g.e)));
        match hit {
            Some(i) => got[i] = None,
            None => rest.push(w),
        }
    }
    for w in rest {
        let hit = w.slack.and_then(|(lo, hi)| got.iter().position(|g| g.is_some_and(|g| same(w, g) && lo <= g.s && g.s <= hi)));
        match hit {
            Some(i) => got[i] = None,
            None => {
                // an extra one of the same kind elsewhere?
                let near = got.iter().flatten().find(|g| g.code == w.code).map(|g| format!("; there is one at {:?}-{:?} {:?}", g.s, g.e, g.msg)).unwrap_or_default();
                out.push(issue(w.about, format!("{at}: {} {:?} at {:?}-{:?} is not reported{near}", w.code, w.msg, w.s, w.e)))
            }
        }
    }
    for g in got.into_iter().flatten() {
        out.push(issue(about(g), format!("{at}: {} {:?} is reported at {:?}-{:?} for no reason", g.code, g.msg, g.s, g.e)));
    }
}

fn first_diff(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("element {i}: expected {x} but got {y}");
        }
    }
    let (n, m) = (a.lines().count(), b.lines().count());
    let more = if n > m { format!("missing {}", a.lines().nth(m).unwrap()) } else { format!("superfluous {}", b.lines().nth(n).unwrap_or("")) };
    format!("expected {n} elements but got {m}; {more}")
}

pub fn cmp_trees(at: &str, want: Option<&File>, got: Option<&File>, out: &mut Vec<Issue>) {
    match (want, got) {
        (None, None) => {}
        (Some(_), None) => out.push(issue("accept", format!("{at}: no tree is produced though the text is well-formed enough"))),
        (None, Some(_)) => out.push(issue("accept", format!("{at}: a tree is produced though the text is malformed"))),
        (Some(w), Some(g)) => {
            let (w, g) = (facets(w), facets(g));
            if w.shape != g.shape {
                out.push(issue("shape", format!("{at}: {}", first_diff(&w.shape, &g.shape))));
                return;
            }
            if w.nums != g.nums {
                out.push(issue("number", format!("{at}: number {}", first_diff(&w.nums, &g.nums))));
            }
            if w.bytes != g.bytes {
                out.push(issue("bytes", format!("{at}: byte string {}", first_diff(&w.bytes, &g.bytes))));
            }
            for (w, g) in w.places.iter().zip(&g.places) {
                if w.0 != g.0 || w.1.is_some() && w.1 != g.1 {
                    out.push(issue("place", format!("{at}: {} expected at {:?} but is at {:?}", w.0, w.1, g.1)));
                    break;
                }
            }
        }
    }
}

pub fn cmp_parse(text: &str, out: &mut Vec<Issue>) {
    let want = parseref::parse(text);
    let src: Arc<Path> = Path::new("/t.dts").into();
    let got = guard("parsing", out, || {
        let mut p = Parser::from_text(ParserContext::default(), text, src.clone());
        let f = p.file();
        let mut d: Vec<_> = p.diagnostics.clone();
        let f = match f {
            Ok(f) => Some(f),
            Err(e) => {
                d.push(e);
                None
            }
        };
        let bad = d.iter().find(|d| *d.source != *src).map(|d| issue("syntax", format!("{:?} claims to be from {:?}", d.kind, d.source)));
        (f.map(|f| conv::file(&f)), d.iter().map(conv::diag).collect::<Vec<_>>(), bad)
    });
    let Some((file, diags, bad)) = got else { return };
    out.extend(bad);
    cmp_trees("file", want.file.as_ref(), file.as_ref(), out);
    cmp_diags("file", &want.diags, &diags, out);
}
