use crate::cfg::{FnC, Module};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Default)]
pub struct Report {
    pub drops: Vec<String>,
    pub rewrites: Vec<String>,
    pub lost: Vec<String>,
    pub missing: Vec<String>,
    pub trusted: Vec<String>,
    pub uncontracted: Vec<String>,
    pub contracted: Vec<String>,
    pub calls: Vec<(String, Vec<String>)>,
}

pub struct SpanInfo {
    pub key: String,
    pub kind: String,
    pub file: String,
    pub repo_line: usize,
    pub start: usize,
    pub end: usize,
}

pub struct Chunk {
    pub key: String,
    pub kind: String,
    pub file: String,
    pub repo_line: usize,
    pub text: String,
}

impl Chunk {
    pub fn spec(file: &str, text: String) -> Chunk {
        Chunk { key: file.into(), kind: "spec".into(), file: file.into(), repo_line: 0, text }
    }
    fn glue(text: String) -> Chunk {
        Chunk { key: String::new(), kind: "glue".into(), file: String::new(), repo_line: 0, text }
    }
}

#[derive(Default)]
pub struct Writer {
    pub text: String,
    line: usize,
    pub spans: Vec<SpanInfo>,
}

impl Writer {
    pub fn put(&mut self, s: &str) {
        if self.line == 0 {
            self.line = 1;
        }
        self.text.push_str(s);
        self.line += s.matches('\n').count();
    }
    pub fn chunk(&mut self, c: &Chunk) {
        if self.line == 0 {
            self.line = 1;
        }
        let start = self.line;
        self.put(&c.text);
        if !c.text.ends_with('\n') {
            self.put("\n");
        }
        if c.kind != "glue" {
            self.spans.push(SpanInfo {
                key: c.key.clone(),
                kind: c.kind.clone(),
                file: c.file.clone(),
                repo_line: c.repo_line,
                start,
                end: self.line - 1,
            });
        }
    }
}

#[derive(Default)]
pub struct ModTree {
    chunks: Vec<Chunk>,
    subs: Vec<(String, ModTree)>,
}

impl ModTree {
    pub fn add(&mut self, path: &str, chunks: Vec<Chunk>) {
        if path.is_empty() {
            self.chunks.extend(chunks);
            return;
        }
        let (head, tail) = path.split_once("::").unwrap_or((path, ""));
        if let Some(i) = self.subs.iter().position(|s| s.0 == head) {
            self.subs[i].1.add(tail, chunks);
        } else {
            let mut t = ModTree::default();
            t.add(tail, chunks);
            self.subs.push((head.to_string(), t));
        }
    }
    pub fn write(&self, w: &mut Writer) {
        for c in &self.chunks {
            w.chunk(c);
        }
        for (n, t) in &self.subs {
            w.put(&format!("pub mod {n} {{\n"));
            t.write(w);
            w.put(&format!("}} // mod {n}\n"));
        }
    }
}

fn norm(ts: impl ToTokens) -> String {
    ts.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join(" ")
}

/// compact form used in keys: no spaces around punctuation
fn key_of(ts: impl ToTokens) -> String {
    let s = norm(ts);
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        if *c == ' ' {
            let p = cs[i - 1];
            let n = cs[i + 1];
            if (p.is_alphanumeric() || p == '_') && (n.is_alphanumeric() || n == '_') {
                out.push(' ');
            }
        } else {
            out.push(*c);
        }
    }
    out
}

fn is_test_cfg(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let t = key_of(&a.meta);
        t == "cfg(test)" || t == "cfg(ginko_verif)"
    })
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

enum Part {
    T(String),
    S(Range<usize>),
}

struct Edit {
    range: Range<usize>,
    parts: Vec<Part>,
}

struct Ctx<'a> {
    src: &'a str,
    edits: Vec<Edit>,
}

impl Ctx<'_> {
    fn render(&self, r: Range<usize>, exclude: Option<usize>) -> String {
        let mut out = String::new();
        let mut pos = r.start;
        let mut idx: Vec<usize> = (0..self.edits.len())
            .filter(|i| {
                let e = &self.edits[*i];
                Some(*i) != exclude && e.range.start >= r.start && e.range.end <= r.end
            })
            .collect();
        idx.sort_by_key(|i| {
            let e = &self.edits[*i].range;
            (e.start, if e.start == e.end { 0 } else { 1 }, usize::MAX - e.end, *i)
        });
        for i in idx {
            let e = &self.edits[i];
            if e.range.start < pos {
                continue; // nested in an edit that was already applied
            }
            out.push_str(&self.src[pos..e.range.start]);
            for p in &e.parts {
                match p {
                    Part::T(t) => out.push_str(t),
                    Part::S(s) => out.push_str(&self.render(s.clone(), Some(i))),
                }
            }
            pos = e.range.end;
        }
        out.push_str(&self.src[pos..r.end]);
        out
    }
    fn ins(&mut self, at: usize, t: impl Into<String>) {
        self.edits.push(Edit { range: at..at, parts: vec![Part::T(t.into())] });
    }
    fn rep(&mut self, range: Range<usize>, t: impl Into<String>) {
        self.edits.push(Edit { range, parts: vec![Part::T(t.into())] });
    }
}

fn flat(ts: TokenStream, out: &mut Vec<(String, Range<usize>)>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !o.is_empty() {
                    out.push((o.into(), g.span_open().byte_range()));
                }
                flat(g.stream(), out);
                if !c.is_empty() {
                    out.push((c.into(), g.span_close().byte_range()));
                }
            }
            t => out.push((t.to_string(), t.span().byte_range())),
        }
    }
}

fn apply_rewrites(
    toks: &[(String, Range<usize>)],
    rewrites: &[(String, String)],
    ctx: &mut Ctx<'_>,
    key: &str,
    report: &mut Report,
    must: bool,
) -> bool {
    let mut all = true;
    for (pat, rep) in rewrites {
        let mut p = vec![];
        match pat.parse::<TokenStream>() {
            Ok(t) => flat(t, &mut p),
            // unbalanced brackets: piece by piece
            Err(_) => {
                let mut piece = String::new();
                for c in pat.chars().chain(std::iter::once(' ')) {
                    let bracket = "()[]{}".contains(c);
                    if bracket || c.is_whitespace() {
                        flat(piece.parse().expect("rewrite pattern"), &mut p);
                        piece.clear();
                    }
                    if bracket {
                        p.push((c.to_string(), 0..0));
                    } else {
                        piece.push(c);
                    }
                }
            }
        }
        let pt: Vec<&str> = p.iter().map(|x| x.0.as_str()).collect();
        let mut found = false;
        let mut i = 0;
        while i + pt.len() <= toks.len() {
            if (0..pt.len()).all(|j| toks[i + j].0 == pt[j]) {
                ctx.rep(toks[i].1.start..toks[i + pt.len() - 1].1.end, rep.clone());
                report.rewrites.push(format!("{key}: `{}` => `{}`", pat.trim(), rep.trim()));
                found = true;
                i += pt.len();
            } else {
                i += 1;
            }
        }
        if !found && must {
            all = false;
            report.lost.push(format!("{key}: rewrite pattern `{pat}` not found"));
        }
    }
    all
}

/// is the expression a side-effect free predicate that can be repeated in a specification?
fn pure_pred(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Macro(m) => m.mac.path.is_ident("matches"),
        syn::Expr::Binary(b) => {
            use syn::BinOp::*;
            matches!(
                b.op,
                Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | And(_) | Or(_)
            ) && pure_pred(&b.left)
                && pure_pred(&b.right)
        }
        syn::Expr::Unary(u) => pure_pred(&u.expr),
        syn::Expr::Lit(_) | syn::Expr::Path(_) => true,
        syn::Expr::Paren(p) => pure_pred(&p.expr),
        syn::Expr::MethodCall(m) => {
            m.method.to_string().starts_with("is_ascii") && m.args.is_empty() && pure_pred(&m.receiver)
        }
        _ => false,
    }
}

struct Body<'a, 'b> {
    ctx: &'a mut Ctx<'b>,
    c: Option<&'a FnC>,
    key: String,
    loops: usize,
    report: &'a mut Report,
    calls: Vec<String>,
    inline: BTreeMap<String, (Vec<(String, String)>, Range<usize>)>,
    lets: BTreeMap<String, usize>,
    callcount: BTreeMap<String, usize>,
    stmt_stack: Vec<Range<usize>>,
    used_proofs: Vec<usize>,
    opt_parent: bool,
    lifted: Vec<String>,
}

impl Body<'_, '_> {
    fn proofs(&mut self, anchor: &[&str]) -> String {
        let mut s = String::new();
        if let Some(c) = self.c {
            for (i, (a, t)) in c.proofs.iter().enumerate() {
                if a.iter().map(|x| x.as_str()).eq(anchor.iter().copied()) {
                    s.push_str(t);
                    self.used_proofs.push(i);
                }
            }
        }
        s
    }
    fn loop_common(&mut self, n: usize, body: &syn::Block, whole: Range<usize>) {
        let open = body.brace_token.span.open().byte_range();
        let close = body.brace_token.span.close().byte_range();
        let ns = n.to_string();
        if let Some(inv) = self.c.and_then(|c| c.loops.get(&n)) {
            self.ctx.ins(open.start, format!("\n{inv}"));
        }
        let st = self.proofs(&["loop", &ns, "start"]);
        if !st.is_empty() {
            self.ctx.ins(open.end, format!("\n{st}"));
        }
        let en = self.proofs(&["loop", &ns, "end"]);
        if !en.is_empty() {
            self.ctx.ins(close.start, format!("{}\n{en}", semi(body)));
        }
        let af = self.proofs(&["loop", &ns, "after"]);
        let be = self.proofs(&["loop", &ns, "before"]);
        let stmt = self.stmt_stack.last().cloned().unwrap_or(whole);
        if !be.is_empty() {
            self.ctx.ins(stmt.start, format!("\n{be}"));
        }
        if !af.is_empty() {
            self.ctx.ins(stmt.end, format!("\n{af}"));
        }
    }
    fn call(&mut self, name: &str) {
        self.calls.push(name.to_string());
        let k = self.callcount.entry(name.to_string()).or_default();
        let n = *k;
        *k += 1;
        let ns = n.to_string();
        let Some(stmt) = self.stmt_stack.last().cloned() else { return };
        let mut b = self.proofs(&["before_call", name, &ns]);
        b.push_str(&self.proofs(&["before_call", name, "*"]));
        let mut a = self.proofs(&["after_call", name, &ns]);
        a.push_str(&self.proofs(&["after_call", name, "*"]));
        if !b.is_empty() {
            self.ctx.ins(stmt.start, format!("\n{b}"));
        }
        if !a.is_empty() {
            self.ctx.ins(stmt.end, format!("\n{a}"));
        }
    }
}

/// is the receiver of this `map` or `and_then` certainly an `Option`?
fn opt_chain(m: &syn::ExprMethodCall, parent: bool) -> bool {
    if parent {
        return true;
    }
    match &*m.receiver {
        syn::Expr::MethodCall(r) => {
            let n = r.method.to_string();
            matches!(n.as_str(), "as_ref" | "peek" | "get" | "extension" | "first" | "last" | "and_then" | "as_include")
        }
        _ => false,
    }
}

fn escapes(e: &syn::Expr) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

/// Methods of the standard library that a function of the specification library stands for.
fn std_method(m: &syn::ExprMethodCall) -> Option<(&'static str, &syn::Expr, Vec<Result<&syn::Expr, String>>)> {
    let lit = |a: &syn::Expr, ch: bool| match a {
        syn::Expr::Lit(l) => match l.lit {
            syn::Lit::Char(_) => ch,
            syn::Lit::Str(_) => !ch,
            _ => false,
        },
        _ => false,
    };
    let name = m.method.to_string();
    let one = m.args.len() == 1;
    match name.as_str() {
        "parse" if m.args.is_empty() => {
            let f = match norm(m.turbofish.as_ref()?).replace(' ', "").as_str() {
                "::<u32>" => "parse_u32",
                "::<u64>" => "parse_u64",
                _ => return None,
            };
            Some((f, &m.receiver, vec![]))
        }
        "starts_with" if one && lit(&m.args[0], true) => Some(("starts_ch", &m.receiver, vec![Ok(&m.args[0])])),
        "starts_with" if one && lit(&m.args[0], false) => Some(("starts_str", &m.receiver, vec![Ok(&m.args[0])])),
        "split_once" if one && lit(&m.args[0], true) => Some(("split_once", &m.receiver, vec![Ok(&m.args[0])])),
        "split" if one && lit(&m.args[0], true) => Some(("split_str", &m.receiver, vec![Ok(&m.args[0])])),
        "count" | "tuples" if m.args.is_empty() => match &*m.receiver {
            syn::Expr::MethodCall(i) if i.args.is_empty() && name == "count" && i.method == "encode_utf16" => {
                Some(("u16_count", &i.receiver, vec![]))
            }
            syn::Expr::MethodCall(i) if i.args.is_empty() && name == "tuples" && i.method == "chars" => {
                Some(("char_pairs", &i.receiver, vec![]))
            }
            _ => None,
        },
        _ => None,
    }
}

fn str_lits(p: &syn::Pat) -> Option<Vec<Range<usize>>> {
    match p {
        syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => Some(vec![l.span().byte_range()]),
        syn::Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_lits(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}

impl<'ast> Visit<'ast> for Body<'_, '_> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        self.stmt_stack.push(s.span().byte_range());
        let mut skip = false;
        if let syn::Stmt::Local(l) = s {
            // `let f = |x: T| -> U { .. self .. };` is inlined at its calls
            if let (syn::Pat::Ident(name), Some(init)) = (&l.pat, &l.init) {
                if let syn::Expr::Closure(cl) = &*init.expr {
                    if norm(&cl.body).contains("self .") {
                        let params = cl
                            .inputs
                            .iter()
                            .map(|p| match p {
                                syn::Pat::Type(t) => (norm(&t.pat), format!(": {}", norm(&t.ty))),
                                p => (norm(p), String::new()),
                            })
                            .collect();
                        self.inline
                            .insert(name.ident.to_string(), (params, cl.body.span().byte_range()));
                        self.ctx.rep(s.span().byte_range(), "");
                        self.report.rewrites.push(format!(
                            "{}: closure `{}` inlined at its calls (Verus has no closures that capture a mutable reference)",
                            self.key, name.ident
                        ));
                        self.visit_expr(&cl.body);
                        skip = true;
                    }
                }
            }
            if let Some(init) = &l.init {
                if !skip && init.diverge.is_none() || true {
                    let mut names = vec![];
                    pat_idents(&l.pat, &mut names);
                    for n in names {
                        let k = self.lets.entry(n.clone()).or_default();
                        let ord = k.to_string();
                        *k += 1;
                        let t = self.proofs(&["after_let", &n, &ord]);
                        if !t.is_empty() {
                            self.ctx.ins(s.span().byte_range().end, format!("\n{t}"));
                        }
                    }
                    let _ = init;
                }
            }
        }
        if !skip {
            syn::visit::visit_stmt(self, s);
        }
        self.stmt_stack.pop();
    }

    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::Closure(cl) => {
                for (k, p) in cl.inputs.iter().enumerate() {
                    if let syn::Pat::Wild(w) = p {
                        self.ctx.rep(w.span().byte_range(), format!("_w{k}__"));
                    }
                }
                if cl.output == syn::ReturnType::Default && pure_pred(&cl.body) {
                    let r = cl.body.span().byte_range();
                    let spec = self.ctx.src[r.clone()].replace(".is_ascii_", ".spec_is_ascii_");
                    self.ctx.edits.push(Edit {
                        range: r.clone(),
                        parts: vec![
                            Part::T(format!(" -> (r__: bool) ensures r__ == ({spec}) {{ ")),
                            Part::S(r),
                            Part::T(" }".into()),
                        ],
                    });
                    self.report.rewrites.push(format!(
                        "{}: closure `{}` annotated with its own body as postcondition",
                        self.key,
                        norm(cl)
                    ));
                    return;
                }
            }
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    if let Some(id) = p.path.get_ident() {
                        if let Some((params, body)) = self.inline.get(&id.to_string()) {
                            if params.len() == c.args.len() {
                                let mut parts = vec![Part::T("{ ".into())];
                                for ((n, t), a) in params.iter().zip(&c.args) {
                                    parts.push(Part::T(format!("let {n}{t} = ")));
                                    parts.push(Part::S(a.span().byte_range()));
                                    parts.push(Part::T("; ".into()));
                                }
                                parts.push(Part::S(body.clone()));
                                parts.push(Part::T(" }".into()));
                                self.ctx.edits.push(Edit { range: e.span().byte_range(), parts });
                            }
                        }
                    }
                    let name = p.path.segments.last().unwrap().ident.to_string();
                    syn::visit::visit_expr(self, e);
                    self.call(&name);
                    return;
                }
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "expect" && m.args.len() == 1 && norm(&m.args[0]).contains("format !") {
                    self.ctx.rep(m.args[0].span().byte_range(), "\"\"");
                    self.report.rewrites.push(format!("{}: panic message of `expect` dropped", self.key));
                    self.visit_expr(&m.receiver);
                    return;
                }
                if (name == "map" || name == "and_then") && m.args.len() == 1 && opt_chain(m, self.opt_parent) {
                    // Option::map and Option::and_then with a closure or a function
                    let recv = m.receiver.span().byte_range();
                    let pair = match &m.args[0] {
                        syn::Expr::Closure(cl)
                            if cl.inputs.len() == 1 && !escapes(&cl.body) =>
                        {
                            let p = match &cl.inputs[0] {
                                syn::Pat::Type(t) => t.pat.span().byte_range(),
                                p => p.span().byte_range(),
                            };
                            Some((Part::S(p), vec![Part::S(cl.body.span().byte_range())]))
                        }
                        syn::Expr::Path(p) => Some((
                            Part::T("x__".into()),
                            vec![Part::S(p.span().byte_range()), Part::T("(x__)".into())],
                        )),
                        _ => None,
                    };
                    if let Some((pat, body)) = pair {
                        let mut parts = vec![
                            Part::T("(match ".into()),
                            Part::S(recv),
                            Part::T(" { Some(".into()),
                            pat,
                            Part::T(") => ".into()),
                        ];
                        if name == "map" {
                            parts.push(Part::T("Some(".into()));
                        } else {
                            parts.push(Part::T("{ ".into()));
                        }
                        parts.extend(body);
                        parts.push(Part::T(if name == "map" { ")".into() } else { " }".into() }));
                        parts.push(Part::T(", None => None })".into()));
                        self.ctx.edits.push(Edit { range: e.span().byte_range(), parts });
                        self.report.rewrites.push(format!("{}: Option::{name} expanded into a match", self.key));
                        self.visit_expr(&m.receiver);
                        match &m.args[0] {
                            syn::Expr::Closure(cl) => self.visit_expr(&cl.body),
                            a => self.visit_expr(a),
                        }
                        return;
                    }
                }
                if name.starts_with("unwrap_or") {
                    let old = std::mem::replace(&mut self.opt_parent, true);
                    self.visit_expr(&m.receiver);
                    self.opt_parent = old;
                    for a in &m.args {
                        self.visit_expr(a);
                    }
                    self.call(&name);
                    return;
                }
                if name == "as_ref" {
                    // X.get_or_insert_with(|| E).as_ref()
                    if let syn::Expr::MethodCall(g) = &*m.receiver {
                        if g.method == "get_or_insert_with" && g.args.len() == 1 {
                            if let syn::Expr::Closure(cl) = &g.args[0] {
                                if cl.inputs.is_empty() {
                                    let x = g.receiver.span().byte_range();
                                    let b = cl.body.span().byte_range();
                                    self.ctx.edits.push(Edit {
                                        range: e.span().byte_range(),
                                        parts: vec![
                                            Part::T("{ if (".into()),
                                            Part::S(x.clone()),
                                            Part::T(").is_none() { ".into()),
                                            Part::S(x.clone()),
                                            Part::T(" = Some(".into()),
                                            Part::S(b),
                                            Part::T("); } ".into()),
                                            Part::S(x),
                                            Part::T(".as_ref().unwrap().as_ref() }".into()),
                                        ],
                                    });
                                    self.report.rewrites.push(format!(
                                        "{}: `X.get_or_insert_with(|| E).as_ref()` expanded",
                                        self.key
                                    ));
                                }
                            }
                        }
                    }
                }
                if let Some((f, recv, args)) = std_method(m) {
                    let mut parts = vec![Part::T(format!("crate::spec::{f}(&(")), Part::S(recv.span().byte_range()), Part::T(")".into())];
                    for a in args {
                        parts.push(Part::T(", ".into()));
                        parts.push(match a {
                            Ok(a) => Part::S(a.span().byte_range()),
                            Err(t) => Part::T(t),
                        });
                    }
                    parts.push(Part::T(")".into()));
                    self.ctx.edits.push(Edit { range: e.span().byte_range(), parts });
                    self.report.rewrites.push(format!("{}: `{}` calls the specified function {f}", self.key, norm(e)));
                }
                syn::visit::visit_expr(self, e);
                self.call(&name);
                return;
            }
            syn::Expr::Reference(r) => {
                // &X.as_str()[n..]
                if let syn::Expr::Index(ix) = &*r.expr {
                    if let (syn::Expr::MethodCall(m), syn::Expr::Range(rg)) = (&*ix.expr, &*ix.index) {
                        if let (true, Some(syn::Expr::Lit(n)), None) = (m.method == "as_str", rg.start.as_deref(), rg.end.as_deref()) {
                            self.ctx.edits.push(Edit {
                                range: e.span().byte_range(),
                                parts: vec![
                                    Part::T("crate::spec::behind(&(".into()),
                                    Part::S(m.receiver.span().byte_range()),
                                    Part::T("), ".into()),
                                    Part::S(n.span().byte_range()),
                                    Part::T(")".into()),
                                ],
                            });
                            self.report.rewrites.push(format!("{}: `{}` calls the specified function behind", self.key, norm(e)));
                        }
                    }
                }
            }
            syn::Expr::Macro(m) => {
                self.mac(&m.mac, e.span().byte_range());
                return;
            }
            syn::Expr::Loop(l) => {
                let n = self.loops;
                self.loops += 1;
                self.loop_common(n, &l.body, e.span().byte_range());
                let st = self.stmt_stack.len();
                let _ = st;
            }
            syn::Expr::While(l) => {
                let n = self.loops;
                self.loops += 1;
                self.loop_common(n, &l.body, e.span().byte_range());
            }
            syn::Expr::ForLoop(l) => {
                let n = self.loops;
                self.loops += 1;
                if self.c.map_or(false, |c| c.loops.contains_key(&n)) {
                    // for PAT in EXPR { B }  =>  index loop over the slice
                    let mut it = &*l.expr;
                    let mut parts_expr = it.span().byte_range();
                    let mut pre = "&";
                    if let syn::Expr::Reference(_) = it {
                        pre = "";
                    } else if let syn::Expr::MethodCall(m) = it {
                        if m.method == "iter" && m.args.is_empty() {
                            it = &m.receiver;
                            parts_expr = it.span().byte_range();
                        }
                    }
                    // plain paths that are already references (parameters) need no `&`
                    if let syn::Expr::Path(_) = it {
                        pre = "";
                    }
                    let inv = self.c.unwrap().loops.get(&n).unwrap().clone();
                    let ns = n.to_string();
                    let st = self.proofs(&["loop", &ns, "start"]);
                    let en = self.proofs(&["loop", &ns, "end"]);
                    let af = self.proofs(&["loop", &ns, "after"]);
                    let be = self.proofs(&["loop", &ns, "before"]);
                    let open = l.body.brace_token.span.open().byte_range();
                    let close = l.body.brace_token.span.close().byte_range();
                    let whole = e.span().byte_range();
                    self.ctx.edits.push(Edit {
                        range: whole.start..open.end,
                        parts: vec![
                            Part::T(format!("{{ let seq__{n} = {pre}")),
                            Part::S(parts_expr),
                            Part::T(format!(
                                "; let mut i__{n}: usize = 0;\n{be}\nwhile i__{n} < seq__{n}.len()\n{inv}\n{{ let "
                            )),
                            Part::S(l.pat.span().byte_range()),
                            Part::T(format!(" = &seq__{n}[i__{n}]; i__{n} = i__{n} + 1;\n{st}")),
                        ],
                    });
                    self.ctx.edits.push(Edit {
                        range: close.start..close.end,
                        parts: vec![Part::T(format!("{}\n{en}\n}}\n{af}\n}}", if en.is_empty() { "" } else { semi(&l.body) }))],
                    });
                    self.report.rewrites.push(format!(
                        "{}: `for` loop {n} over a slice rewritten into an index loop",
                        self.key
                    ));
                    self.visit_expr(&l.expr);
                    self.visit_block(&l.body);
                    return;
                }
            }
            syn::Expr::Match(m) => {
                // match on string literals => if/else chain
                let lits: Vec<_> = m.arms.iter().map(|a| str_lits(&a.pat)).collect();
                let n = lits.len();
                let simple = n >= 2
                    && lits[..n - 1].iter().all(|l| l.is_some())
                    && lits[n - 1].is_none()
                    && m.arms.iter().all(|a| a.guard.is_none());
                if simple {
                    let mut parts = vec![
                        Part::T("{ let str__ = ".into()),
                        Part::S(m.expr.span().byte_range()),
                        Part::T("; ".into()),
                    ];
                    for (a, l) in m.arms.iter().zip(&lits) {
                        match l {
                            Some(ls) => {
                                parts.push(Part::T("if ".into()));
                                for (k, r) in ls.iter().enumerate() {
                                    if k > 0 {
                                        parts.push(Part::T(" || ".into()));
                                    }
                                    parts.push(Part::T("str__ == ".into()));
                                    parts.push(Part::S(r.clone()));
                                }
                                parts.push(Part::T(" { ".into()));
                                parts.push(Part::S(a.body.span().byte_range()));
                                parts.push(Part::T(" } else ".into()));
                            }
                            None => {
                                parts.push(Part::T("{ ".into()));
                                if !matches!(a.pat, syn::Pat::Wild(_)) {
                                    parts.push(Part::T("let ".into()));
                                    parts.push(Part::S(a.pat.span().byte_range()));
                                    parts.push(Part::T(" = str__; ".into()));
                                }
                                parts.push(Part::S(a.body.span().byte_range()));
                                parts.push(Part::T(" }".into()));
                            }
                        }
                    }
                    parts.push(Part::T(" }".into()));
                    self.ctx.edits.push(Edit { range: e.span().byte_range(), parts });
                    self.report.rewrites.push(format!(
                        "{}: match on string literals expanded into an if/else chain",
                        self.key
                    ));
                }
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }

    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        self.mac(&m.mac, m.mac.span().byte_range());
    }

    fn visit_item(&mut self, i: &'ast syn::Item) {
        if let syn::Item::Fn(f) = i {
            if self.lifted.contains(&f.sig.ident.to_string()) {
                self.ctx.rep(f.span().byte_range(), "");
            }
        }
    }
}

impl Body<'_, '_> {
    fn mac(&mut self, m: &syn::Macro, range: Range<usize>) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        use syn::punctuated::Punctuated;
        let args = m.parse_body_with(Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
        match name.as_str() {
            "debug_assert" | "assert" => {
                if let Ok(a) = args {
                    let r = a[0].span().byte_range();
                    self.ctx.edits.push(Edit {
                        range: m.span().byte_range(),
                        parts: vec![
                            Part::T("crate::spec::debug_check(".into()),
                            Part::S(r),
                            Part::T(")".into()),
                        ],
                    });
                    self.report.rewrites.push(format!("{}: {name}! turned into an obligation", self.key));
                }
            }
            "enum_map" => {
                // EnumMap::from_fn(|k| match k { arms }), as the macro is defined
                let t = m.tokens.to_string();
                self.ctx.rep(
                    range,
                    format!("crate::spec::EnumMap::from_fn(|k__: ErrorCode| -> (r__: Severity) ensures r__ == (match k__ {{ {t} }}) {{ match k__ {{ {t} }} }})"),
                );
                self.report.rewrites.push(format!("{}: enum_map! replaced by from_fn with a closure over its arms", self.key));
            }
            "format" | "write" | "writeln" if self.c.map_or(false, |c| c.flags.iter().any(|f| f == "text")) => {
                match args.ok().and_then(|a| self.text_mac(&name, &a)) {
                    Some(parts) => {
                        self.ctx.edits.push(Edit { range, parts });
                        self.report.rewrites.push(format!("{}: {name}! expanded into calls of `write_str` and `Display::fmt`", self.key));
                    }
                    None => self.report.lost.push(format!("{}: {name}! cannot be expanded", self.key)),
                }
            }
            "format" => {
                self.ctx.rep(range, "crate::spec::fmt_opaque()");
                self.report.rewrites.push(format!("{}: format! replaced by an unspecified string", self.key));
            }
            "matches" => {
                // the scrutinee is the first expression
                let mut toks = vec![];
                flat(m.tokens.clone(), &mut toks);
                for w in toks.windows(2) {
                    if w[1].0 == "(" && w[0].0.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        self.calls.push(w[0].0.clone());
                    }
                }
            }
            _ => {}
        }
    }
}

impl Body<'_, '_> {
    /// `write!(f, "a{}b", x)` writes the pieces one after the other and stops at the first error
    fn text_mac(&mut self, name: &str, args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) -> Option<Vec<Part>> {
        let mut it = args.iter();
        let target = if name == "format" { None } else { Some(it.next()?.span().byte_range()) };
        let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(lit), .. }) = it.next()? else { return None };
        let mut text = lit.value();
        if name == "writeln" {
            text.push('\n');
        }
        let rest: Vec<&syn::Expr> = it.collect();
        let mut next = 0;
        // (literal, argument)
        let mut pieces: Vec<(bool, String, Option<Range<usize>>)> = vec![];
        let mut cur = String::new();
        let mut ch = text.chars().peekable();
        while let Some(c) = ch.next() {
            match c {
                '{' if ch.peek() == Some(&'{') => {
                    ch.next();
                    cur.push('{');
                }
                '}' if ch.peek() == Some(&'}') => {
                    ch.next();
                    cur.push('}');
                }
                '{' => {
                    let mut inner = String::new();
                    loop {
                        match ch.next()? {
                            '}' => break,
                            c => inner.push(c),
                        }
                    }
                    if !cur.is_empty() {
                        pieces.push((true, std::mem::take(&mut cur), None));
                    }
                    if inner.is_empty() {
                        pieces.push((false, String::new(), Some(rest.get(next)?.span().byte_range())));
                        next += 1;
                    } else if inner.chars().all(|c| c.is_alphanumeric() || c == '_') && !inner.starts_with(|c: char| c.is_ascii_digit()) {
                        pieces.push((false, inner, None));
                    } else {
                        return None;
                    }
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() || pieces.is_empty() {
            pieces.push((true, cur, None));
        }
        if next != rest.len() {
            return None;
        }
        let mut out = vec![];
        let t = |s: &str| Part::T(s.to_string());
        let to = |out: &mut Vec<Part>| match &target {
            Some(r) => out.push(Part::S(r.clone())),
            None => out.push(t("&mut f__")),
        };
        if target.is_none() {
            out.push(t("{ let mut f__ = crate::fmt::Formatter::fresh(); let r__ = "));
        }
        let n = pieces.len();
        for (k, (is_lit, s, a)) in pieces.into_iter().enumerate() {
            if k + 1 < n {
                out.push(t("match "));
            }
            if is_lit {
                out.push(t("crate::fmt::put("));
                to(&mut out);
                out.push(Part::T(format!(", {})", proc_macro2::Literal::string(&s))));
            } else {
                out.push(t("crate::fmt::Display::fmt(&("));
                match a {
                    Some(r) => out.push(Part::S(r)),
                    None => out.push(Part::T(s)),
                }
                out.push(t("), "));
                to(&mut out);
                out.push(t(")"));
            }
            if k + 1 < n {
                out.push(t(" { Ok(()) => "));
            }
        }
        for _ in 1..n {
            out.push(t(", Err(e__) => Err(e__) }"));
        }
        if target.is_none() {
            out.push(t("; crate::fmt::done(r__, f__) }"));
        }
        Some(out)
    }
}

fn pat_idents(p: &syn::Pat, out: &mut Vec<String>) {
    struct V<'a>(&'a mut Vec<String>);
    impl<'ast> Visit<'ast> for V<'_> {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            self.0.push(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    V(out).visit_pat(p);
}

struct FnParts<'a> {
    attrs: &'a [syn::Attribute],
    sig: &'a syn::Signature,
    block: Option<&'a syn::Block>,
    whole: Range<usize>,
    semi: Option<Range<usize>>,
    public: bool,
}

fn render_fn(
    src: &str,
    m: &Module,
    key: &str,
    f: FnParts<'_>,
    stubs: &[String],
    report: &mut Report,
) -> Option<Chunk> {
    let fullkey = format!("{}/{}", m.path, key);
    let c = m.fns.get(key);
    if let Some(c) = c {
        c.used.set(true);
    }
    let mut stub = stubs.iter().any(|s| *s == fullkey);
    let mut trusted = c.map_or(false, |c| c.trusted.is_some());
    let mut ctx = Ctx { src, edits: vec![] };
    for a in f.attrs {
        ctx.rep(a.span().byte_range(), "");
    }
    let fn_start = f.sig.span().byte_range().start;
    let mut ret_done = false;
    if let (Some(name), syn::ReturnType::Type(_, ty)) =
        (c.and_then(|c| c.ret.clone()), &f.sig.output)
    {
        let r = ty.span().byte_range();
        ctx.ins(r.start, format!("({name}: "));
        ctx.ins(r.end, ")");
        ret_done = true;
    }
    let _ = ret_done;
    let spec = c.map(|c| c.spec.clone()).unwrap_or_default();
    let mut body_text = String::new();
    let kind;
    if let Some(b) = f.block {
        let mut toks = vec![];
        flat(f.sig.to_token_stream(), &mut toks);
        flat(b.to_token_stream(), &mut toks);
        // token rewrites; if one of them got lost, the function can not be verified as it stands
        let mut rw = true;
        if let Some(c) = c {
            rw &= apply_rewrites(&toks, &c.rewrites, &mut ctx, &fullkey, report, true);
        }
        for (k, t) in c.map(|c| &c.expects[..]).unwrap_or(&[]) {
            let mut want = vec![];
            flat(t.parse().expect("expected text"), &mut want);
            let want: Vec<String> = want.into_iter().map(|x| x.0).collect();
            if m.bodies.borrow().get(k) != Some(&want) {
                report.lost.push(format!("{fullkey}: `{k}` is not the function relied on"));
                rw = false;
            }
        }
        apply_rewrites(&toks, &m.rewrites, &mut ctx, &fullkey, report, false);
        if !rw {
            stub = true;
        }
        let mut v = Body {
            ctx: &mut ctx,
            c,
            key: fullkey.clone(),
            loops: 0,
            report,
            calls: vec![],
            inline: BTreeMap::new(),
            lets: BTreeMap::new(),
            callcount: BTreeMap::new(),
            stmt_stack: vec![],
            used_proofs: vec![],
            opt_parent: false,
            lifted: m.fns.keys().filter_map(|k| k.strip_prefix(&format!("{key}::")).map(|x| x.to_string())).collect(),
        };
        let start = v.proofs(&["body_start"]);
        let end = v.proofs(&["body_end"]);
        v.visit_block(b);
        let calls = v.calls.clone();
        let calls2 = calls.clone();
        let used = v.used_proofs.clone();
        let nloops = v.loops;
        if let Some(c) = c {
            for (i, (a, _)) in c.proofs.iter().enumerate() {
                if !used.contains(&i) {
                    report.lost.push(format!("{fullkey}: proof anchor `{}`", a.join(" ")));
                }
            }
            for k in c.loops.keys() {
                if *k >= nloops {
                    report.lost.push(format!("{fullkey}: loop {k}"));
                }
            }
        }
        report.calls.push((fullkey.clone(), calls));
        let open = b.brace_token.span.open().byte_range();
        let close = b.brace_token.span.close().byte_range();
        let mut start = start;
        let std = c.map_or(false, |c| c.flags.iter().any(|f| f == "std"))
            || (c.is_some() && calls2.iter().any(|n| n == "into" || n == "from"));
        if std {
            start = format!("    proof {{ crate::spec::std_facts(); }}\n{start}");
        }
        if c.is_some() && std::env::var("EXTRACT_CANARY").is_ok() {
            // reachability check: with a contradictory precondition or axiom this would be accepted
            start = format!("{start}    proof {{ assert(false); }}\n");
        }
        if !start.is_empty() {
            ctx.ins(open.end, format!("\n{start}"));
        }
        if !end.is_empty() {
            let at = match b.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) => e.span().byte_range().start,
                _ => close.start,
            };
            ctx.ins(at, format!("\n{end}"));
        }
        let sig_text = ctx.render(fn_start..open.start, None);
        let br = open.start..close.end;
        let rendered = ctx.render(br, None);
        let mut attrs = String::new();
        if let Some(c) = c {
            for a in &c.attrs {
                attrs.push_str(a);
                attrs.push('\n');
            }
        }
        if stub || trusted {
            body_text.push_str("#[verifier::external_body]\n");
        }
        body_text.push_str(&attrs);
        if f.public {
            body_text.push_str("pub ");
        }
        body_text.push_str(sig_text.trim_end());
        body_text.push('\n');
        body_text.push_str(&spec);
        if stub || trusted {
            body_text.push_str("{ unimplemented!() }\n");
        } else {
            body_text.push_str(&rendered);
            body_text.push('\n');
        }
    } else {
        let end = f.semi.clone().map(|s| s.start).unwrap_or(f.whole.end);
        let sig_text = ctx.render(fn_start..end, None);
        body_text.push_str(sig_text.trim_end());
        body_text.push('\n');
        body_text.push_str(&spec);
        body_text.push_str(";\n");
        trusted = false;
    }
    if trusted {
        report.trusted.push(format!("{fullkey}: {}", c.unwrap().trusted.clone().unwrap()));
        kind = "trusted";
    } else if stub {
        kind = "stub";
    } else if c.is_some() {
        report.contracted.push(fullkey.clone());
        kind = "fn";
    } else {
        report.uncontracted.push(fullkey.clone());
        kind = "free";
    }
    let repo_line = f.sig.fn_token.span.start().line;
    Some(Chunk { key: fullkey, kind: kind.into(), file: m.file.clone(), repo_line, text: body_text })
}

fn flatten_use(t: &syn::UseTree, prefix: &str, out: &mut Vec<(String, Option<String>)>) {
    let j = |a: &str, b: &str| if a.is_empty() { b.to_string() } else { format!("{a}::{b}") };
    match t {
        syn::UseTree::Path(p) => flatten_use(&p.tree, &j(prefix, &p.ident.to_string()), out),
        syn::UseTree::Name(n) if n.ident == "self" => out.push((prefix.to_string(), None)),
        syn::UseTree::Name(n) => out.push((j(prefix, &n.ident.to_string()), None)),
        syn::UseTree::Rename(r) => {
            out.push((j(prefix, &r.ident.to_string()), Some(r.rename.to_string())))
        }
        syn::UseTree::Glob(_) => out.push((j(prefix, "*"), None)),
        syn::UseTree::Group(g) => {
            for t in &g.items {
                flatten_use(t, prefix, out)
            }
        }
    }
}

fn glob_match(pat: &str, s: &str) -> bool {
    match pat.strip_suffix('*') {
        Some(p) => s.starts_with(p),
        None => pat == s,
    }
}

pub fn module(
    repo: &str,
    m: &Module,
    stubs: &[String],
    cmd_drops: &[String],
    report: &mut Report,
) -> Vec<Chunk> {
    let mut out = vec![];
    let mut head = String::from("use vstd::prelude::*;\n");
    for u in &m.uses {
        head.push_str(&format!("use {u};\n"));
    }
    let mut chunks: Vec<Chunk> = vec![];
    if !m.file.is_empty() {
        let path = format!("{repo}/{}", m.file);
        let src = match std::fs::read_to_string(&path) {
            Ok(s) => s,
            Err(_) => {
                report.lost.push(format!("{}: file {} is missing", m.path, m.file));
                String::new()
            }
        };
        match syn::parse_file(&src) {
            Ok(file) => {
                for i in &file.items {
                    let mut put = |k: String, b: &syn::Block| {
                        let mut t = vec![];
                        flat(b.stmts.iter().map(|s| s.to_token_stream()).collect(), &mut t);
                        m.bodies.borrow_mut().insert(k, t.into_iter().map(|x| x.0).collect());
                    };
                    match i {
                        syn::Item::Fn(f) => put(f.sig.ident.to_string(), &f.block),
                        syn::Item::Impl(im) => {
                            let ty = key_of(&im.self_ty);
                            let ty = ty.split('<').next().unwrap().to_string();
                            for x in &im.items {
                                if let syn::ImplItem::Fn(f) = x {
                                    put(match &im.trait_ {
                                        Some((_, p, _)) => format!("<{ty} as {}>::{}", key_of(p), f.sig.ident),
                                        None => format!("{ty}::{}", f.sig.ident),
                                    }, &f.block);
                                }
                            }
                        }
                        _ => {}
                    }
                }
                items(&src, m, &file.items, stubs, cmd_drops, report, &mut head, &mut chunks)
            }
            Err(e) => report.lost.push(format!("{}: cannot parse: {e}", m.file)),
        }
    }
    out.push(Chunk::glue(head));
    out.push(Chunk::glue("verus! {\n".into()));
    for (i, t) in m.texts.iter().enumerate() {
        out.push(Chunk {
            key: format!("{}#text{}", m.vc, i),
            kind: "spec".into(),
            file: m.vc.clone(),
            repo_line: 0,
            text: t.clone(),
        });
    }
    out.extend(chunks);
    out.push(Chunk::glue("} // verus!\n".into()));
    for (k, c) in &m.fns {
        if !c.used.get() {
            report.missing.push(format!("{}/{k}", m.path));
        }
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn items(
    src: &str,
    m: &Module,
    its: &[syn::Item],
    stubs: &[String],
    cmd_drops: &[String],
    report: &mut Report,
    head: &mut String,
    chunks: &mut Vec<Chunk>,
) {
    let dropped = |key: &str| {
        m.drops.iter().any(|d| glob_match(d, key))
            || cmd_drops.iter().any(|d| *d == format!("{}/{key}", m.path))
            || (!m.only.is_empty() && !m.only.iter().any(|d| glob_match(d, key)))
    };
    for it in its {
        match it {
            syn::Item::Use(u) => {
                if is_test_cfg(&u.attrs) {
                    continue;
                }
                let mut v = vec![];
                flatten_use(&u.tree, "", &mut v);
                for (mut p, alias) in v {
                    let full = match &alias {
                        Some(a) => format!("{p} as {a}"),
                        None => p.clone(),
                    };
                    if m.dropuse.iter().any(|d| glob_match(d, &p) || glob_match(d, &full))
                        || cmd_drops.iter().any(|d| *d == format!("{}/use {p}", m.path))
                    {
                        continue;
                    }
                    for (a, b) in &m.mapuse {
                        if p == *a || p.starts_with(&format!("{a}::")) {
                            p = format!("{b}{}", &p[a.len()..]);
                            break;
                        }
                    }
                    match alias {
                        Some(a) => head.push_str(&format!("use {p} as {a};\n")),
                        None => head.push_str(&format!("use {p};\n")),
                    }
                }
            }
            syn::Item::Struct(s) => {
                if is_test_cfg(&s.attrs) || dropped(&format!("struct {}", s.ident)) {
                    report.drops.push(format!("{}/struct {}", m.path, s.ident));
                    continue;
                }
                let mut ctx = Ctx { src, edits: vec![] };
                for a in &s.attrs {
                    ctx.rep(a.span().byte_range(), "");
                }
                for f in &s.fields {
                    for a in &f.attrs {
                        ctx.rep(a.span().byte_range(), "");
                    }
                    if !matches!(f.vis, syn::Visibility::Inherited) {
                        ctx.rep(f.vis.span().byte_range(), "pub");
                    } else if let Some(id) = &f.ident {
                        ctx.ins(id.span().byte_range().start, "pub ");
                    } else {
                        ctx.ins(f.ty.span().byte_range().start, "pub ");
                    }
                }
                let start = s.struct_token.span.byte_range().start;
                let end = s.span().byte_range().end;
                let names: Vec<(String, String)> = s
                    .fields
                    .iter()
                    .map(|f| {
                        (f.ident.as_ref().map(|i| i.to_string()).unwrap_or("0".into()), norm(&f.ty))
                    })
                    .collect();
                let mut ts = vec![];
                flat(s.to_token_stream(), &mut ts);
                apply_rewrites(&ts, &m.rewrites, &mut ctx, &format!("{}/struct {}", m.path, s.ident), report, false);
                type_item(
                    src, m, &s.ident.to_string(), &s.generics, &s.attrs,
                    ctx.render(start..end, None), &names, None, report, chunks,
                    s.struct_token.span.start().line,
                );
            }
            syn::Item::Enum(s) => {
                if is_test_cfg(&s.attrs) || dropped(&format!("enum {}", s.ident)) {
                    report.drops.push(format!("{}/enum {}", m.path, s.ident));
                    continue;
                }
                let mut ctx = Ctx { src, edits: vec![] };
                let mut default = None;
                for a in &s.attrs {
                    ctx.rep(a.span().byte_range(), "");
                }
                for v in &s.variants {
                    for a in &v.attrs {
                        if a.path().is_ident("default") {
                            default = Some(v.ident.to_string());
                        }
                        ctx.rep(a.span().byte_range(), "");
                    }
                }
                let start = s.enum_token.span.byte_range().start;
                let end = s.span().byte_range().end;
                let mut ts = vec![];
                flat(s.to_token_stream(), &mut ts);
                apply_rewrites(&ts, &m.rewrites, &mut ctx, &format!("{}/enum {}", m.path, s.ident), report, false);
                type_item(
                    src, m, &s.ident.to_string(), &s.generics, &s.attrs,
                    ctx.render(start..end, None), &[], default, report, chunks,
                    s.enum_token.span.start().line,
                );
            }
            syn::Item::Type(t) => {
                if dropped(&format!("type {}", t.ident)) {
                    continue;
                }
                let start = t.type_token.span.byte_range().start;
                let end = t.span().byte_range().end;
                chunks.push(Chunk::glue(format!("pub {}\n", &src[start..end])));
            }
            syn::Item::Fn(f) => {
                let key = f.sig.ident.to_string();
                if is_test_cfg(&f.attrs) || dropped(&key) {
                    report.drops.push(format!("{}/{key}", m.path));
                    continue;
                }
                let parts = FnParts {
                    attrs: &f.attrs, sig: &f.sig, block: Some(&f.block),
                    whole: f.span().byte_range(), semi: None, public: true,
                };
                chunks.extend(render_fn(src, m, &key, parts, stubs, report));
                nested(src, m, &key, &f.block, stubs, cmd_drops, report, head, chunks);
            }
            syn::Item::Trait(t) => {
                let tkey = format!("trait {}", t.ident);
                if is_test_cfg(&t.attrs) || dropped(&tkey) {
                    report.drops.push(format!("{}/{tkey}", m.path));
                    continue;
                }
                let open = t.brace_token.span.open().byte_range();
                let header = &src[t.trait_token.span.byte_range().start..open.start];
                chunks.push(Chunk::glue(format!("pub {header} {{\n")));
                if let Some(x) = m.inside.get(&tkey) {
                    chunks.push(Chunk::glue(x.clone()));
                }
                for i in &t.items {
                    if let syn::TraitItem::Fn(f) = i {
                        let key = format!("{}::{}", t.ident, f.sig.ident);
                        if is_test_cfg(&f.attrs) || dropped(&key) {
                            report.drops.push(format!("{}/{key}", m.path));
                            continue;
                        }
                        let parts = FnParts {
                            attrs: &f.attrs, sig: &f.sig, block: f.default.as_ref(),
                            whole: f.span().byte_range(),
                            semi: f.semi_token.map(|s| s.span.byte_range()), public: false,
                        };
                        chunks.extend(render_fn(src, m, &key, parts, stubs, report));
                    } else {
                        report.drops.push(format!("{}/{tkey} item {}", m.path, norm(i)));
                    }
                }
                chunks.push(Chunk::glue("}\n".into()));
            }
            syn::Item::Impl(im) => {
                let ty = key_of(&im.self_ty);
                let tyname = ty.split('<').next().unwrap().to_string();
                let trait_key = im.trait_.as_ref().map(|(_, p, _)| key_of(p));
                let mut bkey = match &trait_key {
                    Some(t) => format!("impl {t} for {ty}"),
                    None => format!("impl {ty}"),
                };
                if is_test_cfg(&im.attrs) || dropped(&bkey) {
                    report.drops.push(format!("{}/{bkey}", m.path));
                    continue;
                }
                let inherent = m.inherent.iter().any(|d| glob_match(d, &bkey));
                let open = im.brace_token.span.open().byte_range();
                let header = if inherent && trait_key.is_some() {
                    let gen = &src[im.generics.span().byte_range()];
                    let gen = if im.generics.params.is_empty() { "" } else { gen };
                    let sty = &src[im.self_ty.span().byte_range()];
                    let wh = im
                        .generics
                        .where_clause
                        .as_ref()
                        .map(|w| src[w.span().byte_range()].to_string())
                        .unwrap_or_default();
                    report.rewrites.push(format!("{}/{bkey}: methods turned into inherent methods", m.path));
                    format!("impl{gen} {sty} {wh}")
                } else {
                    src[im.impl_token.span.byte_range().start..open.start].to_string()
                };
                if let Some(a) = m.outer_attrs.get(&bkey) {
                    chunks.push(Chunk::glue(format!("{a}\n")));
                }
                chunks.push(Chunk::glue(format!("{header} {{\n")));
                if let Some(x) = m.inside.get(&bkey) {
                    chunks.push(Chunk::glue(x.clone()));
                }
                for i in &im.items {
                    match i {
                        syn::ImplItem::Fn(f) => {
                            let key = match (&trait_key, inherent) {
                                (Some(t), _) => format!("<{tyname} as {t}>::{}", f.sig.ident),
                                _ => format!("{tyname}::{}", f.sig.ident),
                            };
                            if is_test_cfg(&f.attrs) || dropped(&key) {
                                report.drops.push(format!("{}/{key}", m.path));
                                continue;
                            }
                            let parts = FnParts {
                                attrs: &f.attrs, sig: &f.sig, block: Some(&f.block),
                                whole: f.span().byte_range(), semi: None,
                                public: trait_key.is_none() || inherent,
                            };
                            chunks.extend(render_fn(src, m, &key, parts, stubs, report));
                            bkey.len();
                        }
                        syn::ImplItem::Type(t) if !inherent => {
                            chunks.push(Chunk::glue(src[t.span().byte_range()].to_string()));
                        }
                        syn::ImplItem::Type(_) => {}
                        other => report.drops.push(format!("{}/{bkey} item {}", m.path, norm(other))),
                    }
                }
                chunks.push(Chunk::glue("}\n".into()));
                for i in &im.items {
                    if let syn::ImplItem::Fn(f) = i {
                        let key = match &trait_key {
                            Some(t) => format!("<{tyname} as {t}>::{}", f.sig.ident),
                            None => format!("{tyname}::{}", f.sig.ident),
                        };
                        nested(src, m, &key, &f.block, stubs, cmd_drops, report, head, chunks);
                    }
                }
            }
            syn::Item::Mod(x) => {
                if !is_test_cfg(&x.attrs) {
                    report.drops.push(format!("{}/mod {}", m.path, x.ident));
                }
            }
            other => report.drops.push(format!("{}/{}", m.path, norm(other).chars().take(60).collect::<String>())),
        }
    }
}

/// functions nested in function bodies are lifted to module level when they are listed
#[allow(clippy::too_many_arguments)]
fn nested(
    src: &str,
    m: &Module,
    outer: &str,
    block: &syn::Block,
    stubs: &[String],
    _cmd_drops: &[String],
    report: &mut Report,
    _head: &mut String,
    chunks: &mut Vec<Chunk>,
) {
    struct V<'a>(Vec<&'a syn::ItemFn>);
    impl<'ast> Visit<'ast> for V<'ast> {
        fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
            self.0.push(f);
        }
    }
    let mut v = V(vec![]);
    for s in &block.stmts {
        v.visit_stmt(s);
    }
    for f in v.0 {
        let key = format!("{}", f.sig.ident);
        let full = format!("{outer}::{key}");
        if !m.fns.contains_key(&full) {
            continue;
        }
        let parts = FnParts {
            attrs: &f.attrs, sig: &f.sig, block: Some(&f.block),
            whole: f.span().byte_range(), semi: None, public: true,
        };
        chunks.extend(render_fn(src, m, &full, parts, stubs, report));
    }
}

#[allow(clippy::too_many_arguments)]
fn type_item(
    _src: &str,
    m: &Module,
    name: &str,
    generics: &syn::Generics,
    attrs: &[syn::Attribute],
    text: String,
    fields: &[(String, String)],
    default: Option<String>,
    report: &mut Report,
    chunks: &mut Vec<Chunk>,
    line: usize,
) {
    let d = derives(attrs);
    let no = m.noderive.get(name).cloned().unwrap_or_default();
    for t in &no {
        if !d.iter().any(|x| x == t) {
            report.lost.push(format!("{}/{name}: derive({t})", m.path));
        }
    }
    let has = |t: &str| d.iter().any(|x| x == t) && !no.iter().any(|x| x == t);
    let mut t = String::new();
    if let Some(a) = m.outer_attrs.get(name) {
        t.push_str(a);
        t.push('\n');
    }
    if has("Copy") {
        t.push_str("#[derive(Copy, Clone)]\n");
    }
    t.push_str("pub ");
    t.push_str(&text);
    t.push('\n');
    let params: Vec<String> = generics.type_params().map(|p| p.ident.to_string()).collect();
    let g = |bound: &str| {
        if params.is_empty() {
            String::new()
        } else {
            format!(
                "<{}>",
                params.iter().map(|p| format!("{p}: {bound}")).collect::<Vec<_>>().join(", ")
            )
        }
    };
    let a = if params.is_empty() { String::new() } else { format!("<{}>", params.join(", ")) };
    let mut der = vec![];
    if has("Clone") && !has("Copy") {
        t.push_str(&format!(
            "impl{} Clone for {name}{a} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n",
            g("Clone")
        ));
        der.push("Clone");
    }
    if has("PartialEq") && params.is_empty() {
        t.push_str(&format!(
            "impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\nimpl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n"
        ));
        der.push("PartialEq");
        if has("Eq") {
            t.push_str(&format!("impl Eq for {name} {{}}\n"));
        }
    }
    if has("PartialOrd") && !fields.is_empty() {
        // lexicographic comparison in the order of the fields
        let mut s = String::from("Some(core::cmp::Ordering::Equal)");
        for (f, _) in fields.iter().rev() {
            s = format!("(if self.{f} < o.{f} {{ Some(core::cmp::Ordering::Less) }} else if self.{f} > o.{f} {{ Some(core::cmp::Ordering::Greater) }} else {{ {s} }})");
        }
        t.push_str(&format!(
            "impl vstd::std_specs::cmp::PartialOrdSpecImpl for {name} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &Self) -> Option<core::cmp::Ordering> {{ {s} }} }}\nimpl PartialOrd for {name} {{ #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) {{ unimplemented!() }} }}\n"
        ));
        der.push("PartialOrd");
    }
    if has("Default") {
        let ens = match &default {
            Some(v) => format!("ensures r == ({name}::{v})"),
            None => String::new(),
        };
        if params.is_empty() {
            t.push_str(&format!(
                "impl Default for {name} {{ #[verifier::external_body] fn default() -> (r: Self) {ens} {{ unimplemented!() }} }}\n"
            ));
            der.push("Default");
        }
    }
    if !der.is_empty() {
        report.rewrites.push(format!(
            "{}/{name}: derive({}) expanded with the standard structural meaning (trusted)",
            m.path,
            der.join(", ")
        ));
    }
    chunks.push(Chunk {
        key: format!("{}/{name}", m.path),
        kind: "type".into(),
        file: m.file.clone(),
        repo_line: line,
        text: t,
    });
}

/// ends the last expression of a loop's body, so that a proof can follow
fn semi(body: &syn::Block) -> &'static str {
    match body.stmts.last() {
        Some(syn::Stmt::Expr(_, None)) => ";",
        _ => "",
    }
}
