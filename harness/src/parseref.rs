//! Reference parser for device-tree sources, written from the grammar. It produces the canonical tree of
//! `tree.rs` and the list of issues a file has. It shares no code with the repository.
use crate::lexref::{Lex, Pos, K, T};
use crate::tree::*;

pub struct Parsed {
    pub file: Option<File>,
    pub diags: Vec<Diag>,
}

struct P {
    lex: Lex,
    ahead: Option<Option<T>>,
    /// the end of the last token that was taken
    prev: Pos,
    d: Vec<Diag>,
}

type R<X> = Result<X, Diag>;

const IDENT: &str = "identifier";

fn kind_name(k: &str) -> String {
    match k {
        ";" | "/" | "=" | "[" | "<" | "{" | "}" | "(" => format!("'{k}'"),
        k => k.to_string(),
    }
}

fn sp(t: &T) -> Sp {
    (t.s, t.e)
}

fn is(t: &T, c: char) -> bool {
    t.k == K::Sym(c)
}

fn is_dir(t: &T, d: &str) -> bool {
    matches!(&t.k, K::Dir(x) if x == d)
}

fn diag(code: &str, s: Sp, about: &'static str) -> Diag {
    Diag { code: code.into(), s: s.0, e: s.1, msg: String::new(), slack: None, about }
}

fn expected(s: Sp, what: &[&str], about: &'static str) -> Diag {
    let names: Vec<String> = what.iter().map(|w| kind_name(w)).collect();
    let msg = if what.len() == 1 { format!("Expected {}", names[0]) } else { format!("Expected one of {}", names.join(", ")) };
    Diag { msg, ..diag("Expected", s, about) }
}

#[derive(PartialEq, Clone, Copy)]
enum Ctx {
    Label,
    Node,
    Unit,
    Property,
}

impl P {
    fn peek(&mut self) -> Option<T> {
        if self.ahead.is_none() {
            self.ahead = Some(self.lex.tok());
        }
        self.ahead.clone().unwrap()
    }
    fn take(&mut self) -> Option<T> {
        let t = self.peek();
        self.ahead = None;
        if let Some(t) = &t {
            self.prev = t.e;
        }
        t
    }
    fn eof(&self) -> Diag {
        let end = self.lex.pos;
        Diag { slack: Some((self.prev, end)), ..diag("UnexpectedEOF", (end, end), "syntax") }
    }
    fn must(&mut self) -> R<T> {
        match self.take() {
            Some(t) => Ok(t),
            None => Err(self.eof()),
        }
    }
    fn must_peek(&mut self) -> R<T> {
        match self.peek() {
            Some(t) => Ok(t),
            None => Err(self.eof()),
        }
    }
    /// an issue at the token `t` or in front of it
    fn near(&self, from: Pos, t: &T, what: &[&str]) -> Diag {
        Diag { slack: Some((from, t.e)), ..expected(sp(t), what, "syntax") }
    }

    // ---- names
    fn ident_rules(&mut self, s: Sp, text: &str, ctx: Ctx, wild: bool) {
        let legal = |c: char| match ctx {
            Ctx::Label => c.is_ascii_alphanumeric() || c == '_',
            Ctx::Node | Ctx::Unit => c.is_ascii_alphanumeric() || ",._+-".contains(c),
            Ctx::Property => c.is_ascii_alphanumeric() || ",._+-?#".contains(c),
        };
        let mut col = 0;
        let mut bad = None;
        for c in text.chars() {
            if !legal(c) {
                bad = Some(col);
                break;
            }
            col += c.len_utf16() as u32;
        }
        let first = text.chars().next();
        let d = if let Some(c) = bad {
            let at = (s.0 .0, s.0 .1 + c);
            diag("IllegalChar", (at, (at.0, at.1 + 1)), "name")
        } else if text.len() > 31 {
            diag("NameTooLong", s, "name")
        } else if text.is_empty() {
            diag("ExpectedName", s, "name")
        } else if ctx == Ctx::Label && first.unwrap().is_ascii_digit() || ctx == Ctx::Node && !first.unwrap().is_ascii_alphabetic() {
            diag("IllegalStart", s, "name")
        } else {
            return;
        };
        let slack = if wild { Some(((0, 0), (u32::MAX, u32::MAX))) } else { None };
        self.d.push(Diag { slack, ..d });
    }
    fn node_rules(&mut self, s: Sp, n: &Name, wild: bool) {
        if n.unit.is_none() && n.name == "__symbols__" {
            return;
        }
        self.ident_rules(s, &n.name, Ctx::Node, wild);
        if let Some(u) = &n.unit {
            let off = n.name.encode_utf16().count() as u32 + 1;
            self.ident_rules(((s.0 .0, s.0 .1 + off), s.1), u, Ctx::Unit, wild);
        }
    }
    fn reference(&mut self, t: &T) -> Ref {
        match &t.k {
            K::RefLabel(l) => {
                self.ident_rules(sp(t), l, Ctx::Label, false);
                Ref::Label(l.clone())
            }
            K::RefPath(p) => {
                if p.is_empty() {
                    self.d.push(diag("PathCannotBeEmpty", sp(t), "name"));
                }
                let wild = t.s.0 != t.e.0;
                let mut comps = vec![];
                let mut col = t.s.1 + 2;
                for c in p.split('/') {
                    if !c.is_empty() {
                        let n = Name::of(c);
                        self.node_rules(((t.s.0, col), t.e), &n, wild);
                        comps.push(n);
                    }
                    col += c.encode_utf16().count() as u32 + 1;
                }
                Ref::Path(comps)
            }
            _ => unreachable!(),
        }
    }

    // ---- values
    /// value of a C-like literal, None: not one, or too big
    pub fn literal(t: &str, max: u64) -> Option<u64> {
        let (digits, base) = if t.len() > 1 && t.starts_with("0x") {
            (&t[2..], 16u128)
        } else if t.len() > 1 && t.starts_with('0') {
            (&t[1..], 8)
        } else {
            (t, 10)
        };
        if digits.is_empty() {
            return None;
        }
        let mut v: u128 = 0;
        for c in digits.chars() {
            let d = match c {
                '0'..='9' => c as u128 - 48,
                'a'..='f' => c as u128 - 87,
                'A'..='F' => c as u128 - 55,
                _ => return None,
            };
            if d >= base {
                return None;
            }
            v = v * base + d;
            if v > max as u128 {
                return None;
            }
        }
        Some(v as u64)
    }
    fn cell(&mut self) -> R<Cell> {
        let t = self.must()?;
        match &t.k {
            K::RefLabel(_) | K::RefPath(_) => Ok(Cell::Ref(self.reference(&t), sp(&t))),
            K::Num(n) => {
                let v = P::literal(n, u32::MAX as u64);
                if v.is_none() {
                    self.d.push(diag("IntError", sp(&t), "number"));
                }
                Ok(Cell::Num(v.unwrap_or(0) as u32, sp(&t)))
            }
            K::Sym('(') => {
                let mut depth = 1;
                while depth > 0 {
                    match self.take() {
                        None => {
                            self.d.push(diag("UnbalancedParentheses", sp(&t), "syntax"));
                            break;
                        }
                        Some(x) if is(&x, '(') => depth += 1,
                        Some(x) if is(&x, ')') => depth -= 1,
                        _ => {}
                    }
                }
                Ok(Cell::Expr)
            }
            _ => Err(expected(sp(&t), &["number", "reference", "("], "syntax")),
        }
    }
    fn mem_number(&mut self) -> R<(u64, Sp)> {
        let from = self.prev;
        let t = self.must()?;
        match &t.k {
            K::Num(n) => {
                let v = P::literal(n, u64::MAX);
                if v.is_none() {
                    self.d.push(diag("IntError", sp(&t), "number"));
                }
                Ok((v.unwrap_or(0), sp(&t)))
            }
            _ => Err(self.near(from, &t, &["number"])),
        }
    }
    fn chunk(&mut self) -> R<(Vec<u8>, Sp)> {
        let t = self.must()?;
        match &t.k {
            K::Num(s) | K::Ident(s) => {
                let c: Vec<Option<u32>> = s.chars().map(|c| c.to_digit(16)).collect();
                if c.len() % 2 == 1 {
                    self.d.push(diag("OddNumberOfBytestringElements", sp(&t), "bytes"));
                    return Ok((vec![], sp(&t)));
                }
                if c.iter().any(|d| d.is_none()) {
                    self.d.push(diag("IntError", sp(&t), "bytes"));
                    return Ok((vec![], sp(&t)));
                }
                Ok((c.chunks(2).map(|p| (p[0].unwrap() * 16 + p[1].unwrap()) as u8).collect(), sp(&t)))
            }
            _ => {
                self.d.push(expected(sp(&t), &["number", IDENT], "syntax"));
                Ok((vec![], sp(&t)))
            }
        }
    }
    fn skip_label(&mut self) {
        if matches!(self.peek(), Some(T { k: K::Label(_), .. })) {
            self.take();
        }
    }
    fn value(&mut self) -> R<Val> {
        if self.peek().is_some_and(|t| is_dir(&t, "bits")) {
            self.take();
            let w = self.must()?;
            if !matches!(w.k, K::Num(_)) {
                self.d.push(expected(sp(&w), &["number"], "syntax"));
            }
        }
        let t = self.must()?;
        match &t.k {
            K::Str(s) => Ok(Val::Str(s.clone(), sp(&t))),
            K::RefLabel(_) | K::RefPath(_) => Ok(Val::Ref(self.reference(&t), sp(&t))),
            K::Sym('<') => {
                let mut cells = vec![];
                loop {
                    self.skip_label();
                    let n = self.must_peek()?;
                    if is(&n, '>') {
                        self.take();
                        return Ok(Val::Cells(cells, (t.s, n.e)));
                    }
                    match self.cell() {
                        Ok(c) => cells.push(c),
                        Err(d) => self.d.push(d),
                    }
                }
            }
            K::Sym('[') => {
                let mut chunks = vec![];
                loop {
                    self.skip_label();
                    let n = self.must_peek()?;
                    if is(&n, ']') {
                        self.take();
                        return Ok(Val::Bytes(chunks, (t.s, n.e)));
                    }
                    chunks.push(self.chunk()?);
                }
            }
            _ => Err(expected(sp(&t), &["string", "<", "reference", "["], "syntax")),
        }
    }
    fn values(&mut self) -> R<Vec<Val>> {
        let mut v = vec![];
        loop {
            self.skip_label();
            v.push(self.value()?);
            self.skip_label();
            if !is(&self.must_peek()?, ',') {
                return Ok(v);
            }
            self.take();
        }
    }
    /// The end of a statement: None if the semicolon is missing (which is reported)
    fn semicolon(&mut self) -> Option<Sp> {
        let from = self.prev;
        let Some(t) = self.peek() else {
            let end = self.lex.pos;
            let d = expected((end, end), &[";"], "semicolon");
            self.d.push(Diag { slack: Some((from, end)), ..d });
            return None;
        };
        if is(&t, ';') {
            self.take();
            return Some(sp(&t));
        }
        if let K::Unknown(_) = t.k {
            // stands in place of the semicolon
            self.take();
            self.lex.names = true;
            self.d.push(expected(sp(&t), &[";"], "semicolon"));
        } else {
            let d = expected((from, from), &[";"], "semicolon");
            self.d.push(Diag { slack: Some((from, t.s)), ..d });
        }
        None
    }
    fn ident(&mut self) -> R<(String, Sp)> {
        let t = self.must()?;
        match &t.k {
            K::Ident(s) => Ok((s.clone(), sp(&t))),
            _ => Err(expected(sp(&t), &[IDENT], "syntax")),
        }
    }
    fn body(&mut self) -> R<Body> {
        let from = self.prev;
        let open = self.must()?;
        if !is(&open, '{') {
            return Err(self.near(from, &open, &["{"]));
        }
        let mut items = vec![];
        let mut child = false;
        loop {
            let t = self.must()?;
            if is_dir(&t, "delete-node") {
                let (n, s) = self.ident()?;
                let n = Name::of(&n);
                self.node_rules(s, &n, false);
                self.semicolon();
                items.push(Item::DelNode(sp(&t), n, s));
                continue;
            }
            if is_dir(&t, "delete-property") {
                let (n, s) = self.ident()?;
                self.ident_rules(s, &n, Ctx::Property, false);
                self.semicolon();
                items.push(Item::DelProp(sp(&t), n, s));
                continue;
            }
            let mut t = t;
            let omit = if is_dir(&t, "omit-if-no-ref") {
                let o = sp(&t);
                t = self.must()?;
                Some(o)
            } else {
                None
            };
            let label = match &t.k {
                K::Label(l) => {
                    let l = (l.clone(), sp(&t));
                    self.ident_rules(l.1, &l.0, Ctx::Label, false);
                    t = self.must()?;
                    Some(l)
                }
                _ => None,
            };
            let name = match &t.k {
                K::Ident(n) => (n.clone(), sp(&t)),
                K::Sym('}') => {
                    if label.is_some() || omit.is_some() {
                        self.d.push(expected(sp(&t), &[IDENT], "syntax"));
                    }
                    let end = self.semicolon();
                    return Ok(Body { items, end });
                }
                _ => return Err(expected(sp(&t), &[IDENT, "}"], "syntax")),
            };
            let next = self.must_peek()?;
            match next.k {
                K::Sym('{') => {
                    child = true;
                    let n = Name::of(&name.0);
                    self.node_rules(name.1, &n, false);
                    let body = self.body()?;
                    items.push(Item::Node(Node { label, omit, name: (n, name.1), body }));
                }
                K::Sym('=') | K::Sym(';') => {
                    self.take();
                    self.ident_rules(name.1, &name.0, Ctx::Property, false);
                    let (vals, end) = if is(&next, '=') {
                        let v = self.values()?;
                        (v, self.semicolon())
                    } else {
                        (vec![], Some(sp(&next)))
                    };
                    if let Some(o) = omit {
                        self.d.push(diag("IncorrectDirective", o, "omit"));
                    }
                    if child {
                        let start = label.as_ref().map(|l| l.1 .0).unwrap_or(name.1 .0);
                        let d = diag("PropertyAfterNode", (start, end.unwrap_or(name.1).1), "after-node");
                        let slack = if end.is_none() { Some((start, start)) } else { None };
                        self.d.push(Diag { slack, ..d });
                    }
                    items.push(Item::Prop(Prop { label, name, vals, end }));
                }
                _ => {
                    let d = self.near(self.prev, &next, &[";", "=", "{", "/omit-if-no-ref/"]);
                    return Err(d);
                }
            }
        }
    }
    fn ref_target(&mut self) -> R<(Ref, Sp)> {
        let t = self.must()?;
        match &t.k {
            K::RefLabel(_) | K::RefPath(_) => Ok((self.reference(&t), sp(&t))),
            _ => Err(expected(sp(&t), &["reference"], "syntax")),
        }
    }
    fn primary(&mut self) -> R<Prim> {
        let t = self.must()?;
        let s = sp(&t);
        match &t.k {
            K::Dir(d) => match d.as_str() {
                "dts-v1" => {
                    self.semicolon();
                    return Ok(Prim::Header(s));
                }
                "plugin" => {
                    self.semicolon();
                    return Ok(Prim::Plugin(s));
                }
                "memreserve" => {
                    let a = self.mem_number()?;
                    let l = self.mem_number()?;
                    self.semicolon();
                    return Ok(Prim::Mem(a, l));
                }
                "include" => {
                    let f = self.must()?;
                    let K::Str(name) = &f.k else {
                        return Err(expected(sp(&f), &["string"], "syntax"));
                    };
                    if let Some(x) = self.peek() {
                        if is(&x, ';') {
                            self.take();
                            self.d.push(diag("ParserError", sp(&x), "syntax"));
                        }
                    }
                    return Ok(Prim::Include(s, name.clone(), sp(&f)));
                }
                "delete-node" => {
                    let (r, rs) = self.ref_target()?;
                    self.semicolon();
                    return Ok(Prim::Del(s, r, rs));
                }
                "omit-if-no-ref" => {
                    let (r, rs) = self.ref_target()?;
                    self.semicolon();
                    return Ok(Prim::Omit(s, r, rs));
                }
                _ => {}
            },
            K::Ident(i) if i == "#include" => {
                let f = self.must()?;
                return match &f.k {
                    K::Str(name) => Ok(Prim::CInclude(name.clone())),
                    _ => Err(expected(sp(&f), &["string"], "syntax")),
                };
            }
            K::Sym('/') => {
                let body = self.body()?;
                let name = (Name { name: "/".into(), unit: None }, s);
                return Ok(Prim::Root(Node { label: None, omit: None, name, body }));
            }
            K::RefLabel(_) | K::RefPath(_) => {
                let r = self.reference(&t);
                let body = self.body()?;
                return Ok(Prim::RefNode(r, s, body));
            }
            _ => {}
        }
        let what = ["/dts-v1/", "/memreserve/", "/include/", "/delete-node/", "/omit-if-no-ref/", "/", "reference"];
        Err(expected(s, &what, "syntax"))
    }
}

/// All issues of the text, and its tree if there is one
pub fn parse(text: &str) -> Parsed {
    let mut p = P { lex: Lex::new(text), ahead: None, prev: (0, 0), d: vec![] };
    let mut file = vec![];
    loop {
        if p.peek().is_none() {
            return Parsed { file: Some(file), diags: p.d };
        }
        match p.primary() {
            Ok(x) => file.push(x),
            Err(d) => {
                p.d.push(d);
                return Parsed { file: None, diags: p.d };
            }
        }
    }
}
