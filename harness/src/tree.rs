//! Canonical form of syntax trees and diagnostics, in which the reference and the real code are compared.
use crate::lexref::Pos;

pub type Sp = (Pos, Pos);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Name {
    pub name: String,
    pub unit: Option<String>,
}
impl Name {
    pub fn of(s: &str) -> Name {
        match s.find('@') {
            None => Name { name: s.into(), unit: None },
            Some(i) => Name { name: s[..i].into(), unit: Some(s[i + 1..].into()) },
        }
    }
    pub fn show(&self) -> String {
        match &self.unit {
            None => self.name.clone(),
            Some(u) => format!("{}@{u}", self.name),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ref {
    Label(String),
    Path(Vec<Name>),
}
impl Ref {
    pub fn show(&self) -> String {
        match self {
            Ref::Label(l) => format!("&{l}"),
            Ref::Path(p) if p.is_empty() => "&{/}".into(),
            Ref::Path(p) => format!("&{{{}}}", p.iter().map(|n| format!("/{}", n.show())).collect::<String>()),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cell {
    Num(u32, Sp),
    Ref(Ref, Sp),
    Expr,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Str(String, Sp),
    Cells(Vec<Cell>, Sp),
    Ref(Ref, Sp),
    Bytes(Vec<(Vec<u8>, Sp)>, Sp),
}
impl Val {
    pub fn span(&self) -> Sp {
        match self {
            Val::Str(_, s) | Val::Cells(_, s) | Val::Ref(_, s) | Val::Bytes(_, s) => *s,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Prop {
    pub label: Option<(String, Sp)>,
    pub name: (String, Sp),
    pub vals: Vec<Val>,
    /// the closing semicolon; None: was missing
    pub end: Option<Sp>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Body {
    pub items: Vec<Item>,
    pub end: Option<Sp>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node {
    pub label: Option<(String, Sp)>,
    pub omit: Option<Sp>,
    pub name: (Name, Sp),
    pub body: Body,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Prop(Prop),
    Node(Node),
    DelNode(Sp, Name, Sp),
    DelProp(Sp, String, Sp),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Prim {
    Header(Sp),
    Plugin(Sp),
    Mem((u64, Sp), (u64, Sp)),
    Include(Sp, String, Sp),
    Del(Sp, Ref, Sp),
    Omit(Sp, Ref, Sp),
    Root(Node),
    RefNode(Ref, Sp, Body),
    CInclude(String),
}
pub type File = Vec<Prim>;

#[derive(Clone, Debug, PartialEq)]
pub struct Diag {
    pub code: String,
    pub s: Pos,
    pub e: Pos,
    /// text, compared for the code `Expected` only
    pub msg: String,
    /// reference only: the diagnostic may lie anywhere from here to `hi`
    pub slack: Option<(Pos, Pos)>,
    /// reference only: what the diagnostic is about
    pub about: &'static str,
}

/// Numbers, byte strings, places and everything else (in this order) as separate texts
pub struct Facets {
    pub nums: String,
    pub bytes: String,
    pub places: Vec<(String, Option<Sp>)>,
    pub shape: String,
}

pub fn facets(f: &File) -> Facets {
    let mut x = Facets { nums: String::new(), bytes: String::new(), places: vec![], shape: String::new() };
    for p in f {
        match p {
            Prim::Header(s) => x.put("header", "", *s),
            Prim::Plugin(s) => x.put("plugin", "", *s),
            Prim::Mem(a, b) => {
                x.put("memreserve", "", a.1);
                x.put("length", "", b.1);
                x.nums += &format!("{:#x} {:#x}\n", a.0, b.0);
            }
            Prim::Include(t, n, s) => {
                x.put("include", n, *t);
                x.put("name", "", *s);
            }
            Prim::Del(t, r, s) => {
                x.put("delete", "", *t);
                x.put("ref", &format!("{r:?}"), *s);
            }
            Prim::Omit(t, r, s) => {
                x.put("omit", "", *t);
                x.put("ref", &format!("{r:?}"), *s);
            }
            Prim::Root(n) => {
                x.shape += "root ";
                x.node(n);
            }
            Prim::RefNode(r, s, b) => {
                x.put("refnode", &format!("{r:?}"), *s);
                x.body(b);
            }
            Prim::CInclude(s) => x.shape += &format!("cinclude {s:?}\n"),
        }
    }
    x
}
impl Facets {
    fn put(&mut self, kind: &str, text: &str, s: Sp) {
        self.shape += &format!("{kind} {text:?}\n");
        self.places.push((format!("{kind} {text}"), Some(s)));
    }
    fn node(&mut self, n: &Node) {
        if let Some((l, s)) = &n.label {
            self.put("label", l, *s);
        }
        if let Some(s) = &n.omit {
            self.put("omit-if-no-ref", "", *s);
        }
        self.put("node", &format!("{:?}", n.name.0), n.name.1);
        self.body(&n.body);
    }
    fn body(&mut self, b: &Body) {
        self.shape += "{\n";
        for i in &b.items {
            match i {
                Item::Node(n) => self.node(n),
                Item::DelNode(t, n, s) => {
                    self.put("delete-node", "", *t);
                    self.put("name", &format!("{n:?}"), *s);
                }
                Item::DelProp(t, n, s) => {
                    self.put("delete-property", "", *t);
                    self.put("name", n, *s);
                }
                Item::Prop(p) => {
                    if let Some((l, s)) = &p.label {
                        self.put("label", l, *s);
                    }
                    self.put("property", &p.name.0, p.name.1);
                    for v in &p.vals {
                        self.val(v);
                    }
                    self.places.push((format!("end of property {}", p.name.0), p.end));
                }
            }
        }
        self.shape += "}\n";
        self.places.push(("end of node".into(), b.end));
    }
    fn val(&mut self, v: &Val) {
        match v {
            Val::Str(t, s) => self.put("string", t, *s),
            Val::Ref(r, s) => self.put("ref", &format!("{r:?}"), *s),
            Val::Cells(c, s) => {
                self.put("cells", "", *s);
                for c in c {
                    match c {
                        Cell::Num(n, s) => {
                            self.put("number", "", *s);
                            self.nums += &format!("{n:#x}\n");
                        }
                        Cell::Ref(r, s) => self.put("ref", &format!("{r:?}"), *s),
                        Cell::Expr => self.shape += "expression\n",
                    }
                }
                self.shape += ">\n";
            }
            Val::Bytes(b, s) => {
                self.put("bytes", "", *s);
                for (b, s) in b {
                    self.put("chunk", "", *s);
                    self.bytes += &format!("{b:02x?}\n");
                }
                self.shape += "]\n";
            }
        }
    }
}
