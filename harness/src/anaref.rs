//! Reference for whole projects: which files are read, and the issues and definitions of each of them.
use crate::parseref::parse;
use crate::tree::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ft {
    Dts,
    Dtsi,
    Dtso,
    Unknown,
}
impl Ft {
    pub fn of(p: &Path) -> Ft {
        let name = p.file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
        match name.rsplit_once('.') {
            Some((stem, ext)) if !stem.is_empty() => match ext {
                "dts" => Ft::Dts,
                "dtsi" => Ft::Dtsi,
                "dtso" | "overlay" => Ft::Dtso,
                _ => Ft::Unknown,
            },
            _ => Ft::Unknown,
        }
    }
    pub fn real(self) -> ginko::dts::FileType {
        use ginko::dts::FileType::*;
        match self {
            Ft::Dts => DtSource,
            Ft::Dtsi => DtSourceInclude,
            Ft::Dtso => DtSourceOverlay,
            Ft::Unknown => Unknown,
        }
    }
}

/// A node definition: the file, the place of its name and the name
pub type Def = (PathBuf, Sp, Name);
type NPath = Vec<Name>;

#[derive(Clone, Default)]
pub struct Defs {
    /// label -> node (None: labels a property)
    pub labels: HashMap<String, Option<Def>>,
    pub label_paths: HashMap<String, NPath>,
    pub nodes: HashMap<NPath, Def>,
}
impl Defs {
    pub fn lookup(&self, r: &Ref) -> Option<&Def> {
        match r {
            Ref::Label(l) => self.labels.get(l)?.as_ref(),
            Ref::Path(p) => self.nodes.get(p),
        }
    }
}

pub struct PFile {
    pub tree: Option<File>,
    pub parse: Vec<Diag>,
    pub ana: Vec<Diag>,
    pub defs: Option<Defs>,
    pub ft: Ft,
    pub text: String,
    dirs: Vec<PathBuf>,
}
impl PFile {
    pub fn diags(&self) -> Vec<Diag> {
        self.parse.iter().chain(&self.ana).cloned().collect()
    }
    pub fn has_errors(&self) -> bool {
        self.parse.iter().chain(&self.ana).any(|d| severity(&d.code) == "Error")
    }
}

pub fn severity(code: &str) -> &'static str {
    match code {
        "NameTooLong" | "NonStringInCompatible" | "DuplicateDirective" => "Warning",
        _ => "Error",
    }
}

#[derive(Default)]
pub struct Proj {
    pub files: BTreeMap<PathBuf, PFile>,
    pub dirs: Vec<PathBuf>,
}

pub fn canon(p: &Path) -> Option<PathBuf> {
    std::fs::canonicalize(p).ok()
}

fn diag(code: &str, s: Sp, about: &'static str) -> Diag {
    Diag { code: code.into(), s: s.0, e: s.1, msg: String::new(), slack: None, about }
}

/// Where an include leads to: the first directory with such a file counts, finally the working directory
pub fn resolve(dirs: &[PathBuf], name: &str) -> Option<PathBuf> {
    for d in dirs {
        if let Some(p) = canon(&d.join(name)) {
            return Some(p);
        }
    }
    canon(Path::new(name))
}

impl Proj {
    pub fn set_dirs(&mut self, dirs: &[String]) {
        self.dirs = dirs.iter().map(|d| canon(Path::new(d)).unwrap_or_default()).collect();
    }
    pub fn key(p: &Path) -> PathBuf {
        canon(p).unwrap_or(p.to_path_buf())
    }
    pub fn remove(&mut self, p: &Path) {
        self.files.remove(&Proj::key(p));
    }
    pub fn add(&mut self, path: &Path, text: &str, ft: Ft) {
        let key = Proj::key(path);
        self.read(key, text, ft);
        self.analyze();
    }
    fn read(&mut self, path: PathBuf, text: &str, ft: Ft) {
        let mut dirs = vec![];
        if let Some(d) = path.parent() {
            dirs.push(d.to_path_buf());
        }
        dirs.extend(self.dirs.iter().cloned());
        let p = parse(text);
        let f = PFile { tree: p.file, parse: p.diags, ana: vec![], defs: None, ft, text: text.into(), dirs: dirs.clone() };
        let includes: Vec<(Sp, String)> = f.includes();
        self.files.insert(path.clone(), f);
        let mut io = vec![];
        for (s, name) in includes {
            let target = resolve(&dirs, &name);
            let ok = match &target {
                None => false,
                Some(t) if self.files.contains_key(t) => true,
                Some(t) => match std::fs::read_to_string(t) {
                    Ok(text) => {
                        self.read(t.clone(), &text, Ft::of(t));
                        true
                    }
                    Err(_) => false,
                },
            };
            if !ok {
                io.push(diag("IOError", s, "include"));
            }
        }
        self.files.get_mut(&path).unwrap().parse.extend(io);
    }
    fn order(&self, p: &Path, seen: &mut HashSet<PathBuf>, out: &mut Vec<PathBuf>) {
        let Some(f) = self.files.get(p) else { return };
        if !seen.insert(p.into()) {
            return;
        }
        for (_, n) in f.includes() {
            if let Some(t) = resolve(&f.dirs, &n) {
                self.order(&t, seen, out);
            }
        }
        out.push(p.into());
    }
    fn analyze(&mut self) {
        let mut seen = HashSet::new();
        let mut order = vec![];
        let keys: Vec<PathBuf> = self.files.keys().cloned().collect();
        for k in &keys {
            self.order(k, &mut seen, &mut order);
        }
        // includes seen so far: file -> files that include it
        let mut graph = Graph::default();
        for k in order {
            if self.files[&k].tree.is_none() {
                continue;
            }
            let (defs, ana) = self.analyze_file(&k, &mut graph);
            let f = self.files.get_mut(&k).unwrap();
            f.defs = Some(defs);
            f.ana = ana;
        }
    }
    fn analyze_file(&self, key: &Path, graph: &mut Graph) -> (Defs, Vec<Diag>) {
        let f = &self.files[key];
        let mut a = Ana { key, ft: f.ft, plugin: f.ft == Ft::Dtso, d: vec![], defs: Defs::default(), refs: vec![] };
        let mut header = false;
        let mut other = false;
        for p in f.tree.as_ref().unwrap() {
            match p {
                Prim::Header(s) => {
                    if header {
                        a.d.push(diag("DuplicateDirective", *s, "header"));
                    } else if other {
                        a.d.push(diag("MisplacedDtsHeader", *s, "header"));
                    }
                    header = true;
                    continue;
                }
                Prim::CInclude(_) => continue,
                Prim::Include(t, name, s) => {
                    let span = (t.0, s.1);
                    let Some(target) = resolve(&f.dirs, name) else { continue };
                    graph.edge(&target, key);
                    if graph.on_cycle(&target) {
                        a.d.push(diag("CyclicDependencyError", span, "cycle"));
                        continue;
                    }
                    let Some(inc) = self.files.get(&target) else { continue };
                    if inc.has_errors() {
                        a.d.push(diag("ErrorsInInclude", span, "include-errors"));
                    }
                    if let Some(d) = &inc.defs {
                        a.defs.labels.extend(d.labels.clone());
                        a.defs.label_paths.extend(d.label_paths.clone());
                        a.defs.nodes.extend(d.nodes.clone());
                    }
                    continue;
                }
                Prim::Plugin(_) => a.plugin = true,
                Prim::Mem(..) => {}
                Prim::Del(_, r, s) | Prim::Omit(_, r, s) => {
                    a.now(r, *s);
                }
                Prim::Root(n) => a.node(n, vec![]),
                Prim::RefNode(r, s, b) => {
                    let at = if f.ft == Ft::Dts { a.now(r, *s) } else { vec![] };
                    a.body(b, &at);
                }
            }
            other = true;
        }
        if !header && f.ft == Ft::Dts {
            a.d.push(diag("NonDtsV1", ((0, 0), (0, 0)), "header"));
        }
        for (r, s) in std::mem::take(&mut a.refs) {
            let known = match &r {
                Ref::Label(l) => a.defs.labels.contains_key(l),
                Ref::Path(p) => a.defs.nodes.contains_key(p),
            };
            if !known {
                a.unresolved(s);
            }
        }
        (a.defs, a.d)
    }
}

impl PFile {
    pub fn includes(&self) -> Vec<(Sp, String)> {
        let t = self.tree.iter().flatten();
        t.filter_map(|p| match p {
            Prim::Include(t, n, s) => Some(((t.0, s.1), n.clone())),
            _ => None,
        })
        .collect()
    }
    pub fn target(&self, name: &str) -> Option<PathBuf> {
        resolve(&self.dirs, name)
    }
}

#[derive(Default)]
pub struct Graph {
    edges: HashMap<PathBuf, Vec<PathBuf>>,
}
impl Graph {
    fn edge(&mut self, from: &Path, to: &Path) {
        self.edges.entry(from.into()).or_default().push(to.into());
    }
    fn on_cycle(&self, start: &Path) -> bool {
        let mut seen = HashSet::new();
        let mut todo = vec![start.to_path_buf()];
        while let Some(n) = todo.pop() {
            for m in self.edges.get(&n).into_iter().flatten() {
                if m == start {
                    return true;
                }
                if seen.insert(m.clone()) {
                    todo.push(m.clone());
                }
            }
        }
        false
    }
}

struct Ana<'a> {
    key: &'a Path,
    ft: Ft,
    plugin: bool,
    d: Vec<Diag>,
    defs: Defs,
    refs: Vec<(Ref, Sp)>,
}
impl Ana<'_> {
    fn unresolved(&mut self, s: Sp) {
        if self.ft == Ft::Dts && !self.plugin {
            self.d.push(diag("UnresolvedReference", s, "reference"));
        }
    }
    /// a reference that must be defined at this point; returns the path of the node
    fn now(&mut self, r: &Ref, s: Sp) -> NPath {
        match r {
            Ref::Label(l) => match self.defs.label_paths.get(l).cloned() {
                Some(p) => p,
                None => {
                    self.unresolved(s);
                    vec![]
                }
            },
            Ref::Path(p) => {
                if !self.defs.nodes.contains_key(p) {
                    self.unresolved(s);
                }
                p.clone()
            }
        }
    }
    fn node(&mut self, n: &Node, at: NPath) {
        let def: Def = (self.key.into(), n.name.1, n.name.0.clone());
        if let Some((l, _)) = &n.label {
            self.defs.labels.insert(l.clone(), Some(def.clone()));
            self.defs.label_paths.insert(l.clone(), at.clone());
        }
        self.defs.nodes.insert(at.clone(), def);
        self.body(&n.body, &at);
    }
    fn body(&mut self, b: &Body, at: &NPath) {
        for i in &b.items {
            match i {
                Item::Node(n) => {
                    let mut p = at.clone();
                    p.push(n.name.0.clone());
                    self.node(n, p);
                }
                Item::Prop(p) => {
                    if let Some((l, _)) = &p.label {
                        self.defs.labels.insert(l.clone(), None);
                    }
                    for v in &p.vals {
                        match v {
                            Val::Ref(r, s) => self.refs.push((r.clone(), *s)),
                            Val::Cells(c, _) => {
                                for c in c {
                                    if let Cell::Ref(r, s) = c {
                                        self.refs.push((r.clone(), *s));
                                    }
                                }
                            }
                            _ => {}
                        }
                        if p.name.0 == "compatible" && !matches!(v, Val::Str(..)) {
                            self.d.push(diag("NonStringInCompatible", v.span(), "compatible"));
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
