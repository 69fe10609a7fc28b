//! Whole projects: several files on the disk, opened and changed in turn.
use crate::anaref::{Ft, Proj};
use crate::cmp::*;
use crate::conv;
use crate::gen::{self, Gen, Profile, PLAIN};
use crate::lexref::Pos;
use crate::rng::Rng;
use crate::tree::*;
use ginko::dts::{ItemAtCursor, Position, Project, SeverityMap};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub enum Step {
    Open(String, String),
    Remove(String),
}

#[derive(Clone, Debug, Default)]
pub struct Scenario {
    pub dirs: Vec<String>,
    pub disk: Vec<(String, String)>,
    pub steps: Vec<Step>,
}

impl Scenario {
    pub fn show(&self) -> String {
        let mut s = String::new();
        for d in &self.dirs {
            s += &format!("DIR {d}\n");
        }
        for (n, t) in &self.disk {
            s += &format!("DISK {n:?} {t:?}\n");
        }
        for x in &self.steps {
            s += &match x {
                Step::Open(n, t) => format!("OPEN {n:?} {t:?}\n"),
                Step::Remove(n) => format!("REMOVE {n:?}\n"),
            };
        }
        s
    }
}

/// The scratch directory of this process
pub struct World {
    pub root: PathBuf,
}
impl World {
    pub fn new() -> World {
        let base = std::env::temp_dir().join(format!("conform-{}", std::process::id()));
        std::fs::create_dir_all(base.join("w")).unwrap();
        let root = std::fs::canonicalize(base.join("w")).unwrap();
        World { root }
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.root.join(n)
    }
    pub fn set_up(&self, s: &Scenario) {
        std::env::set_current_dir("/").unwrap();
        let _ = std::fs::remove_dir_all(&self.root);
        for d in ["d/sub", "i1", "i2/sub", "cwd"] {
            std::fs::create_dir_all(self.root.join(d)).unwrap();
        }
        for (n, t) in &s.disk {
            std::fs::write(self.root.join(n), t.replace("@ROOT@", &self.root.to_string_lossy())).unwrap();
        }
        std::env::set_current_dir(self.root.join("cwd")).unwrap();
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        if let Some(p) = self.root.parent() {
            if p.file_name().is_some_and(|n| n.to_string_lossy().starts_with("conform-")) {
                let _ = std::fs::remove_dir_all(p);
            }
        }
    }
}

/// What there is to be found at places in a file
#[derive(Clone, Debug, PartialEq)]
pub enum At {
    Ref(Ref),
    Label(String),
    Include(String, Sp),
}

pub fn places(f: &File) -> Vec<(Sp, At)> {
    fn body(b: &Body, v: &mut Vec<(Sp, At)>) {
        for i in &b.items {
            match i {
                Item::Node(n) => node(n, v),
                Item::Prop(p) => {
                    if let Some((l, s)) = &p.label {
                        v.push((*s, At::Label(l.clone())));
                    }
                    for x in &p.vals {
                        match x {
                            Val::Ref(r, s) => v.push((*s, At::Ref(r.clone()))),
                            Val::Cells(c, _) => {
                                for c in c {
                                    if let Cell::Ref(r, s) = c {
                                        v.push((*s, At::Ref(r.clone())));
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn node(n: &Node, v: &mut Vec<(Sp, At)>) {
        if let Some((l, s)) = &n.label {
            v.push((*s, At::Label(l.clone())));
        }
        body(&n.body, v);
    }
    let mut v = vec![];
    for p in f {
        match p {
            Prim::Include(t, n, s) => v.push(((t.0, s.1), At::Include(n.clone(), (t.0, s.1)))),
            Prim::Del(_, r, s) | Prim::Omit(_, r, s) => v.push((*s, At::Ref(r.clone()))),
            Prim::Root(n) => node(n, &mut v),
            Prim::RefNode(r, s, b) => {
                v.push((*s, At::Ref(r.clone())));
                body(b, &mut v);
            }
            _ => {}
        }
    }
    v
}

pub fn at(pl: &[(Sp, At)], p: Pos) -> Option<&At> {
    pl.iter().find(|((s, e), _)| *s <= p && p < *e).map(|x| &x.1)
}

/// Interesting places of a file
pub fn probes(pl: &[(Sp, At)], text: &str, r: &mut Rng) -> Vec<Pos> {
    let mut v = vec![(0, 0)];
    for ((s, e), _) in pl {
        for p in [s, e] {
            for d in [-1i64, 0, 1] {
                let c = p.1 as i64 + d;
                if c >= 0 {
                    v.push((p.0, c as u32));
                }
            }
        }
        v.push((s.0 + 1, s.1));
        v.push((s.0, 0));
        if s.0 > 0 {
            v.push((s.0 - 1, s.1));
        }
    }
    let lines = text.lines().count().max(1) as u64;
    for _ in 0..6 {
        v.push(((r.next() % (lines + 1)) as u32, (r.next() % 60) as u32));
    }
    v
}

fn norm(p: &Path) -> PathBuf {
    p.to_path_buf()
}

pub fn cmp_project(real: &Project, want: &Proj, r: &mut Rng, out: &mut Vec<Issue>) {
    let mut got: Vec<PathBuf> = real.files().map(norm).collect();
    got.sort();
    let names: Vec<PathBuf> = want.files.keys().cloned().collect();
    if got != names {
        out.push(issue("files", format!("files of the project: expected {names:?} but got {got:?}")));
    }
    for (path, f) in &want.files {
        let at_file = path.file_name().unwrap_or_default().to_string_lossy().to_string();
        let diags: Vec<_> = real.get_diagnostics(path).cloned().collect();
        if let Some(d) = diags.iter().find(|d| *d.source != **path) {
            out.push(issue(about(&conv::diag(d)), format!("{at_file}: {:?} claims to be from {:?}", d.kind, d.source)));
        }
        let got: Vec<Diag> = diags.iter().map(conv::diag).collect();
        cmp_diags(&at_file, &f.diags(), &got, out);
        let Some(pf) = real.get_file(path) else { continue };
        if pf.has_errors(&SeverityMap::default()) != got.iter().any(|d| crate::anaref::severity(&d.code) == "Error") {
            out.push(issue("severity", format!("{at_file}: has_errors is {} with {:?}", pf.has_errors(&SeverityMap::default()), got.iter().map(|d| &d.code).collect::<Vec<_>>())));
        }
        if pf.source() != &f.text {
            out.push(issue("files", format!("{at_file}: the text is not the one that was given")));
        }
        let tree = real.get_root(path).map(conv::file);
        cmp_trees(&at_file, f.tree.as_ref(), tree.as_ref(), out);
        let Some(t) = &f.tree else {
            if guard("cursor lookup", out, || real.find_at_pos(path, &Position::new(0, 0)).is_some()) == Some(true) {
                out.push(issue("cursor", format!("{at_file}: something is found in a file without tree")));
            }
            continue;
        };
        let pl = places(t);
        for p in probes(&pl, &f.text, r) {
            let pos = Position::new(p.0, p.1);
            let got = guard("cursor lookup", out, || {
                real.find_at_pos(path, &pos).map(|i| match i {
                    ItemAtCursor::Reference(x) => Ok(At::Ref(conv::reference(x))),
                    ItemAtCursor::Label(l) => Ok(At::Label(l.item().clone())),
                    ItemAtCursor::Include(i) => Ok(At::Include(i.file_name.item().clone(), conv::sp(ginko::dts::HasSpan::span(i)))),
                    ItemAtCursor::Property(p) => Err(format!("property {}", p.name.item())),
                    ItemAtCursor::Node(n) => Err(format!("node {}", n.name.item().name)),
                })
            });
            let Some(got) = got else { continue };
            let w = at(&pl, p);
            if match (&got, w) {
                (None, None) => false,
                (Some(Ok(g)), Some(w)) => g != w,
                _ => true,
            } {
                out.push(issue("cursor", format!("{at_file}: at {p:?}: expected {w:?} but got {got:?}")));
                break;
            }
        }
        let refs: Vec<Ref> = pl
            .iter()
            .filter_map(|(_, a)| match a {
                At::Ref(r) => Some(r.clone()),
                At::Label(l) => Some(Ref::Label(l.clone())),
                _ => None,
            })
            .collect();
        for x in refs {
            let real_ref = to_real(&x);
            let want = f.defs.as_ref().and_then(|d| d.lookup(&x));
            let got = real.get_node_position(path, &real_ref).map(|(s, p)| (p.to_path_buf(), conv::sp(s)));
            if want.map(|w| (w.0.clone(), w.1)) != got {
                out.push(issue("definition", format!("{at_file}: definition of {}: expected {want:?} but got {got:?}", x.show())));
                break;
            }
            let doc = real.document_reference(path, &real_ref);
            if want.map(|w| format!("Node {}", w.2.name)) != doc {
                out.push(issue("definition", format!("{at_file}: text about {}: expected {want:?} but got {doc:?}", x.show())));
                break;
            }
        }
    }
}

pub fn to_real(r: &Ref) -> ginko::dts::verif::ast::Reference {
    use ginko::dts::verif::ast as v;
    match r {
        Ref::Label(l) => v::Reference::Label(l.clone()),
        Ref::Path(p) => v::Reference::Path(v::Path::new(p.iter().map(|n| v::NodeName { name: n.name.clone(), unit_address: n.unit.clone() }).collect())),
    }
}

pub fn run(w: &World, s: &Scenario, r: &mut Rng, out: &mut Vec<Issue>) {
    w.set_up(s);
    let mut real = Project::default();
    let mut want = Proj::default();
    let dirs: Vec<String> = s.dirs.iter().map(|d| w.path(d).to_string_lossy().to_string()).collect();
    want.set_dirs(&dirs);
    real.set_include_paths(dirs);
    for step in &s.steps {
        let ok = match step {
            Step::Open(n, t) => {
                let p = w.path(n);
                let t = t.replace("@ROOT@", &w.root.to_string_lossy());
                want.add(&p, &t, Ft::of(&p));
                guard("opening a file", out, || real.add_file_with_text(p.clone(), t.clone(), ginko::dts::FileType::from(p.as_path())))
            }
            Step::Remove(n) => {
                let p = w.path(n);
                want.remove(&p);
                guard("removing a file", out, || real.remove_file(&p))
            }
        };
        if ok.is_none() {
            return;
        }
        cmp_project(&real, &want, r, out);
        if !out.is_empty() {
            return;
        }
    }
}

const FILES: &[&str] = &["d/a.dts", "d/b.dtsi", "d/c.dtsi", "i1/b.dtsi", "i1/e.dtsi", "i2/e.dtsi", "i2/f.dts", "d/o.dtso", "d/sub/c.dtsi", "cwd/g.dtsi", "d/p.overlay", "i2/h.h", "i2/sub/c.dtsi", "d/z.dts"];
const INCL: &[&str] = &["b.dtsi", "c.dtsi", "e.dtsi", "f.dts", "sub/c.dtsi", "g.dtsi", "../i1/e.dtsi", "missing.dtsi", "sub", "a.dts", "h.h", "./b.dtsi", "@ROOT@/i2/e.dtsi", "new.dtsi", "z.dts"];

#[derive(Clone, Copy)]
pub struct Shape {
    pub files: usize,
    pub steps: usize,
    pub acyclic: bool,
    pub remove: bool,
    pub no_disk: usize,
}

pub fn scenario(r: &mut Rng, mut p: Profile, sh: Shape) -> Scenario {
    let mut s = Scenario::default();
    for d in ["i1", "i2", "i2/sub", "nodir"] {
        if r.chance(1, 2) {
            s.dirs.push(d.to_string());
        }
    }
    if r.chance(1, 2) {
        s.dirs.reverse();
    }
    p.depth = p.depth.min(2);
    let files: Vec<String> = FILES.iter().map(|f| f.to_string()).collect();
    let n = 1 + r.below(sh.files);
    let mut used: Vec<String> = vec!["d/a.dts".into()];
    for _ in 1..n {
        let f = r.pick(&files).clone();
        if !used.contains(&f) {
            used.push(f);
        }
    }
    let text = |r: &mut Rng, me: &str, used: &[String]| {
        let mut inc: Vec<String> = vec![];
        if sh.files > 1 {
            if sh.acyclic {
                // only includes of files that come later in the list of all files
                let i = files.iter().position(|f| f == me).unwrap_or(0);
                for f in &files[i + 1..] {
                    inc.push(format!("@ROOT@/{f}"));
                }
                inc.retain(|f| used.iter().any(|u| f.ends_with(u.as_str())));
                inc.push("missing.dtsi".into());
            } else {
                for u in used {
                    let base = u.rsplit('/').next().unwrap();
                    inc.push(base.into());
                }
                for _ in 0..3 {
                    inc.push(r.pick(INCL).to_string());
                }
            }
        }
        if r.below(1000) < p.soup {
            return gen::text(r, p);
        }
        let mut p = p;
        if !me.ends_with(".dts") {
            p.header /= 4;
        }
        let n = *r.pick(&[1, 1, 2, 3, 4]);
        let mut g = Gen::new(r, p);
        g.includes = inc;
        g.labels = (0..3).map(|i| format!("l{i}")).collect();
        g.paths = vec!["/".into(), "/a".into(), "/cpus/cpu".into(), "/soc/uart@0".into()];
        g.doc(n);
        g.render()
    };
    for f in used.clone() {
        if r.below(100) < sh.no_disk && f != "d/a.dts" {
            continue;
        }
        let t = text(r, &f, &used);
        s.disk.push((f, t));
    }
    let n = 1 + r.below(sh.steps);
    for i in 0..n {
        let f = if i == 0 && r.chance(3, 4) {
            "d/a.dts".to_string()
        } else if r.chance(1, 12) {
            "d/new.dtsi".to_string()
        } else {
            r.pick(&used).clone()
        };
        if sh.remove && r.chance(1, 6) {
            s.steps.push(Step::Remove(f));
            continue;
        }
        let disk = s.disk.iter().find(|(n, _)| *n == f).map(|x| x.1.clone());
        let t = match disk {
            Some(t) if r.chance(1, 2) => t,
            _ => text(r, &f, &used),
        };
        s.steps.push(Step::Open(f, t));
    }
    s
}

pub const LINKED: Profile = Profile { bad_name: 4, bad_num: 4, bad_bytes: 4, no_semi: 4, mutate: 15, comments: 20, misplaced: 30, header: 800, compat: 100, depth: 2, ..PLAIN };

/// The same files opened in another order, or with other texts before, end up in the same state
pub fn history(w: &World, s: &Scenario, r: &mut Rng, out: &mut Vec<Issue>) {
    w.set_up(s);
    let fix = |t: &str| t.replace("@ROOT@", &w.root.to_string_lossy());
    let dirs: Vec<String> = s.dirs.iter().map(|d| w.path(d).to_string_lossy().to_string()).collect();
    let mut last: Vec<(PathBuf, String)> = vec![];
    let mut real = Project::default();
    real.set_include_paths(dirs.clone());
    for step in &s.steps {
        if let Step::Open(n, t) = step {
            let p = w.path(n);
            let ok = guard("opening a file", out, || real.add_file_with_text(p.clone(), fix(t), ginko::dts::FileType::from(p.as_path())));
            if ok.is_none() {
                return;
            }
            last.retain(|x| x.0 != p);
            last.push((p, fix(t)));
        }
    }
    let mut fresh = Project::default();
    fresh.set_include_paths(dirs);
    let mut order = last.clone();
    for i in (1..order.len()).rev() {
        let j = r.below(i + 1);
        order.swap(i, j);
    }
    for (p, t) in &order {
        let ok = guard("opening a file", out, || fresh.add_file_with_text(p.clone(), t.clone(), ginko::dts::FileType::from(p.as_path())));
        if ok.is_none() {
            return;
        }
    }
    for (p, _) in &last {
        let d = |x: &Project| {
            let mut v: Vec<String> = x.get_diagnostics(p).map(|d| format!("{:?} {:?} {}", d.kind, d.span, d.message)).collect();
            v.sort();
            v
        };
        let (a, b) = (d(&real), d(&fresh));
        if a != b {
            out.push(issue("history", format!("{:?}: after the history {a:?}, in a fresh project {b:?}", p.file_name().unwrap())));
        }
        let t = |x: &Project| x.get_root(p).map(|f| format!("{:?}", conv::file(f)));
        if t(&real) != t(&fresh) {
            out.push(issue("history", format!("{:?}: other tree than in a fresh project", p.file_name().unwrap())));
        }
        let Some(f) = real.get_root(p) else { continue };
        for (_, a) in places(&conv::file(f)) {
            let x = match a {
                At::Ref(r) => r,
                At::Label(l) => Ref::Label(l),
                _ => continue,
            };
            let (g, h) = (real.get_node_position(p, &to_real(&x)), fresh.get_node_position(p, &to_real(&x)));
            if g != h {
                out.push(issue("history", format!("{:?}: definition of {} is {g:?}, but {h:?} in a fresh project", p.file_name().unwrap(), x.show())));
            }
        }
    }
}
