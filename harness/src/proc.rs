//! The command line program and the language server, run as processes.
use crate::anaref::{Ft, Proj};
use crate::cmp::*;
use crate::conv;
use crate::lexref::Pos;
use crate::misc::{print_ref, snake};
use crate::parseref;
use crate::proj::{self, At, Scenario, Shape, Step, World, LINKED};
use crate::rng::Rng;
use crate::tree::*;
use crate::Case;
use ginko::dts::{FileType, Project, SeverityMap};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;

#[derive(Default)]
pub struct Procs {}

fn bin(var: &str) -> String {
    std::env::var(var).unwrap_or_else(|_| panic!("{var} is not set"))
}

impl Procs {
    pub fn case(&mut self, id: &str, w: &World, r: &mut Rng) -> Case {
        let sh = Shape { files: 3, steps: if id == "C26" { 1 } else { 4 }, acyclic: false, remove: id == "C29", no_disk: 10 };
        let mut p = LINKED;
        p.soup = 20;
        p.mutate = 80;
        if id == "C26" && r.chance(1, 3) {
            p = crate::gen::Profile { bad_name: 0, bad_num: 0, bad_bytes: 0, no_semi: 0, mutate: 0, misplaced: 0, header: 1000, compat: 0, soup: 0, depth: 1, ..p };
        }
        let mut s = proj::scenario(r, p, sh);
        if id == "C26" && r.chance(1, 3) {
            // a file without issues, or with warnings only
            let t = *r.pick(&["/dts-v1/;\n/ { a = <1>; };\n", "/dts-v1/;\n/ { compatible = <1>; };\n", "/dts-v1/;\n/dts-v1/;\n/ { };", "/dts-v1/;\n/include/ \"b.dtsi\"\n/ { };"]);
            s.disk.retain(|d| d.0 != "d/a.dts");
            s.disk.push(("d/a.dts".into(), t.into()));
        }
        let mut out = vec![];
        w.set_up(&s);
        let show = match id {
            "C26" => {
                let target = if r.chance(1, 20) { "d/none.dts" } else { "d/a.dts" };
                cli(w, &s, target, &mut out);
                format!("CLI {target}\n{}", s.show())
            }
            _ => lsp(id, w, &s, r, &mut out),
        };
        let key = show.bytes().fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        Case { show, issues: out, key, trivial: false }
    }
}

fn cli(w: &World, s: &Scenario, target: &str, out: &mut Vec<Issue>) {
    let dirs: Vec<String> = s.dirs.iter().map(|d| w.path(d).to_string_lossy().to_string()).collect();
    let path = w.path(target);
    let mut c = Command::new(bin("CONFORM_GINKO"));
    c.arg(&path);
    for d in &dirs {
        c.arg("--include").arg(d);
    }
    let o = c.output().expect("the command line program runs");
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let code = o.status.code();
    let ok_line = text.lines().any(|l| l.starts_with("OK"));
    let mut add = |m: String| out.push(issue("cli", m));
    let Ok(source) = std::fs::read_to_string(&path) else {
        if code == Some(0) || code.is_none() || ok_line {
            add(format!("a file that cannot be read ends with {code:?} and {text:?}"));
        }
        return;
    };
    let mut p = Project::default();
    p.set_include_paths(dirs.clone());
    p.add_file_with_text(path.clone(), source.clone(), FileType::from(path.as_path()));
    let mut want = Proj::default();
    want.set_dirs(&dirs);
    want.add(&path, &source, Ft::of(&path));
    let clean = want.files.values().all(|f| f.diags().is_empty());
    if clean != (code == Some(0)) {
        add(format!("exit status {code:?} though the file {} issues", if clean { "has no" } else { "has" }));
    }
    if ok_line != clean {
        add(format!("'OK' is {}printed though the file {} issues", if ok_line { "" } else { "not " }, if clean { "has no" } else { "has" }));
    }
    if code.is_none() || code == Some(101) {
        add(format!("the program crashed: {}", String::from_utf8_lossy(&o.stderr)));
    }
    let mut len = 0;
    for (f, wf) in &want.files {
        let d: Vec<_> = p.get_diagnostics(f).cloned().collect();
        if d.is_empty() {
            continue;
        }
        let code: Vec<String> = wf.text.lines().map(|l| l.to_string()).collect();
        let block: String = d.iter().map(|d| print_ref(d, &code)).collect::<String>() + "\n";
        len += block.len();
        if !text.contains(&block) {
            add(format!("the issues of {:?} are not printed:\n{block}\nprinted:\n{text}", f.file_name().unwrap()));
        }
    }
    if !clean && text.len() != len {
        add(format!("something else is printed:\n{text}"));
    }
}

struct Server {
    child: Child,
    input: ChildStdin,
    rx: Receiver<Value>,
    id: i64,
    published: BTreeMap<String, Value>,
    count: usize,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Server {
    fn start() -> Server {
        let mut child = Command::new(bin("CONFORM_LSP")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("the language server runs");
        let input = child.stdin.take().unwrap();
        let mut o = BufReader::new(child.stdout.take().unwrap());
        let (tx, rx) = channel();
        std::thread::spawn(move || loop {
            let mut n = 0;
            loop {
                let mut l = String::new();
                if o.read_line(&mut l).unwrap_or(0) == 0 {
                    return;
                }
                let l = l.trim();
                if l.is_empty() {
                    break;
                }
                if let Some(x) = l.strip_prefix("Content-Length:") {
                    n = x.trim().parse().unwrap_or(0);
                }
            }
            let mut b = vec![0; n];
            if o.read_exact(&mut b).is_err() {
                return;
            }
            if let Ok(v) = serde_json::from_slice(&b) {
                if tx.send(v).is_err() {
                    return;
                }
            }
        });
        Server { child, input, rx, id: 0, published: BTreeMap::new(), count: 0 }
    }
    fn send(&mut self, v: Value) -> Option<()> {
        let b = v.to_string();
        write!(self.input, "Content-Length: {}\r\n\r\n{b}", b.len()).ok()?;
        self.input.flush().ok()
    }
    fn notify(&mut self, method: &str, params: Value) -> Option<()> {
        self.send(json!({"jsonrpc": "2.0", "method": method, "params": params}))
    }
    fn recv(&mut self) -> Option<Value> {
        let v = self.rx.recv_timeout(Duration::from_secs(20)).ok()?;
        if v["method"] == "textDocument/publishDiagnostics" {
            self.count += 1;
            self.published.insert(v["params"]["uri"].as_str().unwrap_or("").into(), v["params"]["diagnostics"].clone());
        }
        Some(v)
    }
    fn request(&mut self, method: &str, params: Value) -> Option<Value> {
        self.id += 1;
        let id = self.id;
        self.send(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}))?;
        loop {
            let v = self.recv()?;
            if v["id"] == id {
                return Some(v["result"].clone());
            }
        }
    }
    /// waits until `n` files have been published
    fn wait(&mut self, n: usize) -> Option<()> {
        while self.count < n {
            self.recv()?;
        }
        Some(())
    }
}

fn uri(p: &Path) -> String {
    format!("file://{}", p.to_string_lossy())
}
fn range(s: Sp) -> Value {
    let p = |p: Pos| json!({"line": p.0, "character": p.1});
    json!({"start": p(s.0), "end": p(s.1)})
}

/// None: a place is unknown since a semicolon is missing
fn symbols(f: &File) -> Option<Value> {
    fn sym(name: String, kind: u32, deleted: bool, r: Sp, sel: Sp, children: Option<Value>) -> Value {
        let mut v = json!({"name": name, "kind": kind, "range": range(r), "selectionRange": range(sel)});
        if deleted {
            v["tags"] = json!([1]);
        }
        if let Some(c) = children {
            v["children"] = c;
        }
        v
    }
    fn body(b: &Body) -> Option<Value> {
        let mut v = vec![];
        for i in &b.items {
            v.push(match i {
                Item::Prop(p) => {
                    let start = p.label.as_ref().map(|l| l.1 .0).unwrap_or(p.name.1 .0);
                    sym(p.name.0.clone(), 7, false, (start, p.end?.1), p.name.1, None)
                }
                Item::Node(n) => node(n)?,
                Item::DelNode(t, n, s) => sym(n.show(), 2, true, (t.0, s.1), *s, None),
                Item::DelProp(t, n, s) => sym(n.clone(), 7, true, (t.0, s.1), *s, None),
            });
        }
        Some(Value::Array(v))
    }
    fn node(n: &Node) -> Option<Value> {
        let start = n.label.as_ref().map(|l| l.1 .0).unwrap_or(n.name.1 .0);
        Some(sym(n.name.0.name.clone(), 2, false, (start, n.body.end?.1), n.name.1, Some(body(&n.body)?)))
    }
    let mut v = vec![];
    for p in f {
        v.push(match p {
            Prim::Root(n) => node(n)?,
            Prim::RefNode(r, s, b) => sym(r.show(), 2, false, (s.0, b.end?.1), *s, Some(body(b)?)),
            Prim::Include(t, n, s) => sym(format!("include {n}"), 1, false, (t.0, s.1), *s, None),
            Prim::Del(t, r, s) => sym(r.show(), 2, true, (t.0, s.1), *s, None),
            Prim::Omit(t, r, s) => sym(r.show(), 8, false, (t.0, s.1), *s, None),
            _ => continue,
        });
    }
    Some(Value::Array(v))
}

fn strip_nulls(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), strip_nulls(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(strip_nulls).collect()),
        v => v.clone(),
    }
}

fn sorted(v: &Value) -> Vec<String> {
    let mut x: Vec<String> = v.as_array().map(|a| a.iter().map(|d| strip_nulls(d).to_string()).collect()).unwrap_or_default();
    x.sort();
    x
}

fn lsp(id: &str, w: &World, s: &Scenario, r: &mut Rng, out: &mut Vec<Issue>) -> String {
    let fix = |t: &str| t.replace("@ROOT@", &w.root.to_string_lossy());
    let mut log = format!("LSP\n{}", Scenario { steps: vec![], ..s.clone() }.show());
    let dirs: Vec<String> = s.dirs.iter().map(|d| w.path(d).to_string_lossy().to_string()).collect();
    let mut mirror = Project::default();
    mirror.set_include_paths(dirs.clone());
    let mut want = Proj::default();
    want.set_dirs(&dirs);
    let mut sv = Server::start();
    let res = (|| -> Option<()> {
        sv.request("initialize", json!({"capabilities": {}, "initializationOptions": {"includes": dirs}}))?;
        sv.notify("initialized", json!({}))?;
        let mut open: Vec<PathBuf> = vec![];
        for step in &s.steps {
            match step {
                Step::Open(n, t) => {
                    let p = w.path(n);
                    let t = fix(t);
                    let before = sv.count;
                    if open.contains(&p) {
                        // several full texts, the last one counts
                        let mut c = vec![];
                        for _ in 0..r.below(3) {
                            c.push(json!({"text": crate::gen::text(r, LINKED)}));
                        }
                        c.push(json!({"text": t}));
                        log += &format!("CHANGE {n:?} {}\n", Value::Array(c.clone()));
                        sv.notify("textDocument/didChange", json!({"textDocument": {"uri": uri(&p), "version": 2}, "contentChanges": c}))?;
                    } else {
                        log += &format!("OPEN {n:?} {t:?}\n");
                        sv.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri(&p), "languageId": "dts", "version": 1, "text": t}}))?;
                        open.push(p.clone());
                    }
                    mirror.add_file_with_text(p.clone(), t.clone(), FileType::from(p.as_path()));
                    want.add(&p, &t, Ft::of(&p));
                    sv.wait(before + want.files.len())?;
                }
                Step::Remove(n) => {
                    let p = w.path(n);
                    if !open.contains(&p) {
                        continue;
                    }
                    log += &format!("CLOSE {n:?}\n");
                    sv.notify("textDocument/didClose", json!({"textDocument": {"uri": uri(&p)}}))?;
                    mirror.remove_file(&p);
                    want.remove(&p);
                    open.retain(|x| *x != p);
                    // notifications are handled one after the other with requests that come later
                    std::thread::sleep(Duration::from_millis(30));
                    continue;
                }
            }
            for f in want.files.keys() {
                let d: Vec<Value> = mirror
                    .get_diagnostics(f)
                    .map(|d| {
                        let sev = match crate::anaref::severity(&format!("{:?}", d.kind)) {
                            "Error" => 1,
                            "Warning" => 2,
                            _ => 4,
                        };
                        json!({"range": range(conv::sp(d.span)), "severity": sev, "code": snake(&d.kind), "source": "ginko_ls", "message": d.message})
                    })
                    .collect();
                let got = sv.published.get(&uri(f)).cloned().unwrap_or(Value::Null);
                let (a, b) = (sorted(&Value::Array(d)), sorted(&got));
                if a != b || got.is_null() {
                    let m = format!("{:?}: published diagnostics: expected {a:?} but got {b:?}", f.file_name().unwrap());
                    out.push(issue("lsp.diag", m.clone()));
                    out.push(issue("lsp.sync", m));
                    return Some(());
                }
                let _ = SeverityMap::default();
            }
            for f in open.clone() {
                let text = &want.files[&Proj::key(&f)].text;
                let tree = parseref::parse(text).file;
                if id == "C27" {
                    continue;
                }
                let got = sv.request("textDocument/documentSymbol", json!({"textDocument": {"uri": uri(&f)}}))?;
                let exp = match &tree {
                    None => Some(Value::Null),
                    Some(t) => symbols(t),
                };
                if let Some(e) = exp {
                    if strip_nulls(&e) != strip_nulls(&got) {
                        let m = format!("{:?}: symbols: expected {e} but got {}", f.file_name().unwrap(), strip_nulls(&got));
                        out.push(issue("lsp.symbols", m.clone()));
                        out.push(issue("lsp.sync", m));
                        return Some(());
                    }
                }
                if id != "C32" {
                    continue;
                }
                let Some(t) = tree else { continue };
                let pl = proj::places(&t);
                let mut pr = proj::probes(&pl, text, r);
                while pr.len() > 24 {
                    let i = r.below(pr.len());
                    pr.swap_remove(i);
                }
                let wf = &want.files[&Proj::key(&f)];
                for p in pr {
                    let pos = json!({"textDocument": {"uri": uri(&f)}, "position": {"line": p.0, "character": p.1}});
                    let def = |r: &Ref| wf.defs.as_ref().and_then(|d| d.lookup(r));
                    let item = proj::at(&pl, p);
                    let (hover, goto) = match item {
                        Some(At::Ref(x)) => match def(x) {
                            Some(d) => (Some(format!("Node {}", d.2.name)), Some((d.0.clone(), Some(d.1)))),
                            None => (None, None),
                        },
                        Some(At::Label(l)) => (Some(l.clone()), None),
                        Some(At::Include(n, _)) => (Some(n.clone()), wf.target(n).map(|t| (t, None))),
                        None => (None, None),
                    };
                    let got = sv.request("textDocument/hover", pos.clone())?;
                    if hover.as_deref() != got["contents"].as_str() {
                        out.push(issue("lsp.nav", format!("{:?}: hover at {p:?}: expected {hover:?} but got {got}", f.file_name().unwrap())));
                        return Some(());
                    }
                    let got = sv.request("textDocument/definition", pos)?;
                    let ok = match &goto {
                        None => got.is_null(),
                        Some((t, s)) => got["uri"] == uri(t) && s.is_none_or(|s| got["range"] == range(s)),
                    };
                    if !ok {
                        out.push(issue("lsp.nav", format!("{:?}: definition at {p:?}: expected {goto:?} but got {got}", f.file_name().unwrap())));
                        return Some(());
                    }
                }
            }
        }
        Some(())
    })();
    if res.is_none() {
        out.push(issue("panic", "the language server does not answer any more"));
    }
    log
}
