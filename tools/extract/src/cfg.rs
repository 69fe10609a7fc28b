use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

#[derive(Default, Debug)]
pub struct FnC {
    pub ret: Option<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    /// (anchor words, text)
    pub proofs: Vec<(Vec<String>, String)>,
    pub rewrites: Vec<(String, String)>,
    /// functions whose text is relied on here
    pub expects: Vec<(String, String)>,
    pub trusted: Option<String>,
    pub attrs: Vec<String>,
    pub used: Cell<bool>,
    /// do not rewrite into inherent etc.
    pub flags: Vec<String>,
}

#[derive(Default, Debug)]
pub struct Module {
    pub path: String,
    pub file: String,
    pub vc: String,
    pub uses: Vec<String>,
    pub texts: Vec<String>,
    pub fns: BTreeMap<String, FnC>,
    pub drops: Vec<String>,
    pub dropuse: Vec<String>,
    pub mapuse: Vec<(String, String)>,
    pub inherent: Vec<String>,
    /// derives not to expand, per type
    pub noderive: BTreeMap<String, Vec<String>>,
    pub rewrites: Vec<(String, String)>,
    /// extra text placed inside impl/trait blocks, by block key
    pub inside: BTreeMap<String, String>,
    /// only take these items (others are dropped silently as out of scope)
    pub only: Vec<String>,
    pub outer_attrs: BTreeMap<String, String>,
    /// the tokens of the functions of the file
    pub bodies: RefCell<BTreeMap<String, Vec<String>>>,
}

pub fn parse(text: &str, name: &str) -> Vec<Module> {
    let mut mods: Vec<Module> = vec![];
    let mut cur_fn: Option<String> = None;
    // split into sections
    let mut sections: Vec<(String, String)> = vec![];
    for line in text.lines() {
        if let Some(h) = line.strip_prefix('@') {
            sections.push((h.trim().to_string(), String::new()));
        } else if line.starts_with("## ") || line == "##" {
            // comment
        } else if let Some(last) = sections.last_mut() {
            last.1.push_str(line);
            last.1.push('\n');
        }
    }
    for (head, body) in sections {
        let mut words = head.split_whitespace();
        let kw = words.next().unwrap_or("");
        let rest = head[kw.len()..].trim().to_string();
        if kw == "module" {
            let mut it = rest.split(" file ");
            mods.push(Module {
                path: it.next().unwrap().trim().to_string(),
                file: it.next().unwrap_or("").trim().to_string(),
                vc: name.to_string(),
                ..Default::default()
            });
            cur_fn = None;
            continue;
        }
        let m = mods.last_mut().unwrap_or_else(|| panic!("{name}: section before @module"));
        macro_rules! f {
            () => {
                m.fns
                    .get_mut(cur_fn.as_ref().expect("no @fn"))
                    .unwrap()
            };
        }
        match kw {
            "use" => m.uses.push(rest),
            "dropuse" => m.dropuse.push(rest),
            "mapuse" => {
                let (a, b) = rest.split_once(" => ").unwrap();
                m.mapuse.push((a.trim().into(), b.trim().into()));
            }
            "text" => m.texts.push(body),
            "drop" => m.drops.push(rest),
            "only" => m.only.push(rest),
            "inherent" => m.inherent.push(rest),
            "attr" => {
                let (a, b) = rest.split_once(" => ").unwrap();
                m.outer_attrs.insert(a.trim().into(), b.trim().into());
            }
            "noderive" => {
                let mut it = rest.split_whitespace();
                let ty = it.next().unwrap().to_string();
                m.noderive.entry(ty).or_default().extend(it.map(|s| s.to_string()));
            }
            "inside" => {
                m.inside.insert(rest, body);
            }
            "fn" => {
                let (key, ret) = match rest.split_once(" ret ") {
                    Some((k, r)) => (k.trim().to_string(), Some(r.trim().to_string())),
                    None => (rest.clone(), None),
                };
                let e = m.fns.entry(key.clone()).or_default();
                e.ret = ret;
                e.spec = body;
                cur_fn = Some(key);
            }
            "loop" => {
                f!().loops.insert(rest.parse().unwrap(), body);
            }
            "proof" => {
                let anchor = rest.split_whitespace().map(|s| s.to_string()).collect();
                f!().proofs.push((anchor, body));
            }
            "rewrite" => {
                let (a, b) = body.split_once(">>>").expect("rewrite");
                let r = (a.trim().to_string(), b.trim().to_string());
                match &cur_fn {
                    Some(k) => m.fns.get_mut(k).unwrap().rewrites.push(r),
                    None => m.rewrites.push(r),
                }
            }
            "expect" => f!().expects.push((rest, body)),
            "trusted" => f!().trusted = Some(rest),
            "fattr" => f!().attrs.push(rest),
            "flag" => f!().flags.push(rest),
            "end" => cur_fn = None,
            _ => panic!("{name}: unknown section @{head}"),
        }
    }
    mods
}
