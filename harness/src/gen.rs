//! Generates device-tree sources: structured ones, mutated ones and plain soups of tokens or characters.
use crate::rng::Rng;

#[derive(Clone, Copy)]
pub struct Profile {
    /// per mille
    pub bad_name: usize,
    pub bad_num: usize,
    pub bad_bytes: usize,
    pub no_semi: usize,
    pub mutate: usize,
    pub comments: usize,
    pub unicode: usize,
    pub compat: usize,
    pub header: usize,
    pub misplaced: usize,
    /// plain values only
    pub depth: usize,
    pub soup: usize,
}

pub const PLAIN: Profile = Profile {
    bad_name: 15,
    bad_num: 15,
    bad_bytes: 15,
    no_semi: 0,
    mutate: 0,
    comments: 60,
    unicode: 60,
    compat: 60,
    header: 850,
    misplaced: 20,
    depth: 4,
    soup: 0,
};

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Profile,
    pub t: Vec<String>,
    pub labels: Vec<String>,
    pub paths: Vec<String>,
    pub includes: Vec<String>,
}

const NAMES: &[&str] = &["a", "b", "cpu", "cpus", "node", "soc", "uart", "i2c", "memory", "chosen", "bus", "x1", "clk", "Z"];
const PROPS: &[&str] = &["reg", "status", "#address-cells", "#size-cells", "model", "phandle", "ranges", "clocks", "p", "q", "linux,code", "x.y+z", "device_type", "?opt", "a-b", "interrupt-map"];

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Profile) -> Gen<'a> {
        Gen { r, p, t: vec![], labels: vec![], paths: vec![], includes: vec![] }
    }
    fn m(&mut self, per_mille: usize) -> bool {
        self.r.below(1000) < per_mille
    }
    fn put(&mut self, s: impl Into<String>) {
        self.t.push(s.into());
    }
    pub fn long(&mut self, chars: &str) -> String {
        let n = *self.r.pick(&[1, 2, 5, 30, 31, 32, 33, 40, 64]);
        let c: Vec<char> = chars.chars().collect();
        let mut s: String = self.r.pick(&['a', 'k', 'Q']).to_string();
        while s.len() < n {
            s.push(*self.r.pick(&c));
        }
        s
    }
    fn bad_name(&mut self) -> String {
        match self.r.below(12) {
            0 => "1abc".into(),
            1 => "_x".into(),
            2 => ",a".into(),
            3 => "a#b".into(),
            4 => "a?".into(),
            5 => "-".into(),
            6 => self.long("abz09_-"),
            7 => self.long("abcdefgxyz"),
            8 => "#a".into(),
            9 => "a+b.c".into(),
            10 => "__symbols__".into(),
            _ => {
                let mut s = self.long("ab,._+-");
                let i = self.r.below(s.len());
                s.insert(i, *self.r.pick(&['#', '?', '_', '-', '1']));
                s
            }
        }
    }
    fn node_name(&mut self) -> String {
        let mut n = if self.m(self.p.bad_name) { self.bad_name() } else { self.r.pick(NAMES).to_string() };
        if self.r.chance(1, 3) {
            n.push('@');
            if self.m(self.p.bad_name) {
                n += &match self.r.below(5) {
                    0 => "".into(),
                    1 => "x#".into(),
                    2 => self.long("0123456789abcdef"),
                    3 => "0?1".into(),
                    _ => "-1,a".into(),
                };
            } else {
                n += *self.r.pick(&["0", "1", "10", "ff00", "1f,2", "A0"]);
            }
        }
        n
    }
    fn label(&mut self) -> String {
        if self.m(self.p.bad_name) {
            return match self.r.below(6) {
                0 => "a-b".into(),
                1 => "_l".into(),
                2 => self.long("abc_012"),
                3 => "l.x".into(),
                4 => "-a".into(),
                _ => "a#".into(),
            };
        }
        match self.r.below(4) {
            0 => format!("l{}", self.r.below(4)),
            1 => format!("L_{}", self.r.below(3)),
            2 => "lbl".into(),
            _ => format!("n{}", self.r.below(1000)),
        }
    }
    fn some_label(&mut self) -> String {
        if self.labels.is_empty() || self.r.chance(1, 4) {
            self.label()
        } else {
            let l = self.labels.clone();
            self.r.pick(&l).clone()
        }
    }
    fn some_path(&mut self) -> String {
        if self.m(self.p.bad_name) {
            return match self.r.below(8) {
                0 => "".into(),
                1 => "/1a/b".into(),
                2 => "/a/#x".into(),
                3 => "//a//b/".into(),
                4 => "a/b c".into(),
                5 => "/é/a".into(),
                6 => format!("/{}/b@{}", self.long("abc"), self.long("01")),
                _ => "/ü@ü".into(),
            };
        }
        if self.paths.is_empty() || self.r.chance(1, 4) {
            let n = self.r.below(3);
            (0..=n).map(|_| format!("/{}", self.node_name())).collect()
        } else {
            let l = self.paths.clone();
            self.r.pick(&l).clone()
        }
    }
    fn reference(&mut self) -> String {
        if self.r.chance(2, 3) {
            format!("&{}", self.some_label().chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').collect::<String>())
        } else {
            format!("&{{{}}}", self.some_path())
        }
    }
    pub fn number(&mut self) -> String {
        if self.m(self.p.bad_num) {
            return match self.r.below(12) {
                0 => "0x".into(),
                1 => "08".into(),
                2 => "0xg".into(),
                3 => "12a".into(),
                4 => "4294967296".into(),
                5 => "0x100000000".into(),
                6 => "040000000000".into(),
                7 => "99999999999999999999999".into(),
                8 => "18446744073709551616".into(),
                9 => "0X10".into(),
                10 => "1U".into(),
                _ => "019".into(),
            };
        }
        let v = match self.r.below(6) {
            0 => self.r.below(10) as u64,
            1 => *self.r.pick(&[0, 1, 7, 8, 9, 10, 15, 16, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]),
            2 => 1 << self.r.below(32),
            3 => (1u64 << self.r.below(32)) - 1,
            _ => self.r.next() & 0xffff_ffff,
        };
        self.spell(v)
    }
    fn spell(&mut self, v: u64) -> String {
        match self.r.below(6) {
            0 => format!("{v:#x}"),
            1 => format!("0x{v:X}"),
            2 => format!("0x000{v:x}"),
            3 => format!("0{v:o}"),
            4 => format!("00{v:o}"),
            _ => format!("{v}"),
        }
    }
    fn mem_number(&mut self) -> String {
        if self.m(self.p.bad_num) || self.r.chance(1, 4) {
            return self.number();
        }
        let v = match self.r.below(4) {
            0 => *self.r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, 0]),
            1 => 1u64 << self.r.below(64),
            2 => (1u64 << self.r.below(64)).wrapping_sub(1),
            _ => self.r.next(),
        };
        self.spell(v)
    }
    pub fn string(&mut self) -> String {
        let n = self.r.below(8);
        let mut s = String::from("\"");
        for _ in 0..n {
            if self.m(self.p.unicode) {
                s += *self.r.pick(&["é", "𝄞", "中", "\u{7f}", "ÿ", "😀", "\u{0}"]);
            } else {
                s += *self.r.pick(&["a", "b", "vendor,x", " ", "/", "//", "/*", "\\\"", "\\\\", "\\n", "'", ";", "}", "1", "\t", "&", "\n"]);
            }
        }
        s.push('"');
        s
    }
    fn chunk(&mut self) -> String {
        if self.m(self.p.bad_bytes) {
            return (*self.r.pick(&["a", "123", "0g", "zz", "+1", "a+", "0x12", "-1", "ab,c", "a_", "1?", "f#"])).into();
        }
        let n = *self.r.pick(&[1, 1, 1, 2, 3, 8]);
        (0..n).map(|_| *self.r.pick(&["00", "ff", "0a", "A0", "12", "9e", "e9", "fF", "7f", "80", "d1", "1d"])).collect()
    }
    fn value(&mut self) {
        if self.r.chance(1, 30) {
            self.put("/bits/");
            let w = *self.r.pick(&["8", "16", "32", "64"]);
            self.put(w);
        }
        match self.r.below(10) {
            0..=1 => {
                let s = self.string();
                self.put(s)
            }
            2..=5 => {
                self.put("<");
                for _ in 0..self.r.below(4) {
                    if self.r.chance(1, 25) {
                        let l = self.label();
                        self.put(l + ":");
                    }
                    match self.r.below(8) {
                        0 => {
                            let r = self.reference();
                            self.put(r)
                        }
                        1 => self.expression(2),
                        _ => {
                            let n = self.number();
                            self.put(n)
                        }
                    }
                }
                self.put(">");
            }
            6..=7 => {
                let r = self.reference();
                self.put(r)
            }
            _ => {
                self.put("[");
                for _ in 0..self.r.below(4) {
                    let c = self.chunk();
                    self.put(c);
                }
                self.put("]");
            }
        }
    }
    fn expression(&mut self, depth: usize) {
        self.put("(");
        for _ in 0..self.r.below(5) {
            if depth > 0 && self.r.chance(1, 5) {
                self.expression(depth - 1);
            } else {
                let x = *self.r.pick(&["1", "+", "<", ">", "A", "*", "-", "0x2", ",", "&&", "!", "~", "|", ">>", "\"s\""]);
                self.put(x);
            }
        }
        self.put(")");
    }
    fn semi(&mut self) {
        if !self.m(self.p.no_semi) {
            self.put(";");
        }
    }
    fn property(&mut self) {
        if self.m(self.p.misplaced) {
            self.put("/omit-if-no-ref/");
        }
        if self.r.chance(1, 8) {
            let l = self.label();
            self.labels.push(l.clone());
            self.put(l + ":");
        }
        if self.m(self.p.compat) {
            self.put("compatible");
        } else if self.m(self.p.bad_name) {
            let n = self.bad_name();
            self.put(n);
        } else {
            let n = *self.r.pick(PROPS);
            self.put(n);
        }
        if self.r.chance(3, 4) {
            self.put("=");
            let n = *self.r.pick(&[1, 1, 1, 2, 3]);
            for i in 0..n {
                if i > 0 {
                    self.put(",");
                }
                if self.r.chance(1, 25) {
                    let l = self.label();
                    self.put(l + ":");
                }
                self.value();
            }
            if self.r.chance(1, 30) {
                let l = self.label();
                self.put(l + ":");
            }
        }
        self.semi();
    }
    fn node(&mut self, depth: usize, path: &str) {
        if self.r.chance(1, 12) {
            self.put("/omit-if-no-ref/");
        }
        if self.r.chance(1, 2) {
            let l = self.label();
            self.labels.push(l.clone());
            self.put(l + ":");
        }
        let n = self.node_name();
        self.put(n.clone());
        let p = format!("{path}/{n}");
        self.paths.push(p.clone());
        self.body(depth, &p);
    }
    fn body(&mut self, depth: usize, path: &str) {
        self.put("{");
        for _ in 0..self.r.below(4) {
            if self.r.chance(1, 10) {
                self.delete_item();
            } else {
                self.property();
            }
        }
        if depth > 0 {
            for _ in 0..self.r.below(4) {
                if self.m(self.p.misplaced) {
                    self.property();
                }
                if self.r.chance(1, 14) {
                    self.delete_item();
                } else {
                    self.node(depth - 1, path);
                }
            }
        }
        if self.m(self.p.misplaced) {
            self.property();
        }
        self.put("}");
        self.semi();
    }
    fn delete_item(&mut self) {
        if self.r.chance(1, 2) {
            self.put("/delete-node/");
            let n = self.node_name();
            self.put(n);
        } else {
            self.put("/delete-property/");
            let n = *self.r.pick(PROPS);
            self.put(n);
        }
        self.semi();
    }
    pub fn header(&mut self) {
        self.put("/dts-v1/");
        self.semi();
    }
    pub fn doc(&mut self, n: usize) {
        if self.m(self.p.header) {
            self.header();
        }
        for _ in 0..n {
            match self.r.below(14) {
                0 => {
                    self.put("/memreserve/");
                    let a = self.mem_number();
                    self.put(a);
                    let b = self.mem_number();
                    self.put(b);
                    self.semi();
                }
                1 => {
                    let d = *self.r.pick(&["/delete-node/", "/omit-if-no-ref/"]);
                    self.put(d);
                    let r = self.reference();
                    self.put(r);
                    self.semi();
                }
                2 => {
                    if self.m(self.p.misplaced * 5) {
                        self.put("/plugin/");
                        self.semi();
                    }
                }
                3 => {
                    if self.m(self.p.misplaced * 8) {
                        self.header();
                    }
                }
                4..=5 if !self.includes.is_empty() => {
                    let i = self.includes.clone();
                    let f = self.r.pick(&i).clone();
                    self.put("/include/");
                    self.put(format!("\"{f}\""));
                }
                6 if self.r.chance(1, 6) => {
                    self.put("#include");
                    let s = self.string();
                    self.put(s);
                }
                7..=9 => {
                    let r = self.reference();
                    self.put(r.clone());
                    let p = r.strip_prefix("&{").map(|p| p.trim_end_matches('}').to_string()).unwrap_or_default();
                    let d = self.p.depth.saturating_sub(1);
                    self.body(d, &p);
                }
                _ => {
                    self.put("/");
                    let d = self.p.depth;
                    self.body(d, "");
                }
            }
        }
    }
    fn junk(&mut self) -> String {
        let all = [
            ";", "/", "=", "[", "]", "(", ")", "<", ">", ",", "{", "}", "a", "l:", "&l", "&{/a}", "\"s\"", "1", "0x2", "/dts-v1/", "/plugin/", "/bits/", "/delete-node/",
            "/delete-property/", "/omit-if-no-ref/", "/include/", "/memreserve/", "/foo/", "$", "é", "#", "#include", "-", "@", "\\", "*", "&", "\"", "/*", "//", "😀", "0", ":", "%",
            "l1:", "compatible",
        ];
        self.r.pick(&all).to_string()
    }
    fn mutate(&mut self) {
        let n = *self.r.pick(&[1, 1, 1, 2, 3]);
        for _ in 0..n {
            if self.t.is_empty() {
                return;
            }
            let i = self.r.below(self.t.len());
            match self.r.below(8) {
                0 | 1 => {
                    self.t.remove(i);
                }
                2 => {
                    let x = self.t[i].clone();
                    self.t.insert(i, x);
                }
                3 => {
                    let j = self.r.below(self.t.len());
                    self.t.swap(i, j);
                }
                4 => {
                    let x = self.junk();
                    self.t.insert(i, x);
                }
                5 => self.t[i] = self.junk(),
                6 => self.t.truncate(i),
                _ => {
                    let mut c: Vec<char> = self.t[i].chars().collect();
                    if !c.is_empty() {
                        let k = self.r.below(c.len());
                        if self.r.chance(1, 2) {
                            c.remove(k);
                        } else {
                            let x = self.junk();
                            c[k] = x.chars().next().unwrap();
                        }
                        self.t[i] = c.into_iter().collect();
                    }
                }
            }
        }
    }
    /// a piece of layout; `must`: tokens have to stay apart
    fn gap(&mut self, must: bool) -> String {
        let mut s = String::new();
        if self.m(self.p.comments) {
            s += &match self.r.below(8) {
                0 => "// c\n".to_string(),
                1 => "/* c */".into(),
                2 => "/**/".into(),
                3 => "/* a\n * b\n **/".into(),
                4 => "//é😀\n".into(),
                5 => "/* 中😀 \" */".into(),
                6 => "// \"x /* \n".into(),
                _ => "/* // */\n".into(),
            };
            if self.r.chance(1, 3) {
                s.insert(0, ' ');
            }
        }
        if must || self.r.chance(3, 4) {
            s += *self.r.pick(&[" ", " ", " ", "\n", "\n    ", "\t", "  ", "\r\n", "\n\n"]);
        }
        s
    }
    pub fn render(&mut self) -> String {
        if self.m(self.p.mutate) {
            self.mutate();
        }
        let t = std::mem::take(&mut self.t);
        let mut s = String::new();
        for (i, x) in t.iter().enumerate() {
            let word = |c: char| c.is_ascii_alphanumeric() || ",._+?#-:@&".contains(c);
            let must = i > 0 && (t[i - 1].ends_with(word) && x.starts_with(word) || t[i - 1].ends_with('/') && x.starts_with(['/', '*']) || t[i - 1] == "/" || x == "/");
            s += &self.gap(must);
            s += x;
        }
        if self.r.chance(2, 3) {
            s += &self.gap(true);
        }
        s
    }
}

/// random characters, biased to those that mean something
pub fn chars(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => r.below(4),
        1 => r.below(12),
        2 => r.below(40),
        _ => r.below(120),
    };
    let syms: Vec<char> = "abzAZ019_,.+-#?@:;/=[]()<>{}&\"\\* \t\n\r\u{c}x$%!'é😀中ÿ\u{80}\u{0}\u{b}\u{2028}".chars().collect();
    (0..n).map(|_| *r.pick(&syms)).collect()
}

/// random tokens
pub fn tokens(r: &mut Rng) -> String {
    let n = r.below(14) + 1;
    let mut g = Gen::new(r, PLAIN);
    let mut s = String::new();
    for _ in 0..n {
        s += &g.junk();
        if g.r.chance(3, 4) {
            s.push(*g.r.pick(&[' ', '\n']));
        }
    }
    s
}

pub fn text(r: &mut Rng, p: Profile) -> String {
    if r.below(1000) < p.soup {
        return match r.below(3) {
            0 => chars(r),
            1 => tokens(r),
            _ => format!("/dts-v1/; / {{ {} }};", tokens(r)),
        };
    }
    let mut p = p;
    p.depth = r.below(p.depth + 1);
    if r.chance(1, 4) {
        p.comments *= 4;
    }
    let n = *r.pick(&[1, 1, 2, 3, 5]);
    let mut g = Gen::new(r, p);
    g.doc(n);
    g.render()
}
