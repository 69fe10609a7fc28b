//! Reference lexer, written from the lexical rules of device-tree sources (works on characters,
//! not on bytes, and shares no code with the repository).

pub type Pos = (u32, u32);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum K {
    Sym(char),
    Ident(String),
    Label(String),
    Str(String),
    Num(String),
    Dir(String),
    RefLabel(String),
    RefPath(String),
    Comment(String),
    /// first byte of a character (or of an unterminated construct) that starts no token
    Unknown(u8),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct T {
    pub k: K,
    pub s: Pos,
    pub e: Pos,
    /// index of the first character and behind the last one
    pub ci: (usize, usize),
}

#[derive(Clone)]
pub struct Lex {
    pub c: Vec<char>,
    pub i: usize,
    pub pos: Pos,
    /// a node or property name may come next (such names may start with any name character)
    pub names: bool,
    /// where the search for the last token began
    pub last: Pos,
}

fn name_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || ",._+?#-".contains(c)
}

impl Lex {
    pub fn new(text: &str) -> Lex {
        Lex { c: text.chars().collect(), i: 0, pos: (0, 0), names: true, last: (0, 0) }
    }
    fn peek(&self, k: usize) -> Option<char> {
        self.c.get(self.i + k).copied()
    }
    fn bump(&mut self) -> Option<char> {
        let c = *self.c.get(self.i)?;
        self.i += 1;
        if c == '\n' {
            self.pos = (self.pos.0 + 1, 0);
        } else {
            self.pos.1 += c.len_utf16() as u32;
        }
        Some(c)
    }
    fn take(&mut self, f: impl Fn(char) -> bool) -> String {
        let mut s = String::new();
        while let Some(c) = self.peek(0) {
            if !f(c) {
                break;
            }
            s.push(c);
            self.bump();
        }
        s
    }
    /// the next token, comments included
    pub fn raw(&mut self) -> Option<T> {
        self.last = self.pos;
        while matches!(self.peek(0), Some(' ' | '\t' | '\n' | '\r' | '\x0c')) {
            self.bump();
        }
        let s = self.pos;
        let i0 = self.i;
        let c = self.peek(0)?;
        let k = if c.is_ascii_alphabetic() || c == '_' || (self.names && ",.+-#?".contains(c)) {
            let name = self.take(name_char);
            match self.peek(0) {
                Some(':') => {
                    self.bump();
                    K::Label(name)
                }
                Some('@') => {
                    self.bump();
                    K::Ident(format!("{name}@{}", self.take(name_char)))
                }
                _ => K::Ident(name),
            }
        } else if c.is_ascii_digit() {
            K::Num(self.take(|c| c.is_ascii_alphanumeric()))
        } else {
            self.bump();
            match (c, self.peek(0)) {
                ('&', Some('{')) => {
                    self.bump();
                    let p = self.take(|c| c != '}');
                    match self.bump() {
                        Some(_) => K::RefPath(p),
                        None => K::Unknown(b'&'),
                    }
                }
                ('&', Some(l)) if l.is_ascii_alphabetic() => {
                    K::RefLabel(self.take(|c| c.is_ascii_alphanumeric() || c == '_'))
                }
                ('&', _) => K::RefLabel(String::new()),
                ('"', _) => self.string(),
                ('/', Some('/')) => {
                    self.bump();
                    K::Comment(self.take(|c| c != '\n'))
                }
                ('/', Some('*')) => {
                    self.bump();
                    let mut t = String::new();
                    loop {
                        if self.peek(0) == Some('*') && self.peek(1) == Some('/') {
                            self.bump();
                            self.bump();
                            break K::Comment(t);
                        }
                        match self.bump() {
                            Some(c) => t.push(c),
                            None => break K::Unknown(b'/'),
                        }
                    }
                }
                ('/', Some(l)) if l.is_ascii_alphabetic() => {
                    let d = self.take(|c| c != '/');
                    self.bump();
                    K::Dir(d)
                }
                (';' | '/' | '=' | '[' | ']' | '(' | ')' | '<' | '>' | ',' | '{' | '}', _) => {
                    if c == ';' || c == '{' {
                        self.names = true;
                    } else if c == '=' {
                        self.names = false;
                    }
                    K::Sym(c)
                }
                _ => K::Unknown(c.to_string().as_bytes()[0]),
            }
        };
        Some(T { k, s, e: self.pos, ci: (i0, self.i) })
    }
    /// behind the opening quote
    fn string(&mut self) -> K {
        let mut t = String::new();
        loop {
            match self.bump() {
                None => return K::Unknown(b'"'),
                Some('"') => return K::Str(t),
                Some('\\') => match self.bump() {
                    None => return K::Unknown(b'"'),
                    Some(c) => t.push(c),
                },
                Some(c) => t.push(c),
            }
        }
    }
    /// the next token that is not a comment
    pub fn tok(&mut self) -> Option<T> {
        loop {
            let t = self.raw()?;
            if !matches!(t.k, K::Comment(_)) {
                return Some(t);
            }
        }
    }
}
