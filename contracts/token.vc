@module dts::tokens::token file ginko/src/dts/tokens/token.rs
@use crate::spec::*
@drop impl Display for*
@noderive TokenKind PartialEq
@noderive CompilerDirective PartialEq
@noderive Reference PartialEq
@text
/// What a token means: the kinds of tokens, with the text they carry.
pub enum SDir { V1, Mem, DelNode, DelProp, Plugin, Bits, Omit, Include, Other(Seq<char>) }
pub enum SRef { Simple(Seq<char>), Path(Seq<char>) }
pub enum SKind {
    Semicolon, Slash, Equal, OpenBracket, CloseBracket, OpenParen, CloseParen, ChevronLeft,
    ChevronRight, Comma, OpenBrace, CloseBrace,
    Ident(Seq<char>), Label(Seq<char>), String(Seq<char>), Number(Seq<char>),
    Directive(SDir), Ref(SRef), Comment(Seq<char>), Unknown(u8),
}
pub struct STok { pub kind: SKind, pub span: Span, pub src: Arc<Path> }

impl View for CompilerDirective {
    type V = SDir;
    open spec fn view(&self) -> SDir {
        match self {
            CompilerDirective::DTSVersionHeader => SDir::V1,
            CompilerDirective::MemReserve => SDir::Mem,
            CompilerDirective::DeleteNode => SDir::DelNode,
            CompilerDirective::DeleteProperty => SDir::DelProp,
            CompilerDirective::Plugin => SDir::Plugin,
            CompilerDirective::Bits => SDir::Bits,
            CompilerDirective::OmitIfNoRef => SDir::Omit,
            CompilerDirective::Include => SDir::Include,
            CompilerDirective::Other(s) => SDir::Other(s@),
        }
    }
}
impl View for Reference {
    type V = SRef;
    open spec fn view(&self) -> SRef {
        match self {
            Reference::Simple(s) => SRef::Simple(s@),
            Reference::Path(s) => SRef::Path(s@),
        }
    }
}
impl View for TokenKind {
    type V = SKind;
    open spec fn view(&self) -> SKind {
        match self {
            TokenKind::Semicolon => SKind::Semicolon,
            TokenKind::Slash => SKind::Slash,
            TokenKind::Equal => SKind::Equal,
            TokenKind::OpenBracket => SKind::OpenBracket,
            TokenKind::CloseBracket => SKind::CloseBracket,
            TokenKind::OpenParen => SKind::OpenParen,
            TokenKind::CloseParen => SKind::CloseParen,
            TokenKind::ChevronLeft => SKind::ChevronLeft,
            TokenKind::ChevronRight => SKind::ChevronRight,
            TokenKind::Comma => SKind::Comma,
            TokenKind::OpenBrace => SKind::OpenBrace,
            TokenKind::CloseBrace => SKind::CloseBrace,
            TokenKind::Ident(s) => SKind::Ident(s@),
            TokenKind::Label(s) => SKind::Label(s@),
            TokenKind::String(s) => SKind::String(s@),
            TokenKind::UnparsedNumber(s) => SKind::Number(s@),
            TokenKind::Directive(d) => SKind::Directive(d@),
            TokenKind::Ref(r) => SKind::Ref(r@),
            TokenKind::Comment(s) => SKind::Comment(s@),
            TokenKind::Unknown(b) => SKind::Unknown(*b),
        }
    }
}
impl View for Token {
    type V = STok;
    open spec fn view(&self) -> STok { STok { kind: self.kind@, span: self.span, src: self.source } }
}
pub open spec fn opt_tok(t: Option<Token>) -> Option<STok> {
    match t { Some(t) => Some(t@), None => None }
}
pub open spec fn opt_ref(t: Option<&Token>) -> Option<STok> {
    match t { Some(t) => Some(t@), None => None }
}
// derive(PartialEq) with the standard structural meaning (trusted)
impl vstd::std_specs::cmp::PartialEqSpecImpl for TokenKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl PartialEq for TokenKind { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for CompilerDirective {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl PartialEq for CompilerDirective { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Reference {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl PartialEq for Reference { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
@noderive Token PartialEq
@inside impl HasSpan for Token
    open spec fn sp(&self) -> Span { self.span }
    open spec fn sp_ok(&self) -> bool { true }
@inside impl HasSource for Token
    open spec fn src(&self) -> Arc<Path> { self.source }
@fn <Token as HasSpan>::span
@fn <Token as HasSource>::source
@module dts::tokens
@text

pub use self::lexer::{Lexer, PeekingLexer};
pub use self::token::{CompilerDirective, Reference, Token, TokenKind};
@module dts
@text
pub use self::data::{FileType, HasSpan, Position, Span};
pub use self::diagnostics::{Diagnostic, Severity};
