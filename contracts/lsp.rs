// The part of `tower_lsp`, `lsp_types` and `url` that the language server uses. Types are those of
// `lsp_types`, fields that are never set aside; functions are trusted to do what is stated here.
use vstd::prelude::*;
use crate::spec::*;
use crate::host::*;
use std::path::{Path as StdPath, PathBuf};
verus! {

#[derive(Clone, Copy)]
pub struct Position { pub line: u32, pub character: u32 }
impl Position {
    pub fn new(line: u32, character: u32) -> (r: Position)
        ensures r == (Position { line, character }),
    { Position { line, character } }
}
#[derive(Clone, Copy)]
pub struct Range { pub start: Position, pub end: Position }
impl Range {
    pub fn new(start: Position, end: Position) -> (r: Range)
        ensures r == (Range { start, end }),
    { Range { start, end } }
}
#[derive(Clone, Copy)]
pub struct DiagnosticSeverity(pub i32);
impl DiagnosticSeverity {
    pub const ERROR: DiagnosticSeverity = DiagnosticSeverity(1);
    pub const WARNING: DiagnosticSeverity = DiagnosticSeverity(2);
    pub const INFORMATION: DiagnosticSeverity = DiagnosticSeverity(3);
    pub const HINT: DiagnosticSeverity = DiagnosticSeverity(4);
}
pub enum NumberOrString { Number(i32), String(String) }
#[verifier::external_body]
pub struct CodeDescription {}
#[verifier::external_body]
pub struct RelatedInformation {}
#[verifier::external_body]
pub struct DiagnosticTag {}
#[verifier::external_body]
pub struct Value {}
pub struct Diagnostic {
    pub range: Range,
    pub severity: Option<DiagnosticSeverity>,
    pub code: Option<NumberOrString>,
    pub code_description: Option<CodeDescription>,
    pub source: Option<String>,
    pub message: String,
    pub related_information: Option<Vec<RelatedInformation>>,
    pub tags: Option<Vec<DiagnosticTag>>,
    pub data: Option<Value>,
}
impl Diagnostic {
    #[verifier::external_body]
    pub fn default() -> (r: Diagnostic)
        ensures r.severity is None, r.code is None, r.code_description is None, r.source is None, r.related_information is None, r.tags is None, r.data is None,
    { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct SymbolKind(pub i32);
impl SymbolKind {
    pub const FILE: SymbolKind = SymbolKind(1);
    pub const MODULE: SymbolKind = SymbolKind(2);
    pub const PROPERTY: SymbolKind = SymbolKind(7);
    pub const FIELD: SymbolKind = SymbolKind(8);
}
#[derive(Clone, Copy)]
pub struct SymbolTag(pub i32);
impl SymbolTag {
    pub const DEPRECATED: SymbolTag = SymbolTag(1);
}
pub struct DocumentSymbol {
    pub name: String,
    pub detail: Option<String>,
    pub kind: SymbolKind,
    pub tags: Option<Vec<SymbolTag>>,
    pub deprecated: Option<bool>,
    pub range: Range,
    pub selection_range: Range,
    pub children: Option<Vec<DocumentSymbol>>,
}
#[verifier::external_body]
pub struct SymbolInformation {}
pub enum DocumentSymbolResponse { Flat(Vec<SymbolInformation>), Nested(Vec<DocumentSymbol>) }
pub enum MarkedString { String(String), LanguageString(Value) }
pub enum HoverContents { Scalar(MarkedString), Array(Vec<MarkedString>), Markup(Value) }
pub struct Hover { pub contents: HoverContents, pub range: Option<Range> }
pub struct Location { pub uri: Url, pub range: Range }
impl Location {
    pub fn new(uri: Url, range: Range) -> (r: Location)
        ensures r == (Location { uri, range }),
    { Location { uri, range } }
}
pub enum GotoDefinitionResponse { Scalar(Location), Array(Vec<Location>), Link(Value) }

// ---- URLs -----------------------------------------------------------------------------------------

#[verifier::external_body]
pub struct Url {}
/// the file that a URL stands for
pub uninterp spec fn file_of(u: Url) -> Option<PathBuf>;
/// the URL of a file
pub uninterp spec fn url_of(p: PathBuf) -> Option<Url>;
/// URLs stand for absolute paths, and each absolute path has a URL
#[verifier::external_body]
pub proof fn axiom_url(u: Url, p: PathBuf)
    ensures file_of(u) matches Some(q) ==> absolute(q), absolute(p) ==> url_of(p) is Some,
{}
impl Url {
    #[verifier::external_body]
    pub fn to_file_path(&self) -> (r: core::result::Result<PathBuf, ()>)
        ensures (match r { Ok(p) => Some(p), Err(_) => None }) == file_of(*self),
    { unimplemented!() }
    /// `Url::from_file_path`
    #[verifier::external_body]
    pub fn of_path(p: &StdPath) -> (r: core::result::Result<Url, ()>)
        ensures (match r { Ok(u) => Some(u), Err(_) => None }) == url_of(owned(p)),
    { unimplemented!() }
    /// `Url::from_file_path(p).unwrap()`; does not return if there is none
    #[verifier::external_body]
    pub fn must(p: &StdPath) -> (r: Url)
        ensures url_of(owned(p)) == Some(r),
    { unimplemented!() }
}

// ---- the protocol -----------------------------------------------------------------------------------

#[verifier::external_body]
pub struct RpcError {}
pub type Result<T> = core::result::Result<T, RpcError>;
pub struct TextDocumentItem { pub uri: Url, pub language_id: String, pub version: i32, pub text: String }
pub struct TextDocumentIdentifier { pub uri: Url }
pub struct VersionedTextDocumentIdentifier { pub uri: Url, pub version: i32 }
pub struct TextDocumentContentChangeEvent { pub range: Option<Range>, pub range_length: Option<u32>, pub text: String }
pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
pub struct DidChangeTextDocumentParams { pub text_document: VersionedTextDocumentIdentifier, pub content_changes: Vec<TextDocumentContentChangeEvent> }
pub struct DidCloseTextDocumentParams { pub text_document: TextDocumentIdentifier }
#[verifier::external_body]
pub struct DidSaveTextDocumentParams {}
#[verifier::external_body]
pub struct InitializedParams {}
pub struct DidChangeConfigurationParams { pub settings: Value }
pub struct TextDocumentPositionParams { pub text_document: TextDocumentIdentifier, pub position: Position }
pub struct GotoDefinitionParams { pub text_document_position_params: TextDocumentPositionParams }
pub struct HoverParams { pub text_document_position_params: TextDocumentPositionParams }
pub struct DocumentSymbolParams { pub text_document: TextDocumentIdentifier }
#[verifier::external_body]
pub struct MessageType {}
/// `MessageType::ERROR`
#[verifier::external_body]
pub fn error_type() -> MessageType { unimplemented!() }
pub struct InitializeParams { pub initialization_options: Option<Value> }
#[verifier::external_body]
pub struct ServerInfo {}
pub enum TextDocumentSyncCapability { Kind(TextDocumentSyncKind), Options(Value) }
#[derive(Clone, Copy)]
pub struct TextDocumentSyncKind(pub i32);
impl TextDocumentSyncKind { pub const FULL: TextDocumentSyncKind = TextDocumentSyncKind(1); }
pub enum HoverProviderCapability { Simple(bool), Options(Value) }
pub enum OneOf<A, B> { Left(A), Right(B) }
/// (fields that are not set are left out)
pub struct ServerCapabilities {
    pub text_document_sync: Option<TextDocumentSyncCapability>,
    pub hover_provider: Option<HoverProviderCapability>,
    pub document_symbol_provider: Option<OneOf<bool, Value>>,
    pub definition_provider: Option<OneOf<bool, Value>>,
    pub rest: Option<Value>,
}
impl ServerCapabilities {
    pub fn default() -> ServerCapabilities { ServerCapabilities { text_document_sync: None, hover_provider: None, document_symbol_provider: None, definition_provider: None, rest: None } }
}
pub struct InitializeResult { pub server_info: Option<ServerInfo>, pub capabilities: ServerCapabilities }
/// `serde_json::from_value(v).unwrap_or_default()`: the list of include directories
pub uninterp spec fn includes_in(v: Value) -> Seq<String>;
#[verifier::external_body]
pub fn config_of(v: Value) -> (r: crate::ls::server::ProjectConfig)
    ensures r.includes@ == includes_in(v),
{ unimplemented!() }
/// `v.unwrap_or_default()`
#[verifier::external_body]
pub fn or_null(v: Option<Value>) -> (r: Value)
    ensures v matches Some(x) ==> r == x,
{ unimplemented!() }
/// a list of issues as it is sent
pub struct Sent { pub url: Url, pub issues: Seq<Diagnostic>, pub version: Option<i32> }
/// stands for `tower_lsp::Client`
#[verifier::external_body]
pub struct Client {}
impl Client {
    /// all lists of issues sent so far
    pub uninterp spec fn sent(&self) -> Seq<Sent>;
    #[verifier::external_body]
    pub fn publish_diagnostics(&mut self, url: Url, issues: Vec<Diagnostic>, version: Option<i32>)
        ensures final(self).sent() == old(self).sent().push(Sent { url, issues: issues@, version }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn show_message(&self, typ: MessageType, message: String)
    { unimplemented!() }
}
/// `v.into_iter().last()`
pub fn last_of<T>(v: Vec<T>) -> (r: Option<T>)
    ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(v@.last()),
{ let mut v = v; v.pop() }
/// `v.into_iter().map(|p| p.to_owned()).collect_vec()` over paths
pub fn owned_paths(v: Vec<&StdPath>) -> (r: Vec<PathBuf>)
    ensures r@ == seen_paths(v@),
{
    let mut r: Vec<PathBuf> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@ == seen_paths(v@).subrange(0, i as int),
        decreases v@.len() - i,
    { r.push(v[i].to_path_buf()); i = i + 1; proof { assert(r@ =~= seen_paths(v@).subrange(0, i as int)); } }
    proof { assert(seen_paths(v@).subrange(0, v@.len() as int) =~= seen_paths(v@)); }
    r
}
/// the name of an error code, as `strum` derives it
pub uninterp spec fn code_name(k: crate::dts::error_codes::ErrorCode) -> Seq<char>;
/// `kind.as_ref().to_string()`
#[verifier::external_body]
pub fn name_of_code(k: crate::dts::error_codes::ErrorCode) -> (r: String)
    ensures r@ == code_name(k),
{ unimplemented!() }

} // verus!
