@module dts::data file ginko/src/dts/data.rs
@use crate::spec::*
@drop impl Display for*
@drop impl Debug for*
@fn <FileType as From<&Path>>::from ret r
    ensures r == (match sp_extension(value) { Some(e) => sp_file_type(e), None => FileType::Unknown }),
@rewrite
value.extension().and_then(|extension| extension.to_str()) >>> crate::spec::extension_str(value)
@fn FileType::from_file_ending ret r
    ensures r == sp_file_type(ending@),
@text
/// the file type that a file ending stands for
impl vstd::std_specs::convert::FromSpecImpl<&Path> for FileType {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: &Path) -> Self { match sp_extension(p) { Some(e) => sp_file_type(e), None => FileType::Unknown } }
}
pub open spec fn sp_file_type(e: Seq<char>) -> FileType {
    if e == "dts"@ { FileType::DtSource }
    else if e == "dtsi"@ { FileType::DtSourceInclude }
    else if e == "dtso"@ || e == "overlay"@ { FileType::DtSourceOverlay }
    else { FileType::Unknown }
}
@fn Position::line ret r
    ensures r == self.line,
@fn Position::character ret r
    ensures r == self.character,
@fn Position::zero ret r
    ensures r == (Position { line: 0, character: 0 }),
@fn Position::new ret r
    ensures r == (Position { line: line, character: col }),
@fn Position::to ret r
    requires pos_lt(*self, other),
    ensures r == (Span { start: *self, end: other }),
@fn Position::offset_by_char ret r
    requires 0 <= self.character + count <= u32::MAX,
    ensures r == (Position { line: self.line, character: (self.character + count) as u32 }),
@fn Position::as_span ret r
    ensures r == (Span { start: *self, end: *self }),
@fn Position::as_char_span ret r
    requires self.character < u32::MAX,
    ensures r == (Span { start: *self, end: Position { line: self.line, character: (self.character + 1) as u32 } }),
@fn Span::new ret r
    ensures r == (Span { start: start, end: end }),
@fn Span::start ret r
    ensures r == self.start,
@fn Span::end ret r
    ensures r == self.end,
@fn Span::contains ret r
    ensures r == (!pos_lt(*position, self.start) && pos_lt(*position, self.end)),
@fn Span::extend_start ret r
    requires 0 <= self.start.character + magnitude <= u32::MAX,
    ensures r == (Span { start: Position { line: self.start.line, character: (self.start.character + magnitude) as u32 }, end: self.end }),
@inside trait HasSpan
    spec fn sp(&self) -> Span;
    /// whether the span is not reversed, which `Position::to` checks in debug builds
    spec fn sp_ok(&self) -> bool;
@fn HasSpan::span ret r
    requires self.sp_ok()
    ensures r == self.sp()
@fn HasSpan::start ret r
    requires self.sp_ok()
    ensures r == self.sp().start
@fn HasSpan::end ret r
    requires self.sp_ok()
    ensures r == self.sp().end
@inside impl HasSpan for Span
    open spec fn sp(&self) -> Span { *self }
    open spec fn sp_ok(&self) -> bool { true }
@fn <Span as HasSpan>::span
@inside trait HasSource
    spec fn src(&self) -> Arc<Path>;
@fn HasSource::source ret r
    ensures r == self.src()
