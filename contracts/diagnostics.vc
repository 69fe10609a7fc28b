@module dts::diagnostics file ginko/src/dts/diagnostics.rs
@use crate::spec::*
@use crate::dts::tokens::token::*
@dropuse itertools::Itertools
@dropuse std::fmt::*
@drop impl Display for*
@drop struct DiagnosticPrinter
@drop impl DiagnosticPrinter<'a>
@noderive Diagnostic PartialEq
@text
/// An issue: its kind and its place. The text of the message is not specified here.
pub struct SDiag { pub kind: ErrorCode, pub span: Span, pub src: Arc<Path> }
impl View for Diagnostic {
    type V = SDiag;
    open spec fn view(&self) -> SDiag { SDiag { kind: self.kind, span: self.span, src: self.source } }
}
pub open spec fn expected_at(span: Span, src: Arc<Path>) -> SDiag {
    SDiag { kind: ErrorCode::Expected, span, src }
}
@fn Diagnostic::new ret r
    ensures r@ == (SDiag { kind, span, src: source }),
@fn Diagnostic::io_error ret r
    ensures r@ == (SDiag { kind: ErrorCode::IOError, span, src: source }),
@fn Diagnostic::from_token ret r
    ensures r@ == (SDiag { kind, span: token@.span, src: token@.src }),
@fn Diagnostic::parse_int_error ret r
    ensures r@ == (SDiag { kind: ErrorCode::IntError, span, src: source }),
@fn Diagnostic::expected ret r
    ensures r@ == expected_at(span, source),
@fn Diagnostic::kind ret r
    ensures *r == self@.kind,
@inside impl HasSpan for Diagnostic
    open spec fn sp(&self) -> Span { self.span }
    open spec fn sp_ok(&self) -> bool { true }
@inside impl HasSource for Diagnostic
    open spec fn src(&self) -> Arc<Path> { self.source }
@fn <Diagnostic as HasSpan>::span
@fn <Diagnostic as HasSource>::source
@fn Diagnostic::severity ret r
    ensures r == map.inner.at(self@.kind),
@fn Diagnostic::cyclic_dependency_error ret r
    ensures r@ == (SDiag { kind: ErrorCode::CyclicDependencyError, span, src: source }),
@rewrite
err.cycle().iter().map(|element| format!("{}", element.display())).join(" -> ") >>> crate::spec::fmt_opaque()
