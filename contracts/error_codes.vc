@module dts::error_codes file ginko/src/dts/error_codes.rs
@use crate::spec::*
@dropuse enum_map::*
@dropuse strum::*
@noderive SeverityMap PartialEq
@noderive SeverityMap Eq
@text
/// overlong names, compatible values that are no strings and duplicate directives are warnings
pub open spec fn severity(k: ErrorCode) -> Severity {
    match k {
        ErrorCode::NameTooLong | ErrorCode::NonStringInCompatible | ErrorCode::DuplicateDirective => Severity::Warning,
        _ => Severity::Error,
    }
}
pub open spec fn standard(m: SeverityMap) -> bool { forall|k: ErrorCode| #[trigger] m.inner.at(k) == severity(k) }
impl vstd::std_specs::core::IndexSpecImpl<ErrorCode> for SeverityMap {
    open spec fn index_req(&self, k: &ErrorCode) -> bool { true }
}
@fn <SeverityMap as Default>::default ret r
    ensures standard(r),
@fn <SeverityMap as Index<ErrorCode>>::index ret r
    ensures *r == self.inner.at(key),
@rewrite
self.inner.index(key) >>> self.inner.get(key)
