// the errors of the parser: thiserror derives the conversions
verus! {

pub enum Error { UnknownPrimitiveType(String), ParseIntError, ParseFloatError, FloatIsInfinite, UnsupportedDocumentation, AstGenerationFailure }
impl vstd::std_specs::convert::FromSpecImpl<std::num::ParseIntError> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: std::num::ParseIntError) -> Error { Error::ParseIntError }
}
impl vstd::std_specs::convert::FromSpecImpl<std::num::ParseFloatError> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: std::num::ParseFloatError) -> Error { Error::ParseFloatError }
}
impl From<std::num::ParseIntError> for Error { fn from(_e: std::num::ParseIntError) -> Error { Error::ParseIntError } }
impl From<std::num::ParseFloatError> for Error { fn from(_e: std::num::ParseFloatError) -> Error { Error::ParseFloatError } }

}
