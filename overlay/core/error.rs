use crate::constants::MAX_CODEPOINT;
use core::fmt;
use std::error;
#[derive(Debug, PartialEq)]
pub enum Error {
    InvalidCategory(Box<str>),
    InvalidVersion(Box<str>),
    InvalidCodepoints(u32, u32),
    CodepointNotInRange(u32, u32),
}

impl error::Error for Error {}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result
    /*@ ensures crate::shim::wrote(old(f), final(f), ret, error_text(*self)), @*/
    {
        /*@ broadcast use crate::shim::group_display; @*/
        match self {
            Error::InvalidCategory(category) => f.write_fmt(format_args!(
                "'{category}' is not a valid Unicode category"
            )),
            Error::InvalidVersion(version) => {
                f.write_fmt(format_args!("'{version}' is not a valid Unicode version"))
            }
            Error::InvalidCodepoints(minimum, maximum) => f.write_fmt(format_args!(
                "Minimum codepoint should be less or equal than maximum codepoint. Got {minimum} < {maximum}"
            )),
            Error::CodepointNotInRange(minimum, maximum) => f.write_fmt(format_args!(
                "Codepoints should be in [0; {MAX_CODEPOINT}] range. Got: [{minimum}; {maximum}]"
            )),
        }
    }
}


/*@
/// the message of each kind of error
pub open spec fn error_text(e: Error) -> Seq<char> {
    match e {
        Error::InvalidCategory(name) => "'"@ + name@ + "' is not a valid Unicode category"@,
        Error::InvalidVersion(name) => "'"@ + name@ + "' is not a valid Unicode version"@,
        Error::InvalidCodepoints(min, max) =>
            "Minimum codepoint should be less or equal than maximum codepoint. Got "@ + crate::shim::dec(min as nat) + " < "@ + crate::shim::dec(max as nat),
        Error::CodepointNotInRange(min, max) =>
            "Codepoints should be in [0; "@ + crate::shim::dec(1114111) + "] range. Got: ["@ + crate::shim::dec(min as nat) + "; "@ + crate::shim::dec(max as nat) + "]"@,
    }
}
@*/

/*@
/// printing has no precondition
impl vstd::std_specs::fmt::DisplaySpecImpl for Error { open spec fn fmt_req(&self, f: &core::fmt::Formatter<'_>) -> bool { true } }
@*/
