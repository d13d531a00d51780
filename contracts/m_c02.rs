// the parts of the contracts this property switches on
pub open spec fn M_IN() -> bool { true }
pub open spec fn M_C3() -> bool { false }
pub open spec fn M_EX() -> bool { false }
pub open spec fn M_ERR() -> bool { false }
pub open spec fn X_ISPAN() -> bool { false }
pub open spec fn X_VSPAN() -> bool { false }
pub open spec fn X_TEXT() -> bool { false }
pub open spec fn X_ELEMS() -> bool { false }
pub open spec fn X_PIECES() -> bool { false }
pub open spec fn X_KIND() -> bool { false }
pub open spec fn K(r: Rule) -> bool { true }
pub open spec fn err_ok(e: Error, s: Str) -> bool { M_ERR() ==> match e { Error::UnescapeError { source: _ } => has_bad_str(s), Error::GenericParseError { message } => message@ == "image reference digest is invalid"@, _ => false } }

pub open spec fn err_un(e: Error, s: Str) -> bool { M_ERR() ==> e is UnescapeError && has_bad_str(s) }
