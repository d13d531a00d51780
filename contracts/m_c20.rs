// the parts of the contracts this property switches on (written by tools/gen_units.py)
pub open spec fn M_IN() -> bool { false }
pub open spec fn M_C3() -> bool { false }
pub open spec fn M_EX() -> bool { true }
pub open spec fn M_ERR() -> bool { false }
pub open spec fn X_ISPAN() -> bool { true }
pub open spec fn X_VSPAN() -> bool { false }
pub open spec fn X_TEXT() -> bool { true }
pub open spec fn X_ELEMS() -> bool { false }
pub open spec fn X_PIECES() -> bool { false }
pub open spec fn X_KIND() -> bool { true }
pub open spec fn K(r: Rule) -> bool { r == Rule::arg || r == Rule::env || r == Rule::label }
pub open spec fn err_ok(e: Error, s: Str) -> bool { true }
pub open spec fn err_un(e: Error, s: Str) -> bool { true }
