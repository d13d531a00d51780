// this unit looks at the instruction lists, not at parents and roots
pub open spec fn keep_ins() -> bool { true }
pub open spec fn keep_par() -> bool { false }
