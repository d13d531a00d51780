// this unit looks at parents and roots, not at the instruction lists
pub open spec fn keep_ins() -> bool { false }
pub open spec fn keep_par() -> bool { true }
