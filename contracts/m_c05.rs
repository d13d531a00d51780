pub open spec fn X_KIND() -> bool { true }
