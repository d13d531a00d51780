pub open spec fn X_KIND() -> bool { false }
