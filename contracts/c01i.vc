#fn is_registry
#fn ImageRef::parse
#mark entry
    lemma_reading(s@);
