#fn parse_dockerfile
#spec
    ensures r == pr(input@)
#fn Dockerfile::parse
#spec
    ensures r == pr(input@)
#fn Dockerfile::from_str@FromStr
#spec
    ensures r == pr(s@)
#fn Dockerfile::from_reader
#spec
    ensures match reader.rd() { Some(t) => r == pr(t), None => r is Err && r->Err_0 is ReadError }
#mark tail
    assert(Seq::<char>::empty() + reader.rd()->Some_0 =~= reader.rd()->Some_0);
