// C12: the variables are the global arguments with a value, later ones winning
pub open spec fn gvars(args: Seq<ArgInstruction>) -> Map<Str, Str>
    decreases args.len()
{
    if args.len() == 0 { Map::empty() } else { match args.last().value {
        Some(v) => gvars(args.drop_last()).insert(args.last().name.content@, v.content@),
        None => gvars(args.drop_last()),
    } }
}
pub open spec fn sp_map(s: Seq<(&str, &str)>) -> Map<Str, Str> { map_of(s) }
pub open spec fn resolved(text: Str, vars: Map<Str, Str>) -> Option<Img> {
    match subst(text, vars, 16) { Some(t) => Some(parse_spec(t)), None => None }
}
pub open spec fn used_by(text: Str, vars: Map<Str, Str>) -> Set<Str> { used(text, vars, 16, refs(text, 0).len() as int) }
