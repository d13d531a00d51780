#fn parse_dockerfile
#spec
    ensures match r { Ok(d) => d.content@ == input@ && numbered(d.instructions@) && d.global_args@ == globals(d.instructions@), Err(_) => true }
#loop 0
    invariant
        numbered(instructions@), global_args@ == globals(instructions@),
        from_index == froms(instructions@), from_found <==> froms(instructions@) > 0,
        instructions@.len() <= $i0,
#mark loop0_start
//raw
    let ghost g = instructions@;
    proof { lemma_froms(g); }
#mark loop0_end
    if instructions@.len() > g.len() { assert(instructions@.drop_last() =~= g); lemma_number(g, instructions@); }
#fn Instruction::try_from@TryFrom<Pair>
