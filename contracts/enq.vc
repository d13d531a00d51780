#fn take
#spec
    requires 0 <= old(iterator).vpos() <= old(iterator).vseq().len()
    ensures r@ == grab(old(iterator).vseq(), old(iterator).vpos(), n as int), final(iterator).vseq() == old(iterator).vseq(),
        final(iterator).vpos() == (if old(iterator).vpos() + n <= old(iterator).vseq().len() { old(iterator).vpos() + n } else { old(iterator).vseq().len() as int })
#loop 0
    invariant
        iterator.vseq() == old(iterator).vseq(), 0 <= old(iterator).vpos() <= iterator.vseq().len(),
        iterator.vpos() == (if old(iterator).vpos() + $i0 <= iterator.vseq().len() { old(iterator).vpos() + $i0 } else { iterator.vseq().len() as int }),
        s@ =~= grab(iterator.vseq(), old(iterator).vpos(), $i0),
#fn decode_unicode
#spec
    ensures match r { Ok(c) => hex_char(code_point@) == Some(c), Err(_) => hex_char(code_point@) is None }
#fn unescape
#spec
    ensures match r { Ok(x) => unesc(s@, illegal) == Some(x@), Err(_) => unesc(s@, illegal) is None }
#loop 0
    invariant
        chars.seq() == s@, 0 <= chars.pos() <= s@.len(), unesc(s@, illegal) == so_far(unescaped@, unesc(s@.skip(chars.pos()), illegal)),
    ensures unesc(s@, illegal) == Some(unescaped@)
#mark loop0_before
    assert(s@.skip(0) =~= s@); assert(so_far(unescaped@, unesc(s@, illegal)) == unesc(s@, illegal)) by { if unesc(s@, illegal) is Some { assert(unescaped@ + unesc(s@, illegal)->Some_0 =~= unesc(s@, illegal)->Some_0); } }
#mark loop0_start
//raw
    let ghost p = chars.pos(); let ghost u0 = unescaped@; let ghost t = s@.skip(p);
    proof {
        if p < s@.len() { lemma_step(s@, p); if t.len() >= 2 { lemma_cut(t); } }
        assert(s@.skip(p).len() == 0 ==> u0 + Seq::<char>::empty() =~= u0);
    }
#mark loop0_end
    assert(unescaped@ =~= u0 + seq![unescaped@.last()]);
    let c = unescaped@.last(); let x = unesc(s@.skip(chars.pos()), illegal);
    assert(unesc(t, illegal) == before_all(c, x));
    if x is Some { assert(u0 + (seq![c] + x->Some_0) =~= unescaped@ + x->Some_0); }
#fn unquote
#spec
    ensures match r { Ok(x) => unq(s@) == Some(x@), Err(_) => unq(s@) is None }
#mark entry
//raw
    let ghost s0 = s@;
    proof { reveal(unq); if s0.len() >= 2 && (s0[0] as u32) < 128 && s0.last() == s0[0] { lemma_inside(s0); } }
