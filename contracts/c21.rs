/// wrapping a specific instruction and viewing it back loses nothing
pub fn c21_round_trip(x: FromInstruction, y: MiscInstruction)
{
    let i: Instruction = x.v_into();
    assert(i == Instruction::From(x));
    let s = i.span();
    assert(s == x.span);
    let b = i.into_from();
    assert(b == Some(x));
    let j: Instruction = y.v_into();
    let c = j.into_misc();
    assert(c == Some(y));
}
