#fn Stage::cmp@Ord
#spec
    ensures r == ord_of(self.index as int, other.index as int)
#fn Stage::partial_cmp@PartialOrd
#spec
    ensures r == Some(ord_of(self.index as int, other.index as int))
#fn Stage::eq@PartialEq
#spec
    ensures r == (self.index == other.index)
#fn StageParent::fmt@Display
#item
    open spec fn disp(&self) -> Str { match *self { StageParent::Image(i) => i.disp(), StageParent::Stage(k) => k.disp(), StageParent::Scratch => "scratch"@ } }
