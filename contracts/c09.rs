// C09: `line_start` is the position just after the last line feed before n (or 0)
pub proof fn c09_line_start(b: Seq<u8>, n: int)
    requires 0 <= n <= b.len()
    ensures 0 <= line_start(b, n) <= n,
        line_start(b, n) > 0 ==> b[line_start(b, n) - 1] == 10,
        forall|i: int| line_start(b, n) <= i < n ==> b[i] != 10,
        lfs(b, n) == 0 <==> line_start(b, n) == 0,
        0 <= lfs(b, n) <= n,
    decreases n
{ if n > 0 { c09_line_start(b, n - 1); } }
/// counting bytes 10 is counting line feed characters
pub open spec fn lf_chars(s: Str) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { lf_chars(s.drop_last()) + (if s.last() == '\n' { 1int } else { 0 }) } }
