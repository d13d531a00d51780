// C09: line feeds before a byte position, and where that line starts
pub open spec fn lfs(b: Seq<u8>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { lfs(b, n - 1) + (if b[n - 1] == 10 { 1int } else { 0 }) }
}
pub open spec fn line_start(b: Seq<u8>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else if b[n - 1] == 10 { n } else { line_start(b, n - 1) }
}
