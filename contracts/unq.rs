// ---- enquote::unquote: what a quoted text says (proved of the crate's own source in unit ENQ)
pub open spec fn digit_of(c: char, base: int) -> int {
    let v = if '0' <= c && c <= '9' { c as int - '0' as int } else if 'a' <= c && c <= 'z' { c as int - 'a' as int + 10 }
        else if 'A' <= c && c <= 'Z' { c as int - 'A' as int + 10 } else { base };
    if v < base { v } else { -1 }
}
pub open spec fn num(s: Str, base: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { num(s.drop_last(), base) * base + digit_of(s.last(), base) } }
pub open spec fn all_digits(d: Str, base: int) -> bool { forall|i: int| 0 <= i < d.len() ==> digit_of(#[trigger] d[i], base) >= 0 }
/// what `from_str_radix` of an unsigned type accepts: an optional `+`, then digits, in range
#[verifier::opaque]
pub open spec fn radix_of(s: Str, base: int, max: int) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && all_digits(d, base) && 0 <= num(d, base) <= max { Some(num(d, base)) } else { None }
}
/// the n characters from position k on, filled up with NULs
pub open spec fn grab(s: Str, k: int, n: int) -> Str { Seq::new(n as nat, |i: int| if k + i < s.len() { s[k + i] } else { '\0' }) }
pub open spec fn scalar(v: int) -> Option<char> {
    if 0 <= v < 0xD800 || 0xE000 <= v <= 0x10FFFF { Some(v as char) } else { None }
}
pub open spec fn hex_char(t: Str) -> Option<char> { match radix_of(t, 16, 0xFFFF_FFFF) { Some(v) => scalar(v), None => None } }
/// the escapes of one letter
pub open spec fn letter_of(e: char) -> Option<char> {
    if e == '\\' || e == '"' || e == '\'' || e == '`' { Some(e) }
    else if e == 'a' { Some('\x07') } else if e == 'b' { Some('\x08') } else if e == 'f' { Some('\x0c') } else if e == 'n' { Some('\n') }
    else if e == 'r' { Some('\r') } else if e == 't' { Some('\t') } else if e == 'v' { Some('\x0b') } else { None }
}
/// the character an escape at the start of s stands for, and how many characters it takes
pub open spec fn esc_of(s: Str) -> Option<(char, int)> {
    if s.len() < 2 { None } else {
        let e = s[1];
        if letter_of(e) is Some { Some((letter_of(e)->Some_0, 2)) }
        else if is_digit(e) { match radix_of(seq![e] + grab(s, 2, 2), 8, 255) { Some(v) => Some((v as char, 4)), None => None } }
        else if e == 'x' { match radix_of(grab(s, 2, 2), 16, 255) { Some(v) => Some((v as char, 4)), None => None } }
        else if e == 'u' { match hex_char(grab(s, 2, 4)) { Some(c) => Some((c, 6)), None => None } }
        else if e == 'U' { match hex_char(grab(s, 2, 8)) { Some(c) => Some((c, 10)), None => None } }
        else { None }
    }
}
pub open spec fn before_all(c: char, t: Option<Str>) -> Option<Str> { match t { Some(x) => Some(seq![c] + x), None => None } }
pub open spec fn unesc(s: Str, quote: Option<char>) -> Option<Str>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) }
    else if quote == Some(s[0]) { None }
    else if s[0] != '\\' { before_all(s[0], unesc(s.skip(1), quote)) }
    else { match esc_of(s) {
        Some((c, k)) => if 0 < k <= s.len() { before_all(c, unesc(s.skip(k), quote)) } else { None },
        None => None } }
}
#[verifier::opaque]
pub open spec fn unq(s: Str) -> Option<Str> {
    if s.len() >= 2 && (s[0] == '"' || s[0] == '\'' || s[0] == '`') && s.last() == s[0] { unesc(s.subrange(1, s.len() - 1), Some(s[0])) } else { None }
}
