//! Differential check of contracts assumed about libraries: the specification
//! functions of contracts/prelude.rs, pair.rs and regex.rs, transcribed, against
//! std, regex and the byte offsets of str.
//! usage: libcheck <regexes.json> <repo> <seed> <ms>
#[path = "../oracle/gen.rs"]
#[allow(dead_code)]
mod gen;
use gen::*;
use std::collections::{BTreeMap, HashMap};
use std::io::Read;
use std::time::{Duration, Instant};

type S = Vec<char>;
fn st(s: &[char]) -> String { s.iter().collect() }
// prelude.rs
fn first_of(s: &[char], c: char) -> Option<usize> { if s.is_empty() { None } else if s[0] == c { Some(0) } else { first_of(&s[1..], c).map(|x| x + 1) } }
fn last_of(s: &[char], c: char) -> Option<usize> { if s.is_empty() { None } else if s[s.len() - 1] == c { Some(s.len() - 1) } else { last_of(&s[..s.len() - 1], c) } }
fn splitn_spec(s: &[char], c: char, n: usize) -> Vec<String> {
    if n == 0 { return vec![]; }
    match first_of(s, c) { Some(k) if n > 1 => { let mut v = vec![st(&s[..k])]; v.extend(splitn_spec(&s[k + 1..], c, n - 1)); v } _ => vec![st(s)] }
}
fn split_spec(s: &[char], c: char) -> Vec<String> {
    match first_of(s, c) { Some(k) => { let mut v = vec![st(&s[..k])]; v.extend(split_spec(&s[k + 1..], c)); v } None => vec![st(s)] }
}
fn lower_char(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u32 as u8 + 32) as char } else { c } }
fn unsigned_of(s: &[char]) -> Option<u128> {
    let d = if !s.is_empty() && s[0] == '+' { &s[1..] } else { s };
    if d.is_empty() || d.len() > 30 || !d.iter().all(|c| '0' <= *c && *c <= '9') { return None; }
    let v = d.iter().fold(0u128, |a, c| a * 10 + (*c as u128 - 48));
    if v <= usize::MAX as u128 { Some(v) } else { None }
}
fn bo(s: &[char], i: usize) -> usize { s[..i].iter().map(|c| { let x = *c as u32; if x < 0x80 { 1 } else if x < 0x800 { 2 } else if x < 0x10000 { 3 } else { 4 } }).sum() }
fn is_ws(c: char) -> bool { let x = c as u32; (9 <= x && x <= 13) || x == 0x20 || x == 0x85 || x == 0xa0 || x == 0x1680 || (0x2000 <= x && x <= 0x200a) || x == 0x2028 || x == 0x2029 || x == 0x202f || x == 0x205f || x == 0x3000 }
fn trim_l(s: &[char], f: &dyn Fn(char) -> bool) -> S { if !s.is_empty() && f(s[0]) { trim_l(&s[1..], f) } else { s.to_vec() } }
fn trim_r(s: &[char], f: &dyn Fn(char) -> bool) -> S { if !s.is_empty() && f(s[s.len() - 1]) { trim_r(&s[..s.len() - 1], f) } else { s.to_vec() } }
fn upper_char(c: char) -> char { if 'a' <= c && c <= 'z' { (c as u32 as u8 - 32) as char } else { c } }
fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
fn is_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
// pair.rs
fn digit_of(c: char, base: u128) -> Option<u128> { let v = match c { '0'..='9' => c as u128 - 48, 'a'..='z' => c as u128 - 87, 'A'..='Z' => c as u128 - 55, _ => base }; if v < base { Some(v) } else { None } }
fn radix_of(s: &[char], base: u128, max: u128) -> Option<u128> {
    let d = if s.first() == Some(&'+') { &s[1..] } else { s };
    if d.is_empty() { return None; }
    let mut x = 0u128;
    for c in d { x = x.saturating_mul(base).saturating_add(digit_of(*c, base)?); }
    if x <= max { Some(x) } else { None }
}
fn scalar(v: u32) -> Option<char> { if v < 0xD800 || (0xE000..=0x10FFFF).contains(&v) { Some(unsafe { char::from_u32_unchecked(v) }) } else { None } }
fn esc_of(s: &[char]) -> Option<(char, usize)> {
    let e = *s.get(1)?;
    let grab = |n: usize| -> S { (0..n).map(|i| s.get(2 + i).copied().unwrap_or('\0')).collect() };
    let hex = |n: usize| radix_of(&grab(n), 16, u32::MAX as u128).and_then(|v| scalar(v as u32)).map(|c| (c, n + 2));
    match e {
        '\\' | '"' | '\'' | '`' => Some((e, 2)),
        'a' => Some(('\x07', 2)), 'b' => Some(('\x08', 2)), 'f' => Some(('\x0c', 2)), 'n' => Some(('\n', 2)),
        'r' => Some(('\r', 2)), 't' => Some(('\t', 2)), 'v' => Some(('\x0b', 2)),
        '0'..='9' => { let mut t = vec![e]; t.extend(grab(2)); radix_of(&t, 8, 255).map(|v| (v as u8 as char, 4)) }
        'x' => radix_of(&grab(2), 16, 255).map(|v| (v as u8 as char, 4)),
        'u' => hex(4), 'U' => hex(8), _ => None,
    }
}
fn unesc(s: &[char], q: char) -> Option<S> {
    let (mut i, mut out) = (0, vec![]);
    while i < s.len() {
        if s[i] == q { return None; }
        if s[i] != '\\' { out.push(s[i]); i += 1; continue; }
        let (c, k) = esc_of(&s[i..])?;
        if k > s.len() - i { return None; }
        out.push(c); i += k;
    }
    Some(out)
}
fn unq(s: &[char]) -> Option<S> { if s.len() >= 2 && matches!(s[0], '"' | '\'' | '`') && s[s.len() - 1] == s[0] { unesc(&s[1..s.len() - 1], s[0]) } else { None } }
fn replaced(s: &[char], a: &[char], b: &[char]) -> S {
    let (mut o, mut i) = (vec![], 0);
    while i < s.len() { if s[i..].starts_with(a) { o.extend(b); i += a.len(); } else { o.push(s[i]); i += 1; } }
    o
}
// regex.rs
enum Re { Empty, Chr(char), Class(Vec<(u32, u32)>), Rep(Vec<(u32, u32)>, usize), Cat(Vec<Re>), Alt(Vec<Re>), Cap(usize, Box<Re>), Start, End, Opt(Box<Re>) }
type Caps = BTreeMap<usize, (usize, usize)>;
enum K<'a> { Nil, Push(&'a Re, &'a K<'a>), Rest(&'a [Re], &'a K<'a>), CapEnd(usize, usize, &'a K<'a>) }
fn inc(c: &[(u32, u32)], x: char) -> bool { c.iter().any(|(a, b)| *a <= x as u32 && x as u32 <= *b) }
fn re_m(k: &K, s: &[char], i: usize, caps: &Caps) -> Option<(usize, Caps)> {
    match k {
        K::Nil => Some((i, caps.clone())),
        K::CapEnd(n, st, k) => { let mut c = caps.clone(); c.insert(*n, (*st, i)); re_m(k, s, i, &c) }
        K::Rest(v, k) => if v.is_empty() { re_m(k, s, i, caps) } else { re_m(&K::Push(&v[0], &K::Rest(&v[1..], k)), s, i, caps) },
        K::Push(r, k) => match r {
            Re::Empty => re_m(k, s, i, caps),
            Re::Chr(c) => if i < s.len() && s[i] == *c { re_m(k, s, i + 1, caps) } else { None },
            Re::Class(c) => if i < s.len() && inc(c, s[i]) { re_m(k, s, i + 1, caps) } else { None },
            Re::Rep(c, min) => {
                let mut j = i;
                while j < s.len() && inc(c, s[j]) { j += 1; }
                while j >= i + min { if let Some(x) = re_m(k, s, j, caps) { return Some(x); } if j == 0 { break; } j -= 1; }
                None
            }
            Re::Cat(v) => re_m(&K::Rest(v, k), s, i, caps),
            Re::Alt(v) => v.iter().find_map(|a| re_m(&K::Push(a, k), s, i, caps)),
            Re::Opt(a) => re_m(&K::Push(a, k), s, i, caps).or_else(|| re_m(k, s, i, caps)),
            Re::Cap(n, a) => re_m(&K::Push(a, &K::CapEnd(*n, i, k)), s, i, caps),
            Re::Start => if i == 0 { re_m(k, s, i, caps) } else { None },
            Re::End => if i == s.len() { re_m(k, s, i, caps) } else { None },
        },
    }
}
fn re_all(r: &Re, s: &[char]) -> Vec<(usize, usize, Caps)> {
    let (mut p, mut v) = (0, vec![]);
    while p <= s.len() {
        match re_m(&K::Push(r, &K::Nil), s, p, &Caps::new()) {
            Some((e, c)) => { v.push((p, e, c)); p = if e > p { e } else { p + 1 } }
            None => p += 1,
        }
    }
    v
}
fn rng(v: &serde_json::Value) -> Vec<(u32, u32)> { v.as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as u32, x[1].as_u64().unwrap() as u32)).collect() }
fn re(v: &serde_json::Value) -> Option<Re> {
    let all = |v: &serde_json::Value| v.as_array().unwrap().iter().map(re).collect::<Option<Vec<_>>>();
    Some(match v[0].as_str().unwrap() {
        "empty" => Re::Empty, "start" => Re::Start, "end" => Re::End,
        "str" => Re::Cat(v[1].as_str().unwrap().chars().map(Re::Chr).collect()),
        "class" => Re::Class(rng(&v[1])),
        "cap" => Re::Cap(v[1].as_u64().unwrap() as usize, Box::new(re(&v[2])?)),
        "cat" => Re::Cat(all(&v[1])?), "alt" => Re::Alt(all(&v[1])?),
        "rep" => {
            let (lo, hi) = (v[2].as_u64().unwrap() as usize, v[3].as_u64());
            let cls = match v[1][0].as_str().unwrap() {
                "class" => Some(rng(&v[1][1])),
                "str" if v[1][1].as_str().unwrap().chars().count() == 1 => { let c = v[1][1].as_str().unwrap().chars().next().unwrap() as u32; Some(vec![(c, c)]) }
                _ => None };
            match cls {
                Some(c) if hi.is_none() && v[4] == true => Re::Rep(c, lo),
                Some(c) if hi == Some(lo as u64) && lo <= 64 => Re::Cat((0..lo).map(|_| Re::Class(c.clone())).collect()),
                _ if v[4] == true && lo == 0 && hi == Some(1) => Re::Opt(Box::new(re(&v[1])?)),
                _ => return None }
        }
        _ => return None,
    })
}
struct Chunks<'a>(&'a [u8], usize);
impl<'a> Read for Chunks<'a> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = self.0.len().min(self.1).min(b.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
    let d = harvest(&a[2]);
    let ms = a[4].parse::<u64>().unwrap();
    let mut g = G { r: Rng::new(a[3].parse::<u64>().unwrap()), d: &d, corpus: &[], big: false };
    let res: Vec<(String, Re, regex::Regex)> = j.as_array().unwrap().iter().filter_map(|x| { let p = x["pattern"].as_str().unwrap(); Some((p.to_string(), re(&x["re"])?, regex::Regex::new(p).ok()?)) }).collect();
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut bad: Option<String> = None;
    let t0 = Instant::now();
    const T: [&str; 22] = ["$", "${", "}", "{", "a", "Z9", "_", "0", "ff", "AB", ":", "=", "@", "/", "\\\n", "\n", "\r\n", "\\", "\"", "-", "+1", "18446744073709551615"];
    while t0.elapsed() < Duration::from_millis(ms) && bad.is_none() {
        let t = g.anystr(&T);
        let s: S = t.chars().collect();
        if s.len() > 400 { continue; }
        let c = if s.is_empty() || g.r.one_in(3) { *g.r.pick(&[':', '=', '@', '/', 'é', '\n']) } else { *g.r.pick(&s) };
        let k = g.r.below(4);
        let mut ck = |what: &str, ok: bool| { *n.entry(what.to_string()).or_default() += 1; if !ok && bad.is_none() { bad = Some(format!("{} on {:?} ({:?}, {})", what, t, c, k)); } };
        ck("find", t.find(c) == first_of(&s, c).map(|i| bo(&s, i)));
        ck("rfind", t.rfind(c) == last_of(&s, c).map(|i| bo(&s, i)));
        ck("contains", t.contains(c) == first_of(&s, c).is_some());
        ck("splitn", t.splitn(k, c).map(String::from).collect::<Vec<_>>() == splitn_spec(&s, c, k));
        ck("split", t.split(c).map(String::from).collect::<Vec<_>>() == split_spec(&s, c));
        ck("split_once", t.split_once(c).map(|(a, b)| (a.to_string(), b.to_string())) == first_of(&s, c).map(|k| (st(&s[..k]), st(&s[k + 1..]))));
        ck("to_ascii_lowercase", t.to_ascii_lowercase() == s.iter().map(|c| lower_char(*c)).collect::<String>());
        let u: String = t.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c }).collect();
        ck("eq_ignore_ascii_case", t.eq_ignore_ascii_case(&u) == (s.iter().map(|c| lower_char(*c)).eq(u.chars().map(lower_char))));
        ck("parse::<usize>", t.parse::<usize>().ok().map(|x| x as u128) == unsigned_of(&s));
        let dg: String = s.iter().filter(|c| c.is_ascii_digit() || **c == '+').collect();
        { fn dec(n: u64) -> String { if n < 10 { ((48 + n as u8) as char).to_string() } else { dec(n / 10) + &((48 + (n % 10) as u8) as char).to_string() } }
          let k = { let x = g.r.next(); x >> g.r.below(64) }; ck("usize Display", format!("{}", k as usize) == dec(k)); }
        ck("parse::<usize>", dg.parse::<usize>().ok().map(|x| x as u128) == unsigned_of(&dg.chars().collect::<Vec<_>>()));
        for w in [&t, &dg, &s.iter().filter(|c| c.is_ascii_hexdigit()).take(k + 1).collect::<String>(), &s.iter().filter(|c| c.is_ascii_hexdigit() || **c == '+').take(8).collect::<String>()] {
            let x: S = w.chars().collect();
            ck("u8::from_str_radix", [8u32, 10, 16, 36].iter().all(|b| u8::from_str_radix(w, *b).ok().map(|v| v as u128) == radix_of(&x, *b as u128, 255)));
            ck("u32::from_str_radix", [8u32, 10, 16, 36].iter().all(|b| u32::from_str_radix(w, *b).ok().map(|v| v as u128) == radix_of(&x, *b as u128, u32::MAX as u128)));
        }
        for v in [0xD7FFu32, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, g.r.next() as u32, (g.r.next() & 0x1FFFFF) as u32] { ck("char::from_u32", char::from_u32(v) == scalar(v)); }
        {
            let mut w = String::new();
            for x in &s { if g.r.one_in(3) { w.push('\\'); w.push(*g.r.pick(&['x', 'u', 'U', '0', '1', '7', '8', 'n', '"', '\'', '`', '\\', 'v', 'q', 'é'])); for _ in 0..g.r.below(9) { w.push(*g.r.pick(&['0', '0', '1', '7', 'd', '8', 'F', '+', '\0'])); } } else { w.push(*x); } if w.len() > 30 { break; } }
            let q = *g.r.pick(&['"', '\'', '`']);
            for w in [t.clone(), format!("{}{}{}", q, t, q), format!("{}{}{}", q, w, q)] {
                ck("enquote::unquote", enquote::unquote(&w).ok() == unq(&w.chars().collect::<S>()).map(|x| st(&x)));
            }
        }
        ck("starts_with", t.starts_with(c) == (s.first() == Some(&c)));
        ck("ends_with", t.ends_with(c) == (s.last() == Some(&c)));
        ck("len", t.len() == bo(&s, s.len()));
        if t.len() < 24 { for i in 0..=t.len() + 1 { for j in 0..=t.len() + 1 {
            let (x, y) = ((0..=s.len()).find(|k| bo(&s, *k) == i), (0..=s.len()).find(|k| bo(&s, *k) == j));
            ck("get of a range", t.get(i..j).map(|u| u.to_string()) == match (x, y) { (Some(x), Some(y)) if i <= j => Some(st(&s[x..y])), _ => None });
        } } }
        for i in 0..=s.len() { ck("byte offsets", t.is_char_boundary(bo(&s, i)) && t[bo(&s, i)..] == st(&s[i..])); }
        for (x, y) in [("\\\n", ""), ("\\\r\n", ""), ("a", "bb"), ("\\\"", "\""), ("aa", "a")] {
            ck("replace", t.replace(x, y) == st(&replaced(&s, &x.chars().collect::<Vec<_>>(), &y.chars().collect::<Vec<_>>())));
        }
        for (p, r, x) in &res {
            let mine: Vec<_> = re_all(r, &s);
            let theirs: Vec<(usize, usize, Caps)> = x.captures_iter(&t).map(|m| {
                let cs = (1..m.len()).filter_map(|q| m.get(q).map(|y| (q, (y.start(), y.end())))).collect();
                let w = m.get(0).unwrap(); (w.start(), w.end(), cs) }).collect();
            let mb: Vec<(usize, usize, Caps)> = mine.iter().map(|(a, b, c)| (bo(&s, *a), bo(&s, *b), c.iter().map(|(q, (u, v))| (*q, (bo(&s, *u), bo(&s, *v)))).collect())).collect();
            ck(&format!("regex captures_iter {}", p), mb == theirs);
            ck(&format!("regex is_match {}", p), x.is_match(&t) == !mine.is_empty());
        }
        {
            let pad = *g.r.pick(&["", " ", "\t\n", "\u{b}\u{c}\r", "\u{85}", "\u{a0}", "\u{1680}", "\u{2003}", "\u{200b}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}", "\u{feff}", "\u{180e}", "\u{1f}"]);
            let t = format!("{}{}{}", pad, t, pad);
            let s: S = t.chars().collect();
            let ws = |c: char| is_ws(c);
            let is = |x: char| x == c;
            ck("trim", t.trim() == st(&trim_r(&trim_l(&s, &ws), &ws)) && t.trim_start() == st(&trim_l(&s, &ws)) && t.trim_end() == st(&trim_r(&s, &ws)));
            ck("trim_matches", t.trim_start_matches(c) == st(&trim_l(&s, &is)) && t.trim_end_matches(c) == st(&trim_r(&s, &is)));
            ck("to_ascii_uppercase", t.to_ascii_uppercase() == s.iter().map(|c| upper_char(*c)).collect::<String>());
            let w: S = s[s.len() - k.min(s.len())..].to_vec();
            ck("strip_suffix", t.strip_suffix(st(&w).as_str()) == Some(st(&s[..s.len() - w.len()]).as_str()) && t.strip_suffix(c).map(String::from) == (if s.last() == Some(&c) { Some(st(&s[..s.len() - 1])) } else { None }));
            ck("bytes", t.bytes().collect::<Vec<u8>>() == t.as_bytes());
            for x in s.iter().copied().chain([char::from_u32((g.r.next() % 0x3100) as u32).unwrap(), c]) {
                let u = x as u32;
                ck("char classes", x.is_whitespace() == is_ws(x) && x.is_ascii() == (u < 128) && x.is_ascii_digit() == is_digit(x) && x.is_ascii_alphabetic() == is_alpha(x) && x.is_ascii_alphanumeric() == (is_alpha(x) || is_digit(x))
                    && x.is_ascii_hexdigit() == (is_digit(x) || ('a' <= x && x <= 'f') || ('A' <= x && x <= 'F')) && x.is_ascii_uppercase() == ('A' <= x && x <= 'Z') && x.is_ascii_lowercase() == ('a' <= x && x <= 'z')
                    && x.is_ascii_whitespace() == (u == 0x20 || u == 9 || u == 10 || u == 12 || u == 13) && x.len_utf8() == bo(&[x], 1));
            }
            let (i, j) = (g.r.below(s.len() + 1), g.r.below(s.len() + 2));
            { let e = i + g.r.below(s.len() + 1 - i);
              let mut v = t.clone(); v.push_str(pad); ck("String::push_str", v == st(&s) + pad);
              let mut v = t.clone(); v.insert_str(bo(&s, i), pad); ck("String::insert_str", v == st(&s[..i]) + pad + &st(&s[i..]));
              let mut v = t.clone(); v.replace_range(bo(&s, i)..bo(&s, e), pad); ck("String::replace_range", v == st(&s[..i]) + pad + &st(&s[e..])); }
            let mut it = s.iter(); for _ in 0..i { it.next(); }
            let left = it.clone().count();
            let nth = it.nth(j).copied();
            ck("nth, count", left == s.len() - i && nth == s.get(i + j).copied() && it.count() == (s.len() as i64 - (i + j + 1) as i64).max(0) as usize);
            let mut v = s.clone(); v.truncate(j); ck("Vec::truncate", v[..] == s[..j.min(s.len())]);
            let mut v = s.clone(); v.insert(i, c); ck("Vec::insert", v[..i] == s[..i] && v[i] == c && v[i + 1..] == s[i..]);
            if i < s.len() { let mut v = s.clone(); let r = v.swap_remove(i); let mut m = s.clone(); m[i] = s[s.len() - 1]; m.pop(); ck("Vec::swap_remove", r == s[i] && v == m); }
            let (mut v, mut w) = (s.clone(), vec![c; k]); v.append(&mut w); ck("Vec::append", w.is_empty() && v[..s.len()] == s[..] && v.len() == s.len() + k);
            let mut hs = std::collections::HashSet::new(); let mut model: Vec<char> = vec![];
            for x in &s { if g.r.one_in(4) { ck("HashSet", hs.remove(x) == model.contains(x)); model.retain(|y| y != x); } else { ck("HashSet", hs.insert(*x) == !model.contains(x)); if !model.contains(x) { model.push(*x); } } }
            ck("HashSet", hs.len() == model.len() && hs.is_empty() == model.is_empty() && model.iter().all(|x| hs.contains(x)));
        }
        let mut raw = t.clone().into_bytes();
        if g.r.one_in(3) && !raw.is_empty() { let i = g.r.below(raw.len()); raw[i] = (g.r.next() & 255) as u8; }
        let want = String::from_utf8(raw.clone()).ok();
        let mut got = String::from("x");
        let rr = std::io::BufReader::new(Chunks(&raw, 1 + g.r.below(5))).read_to_string(&mut got);
        ck("BufReader read_to_string", match &want { Some(w) => rr.is_ok() && got == format!("x{}", w), None => rr.is_err() });
        let mut m = HashMap::new();
        let mut model: Vec<(String, String)> = vec![];
        for (i, c) in s.iter().enumerate() { let key = c.to_string(); m.insert(key.clone(), i.to_string()); model.retain(|x| x.0 != key); model.push((key, i.to_string())); }
        ck("HashMap insert/get", m.len() == model.len() && model.iter().all(|(k, v)| m.get(k) == Some(v)));
    }
    println!("{}", serde_json::json!({"comparisons": n, "mismatch": bad}));
    std::process::exit(if bad.is_some() { 1 } else { 0 });
}
