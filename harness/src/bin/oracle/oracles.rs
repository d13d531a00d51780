//! Executable oracles, one per property, written from the property statements.
use crate::gen::*;
use dockerfile_parser::*;
use std::collections::{HashMap, HashSet};

pub type Case = Vec<String>;
/// Ok(true): held and the case was non-trivial; Ok(false): held trivially.
pub type Verdict = Result<bool, String>;

macro_rules! chk { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

fn is_ws(c: char) -> bool { c == ' ' || c == '\t' }

// ---------- reference lexing helpers (independent of the grammar) ----------

/// Length in bytes of a line break at the start of `s`.
fn nl_len(s: &str) -> usize { if s.starts_with("\r\n") { 2 } else if s.starts_with('\n') || s.starts_with('\r') { 1 } else { 0 } }
/// Length of a line continuation (backslash, blanks, line break) at the start of `s`.
fn cont_len(s: &str) -> usize {
    if !s.starts_with('\\') { return 0; }
    let t = s[1..].trim_start_matches(is_ws);
    let n = nl_len(t);
    if n == 0 { 0 } else { s.len() - t.len() + n }
}
fn to_eol(s: &str) -> usize { s.find(|c| c == '\n' || c == '\r').unwrap_or(s.len()) }
/// Length of blanks, continuations and the comment/blank lines after continuations.
fn gap_len(s: &str) -> usize {
    let mut i = 0;
    loop {
        let t = &s[i..];
        if t.starts_with(is_ws) { i += 1; continue; }
        let c = cont_len(t);
        if c == 0 { return i; }
        i += c;
        loop {
            let t = &s[i..];
            let u = t.trim_start_matches(is_ws);
            let w = t.len() - u.len();
            if u.starts_with('#') { let e = to_eol(u); i += w + e + nl_len(&u[e..]); }
            else if nl_len(u) > 0 { i += w + nl_len(u); }
            else { break; }
        }
    }
}
/// End of a word: next blank, line break or continuation.
fn word_len(s: &str) -> usize {
    for (i, c) in s.char_indices() {
        if is_ws(c) || c == '\n' || c == '\r' || (c == '\\' && cont_len(&s[i..]) > 0) { return i; }
    }
    s.len()
}
/// Length of a complete quoted string at the start of `s` (0 if none).
fn quoted_len(s: &str) -> usize {
    let q = match s.chars().next() { Some(c) if c == '"' || c == '\'' => c, _ => return 0 };
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut i = 1;
    while i < b.len() {
        let c = b[i].1;
        if c == q { return b[i].0 + 1; }
        if c == '\0' || c == '\u{1f}' { return 0; }
        if c == '\\' && i + 1 < b.len() && (b[i + 1].1 == '"' || b[i + 1].1 == '\\' || b[i + 1].1 == '\'') { i += 1; }
        i += 1;
    }
    0
}
fn words(s: &str) -> Vec<(usize, &str)> {
    let mut v = vec![];
    let mut i = gap_len(s);
    while i < s.len() {
        let n = word_len(&s[i..]);
        if n == 0 { break; }
        v.push((i, &s[i..i + n]));
        i += n;
        i += gap_len(&s[i..]);
    }
    v
}
/// pieces of a breakable text: (is_comment, start, end); and whether all of `s` is covered
fn ref_breakable(s: &str) -> (Vec<(bool, usize, usize)>, bool) {
    let mut v = vec![];
    let mut pos = 0;
    loop {
        let t = &s[pos..];
        let u = t.trim_start_matches(is_ws);
        let w = t.len() - u.len();
        if u.starts_with('#') {
            let e = to_eol(u);
            v.push((true, pos + w, pos + w + e));
            pos += w + e + nl_len(&u[e..]);
            if pos >= s.len() { return (v, true); }
            if nl_len(&s[pos..]) > 0 || cont_len(&s[pos..]) > 0 { return (v, false); }
            continue;
        }
        let mut e = t.len();
        for (i, c) in t.char_indices() {
            if c == '\n' || c == '\r' || (c == '\\' && cont_len(&t[i..]) > 0) { e = i; break; }
        }
        if e == 0 { return (v, pos == s.len()); }
        v.push((false, pos, pos + e));
        pos += e;
        let c = cont_len(&s[pos..]);
        if c == 0 { return (v, pos == s.len()); }
        pos += c;
    }
}
fn unq(s: &str) -> Option<String> { enquote::unquote(s).ok() }
/// reading of a word that is unquoted when it begins with any quote
fn val(s: &str) -> Option<String> { if s.starts_with(|c| c == '"' || c == '\'' || c == '`') { unq(s) } else { Some(s.to_string()) } }

fn src<'a>(t: &'a str, s: &Span, what: &str) -> Result<&'a str, String> {
    if s.start > s.end || s.end > t.len() || !t.is_char_boundary(s.start) || !t.is_char_boundary(s.end) {
        return Err(format!("{}: span {:?} is not a valid range of the source (length {})", what, s, t.len()));
    }
    Ok(&t[s.start..s.end])
}

pub fn canon(i: &Instruction) -> String {
    let fl = |f: &SpannedString, g: &SpannedString| (f.content.clone(), g.content.clone());
    let expr = |k: &str, e: &ShellOrExecExpr| match e {
        ShellOrExecExpr::Exec(a) => c_exec(k, &a.elements.iter().map(|x| x.content.clone()).collect::<Vec<_>>()),
        ShellOrExecExpr::Shell(b) => c_shell(k, &b.to_string(), &comments(b)),
    };
    match i {
        Instruction::From(f) => c_from(&f.flags.iter().map(|x| fl(&x.name, &x.value)).collect::<Vec<_>>(), &f.image.content, &f.alias.as_ref().map(|a| a.content.clone())),
        Instruction::Arg(a) => c_arg(&a.name.content, &a.value.as_ref().map(|v| v.content.clone())),
        Instruction::Label(l) => c_pairs("LABEL", &l.labels.iter().map(|x| fl(&x.name, &x.value)).collect::<Vec<_>>()),
        Instruction::Env(e) => c_pairs("ENV", &e.vars.iter().map(|x| (x.key.content.clone(), x.value.to_string())).collect::<Vec<_>>()),
        Instruction::Run(r) => expr("RUN", &r.expr),
        Instruction::Entrypoint(r) => expr("ENTRYPOINT", &r.expr),
        Instruction::Cmd(r) => expr("CMD", &r.expr),
        Instruction::Copy(c) => c_copy(&c.flags.iter().map(|x| fl(&x.name, &x.value)).collect::<Vec<_>>(), &c.sources.iter().map(|x| x.content.clone()).collect::<Vec<_>>(), &c.destination.content),
        Instruction::Misc(m) => c_misc(&m.instruction.content, &m.arguments.to_string(), &comments(&m.arguments)),
    }
}
fn comments(b: &BreakableString) -> Vec<String> {
    b.components.iter().filter_map(|c| match c { BreakableStringComponent::Comment(c) => Some(c.content.clone()), _ => None }).collect()
}
fn kind(i: &Instruction) -> &'static str {
    match i {
        Instruction::From(_) => "FROM", Instruction::Arg(_) => "ARG", Instruction::Label(_) => "LABEL", Instruction::Run(_) => "RUN",
        Instruction::Entrypoint(_) => "ENTRYPOINT", Instruction::Cmd(_) => "CMD", Instruction::Copy(_) => "COPY", Instruction::Env(_) => "ENV", Instruction::Misc(_) => "MISC",
    }
}
fn instr_span(i: &Instruction) -> Span {
    match i {
        Instruction::From(x) => x.span, Instruction::Arg(x) => x.span, Instruction::Label(x) => x.span, Instruction::Run(x) => x.span,
        Instruction::Entrypoint(x) => x.span, Instruction::Cmd(x) => x.span, Instruction::Copy(x) => x.span, Instruction::Env(x) => x.span, Instruction::Misc(x) => x.span,
    }
}

/// compares with the constructed readings of the given kinds
fn constructed(d: &Dockerfile, exp: &[String], kinds: &[&str]) -> Result<(), String> {
    if exp.is_empty() { return Ok(()); }
    chk!(d.instructions.len() == exp.len(), "{} instructions reported, {} written", d.instructions.len(), exp.len());
    for (i, (ins, e)) in d.instructions.iter().zip(exp).enumerate() {
        let k = e.split(' ').next().unwrap();
        if kinds.contains(&k) {
            let c = canon(ins);
            chk!(&c == e, "instruction {}: written {}, reported {}", i, e, c);
        }
    }
    Ok(())
}

// ---------------------------- text properties ------------------------------

pub fn c01(c: &Case) -> Verdict {
    let t = &c[0];
    match Dockerfile::parse(t) {
        Ok(d) => { if c.len() > 1 { chk!(d.instructions.len() == c.len() - 1, "{} instructions reported, {} written", d.instructions.len(), c.len() - 1); } Ok(!d.instructions.is_empty()) }
        Err(e) => {
            if c.len() > 1 { return Err(format!("a text that follows the syntax fails to parse: {}", e)); }
            match e {
                Error::ParseError { .. } => Ok(false),
                Error::UnescapeError { source } => {
                    chk!(t.contains(|c| c == '"' || c == '\'' || c == '`'), "unescape error ({:?}) in a text without quotes", source);
                    Ok(true)
                }
                Error::GenericParseError { message } => {
                    let m = message.to_lowercase();
                    chk!(!m.contains("unexpected") && !m.contains("require") && !m.contains("missing"), "internal parse error: {}", message);
                    // the only other genuine error is an invalid digest of a FROM image
                    let bad = t.split(|c: char| c.is_whitespace() || c == '\\').any(|w| match w.find('@') {
                        Some(p) => { let h = &w[p + 1..]; let h: &str = h; !valid_digest(h) }
                        None => false });
                    chk!(bad, "error {:?} though no image digest is invalid", message);
                    Ok(true)
                }
                other => Err(format!("unexpected kind of error: {:?}", other)),
            }
        }
    }
}
fn valid_digest(h: &str) -> bool { h.strip_prefix("sha256:").map_or(false, |x| x.len() == 64 && x.bytes().all(|b| b.is_ascii_hexdigit())) }

fn inside(a: &Span, b: &Span) -> bool { b.start <= a.start && a.end <= b.end }
fn seq(parent: &Span, v: &[(&str, Span)], t: &str) -> Result<(), String> {
    let mut last = parent.start;
    for (n, s) in v {
        src(t, s, n)?;
        chk!(inside(s, parent), "{} span {:?} is outside its parent's span {:?}", n, s, parent);
        chk!(s.start >= last, "{} span {:?} overlaps or precedes its predecessor ending at {}", n, s, last);
        last = s.end;
    }
    Ok(())
}
fn brk(b: &BreakableString, t: &str) -> Result<(), String> {
    let v: Vec<(&str, Span)> = b.components.iter().map(|c| match c { BreakableStringComponent::String(s) => ("fragment", s.span), BreakableStringComponent::Comment(s) => ("comment", s.span) }).collect();
    seq(&b.span, &v, t)
}
pub fn c02(c: &Case) -> Verdict {
    let t = &c[0];
    let d = match Dockerfile::parse(t) { Ok(d) => d, Err(_) => return Ok(false) };
    let whole = Span::new(0, t.len());
    let v: Vec<(&str, Span)> = d.instructions.iter().map(|i| ("instruction", instr_span(i))).collect();
    seq(&whole, &v, t)?;
    for i in &d.instructions {
        let sp = instr_span(i);
        let shell = |e: &ShellOrExecExpr| -> Result<(), String> { match e {
            ShellOrExecExpr::Shell(b) => { seq(&sp, &[("shell text", b.span)], t)?; brk(b, t) }
            ShellOrExecExpr::Exec(a) => { seq(&sp, &[("array", a.span)], t)?; seq(&a.span, &a.elements.iter().map(|e| ("element", e.span)).collect::<Vec<_>>(), t) } } };
        match i {
            Instruction::From(f) => {
                let mut v: Vec<(&str, Span)> = f.flags.iter().map(|x| ("flag", x.span)).collect();
                v.push(("image", f.image.span));
                if let Some(a) = &f.alias { v.push(("alias", a.span)); }
                seq(&sp, &v, t)?;
                for x in &f.flags { seq(&x.span, &[("flag name", x.name.span), ("flag value", x.value.span)], t)?; }
            }
            Instruction::Copy(f) => {
                let mut v: Vec<(&str, Span)> = f.flags.iter().map(|x| ("flag", x.span)).collect();
                v.extend(f.sources.iter().map(|x| ("source", x.span)));
                v.push(("destination", f.destination.span));
                seq(&sp, &v, t)?;
                for x in &f.flags { seq(&x.span, &[("flag name", x.name.span), ("flag value", x.value.span)], t)?; }
            }
            Instruction::Arg(a) => { let mut v = vec![("name", a.name.span)]; if let Some(x) = &a.value { v.push(("value", x.span)); } seq(&sp, &v, t)?; }
            Instruction::Label(l) => {
                seq(&sp, &l.labels.iter().map(|x| ("label", x.span)).collect::<Vec<_>>(), t)?;
                for x in &l.labels { seq(&x.span, &[("label name", x.name.span), ("label value", x.value.span)], t)?; }
            }
            Instruction::Env(e) => {
                seq(&sp, &e.vars.iter().map(|x| ("variable", x.span)).collect::<Vec<_>>(), t)?;
                for x in &e.vars { seq(&x.span, &[("key", x.key.span), ("value", x.value.span)], t)?; brk(&x.value, t)?; }
            }
            Instruction::Run(r) => shell(&r.expr)?,
            Instruction::Entrypoint(r) => shell(&r.expr)?,
            Instruction::Cmd(r) => shell(&r.expr)?,
            Instruction::Misc(m) => { seq(&sp, &[("name", m.instruction.span), ("arguments", m.arguments.span)], t)?; brk(&m.arguments, t)?; }
        }
    }
    Ok(!d.instructions.is_empty())
}

fn eqsrc(t: &str, s: &SpannedString, what: &str) -> Result<(), String> {
    let x = src(t, &s.span, what)?;
    match val(x) {
        Some(v) => { chk!(v == s.content, "{}: source {:?} reads {:?}, reported {:?}", what, x, v, s.content); Ok(()) }
        None => Err(format!("{}: source {:?} cannot be unescaped, reported {:?}", what, x, s.content)),
    }
}
fn eqbrk(t: &str, b: &BreakableString, quoted_ok: bool) -> Result<(), String> {
    let whole = src(t, &b.span, "value")?;
    if quoted_ok && !whole.is_empty() && quoted_len(whole) == whole.len() {
        let v = unq(whole);
        chk!(b.components.len() == 1 && v.as_ref() == Some(&b.to_string()), "quoted value {:?} reported as {:?}", whole, b);
        if let BreakableStringComponent::String(s) = &b.components[0] { chk!(s.span == b.span && Some(&s.content) == v.as_ref(), "quoted value {:?} reported as {:?}", whole, b); } else { return Err("quoted value reported as comment".into()); }
        return Ok(());
    }
    for c in &b.components {
        let (s, x) = match c { BreakableStringComponent::String(s) => (&s.span, &s.content), BreakableStringComponent::Comment(s) => (&s.span, &s.content) };
        let y = src(t, s, "piece")?;
        chk!(x == y, "piece: source {:?}, reported {:?}", y, x);
    }
    Ok(())
}
pub fn c03(c: &Case) -> Verdict {
    let t = &c[0];
    let d = match Dockerfile::parse(t) { Ok(d) => d, Err(_) => return Ok(false) };
    for i in &d.instructions {
        let shell = |e: &ShellOrExecExpr| -> Result<(), String> { match e {
            ShellOrExecExpr::Shell(b) => eqbrk(t, b, false),
            ShellOrExecExpr::Exec(a) => { for e in &a.elements { eqsrc(t, e, "element")?; } Ok(()) } } };
        match i {
            Instruction::From(f) => {
                for x in &f.flags { eqsrc(t, &x.name, "flag name")?; eqsrc(t, &x.value, "flag value")?; }
                eqsrc(t, &f.image, "image")?;
                if let Some(a) = &f.alias { eqsrc(t, a, "alias")?; }
            }
            Instruction::Copy(f) => {
                for x in &f.flags { eqsrc(t, &x.name, "flag name")?; eqsrc(t, &x.value, "flag value")?; }
                for x in &f.sources { eqsrc(t, x, "source")?; }
                eqsrc(t, &f.destination, "destination")?;
            }
            Instruction::Arg(a) => { eqsrc(t, &a.name, "name")?; if let Some(x) = &a.value { eqsrc(t, x, "value")?; } }
            Instruction::Label(l) => for x in &l.labels {
                for (n, s) in [("label name", &x.name), ("label value", &x.value)] {
                    let y = src(t, &s.span, n)?;
                    let z = y.replace("\\\n", "");
                    let v = val(if y.starts_with(|c| c == '"' || c == '\'') { &z } else { y });
                    chk!(v.as_ref() == Some(&s.content), "{}: source {:?} reads {:?}, reported {:?}", n, y, v, s.content);
                }
            },
            Instruction::Env(e) => for x in &e.vars { eqsrc(t, &x.key, "key")?; eqbrk(t, &x.value, true)?; },
            Instruction::Run(r) => shell(&r.expr)?,
            Instruction::Entrypoint(r) => shell(&r.expr)?,
            Instruction::Cmd(r) => shell(&r.expr)?,
            Instruction::Misc(m) => { eqsrc(t, &m.instruction, "name")?; eqbrk(t, &m.arguments, false)?; }
        }
    }
    Ok(!d.instructions.is_empty())
}

/// a gap between instructions: only blank lines, blanks and whole comment lines
fn gap_ok(g: &str, first: bool, last: bool) -> bool {
    // after an instruction only blanks may precede the line break
    let mut rest = g;
    if !first {
        rest = rest.trim_start_matches(is_ws);
        let n = nl_len(rest);
        if n == 0 { return last && rest.is_empty(); }
        rest = &rest[n..];
    }
    loop {
        let u = rest.trim_start_matches(is_ws);
        if u.is_empty() { return true; }
        if u.starts_with('#') {
            let e = to_eol(u);
            let n = nl_len(&u[e..]);
            if n == 0 { return last && e == u.len(); }
            rest = &u[e + n..];
        } else {
            let n = nl_len(u);
            if n == 0 { return false; }
            rest = &u[n..];
        }
    }
}
pub fn c04(c: &Case) -> Verdict {
    let t = &c[0];
    let d = match Dockerfile::parse(t) { Ok(d) => d, Err(_) => return Ok(false) };
    if c.len() > 1 { chk!(d.instructions.len() == c.len() - 1, "{} instructions reported, {} written", d.instructions.len(), c.len() - 1); }
    let mut pos = 0;
    let n = d.instructions.len();
    for (k, i) in d.instructions.iter().enumerate() {
        let s = instr_span(i);
        src(t, &s, "instruction")?;
        chk!(pos <= s.start, "instruction spans overlap at {:?}", s);
        let g = &t[pos..s.start];
        chk!(gap_ok(g, k == 0, false), "source text {:?} belongs to no instruction", g);
        pos = s.end;
    }
    let g = &t[pos..];
    chk!(gap_ok(g, n == 0, true), "source text {:?} belongs to no instruction", g);
    Ok(!d.instructions.is_empty())
}

pub fn c05(c: &Case) -> Verdict {
    let t = &c[0];
    let d = match Dockerfile::parse(t) { Ok(d) => d, Err(e) => { if c.len() > 1 { return Err(format!("well-formed text fails to parse: {}", e)); } return Ok(false) } };
    for i in &d.instructions {
        let s = src(t, &instr_span(i), "instruction")?;
        let k = kind(i);
        if let Instruction::Misc(m) = i {
            let n = src(t, &m.instruction.span, "name")?;
            chk!(m.instruction.span.start == m.span.start && s.starts_with(n) && n == m.instruction.content, "miscellaneous instruction {:?} reported with name {:?}", s, m.instruction.content);
            chk!(!n.is_empty() && n.bytes().all(|b| b.is_ascii_alphabetic()) && !s[n.len()..].starts_with(|c: char| c.is_ascii_alphabetic()), "miscellaneous instruction {:?} reported with name {:?}", s, n);
            chk!(m.arguments.span.start == m.instruction.span.end && m.arguments.span.end == m.span.end, "arguments of {:?} are not the rest of its text", s);
        } else {
            chk!(s.len() > k.len() && s.is_char_boundary(k.len()) && s[..k.len()].eq_ignore_ascii_case(k), "{:?} reported as {}", s, k);
            let r = &s[k.len()..];
            chk!(r.starts_with(is_ws) || cont_len(r) > 0, "{:?} reported as {}", s, k);
        }
    }
    if c.len() > 1 {
        chk!(d.instructions.len() == c.len() - 1, "{} instructions reported, {} written", d.instructions.len(), c.len() - 1);
        for (i, e) in d.instructions.iter().zip(&c[1..]) {
            let k = e.split(' ').next().unwrap();
            chk!(kind(i) == k, "well-formed {} reported as {}", k, kind(i));
            if k == "MISC" { chk!(&canon(i) == e, "written {}, reported {}", e, canon(i)); }
        }
    }
    Ok(!d.instructions.is_empty())
}

struct Chunks<'a> { data: &'a [u8], sizes: Vec<usize>, k: usize, fail_at: Option<usize>, intr: bool }
impl<'a> std::io::Read for Chunks<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.k += 1;
        if self.fail_at == Some(self.k) { return Err(std::io::Error::new(std::io::ErrorKind::Other, "planned failure")); }
        if self.intr && self.k % 3 == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again")); }
        let n = self.sizes[self.k % self.sizes.len()].max(1).min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
pub fn c06(c: &Case) -> Verdict {
    let t = &c[0];
    let chunk: usize = c[1].parse().unwrap();
    let r = Dockerfile::parse(t);
    let s: Result<Dockerfile, Error> = t.parse::<Dockerfile>();
    let q = Dockerfile::from_reader(Chunks { data: t.as_bytes(), sizes: vec![chunk, 1 + chunk / 2, 7], k: 0, fail_at: None, intr: chunk % 2 == 1 });
    let key = |r: &Result<Dockerfile, Error>| match r { Ok(d) => format!("{:?}", d), Err(e) => format!("error {}", e) };
    chk!(key(&r) == key(&s), "string conversion differs: {} vs {}", key(&s), key(&r));
    chk!(key(&r) == key(&q), "reader differs: {} vs {}", key(&q), key(&r));
    let f = Dockerfile::from_reader(Chunks { data: t.as_bytes(), sizes: vec![chunk], k: 0, fail_at: Some(1 + chunk % (1 + t.len() / chunk.max(1)).min(3)), intr: false });
    chk!(matches!(f, Err(Error::ReadError { .. })), "failing reader gives {}", key(&f));
    let mut bytes = t.as_bytes().to_vec();
    let at = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).nth(chunk % (t.chars().count() + 1)).unwrap();
    bytes.insert(at, 0xff);
    let f = Dockerfile::from_reader(&bytes[..]);
    chk!(matches!(f, Err(Error::ReadError { .. })), "invalid UTF-8 gives {}", key(&f));
    let d = match r { Ok(d) => d, Err(_) => return Ok(false) };
    chk!(&d.content == t, "content {:?} differs from the input {:?}", d.content, t);
    let mut n = 0;
    let mut globals = vec![];
    for i in &d.instructions {
        match i {
            Instruction::From(f) => { chk!(f.index == n, "FROM number {} has index {}", n, f.index); n += 1; }
            Instruction::Arg(a) => if n == 0 { globals.push(a.clone()); },
            _ => {}
        }
    }
    chk!(globals == d.global_args, "global arguments {:?}, expected {:?}", d.global_args, globals);
    Ok(!d.instructions.is_empty())
}

fn sp(s: &str) -> SpannedString { SpannedString { span: Span::new(0, 0), content: s.to_string() } }
/// A Dockerfile value built directly from a compact description, one item per
/// line: `F image alias?`, `A name value?`, `M name`.
pub fn build(desc: &str) -> Dockerfile {
    let mut d = Dockerfile { content: desc.to_string(), global_args: vec![], instructions: vec![] };
    let mut n = 0;
    for l in desc.split('\u{1e}') {
        let f: Vec<&str> = l.split('\u{1c}').collect();
        let span = Span::new(d.instructions.len(), d.instructions.len() + 1);
        match f[0] {
            "F" => {
                d.instructions.push(Instruction::From(FromInstruction { span, flags: vec![], image: sp(f[1]), image_parsed: ImageRef::parse(f[1]), index: if desc.len() % 3 == 0 { desc.len() % 7 } else { n }, alias: f.get(2).map(|a| sp(a)) }));
                n += 1;
            }
            "A" => {
                let a = ArgInstruction { span, name: sp(f[1]), value: f.get(2).map(|a| sp(a)) };
                if n == 0 { d.global_args.push(a.clone()); }
                d.instructions.push(Instruction::Arg(a));
            }
            _ => {
                let name = *f.get(1).unwrap_or(&"X");
                let bs = BreakableString::new((0, 0));
                d.instructions.push(match name.bytes().map(|b| b as usize).sum::<usize>() % 8 {
                    0 => Instruction::Run(RunInstruction { span, expr: ShellOrExecExpr::Shell(bs) }),
                    1 => Instruction::Cmd(CmdInstruction { span, expr: ShellOrExecExpr::Exec(StringArray { span, elements: vec![] }) }),
                    2 => Instruction::Label(LabelInstruction { span, labels: vec![] }),
                    3 => Instruction::Copy(CopyInstruction { span, flags: vec![], sources: vec![sp(name)], destination: sp(name) }),
                    4 => Instruction::Env(EnvInstruction { span, vars: vec![EnvVar { span, key: sp(name), value: bs }] }),
                    _ => Instruction::Misc(MiscInstruction { span, instruction: sp(name), arguments: bs }),
                });
            }
        }
    }
    d
}
/// case: either a text ("T") or a description ("B")
fn doc_of(c: &Case) -> Option<Dockerfile> { if c[0] == "T" { Dockerfile::parse(&c[1]).ok() } else { Some(build(&c[1])) } }

pub fn c07(c: &Case) -> Verdict {
    let d = match doc_of(c) { Some(d) => d, None => return Ok(false) };
    let mut names: Vec<String> = c[2..].to_vec();
    for i in &d.instructions { if let Instruction::Arg(a) = i { names.push(a.name.content.clone()); names.push(a.name.content.to_uppercase()); names.push(a.name.content.chars().skip(1).collect()); } }
    let mut hit = false;
    for n in &names {
        let want = d.instructions.iter().take_while(|i| !matches!(i, Instruction::From(_))).filter_map(|i| match i { Instruction::Arg(a) => Some(a), _ => None }).find(|a| &a.name.content == n);
        let got = d.get_global_arg(n);
        match (want, got) {
            (None, None) => {}
            (Some(a), Some(b)) if std::ptr::eq(a, b) || (a == b && a.span == b.span) => hit = true,
            _ => return Err(format!("looking up {:?} gives {:?}, expected {:?}", n, got, want)),
        }
    }
    Ok(hit)
}

/// case: document, then start, end, replacement for each edit
pub fn c08(c: &Case) -> Verdict {
    let d = Dockerfile { content: c[0].clone(), global_args: vec![], instructions: vec![] };
    let mut s = d.splicer();
    let mut e: Vec<(usize, usize, &str)> = vec![];
    for k in c[1..].chunks(3) { e.push((k[0].parse().unwrap(), k[1].parse().unwrap(), &k[2])); }
    for (a, b, r) in &e { s.splice(&Span::new(*a, *b), r); }
    // one cell per byte of the document; a span's replacement goes into its first cell
    let mut cells: Vec<Option<Vec<u8>>> = vec![None; c[0].len()];
    for (a, b, r) in &e { for x in *a..*b { cells[x] = Some(vec![]); } cells[*a] = Some(r.as_bytes().to_vec()); }
    let mut want = vec![];
    for (x, k) in cells.iter().enumerate() { match k { None => want.push(c[0].as_bytes()[x]), Some(r) => want.extend(r) } }
    let want = String::from_utf8(want).unwrap();
    chk!(s.content == want, "splicer gives {:?}, the replacements give {:?}", s.content, want);
    Ok(e.len() > 1)
}
pub fn c09(c: &Case) -> Verdict {
    let d = Dockerfile { content: c[0].clone(), global_args: vec![], instructions: vec![] };
    let (a, b): (usize, usize) = (c[1].parse().unwrap(), c[2].parse().unwrap());
    let (l, s) = Span::new(a, b).relative_span(&d);
    let pre = &c[0].as_bytes()[..a];
    let line = pre.iter().filter(|x| **x == b'\n').count();
    let col = a - pre.iter().rposition(|x| *x == b'\n').map_or(0, |p| p + 1);
    chk!((l, s.start, s.end) == (line, col, col + b - a), "relative span of {}..{} is line {} {:?}, expected line {} {}..{}", a, b, l, s, line, col, col + b - a);
    Ok(line > 0)
}
fn ref_image(s: &str) -> (Option<String>, String, Option<String>, Option<String>) {
    let (reg, rest) = match s.find('/') {
        Some(p) if { let f = &s[..p]; f == "localhost" || f.contains('.') || f.contains(':') } => (Some(s[..p].to_string()), &s[p + 1..]),
        _ => (None, s),
    };
    if let Some(p) = rest.find('@') { return (reg, rest[..p].to_string(), None, Some(rest[p + 1..].to_string())); }
    match rest.find(':') { Some(p) => (reg, rest[..p].to_string(), Some(rest[p + 1..].to_string()), None), None => (reg, rest.to_string(), None, None) }
}
fn img_eq(i: &ImageRef, s: &str) -> Result<(), String> {
    let w = ref_image(s);
    let g = (i.registry.clone(), i.image.clone(), i.tag.clone(), i.hash.clone());
    chk!(w == g, "{:?} decomposed as (registry, image, tag, digest) = {:?}, expected {:?}", s, g, w);
    Ok(())
}
pub fn c10(c: &Case) -> Verdict {
    let i = ImageRef::parse(&c[0]);
    img_eq(&i, &c[0])?;
    chk!(i.to_string() == c[0], "{:?} printed as {:?}", c[0], i.to_string());
    Ok(c[0].contains(|c| "/@:".contains(c)))
}
fn ref_subst(s: &str, vars: &HashMap<&str, &str>, depth: usize, used: &mut HashSet<String>, fuel: &mut usize) -> Option<String> {
    if *fuel == 0 { return None; }
    *fuel -= 1;
    let w = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        let t = &s[i..];
        let mut m: Option<(usize, &str)> = None;
        if t.starts_with('$') {
            let u = &t[1..];
            let n = u.find(|c| !w(c)).unwrap_or(u.len());
            if n > 0 { m = Some((1 + n, &u[..n])); }
            else if u.starts_with('{') {
                let v = &u[1..];
                let n = v.find(|c| !w(c)).unwrap_or(v.len());
                if n > 0 && v[n..].starts_with('}') { m = Some((n + 3, &v[..n])); }
            }
        }
        match m {
            Some((n, name)) => {
                if depth == 0 { return None; }
                let v = vars.get(name)?;
                out.push_str(&ref_subst(v, vars, depth - 1, used, fuel)?);
                used.insert(name.to_string());
                i += n;
            }
            None => { let c = t.chars().next().unwrap(); out.push(c); i += c.len_utf8(); }
        }
    }
    Some(out)
}
fn sorted(s: &HashSet<String>) -> Vec<String> { let mut v: Vec<String> = s.iter().cloned().collect(); v.sort(); v }
/// case: text, depth, already used name, then name, value pairs
pub fn c11(c: &Case) -> Verdict {
    let depth: usize = c[1].parse().unwrap();
    let mut vars = HashMap::new();
    for k in c[3..].chunks(2) { vars.insert(k[0].as_str(), k[1].as_str()); }
    let mut fuel = 100_000;
    let mut wu: HashSet<String> = HashSet::new();
    let want = ref_subst(&c[0], &vars, depth, &mut wu, &mut fuel);
    if fuel == 0 { return Ok(false); }
    let mut used = HashSet::new();
    used.insert(c[2].clone());
    let got = substitute(&c[0], &vars, &mut used, depth as u8);
    chk!(got == want, "substitution gives {:?}, expected {:?}", got, want);
    if want.is_some() { let nt = !wu.is_empty(); wu.insert(c[2].clone()); chk!(used == wu, "used variables {:?}, expected {:?}", sorted(&used), sorted(&wu)); return Ok(nt); }
    Ok(true)
}
/// case: T/B, document, image text
pub fn c12(c: &Case) -> Verdict {
    let d = match doc_of(c) { Some(d) => d, None => return Ok(false) };
    let mut images = vec![ImageRef::parse(&c[2])];
    for i in &d.instructions { if let Instruction::From(f) = i { images.push(f.image_parsed.clone()); } }
    let mut vars: HashMap<&str, &str> = HashMap::new();
    for i in &d.instructions { match i { Instruction::From(_) => break, Instruction::Arg(a) => { if let Some(v) = &a.value { vars.insert(&a.name.content, &v.content); } } _ => {} } }
    let mut nt = false;
    if c.len() > 3 { // a value no parse yields
        let f = |k: usize| c.get(k).filter(|x| *x != "-").cloned();
        images.push(ImageRef { registry: f(3), image: c[4].clone(), tag: f(5), hash: f(6) });
    }
    for im in &images {
        let mut fuel = 100_000;
        let mut wu = HashSet::new();
        let want = ref_subst(&im.to_string(), &vars, 16, &mut wu, &mut fuel);
        if fuel == 0 { return Ok(false); }
        let got = im.resolve_vars_with_context(&d);
        let plain = im.resolve_vars(&d);
        chk!(plain == got.as_ref().map(|x| x.0.clone()), "plain form gives {:?}, context form {:?}", plain, got);
        match (want, got) {
            (None, None) => {}
            (Some(s), Some((i, u))) => { img_eq(&i, &s)?; chk!(u == wu, "used variables {:?}, expected {:?}", sorted(&u), sorted(&wu)); if !wu.is_empty() { nt = true; } }
            (w, g) => return Err(format!("resolving {} gives {:?}, expected {:?}", im, g, w)),
        }
    }
    Ok(nt)
}

struct RefStage<'a> { name: Option<String>, ins: Vec<&'a Instruction> }
fn ref_stages(d: &Dockerfile) -> Vec<RefStage<'_>> {
    let mut v: Vec<RefStage> = vec![];
    for i in &d.instructions {
        if let Instruction::From(f) = i { v.push(RefStage { name: f.alias.as_ref().map(|a| a.content.chars().map(|c| c.to_ascii_lowercase()).collect()), ins: vec![i] }); }
        else if let Some(s) = v.last_mut() { s.ins.push(i); }
    }
    v
}
pub fn c13(c: &Case) -> Verdict {
    let mut d = match doc_of(c) { Some(d) => d, None => return Ok(false) };
    if c[0] == "B" && c[1].len() % 4 == 0 { d.global_args = d.instructions.iter().filter_map(|i| i.as_arg().cloned()).collect(); }
    let w = ref_stages(&d);
    let st = d.stages();
    chk!(st.stages.len() == w.len(), "{} stages, {} FROM instructions", st.stages.len(), w.len());
    for (k, (s, r)) in st.stages.iter().zip(&w).enumerate() {
        chk!(s.index == k, "stage {} has index {}", k, s.index);
        chk!(s.name == r.name, "stage {} has name {:?}, expected {:?}", k, s.name, r.name);
        chk!(s.instructions.len() == r.ins.len() && s.instructions.iter().zip(&r.ins).all(|(a, b)| std::ptr::eq(*a, *b) || *a == *b), "stage {} has instructions {:?}, expected {:?}", k, s.instructions, r.ins);
        chk!(std::ptr::eq(&st[k], s), "indexing stage {} gives another stage", k);
    }
    let it: Vec<(usize, usize)> = d.iter_stages().map(|s| (s.index, s.instructions.len())).collect();
    let want: Vec<(usize, usize)> = w.iter().enumerate().map(|(k, s)| (k, s.ins.len())).collect();
    chk!(it == want, "iteration yields {:?}, expected {:?}", it, want);
    chk!(st.iter().map(|s| s.index).eq(0..w.len()), "iteration order differs");
    Ok(w.len() > 1)
}
pub fn c14(c: &Case) -> Verdict {
    let d = match doc_of(c) { Some(d) => d, None => return Ok(false) };
    let w = ref_stages(&d);
    let st = d.stages();
    chk!(st.stages.len() == w.len(), "{} stages, {} FROM instructions", st.stages.len(), w.len());
    let mut roots: Vec<StageParent> = vec![];
    let mut nt = false;
    for (k, s) in st.stages.iter().enumerate() {
        let f = match w[k].ins[0] { Instruction::From(f) => f, _ => unreachable!() };
        let im = f.image.content.to_ascii_lowercase();
        let earlier = w[..k].iter().position(|r| r.name.as_deref() == Some(im.as_str()));
        let (p, r) = if im == "scratch" { (StageParent::Scratch, StageParent::Scratch) }
            else if let Some(j) = earlier { nt = true; (StageParent::Stage(j), roots[j].clone()) }
            else { (StageParent::Image(&f.image_parsed), StageParent::Image(&f.image_parsed)) };
        chk!(s.parent == p, "stage {} ({:?}) has parent {:?}, expected {:?}", k, f.image.content, s.parent, p);
        chk!(s.root == r, "stage {} ({:?}) has root {:?}, expected {:?}", k, f.image.content, s.root, r);
        if let (StageParent::Image(a), StageParent::Image(b)) = (&s.root, &r) { chk!(a == b, "stage {} root image differs", k); }
        roots.push(r);
    }
    Ok(nt)
}
pub fn c15(c: &Case) -> Verdict {
    let d = match doc_of(c) { Some(d) => d, None => return Ok(false) };
    let st = d.stages();
    let mut names: Vec<String> = c[2..].to_vec();
    let mut argn: Vec<String> = c[2..].to_vec();
    for s in &st.stages { if let Some(n) = &s.name { names.push(n.clone()); names.push(n.to_uppercase()); names.push(n.chars().skip(1).collect()); } }
    for i in &d.instructions { if let Instruction::Arg(a) = i { argn.push(a.name.content.clone()); argn.push(a.name.content.to_uppercase()); } }
    for k in 0..st.stages.len() + 2 { names.push(k.to_string()); names.push(format!("0{}", k)); names.push(format!("+{}", k)); names.push(format!("-{}", k)); names.push(format!(" {}", k)); }
    for x in ["", "99999999999999999999999999", "18446744073709551616", "18446744073709551615", "9223372036854775808", "4294967296", "4294967297", "2147483648", "65536", "65537", "256", "257", "0x0", "1_0", "1.0", "0 ", "0\n", "١", "０", "00000000000000000000000", "++0", "+", "-0", "1e0"] { names.push(x.into()); }
    let mut nt = false;
    for n in &names {
        let low: String = n.chars().map(|c| c.to_ascii_lowercase()).collect();
        let by = st.stages.iter().position(|s| s.name.as_deref().map(|x| x.to_ascii_lowercase()) == Some(low.clone()));
        let g = st.get_by_name(n);
        chk!(g.map(|s| s as *const Stage) == by.map(|k| &st.stages[k] as *const Stage), "lookup by name {:?} gives {:?}, expected {:?}", n, g.map(|s| s.index), by);
        if by.is_some() { nt = true; }
        // an unsigned integer: optional plus sign and decimal digits, in range
        let digits = n.strip_prefix('+').unwrap_or(n);
        let int = !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()) && n.parse::<usize>().is_ok();
        let want = if int { let k: usize = digits.parse().unwrap(); if k < st.stages.len() { Some(k) } else { None } } else { by };
        let g = st.get(n);
        chk!(g.map(|s| s as *const Stage) == want.map(|k| &st.stages[k] as *const Stage), "lookup of {:?} gives {:?}, expected {:?}", n, g.map(|s| s.index), want);
    }
    for s in &st.stages { for n in &argn {
        let want = s.instructions.iter().position(|i| match i { Instruction::Arg(a) => &a.name.content == n, _ => false });
        let g = s.arg_index(n);
        chk!(g == want, "position of argument {:?} in stage {} is {:?}, expected {:?}", n, s.index, g, want);
    } }
    Ok(nt)
}
/// case: text, [constructed image]
pub fn c16(c: &Case) -> Verdict {
    let t = &c[0];
    let r = Dockerfile::parse(t);
    if c.len() > 1 {
        let (_, _, _, h) = ref_image(&c[1]);
        match (&r, &h) {
            (Ok(d), None) => chk!(d.instructions.len() == 1, "{:?} gives {} instructions", t, d.instructions.len()),
            (Err(e), None) => return Err(format!("image {:?} without digest fails: {}", c[1], e)),
            (Ok(_), Some(h)) => chk!(valid_digest(h), "invalid digest {:?} accepted", h),
            (Err(e), Some(h)) => chk!(!valid_digest(h), "valid digest {:?} rejected: {}", h, e),
        }
    }
    let d = match r { Ok(d) => d, Err(_) => return Ok(c.len() > 1) };
    for i in &d.instructions { if let Instruction::From(f) = i {
        img_eq(&f.image_parsed, &f.image.content)?;
        if let Some(h) = ref_image(&f.image.content).3 { chk!(valid_digest(&h), "invalid digest {:?} accepted", h); }
        if c.len() > 1 { chk!(f.image.content == c[1], "image {:?} reported as {:?}", c[1], f.image.content); }
    } }
    Ok(c.len() > 1)
}

fn brk17(t: &str, b: &BreakableString) -> Result<bool, String> {
    let s = src(t, &b.span, "shell text")?;
    let (w, all) = ref_breakable(s);
    let g: Vec<(bool, usize, usize)> = b.components.iter().map(|c| match c {
        BreakableStringComponent::String(x) => (false, x.span.start.wrapping_sub(b.span.start), x.span.end.wrapping_sub(b.span.start)),
        BreakableStringComponent::Comment(x) => (true, x.span.start.wrapping_sub(b.span.start), x.span.end.wrapping_sub(b.span.start)) }).collect();
    chk!(all && w == g, "pieces of {:?}: reported (comment, start, end) {:?}, expected {:?}", s, g, w);
    let mut flat = String::new();
    for (c, x) in w.iter().zip(&b.components) {
        let content = match x { BreakableStringComponent::String(x) => &x.content, BreakableStringComponent::Comment(x) => &x.content };
        chk!(content == &s[c.1..c.2], "piece of {:?} reported as {:?}", &s[c.1..c.2], content);
        if !c.0 { flat.push_str(&s[c.1..c.2]); }
    }
    chk!(b.to_string() == flat, "{:?} printed as {:?}, expected {:?}", s, b.to_string(), flat);
    Ok(w.len() > 1)
}
pub fn c17(c: &Case) -> Verdict {
    let t = &c[0];
    let d = match Dockerfile::parse(t) { Ok(d) => d, Err(_) => return Ok(false) };
    let mut nt = false;
    for i in &d.instructions {
        match i {
            Instruction::Run(RunInstruction { span: sp, expr: ShellOrExecExpr::Shell(b) }) | Instruction::Cmd(CmdInstruction { span: sp, expr: ShellOrExecExpr::Shell(b) }) | Instruction::Entrypoint(EntrypointInstruction { span: sp, expr: ShellOrExecExpr::Shell(b) }) => {
                nt |= brk17(t, b)?;
                // the shell text is everything after the keyword and the blanks following it
                let s = src(t, sp, "instruction")?;
                let k = kind(i).len();
                chk!(b.span.end == sp.end && b.span.start >= sp.start + k && b.span.start - sp.start <= k + gap_len(&s[k..]), "shell text of {:?} has span {:?} of {:?}", s, b.span, sp);
                chk!(gap_len(&s[k..]) == b.span.start - sp.start - k, "shell text of {:?} has span {:?} of {:?}", s, b.span, sp);
            }
            Instruction::Misc(m) => nt |= brk17(t, &m.arguments)?,
            Instruction::Env(e) => for v in &e.vars {
                let s = src(t, &v.value.span, "value")?;
                if e.vars.len() == 1 && !(quoted_len(s) == s.len() && !s.is_empty()) && !t[v.key.span.end..].starts_with('=') { nt |= brk17(t, &v.value)?; }
            },
            _ => {}
        }
    }
    constructed(&d, &c[1..], &["RUN", "CMD", "ENTRYPOINT", "MISC"])?;
    Ok(nt)
}
pub fn c18(c: &Case) -> Verdict {
    let t = &c[0];
    let d = match Dockerfile::parse(t) { Ok(d) => d, Err(e) => { if c.len() > 1 { return Err(format!("well-formed text fails to parse: {}", e)); } return Ok(false) } };
    let mut nt = false;
    for i in &d.instructions {
        let (sp, e) = match i { Instruction::Run(r) => (r.span, &r.expr), Instruction::Cmd(r) => (r.span, &r.expr), Instruction::Entrypoint(r) => (r.span, &r.expr), _ => continue };
        let s = src(t, &sp, "instruction")?;
        let k = kind(i).len();
        let a0 = k + gap_len(&s[k..]);
        match e {
            ShellOrExecExpr::Exec(a) => {
                let x = src(t, &a.span, "array")?;
                chk!(a.span.start == sp.start + a0 && a.span.end == sp.end && x.starts_with('[') && x.ends_with(']') && x.len() >= 2, "array span {:?} covers {:?}", a.span, x);
                let inner = x.len() - 1;
                let mut p = 1;
                let mut w: Vec<(usize, usize)> = vec![];
                loop {
                    p += gap_len(&x[p..]);
                    if p >= inner { break; }
                    if x[p..].starts_with(',') { p += 1; continue; }
                    let n = quoted_len(&x[p..]);
                    chk!(n > 0, "array {:?} has something else than quoted strings at {}", x, p);
                    w.push((a.span.start + p, a.span.start + p + n));
                    p += n;
                }
                let g: Vec<(usize, usize)> = a.elements.iter().map(|e| (e.span.start, e.span.end)).collect();
                chk!(w == g, "array {:?}: elements at {:?}, expected {:?}", x, g, w);
                for (e, q) in a.elements.iter().zip(&w) { chk!(Some(&e.content) == unq(&t[q.0..q.1]).as_ref(), "element {:?} reported as {:?}", &t[q.0..q.1], e.content); }
                let v: Vec<&str> = a.elements.iter().map(|e| e.content.as_str()).collect();
                chk!(a.as_str_vec() == v, "string list {:?}, elements {:?}", a.as_str_vec(), v);
                nt |= !w.is_empty();
            }
            ShellOrExecExpr::Shell(_) => {
                let r = &s[a0..];
                // a well-formed list reported in shell form?
                if r.starts_with('[') { if let Some(v) = ref_array(r) { return Err(format!("well-formed array {:?} ({} elements) reported in shell form", r, v)); } }
            }
        }
    }
    constructed(&d, &c[1..], &["RUN", "CMD", "ENTRYPOINT"])?;
    Ok(nt)
}
/// Some(number of elements) when `s` is a well-formed bracketed list of quoted strings
fn ref_array(s: &str) -> Option<usize> {
    let mut p = 1 + gap_len(&s[1..]);
    if &s[p..] == "]" { return Some(0); }
    let mut n = 0;
    loop {
        let q = quoted_len(&s[p..]);
        if q == 0 { return None; }
        n += 1;
        p += q;
        p += gap_len(&s[p..]);
        if s[p..].starts_with(',') { p += 1; p += gap_len(&s[p..]); continue; }
        return if &s[p..] == "]" { Some(n) } else { None };
    }
}
pub fn c19(c: &Case) -> Verdict {
    let t = &c[0];
    let d = match Dockerfile::parse(t) { Ok(d) => d, Err(_) => return Ok(false) };
    let mut nt = false;
    for i in &d.instructions {
        let flagw = |name: &SpannedString, value: &SpannedString, w: Option<&(usize, &str)>| -> Result<(), String> {
            let w = w.map(|x| x.1).unwrap_or("");
            let eq = w.find('=');
            chk!(w.starts_with("--") && eq.is_some(), "flag {:?}={:?} reported for the word {:?}", name.content, value.content, w);
            let eq = eq.unwrap();
            chk!(w[2..eq] == name.content && Some(&value.content) == val(&w[eq + 1..]).as_ref(), "flag word {:?} reported as {:?}={:?}", w, name.content, value.content);
            Ok(())
        };
        match i {
            Instruction::From(f) => {
                let s = src(t, &f.span, "instruction")?;
                let w = words(s);
                for (k, x) in f.flags.iter().enumerate() { flagw(&x.name, &x.value, w.get(1 + k))?; }
                let r: Vec<&str> = w.iter().skip(1 + f.flags.len()).map(|x| x.1).collect();
                match &f.alias {
                    None => chk!(r.len() == 1 && r[0] == f.image.content, "words {:?} reported as image {:?} without alias", r, f.image.content),
                    Some(a) => chk!(r.len() == 3 && r[0] == f.image.content && r[1].eq_ignore_ascii_case("as") && r[2] == a.content, "words {:?} reported as image {:?} alias {:?}", r, f.image.content, a.content),
                }
                chk!(r[0].is_empty() == false, "empty image");
                nt |= w.len() > 2;
            }
            Instruction::Copy(f) => {
                let s = src(t, &f.span, "instruction")?;
                let w = words(s);
                for (k, x) in f.flags.iter().enumerate() { flagw(&x.name, &x.value, w.get(1 + k))?; }
                let r: Vec<Option<String>> = w.iter().skip(1 + f.flags.len()).map(|x| val(x.1)).collect();
                let mut g: Vec<Option<String>> = f.sources.iter().map(|x| Some(x.content.clone())).collect();
                g.push(Some(f.destination.content.clone()));
                chk!(r.len() >= 2 && r == g, "paths {:?} reported as sources and destination {:?}", r, g);
                nt = true;
            }
            _ => {}
        }
    }
    constructed(&d, &c[1..], &["FROM", "COPY"])?;
    Ok(nt)
}

/// pairs of an ENV or LABEL text after the keyword; None when it cannot be read
fn ref_pairs(s: &str, label: bool) -> Option<Vec<(String, String)>> {
    let isname = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let clean = |x: &str| if label { x.replace("\\\n", "") } else { x.to_string() };
    let mut p = gap_len(s);
    let mut v = vec![];
    while p < s.len() {
        let r = &s[p..];
        let qn = if label { quoted_len(r) } else { 0 };
        let n = if qn > 0 { qn } else if label { r.find(|c| c == '=' || c == ' ' || c == '\t' || c == '\n' || c == '\r').unwrap_or(r.len()) } else { r.find(|c| !isname(c)).unwrap_or(r.len()) };
        if n == 0 { return None; }
        let name = if qn > 0 { unq(&clean(&r[..n]))? } else { val(&r[..n])? };
        p += n;
        if s[p..].starts_with('=') {
            p += 1;
            let r = &s[p..];
            let q = quoted_len(r);
            let m = if q > 0 { q } else { word_len(r) };
            if m == 0 { return None; }
            v.push((name, if q > 0 { unq(&clean(&r[..m]))? } else if label { val(&r[..m])? } else { r[..m].to_string() }));
            p += m;
        } else {
            let g = gap_len(&s[p..]);
            if g == 0 || !v.is_empty() { return None; }
            p += g;
            let r = &s[p..];
            let q = quoted_len(r);
            if q > 0 { return if q == r.len() { Some(vec![(name, unq(&clean(r))?)]) } else { None }; }
            if label { return if !r.is_empty() && word_len(r) == r.len() { Some(vec![(name, val(r)?)]) } else { None }; }
            let (w, all) = ref_breakable(r);
            if !all || w.is_empty() { return None; }
            return Some(vec![(name, w.iter().filter(|x| !x.0).map(|x| &r[x.1..x.2]).collect())]);
        }
        if p < s.len() { let g = gap_len(&s[p..]); if g == 0 { return None; } p += g; }
    }
    Some(v)
}
pub fn c20(c: &Case) -> Verdict {
    let t = &c[0];
    let d = match Dockerfile::parse(t) { Ok(d) => d, Err(_) => return Ok(false) };
    let mut nt = false;
    for i in &d.instructions {
        let s = src(t, &instr_span(i), "instruction")?;
        match i {
            Instruction::Arg(a) => {
                let w = &s[3..];
                let w = &w[gap_len(w)..];
                let n = w.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(w.len());
                let v = if w[n..].starts_with('=') { Some(val(&w[n + 1..])) } else { None };
                chk!(w[..n] == a.name.content, "{:?} reported with name {:?}", s, a.name.content);
                match (&v, &a.value) {
                    (None, None) => chk!(n == w.len(), "{:?} reported without value", s),
                    (Some(Some(x)), Some(y)) => chk!(x == &y.content, "{:?} reported with value {:?}", s, y.content),
                    _ => return Err(format!("{:?} reported with value {:?}", s, a.value)),
                }
                nt = true;
            }
            Instruction::Label(l) => {
                let w = ref_pairs(&s[5..], true);
                let g: Vec<(String, String)> = l.labels.iter().map(|x| (x.name.content.clone(), x.value.content.clone())).collect();
                chk!(w.as_ref() == Some(&g), "{:?} reported as {:?}, expected {:?}", s, g, w);
                nt |= !g.is_empty();
            }
            Instruction::Env(e) => {
                let w = ref_pairs(&s[3..], false);
                let g: Vec<(String, String)> = e.vars.iter().map(|x| (x.key.content.clone(), x.value.to_string())).collect();
                chk!(w.as_ref() == Some(&g), "{:?} reported as {:?}, expected {:?}", s, g, w);
                nt |= !g.is_empty();
            }
            _ => {}
        }
    }
    constructed(&d, &c[1..], &["ARG", "LABEL", "ENV"])?;
    Ok(nt)
}
/// the instruction with its lists emptied and its span moved
fn hollow(i: &Instruction, sp: Span) -> Instruction {
    let mut i = i.clone();
    let ex = |e: &mut ShellOrExecExpr| match e { ShellOrExecExpr::Shell(s) => s.components.clear(), ShellOrExecExpr::Exec(x) => x.elements.clear() };
    match &mut i {
        Instruction::From(x) => { x.flags.clear(); x.span = sp; x.image.content.clear(); x.alias = None; }
        Instruction::Arg(x) => { x.span = sp; x.name.content.clear(); x.value = None; }
        Instruction::Label(x) => { x.span = sp; x.labels.clear(); }
        Instruction::Run(x) => { x.span = sp; ex(&mut x.expr); }
        Instruction::Entrypoint(x) => { x.span = sp; ex(&mut x.expr); }
        Instruction::Cmd(x) => { x.span = sp; ex(&mut x.expr); }
        Instruction::Copy(x) => { x.span = sp; x.flags.clear(); x.sources.clear(); }
        Instruction::Env(x) => { x.span = sp; x.vars.clear(); }
        Instruction::Misc(x) => { x.span = sp; x.instruction.content.clear(); x.arguments.components.clear(); }
    }
    i
}
pub fn c21(c: &Case) -> Verdict {
    let mut d = match Dockerfile::parse(&c[0]) { Ok(d) => d, Err(_) => return Ok(false) };
    let n = d.instructions.len();
    for k in 0..n { let x = hollow(&d.instructions[k], *[Span::new(0, 0), Span::new(7, 3), Span::new(usize::MAX, usize::MAX), instr_span(&d.instructions[k])].get((k + c[0].len()) % 4).unwrap()); d.instructions.push(x); }
    for i in &d.instructions {
        chk!(i.span() == instr_span(i), "span accessor gives {:?}, contained span is {:?}", i.span(), instr_span(i));
        macro_rules! view { ($v:ident, $t:ty, $as:ident, $into:ident) => {{
            let want: Option<&$t> = if let Instruction::$v(x) = i { Some(x) } else { None };
            let k = stringify!($v);
            chk!(i.$as() == want, "borrowing conversion to {} of {} gives {:?}", k, kind(i), i.$as());
            chk!(i.clone().$into().as_ref() == want, "consuming conversion to {} of {} gives {:?}", k, kind(i), i.clone().$into());
            if let Some(x) = want { let w: Instruction = x.clone().into(); chk!(&w == i, "wrapping {:?} gives {:?}", x, w); }
        }} }
        view!(From, FromInstruction, as_from, into_from);
        view!(Arg, ArgInstruction, as_arg, into_arg);
        view!(Label, LabelInstruction, as_label, into_label);
        view!(Run, RunInstruction, as_run, into_run);
        view!(Entrypoint, EntrypointInstruction, as_entrypoint, into_entrypoint);
        view!(Cmd, CmdInstruction, as_cmd, into_cmd);
        view!(Copy, CopyInstruction, as_copy, into_copy);
        view!(Env, EnvInstruction, as_env, into_env);
        view!(Misc, MiscInstruction, as_misc, into_misc);
        macro_rules! tf { ($v:ident, $t:ident) => {{
            let want: Option<&$t> = if let Instruction::$v(x) = i { Some(x) } else { None };
            let r: Result<&$t, Error> = std::convert::TryFrom::try_from(i);
            match (want, &r) {
                (Some(a), Ok(b)) => chk!(a == *b, "fallible conversion changes {:?} into {:?}", a, b),
                (None, Err(Error::ConversionError { to, .. })) => chk!(to.to_lowercase().contains(&stringify!($v).to_lowercase()), "conversion error names {:?} instead of {}", to, stringify!($t)),
                _ => return Err(format!("fallible conversion of {} to {} gives {:?}", kind(i), stringify!($v), r)),
            }
        }} }
        tf!(From, FromInstruction); tf!(Arg, ArgInstruction); tf!(Label, LabelInstruction); tf!(Run, RunInstruction);
        tf!(Cmd, CmdInstruction); tf!(Copy, CopyInstruction); tf!(Env, EnvInstruction); tf!(Misc, MiscInstruction);
        let r: Result<EntrypointInstruction, Error> = std::convert::TryFrom::try_from(i.clone());
        match (i, &r) {
            (Instruction::Entrypoint(a), Ok(b)) => chk!(a == b, "fallible conversion changes {:?} into {:?}", a, b),
            (Instruction::Entrypoint(_), _) | (_, Ok(_)) => return Err(format!("fallible conversion of {} to Entrypoint gives {:?}", kind(i), r)),
            (_, Err(Error::ConversionError { to, .. })) => chk!(to.to_lowercase().contains("entrypoint"), "conversion error names {:?}", to),
            _ => return Err(format!("fallible conversion of {} to Entrypoint gives {:?}", kind(i), r)),
        }
        macro_rules! se { ($x:expr) => {{
            let x = $x;
            let (s, e) = match &x.expr { ShellOrExecExpr::Shell(s) => (Some(s), None), ShellOrExecExpr::Exec(e) => (None, Some(e)) };
            chk!(x.as_shell() == s && x.expr.as_shell() == s, "shell accessor of {:?} gives {:?}", x, x.as_shell());
            chk!(x.as_exec() == e && x.expr.as_exec() == e, "exec accessor of {:?} gives {:?}", x, x.as_exec());
            chk!(x.clone().into_shell().as_ref() == s && x.expr.clone().into_shell().as_ref() == s, "consuming shell accessor of {:?} gives {:?}", x, x.clone().into_shell());
            chk!(x.clone().into_exec().as_ref() == e && x.expr.clone().into_exec().as_ref() == e, "consuming exec accessor of {:?} gives {:?}", x, x.clone().into_exec());
        }} }
        match i { Instruction::Run(x) => se!(x), Instruction::Cmd(x) => se!(x), Instruction::Entrypoint(x) => se!(x), _ => {} }
    }
    Ok(!d.instructions.is_empty())
}

// ------------------------------ generation ---------------------------------

/// case: one piece per string, its first character says how it is added, the
/// next two give its span
pub fn c22(c: &Case) -> Verdict {
    use BreakableStringComponent as C;
    let mut want: Vec<(bool, usize, usize, String)> = vec![];
    let at = |w: &str| -> (char, usize, usize, String) { let v: Vec<char> = w.chars().collect(); (v[0], v[1] as usize, v[2] as usize, v[3..].iter().collect()) };
    let (k0, a0, b0, t0) = at(&c[0]);
    let mut s = if k0 == 'f' { want.push((true, a0, b0, t0.clone())); BreakableString::from(((a0, b0), t0.as_str())) }
        else if a0 % 2 == 0 { BreakableString::new((a0, b0)) } else { BreakableString::new(Span::new(a0, b0)) };
    let check = |s: &BreakableString, want: &Vec<(bool, usize, usize, String)>| -> Result<(), String> {
        chk!(s.span == Span::new(a0, b0), "the span is {:?}, expected {} {}", s.span, a0, b0);
        let got = |v: &mut dyn Iterator<Item = &C>| -> Vec<(bool, usize, usize, String)> { v.map(|p| match p { C::String(x) => (true, x.span.start, x.span.end, x.content.clone()), C::Comment(x) => (false, x.span.start, x.span.end, x.content.clone()) }).collect() };
        let g = got(&mut s.components.iter());
        chk!(&g == want, "pieces {:?}, expected {:?}", g, want);
        let g = got(&mut s.iter_components());
        chk!(&g == want, "iteration gives {:?}, expected {:?}", g, want);
        let p: String = want.iter().filter(|w| w.0).map(|w| w.3.as_str()).collect();
        chk!(s.to_string() == p, "printed as {:?}, expected {:?}", s.to_string(), p);
        Ok(())
    };
    check(&s, &want)?;
    for w in &c[1..] {
        let (k, a, b, t) = at(w);
        want.push((k != 'c' && k != 'C', a, b, t.clone()));
        s = match k {
            's' => s.add_string((a, b), t.as_str()),
            'S' => s.add_string(Span::new(a, b), t),
            'c' => s.add_comment((a, b), t.as_str()),
            'C' => s.add(SpannedComment { span: Span::new(a, b), content: t }),
            't' => s.add(((a, b), t.as_str())),
            'p' => s.add(SpannedString { span: Span::new(a, b), content: t }),
            _ => s.add(C::String(SpannedString { span: Span::new(a, b), content: t })),
        };
        check(&s, &want)?;
    }
    let v = EnvVar::new(Span::new(b0, a0), SpannedString { span: Span::new(1, a0), content: t0.clone() }, s.clone());
    chk!(v.span == Span::new(b0, a0) && v.key.span == Span::new(1, a0) && v.key.content == t0, "variable {:?}", v);
    check(&v.value, &want)?;
    let v = EnvVar::new(Span::new(b0, a0), SpannedString { span: Span::new(1, a0), content: t0.clone() }, ((a0, b0), t0.as_str()));
    chk!(v.span == Span::new(b0, a0) && v.key.content == t0, "variable {:?}", v);
    check(&v.value, &vec![(true, a0, b0, t0.clone())])?;
    Ok(c.len() > 1)
}
/// case: as for C13, then the indices given to copies of the stages
pub fn c23(c: &Case) -> Verdict {
    use std::cmp::Ordering;
    let d = match doc_of(c) { Some(d) => d, None => return Ok(false) };
    let mut st = d.stages().stages;
    let n = st.len();
    for (k, i) in c[2..].iter().enumerate() { if n > 0 { let j: usize = i.parse().unwrap(); st[k % n].index = j; } }
    for a in &st { for b in &st {
        let o = if a.index < b.index { Ordering::Less } else if a.index > b.index { Ordering::Greater } else { Ordering::Equal };
        chk!((a == b) == (a.index == b.index) && (a != b) == (a.index != b.index), "stages with indices {} and {} compare equal: {}", a.index, b.index, a == b);
        chk!(a.cmp(b) == o, "stages with indices {} and {} compare {:?}", a.index, b.index, a.cmp(b));
        chk!(a.partial_cmp(b) == Some(o), "stages with indices {} and {} compare partially {:?}", a.index, b.index, a.partial_cmp(b));
        chk!((a < b) == (o == Ordering::Less) && (a <= b) == (o != Ordering::Greater) && (a > b) == (o == Ordering::Greater) && (a >= b) == (o != Ordering::Less), "stages with indices {} and {}: < {} <= {} > {} >= {}", a.index, b.index, a < b, a <= b, a > b, a >= b);
        for p in &[&a.parent, &a.root] {
            let w = match p { StageParent::Image(i) => i.to_string(), StageParent::Stage(k) => k.to_string(), StageParent::Scratch => "scratch".to_string() };
            chk!(p.to_string() == w, "parent {:?} printed as {:?}, expected {:?}", p, p.to_string(), w);
        }
    } }
    for i in &c[2..] { let k: usize = i.parse().unwrap(); chk!(StageParent::Stage(k).to_string() == *i, "stage parent {} printed as {:?}", k, StageParent::Stage(k).to_string()); }
    Ok(n > 1)
}
pub const IDS: [&str; 23] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"];

pub fn run(id: &str, c: &Case) -> Verdict {
    match id {
        "C01" => c01(c), "C02" => c02(c), "C03" => c03(c), "C04" => c04(c), "C05" => c05(c), "C06" => c06(c), "C07" => c07(c), "C08" => c08(c), "C09" => c09(c),
        "C10" => c10(c), "C11" => c11(c), "C12" => c12(c), "C13" => c13(c), "C14" => c14(c), "C15" => c15(c), "C16" => c16(c), "C17" => c17(c), "C18" => c18(c),
        "C19" => c19(c), "C20" => c20(c), "C21" => c21(c), "C22" => c22(c), "C23" => c23(c), _ => panic!("unknown property"),
    }
}
/// one construct repeated many times
pub fn long_inputs() -> Vec<Case> {
    let n = 30_000;
    let mut v = vec![];
    for (a, b, c) in [("RUN a", " \\\nb", ""), ("CMD a \\\n", "#c\n", "b"), ("ENTRYPOINT \\\n", " \n", "b"), ("ENV a=\"", "\\n", "\""), ("ARG a='", "\\'", "'"),
        ("LABEL", " a=b", ""), ("RUN [\"a\"", " ,\"b\"", "]"), ("COPY", " --a=b", " a b"), ("COPY", " a", ""), ("FROM", " --a=b", " x"), ("", "\n", ""), ("", "# c\n", ""), ("", "USER a \\\n #x\n\\\nb\n", ""),
        ("ENV a ", "b \\\n#x\n", "c"), ("ENV", " a=b \\\n", ""), ("LABEL a=\"", "\\\n", "\""), ("USER", " ", "a"), ("RUN [", " \\\n#c\n", "]")] {
        let t = format!("{}{}{}", a, b.repeat(n), c);
        if a.is_empty() { v.push(vec![t]); } else { v.push(vec![t, "one instruction".into()]); }
    }
    for x in ["FROM a\n", "FROM a as b\n", "ARG a=b\n", "RUN a\n", "USER a\n", "ENV a=b\n", "LABEL a=b\n", "COPY a b\n", "CMD [\"a\"]\n", "ENTRYPOINT a\n"] { v.push(vec![x.repeat(66_000)]); }
    v
}
const ALL: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];
const IMG: [&str; 26] = ["a", "b", "localhost", "LOCALHOST", "localhost.", ".", ":", "/", "@", "//", "@@", "::", "reg.io", "host:443", "org", "alpine", "3.1", "-", "sha256:", "$x", "${y}", "é", "", "A", "_", "scratch"];
const SUB: [&str; 30] = ["$", "${", "}", "$a", "${a}", "$b", "${b}", "$c", "${c}", "$ab", "${ab}", "$_", "$1", "a", "b", "_", "1", "-", ":", "/", "$$", "$é", "é", "${}", "{a}", "$A", "${A}", "x", "${a", "\n"];

impl<'d> G<'d> {
    fn desc(&mut self) -> String {
        let names = ["a", "b", "A", "B", "build", "Build", "scratch", "SCRATCH", "0", "1", "+1", "+0", "01", "00", "é", "É", "x", "", "alpine", "ab", "K", "4294967296", "99999999999999999999999999", "-0", "+", "a:b", "a/b", "a@b", "build:x"];
        let n = 1 + self.small();
        let mut v = vec![];
        let mut al: Vec<String> = vec![];
        for _ in 0..n {
            let w = |g: &mut Self| { if g.r.one_in(10) { let t = &["a", "b", "A", ".", "/", ":", "@", "é", "$a", "${b}", "-", "1", " "]; g.anystr(t) } else if g.r.one_in(8) && !g.d.words.is_empty() { let d = g.r.pick(&g.d.words).clone(); if g.r.one_in(2) { d } else { d.to_uppercase() } } else { g.r.pick(&names).to_string() } };
            let clean = |s: String| s.replace('\u{1c}', "").replace('\u{1e}', "");
            match self.r.below(6) {
                0 | 1 | 2 => { let im = if self.r.one_in(6) { let x = self.r.pick(&SUB).to_string(); let y = self.r.pick(&SUB).to_string(); x + &y } else if !al.is_empty() && self.r.one_in(3) { let a: String = self.r.pick(&al).clone(); match self.r.below(6) { 0 => a.to_uppercase(), 1 => a.to_lowercase(), 2 => format!("{}:x", a), 3 => format!("docker.io/{}", a), _ => a } } else { w(self) }; let im = clean(im); if self.r.one_in(3) { v.push(format!("F\u{1c}{}", im)); } else { let a = clean(w(self)); al.push(a.clone()); v.push(format!("F\u{1c}{}\u{1c}{}", im, a)); } }
                3 | 4 => { let a = clean(w(self)); if self.r.one_in(3) { v.push(format!("A\u{1c}{}", a)); } else { let x = if self.r.one_in(2) { let x = self.r.pick(&SUB).to_string(); let y = self.r.pick(&SUB).to_string(); x + &y } else { w(self) }; v.push(format!("A\u{1c}{}\u{1c}{}", a, clean(x))); } }
                _ => { let a = clean(w(self)); v.push(format!("M\u{1c}{}", a)); }
            }
        }
        // globals first more often
        if self.r.one_in(2) { v.sort_by_key(|s| s.starts_with('F')); if self.r.one_in(2) { let k = v.len(); v.rotate_left(k / 4); } }
        v.join("\u{1e}")
    }
    fn docish(&mut self, extra: usize) -> Case {
        let mut c = if self.r.one_in(3) { let t = if self.r.one_in(3) { self.wild(&[0, 1, 0, 1, 8]) } else { self.doc(&[0, 1, 0, 1, 8]).0 }; vec!["T".to_string(), t] } else { vec!["B".to_string(), self.desc()] };
        for _ in 0..extra { let n = self.anystr(&["a", "b", "A", "0", "1", "+", "-", "build", "x", "é"]); c.push(n); }
        c
    }
    pub fn case(&mut self, id: &str) -> Case {
        self.big = self.r.one_in(40);
        let text = |g: &mut Self, kinds: &[usize], plain: usize| -> Case {
            if g.r.below(10) < plain { vec![g.wild(kinds)] } else { let (t, e) = g.doc(kinds); let mut c = vec![t]; c.extend(e); c }
        };
        match id {
            "C01" => text(self, &ALL, 6),
            "C02" | "C03" => { let mut c = text(self, &ALL, 5); c.truncate(1); c }
            "C04" | "C05" => text(self, &ALL, 5),
            "C06" => { let mut c = text(self, &[0, 1, 0, 1, 3, 8], 4); c.truncate(1); if self.r.one_in(30) { c[0].insert(0, '\u{feff}'); } let n = 1 + self.r.below(20); c.push(n.to_string()); c }
            "C07" => self.docish(1),
            "C08" => {
                let toks = ["a", "b", "FROM x\n", "é", "😀", "\n", " ", "xyz", "0123456789"];
                let doc = loop { let d = self.anystr(&toks) + &self.anystr(&toks); if !d.is_empty() { break d; } };
                let long = self.r.one_in(40);
                let doc = if long { let n = 1 + 600 / doc.len(); doc.repeat(n) } else { doc };
                let b: Vec<usize> = (0..=doc.len()).filter(|i| doc.is_char_boundary(*i)).collect();
                // disjoint non-empty spans
                let mut cuts: Vec<usize> = vec![];
                let n = 1 + self.small();
                for _ in 0..2 * n { cuts.push(*self.r.pick(&b)); }
                cuts.sort();
                let mut spans: Vec<(usize, usize)> = vec![];
                let mut i = 0;
                while i + 1 < cuts.len() { if cuts[i] < cuts[i + 1] && spans.last().map_or(true, |s: &(usize, usize)| s.1 <= cuts[i]) { spans.push((cuts[i], cuts[i + 1])); i += if self.r.one_in(2) { 1 } else { 2 }; } else { i += 1; } }
                // a long history: every character on its own
                if long { spans = b.windows(2).map(|w| (w[0], w[1])).collect(); }
                for i in (1..spans.len()).rev() { let j = self.r.below(i + 1); spans.swap(i, j); }
                // further spans that enclose or repeat earlier ones
                for _ in 0..if long || self.r.one_in(2) { 0 } else { self.small() } {
                    let (mut x, mut y) = (*self.r.pick(&b), *self.r.pick(&b));
                    if x > y { std::mem::swap(&mut x, &mut y); }
                    if self.r.one_in(3) { if let Some(s) = spans.get(self.r.below(spans.len() + 1)) { x = s.0; y = s.1; } }
                    let at = self.r.below(spans.len() + 1);
                    let apart = |s: &(usize, usize), t: &(usize, usize)| s.1 <= t.0 || t.1 <= s.0;
                    let ok = |s: &(usize, usize), t: &(usize, usize)| apart(s, t) || (t.0 <= s.0 && s.1 <= t.1);
                    if x < y && spans[..at].iter().all(|s| ok(s, &(x, y))) && spans[at..].iter().all(|s| ok(&(x, y), s)) { spans.insert(at, (x, y)); }
                }
                let mut c = vec![doc.clone()];
                for (a, e) in spans {
                    let r = match self.r.below(6) { 0 => String::new(), 1 => doc[a..e].to_string(), 2 => { let n = doc[a..e].len(); "z".repeat(n) }, 3 => { let n = 1 + self.small(); "longer ".repeat(n) }, _ => self.anystr(&toks) };
                    c.push(a.to_string()); c.push(e.to_string()); c.push(r);
                }
                c
            }
            "C09" => {
                let toks = ["a", "b", "\n", "\n", "\r\n", "é", "😀", "  ", "FROM x", "\u{b}", "\r", "\u{2028}"];
                let doc = self.anystr(&toks) + &self.anystr(&toks);
                let b: Vec<usize> = (0..=doc.len()).filter(|i| doc.is_char_boundary(*i)).collect();
                let (x, y) = (*self.r.pick(&b), *self.r.pick(&b));
                vec![doc, x.min(y).to_string(), x.max(y).to_string()]
            }
            "C10" => { if self.r.one_in(4) { vec![self.image()] } else { vec![self.anystr(&IMG)] } }
            "C11" => {
                let mut c = vec![self.anystr(&SUB)];
                let d = match self.r.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 => 255, 4 => self.r.below(20), 5 => { if self.d.ints.is_empty() { 5 } else { (*self.r.pick(&self.d.ints)).min(255) } } _ => 3 + self.r.below(4) };
                c.push(d.to_string());
                c.push(self.r.pick(&["a", "zz", ""]).to_string());
                if self.r.one_in(5) { // a chain of a chosen length
                    let n = self.r.below(20);
                    for k in 0..n { c.push(format!("v{}", k)); c.push(format!("<$v{}>", k + 1)); }
                    c.push(format!("v{}", n)); c.push("end".into());
                    c[0] = "${v0}".into();
                    c[1] = (n + self.r.below(3)).to_string();
                } else {
                    for n in ["a", "b", "c", "ab", "_", "1", "A", "x", "a1"] {
                        if self.r.below(3) > 0 { let v = if self.r.one_in(2) { self.r.pick(&["", "x", "1.2", "long value here", "é", "$", "}"]).to_string() } else { let k = self.r.below(3) + 1; (0..k).map(|_| self.r.pick(&SUB).to_string()).collect() }; c.push(n.into()); c.push(v); }
                    }
                }
                c
            }
            "C12" => {
                let mut c = self.docish(0);
                if self.r.one_in(2) {
                    let names = ["a", "b", "c", "ab", "_", "1", "A", "x", "y"];
                    let n = 1 + self.small();
                    let mut v = vec![];
                    for _ in 0..n {
                        let a = *self.r.pick(&names);
                        v.push(match self.r.below(8) {
                            0 => format!("F\u{1c}{}", self.r.pick(&["a", "$a", "x:${b}", "reg.io/$c"])),
                            1 => format!("A\u{1c}{}", a),
                            2 => format!("M\u{1c}{}", a),
                            3 | 4 => { let k = 1 + self.r.below(2); let t: String = (0..k).map(|_| self.r.pick(&SUB).to_string()).collect(); format!("A\u{1c}{}\u{1c}{}", a, t) }
                            _ => { let t = *self.r.pick(&["", "x", "1.2", "reg.io/x", "y:1", "z@sha256:0", "localhost/q", "é", "/", "@", ":"]); format!("A\u{1c}{}\u{1c}{}", a, t) }
                        });
                    }
                    c = vec!["B".into(), v.join("\u{1e}")];
                } else if self.r.one_in(4) {
                    let n = 12 + self.r.below(7);
                    let mut v: Vec<String> = (0..n).map(|k| format!("A\u{1c}v{}\u{1c}${{v{}}}", k, k + 1)).collect();
                    v.push(format!("A\u{1c}v{}\u{1c}end", n));
                    c = vec!["B".into(), v.join("\u{1e}"), "img:${v0}".into()];
                    return c;
                }
                let im = if self.r.one_in(2) { self.anystr(&SUB) } else { self.anystr(&["$a", "${a}", "$b", "${b}", "$x", "/", ":", "@", "alpine", "reg.io/", "$build", "$ab"]) };
                c.push(im);
                if self.r.one_in(4) {
                    let t = ["a", "foo", "$a", "${b}", "x/y", "localhost", "reg.io", ":1", "@z", "/", "h:1", "$x", "é", "1.2", "sha256:0"];
                    for k in 0..4 { let w = if k != 1 && self.r.one_in(3) { "-".to_string() } else if self.r.one_in(6) { String::new() } else { self.r.pick(&t).to_string() }; c.push(w); }
                }
                c
            }
            "C22" => {
                let mut v = vec![];
                for k in 0..1 + self.small() {
                    let h = if k == 0 { *self.r.pick(&['n', 'f']) } else { *self.r.pick(&['s', 'S', 'c', 'C', 't', 'p', 'b']) };
                    let (a, b) = (self.r.below(200), self.r.below(200));
                    let t = if self.r.one_in(5) { String::new() } else { self.anystr(&["a", "#", "# c", " ", "\n", "\\\n", "b", "é"]) };
                    v.push(format!("{}{}{}{}", h, char::from_u32(a as u32).unwrap(), char::from_u32(b as u32).unwrap(), t));
                    // the same piece once more, perhaps as another kind
                    if k > 0 && self.r.one_in(4) { let w: String = v[v.len() - 1].clone(); let rest: String = w.chars().skip(1).collect(); let h2 = if self.r.one_in(2) { h } else { *self.r.pick(&['s', 'S', 'c', 'C', 't', 'p', 'b']) }; v.push(format!("{}{}", h2, rest)); }
                }
                v
            }
            "C23" => {
                let mut c = self.docish(0);
                for _ in 0..self.small() { let k = match self.r.below(5) { 0 => usize::MAX - self.r.below(2), 1 => self.r.next() as usize >> self.r.below(64), _ => self.r.below(12) }; c.push(k.to_string()); }
                c
            }
            "C13" | "C14" => self.docish(0),
            "C15" => self.docish(2),
            "C16" => {
                if self.r.one_in(3) { return vec![self.wild(&[0])]; }
                let base = loop { let b = { let n = 1 + self.r.below(4); let a = self.over("abZ01_./:-${}", n); if self.r.one_in(3) { format!("localhost/{}", a) } else { a } }; if !b.starts_with('-') { break b; } };
                let mut im = base;
                if self.r.below(4) > 0 {
                    let h = self.baddigest();
                    im.push('@'); im.push_str(&h);
                }
                let k = self.keyword("FROM");
                vec![format!("{} {}{}", k, im, if self.r.one_in(4) { " as b" } else { "" }), im]
            }
            "C17" => text(self, &[3, 4, 5, 7, 8], 5),
            "C18" => text(self, &[3, 4, 5], 5),
            "C19" => text(self, &[0, 6], 5),
            "C20" => text(self, &[1, 2, 7], 5),
            _ => { let mut c = text(self, &ALL, 3); c.truncate(1); c }
        }
    }
}
