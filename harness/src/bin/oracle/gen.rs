//! Seeded generators: wild texts, and constructed texts with a known reading.
use std::collections::BTreeSet;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

pub struct Dict { pub words: Vec<String>, pub ints: Vec<usize> }

/// Harvests string, char and integer literals from the non-test part of the
/// source files, so that values the code compares against are generated.
pub fn harvest(repo: &str) -> Dict {
    let mut words = BTreeSet::new();
    let mut ints = BTreeSet::new();
    let mut files = vec![];
    let mut dirs = vec![format!("{}/src", repo)];
    while let Some(d) = dirs.pop() {
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() { dirs.push(p.to_string_lossy().to_string()); }
                else if p.extension().map_or(false, |x| x == "rs" || x == "pest") { files.push(p); }
            }
        }
    }
    files.sort();
    for f in files {
        let s = match std::fs::read_to_string(&f) { Ok(s) => s, Err(_) => continue };
        let s = match s.find("#[cfg(test)]") { Some(i) => &s[..i], None => &s[..] };
        for line in s.lines() {
            let t = line.trim_start();
            if t.starts_with("//") { continue; }
            let c: Vec<char> = line.chars().collect();
            let mut i = 0;
            while i < c.len() {
                if c[i] == '"' {
                    let mut w = String::new();
                    i += 1;
                    while i < c.len() && c[i] != '"' {
                        if c[i] == '\\' && i + 1 < c.len() {
                            i += 1;
                            match c[i] { 'n' => w.push('\n'), 't' => w.push('\t'), 'r' => w.push('\r'), x => w.push(x) }
                        } else { w.push(c[i]); }
                        i += 1;
                    }
                    i += 1;
                    if !w.is_empty() && w.len() < 40 && !w.contains("{}") { words.insert(w); }
                } else if c[i] == '\'' && i + 2 < c.len() && (c[i + 2] == '\'' || (c[i + 1] == '\\' && i + 3 < c.len() && c[i + 3] == '\'')) {
                    if c[i + 1] == '\\' {
                        let x = match c[i + 2] { 'n' => '\n', 't' => '\t', 'r' => '\r', x => x };
                        words.insert(x.to_string()); i += 4;
                    } else { words.insert(c[i + 1].to_string()); i += 3; }
                } else if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
                    let mut n = 0usize;
                    while i < c.len() && (c[i].is_ascii_digit() || c[i] == '_') {
                        if c[i] != '_' { n = n.saturating_mul(10).saturating_add(c[i] as usize - 48); }
                        i += 1;
                    }
                    if n <= 5000 { ints.insert(n); }
                } else { i += 1; }
            }
        }
    }
    Dict { words: words.into_iter().collect(), ints: ints.into_iter().collect() }
}

pub struct G<'d> { pub r: Rng, pub d: &'d Dict, pub corpus: &'d [String], pub big: bool }

const KW: [&str; 8] = ["FROM", "ARG", "LABEL", "RUN", "ENTRYPOINT", "CMD", "COPY", "ENV"];
const MISC: [&str; 18] = ["MAINTAINER", "EXPOSE", "VOLUME", "USER", "WORKDIR", "ONBUILD", "STOPSIGNAL", "HEALTHCHECK", "SHELL", "ADD", "RUNX", "fromage", "Args", "copying", "ENVY", "C", "cmds", "labels"];
const UNI: [&str; 18] = ["é", "ß", "日本", "😀", "\u{301}", "ñ", "Ω", "\u{feff}", "\u{a0}", "ﬁ", "\u{212a}", "\u{17f}", "İ", "É", "٣", "²", "ª", "\u{10ffff}"];
const CTRL: [&str; 11] = ["\u{b}", "\u{c}", "\r", "\0", "\u{1b}", "\u{7f}", "\u{85}", "\u{2028}", "\u{2029}", "\t", "\u{8}"];
const SOUP: [&str; 74] = [" ", " ", "\t", "\n", "\n", "\r\n", "\r", "\\\n", "\\\n", "\\ \n", "\\\r\n", "\\", "#", "# c", "\"", "'", "`", "=", "=", ",", "[", "]",
    "@", ":", "/", ".", "$", "${", "}", "-", "--", "--platform=", "--from=0", "as", "AS", " as ", "FROM ", "ARG ", "LABEL ", "RUN ", "ENTRYPOINT ", "CMD ", "COPY ", "ENV ", "MAINTAINER ",
    "from", "a", "b", "c", "foo", "bar", "x1", "_", "0", "\"a\"", "'b'", "\"a b\"", "[\"a\"]", "[\"a\", 'b']", "a=b", "a=\"b c\"", "\\n", "\\x41", "\\u00e9", "\\q", "scratch", "alpine:3.1", "localhost/", "reg.io/x",
    "sha256:", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789ABCDEF", "\0", "\u{1f}", "é"];

impl<'d> G<'d> {
    pub fn small(&mut self) -> usize {
        if self.big && self.r.one_in(8) { // once per case: a size named in the source, or beyond a byte
            self.big = false;
            let n = if self.d.ints.is_empty() || self.r.one_in(4) { 250 + self.r.below(20) } else { *self.r.pick(&self.d.ints) };
            return n.min(2100) + self.r.below(3);
        }
        match self.r.below(40) {
            0 => { let n = if self.d.ints.is_empty() { 3 } else { *self.r.pick(&self.d.ints) }; let n = n.min(70); n + self.r.below(2) }
            1 | 2 => self.r.below(12),
            3..=7 => self.r.below(6),
            _ => self.r.below(4),
        }
    }
    pub fn keyword(&mut self, k: &str) -> String {
        match self.r.below(4) { 0 => k.to_lowercase(), 1 => k.chars().map(|c| if self.r.one_in(2) { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(), _ => k.to_uppercase() }
    }
    fn ch_from(&mut self, set: &str) -> char { let v: Vec<char> = set.chars().collect(); *self.r.pick(&v) }
    pub fn over(&mut self, set: &str, n: usize) -> String { (0..n).map(|_| self.ch_from(set)).collect() }
    fn dictword(&mut self, ok: &dyn Fn(char) -> bool) -> Option<String> {
        if self.d.words.is_empty() { return None; }
        let w: String = self.r.pick(&self.d.words).chars().filter(|c| ok(*c)).collect();
        if w.is_empty() { None } else { Some(w) }
    }
    /// a word over the characters `ok` accepts
    pub fn word(&mut self, ok: &dyn Fn(char) -> bool) -> String {
        for _ in 0..20 {
            let w: String = match self.r.below(12) {
                0 | 1 => match self.dictword(ok) { Some(w) => w, None => continue },
                2 => { let n = 1 + self.r.below(3); (0..n).map(|_| *self.r.pick(&UNI)).collect() }
                3 => { let n = 1 + self.small(); (0..n).map(|_| char::from_u32(32 + self.r.below(95) as u32).unwrap()).collect() }
                4 => { let a = self.over("abcXYZ019_", 2); let b = self.r.pick(&["/", ".", "-", ":", "$", "${x}", "@", "=", "#", "\\", "\"", "'", ",", "]", "["]).to_string(); let c = self.over("abcXYZ019_", 1); format!("{}{}{}", a, b, c) }
                5 => self.r.pick(&["a", "A", "as", "AS", "b", "scratch", "SCRATCH", "build", "Build", "0", "1", "x", "--x", "-", "[", "#c", "FROM", "run"]).to_string(),
                _ => { let n = 1 + self.r.below(4); self.over("abcdefgXYZ0189_", n) }
            };
            let w: String = w.chars().filter(|c| ok(*c)).collect();
            if !w.is_empty() { return w; }
        }
        "a".to_string().chars().filter(|c| ok(*c)).chain("a".chars()).take(1).collect()
    }
    pub fn nl(&mut self) -> &'static str { match self.r.below(14) { 0 => "\r\n", 1 => "\r", _ => "\n" } }
    pub fn ws0(&mut self) -> String { match self.r.below(8) { 0 => " ".into(), 1 => "\t".into(), 2 => "  \t ".into(), _ => String::new() } }
    pub fn comment_text(&mut self) -> String {
        let n = self.r.below(3);
        let mut s = String::from("#");
        for _ in 0..n { s.push_str(self.r.pick(&[" ", " c", "é", "\\", " RUN x", "\"", "#", "[", "a=b", "'"])); }
        s
    }
    /// optional comment and blank lines after a continuation
    pub fn after_cont(&mut self, blanks: bool) -> (String, Vec<String>) {
        let mut s = String::new();
        let mut cs = vec![];
        if self.r.one_in(3) {
            for _ in 0..1 + self.r.below(2) {
                s.push_str(&self.ws0());
                if blanks && self.r.one_in(3) { s.push_str(self.nl()); continue; }
                let c = self.comment_text();
                s.push_str(&c);
                s.push_str(self.nl());
                cs.push(c);
            }
        }
        (s, cs)
    }
    pub fn cont(&mut self) -> String { let w = self.ws0(); let n = self.nl(); format!("\\{}{}", w, n) }
    /// whitespace between arguments: at least one blank or continuation
    pub fn aws(&mut self) -> String {
        match self.r.below(10) {
            0 => "\t".into(),
            1 => "   ".into(),
            2 | 3 => { let mut s = self.ws0(); for _ in 0..1 + self.r.below(2) { s.push_str(&self.cont()); s.push_str(&self.after_cont(true).0); s.push_str(&self.ws0()); } s }
            _ => " ".into(),
        }
    }
    pub fn aws_maybe(&mut self) -> String { match self.r.below(3) { 0 => self.aws(), _ => String::new() } }
    /// a quoted string and its value
    /// a quoted string in which escaped line breaks are dropped (labels)
    pub fn lquoted(&mut self) -> (String, String) {
        let (mut s, v) = self.quoted(false);
        while self.r.one_in(4) { let k = if self.r.one_in(2) { 1 } else { s.len() - 1 }; s.insert_str(k, "\\\n"); }
        (s, v)
    }
    pub fn quoted(&mut self, newlines: bool) -> (String, String) {
        let q = if self.r.one_in(3) { '\'' } else { '"' };
        let n = self.small();
        let mut src = String::new();
        let mut val = String::new();
        for _ in 0..n {
            match self.r.below(15) {
                0 => { src.push_str("\\n"); val.push('\n'); }
                1 => { src.push_str("\\t"); val.push('\t'); }
                2 => { src.push_str("\\\\"); val.push('\\'); }
                3 => { src.push('\\'); src.push(q); val.push(q); }
                4 => { src.push_str("\\u00e9"); val.push('é'); }
                5 => { src.push_str("\\x41"); val.push('A'); }
                6 => { let o = if q == '"' { '\'' } else { '"' }; src.push(o); val.push(o); }
                7 => { let c = self.r.pick(&[" ", "#", "=", ",", "]", "[", "$x", "  ", "as"]).to_string(); src.push_str(&c); val.push_str(&c); }
                8 if newlines => { src.push('\n'); val.push('\n'); }
                9 => { let c = self.r.pick(&UNI).to_string(); src.push_str(&c); val.push_str(&c); }
                10 => { src.push_str("\\101"); val.push('A'); }
                11 => { src.push_str("\\U0001F600"); val.push('😀'); }
                12 => { src.push_str("\\'"); val.push('\''); }
                13 => { let w = self.word(&|c| !"\"'\\\0\u{1f}\n\r".contains(c)); src.push_str(&w); val.push_str(&w); }
                _ => { let n = 1 + self.r.below(3); let w = self.over("abcXYZ01", n); src.push_str(&w); val.push_str(&w); }
            }
        }
        (format!("{}{}{}", q, src, q), val)
    }
    fn raw(&mut self, ok: &dyn Fn(char) -> bool, bad_first: &str) -> String {
        loop {
            let w = self.word(&|c| ok(c) && !c.is_control() && !" \t\n\r\\".contains(c));
            let f = w.chars().next().unwrap();
            if !bad_first.contains(f) { return w; }
        }
    }
    /// a breakable value: source, flattened text, comments
    pub fn breakable(&mut self, bad_first: &str) -> (String, String, Vec<String>) {
        let n = 1 + self.small().min(12);
        let (mut src, mut flat, mut comments) = (String::new(), String::new(), vec![]);
        for i in 0..n {
            let mut frag = String::new();
            if i > 0 { frag.push_str(&self.ws0()); }
            if i == 0 { frag.push_str(&self.raw(&|_| true, &format!("{}#", bad_first))); } else { frag.push_str(&self.raw(&|_| true, "#")); }
            for _ in 0..self.r.below(3) {
                frag.push_str(self.r.pick(&[" ", "  ", "\t", " && ", "\\n", " # ", "\\ x", "=", "\"", "'", " \\d"]));
                frag.push_str(&self.raw(&|_| true, ""));
            }
            if i + 1 < n { frag.push_str(&self.ws0()); }
            src.push_str(&frag);
            flat.push_str(&frag);
            if i + 1 < n {
                src.push_str(&self.cont());
                let (s, cs) = self.after_cont(false);
                src.push_str(&s);
                comments.extend(cs);
            }
        }
        (src, flat, comments)
    }
    pub fn exec(&mut self) -> (String, Vec<String>) {
        let n = self.small();
        let mut s = String::from("[");
        let mut v = vec![];
        s.push_str(&self.aws_maybe());
        for i in 0..n {
            if i > 0 { s.push_str(&self.aws_maybe()); s.push(','); s.push_str(&self.aws_maybe()); }
            let (q, val) = self.quoted(true);
            s.push_str(&q);
            v.push(val);
        }
        if n > 0 {
            if self.r.one_in(8) { s.push(','); }
            s.push_str(&self.aws_maybe());
        }
        s.push(']');
        (s, v)
    }
    fn flags(&mut self) -> (String, Vec<(String, String)>) {
        let mut s = String::new();
        let mut v = vec![];
        let n = if self.r.one_in(2) { 0 } else { self.small() };
        for _ in 0..n {
            s.push_str(&self.aws());
            let name = { let n = 1 + self.r.below(5); if self.r.one_in(3) { self.r.pick(&["platform", "from", "chown", "a", "X"]).to_string() } else { self.over("abcdefXYZ", n) } };
            let (src, val) = if self.r.one_in(6) { let (q, v) = self.quoted(false); if q.contains(' ') || q.contains('\t') { ("x".to_string(), "x".to_string()) } else { (q, v) } } else { let w = self.raw(&|_| true, "\"'`"); (w.clone(), w) };
            s.push_str(&format!("--{}={}", name, src));
            v.push((name, val));
        }
        (s, v)
    }
    pub fn digest(&mut self) -> String {
        if self.r.one_in(8) { // regular ones
            let p = *self.r.pick(&["0", "f", "F", "a", "A", "9", "01", "deadbeef", "0f", "e3"]);
            let mut t: String = p.repeat(64)[..64].to_string();
            if self.r.one_in(4) { let i = self.r.below(64); t.replace_range(i..i + 1, "1"); }
            return t;
        }
        let m = self.r.below(3); self.over(match m { 0 => "0123456789abcdef", 1 => "0123456789ABCDEF", _ => "0123456789abcdefABCDEF" }, 64) }
    pub fn image(&mut self) -> String {
        let mut s = String::new();
        if self.r.one_in(4) { s.push_str(self.r.pick(&["localhost/", "reg.io/", "host:443/", "org/", "a.b:5/c/", "library/"])); }
        s.push_str(&match self.r.below(6) {
            0 => "scratch".to_string(), 1 => self.r.pick(&["build", "Build", "a", "b", "SCRATCH", "stage", "0"]).to_string(),
            2 => self.r.pick(&["$x", "${x}", "a$x", "${a}b", "$x$y"]).to_string(),
            _ => { let n = 1 + self.r.below(5); self.over("abcXYZ01_-./", n).trim_start_matches('-').to_string() + "i" }
        });
        if self.r.one_in(3) { s.push(':'); let n = 1 + self.r.below(4); s.push_str(&self.over("ab01._-", n)); if self.r.one_in(6) { s.push_str(":x"); } }
        if self.r.one_in(6) { s.push_str("@sha256:"); s.push_str(&self.digest()); }
        s
    }
    pub fn alias(&mut self) -> String { match self.r.below(3) { 0 => self.r.pick(&["build", "Build", "a", "b", "A", "stage", "0", "1", "scratch", "as"]).to_string(), _ => { let n = 1 + self.r.below(4); self.over("abXY01_-", n) } } }
    fn argname(&mut self) -> String { let a = self.over("abcxyABC", 1); let n = self.r.below(4); let b = self.over("abxyAB01_", n); if self.r.one_in(2) { a } else { a + &b } }

    /// one constructed instruction of the given kind: source text and reading
    pub fn instr(&mut self, kind: usize) -> (String, String) {
        let mut s;
        let canon;
        match kind {
            0 => {
                s = self.keyword("FROM");
                let (fs, fv) = self.flags();
                s.push_str(&fs);
                s.push_str(&self.aws());
                let im = self.image();
                s.push_str(&im);
                let al = if self.r.one_in(2) {
                    let a = self.alias();
                    s.push_str(&self.aws()); s.push_str(&self.keyword("AS")); s.push_str(&self.aws()); s.push_str(&a);
                    Some(a)
                } else { None };
                s.push_str(&self.ws0());
                canon = c_from(&fv, &im, &al);
            }
            1 => {
                s = self.keyword("ARG");
                s.push_str(&self.aws());
                let n = self.argname();
                s.push_str(&n);
                let v = match self.r.below(3) {
                    0 => None,
                    1 => { let (q, v) = self.quoted(true); s.push('='); s.push_str(&q); Some(v) }
                    _ => { let w = if self.r.one_in(3) { self.r.pick(&["1", "$x", "${a}", "alpine:3", "$y-1", "$a$b"]).to_string() } else { self.raw(&|_| true, "\"'`") }; s.push('='); s.push_str(&w); Some(w) }
                };
                s.push_str(&self.ws0());
                canon = c_arg(&n, &v);
            }
            2 => {
                s = self.keyword("LABEL");
                let mut v = vec![];
                if self.r.one_in(3) {
                    s.push_str(&self.aws());
                    let (ns, nv) = if self.r.one_in(3) { self.lquoted() } else { let w = self.raw(&|c| c != '=', "\"'`#"); (w.clone(), w) };
                    let (vs, vv) = if self.r.one_in(2) { self.lquoted() } else { let w = self.raw(&|_| true, "\"'`#"); (w.clone(), w) };
                    let w = self.aws();
                    s.push_str(&ns); if w.starts_with('\\') { s.push(' '); } s.push_str(&w); s.push_str(&vs);
                    v.push((nv, vv));
                } else {
                    let n = 1 + self.small();
                    for _ in 0..n {
                        s.push_str(&self.aws());
                        let (ns, nv) = if self.r.one_in(3) { self.lquoted() } else { let w = self.raw(&|c| c != '=', "\"'`#"); (w.clone(), w) };
                        let (vs, vv) = if self.r.one_in(2) { self.lquoted() } else { let w = self.raw(&|_| true, "\"'`#"); (w.clone(), w) };
                        s.push_str(&ns); s.push('='); s.push_str(&vs);
                        v.push((nv, vv));
                    }
                }
                canon = c_pairs("LABEL", &v);
            }
            3 | 4 | 5 => {
                let k = ["RUN", "ENTRYPOINT", "CMD"][kind - 3];
                s = self.keyword(k);
                s.push_str(&self.aws());
                if self.r.one_in(3) {
                    let (e, v) = self.exec();
                    s.push_str(&e);
                    s.push_str(&self.ws0());
                    canon = c_exec(k, &v);
                } else {
                    let (b, f, c) = self.breakable("[");
                    s.push_str(&b);
                    canon = c_shell(k, &f, &c);
                }
            }
            6 => {
                s = self.keyword("COPY");
                let (fs, fv) = self.flags();
                s.push_str(&fs);
                let n = 2 + self.small();
                let mut v = vec![];
                for _ in 0..n {
                    s.push_str(&self.aws());
                    let w = self.raw(&|_| true, "\"'`-#");
                    s.push_str(&w);
                    v.push(w);
                }
                s.push_str(&self.ws0());
                let d = v.pop().unwrap();
                canon = c_copy(&fv, &v, &d);
            }
            7 => {
                s = self.keyword("ENV");
                let ename = |g: &mut Self| { let n = 1 + g.r.below(4); g.over("abXY01_", n) };
                if self.r.one_in(3) {
                    s.push_str(&self.aws());
                    let n = ename(self);
                    s.push_str(&n); s.push_str(&self.aws());
                    let (vs, vv) = if self.r.one_in(3) { self.quoted(true) } else { let (a, b, _) = self.breakable("\"'="); (a, b) };
                    s.push_str(&vs);
                    canon = c_pairs("ENV", &[(n, vv)]);
                } else {
                    let mut v = vec![];
                    let n = 1 + self.small();
                    for _ in 0..n {
                        s.push_str(&self.aws());
                        let n = ename(self);
                        let (vs, vv) = if self.r.one_in(2) { self.quoted(true) } else { let w = self.raw(&|_| true, "\"'"); (w.clone(), w) };
                        s.push_str(&n); s.push('='); s.push_str(&vs);
                        v.push((n, vv));
                    }
                    if self.r.one_in(10) { s.push(' '); }
                    canon = c_pairs("ENV", &v);
                }
            }
            _ => {
                let m = self.r.pick(&MISC).to_string();
                let m = if self.r.one_in(2) { self.keyword(&m) } else { m };
                let (b, f, c) = self.breakable("");
                let sp = self.r.pick(&[" ", "  ", "\t"]).to_string();
                s = format!("{}{}{}", m, sp, b);
                canon = c_misc(&m, &format!("{}{}", sp, f), &c);
            }
        }
        (s, canon)
    }

    /// a constructed document and the readings of its instructions
    pub fn doc(&mut self, kinds: &[usize]) -> (String, Vec<String>) {
        let mut n = match self.r.below(10) { 0 => 5 + self.r.below(8), 1 => self.small().min(30), _ => 1 + self.r.below(4) };
        let mut one = None;
        if self.big && self.r.one_in(4) { // more instructions than a byte counts, often all of one kind
            self.big = false;
            n = 250 + self.r.below(30);
            if self.r.one_in(2) { one = Some(*self.r.pick(kinds)); }
        }
        let mut s = String::new();
        let mut v = vec![];
        for i in 0..n {
            if i > 0 { s.push_str(self.nl()); }
            for _ in 0..if self.r.one_in(3) { 1 + self.r.below(2) } else { 0 } {
                s.push_str(&self.ws0());
                if self.r.one_in(2) { s.push_str(&self.comment_text()); }
                s.push_str(self.nl());
            }
            s.push_str(&self.ws0());
            let k = if let Some(k) = one { k } else if self.r.one_in(4) { self.r.below(9) } else { *self.r.pick(kinds) };
            let (t, c) = self.instr(k);
            s.push_str(&t);
            v.push(c);
        }
        for _ in 0..self.r.below(3) {
            s.push_str(self.nl());
            s.push_str(&self.ws0());
            if self.r.one_in(2) { s.push_str(&self.comment_text()); }
        }
        (s, v)
    }

    /// an arbitrary text, biased towards Dockerfile-like shapes
    pub fn wild(&mut self, kinds: &[usize]) -> String {
        let mut t = self.wild0(kinds);
        if kinds.contains(&0) && self.r.one_in(12) {
            let b = self.baddigest();
            let (x, y) = (*self.r.pick(&["a", "reg.io/a", "a:1", "$a", "localhost/a", ""]), *self.r.pick(&["", " as b", " AS b ", ":x", "@y"]));
            t = match self.r.below(3) { 0 => format!("{}\nFROM {}@{}{}", t, x, b, y), 1 => format!("FROM {}@{}{}", x, b, y), _ => format!("FROM {}@{}{}\n{}", x, b, y, t) };
        }
        match self.r.below(60) { 0 => format!("\u{feff}{}", t), 1 => { let x = *self.r.pick(&["\u{feff}", "\0", "\u{1a}", "\\", " ", "\r", "\n\n", "\u{85}", "\u{2028}", "\u{3000}", "\u{b}", "\u{c}"]); if self.r.one_in(2) { t + x } else { x.to_string() + &t } } _ => t }
    }
    fn wild0(&mut self, kinds: &[usize]) -> String {
        match self.r.below(10) {
            0 | 1 => { let n = 1 + self.r.below(14); (0..n).map(|_| if self.r.one_in(10) && !self.d.words.is_empty() { self.r.pick(&self.d.words).clone() } else { self.r.pick(&SOUP).to_string() }).collect() }
            2 | 3 if self.r.one_in(2) => { // keyword plus soup
                let k = { let kk = *self.r.pick(kinds); if kk < 8 { KW[kk] } else { *self.r.pick(&MISC) } };
                let mut s = self.keyword(k);
                s.push(' ');
                let n = 1 + self.r.below(9);
                for _ in 0..n { let x = if self.r.one_in(12) && !self.d.words.is_empty() { self.r.pick(&self.d.words).clone() } else { self.r.pick(&SOUP).to_string() }; s.push_str(&x); }
                s
            }
            2 | 3 => { // a well-formed instruction with something added at a blank or at an end
                let k = *self.r.pick(kinds);
                let (t, _) = self.instr(k);
                self.decorate(&t)
            }
            4 if !self.corpus.is_empty() => { let c = self.r.pick(self.corpus).clone(); self.mutate(&c) }
            _ => { let (t, _) = self.doc(kinds); if self.r.one_in(3) { t } else { self.mutate(&t) } }
        }
    }
    /// a text with an addition at its end, at a blank or before a line break
    pub fn decorate(&mut self, t: &str) -> String {
        let mut t = t.to_string();
        for _ in 0..1 + self.r.below(2) {
            let at: Vec<usize> = t.char_indices().filter(|(i, c)| *i > 0 && (c.is_whitespace() || *c == '\\' || *c == '=' || *c == ',')).map(|(i, _)| i).collect();
            let i = if at.is_empty() || self.r.one_in(2) { t.len() } else { *self.r.pick(&at) };
            let x = *self.r.pick(&[" #c", " # c d", "#c", " #", " //c", ";", " ;", " &&", " <<EOF", " --a=b", " --a", " as b", " AS b", " a=b", " a", "=", " =", "=b", " \"", "\"a\"", " 'a'", " \\\n", "\\\n", "\\ \n#c\n", " \\\n\n", "\t", " ", "\u{a0}", "\r", ",", " ,", "]", "[", " \"\"", "@", ":", "\\", "\\\\", "`", "\u{1a}", "\u{b}", "\n"]);
            t.insert_str(i, x);
        }
        t
    }
    /// a digest near the valid ones
    pub fn baddigest(&mut self) -> String {
        let dg = self.digest();
        let mut h = format!("sha256:{}", dg);
        match self.r.below(12) {
            10 => { let m = if self.r.one_in(2) { 12 } else { h.len() + 1 }; let i = self.r.below(m); h.insert_str(i, *self.r.pick(&["é", "😀", "０", "\u{301}", "a:", ":b"])); if self.r.one_in(2) { let mut k = self.r.below(12).min(h.len()); while !h.is_char_boundary(k) { k += 1; } h.truncate(k); } }
            0 => { let i = self.r.below(h.len()); let c = *self.r.pick(&["g", "G", "z", "_", "-", ":", "/", "@", ".", "$"]); h.replace_range(i..i + 1, c); }
            1 => { let i = self.r.below(h.len()); h.remove(i); }
            2 => { let i = self.r.below(h.len() + 1); let c = *self.r.pick(&["0", "a", ":", "@", "g"]); h.insert_str(i, c); }
            3 => { let p = *self.r.pick(&["sha512:", "SHA256:", "", "sha256", "md5:", "sha256::", ":sha256:", "sha1:", "Sha256:"]); h = format!("{}{}", p, dg); }
            4 => { let n = 60 + self.r.below(10); h = format!("sha256:{}", self.over("0123456789abcdefgGzZ", n)); }
            5 => { // as many bytes as a valid one, some of them in longer characters
                let n = 1 + self.r.below(6); let at = self.r.below(70); let mut k = 0; let mut o = String::new();
                for (i, c) in h.chars().enumerate() { if i >= at && k < n { if k == 0 { o.push_str(if n % 2 == 0 { "é" } else { "日" }); } k += if n % 2 == 0 { 2 } else { 3 }; continue; } o.push(c); }
                h = o; }
            6 => { let k = self.r.below(12); h.truncate(k); }
            7 => { // parts of a digest in another order, missing or repeated
                h.clear();
                for _ in 0..1 + self.r.below(4) {
                    match self.r.below(8) { 0 | 1 => h.push_str("sha256:"), 2 | 3 => h.push_str(&dg), 4 => h.push_str(&dg[..32]), 5 => h.push(':'), 6 => h.push_str("sha256"), _ => h.push_str(self.r.pick(&["sha512:", "0x", "@", "SHA256:", "a:"])) }
                } }
            _ => {}
        }
        h
    }
    pub fn mutate(&mut self, t: &str) -> String {
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..1 + self.r.below(3) {
            let i = self.r.below(c.len() + 1);
            match self.r.below(6) {
                5 => { let w = *self.r.pick(&UNI); for (k, x) in w.chars().enumerate() { if self.r.one_in(2) && i + k < c.len() { c[i + k] = x; } else { c.insert(i + k, x); } } }
                0 if i < c.len() => { c.remove(i); }
                1 if i < c.len() => { let x = c[i]; c.insert(i, x); }
                2 if i < c.len() => { let j = (i + 1 + self.r.below(6)).min(c.len()); c.drain(i..j); }
                3 if !self.d.words.is_empty() => { let w = self.r.pick(&self.d.words).clone(); for (k, x) in w.chars().enumerate() { c.insert(i + k, x); } }
                _ => { let w = self.r.pick(&SOUP).to_string(); for (k, x) in w.chars().enumerate() { c.insert(i + k, x); } }
            }
        }
        c.into_iter().collect()
    }
    /// arbitrary short string for non-document inputs
    pub fn anystr(&mut self, toks: &[&str]) -> String {
        let n = self.small() + self.r.below(3);
        (0..n).map(|_| match self.r.below(8) { 0 if !self.d.words.is_empty() => self.r.pick(&self.d.words).clone(), 1 => if self.r.one_in(3) { self.r.pick(&CTRL).to_string() } else { self.r.pick(&UNI).to_string() }, _ => self.r.pick(toks).to_string() }).collect()
    }
}

pub fn c_from(f: &[(String, String)], im: &str, al: &Option<String>) -> String { format!("FROM flags={:?} image={:?} alias={:?}", f, im, al) }
pub fn c_arg(n: &str, v: &Option<String>) -> String { format!("ARG {:?} {:?}", n, v) }
pub fn c_pairs(k: &str, v: &[(String, String)]) -> String { format!("{} {:?}", k, v) }
pub fn c_exec(k: &str, v: &[String]) -> String { format!("{} exec {:?}", k, v) }
pub fn c_shell(k: &str, f: &str, c: &[String]) -> String { format!("{} shell {:?} comments={:?}", k, f, c) }
pub fn c_copy(f: &[(String, String)], s: &[String], d: &str) -> String { format!("COPY flags={:?} sources={:?} destination={:?}", f, s, d) }
pub fn c_misc(n: &str, f: &str, c: &[String]) -> String { format!("MISC {:?} {:?} comments={:?}", n, f, c) }
