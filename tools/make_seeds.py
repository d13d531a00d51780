import subprocess,os,json,shutil,sys
W='/tmp/seedrepo'
SEEDS=[]
def seed(id,prop,edits,needs,breaks,main):
    SEEDS.append((id,prop,edits,needs,breaks,main))
PRE='use dockerfile_parser::*;\n'
def m(body): return PRE+'fn main() {\n'+body+'\n}\n'

seed('c01-arg-comment','C01',[('src/instructions/arg.rs',"        Rule::comment => continue,\n","")],
 'a comment line between ARG and its name','the parse fails with an internal "unexpected token" error',
 m(r"""  let d = Dockerfile::parse("ARG \\\n  # note\n  b=1\nFROM x\n").unwrap();
  assert_eq!(d.global_args.len(), 1);"""))
seed('c01-nul-string','C01',[('src/util.rs',"""    unquote(field_str).context(UnescapeError)?
  } else {""","""    let last = field_str.len() - 1;
    if field_str[1..last].contains('\\\\') {
      unquote(field_str).context(UnescapeError)?
    } else {
      field_str[1..last].to_string()
    }
  } else {""")],
 'a value that is a lone quote character, such as a COPY path','slicing the one-character text panics',
 m(r"""  let _ = Dockerfile::parse("FROM x\nCOPY \" b\n");"""))
seed('c02-comment-span','C02',[('src/util.rs',"""      Rule::comment => components.push(SpannedComment {
        span: (&field).into(),
        content: field.as_str().to_string(),""","""      Rule::comment => components.push(SpannedComment {
        span: {
          let start = Span::from_pair(&field).start;
          Span::new(start, start + field.as_str().chars().count())
        },
        content: field.as_str().to_string(),""")],
 'a comment with non-ASCII characters inside a continued shell command','the span of such a comment ends early, possibly in the middle of a character',
 m(r'''  let s = "RUN a \\\n# caf\u{e9}\nb\n";
  let d = Dockerfile::parse(s).unwrap();
  for c in d.instructions[0].as_run().unwrap().as_shell().unwrap().iter_components() {
    if let BreakableStringComponent::Comment(c) = c { assert_eq!(s.get(c.span.start..c.span.end), Some("# caf\u{e9}")); }
  }'''))
seed('c03-comment-trim','C03',[('src/util.rs',"""      Rule::comment => components.push(SpannedComment {
        span: (&field).into(),
        content: field.as_str().to_string(),""","""      Rule::comment => components.push(SpannedComment {
        span: (&field).into(),
        content: field.as_str().trim_end().to_string(),""")],
 'a comment with trailing blanks inside a continued shell command','the comment text no longer equals the source at its span',
 m(r'''  let s = "RUN a \\\n# c  \nb\n";
  let d = Dockerfile::parse(s).unwrap();
  for c in d.instructions[0].as_run().unwrap().as_shell().unwrap().iter_components() {
    if let BreakableStringComponent::Comment(c) = c { assert_eq!(&s[c.span.start..c.span.end], c.content); }
  }'''))
seed('c04-drop-blank-misc','C04',[('src/dockerfile_parser.rs',"""    instructions.push(instruction);
  }""","""    // nothing to report for a directive without arguments
    if let Instruction::Misc(misc) = &instruction {
      if misc.arguments.to_string().trim().is_empty() {
        continue;
      }
    }

    instructions.push(instruction);
  }""")],
 'an unsupported directive followed by nothing but blanks','the directive is missing from the instruction list',
 m(r'''  let d = Dockerfile::parse("FROM x\nUSER  \n").unwrap();
  assert_eq!(d.instructions.len(), 2);'''))
seed('c05-copy-case','C05',[('src/dockerfile_parser.pest','copy = { ^"copy" ~','copy = { ("copy" | "COPY") ~')],
 'a COPY keyword in mixed case','`Copy a b` is reported as a miscellaneous instruction',
 m(r'''  let d = Dockerfile::parse("FROM x\nCopy a b\n").unwrap();
  assert!(d.instructions[1].as_copy().is_some());'''))
seed('c06-reader-chunk','C06',[('src/dockerfile_parser.rs',"""    let mut buf = String::new();
    let mut buf_reader = BufReader::new(reader);
    buf_reader.read_to_string(&mut buf).context(ReadError)?;
""","""    let mut buf = String::new();
    let mut buf_reader = BufReader::new(reader);
    let mut chunk = [0; 4096];
    loop {
      let read = buf_reader.read(&mut chunk).context(ReadError)?;
      if read == 0 {
        break;
      }
      buf.push_str(&String::from_utf8_lossy(&chunk[..read]));
    }
""")],
 'a multi-byte character split between two reads','such a character is replaced by U+FFFD, so parsing from a reader differs from parsing the string',
 PRE+r'''use std::io::Read;
struct One<'a>(&'a [u8]);
impl<'a> Read for One<'a> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { if self.0.is_empty() || b.is_empty() { return Ok(0); } b[0] = self.0[0]; self.0 = &self.0[1..]; Ok(1) } }
fn main() {
  let s = "FROM x\nRUN echo caf\u{e9}\n";
  assert_eq!(Dockerfile::from_reader(One(s.as_bytes())).unwrap(), Dockerfile::parse(s).unwrap());
  assert!(Dockerfile::from_reader(&b"FROM x\nRUN \xff\n"[..]).is_err());
}
''')
seed('c06-global-dedupe','C06',[('src/dockerfile_parser.rs',"""        if !from_found {
          global_args.push(arg.clone());""","""        if !from_found && !global_args.iter().any(|a: &ArgInstruction| a.name == arg.name) {
          global_args.push(arg.clone());"""),('src/dockerfile_parser.rs',"a.name == arg.name","a.name.content == arg.name.content")],
 'the same global ARG name twice before the first FROM','the second definition is missing from global_args',
 m(r'''  let d = Dockerfile::parse("ARG a=1\nARG a=2\nFROM x\n").unwrap();
  assert_eq!(d.global_args.len(), 2);'''))
seed('c07-ignore-case','C07',[('src/dockerfile_parser.rs',"          if a.name.content == name {","          if a.name.content.eq_ignore_ascii_case(name) {")],
 'two global ARGs whose names differ in case only','the lookup returns an ARG whose name differs from the given one',
 m(r'''  let d = Dockerfile::parse("ARG Ver=1\nARG ver=2\nFROM x\n").unwrap();
  assert_eq!(d.get_global_arg("ver").unwrap().name.content, "ver");'''))
seed('c08-char-count','C08',[('src/splicer.rs',"    let new_len = replacement.len();","    let new_len = replacement.chars().count();")],
 'a non-ASCII replacement followed by a splice after it','the later splice lands at the wrong place or panics',
 m(r'''  let d = Dockerfile::parse("FROM abc\nRUN x\n").unwrap();
  let mut s = d.splicer();
  s.splice(&Span::new(5, 8), "\u{e9}\u{e9}");
  s.splice(&Span::new(13, 14), "y");
  assert_eq!(s.content, "FROM \u{e9}\u{e9}\nRUN y\n");'''))
seed('c08-sorted-offsets','C08',[('src/splicer.rs',"""      SpliceOffset { position: span.start, offset }
    );
""","""      SpliceOffset { position: span.start, offset }
    );
    self.splice_offsets.sort_by_key(|o| o.position);
""")],
 'a splice near the end, then a long one near the start, then one between them','the recorded offsets are replayed in another order than applied, so the third splice lands at the wrong place',
 m(r"""  let d = Dockerfile::parse("FROM abcdef\n").unwrap();
  let mut s = d.splicer();
  s.splice(&Span::new(10, 11), "");
  s.splice(&Span::new(5, 6), "0123456789");
  s.splice(&Span::new(7, 8), "X");
  assert_eq!(s.content, "FROM 0123456789bXde\n");"""))
seed('c09-newline-at-start','C09',[('src/splicer.rs',"""      if i == self.start {
        break;
      }

      if *c == b'\\n' {
        lines += 1;
        line_start_offset = i + 1;
      }
""","""      if *c == b'\\n' && i + 1 <= self.end {
        lines += 1;
        line_start_offset = i + 1;
      }

      if i + 1 >= self.start {
        break;
      }
""")],
 'a span that starts at the very beginning of a text that begins with a line feed','line feeds not before the span are counted and the start underflows',
 m(r'''  let d = Dockerfile::parse("\nFROM x\n").unwrap();
  assert_eq!(Span::new(0, 1).relative_span(&d), (0, Span::new(0, 1)));
  assert_eq!(Span::new(1, 7).relative_span(&d), (1, Span::new(0, 6)));'''))
seed('c10-last-at','C10',[('src/image.rs',"image_full.find('@')","image_full.rfind('@')")],
 'an image reference with two @ characters','the digest is taken after the last @ instead of the first',
 m(r'''  let i = ImageRef::parse("a@b@c");
  assert_eq!((i.image.as_str(), i.hash.as_deref()), ("a", Some("b@c")));'''))
seed('c10-digest-registry','C10',[('src/image.rs',"""    let (registry, image_full) = if parts.len() == 2 && is_registry(parts[0]) {""","""    let (registry, image_full) = if parts.len() == 2 && !parts[0].contains('@') && is_registry(parts[0]) {""")],
 'a reference whose first component contains both a dot or colon and an @','the first component is no longer split off as the registry',
 m(r'''  let i = ImageRef::parse("a@b.c/d");
  assert_eq!((i.registry.as_deref(), i.image.as_str(), i.hash), (Some("a@b.c"), "d", None));'''))
seed('c11-name-chars','C11',[('src/image.rs',r"\{([A-Za-z0-9_]+)\})",r"\{([A-Za-z0-9_.]+)\})")],
 'text like ${a.b} that is not a reference','substitution gives up instead of leaving the text unchanged',
 m(r'''  let v = std::collections::HashMap::new();
  let mut u = std::collections::HashSet::new();
  assert_eq!(substitute("${a.b}", &v, &mut u, 3), Some("${a.b}".to_string()));'''))
seed('c11-skip-empty','C11',[('src/image.rs',"    used_vars.insert(var_name.as_str().to_string());","    if !substituted_content.is_empty() {\n      used_vars.insert(var_name.as_str().to_string());\n    }")],
 'a variable whose value is empty','a used variable is not reported',
 m(r'''  let mut v = std::collections::HashMap::new(); v.insert("a", "");
  let mut u = std::collections::HashSet::new();
  assert_eq!(substitute("x$a", &v, &mut u, 3), Some("x".to_string()));
  assert!(u.contains("a"));'''))
seed('c12-first-wins','C12',[('src/image.rs',"""        .iter()
        .filter_map(|a| match a.value""","""        .iter()
        .rev()
        .filter_map(|a| match a.value""")],
 'the same global ARG given two values','the first value is used instead of the last',
 m(r'''  let d = Dockerfile::parse("ARG a=1\nARG a=2\nFROM x:$a\n").unwrap();
  assert_eq!(d.instructions[2].as_from().unwrap().image_parsed.resolve_vars(&d).unwrap().tag.unwrap(), "2");'''))
seed('c13-from-index','C13',[('src/stage.rs',"          index: next_stage_index,","          index: from.index,")],
 'a Dockerfile value whose instruction list was edited after parsing','stage indexes no longer count from 0',
 m(r'''  let mut d = Dockerfile::parse("FROM a\nFROM b\n").unwrap();
  d.instructions.remove(0);
  assert_eq!(d.stages().stages[0].index, 0);'''))
seed('c14-numeric-parent','C14',[('src/stage.rs',"stages.get_by_name(&image_name)","stages.get(&image_name)")],
 'a FROM image that is a number, such as `FROM 0`','an image named by a number is taken for an earlier stage index',
 m(r'''  let d = Dockerfile::parse("FROM a\nFROM 0\n").unwrap();
  assert!(match d.stages().stages[1].parent { StageParent::Image(_) => true, _ => false });'''))
seed('c15-fallback','C15',[('src/stage.rs',"      Ok(index) => self.stages.get(index),","      Ok(index) => self.stages.get(index).or_else(|| self.get_by_name(s)),")],
 'a stage named by a number that is out of range as an index','lookup by text returns a stage although the index is out of range',
 m(r'''  let d = Dockerfile::parse("FROM a as 7\n").unwrap();
  assert!(d.stages().get("7").is_none());'''))
seed('c16-extra-parts','C16',[('src/instructions/from.rs','if let ["sha256", hexdata] = parts[..] {','if let ["sha256", hexdata, ..] = parts[..] {')],
 'a digest followed by another colon-separated part','`sha256:<64 hex>:x` is accepted',
 m(r'''  let h = "0123456789abcdef".repeat(4);
  assert!(Dockerfile::parse(&format!("FROM a@sha256:{}", h)).is_ok());
  assert!(Dockerfile::parse(&format!("FROM a@sha256:{}:x", h)).is_err());'''))
seed('c17-blank-piece','C17',[('src/util.rs',"""      Rule::any_content => components.push(SpannedString {""","""      Rule::any_content if field.as_str().trim().is_empty() => continue,
      Rule::any_content => components.push(SpannedString {""")],
 'a continued line that holds only blanks','the blank fragment is missing from the pieces and from the printed text',
 m(r'''  let d = Dockerfile::parse("FROM x\nRUN a\\\n \\\nb\n").unwrap();
  assert_eq!(d.instructions[1].as_run().unwrap().as_shell().unwrap().to_string(), "a b");'''))
seed('c18-empty-element','C18',[('src/util.rs',"""        elements.push(parse_string(&field)?);""","""        let element = parse_string(&field)?;
        if !element.content.is_empty() {
          elements.push(element);
        }""")],
 'an exec form with an empty string','the empty element is dropped',
 m(r'''  let d = Dockerfile::parse("FROM x\nCMD [\"a\", \"\"]\n").unwrap();
  assert_eq!(d.instructions[1].as_cmd().unwrap().as_exec().unwrap().elements.len(), 2);'''))
seed('c19-copy-flag-dedupe','C19',[('src/instructions/copy.rs',"""        Rule::copy_flag => flags.push(CopyFlag::from_record(field)?),""","""        Rule::copy_flag => {
          let flag = CopyFlag::from_record(field)?;
          flags.retain(|f: &CopyFlag| f.name.content != flag.name.content);
          flags.push(flag);
        },""")],
 'a COPY with the same flag twice','the first of the two flags is dropped',
 m(r'''  let d = Dockerfile::parse("FROM x\nCOPY --exclude=a --exclude=b c d\n").unwrap();
  assert_eq!(d.instructions[1].as_copy().unwrap().flags.len(), 2);'''))
seed('c19-alias-case','C19',[('src/instructions/from.rs',"""      Some(parse_string(&alias_field)?)""","""      let mut alias = parse_string(&alias_field)?;
      alias.content.make_ascii_lowercase();
      Some(alias)""")],
 'a stage alias with capital letters','the alias text is not as written',
 m(r'''  let d = Dockerfile::parse("FROM x AS Build\n").unwrap();
  assert_eq!(d.instructions[0].as_from().unwrap().alias.as_ref().unwrap().content, "Build");'''))
seed('c20-env-dedupe','C20',[('src/instructions/env.rs',"""        Rule::env_pair => vars.push(parse_env_pair(field)?),""","""        Rule::env_pair => {
          let var = parse_env_pair(field)?;
          if !vars.iter().any(|v: &EnvVar| v.key.content == var.key.content) {
            vars.push(var);
          }
        },""")],
 'an ENV that sets the same key twice','the second pair is dropped',
 m(r'''  let d = Dockerfile::parse("FROM x\nENV a=1 a=2\n").unwrap();
  assert_eq!(d.instructions[1].as_env().unwrap().vars.len(), 2);'''))
seed('c20-label-last','C20',[('src/instructions/label.rs',"        Rule::label_pair => labels.push(Label::from_record(field)?),","""        Rule::label_pair => {
          let label = Label::from_record(field)?;
          match labels.iter().position(|l: &Label| l.name.content == label.name.content) {
            Some(i) => labels[i] = label,
            None => labels.push(label),
          }
        },""")],
 'a LABEL that sets the same name twice','only the last of the two pairs is reported',
 m(r"""  let d = Dockerfile::parse("FROM x\nLABEL a=b a=c\n").unwrap();
  assert_eq!(d.instructions[1].as_label().unwrap().labels.len(), 2);"""))
seed('c21-empty-exec','C21',[('src/instructions/entrypoint.rs',"""    self.expr.as_exec()""","""    self.expr.as_exec().filter(|e| !e.elements.is_empty())""")],
 'an ENTRYPOINT with an empty exec array','the exec accessor returns nothing for `ENTRYPOINT []`',
 m(r'''  let d = Dockerfile::parse("FROM x\nENTRYPOINT []\n").unwrap();
  assert!(d.instructions[1].as_entrypoint().unwrap().as_exec().is_some());'''))

def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def reset():
    sh('git checkout -q -- .',cwd=W)
def main(ids):
    if not os.path.exists(W): sh('cp -a /repo '+W)
    sh('git fetch -q /repo && git reset -q --hard FETCH_HEAD',cwd=W)
    env=open('/opt/vp/env.sh').read() if os.path.exists('/opt/vp/env.sh') else ''
    base=json.load(open('/opt/vp/BASELINE.json'))
    for id,prop,edits,needs,breaks,mn in SEEDS:
        if ids and id not in ids: continue
        out='/verif/seeded/'+id
        if os.path.exists(out+'/ok') and not ids: continue
        reset(); 
        bad=None
        for f,a,b in edits:
            p=os.path.join(W,f); t=open(p).read()
            if a not in t: bad='no match '+f; break
            open(p,'w').write(t.replace(a,b,1))
        if bad: print(id,bad); continue
        diff=sh('git diff',cwd=W).stdout
        os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(diff)
        open(out+'/main.rs','w').write(mn)
        shutil.copy('/verif/tools/demo.sh.tmpl',out+'/demo.sh'); os.chmod(out+'/demo.sh',0o755)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(out+'/meta.json','w'),indent=1)
        t=sh('. /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline 2>&1',cwd=W)
        import re
        res=re.findall(r'test result: (\w+)\. (\d+) passed; (\d+) failed',t.stdout)
        d1=sh('bash %s/demo.sh'%out,cwd=W)
        reset()
        d0=sh('bash %s/demo.sh'%out,cwd=W)
        ok= t.returncode==0 and d1.returncode!=0 and d0.returncode==0 and 'could not compile' not in d1.stderr
        print(id,'OK' if ok else 'BAD',res,d1.returncode,d0.returncode)
        if not ok: print(t.stdout[-1500:] if t.returncode else '', d1.stderr[-500:], d0.stderr[-800:])
main(sys.argv[1:])
