import json
P=[]
def p(id,title,statement,qtext,why,files,mech,observe,over=("inputs",),state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80, title
    P.append(d)
G="src/dockerfile_parser.pest"; DP="src/dockerfile_parser.rs"; U="src/util.rs"; I="src/instructions/"
p("C01","Parsing any text succeeds or reports a genuine input error, and never panics",
 "Parsing any string as a Dockerfile returns normally, without panicking. When it fails, the error is one of exactly three kinds: the text does not match the Dockerfile syntax, a quoted value cannot be unescaped, or a FROM image digest is invalid. A text that follows the syntax is never refused as not matching it. Parsing never fails with an internal complaint about a token or component that the syntax itself allowed (an unexpected token, a missing name or value, or an unknown error).",
 "for every input string","The tests parse a few dozen fixed texts; the syntax accepts infinitely many shapes (comments after continuations, quoting, flags) and every one must be handled by the code that walks the parse tree.",
 [DP,G,U,I],[("grammar and tree walkers agree on which tokens may appear",G+"; src/instructions/*.rs from_record"),("unwrap on first inner token",I+"run.rs, cmd.rs, entrypoint.rs, env.rs")],["Dockerfile::parse return value"])
p("C02","Spans are valid, nested, ordered byte ranges of the source",
 "In every successful parse, every span (of an instruction, flag, name, value, path, element, shell piece or comment) is a byte range lying inside the source text and falling on character boundaries. Instruction spans come in source order without overlapping, each part's span lies inside the span of the instruction or pair it belongs to, and sibling parts (flags, paths, elements, variables, labels, shell pieces; a key and its value) are in order without overlapping.",
 "for every input string that parses","Tests compare spans of a handful of ASCII examples; multi-byte text, continuations, comments and CRLF shift offsets in ways they do not sample.",
 [DP,G,U,"src/splicer.rs",I],[("Span::from_pair",'src/splicer.rs'),("env single span built from key and value","src/instructions/env.rs")],["span fields of the parse result"])
p("C03","Every parsed text value equals the source at its span, or its unescaping",
 "In every successful parse, each string with a span has exactly the text found in the source at that span, except that where the source there is a quoted string the text is that string with its quotes removed and escapes decoded (quoted means beginning with a double, single or back quote; for ENV values, being a complete double- or single-quoted string). In labels, escaped line breaks inside a quoted name or value are removed before decoding. Comments and unquoted shell pieces are kept verbatim.",
 "for every input string that parses","Tests check a few literal values; a value can be trimmed, lower-cased, re-quoted or cut only for particular characters, quotes or lengths.",
 [U,I,G],[("parse_string",U),("unquote calls","src/instructions/env.rs, label.rs"),("parse_any_breakable",U)],["content fields of the parse result"])
p("C04","No source text is lost outside instructions except blanks and comment lines",
 "In every successful parse, the source text before, between and after the instruction spans consists only of blank lines, blanks around instructions and whole comment lines. Every comment-free non-blank line of the source therefore belongs to some reported instruction.",
 "for every input string that parses","Whether an instruction silently disappears depends on the position and neighbours of the line; the tests check a few fixed documents.",
 [DP,G],[("loop over top-level records skips only comments and end of input",DP+" parse_dockerfile"),("top-level rule",G+" dockerfile, meta_step")],["instructions of the parse result"])
p("C05","Each instruction's kind matches the keyword written in the source",
 "In every successful parse, an instruction reported as FROM, ARG, LABEL, RUN, ENTRYPOINT, CMD, COPY or ENV has source text that begins with that keyword, in any letter case, followed by whitespace or a line continuation. Any other instruction is reported as miscellaneous with its name exactly as written and the rest of its text as arguments. A supported keyword in any letter case followed by well-formed arguments is accepted and reported as that kind, never as miscellaneous.",
 "for every input string that parses","Tests use upper-case keywords in a handful of positions; dispatch depends on keyword, letter case and every argument shape.",
 [DP,G,I+"misc.rs"],[("dispatch on token kind",DP+" TryFrom<Pair> for Instruction"),("step rule ordering",G+" step")],["Instruction variants"])
p("C06","Parse result assembly: source kept, FROMs numbered, global args collected",
 "A successful parse keeps the input text unchanged as its content and numbers FROM instructions 0, 1, 2, ... in source order. Its global arguments are exactly the ARG instructions that precede the first FROM, in order and equal to the corresponding entries of the instruction list. Parsing from a string, through the standard string conversion, or from a reader delivering the same bytes in any chunking gives the same result; a reader that fails or delivers invalid UTF-8 gives a read error.",
 "for every input string and every chunking of a reader","Counting and ordering must hold for any number and interleaving of ARG, FROM and other instructions; tests use two or three.",
 [DP],[("parse_dockerfile loop",DP),("from_reader",DP)],["Dockerfile.content, global_args, instructions"],state=[("from_index / from_found","running FROM counter and flag",DP+" parse_dockerfile")])
p("C07","Looking up a global argument finds exactly the first matching global ARG",
 "Looking up a global argument by name in a parsed Dockerfile returns the first of its global arguments (the ARG instructions before the first FROM) whose name equals the given name exactly, and nothing when there is none. Other kinds of instruction placed between them do not hide any, and ARG instructions after the first FROM are never returned.",
 "for every Dockerfile value and name","Tests look up one or two names in documents without other instructions before FROM.",
 [DP],[("get_global_arg",DP)],["get_global_arg return value"])
p("C08","Splicing disjoint spans in any order equals replacing them simultaneously",
 "Given a document and any sequence of replacements of pairwise disjoint, non-empty spans of that document, each given in original coordinates and applied in any order, the splicer's content afterwards is the original document with every one of those spans replaced by its replacement text and every other byte unchanged. A span may also enclose, or be the same as, spans replaced before it: its replacement then takes the place of everything that stands there. Replacements may be longer, shorter or empty, and no such sequence panics.",
 "for every document and every finite sequence of disjoint replacements","Tests splice two or three spans of fixed documents; correctness depends on the history of length changes and the relative order of all earlier splices.",
 ["src/splicer.rs"],[("offset adjustment","src/splicer.rs Span::adjust_offsets"),("buffer rebuild","src/splicer.rs Splicer::splice")],["Splicer.content"],over=("inputs","histories"),state=[("splice_offsets","adjusted position and length change of each earlier splice","src/splicer.rs Splicer")])
p("C09","Relative spans give the right zero-based line and column",
 "For every span lying within a Dockerfile's text, the relative position reports as line the number of line feeds before the span's start, as start the number of bytes from the beginning of that line to the span's start, and keeps the span's length.",
 "for every document and span","Tests check one span; the result depends on all preceding line breaks, multi-byte text and boundary positions.",
 ["src/splicer.rs"],[("relative_span","src/splicer.rs")],["relative_span return value"])
p("C10","Image references follow the splitting rules and print back losslessly",
 "For every string, parsing it as an image reference and printing the result yields the same string. The part before the first slash is the registry exactly when it is `localhost` or contains a dot or colon; in the remainder, text after the first `@` is the digest (and there is no tag), otherwise text after the first colon is the tag; everything else is the image name.",
 "for every string","Tests parse about ten references; the decomposition depends on the relative positions of slash, at sign and colon in arbitrary text.",
 ["src/image.rs"],[("ImageRef::parse","src/image.rs"),("Display for ImageRef","src/image.rs"),("is_registry","src/image.rs")],["ImageRef fields and Display"])
p("C11","Variable substitution is exact, recursive and depth-limited",
 "Substituting variables in a string replaces every `$name` and `${name}` reference (names are maximal runs of ASCII letters, digits and underscores) by the variable's recursively substituted value and leaves all other text unchanged. It yields nothing exactly when some reachable reference names an unknown variable or nesting exceeds the given depth (depth 0 allows no reference at all). On success, exactly the variables referenced directly or indirectly are added to the used set.",
 "for every string, variable map and depth","Tests try a few templates; the result depends on recursion, replacement lengths and the number and placement of references.",
 ["src/image.rs","src/splicer.rs"],[("substitute","src/image.rs"),("reference pattern","src/image.rs VAR"),("splicing of replacements","src/splicer.rs")],["substitute return value and used_vars"])
p("C12","Resolving an image uses exactly the global ARG defaults, last one winning",
 "Resolving an image reference against a Dockerfile substitutes variables in the printed reference using only the values of global arguments that have a value, the last one winning for a repeated name, with nesting depth 16, and parses the resulting string. It yields nothing when substitution does, and the variables reported with the context form are exactly those used; the plain form returns the same image.",
 "for every image reference and Dockerfile","Tests resolve a few documents; overriding, unset arguments and stage-local arguments interact.",
 ["src/image.rs",DP],[("resolve_vars_with_context","src/image.rs"),("global_args collection",DP)],["resolve_vars, resolve_vars_with_context return values"])
p("C13","Stages partition the instructions from the first FROM onward",
 "The stages of a Dockerfile correspond one to one, in order, to its FROM instructions and are indexed from 0. Each stage's instruction list starts with its FROM and contains, in order, every following instruction up to but excluding the next FROM; instructions before the first FROM are in no stage. A stage's name is its FROM alias in ASCII lower case, or none.",
 "for every Dockerfile value","Stage equality in the tests compares indices only, and they use two- or three-stage documents.",
 ["src/stage.rs"],[("Stages::new","src/stage.rs")],["Stages.stages; iter_stages"])
p("C14","Stage parents and roots resolve through earlier stage names only",
 "A stage whose FROM image text is `scratch` in any letter case has the empty parent. Otherwise, if its image text equals, ignoring ASCII case, the name of an earlier stage, its parent is the first such stage; otherwise its parent is its own parsed image. Its root is the root of its parent stage when it has one and equals its parent otherwise, so a root is never a stage.",
 "for every Dockerfile value","Depends on chains of aliases of any length, duplicate and shadowing names; tests compare only indices.",
 ["src/stage.rs"],[("Stages::new parent/root","src/stage.rs"),("get_by_name","src/stage.rs")],["Stage.parent, Stage.root"])
p("C15","Stage lookup by index, name and argument position is exact",
 "Looking up a stage by name returns the first stage whose name equals the given name ignoring ASCII case, or nothing. Looking up by text returns the stage at that position when the text is an unsigned integer (nothing when out of range) and otherwise looks up by name. The position of an argument in a stage is that of the first ARG instruction in its list with exactly that name, or nothing.",
 "for every Dockerfile value and lookup text","Tests look up a few names in one document.",
 ["src/stage.rs"],[("get_by_name","src/stage.rs"),("get","src/stage.rs"),("arg_index","src/stage.rs")],["get, get_by_name, arg_index return values"])
p("C16","A FROM digest is accepted exactly when it is sha256 with 64 hex digits",
 "A FROM instruction whose image contains a digest parses only if the digest is `sha256:` followed by exactly 64 hexadecimal digits of either case, and such a digest never makes the parse fail. The instruction's parsed image is always the decomposition of its image text.",
 "for every FROM image text","Tests try one valid and two invalid digests.",
 [I+"from.rs","src/image.rs"],[("digest validation",I+"from.rs from_record")],["Dockerfile::parse result; FromInstruction.image_parsed"])
p("C17","Shell-form text is the source minus continuations and comment lines",
 "For every shell-form value in a successful parse (RUN, CMD, ENTRYPOINT, unquoted single ENV, miscellaneous arguments), its pieces are, in source order, every comment and every text fragment of its span, and what lies between pieces is only line continuations, line breaks that end comments, and blanks before comments. Printing the value yields the text fragments joined with nothing between, comments left out.",
 "for every input string that parses","Depends on every mix of continuations, trailing blanks, CRLF, comments and content; tests cover a few blocks.",
 [U,G],[("parse_any_breakable",U),("Display for BreakableString",U),("any_breakable",G)],["BreakableString.components, Display"])
p("C18","Exec-form arrays list exactly the bracketed quoted strings in order",
 "For every exec-form value in a successful parse, its span covers text from `[` to `]`, and its elements are, in order, exactly the quoted strings between the brackets, each unescaped; only commas, blanks, continuations and comments lie between them. A RUN, CMD or ENTRYPOINT whose arguments are a well-formed bracketed list of quoted strings is reported in exec form with those elements, and one whose arguments do not start with `[` is reported in shell form.",
 "for every input string that parses","Depends on element count, quoting, escapes, blanks, continuations and comments inside the brackets; tests cover a few arrays.",
 [U,G,I+"run.rs",I+"cmd.rs",I+"entrypoint.rs"],[("parse_string_array",U),("string_array",G),("exec/shell dispatch",I+"run.rs, cmd.rs, entrypoint.rs")],["ShellOrExecExpr; StringArray::as_str_vec"])
p("C19","FROM and COPY report their flags, image, alias, sources and destination in order",
 "For every FROM or COPY in a successful parse, splitting its text at whitespace, with continuations and the comment lines after them counting as whitespace, gives: the keyword; one `--name=value` word per reported flag, in order; then for FROM the image and, when an alias is reported, `as` in any case and the alias; for COPY the sources in order followed by the destination, at least two words in all. Nothing is dropped, duplicated or reordered, and image, alias, flag and path texts are as written unless quoted.",
 "for every input string that parses","Depends on the number and arrangement of flags and paths and on continuations between them; tests cover a few.",
 [I+"from.rs",I+"copy.rs",G],[("from_record",I+"from.rs, copy.rs"),("rules from, copy",G)],["FromInstruction, CopyInstruction fields"])
p("C20","ARG, ENV and LABEL report every name and value pair in source order",
 "For every ARG, ENV or LABEL in a successful parse, the reported names and values are exactly the pairs written in its text, in source order, none dropped, duplicated, swapped or merged. An ARG has a value exactly when its name is followed by `=`; an ENV or LABEL in `key value` form reports exactly one pair, and in `key=value` form one pair per word, with quoted values unescaped.",
 "for every input string that parses","Depends on the number of pairs, quoting, blanks, continuations and comments; tests cover a few.",
 [I+"arg.rs",I+"env.rs",I+"label.rs",G],[("from_record",I+"arg.rs, env.rs, label.rs"),("rules arg, env, label",G)],["ArgInstruction, EnvInstruction, LabelInstruction fields"])
p("C21","Typed views of an instruction agree with its kind and lose nothing",
 "For every instruction, each of the borrowing and consuming conversions to a specific kind, and the standard fallible conversions, yields the contained value unchanged exactly when the instruction is of that kind, and nothing or a conversion error naming the target otherwise. Wrapping a specific instruction yields an instruction of that kind holding it unchanged, the generic span accessor returns the contained instruction's span, and shell/exec accessors return the contained form exactly when it is that form.",
 "for every instruction value","There are nine kinds times several conversions; tests exercise a few of the combinations.",
 [DP,U,I],[("as_*/into_*/span",DP),("TryFrom impls",I+"*.rs"),("shell/exec accessors",U+", run.rs, cmd.rs, entrypoint.rs")],["conversion results"])
p("C22","Breakable strings built in code hold and print exactly the pieces given",
 "A breakable string made by its constructor has the given span and no pieces. Each adding operation keeps the span and all earlier pieces and appends exactly one piece, a text or a comment as asked for, with the given span and text; converting a span and a text gives that span and that one text piece. Iterating yields the pieces in the order added, and printing yields the texts joined with nothing between, comments left out. An environment variable made by its constructor has the given span, name and value.",
 "for every sequence of additions","Tests build a few expected values this way and never check what is built.",
 [U,I+"env.rs"],[("BreakableString::new, add, add_string, add_comment, iter_components",U),("conversions into BreakableString and its pieces",U),("EnvVar::new",I+"env.rs")],["BreakableString fields, iter_components, Display; EnvVar fields"])
p("C23","Stages compare by position, and a stage's parent prints as what it is",
 "Comparing two stages for equality or order gives the result of comparing their indices and depends on nothing else, so that equality and order agree and the partial order is total. A stage parent prints as its image reference, as the decimal index of its stage, or as `scratch`.",
 "for every pair of stages and every parent","Tests compare stages of one document and never print a parent.",
 ["src/stage.rs"],[("Ord, PartialOrd, PartialEq for Stage","src/stage.rs"),("Display for StageParent","src/stage.rs")],["comparison operators on Stage; Display of StageParent"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
