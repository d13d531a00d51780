#!/usr/bin/env python3
"""contracts/props.json: per property the verification units, level and notes."""
import json
B = "bounded: the property's oracle is run on generated inputs against the real crate; no contract is discharged for it yet"
P = {}
for i in range(1, 24):
    P["C%02d" % i] = {"units": [], "level": "exploration", "technique": "bounded stand-in (concrete oracle), contracts in progress", "note": B, "bounded": "whole property"}
def proof(pid, units, note, proved, bounded="", theorems=(), **kw):
    P[pid] = dict({"units": units, "level": "proof", "technique": "contract-based deductive verification (Verus) of the extracted code", "note": note,
                   "proved": proved, "bounded": bounded, "theorems": list(theorems)}, **kw)
proof("C08", ["C08"], "Dockerfile::splicer, Splicer::from, splice, Span::new and Span::adjust_offsets are proved against contracts that carry the representation invariant (the content is the document with all edits done; each offset recorded at its original position with the length change it made), for any later span that avoids or encloses each earlier one; theorem c08_splice_nested composes them for every such sequence, c08_splice_all shows that for disjoint spans the result is the simultaneous replacement, c08_edited says what one edit does.",
      "content after any sequence of splices of non-empty spans, each disjoint from or enclosing every earlier one; for disjoint ones it equals the simultaneous replacement; no panic, no overflow", "nothing (the oracle only looks for failing inputs)", ["c08_splice_all", "c08_splice_nested", "c08_edited"])

ORC = "nothing (the oracle only looks for failing inputs behind failed or undecided obligations)"
proof("C07", ["C07"], "Dockerfile::get_global_arg is proved to return the first ARG of that name among global_args_of(instructions) (recursive spec: stops at the first FROM, skips other kinds); c07_first shows the spec means the first match. Assumes the iterator contracts of prelude.rs.",
      "result of get_global_arg for every instruction list and every name", ORC, ["c07_first"])
proof("C09", ["C09"], "Span::relative_span is proved to compute (number of LF bytes before start, start - start of line, length) with no overflow for every span inside the text. Assumes the prelude contracts for byte iteration.",
      "line, column and length for every text and every span lying within it", ORC, ["c09_line_start"])
proof("C10", ["C10"], "is_registry, ImageRef::parse and the Display impl are proved equal to the functions parse_spec / print_spec; c10_lossless and c10_parse_print show print(parse(s)) = s. Assumes the string contracts of prelude.rs.",
      "splitting rules and lossless printing for every string", ORC, ["c10_lossless", "c10_parse_print"])
proof("C11", ["C11"], "substitute is proved against the recursive specs subst / used over refs(s), where refs scans left to right; the regex literal in the source is translated mechanically (regex-syntax) and lemma_var_all shows its leftmost-first matches are exactly refs(s). Splicer contracts are used here and discharged under C08. Assumes the regex engine follows leftmost-first semantics, and the std contracts of prelude.rs / regex.rs.",
      "text, used variables, failure conditions and termination for every string, map and depth", ORC, [])
proof("C12", ["C12"], "resolve_vars_with_context and resolve_vars are proved to return parse_spec(subst(print_spec(self), gvars(global_args), 16)) and the used set; c12_last_wins shows gvars gives each name the value of its last ARG with a value. Contracts of substitute, ImageRef::parse and Display are used here and discharged under C11 and C10.",
      "for every image reference and Dockerfile value", ORC, ["c12_last_wins"])
proof("C13", ["C13"], "Stages::new is proved: stage k starts at the k-th FROM and holds the following instructions up to the next FROM, with index k and the lower-cased alias (loop invariant over the instruction list); c13_partition shows the stages cover everything from the first FROM on exactly once.",
      "for every Dockerfile value", ORC, ["c13_partition"])
proof("C14", ["C14"], "Stages::new is proved to set parents and roots by the recursive spec over earlier stages only; c14_parents restates it (scratch, first earlier stage of that name ignoring case, otherwise the parsed image; root never a stage).",
      "for every Dockerfile value", ORC, ["c14_parents"])
proof("C15", ["C15"], "Stages::get, Stages::get_by_name and Stage::arg_index are proved against first-match specs; c15_ignore_case and c15_names_lower connect them to case-insensitive equality of names.",
      "for every list of stages with lower-case names (established by Stages::new, proved under C13) and every text", ORC, ["c15_ignore_case", "c15_names_lower"])
proof("C21", ["C21"], "All 18 into_/as_ views, 9 From and 9 TryFrom conversions, Instruction::span and the 16 shell/exec accessors are proved against one contract each; c21_round_trip composes them. The `from` text of the conversion error (a Debug rendering) is unspecified.",
      "every conversion and accessor, for every instruction value", ORC, [])
PEST = "Assumes that pest's combinators (ParserState's sequence, repeat, optional, lookahead, rule, atomic; the character matching below them is proved in unit POS of C01) do what contracts/peg.rs says of them (the grammar is read from the .pest file on every run; that the code pest's derive writes for it calls them as the rules say is proved in unit GEN of C01), the contracts of pair.rs for Pair, and the std contracts of prelude.rs."
proof("C01", ["C01", "C01I", "ENQ", "GEN", "POS"], "Every function from Dockerfile::parse / from_str down to the per-instruction from_record functions is proved free of panics (unwraps, indexing, overflow) and to return only a syntax error, an unescape error (and then the text has, at some place, a quoted string in the sense of the grammar whose unquoting fails: has_bad_str in rel.rs) or the image digest error. That tokens the syntax allows never meet an `unexpected token` or a missing component is proved from automata that over-approximate the children of every grammar rule (dfa.rs, checked by evaluation on the grammar). c01_accepts: a text that follows the reference syntax (ref_syntax.rs, which the grammar's rules are proved to equal) gets no syntax error. c01_decided: matching ends for every text, accepting or refusing it, because rules refer to each other at most DEPTH deep (no recursion) and every repetition reads something (term.rs, evaluated on the grammar); so pest's calls nest at most a constant number deep, whatever the text. c01_generated: the functions that pest's derive generates for the rules, read back as expressions (gengram), match every text with the same result as the rules themselves (gen.rs: one obligation per rule, after a normal form proved to keep the meaning). The characters themselves are matched by pest's Position (unit POS: at_start, at_end, skip, match_range, match_string, match_insensitive, from the source of the pest that cargo resolves, are proved free of panics and equal to the corresponding expressions; lemma_lit, lemma_ilit). The size of pest's frames and memory are not covered; the oracle exercises long inputs. " + PEST,
      "no panic in the crate's own code, only the three error kinds and no syntax error for a text that follows the reference syntax, for every text", "size of the stack frames inside pest (oracle: long inputs)", ["c01_accepts", "c01_decided", "c01_generated"])
proof("C02", ["C02"], "Every parsing function is proved to report spans that are byte ranges on character boundaries, inside the pair it was given, with parts nested and in order (trait W in rel.rs); parse_dockerfile collects them and c02_spans states the result for the whole document. " + PEST,
      "for every text and every span of a successful parse", ORC, ["c02_spans"])
proof("C03", ["C03", "ENQ"], "Every parsing function is proved to report strings equal to the source at their span, or to its unquoting, as c3 in rel.rs says per kind of instruction; c03_texts states it for the whole document. The contract of enquote::unquote (unq.rs) is proved of the source of the version cargo resolves (unit ENQ), given number parsing and chars of std. " + PEST,
      "for every text and every string with a span", ORC, ["c03_texts", "c03_plain_quotes", "c03_escape"])
proof("C06", ["C06A", "C06B"], "parse_dockerfile is proved to keep the text, number FROMs and collect the global arguments (C06A, for every result of the per-instruction functions); Dockerfile::parse, from_str and from_reader are proved to deliver parse_dockerfile's result for the text they are given, from_reader a read error when reading fails (C06B). Assumes that BufReader / read_to_string deliver the reader's bytes whatever the chunking, or an error.",
      "for every text and every reader", "nothing (the oracle varies chunking against the real std readers)", [])
AUTO = "The automata (contracts/automata.py) are contracts on the grammar's rules; that every match of a rule is accepted is proved (dfa.rs, evaluated on the grammar; outline.rs for comments). "
proof("C04", ["C04"], "parse_dockerfile and Instruction::try_from are proved to report one instruction per instruction pair of the document, with its span (kind.rs); the text between the pairs of `dockerfile` is proved to be accepted by an automaton, and c04_nothing_lost restates it on the reported spans: reading the source outside them, a line holds only blanks, or an instruction and blanks, or a whole comment. " + AUTO + PEST,
      "for every text and every successful parse", ORC, ["c04_nothing_lost"])
proof("C05", ["C05"], "parse_dockerfile, Instruction::try_from, the From conversions and MiscInstruction::from_record are proved to report the kind of the pair's rule, and for miscellaneous ones the name and the arguments at their pairs; c05_kinds: a supported kind's text starts with its keyword in any case, then a blank or a continuation; a miscellaneous text is its name, then its arguments, and none of the rules of the supported instructions matches there (guard.rs: ordered choice, evaluated on the grammar), nor does its reference syntax (ref_syntax.rs). " + AUTO + PEST,
      "for every text and every successful parse; `well-formed arguments` means that the keyword's rule in the reference syntax matches at that place (acceptance of the whole text: c01_accepts)", ORC, ["c05_kinds"])
proof("C16", ["C16"], "FromInstruction::from_record, FromFlag::from_record, ImageRef::parse, parse_string and the parsing functions above them are proved against digest_ok: an accepted FROM has image_parsed = parse_spec(image text) with no digest or one of the right form, and an error is one of syntax, of quoting, or a document that has a digest of another form (doc_digests). The HEX pattern is translated from the source's regex literal; lemma_hex shows what it matches. That the from_record functions of the other instructions fail only on quoting is used here and discharged under C01. " + PEST,
      "for every text: accepted digests, refused digests, and image_parsed", ORC, [])
proof("C17", ["C17"], "parse_any_breakable(_inner) and the from_record functions above them are proved to report one component per piece of the source, in order, with its span and text. c17_shell reads them off the source: between the pieces there are only continuations, the line breaks that end comments and blanks before comments (automaton o_brk); the pieces cover the whole value; a comment piece runs from '#' to its line's end; a text piece has no line break and is not a comment (blanks then '#'; guard.rs: where text begins, comment_line does not match). BreakableString::fmt (Display) is proved to print the text pieces joined. " + AUTO + PEST,
      "for every text and every shell value of a successful parse", ORC, ["c17_shell"])
proof("C18", ["C18", "ENQ"], "parse_string_array, parse_string and RUN, CMD and ENTRYPOINT's from_record are proved to report the exec form's span and one element per quoted string, unescaped, in order. c18_exec reads them off the source: the span runs from `[` to `]`, only commas, blanks, continuations and comment lines lie between the strings (automaton o_array), each string is quoted in the sense of qstr.rs; a shell form stands only where the exec rule does not match (guard.rs). StringArray::as_str_vec is proved to list the elements. `well-formed` means that the grammar's exec rule matches at that place. " + AUTO + PEST,
      "for every text and every RUN, CMD or ENTRYPOINT of a successful parse", ORC, ["c18_exec"])
proof("C19", ["C19"], "FromInstruction::from_record, CopyInstruction::from_record and the flag records are proved to report one flag per flag pair, the image, alias, sources and destination of their pairs, in order. c19_from_copy reads them off the source: the keyword, `--name=value` words, the image, `as` and the alias, or the sources and the destination, and only whitespace (blanks, continuations, comment lines after them) between them (automata o_from, o_copy, o_*_flag); the words hold no blank and no line end. " + AUTO + PEST,
      "for every text and every FROM or COPY of a successful parse", ORC, ["c19_from_copy"])
proof("C20", ["C20", "ENQ"], "The from_record functions of ARG, ENV and LABEL, parse_env_pair, from_single_record, from_pairs_record and Label::from_record are proved to report one name and value per pair, in order, unescaped as the rule says. c20_pairs reads them off the source: only whitespace between the pairs, `=` or whitespace between a name and its value, words without blanks, names without `=`, quoted strings in the sense of qstr.rs. The pieces of an unquoted `ENV key text` value are C17's. " + AUTO + PEST,
      "for every text and every ARG, ENV or LABEL of a successful parse", ORC, ["c20_pairs"])
proof("C22", ["C22"], "BreakableString::new, add, add_string, add_comment, iter_components, the conversions into BreakableString and its pieces, EnvVar::new and Display of BreakableString are proved against one contract each (for every implementation of the generic conversions); c22_prints shows how printing grows with each piece, c22_build composes the calls.",
      "every sequence of constructor and adding calls", ORC, ["c22_prints", "c22_empty", "c22_build"])
proof("C23", ["C23"], "Ord, PartialOrd and PartialEq of Stage and Display of StageParent are proved against ord_of on the indices and the texts of ImageRef, the index and `scratch`; c23_agree composes the three comparisons. The standard library's provided methods (`<`, max, ..) are derived from them and are not verified here.",
      "every pair of stages, every parent", ORC, ["c23_agree", "c23_order"])
json.dump(P, open("/verif/contracts/props.json", "w"), indent=1, sort_keys=True)
