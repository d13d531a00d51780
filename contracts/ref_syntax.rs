// The reference syntax: dockerfile_parser.pest as it stood when the contracts were
// written, term by term.  Written by tools/gen_ref.py and reviewed; no check rewrites it.
// The proofs compare the rules read from /repo on this run with it.
pub open spec fn r_dockerfile() -> E { E::Cat(Box::new(E::Soi), Box::new(E::Cat(Box::new(E::Ref(Rule::meta_step)), Box::new(E::Cat(Box::new(E::Star(Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13)))), Box::new(E::Ref(Rule::meta_step)))))), Box::new(E::Ref(Rule::EOI))))))) }
pub open spec fn r_meta_step() -> E { E::Cat(Box::new(E::Star(Box::new(E::Ref(Rule::ws)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Ref(Rule::step)), Box::new(E::Ref(Rule::comment)))), Box::new(E::Nop))), Box::new(E::Star(Box::new(E::Ref(Rule::ws))))))) }
pub open spec fn r_step() -> E { E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Ref(Rule::from)), Box::new(E::Ref(Rule::run)))), Box::new(E::Ref(Rule::arg)))), Box::new(E::Ref(Rule::label)))), Box::new(E::Ref(Rule::copy)))), Box::new(E::Ref(Rule::entrypoint)))), Box::new(E::Ref(Rule::cmd)))), Box::new(E::Ref(Rule::env)))), Box::new(E::Ref(Rule::misc))) }
pub open spec fn r_ws() -> E { E::Alt(Box::new(E::R(32, 32)), Box::new(E::R(9, 9))) }
pub open spec fn r_comment() -> E { E::Cat(Box::new(E::R(35, 35)), Box::new(E::Star(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13)))))), Box::new(E::R(0, 1114111))))))) }
pub open spec fn r_comment_line() -> E { E::Cat(Box::new(E::Star(Box::new(E::Ref(Rule::ws)))), Box::new(E::Cat(Box::new(E::Ref(Rule::comment)), Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13)))), Box::new(E::Nop)))))) }
pub open spec fn r_empty_line() -> E { E::Cat(Box::new(E::Star(Box::new(E::Ref(Rule::ws)))), Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13))))) }
pub open spec fn r_double_quoted_string() -> E { E::Cat(Box::new(E::R(34, 34)), Box::new(E::Cat(Box::new(E::Ref(Rule::inner)), Box::new(E::R(34, 34))))) }
pub open spec fn r_inner() -> E { E::Star(Box::new(E::Alt(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(34, 34)), Box::new(E::R(92, 92)))), Box::new(E::R(0, 0)))), Box::new(E::R(31, 31)))))), Box::new(E::R(0, 1114111)))), Box::new(E::Ref(Rule::escape))))) }
pub open spec fn r_escape() -> E { E::Cat(Box::new(E::R(92, 92)), Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(98, 98)), Box::new(E::R(116, 116)))), Box::new(E::R(110, 110)))), Box::new(E::R(102, 102)))), Box::new(E::R(114, 114)))), Box::new(E::R(34, 34)))), Box::new(E::R(92, 92)))), Box::new(E::R(39, 39)))), Box::new(E::Ref(Rule::unicode)))), Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13)))))), Box::new(E::Nop)))) }
pub open spec fn r_unicode() -> E { E::Alt(Box::new(E::Cat(Box::new(E::R(117, 117)), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70)))), Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70)))))))))))), Box::new(E::Cat(Box::new(E::R(85, 85)), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70)))), Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(48, 57)), Box::new(E::R(97, 102)))), Box::new(E::R(65, 70))))))))))))))))))))) }
pub open spec fn r_single_quoted_string() -> E { E::Cat(Box::new(E::R(39, 39)), Box::new(E::Cat(Box::new(E::Ref(Rule::single_quoted_inner)), Box::new(E::R(39, 39))))) }
pub open spec fn r_single_quoted_inner() -> E { E::Star(Box::new(E::Alt(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(39, 39)), Box::new(E::R(92, 92)))), Box::new(E::R(0, 0)))), Box::new(E::R(31, 31)))))), Box::new(E::R(0, 1114111)))), Box::new(E::Ref(Rule::escape))))) }
pub open spec fn r_string() -> E { E::Alt(Box::new(E::Ref(Rule::single_quoted_string)), Box::new(E::Ref(Rule::double_quoted_string))) }
pub open spec fn r_line_continuation() -> E { E::Cat(Box::new(E::R(92, 92)), Box::new(E::Cat(Box::new(E::Star(Box::new(E::Ref(Rule::ws)))), Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13))))))) }
pub open spec fn r_arg_ws() -> E { E::Cat(Box::new(E::Alt(Box::new(E::Ref(Rule::ws)), Box::new(E::Cat(Box::new(E::Ref(Rule::line_continuation)), Box::new(E::Star(Box::new(E::Alt(Box::new(E::Ref(Rule::comment_line)), Box::new(E::Ref(Rule::empty_line)))))))))), Box::new(E::Star(Box::new(E::Alt(Box::new(E::Ref(Rule::ws)), Box::new(E::Cat(Box::new(E::Ref(Rule::line_continuation)), Box::new(E::Star(Box::new(E::Alt(Box::new(E::Ref(Rule::comment_line)), Box::new(E::Ref(Rule::empty_line))))))))))))) }
pub open spec fn r_arg_ws_maybe() -> E { E::Star(Box::new(E::Alt(Box::new(E::Ref(Rule::ws)), Box::new(E::Cat(Box::new(E::Ref(Rule::line_continuation)), Box::new(E::Star(Box::new(E::Alt(Box::new(E::Ref(Rule::comment_line)), Box::new(E::Ref(Rule::empty_line))))))))))) }
pub open spec fn r_any_content() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13)))))), Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Ref(Rule::line_continuation)))), Box::new(E::R(0, 1114111)))))), Box::new(E::Star(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13)))))), Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Ref(Rule::line_continuation)))), Box::new(E::R(0, 1114111))))))))) }
pub open spec fn r_any_breakable() -> E { E::Alt(Box::new(E::Cat(Box::new(E::Star(Box::new(E::Ref(Rule::comment_line)))), Box::new(E::Cat(Box::new(E::Ref(Rule::any_content)), Box::new(E::Cat(Box::new(E::Star(Box::new(E::Cat(Box::new(E::Ref(Rule::line_continuation)), Box::new(E::Cat(Box::new(E::Star(Box::new(E::Ref(Rule::comment_line)))), Box::new(E::Ref(Rule::any_content)))))))), Box::new(E::Alt(Box::new(E::Cat(Box::new(E::Ref(Rule::line_continuation)), Box::new(E::Cat(Box::new(E::Ref(Rule::comment_line)), Box::new(E::Star(Box::new(E::Ref(Rule::comment_line)))))))), Box::new(E::Nop))))))))), Box::new(E::Cat(Box::new(E::Ref(Rule::comment_line)), Box::new(E::Star(Box::new(E::Ref(Rule::comment_line))))))) }
pub open spec fn r_any_eol() -> E { E::Star(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13)))))), Box::new(E::R(0, 1114111))))) }
pub open spec fn r_any_whitespace() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13)))), Box::new(E::Ref(Rule::EOI)))), Box::new(E::Ref(Rule::arg_ws)))))), Box::new(E::R(0, 1114111)))), Box::new(E::Star(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13)))), Box::new(E::Ref(Rule::EOI)))), Box::new(E::Ref(Rule::arg_ws)))))), Box::new(E::R(0, 1114111))))))) }
pub open spec fn r_identifier_whitespace() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Ref(Rule::ws)))), Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122)))), Box::new(E::R(48, 57)))), Box::new(E::R(95, 95)))), Box::new(E::R(45, 45)))))), Box::new(E::Star(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Ref(Rule::ws)))), Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122)))), Box::new(E::R(48, 57)))), Box::new(E::R(95, 95)))), Box::new(E::R(45, 45))))))))) }
pub open spec fn r_any_equals() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13)))), Box::new(E::Ref(Rule::ws)))), Box::new(E::R(61, 61)))))), Box::new(E::R(0, 1114111)))), Box::new(E::Star(Box::new(E::Cat(Box::new(E::Neg(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(10, 10)), Box::new(E::Cat(Box::new(E::R(13, 13)), Box::new(E::R(10, 10)))))), Box::new(E::R(13, 13)))), Box::new(E::Ref(Rule::ws)))), Box::new(E::R(61, 61)))))), Box::new(E::R(0, 1114111))))))) }
pub open spec fn r_string_array() -> E { E::Alt(Box::new(E::Cat(Box::new(E::R(91, 91)), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws_maybe)), Box::new(E::Cat(Box::new(E::Ref(Rule::string)), Box::new(E::Cat(Box::new(E::Star(Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws_maybe)), Box::new(E::Cat(Box::new(E::R(44, 44)), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws_maybe)), Box::new(E::Ref(Rule::string)))))))))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(44, 44)), Box::new(E::Nop))), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws_maybe)), Box::new(E::R(93, 93)))))))))))))), Box::new(E::Cat(Box::new(E::R(91, 91)), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws_maybe)), Box::new(E::R(93, 93))))))) }
pub open spec fn r_from_flag_name() -> E { E::Cat(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122)))), Box::new(E::Star(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122))))))) }
pub open spec fn r_from_flag_value() -> E { E::Ref(Rule::any_whitespace) }
pub open spec fn r_from_flag() -> E { E::Cat(Box::new(E::Cat(Box::new(E::R(45, 45)), Box::new(E::R(45, 45)))), Box::new(E::Cat(Box::new(E::Ref(Rule::from_flag_name)), Box::new(E::Cat(Box::new(E::R(61, 61)), Box::new(E::Ref(Rule::from_flag_value))))))) }
pub open spec fn r_from_image() -> E { E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122)))), Box::new(E::R(48, 57)))), Box::new(E::R(95, 95)))), Box::new(E::R(45, 45)))), Box::new(E::R(46, 46)))), Box::new(E::R(58, 58)))), Box::new(E::R(47, 47)))), Box::new(E::R(36, 36)))), Box::new(E::R(123, 123)))), Box::new(E::R(125, 125)))), Box::new(E::R(64, 64)))), Box::new(E::Star(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122)))), Box::new(E::R(48, 57)))), Box::new(E::R(95, 95)))), Box::new(E::R(45, 45)))), Box::new(E::R(46, 46)))), Box::new(E::R(58, 58)))), Box::new(E::R(47, 47)))), Box::new(E::R(36, 36)))), Box::new(E::R(123, 123)))), Box::new(E::R(125, 125)))), Box::new(E::R(64, 64))))))) }
pub open spec fn r_from_alias() -> E { E::Ref(Rule::identifier_whitespace) }
pub open spec fn r_from_alias_outer() -> E { E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Cat(Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(97, 97)), Box::new(E::R(65, 65)))), Box::new(E::Alt(Box::new(E::R(115, 115)), Box::new(E::R(83, 83)))))), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Ref(Rule::from_alias))))))) }
pub open spec fn r_from() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(102, 102)), Box::new(E::R(70, 70)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(114, 114)), Box::new(E::R(82, 82)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(111, 111)), Box::new(E::R(79, 79)))), Box::new(E::Alt(Box::new(E::R(109, 109)), Box::new(E::R(77, 77)))))))))), Box::new(E::Cat(Box::new(E::Star(Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Ref(Rule::from_flag)))))), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Cat(Box::new(E::Ref(Rule::from_image)), Box::new(E::Alt(Box::new(E::Ref(Rule::from_alias_outer)), Box::new(E::Nop)))))))))) }
pub open spec fn r_arg_name() -> E { E::Cat(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122)))), Box::new(E::Star(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122)))), Box::new(E::R(48, 57)))), Box::new(E::R(95, 95))))))) }
pub open spec fn r_arg_value() -> E { E::Ref(Rule::any_whitespace) }
pub open spec fn r_arg_quoted_value() -> E { E::Ref(Rule::string) }
pub open spec fn r_arg() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(97, 97)), Box::new(E::R(65, 65)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(114, 114)), Box::new(E::R(82, 82)))), Box::new(E::Alt(Box::new(E::R(103, 103)), Box::new(E::R(71, 71)))))))), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_name)), Box::new(E::Alt(Box::new(E::Cat(Box::new(E::R(61, 61)), Box::new(E::Alt(Box::new(E::Ref(Rule::arg_quoted_value)), Box::new(E::Ref(Rule::arg_value)))))), Box::new(E::Nop)))))))) }
pub open spec fn r_label_name() -> E { E::Ref(Rule::any_equals) }
pub open spec fn r_label_quoted_name() -> E { E::Ref(Rule::string) }
pub open spec fn r_label_value() -> E { E::Ref(Rule::any_whitespace) }
pub open spec fn r_label_quoted_value() -> E { E::Ref(Rule::string) }
pub open spec fn r_label_pair() -> E { E::Cat(Box::new(E::Alt(Box::new(E::Ref(Rule::label_quoted_name)), Box::new(E::Ref(Rule::label_name)))), Box::new(E::Cat(Box::new(E::R(61, 61)), Box::new(E::Alt(Box::new(E::Ref(Rule::label_quoted_value)), Box::new(E::Ref(Rule::label_value))))))) }
pub open spec fn r_label_single_name() -> E { E::Ref(Rule::any_equals) }
pub open spec fn r_label_single_quoted_name() -> E { E::Ref(Rule::string) }
pub open spec fn r_label_single() -> E { E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::Ref(Rule::label_single_quoted_name)), Box::new(E::Ref(Rule::label_single_name)))), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Alt(Box::new(E::Ref(Rule::label_quoted_value)), Box::new(E::Ref(Rule::label_value))))))))) }
pub open spec fn r_label() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(108, 108)), Box::new(E::R(76, 76)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(97, 97)), Box::new(E::R(65, 65)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(98, 98)), Box::new(E::R(66, 66)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(101, 101)), Box::new(E::R(69, 69)))), Box::new(E::Alt(Box::new(E::R(108, 108)), Box::new(E::R(76, 76)))))))))))), Box::new(E::Alt(Box::new(E::Ref(Rule::label_single)), Box::new(E::Cat(Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Alt(Box::new(E::Ref(Rule::label_pair)), Box::new(E::Nop))))), Box::new(E::Star(Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Alt(Box::new(E::Ref(Rule::label_pair)), Box::new(E::Nop)))))))))))) }
pub open spec fn r_run_shell() -> E { E::Ref(Rule::any_breakable) }
pub open spec fn r_run_exec() -> E { E::Ref(Rule::string_array) }
pub open spec fn r_run() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(114, 114)), Box::new(E::R(82, 82)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(117, 117)), Box::new(E::R(85, 85)))), Box::new(E::Alt(Box::new(E::R(110, 110)), Box::new(E::R(78, 78)))))))), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Alt(Box::new(E::Ref(Rule::run_exec)), Box::new(E::Ref(Rule::run_shell))))))) }
pub open spec fn r_entrypoint_shell() -> E { E::Ref(Rule::any_breakable) }
pub open spec fn r_entrypoint_exec() -> E { E::Ref(Rule::string_array) }
pub open spec fn r_entrypoint() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(101, 101)), Box::new(E::R(69, 69)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(110, 110)), Box::new(E::R(78, 78)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(116, 116)), Box::new(E::R(84, 84)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(114, 114)), Box::new(E::R(82, 82)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(121, 121)), Box::new(E::R(89, 89)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(112, 112)), Box::new(E::R(80, 80)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(111, 111)), Box::new(E::R(79, 79)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(105, 105)), Box::new(E::R(73, 73)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(110, 110)), Box::new(E::R(78, 78)))), Box::new(E::Alt(Box::new(E::R(116, 116)), Box::new(E::R(84, 84)))))))))))))))))))))), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Alt(Box::new(E::Ref(Rule::entrypoint_exec)), Box::new(E::Ref(Rule::entrypoint_shell))))))) }
pub open spec fn r_cmd_shell() -> E { E::Ref(Rule::any_breakable) }
pub open spec fn r_cmd_exec() -> E { E::Ref(Rule::string_array) }
pub open spec fn r_cmd() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(99, 99)), Box::new(E::R(67, 67)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(109, 109)), Box::new(E::R(77, 77)))), Box::new(E::Alt(Box::new(E::R(100, 100)), Box::new(E::R(68, 68)))))))), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Alt(Box::new(E::Ref(Rule::cmd_exec)), Box::new(E::Ref(Rule::cmd_shell))))))) }
pub open spec fn r_copy_flag_name() -> E { E::Cat(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122)))), Box::new(E::Star(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122))))))) }
pub open spec fn r_copy_flag_value() -> E { E::Ref(Rule::any_whitespace) }
pub open spec fn r_copy_flag() -> E { E::Cat(Box::new(E::Cat(Box::new(E::R(45, 45)), Box::new(E::R(45, 45)))), Box::new(E::Cat(Box::new(E::Ref(Rule::copy_flag_name)), Box::new(E::Cat(Box::new(E::R(61, 61)), Box::new(E::Ref(Rule::copy_flag_value))))))) }
pub open spec fn r_copy_pathspec() -> E { E::Ref(Rule::any_whitespace) }
pub open spec fn r_copy() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(99, 99)), Box::new(E::R(67, 67)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(111, 111)), Box::new(E::R(79, 79)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(112, 112)), Box::new(E::R(80, 80)))), Box::new(E::Alt(Box::new(E::R(121, 121)), Box::new(E::R(89, 89)))))))))), Box::new(E::Cat(Box::new(E::Star(Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Ref(Rule::copy_flag)))))), Box::new(E::Cat(Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Ref(Rule::copy_pathspec)))), Box::new(E::Cat(Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Ref(Rule::copy_pathspec)))), Box::new(E::Star(Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Ref(Rule::copy_pathspec))))))))))))) }
pub open spec fn r_env_name() -> E { E::Cat(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122)))), Box::new(E::R(48, 57)))), Box::new(E::R(95, 95)))), Box::new(E::Star(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122)))), Box::new(E::R(48, 57)))), Box::new(E::R(95, 95))))))) }
pub open spec fn r_env_pair_value() -> E { E::Ref(Rule::any_whitespace) }
pub open spec fn r_env_pair_quoted_value() -> E { E::Ref(Rule::string) }
pub open spec fn r_env_pair() -> E { E::Cat(Box::new(E::Ref(Rule::env_name)), Box::new(E::Cat(Box::new(E::R(61, 61)), Box::new(E::Alt(Box::new(E::Ref(Rule::env_pair_quoted_value)), Box::new(E::Ref(Rule::env_pair_value))))))) }
pub open spec fn r_env_pairs() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Alt(Box::new(E::Ref(Rule::env_pair)), Box::new(E::Nop))))), Box::new(E::Star(Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Alt(Box::new(E::Ref(Rule::env_pair)), Box::new(E::Nop)))))))) }
pub open spec fn r_env_single_quoted_value() -> E { E::Ref(Rule::string) }
pub open spec fn r_env_single_value() -> E { E::Ref(Rule::any_breakable) }
pub open spec fn r_env_single() -> E { E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Cat(Box::new(E::Ref(Rule::env_name)), Box::new(E::Cat(Box::new(E::Ref(Rule::arg_ws)), Box::new(E::Alt(Box::new(E::Ref(Rule::env_single_quoted_value)), Box::new(E::Ref(Rule::env_single_value))))))))) }
pub open spec fn r_env() -> E { E::Cat(Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(101, 101)), Box::new(E::R(69, 69)))), Box::new(E::Cat(Box::new(E::Alt(Box::new(E::R(110, 110)), Box::new(E::R(78, 78)))), Box::new(E::Alt(Box::new(E::R(118, 118)), Box::new(E::R(86, 86)))))))), Box::new(E::Alt(Box::new(E::Ref(Rule::env_single)), Box::new(E::Ref(Rule::env_pairs))))) }
pub open spec fn r_misc_instruction() -> E { E::Cat(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122)))), Box::new(E::Star(Box::new(E::Alt(Box::new(E::R(65, 90)), Box::new(E::R(97, 122))))))) }
pub open spec fn r_misc_arguments() -> E { E::Ref(Rule::any_breakable) }
pub open spec fn r_misc() -> E { E::Cat(Box::new(E::Ref(Rule::misc_instruction)), Box::new(E::Ref(Rule::misc_arguments))) }
pub open spec fn reference(r: Rule) -> Option<E> { match r { Rule::dockerfile => Some(r_dockerfile()), Rule::meta_step => Some(r_meta_step()), Rule::step => Some(r_step()), Rule::ws => Some(r_ws()), Rule::comment => Some(r_comment()), Rule::comment_line => Some(r_comment_line()), Rule::empty_line => Some(r_empty_line()), Rule::double_quoted_string => Some(r_double_quoted_string()), Rule::inner => Some(r_inner()), Rule::escape => Some(r_escape()), Rule::unicode => Some(r_unicode()), Rule::single_quoted_string => Some(r_single_quoted_string()), Rule::single_quoted_inner => Some(r_single_quoted_inner()), Rule::string => Some(r_string()), Rule::line_continuation => Some(r_line_continuation()), Rule::arg_ws => Some(r_arg_ws()), Rule::arg_ws_maybe => Some(r_arg_ws_maybe()), Rule::any_content => Some(r_any_content()), Rule::any_breakable => Some(r_any_breakable()), Rule::any_eol => Some(r_any_eol()), Rule::any_whitespace => Some(r_any_whitespace()), Rule::identifier_whitespace => Some(r_identifier_whitespace()), Rule::any_equals => Some(r_any_equals()), Rule::string_array => Some(r_string_array()), Rule::from_flag_name => Some(r_from_flag_name()), Rule::from_flag_value => Some(r_from_flag_value()), Rule::from_flag => Some(r_from_flag()), Rule::from_image => Some(r_from_image()), Rule::from_alias => Some(r_from_alias()), Rule::from_alias_outer => Some(r_from_alias_outer()), Rule::from => Some(r_from()), Rule::arg_name => Some(r_arg_name()), Rule::arg_value => Some(r_arg_value()), Rule::arg_quoted_value => Some(r_arg_quoted_value()), Rule::arg => Some(r_arg()), Rule::label_name => Some(r_label_name()), Rule::label_quoted_name => Some(r_label_quoted_name()), Rule::label_value => Some(r_label_value()), Rule::label_quoted_value => Some(r_label_quoted_value()), Rule::label_pair => Some(r_label_pair()), Rule::label_single_name => Some(r_label_single_name()), Rule::label_single_quoted_name => Some(r_label_single_quoted_name()), Rule::label_single => Some(r_label_single()), Rule::label => Some(r_label()), Rule::run_shell => Some(r_run_shell()), Rule::run_exec => Some(r_run_exec()), Rule::run => Some(r_run()), Rule::entrypoint_shell => Some(r_entrypoint_shell()), Rule::entrypoint_exec => Some(r_entrypoint_exec()), Rule::entrypoint => Some(r_entrypoint()), Rule::cmd_shell => Some(r_cmd_shell()), Rule::cmd_exec => Some(r_cmd_exec()), Rule::cmd => Some(r_cmd()), Rule::copy_flag_name => Some(r_copy_flag_name()), Rule::copy_flag_value => Some(r_copy_flag_value()), Rule::copy_flag => Some(r_copy_flag()), Rule::copy_pathspec => Some(r_copy_pathspec()), Rule::copy => Some(r_copy()), Rule::env_name => Some(r_env_name()), Rule::env_pair_value => Some(r_env_pair_value()), Rule::env_pair_quoted_value => Some(r_env_pair_quoted_value()), Rule::env_pair => Some(r_env_pair()), Rule::env_pairs => Some(r_env_pairs()), Rule::env_single_quoted_value => Some(r_env_single_quoted_value()), Rule::env_single_value => Some(r_env_single_value()), Rule::env_single => Some(r_env_single()), Rule::env => Some(r_env()), Rule::misc_instruction => Some(r_misc_instruction()), Rule::misc_arguments => Some(r_misc_arguments()), Rule::misc => Some(r_misc()), Rule::EOI => Some(E::Eoi), #[allow(unreachable_patterns)] _ => None } }
proof fn syntax_dockerfile() ensures body(Rule::dockerfile) == r_dockerfile() { assert(b_dockerfile() == r_dockerfile()) by(compute_only); }
proof fn syntax_meta_step() ensures body(Rule::meta_step) == r_meta_step() { assert(b_meta_step() == r_meta_step()) by(compute_only); }
proof fn syntax_step() ensures body(Rule::step) == r_step() { assert(b_step() == r_step()) by(compute_only); }
proof fn syntax_ws() ensures body(Rule::ws) == r_ws() { assert(b_ws() == r_ws()) by(compute_only); }
proof fn syntax_comment() ensures body(Rule::comment) == r_comment() { assert(b_comment() == r_comment()) by(compute_only); }
proof fn syntax_comment_line() ensures body(Rule::comment_line) == r_comment_line() { assert(b_comment_line() == r_comment_line()) by(compute_only); }
proof fn syntax_empty_line() ensures body(Rule::empty_line) == r_empty_line() { assert(b_empty_line() == r_empty_line()) by(compute_only); }
proof fn syntax_double_quoted_string() ensures body(Rule::double_quoted_string) == r_double_quoted_string() { assert(b_double_quoted_string() == r_double_quoted_string()) by(compute_only); }
proof fn syntax_inner() ensures body(Rule::inner) == r_inner() { assert(b_inner() == r_inner()) by(compute_only); }
proof fn syntax_escape() ensures body(Rule::escape) == r_escape() { assert(b_escape() == r_escape()) by(compute_only); }
proof fn syntax_unicode() ensures body(Rule::unicode) == r_unicode() { assert(b_unicode() == r_unicode()) by(compute_only); }
proof fn syntax_single_quoted_string() ensures body(Rule::single_quoted_string) == r_single_quoted_string() { assert(b_single_quoted_string() == r_single_quoted_string()) by(compute_only); }
proof fn syntax_single_quoted_inner() ensures body(Rule::single_quoted_inner) == r_single_quoted_inner() { assert(b_single_quoted_inner() == r_single_quoted_inner()) by(compute_only); }
proof fn syntax_string() ensures body(Rule::string) == r_string() { assert(b_string() == r_string()) by(compute_only); }
proof fn syntax_line_continuation() ensures body(Rule::line_continuation) == r_line_continuation() { assert(b_line_continuation() == r_line_continuation()) by(compute_only); }
proof fn syntax_arg_ws() ensures body(Rule::arg_ws) == r_arg_ws() { assert(b_arg_ws() == r_arg_ws()) by(compute_only); }
proof fn syntax_arg_ws_maybe() ensures body(Rule::arg_ws_maybe) == r_arg_ws_maybe() { assert(b_arg_ws_maybe() == r_arg_ws_maybe()) by(compute_only); }
proof fn syntax_any_content() ensures body(Rule::any_content) == r_any_content() { assert(b_any_content() == r_any_content()) by(compute_only); }
proof fn syntax_any_breakable() ensures body(Rule::any_breakable) == r_any_breakable() { assert(b_any_breakable() == r_any_breakable()) by(compute_only); }
proof fn syntax_any_eol() ensures body(Rule::any_eol) == r_any_eol() { assert(b_any_eol() == r_any_eol()) by(compute_only); }
proof fn syntax_any_whitespace() ensures body(Rule::any_whitespace) == r_any_whitespace() { assert(b_any_whitespace() == r_any_whitespace()) by(compute_only); }
proof fn syntax_identifier_whitespace() ensures body(Rule::identifier_whitespace) == r_identifier_whitespace() { assert(b_identifier_whitespace() == r_identifier_whitespace()) by(compute_only); }
proof fn syntax_any_equals() ensures body(Rule::any_equals) == r_any_equals() { assert(b_any_equals() == r_any_equals()) by(compute_only); }
proof fn syntax_string_array() ensures body(Rule::string_array) == r_string_array() { assert(b_string_array() == r_string_array()) by(compute_only); }
proof fn syntax_from_flag_name() ensures body(Rule::from_flag_name) == r_from_flag_name() { assert(b_from_flag_name() == r_from_flag_name()) by(compute_only); }
proof fn syntax_from_flag_value() ensures body(Rule::from_flag_value) == r_from_flag_value() { assert(b_from_flag_value() == r_from_flag_value()) by(compute_only); }
proof fn syntax_from_flag() ensures body(Rule::from_flag) == r_from_flag() { assert(b_from_flag() == r_from_flag()) by(compute_only); }
proof fn syntax_from_image() ensures body(Rule::from_image) == r_from_image() { assert(b_from_image() == r_from_image()) by(compute_only); }
proof fn syntax_from_alias() ensures body(Rule::from_alias) == r_from_alias() { assert(b_from_alias() == r_from_alias()) by(compute_only); }
proof fn syntax_from_alias_outer() ensures body(Rule::from_alias_outer) == r_from_alias_outer() { assert(b_from_alias_outer() == r_from_alias_outer()) by(compute_only); }
proof fn syntax_from() ensures body(Rule::from) == r_from() { assert(b_from() == r_from()) by(compute_only); }
proof fn syntax_arg_name() ensures body(Rule::arg_name) == r_arg_name() { assert(b_arg_name() == r_arg_name()) by(compute_only); }
proof fn syntax_arg_value() ensures body(Rule::arg_value) == r_arg_value() { assert(b_arg_value() == r_arg_value()) by(compute_only); }
proof fn syntax_arg_quoted_value() ensures body(Rule::arg_quoted_value) == r_arg_quoted_value() { assert(b_arg_quoted_value() == r_arg_quoted_value()) by(compute_only); }
proof fn syntax_arg() ensures body(Rule::arg) == r_arg() { assert(b_arg() == r_arg()) by(compute_only); }
proof fn syntax_label_name() ensures body(Rule::label_name) == r_label_name() { assert(b_label_name() == r_label_name()) by(compute_only); }
proof fn syntax_label_quoted_name() ensures body(Rule::label_quoted_name) == r_label_quoted_name() { assert(b_label_quoted_name() == r_label_quoted_name()) by(compute_only); }
proof fn syntax_label_value() ensures body(Rule::label_value) == r_label_value() { assert(b_label_value() == r_label_value()) by(compute_only); }
proof fn syntax_label_quoted_value() ensures body(Rule::label_quoted_value) == r_label_quoted_value() { assert(b_label_quoted_value() == r_label_quoted_value()) by(compute_only); }
proof fn syntax_label_pair() ensures body(Rule::label_pair) == r_label_pair() { assert(b_label_pair() == r_label_pair()) by(compute_only); }
proof fn syntax_label_single_name() ensures body(Rule::label_single_name) == r_label_single_name() { assert(b_label_single_name() == r_label_single_name()) by(compute_only); }
proof fn syntax_label_single_quoted_name() ensures body(Rule::label_single_quoted_name) == r_label_single_quoted_name() { assert(b_label_single_quoted_name() == r_label_single_quoted_name()) by(compute_only); }
proof fn syntax_label_single() ensures body(Rule::label_single) == r_label_single() { assert(b_label_single() == r_label_single()) by(compute_only); }
proof fn syntax_label() ensures body(Rule::label) == r_label() { assert(b_label() == r_label()) by(compute_only); }
proof fn syntax_run_shell() ensures body(Rule::run_shell) == r_run_shell() { assert(b_run_shell() == r_run_shell()) by(compute_only); }
proof fn syntax_run_exec() ensures body(Rule::run_exec) == r_run_exec() { assert(b_run_exec() == r_run_exec()) by(compute_only); }
proof fn syntax_run() ensures body(Rule::run) == r_run() { assert(b_run() == r_run()) by(compute_only); }
proof fn syntax_entrypoint_shell() ensures body(Rule::entrypoint_shell) == r_entrypoint_shell() { assert(b_entrypoint_shell() == r_entrypoint_shell()) by(compute_only); }
proof fn syntax_entrypoint_exec() ensures body(Rule::entrypoint_exec) == r_entrypoint_exec() { assert(b_entrypoint_exec() == r_entrypoint_exec()) by(compute_only); }
proof fn syntax_entrypoint() ensures body(Rule::entrypoint) == r_entrypoint() { assert(b_entrypoint() == r_entrypoint()) by(compute_only); }
proof fn syntax_cmd_shell() ensures body(Rule::cmd_shell) == r_cmd_shell() { assert(b_cmd_shell() == r_cmd_shell()) by(compute_only); }
proof fn syntax_cmd_exec() ensures body(Rule::cmd_exec) == r_cmd_exec() { assert(b_cmd_exec() == r_cmd_exec()) by(compute_only); }
proof fn syntax_cmd() ensures body(Rule::cmd) == r_cmd() { assert(b_cmd() == r_cmd()) by(compute_only); }
proof fn syntax_copy_flag_name() ensures body(Rule::copy_flag_name) == r_copy_flag_name() { assert(b_copy_flag_name() == r_copy_flag_name()) by(compute_only); }
proof fn syntax_copy_flag_value() ensures body(Rule::copy_flag_value) == r_copy_flag_value() { assert(b_copy_flag_value() == r_copy_flag_value()) by(compute_only); }
proof fn syntax_copy_flag() ensures body(Rule::copy_flag) == r_copy_flag() { assert(b_copy_flag() == r_copy_flag()) by(compute_only); }
proof fn syntax_copy_pathspec() ensures body(Rule::copy_pathspec) == r_copy_pathspec() { assert(b_copy_pathspec() == r_copy_pathspec()) by(compute_only); }
proof fn syntax_copy() ensures body(Rule::copy) == r_copy() { assert(b_copy() == r_copy()) by(compute_only); }
proof fn syntax_env_name() ensures body(Rule::env_name) == r_env_name() { assert(b_env_name() == r_env_name()) by(compute_only); }
proof fn syntax_env_pair_value() ensures body(Rule::env_pair_value) == r_env_pair_value() { assert(b_env_pair_value() == r_env_pair_value()) by(compute_only); }
proof fn syntax_env_pair_quoted_value() ensures body(Rule::env_pair_quoted_value) == r_env_pair_quoted_value() { assert(b_env_pair_quoted_value() == r_env_pair_quoted_value()) by(compute_only); }
proof fn syntax_env_pair() ensures body(Rule::env_pair) == r_env_pair() { assert(b_env_pair() == r_env_pair()) by(compute_only); }
proof fn syntax_env_pairs() ensures body(Rule::env_pairs) == r_env_pairs() { assert(b_env_pairs() == r_env_pairs()) by(compute_only); }
proof fn syntax_env_single_quoted_value() ensures body(Rule::env_single_quoted_value) == r_env_single_quoted_value() { assert(b_env_single_quoted_value() == r_env_single_quoted_value()) by(compute_only); }
proof fn syntax_env_single_value() ensures body(Rule::env_single_value) == r_env_single_value() { assert(b_env_single_value() == r_env_single_value()) by(compute_only); }
proof fn syntax_env_single() ensures body(Rule::env_single) == r_env_single() { assert(b_env_single() == r_env_single()) by(compute_only); }
proof fn syntax_env() ensures body(Rule::env) == r_env() { assert(b_env() == r_env()) by(compute_only); }
proof fn syntax_misc_instruction() ensures body(Rule::misc_instruction) == r_misc_instruction() { assert(b_misc_instruction() == r_misc_instruction()) by(compute_only); }
proof fn syntax_misc_arguments() ensures body(Rule::misc_arguments) == r_misc_arguments() { assert(b_misc_arguments() == r_misc_arguments()) by(compute_only); }
proof fn syntax_misc() ensures body(Rule::misc) == r_misc() { assert(b_misc() == r_misc()) by(compute_only); }
/// every rule is as in the reference
pub proof fn lemma_syntax(r: Rule)
    requires reference(r) is Some
    ensures reference(r) == Some(body(r))
{
    match r {
        Rule::dockerfile => { syntax_dockerfile(); }
        Rule::meta_step => { syntax_meta_step(); }
        Rule::step => { syntax_step(); }
        Rule::ws => { syntax_ws(); }
        Rule::comment => { syntax_comment(); }
        Rule::comment_line => { syntax_comment_line(); }
        Rule::empty_line => { syntax_empty_line(); }
        Rule::double_quoted_string => { syntax_double_quoted_string(); }
        Rule::inner => { syntax_inner(); }
        Rule::escape => { syntax_escape(); }
        Rule::unicode => { syntax_unicode(); }
        Rule::single_quoted_string => { syntax_single_quoted_string(); }
        Rule::single_quoted_inner => { syntax_single_quoted_inner(); }
        Rule::string => { syntax_string(); }
        Rule::line_continuation => { syntax_line_continuation(); }
        Rule::arg_ws => { syntax_arg_ws(); }
        Rule::arg_ws_maybe => { syntax_arg_ws_maybe(); }
        Rule::any_content => { syntax_any_content(); }
        Rule::any_breakable => { syntax_any_breakable(); }
        Rule::any_eol => { syntax_any_eol(); }
        Rule::any_whitespace => { syntax_any_whitespace(); }
        Rule::identifier_whitespace => { syntax_identifier_whitespace(); }
        Rule::any_equals => { syntax_any_equals(); }
        Rule::string_array => { syntax_string_array(); }
        Rule::from_flag_name => { syntax_from_flag_name(); }
        Rule::from_flag_value => { syntax_from_flag_value(); }
        Rule::from_flag => { syntax_from_flag(); }
        Rule::from_image => { syntax_from_image(); }
        Rule::from_alias => { syntax_from_alias(); }
        Rule::from_alias_outer => { syntax_from_alias_outer(); }
        Rule::from => { syntax_from(); }
        Rule::arg_name => { syntax_arg_name(); }
        Rule::arg_value => { syntax_arg_value(); }
        Rule::arg_quoted_value => { syntax_arg_quoted_value(); }
        Rule::arg => { syntax_arg(); }
        Rule::label_name => { syntax_label_name(); }
        Rule::label_quoted_name => { syntax_label_quoted_name(); }
        Rule::label_value => { syntax_label_value(); }
        Rule::label_quoted_value => { syntax_label_quoted_value(); }
        Rule::label_pair => { syntax_label_pair(); }
        Rule::label_single_name => { syntax_label_single_name(); }
        Rule::label_single_quoted_name => { syntax_label_single_quoted_name(); }
        Rule::label_single => { syntax_label_single(); }
        Rule::label => { syntax_label(); }
        Rule::run_shell => { syntax_run_shell(); }
        Rule::run_exec => { syntax_run_exec(); }
        Rule::run => { syntax_run(); }
        Rule::entrypoint_shell => { syntax_entrypoint_shell(); }
        Rule::entrypoint_exec => { syntax_entrypoint_exec(); }
        Rule::entrypoint => { syntax_entrypoint(); }
        Rule::cmd_shell => { syntax_cmd_shell(); }
        Rule::cmd_exec => { syntax_cmd_exec(); }
        Rule::cmd => { syntax_cmd(); }
        Rule::copy_flag_name => { syntax_copy_flag_name(); }
        Rule::copy_flag_value => { syntax_copy_flag_value(); }
        Rule::copy_flag => { syntax_copy_flag(); }
        Rule::copy_pathspec => { syntax_copy_pathspec(); }
        Rule::copy => { syntax_copy(); }
        Rule::env_name => { syntax_env_name(); }
        Rule::env_pair_value => { syntax_env_pair_value(); }
        Rule::env_pair_quoted_value => { syntax_env_pair_quoted_value(); }
        Rule::env_pair => { syntax_env_pair(); }
        Rule::env_pairs => { syntax_env_pairs(); }
        Rule::env_single_quoted_value => { syntax_env_single_quoted_value(); }
        Rule::env_single_value => { syntax_env_single_value(); }
        Rule::env_single => { syntax_env_single(); }
        Rule::env => { syntax_env(); }
        Rule::misc_instruction => { syntax_misc_instruction(); }
        Rule::misc_arguments => { syntax_misc_arguments(); }
        Rule::misc => { syntax_misc(); }
        _ => {}
    }
}
