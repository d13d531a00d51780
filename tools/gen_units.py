#!/usr/bin/env python3
"""contracts/units.json from contracts/units.in.json and the templates below
(the units that share the contracts of the parsing functions)."""
import json, os
ROOT = __file__.rsplit("/", 2)[0]
U = json.load(open(ROOT + "/contracts/units.in.json"))
FROM = ["Instruction::from@From<%sInstruction>" % x for x in "From Run Arg Label Copy Entrypoint Cmd Env Misc".split()]
CORE = ["Span::from@From<Pair>", "BreakableStringComponent::from@From<SpannedString>", "BreakableStringComponent::from@From<SpannedComment>"]
TOP = ["parse_dockerfile", "Instruction::try_from@TryFrom<Pair>", "Dockerfile::parse", "Dockerfile::from_str@FromStr"]
AUTO = "dockerfile from from_flag arg copy copy_flag label lpair env env_single env_pairs env_pair run cmd entrypoint array misc brk nonl encl".split()


def parse(name, mode, theorems=(), automata=(), **kw):
    U[name] = dict({"contracts": ["parse.vc"], "pre": ["regex.rs"], "lemmas": ["pair.rs", "rel.rs", mode, "rel2.rs", "rel3.rs"], "theorems": list(theorems),
                    "roots": CORE + FROM + TOP, "automata": AUTO + list(automata), "opaque": ["ImageRef::parse"], "implicit": False, "spinoff": True, "rlimit": 40, "panics": name == "C01"}, **kw)


parse("P1", "m_test.rs")
parse("C01", "m_c01.rs", ["c01.rs"])
U["C01"]["lemmas"] += ["ref_syntax.rs", "ref.rs", "term.rs"]
parse("C02", "m_c02.rs", ["c02.rs"])
parse("C03", "m_c03.rs", ["c03.rs"])
HELPERS = ["parse_string_array", "CopyFlag::from_record", "FromFlag::from_record", "ImageRef::parse", "Label::from_record", "parse_env_pair", "parse_any_breakable_inner", "BreakableString::add_string", "BreakableString::new"]
for name, th in (("C04", []), ("C05", [])):
    U[name] = {"contracts": ["kind.vc"], "pre": ["regex.rs"], "lemmas": ["pair.rs", "m_%s.rs" % name.lower(), "kind.rs"], "theorems": th,
               "roots": CORE[:1] + FROM + TOP, "automata": ["dockerfile", "misc", "alpha"],
               "opaque": HELPERS + (["parse_string", "parse_any_breakable"] if name == "C04" else []), "implicit": False, "spinoff": True, "panics": False}
def outs(names):
    return [x for n in names.split() for x in ("o_" + n, "x_o_" + n)]
U["C04"].update(lemmas=["pair.rs", "m_c04.rs", "kind.rs", "outline.rs"], theorems=["c04.rs"], automata=["dockerfile", "misc", "alpha"] + outs("dockerfile"))
U["C05"].update(lemmas=["pair.rs", "m_c05.rs", "kind.rs", "outline.rs", "guard.rs", "kw.rs", "ref_syntax.rs", "ref.rs"], theorems=["c05.rs"], automata=["dockerfile", "misc", "alpha", "o_misc"] + ["kw_" + w for w in "from run arg label copy entrypoint cmd env".split()])
U["C16"] = {"contracts": ["c16.vc"], "pre": ["regex.rs"], "lemmas": ["pair.rs", "image.rs", "digest.rs"], "theorems": [], "roots": FROM + TOP, "automata": ["dockerfile", "from", "from_flag"],
            "opaque": ["%sInstruction::from_record" % x for x in "Run Arg Label Copy Entrypoint Cmd Env Misc".split()], "implicit": False, "spinoff": True, "panics": False}
# ---- C17..C20: what the pairs say, exactly
FLAGS = "M_IN M_C3 M_EX M_ERR X_ISPAN X_VSPAN X_TEXT X_ELEMS X_PIECES X_KIND".split()
ALL = "From Run Arg Label Copy Entrypoint Cmd Env Misc".split()


def mode(name, on, kinds):
    f = open(ROOT + "/contracts/m_%s.rs" % name.lower(), "w")
    f.write("// the parts of the contracts this property switches on (written by tools/gen_units.py)\n")
    for x in FLAGS:
        f.write("pub open spec fn %s() -> bool { %s }\n" % (x, "true" if x in on.split() else "false"))
    f.write("pub open spec fn K(r: Rule) -> bool { %s }\n" % " || ".join("r == Rule::%s" % k.lower() for k in kinds.split()))
    f.write("pub open spec fn err_ok(e: Error, s: Str) -> bool { true }\npub open spec fn err_un(e: Error, s: Str) -> bool { true }\n")
    f.close()
    return "m_%s.rs" % name.lower()


def exact(name, on, kinds, autos, opaque=(), lemmas=("outline.rs",)):
    m = mode(name, "M_EX X_KIND " + on, kinds)
    parse(name, m, ["%s.rs" % name.lower()] if os.path.exists(ROOT + "/contracts/%s.rs" % name.lower()) else [], autos,
          opaque=["ImageRef::parse"] + ["%sInstruction::from_record" % k for k in ALL if k not in kinds.split()] + list(opaque))
    U[name]["lemmas"] = ["pair.rs", "rel.rs", m, "rel2.rs", "rel3.rs"] + list(lemmas)


exact("C19", "X_ISPAN X_TEXT", "From Copy", outs("from copy from_flag copy_flag") + ["word", "ident"], lemmas=("outline.rs", "words.rs"))
exact("C20", "X_ISPAN X_TEXT", "Arg Env Label", outs("arg label env env_pairs label_pair env_pair label_single env_single") + ["word", "ident", "eqword", "qstr", "lp1", "lp2"], ["parse_any_breakable"],
      ("outline.rs", "words.rs", "eqword.rs", "qstr.rs", "guard.rs"))
exact("C18", "X_ELEMS X_VSPAN X_TEXT", "Run Cmd Entrypoint", outs("run cmd entrypoint array") + ["brack", "qstr"], ["parse_any_breakable"], ("outline.rs", "qstr.rs", "guard.rs"))
exact("C17", "X_PIECES X_VSPAN", "Run Cmd Entrypoint Env Misc", ["o_brk", "o_shell", "line"], ["parse_string_array", "EnvInstruction::from_pairs_record"], ("outline.rs", "guard.rs"))
U["C17"]["contracts"].append("shell.vc")
U["C17"]["lemmas"].append("shell.rs")
U["C17"]["roots"] = U["C17"]["roots"] + ["BreakableString::fmt@Display"]
U["C18"]["contracts"].append("exec.vc")
U["C18"]["lemmas"].append("exec.rs")
U["C18"]["roots"] = U["C18"]["roots"] + ["StringArray::as_str_vec", "SpannedString::fmt@Display"]
U["OT"] = {"contracts": ["kind.vc"], "pre": ["regex.rs"], "lemmas": ["pair.rs", "m_c04.rs", "outline.rs"], "theorems": [], "roots": ["Span::new"], "automata": outs("dockerfile from copy from_flag copy_flag arg label env env_pairs label_pair env_pair label_single env_single run cmd entrypoint array misc"), "opaque": HELPERS, "implicit": False, "spinoff": True, "panics": False}
U["GEN"] = dict(U["OT"], lemmas=["pair.rs", "gen.rs"], automata=["brack"], generated=True)
U["POS"] = {"contracts": ["pos.vc"], "lemmas": ["pos.rs"], "theorems": [], "roots": ["Position::" + f for f in ("at_start", "at_end", "skip", "match_range", "match_string", "match_insensitive")], "implicit": False, "spinoff": True, "panics": True, "source": "pest/position.rs"}
del U["P1"]
for u in U.values():
    if "pair.rs" in u["lemmas"]:
        u["lemmas"].insert(u["lemmas"].index("pair.rs"), "unq.rs")
json.dump(U, open(ROOT + "/contracts/units.json", "w"), indent=1)
