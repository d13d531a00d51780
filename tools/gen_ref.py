#!/usr/bin/env python3
"""contracts/ref_syntax.rs: the reference syntax.
Written once, from the grammar at the commit the contracts are about:
python3 tools/gen_ref.py EXTRACT; later runs compare the current grammar to it."""
import json, subprocess, sys
sys.path.insert(0, "/verif")
sys.dont_write_bytecode = True
import grammar
x = json.loads(subprocess.run([sys.argv[1], "/repo/src"], capture_output=True, text=True, check=True).stdout)
g = grammar.Grammar(x["grammar"])
out = ["// The reference syntax: dockerfile_parser.pest as it stood when the contracts were",
       "// written, term by term.  Written by tools/gen_ref.py and reviewed; no check rewrites it.",
       "// The proofs compare the rules read from /repo on this run with it."]
names = [n for n in g.order if n != "EOI"]
for n in names:
    out.append("pub open spec fn r_%s() -> E { %s }" % (n, grammar.term(g.body[n])))
out.append("pub open spec fn reference(r: Rule) -> Option<E> { match r { %s, Rule::EOI => Some(E::Eoi), #[allow(unreachable_patterns)] _ => None } }" % ", ".join("Rule::%s => Some(r_%s())" % (n, n) for n in names))
for n in names:
    out.append("proof fn syntax_%s() ensures body(Rule::%s) == r_%s() { assert(b_%s() == r_%s()) by(compute_only); }" % (n, n, n, n, n))
out.append("/// every rule is as in the reference\npub proof fn lemma_syntax(r: Rule)\n    requires reference(r) is Some\n    ensures reference(r) == Some(body(r))\n{\n    match r {")
for n in names:
    out.append("        Rule::%s => { syntax_%s(); }" % (n, n))
out.append("        _ => {}\n    }\n}")
open("/verif/contracts/ref_syntax.rs", "w").write("\n".join(out) + "\n")
