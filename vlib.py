"""Composition of extracted code and contracts into Verus files, running Verus,
and attributing results to functions."""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
CONTRACTS = os.path.join(VERIF, "contracts")
sys.path[:0] = [VERIF, CONTRACTS]
import automata
import grammar

STANDING_ASSUMPTIONS = [
    "std operations behave as the contracts of contracts/prelude.rs say (listed in trusted_base)",
    "the rewriting of iterators, closures and macros described in DESIGN.md preserves meaning",
    "every string in memory is at most isize::MAX bytes long",
    "Clone and PartialEq derives copy and compare structurally",
]


def load_contracts(paths):
    """.vc files: `#fn KEY`, then `#spec`, `#loop k`, `#mark name`, `#attr x`,
    `#item` sections."""
    out = {}
    for p in paths:
        cur, sec = None, None
        for ln, line in enumerate(open(os.path.join(CONTRACTS, p)), 1):
            if line.startswith("#") and not line.startswith("#["):
                w = line[1:].strip().split(None, 1)
                if not w or w[0] == "#" or w[0] == "-":
                    continue
                kw, arg = w[0], (w[1] if len(w) > 1 else "").strip()
                if kw == "fn":
                    cur = out.setdefault(arg, {"spec": "", "loops": {}, "marks": {}, "attrs": [], "item": "", "file": p})
                    sec = None
                elif kw == "spec":
                    sec = ("spec",)
                elif kw == "item":
                    sec = ("item",)
                elif kw == "loop":
                    sec = ("loops", int(arg))
                elif kw == "mark":
                    sec = ("marks", arg)
                elif kw == "attr":
                    cur["attrs"].append(arg)
                    sec = None
                else:
                    raise ValueError("%s:%d: unknown directive %s" % (p, ln, kw))
                continue
            if cur is None or sec is None:
                if line.strip():
                    raise ValueError("%s:%d: stray text" % (p, ln))
                continue
            if len(sec) == 1:
                cur[sec[0]] += line
            else:
                cur[sec[0]][sec[1]] = cur[sec[0]].get(sec[1], "") + line
    return out


def rename(text, mapping):
    m = {a: b for a, b in mapping.items() if a != b}
    if not m:
        return text
    pat = re.compile(r"(?<![\w.])(" + "|".join(map(re.escape, m)) + r")\b(?!\s*:[^:])")
    return pat.sub(lambda x: m[x.group(1)], text)


def rust_char(c):
    return "'\\u{%x}'" % ord(c)


def cls_term(rs):
    t = "Cls::One(%d, %d)" % tuple(rs[-1])
    for a in reversed(rs[:-1]):
        t = "Cls::Or(Box::new(Cls::One(%d, %d)), Box::new(%s))" % (a[0], a[1], t)
    return t


def re_term(r):
    """regex syntax tree (JSON) -> Verus term of type Re"""
    k = r[0]
    if k == "empty":
        return "Re::Empty"
    if k == "start":
        return "Re::Start"
    if k == "end":
        return "Re::End"
    if k == "str":
        parts = ["Re::Chr(%s)" % rust_char(c) for c in r[1]]
    elif k == "class":
        return "Re::Class(%s)" % cls_term(r[1]) if r[1] else "Re::Other"
    elif k == "cap":
        return "Re::Cap(%d, Box::new(%s))" % (r[1], re_term(r[2]))
    elif k == "rep":
        sub, lo, hi, greedy = r[1:]
        if sub[0] == "str" and len(sub[1]) == 1:
            sub = ["class", [[ord(sub[1]), ord(sub[1])]]]
        if sub[0] == "class" and sub[1] and greedy and hi is None:
            return "Re::Rep(%s, %d)" % (cls_term(sub[1]), lo)
        if sub[0] == "class" and sub[1] and hi == lo and lo <= 64:
            parts = ["Re::Class(%s)" % cls_term(sub[1])] * lo
        elif greedy and lo == 0 and hi == 1:
            return "Re::Alt(Box::new(%s), Box::new(Re::Empty))" % re_term(sub)
        else:
            return "Re::Other"
    elif k in ("cat", "alt"):
        parts = [re_term(x) for x in r[1]]
    else:
        return "Re::Other"
    if not parts:
        return "Re::Empty"
    con = "Alt" if k == "alt" else "Cat"
    t = parts[-1]
    for a in reversed(parts[:-1]):
        t = "Re::%s(Box::new(%s), Box::new(%s))" % (con, a, t)
    return t


class Unit:
    """One Verus file: roots and everything they call, with contracts."""

    def __init__(self, name, extracted, cfg, baseline):
        self.name, self.x, self.cfg, self.baseline = name, extracted, cfg, baseline
        self.contracts = load_contracts(cfg["contracts"])
        self.fns = {}
        for f in extracted["fns"]:
            self.fns.setdefault(f["key"], f)
        self.dropped = {}      # key -> reason (emitted external_body, contract kept or not)
        self.drift = {}        # key -> [reasons]
        self.reach = False     # emit assert(false) at every entry instead of annotations
        self.select()

    # ---- which functions belong to the unit
    def select(self):
        byname = {}
        for f in self.fns.values():
            byname.setdefault(f["name"], []).append(f["key"])
        seen, todo = [], []
        self.missing = []
        for r in self.cfg["roots"]:
            if r in self.fns:
                todo.append(r)
            else:
                self.missing.append(r)
        light = set(self.cfg.get("assume", []))
        self.light = set()
        while todo:
            k = todo.pop(0)
            if k in seen:
                continue
            seen.append(k)
            f = self.fns[k]
            if k in self.cfg.get("opaque", []):
                continue
            nxt = []
            for c in f["calls"]:
                c = c.replace("crate::", "")
                parts = c.split("::")
                if c in self.fns:
                    nxt.append(c)
                elif len(parts) == 2:
                    nxt += [q for q in self.fns if q.startswith(c + "@")]
                elif len(parts) > 2 and "::".join(parts[-2:]) in self.fns:
                    nxt.append("::".join(parts[-2:]))
                elif len(parts) > 2 and parts[-1] in self.fns:
                    nxt.append(parts[-1])
            for m in f["methods"]:
                if m in ("into", "fmt", "to_string", "clone", "iter", "into_iter", "next", "eq", "cmp", "partial_cmp", "index", "from", "get"):
                    continue
                for q in byname.get(m, []):
                    if self.fns[q]["params"][:1] and self.fns[q]["params"][0]["name"] == "self":
                        nxt.append(q)
            # Stages::get etc are reached by name only when declared
            nxt += [q for q in self.contracts.get(k, {}).get("uses", [])]
            for q in nxt:
                if q not in seen:
                    todo.append(q)
        # trait impls reached implicitly
        self.keys = seen
        implicit = []
        for k, f in self.fns.items():
            if k in seen:
                continue
            if f["kind"] == "trait" and f["trait"] in ("From", "Display"):
                implicit.append(k)
        self.implicit = [k for k in implicit if k in self.contracts or self.fns[k]["trait"] == "From"] if self.cfg.get("implicit", True) else []

    # ---- structure drift against the committed baseline
    def check_drift(self, k):
        f, b = self.fns[k], self.baseline.get(k)
        why = []
        if b is None:
            return ["new function without a contract"]
        if len(f["loops"]) != b["loops"]:
            why.append("number of loops changed")
        if [x["kind"] for x in f["loops"]] != b["kinds"]:
            why.append("loop kinds changed")
        return why

    def mapping(self, k):
        f, b = self.fns[k], self.baseline.get(k)
        if b is None:
            return {}, []
        mp, why = {}, []
        cur = f["locals"]
        used = set(re.findall(r"(?<![.\w])[a-z_]\w*\b", json.dumps(self.contracts.get(k, {}))))
        miss = [x for x in b["locals"] if x not in cur and x in used]
        if miss:
            if len(cur) == len(b["locals"]):
                mp = dict(zip(b["locals"], cur))
            else:
                gone = [x for x in b["locals"] if x not in cur]
                new = [x for x in cur if x not in b["locals"]]
                if len(gone) == len(new):
                    mp = dict(zip(gone, new))
                else:
                    why.append("locals changed: %s" % ", ".join(miss))
        return mp, why

    def calls_unknown(self, k):
        """functions of the crate that k reaches and that have no contract"""
        if k not in self.fns:
            return []
        f = self.fns[k]
        made = set(f["calls"]) | {"." + m for m in f["methods"]}
        # calls the function already made when its obligations were discharged
        made -= set(self.baseline.get(k, {}).get("names", []))
        owner = k.split("::")[0]
        types = {q.split("::")[0] for q in self.keys if "::" in q}
        out = []
        for q in self.keys:
            if q == k or q in self.contracts or q in self.cfg.get("nocontract", []):
                continue
            for c in made:
                p = c.lstrip(".").split("::")
                t = owner if p[-2:-1] == ["Self"] else p[-2] if len(p) > 1 else None
                if p[-1] == self.fns[q]["name"] and (t not in types or q.split("::")[0] == t):
                    out.append(q)
                    break
        return out

    # ---- emission
    def emit_types(self):
        out = []
        skip = set(self.cfg.get("skip_types", [])) | {"DockerfileParser"}
        for t in self.x["types"]:
            if t["name"] in skip or t["kind"] == "alias" or t["kind"] == "unit":
                continue
            if t["kind"] == "const":
                out.append(t["text"])
                continue
            out.append(t["text"])
            ig, tg, n = t["impl_generics"], t["ty_generics"], t["name"]
            if "Clone" in t["derives"]:
                out.append("impl %s Clone for %s %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }" % (ig, n, tg))
            if "Copy" in t["derives"]:
                out.append("impl %s Copy for %s %s {}" % (ig, n, tg))
            if "PartialEq" in t["derives"]:
                out.append("impl %s VEq<%s %s> for %s %s { open spec fn v_eq_spec(&self, o: &Self) -> bool { *self == *o } #[verifier::external_body] fn v_eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }" % (ig, n, tg, n, tg))
        return "\n".join(out)

    def body_text(self, k, c, mp):
        f = self.fns[k]
        body = f["body"]
        marks_used = set()

        def sub(m):
            name = m.group(1)
            marks_used.add(name)
            lm = re.match(r"loop(\d+)_spec$", name)
            if lm:
                i = int(lm.group(1))
                lp = f["loops"][i]
                auto = ""
                user = rename(c["loops"].get(i, ""), mp)
                if lp["kind"] not in ("while", "loop", "whilelet"):
                    it, s = "__it%d" % i, "__s%d" % i
                    inv = "invariant %s.seq() == %s, 0 <= %s.pos() <= %s.len(), %s.len() <= usize::MAX,\n" % (it, s, it, s, s)
                    if re.search(r"\binvariant\b", user):
                        user = re.sub(r"\binvariant\b", lambda _: inv, user, count=1)
                    else:
                        user = inv + user
                    if lp["breaks"] == 0 and not re.search(r"\bensures\b", user):
                        user += "\nensures %s.pos() == %s.len(),\n" % (it, s)
                    if not re.search(r"\bdecreases\b", user):
                        user += "\ndecreases %s.len() - %s.pos()\n" % (s, it)
                else:
                    if not re.search(r"\bdecreases\b", user):
                        user = user
                for j in range(8):
                    user = user.replace("$i%d" % j, "__it%d.pos()" % j).replace("$s%d" % j, "__s%d" % j)
                return "\n" + auto + user + "\n"
            t = c["marks"].get(name)
            if t is None:
                return ""
            t = rename(t, mp)
            for j in range(8):
                t = t.replace("$i%d" % j, "__it%d.pos()" % j).replace("$s%d" % j, "__s%d" % j)
            return "\nproof {\n" + t + "\n}\n" if not t.lstrip().startswith("//raw") else "\n" + t + "\n"

        out = re.sub(r"/\*@MARK (\w+) @\*/", sub, body)
        if self.reach:
            out = "proof { assert(false); }\n" + out
        lits = sorted({x for x in re.findall(r'"((?:[^"\\\\]|\\\\.)*)"', body) if len(x) <= 12})
        if lits and not self.reach:
            out = "proof { " + " ".join('reveal_strlit("%s");' % x for x in lits) + " }\n" + out
        missing = [m for m in c["marks"] if m not in marks_used]
        missing += ["loop %d" % i for i in c["loops"] if "loop%d_spec" % i not in marks_used]
        return out, missing

    def emit_fn(self, k, mode):
        """mode: verify | assume (external_body, with contract) | bare (external_body, no contract)"""
        f = self.fns[k]
        c = self.contracts.get(k, {"spec": "", "loops": {}, "marks": {}, "attrs": [], "item": ""})
        mp, why = self.mapping(k)
        if why:
            self.drift.setdefault(k, []).extend(why)
        spec = rename(c["spec"], mp)
        item = c["item"]
        if mode == "bare":
            spec, item = "", ""
        attrs = []
        if mode == "verify":
            body, missing = self.body_text(k, c, mp)
            if missing:
                self.drift.setdefault(k, []).append("annotation points missing: " + ", ".join(missing))
            if f["loops"]:
                attrs += ["#[verifier::loop_isolation(false)]", "#[verifier::allow_complex_invariants]"]
            if k not in self.contracts or (not re.search(r"\bdecreases\b", spec)):
                attrs.append("#[verifier::exec_allows_no_decreases_clause]")
            if self.cfg.get("spinoff"):
                attrs.append("#[verifier::spinoff_prover]")
            for a in c["attrs"]:
                attrs.append("#[verifier::%s]" % a)
        else:
            body = "unimplemented!()"
            attrs.append("#[verifier::external_body]")
        ret = " -> (r: %s)" % f["ret"] if f["ret"] else ""
        gen = f["generics"]
        a = "\n".join(attrs)
        if f["kind"] == "trait":
            t = f["trait"]
            ig = "<%s>" % f["impl_generics"] if f["impl_generics"] else ""
            if t == "Display":
                it = item or "uninterp spec fn disp(&self) -> Str;" 
                if not item:
                    self_t = re.sub(r"\W+", "_", f["impl_ty"])
                    return ("pub uninterp spec fn __disp_%s(x: &%s) -> Str;\n" % (self_t, re.sub(r"'a", "'_", f["impl_ty"])) +
                            "impl%s VDisplay for %s {\nopen spec fn disp(&self) -> Str { __disp_%s(self) }\n#[verifier::external_body] fn fmt(&self, f: &mut VFmt) -> (r: core::result::Result<(), VFmtError>) { unimplemented!() }\n#[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }\n}" % (ig, f["impl_ty"], self_t))
                inp = f["inputs"]
                return "impl%s VDisplay for %s {\n%s\n%s fn fmt(%s) -> (r: core::result::Result<(), VFmtError>)\n%s{ %s }\n#[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }\n}" % (
                    ig, f["impl_ty"], it, a, inp, spec, body)
            if t == "From":
                it = item
                if not item:
                    nm = "__into_%s_%s" % (re.sub(r"\W+", "_", f["trait_arg_full"]), f["self"])
                    argt = f["trait_arg_full"]
                    return ("impl%s VInto<%s> for %s {\nuninterp spec fn v_into_ok(self, r: %s) -> bool;\n" % (ig, f["impl_ty"], argt, f["impl_ty"]) +
                            "#[verifier::external_body] fn v_into(self) -> (r: %s) { unimplemented!() }\n}" % f["impl_ty"])
                pname = f["params"][0]["name"]
                bind = "" if mode != "verify" else "let %s = self;\n" % pname
                return "impl%s VInto<%s> for %s {\n%s\n%s fn v_into(self) -> (r: %s)\n%s{ %s%s }\n}" % (
                    ig, f["impl_ty"], f["trait_arg_full"], it, a, f["impl_ty"], spec, bind, body)
            # other traits: inherent function on the type
            base = re.sub(r"^&\s*('\w+)?\s*", "", f["impl_ty"])
            fgen = ", ".join(x for x in [f["impl_generics"], gen.strip("<> ")] if x)
            if base.split("<")[0].strip() in ("Stage", "Stages", "StageParent"):
                return "impl%s %s {\n%s\npub fn %s(%s)%s\n%s{ %s }\n}" % (ig, base, a, "v_into_iter" if t == "IntoIterator" else f["name"], f["inputs"], ret, spec, body)
            return "impl %s {\n%s\npub fn %s%s(%s)%s\n%s{ %s }\n}" % (
                base, a, f["name"], "<%s>" % fgen if fgen else "", f["inputs"], ret, spec, body)
        head = "%s\npub fn %s%s(%s)%s %s\n%s{ %s }" % (a, f["name"], gen, f["inputs"], ret, f["where"], spec, body)
        if f["kind"] == "inherent":
            ig = "<%s>" % f["impl_generics"] if f["impl_generics"] else ""
            return "impl%s %s %s {\n%s\n}" % (ig, f["impl_ty"], f["impl_where"], head)
        return head

    def modes(self):
        m = {}
        for k in self.keys:
            if k in self.dropped:
                m[k] = self.dropped[k][0]
            elif isinstance(self.fns[k]["body"], dict):
                self.dropped[k] = ("assume" if k in self.contracts else "bare", "extraction: " + self.fns[k]["body"]["error"])
                m[k] = self.dropped[k][0]
            elif k in self.cfg.get("opaque", []):
                m[k] = "assume"
            else:
                m[k] = "verify"
        for k in self.implicit:
            m[k] = "assume" if k in self.contracts else "bare"
            if k in self.dropped:
                m[k] = self.dropped[k][0]
        return m

    def compose(self):
        self.drift = {}
        lines = []
        self.ranges = []   # (start, end, key)

        def add(text, key):
            s = sum(x.count("\n") + 1 for x in lines) + 1 if False else self._n + 1
            lines.append(text)
            self._n += text.count("\n") + 1
            self.ranges.append((s, self._n, key))

        self._n = 0
        add(open(os.path.join(CONTRACTS, "prelude.rs")).read(), "@prelude")
        add("verus! { pub open spec fn PANICS() -> bool { %s } }" % ("true" if self.cfg.get("panics", True) else "false"), "@panics")
        for p in self.cfg.get("pre", []):
            add(open(os.path.join(CONTRACTS, p)).read(), "@pre:" + p)
        add("pub mod unit {\nuse crate::*; use vstd::prelude::*; use vstd::utf8::*; use vstd::string::*;\nverus! {\nbroadcast use {vaxioms::axiom_string_ext, lemma_splitn2, lemma_views, lemma_lower_idem};\n", "@open")
        add(self.emit_types(), "@types")
        for p, t in self.generated().items():
            add(t, "@gen:" + p)
        for p in self.cfg.get("lemmas", []):
            add(open(os.path.join(CONTRACTS, p)).read(), "@lemma:" + p)
        for k, mode in self.modes().items():
            if mode == "verify":
                d = self.check_drift(k)
                if d:
                    self.drift.setdefault(k, []).extend(d)
            add("// ---- " + k + "\n" + self.emit_fn(k, mode), k)
        for p in self.cfg.get("theorems", []):
            add(open(os.path.join(CONTRACTS, p)).read(), "@theorem:" + p)
        add("} // verus!\n} // mod unit\nfn main() {}", "@close")
        return "\n".join(lines)

    def generated(self):
        out = {}
        t = ""
        for r in self.x["regexes"]:
            if r["fn"] in self.keys and r["fn"] not in self.cfg.get("opaque", []):
                t += "/// from the literal %s in %s\n" % (json.dumps(r["pattern"]), r["fn"])
                t += "pub open spec fn re_%s() -> Re { %s }\n" % (r["name"], re_term(r["re"]))
                t += "#[verifier::external_body] pub fn __regex_%s() -> (r: Regex) ensures r.re() == re_%s() { unimplemented!() }\n" % (r["name"], r["name"])
        if t:
            out["regex"] = t
        if self.cfg.get("automata"):
            A = automata.automata()
            g = grammar.Grammar(self.x["grammar"])
            used = [A[a] for a in self.cfg["automata"]]
            for d, rules in used:
                for r in list(rules) + list(d.needs):
                    if r not in g.ty:
                        raise grammar.Unsupported("rule %s is not in the grammar" % r)
            head, proofs = grammar.emit_dfas(g, used)
            out["grammar"] = g.emit() + "\n" + head
            for p in ("peg.rs", "dfa.rs"):
                out[p] = open(os.path.join(CONTRACTS, p)).read()
            out["automata"] = proofs
            if self.cfg.get("generated"):
                out["generated"] = g.emit_generated(self.x["generated"])
        return out

    def owner(self, line):
        for a, b, k in self.ranges:
            if a <= line <= b:
                return k
        return "@unknown"


VERUS = os.environ.get("VERUS", "verus")


def run_verus(path, extra=(), timeout=600, threads=6, multi=3):
    cmd = [VERUS, path, "--output-json", "--time", "--error-format=json", "--num-threads", str(threads), "--multiple-errors", str(multi)] + list(extra)
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return {"cmd": cmd, "timeout": True, "errors": [], "results": None, "wall": time.time() - t, "raw": "timeout"}
    res = None
    try:
        res = json.loads(out[out.index("{"):])
    except Exception:
        pass
    diags = []
    for line in err.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except Exception:
                continue
            if d.get("level") == "error":
                diags.append(d)
    return {"cmd": cmd, "errors": diags, "results": res, "wall": time.time() - t, "raw": err[-20000:], "timeout": False}


def is_verification_error(d):
    m = d.get("message", "")
    pats = ["postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "possible arithmetic", "decreases not satisfied", "recommendation not met", "possible division", "loop ensures not satisfied",
            "unable to prove", "requires not satisfied", "Resource limit", "not satisfied", "index out of bounds", "failed precondition",
            "could not prove", "possible bit shift", "constant overflow", "assert_by_compute", "simplified", "expression simplifies", "while loop: ", "unreachable", "possible overflow", "possible underflow"]
    return any(p in m for p in pats)


def trusted_scan(path):
    """names of everything assumed in a composed file"""
    out, lines = [], open(path).read().split("\n")
    impl = ""
    for i, l in enumerate(lines):
        m = re.match(r"\s*(?:pub )?(?:impl|trait)\b.*?(?:for )?(\w+)", l)
        if re.match(r"\s*impl\b", l):
            impl = re.sub(r"\s*\{.*", "", l.strip())
        if l.lstrip().startswith("//"):
            continue
        if re.search(r"external_body|\bassume\(|\badmit\(|uninterp|external_fn_specification|assume_specification|external_type", l):
            j = i
            while j < len(lines) and j < i + 6 and not re.search(r"\b(fn|struct|assume|admit|macro_rules)\b", lines[j].split("external_body]")[-1]):
                j += 1
            m = re.search(r"\b(?:fn|struct) (\w+)", (lines[j] if j < len(lines) else l).split("external_body]")[-1])
            name = m.group(1) if m else l.strip()[:60]
            out.append(name)
    return sorted(set(out))


def rendered(d):
    return (d.get("rendered") or d.get("message", ""))[:3000]
