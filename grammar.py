"""Verus terms for the grammar and for the automata that describe its rules.

The grammar is read from dockerfile_parser.pest by harness/src/bin/extract
(pest_meta) on every run; the automata are contracts (contracts/automata.py).
Results that this file computes (tables) are claims only: every one is checked
by Verus against the semantics of contracts/peg.rs and contracts/dfa.rs."""

BUILTIN = {
    "ASCII_ALPHA": ["alt", ["rng", 65, 90], ["rng", 97, 122]],
    "ASCII_ALPHANUMERIC": ["alt", ["alt", ["rng", 65, 90], ["rng", 97, 122]], ["rng", 48, 57]],
    "ASCII_DIGIT": ["rng", 48, 57],
    "ASCII_HEX_DIGIT": ["alt", ["alt", ["rng", 48, 57], ["rng", 97, 102]], ["rng", 65, 70]],
    "NEWLINE": ["alt", ["alt", ["str", "\n"], ["str", "\r\n"]], ["str", "\r"]],
    "ANY": ["rng", 0, 0x10FFFF],
    "ASCII": ["rng", 0, 127],
    "SOI": ["soi"],
}


class Unsupported(Exception):
    pass


NOP = ("Nop",)


def core(e, names):
    """pest syntax tree -> core expression (nested tuples)"""
    k = e[0]
    if k == "str":
        t = NOP
        for c in reversed(e[1]):
            x = ("R", ord(c), ord(c))
            t = x if t == NOP else ("Cat", x, t)
        return t
    if k == "insens":
        t = NOP
        for c in reversed(e[1]):
            if ord(c) > 127:
                raise Unsupported("non-ASCII case-insensitive literal")
            x = ("R", ord(c), ord(c))
            if c.isalpha():
                x = ("Alt", ("R", ord(c.lower()), ord(c.lower())), ("R", ord(c.upper()), ord(c.upper())))
            t = x if t == NOP else ("Cat", x, t)
        return t
    if k == "rng":
        return ("R", e[1], e[2])
    if k == "range":
        return ("R", ord(e[1]), ord(e[2]))
    if k == "soi":
        return ("Soi",)
    if k == "ref":
        n = e[1]
        if n in names:
            return ("Ref", n)
        if n == "EOI":
            return ("Ref", "EOI")
        if n in BUILTIN:
            return core(BUILTIN[n], names)
        raise Unsupported("built-in rule " + n)
    if k == "seq":
        parts, todo = [], [e]            # a ~ b ~ c to the right, as pest's optimizer does
        while todo:
            x = todo.pop()
            if x[0] == "seq":
                todo += [x[2], x[1]]
            else:
                parts.append(core(x, names))
        t = parts[-1]
        for p in reversed(parts[:-1]):
            t = ("Cat", p, t)
        return t
    if k == "alt":
        return ("Alt", core(e[1], names), core(e[2], names))
    if k == "opt":
        return ("Alt", core(e[1], names), NOP)
    if k == "rep":
        return ("Star", core(e[1], names))
    if k == "rep1":
        x = core(e[1], names)
        return ("Cat", x, ("Star", x))
    if k == "neg":
        return ("Neg", core(e[1], names))
    if k == "pos":
        return ("Pos", core(e[1], names))
    if k in ("repmm", "repmin", "repmax", "repexact"):
        x = core(e[1], names)
        lo, hi = (e[2], e[3]) if k == "repmm" else (e[2], None) if k == "repmin" else (0, e[2]) if k == "repmax" else (e[2], e[2])
        if (hi or lo) > 16:
            raise Unsupported("long repetition")
        parts = [x] * lo + ([("Star", x)] if hi is None else [])
        tail = NOP
        for _ in range((hi or lo) - lo):
            tail = ("Alt", x if tail == NOP else ("Cat", x, tail), NOP)
        if tail != NOP:
            parts.append(tail)
        if not parts:
            return NOP
        t = parts[-1]
        for p in reversed(parts[:-1]):
            t = ("Cat", p, t)
        return t
    raise Unsupported("grammar expression " + k)


def term(c):
    k = c[0]
    if k in ("Nop", "Soi", "Eoi"):
        return "E::" + k
    if k == "R":
        return "E::R(%d, %d)" % (c[1], c[2])
    if k == "Ref":
        return "E::Ref(Rule::%s)" % c[1]
    return "E::%s(%s)" % (k, ", ".join("Box::new(%s)" % term(x) for x in c[1:]))


class Grammar:
    def __init__(self, g):
        self.order = [r["name"] for r in g["rules"]]
        names = set(self.order)
        if names & {"WHITESPACE", "COMMENT"}:
            raise Unsupported("implicit whitespace")
        self.ty, self.body = {}, {}
        for r in g["rules"]:
            t = {"Normal": "Normal", "Silent": "Silent", "Atomic": "Atomic", "CompoundAtomic": "Compound"}.get(r["ty"])
            if t is None:
                raise Unsupported("rule type " + r["ty"])
            self.ty[r["name"]] = t
            self.body[r["name"]] = core(r["expr"], names)
        self.order.append("EOI")
        self.ty["EOI"], self.body["EOI"] = "Normal", ("Eoi",)

    def emit(self):
        out = ["#[derive(PartialEq, Eq, Structural, Clone, Copy)]", "pub enum Rule { %s }" % ", ".join(self.order)]
        out.append("impl VEq<Rule> for Rule { open spec fn v_eq_spec(&self, o: &Rule) -> bool { *self == *o } fn v_eq(&self, o: &Rule) -> (r: bool) { *self == *o } }")
        for n in self.order:
            out.append("pub open spec fn b_%s() -> E { %s }" % (n, term(self.body[n])))
        out.append("pub open spec fn body(r: Rule) -> E { match r { %s } }" % ", ".join("Rule::%s => b_%s()" % (n, n) for n in self.order))
        out.append("pub open spec fn rty(r: Rule) -> Ty { match r { %s } }" % ", ".join("Rule::%s => Ty::%s" % (n, self.ty[n]) for n in self.order))
        return "\n".join(out)

    def emit_generated(self, gen):
        """what the code does that pest's derive writes for this grammar (gengram), and
        one obligation per rule: it is the rule's expression, up to what norm leaves alone"""
        if not gen["no_skip"]:
            raise Unsupported("implicit whitespace in the generated parser")
        for n, r in gen["rules"].items():
            if not isinstance(r, list):
                raise Unsupported("generated function %s: %s" % (n, r["error"]))
        if "EOI" in gen["rules"] and gen["rules"]["EOI"] != ["Normal", ["eoi"]]:
            raise Unsupported("generated EOI")
        names = set(self.order)

        def inline(e, depth=0):
            if e[0] == "ref" and e[1] not in names:
                kind, b = gen["rules"].get(e[1], ("none", None))
                if kind != "Silent" or depth > 8:
                    raise Unsupported("generated built-in " + e[1])
                return inline(b, depth + 1)
            return [inline(x, depth) if isinstance(x, list) else x for x in e]
        out = []
        arms, tys, calls = [], [], []
        for n in self.order:
            if n != "EOI" and n not in gen["rules"]:
                raise Unsupported("no generated function for " + n)
            kind, e = ("Normal", ["eoi"]) if n == "EOI" else gen["rules"][n]
            ty = {"CompoundAtomic": "Compound"}.get(kind, kind)
            out.append("pub open spec fn g_%s() -> E { %s }" % (n, "E::Eoi" if n == "EOI" else term(core(inline(e), names))))
            out.append("proof fn generated_%s() ensures norm(g_%s()) == norm(b_%s()), Ty::%s == rty(Rule::%s) { assert(norm(g_%s()) == norm(b_%s())) by(compute_only); }" % (n, n, n, ty, n, n, n))
            arms.append("Rule::%s => g_%s()" % (n, n))
            tys.append("Rule::%s => Ty::%s" % (n, ty))
            calls.append("Rule::%s => generated_%s()" % (n, n))
        lits = set()

        def literals(e):
            if e[0] in ("str", "insens"):
                lits.add((e[0], e[1]))
            for x in e[1:]:
                if isinstance(x, list):
                    literals(x)
        for r in gen["rules"].values():
            literals(r[1])
        for k, (kind, t) in enumerate(sorted(lits)):
            out.append("/// %s %r\nproof fn literal_%d() ensures %s(seq![%s]) == %s { assert(%s(seq![%s]) == %s) by(compute_only); }" % (
                (kind, t, k) + ("lit" if kind == "str" else "ilit", ", ".join("%du32" % ord(c) for c in t), term(core([kind, t], names))) * 2))
        out.append("pub open spec fn gbody(r: Rule) -> E { match r { %s } }" % ", ".join(arms))
        out.append("pub open spec fn grty(r: Rule) -> Ty { match r { %s } }" % ", ".join(tys))
        out.append("proof fn generated_rule(r: Rule) ensures norm(gbody(r)) == norm(body(r)), grty(r) == rty(r) { match r { %s } }" % ", ".join(calls))
        return "\n".join(out)

    def emits(self, r, at):
        t = self.ty[r]
        return False if t == "Silent" else True if t == "Compound" else not at

    def at_in(self, r, at):
        t = self.ty[r]
        return True if t == "Atomic" else False if t == "Compound" else at


SINK = 63
MAX = (1 << 64) - 1


class Dfa:
    """states 0..n-1, 63 the sink. chars[q]: list of (lo, hi, target), then the
    default; nodes[q]: {rule: target}, then the default."""

    def __init__(self, name, n, chars, nodes, kidlevel=False, flat=False):
        self.name, self.n, self.chars, self.nodes, self.kidlevel, self.flat = name, n, chars, nodes, kidlevel, flat
        self.needs = []      # rules that the contracts mention

    def c_segments(self, q):
        return self.chars[q]

    def node(self, q, r):
        m, dflt = self.nodes[q]
        return m.get(r, dflt)


def bit(q):
    return 1 << q


# ---- mirror of contracts/dfa.rs, to compute the tables that Verus then checks
def some_out(a, b, l):
    if a > b:
        return False
    for i, (x, y) in enumerate(l):
        if y < a or b < x:
            continue
        return some_out(a, x - 1, l[i + 1:]) or some_out(y + 1, b, l[i + 1:])
    return True


class Tables:
    def __init__(self, g, d):
        self.g, self.d, self.t = g, d, {}
        self.changed = False

    def targets(self, q, a, b, ex):
        segs, dflt = self.d.chars[q]
        r, ex = 0, list(ex)
        for (x, y, t) in segs:
            if some_out(max(a, x), min(b, y), ex):
                r |= bit(t)
            ex = [(x, y)] + ex
        if some_out(a, b, ex):
            r |= bit(dflt)
        return r

    def chs(self, m, a, b, ex):
        r = m & bit(63)
        for q in range(63):
            if m & bit(q):
                r |= self.targets(q, a, b, ex) if q < self.d.n else bit(63)
        return r

    def nodes(self, m, r):
        o = m & bit(63)
        for q in range(63):
            if m & bit(q):
                o |= bit(self.d.node(q, r)) if q < self.d.n else bit(63)
        return o

    def look(self, m, r, at):
        o = m & bit(63)
        for q in range(63):
            if m & bit(q):
                o |= self.tbl(r, at, q)
        return o

    def tbl(self, r, at, q):
        if q >= self.d.n:
            return MAX
        if (r, at, q) not in self.t:
            self.t[(r, at, q)] = 0
            self.changed = True
        return self.t[(r, at, q)]

    def always(self, e):
        k = e[0]
        return k in ("Nop", "Star") or (k == "Alt" and self.always(e[2])) or (k == "Cat" and self.always(e[1]) and self.always(e[2]))

    def must(self, e, n):
        k = e[0]
        if k == "R":
            return [(e[1], e[2])]
        if k == "Alt":
            return self.must(e[1], n) + self.must(e[2], n)
        if k == "Cat":
            return self.must(e[1], n) if self.always(e[2]) else []
        if k == "Ref":
            return self.must(self.g.body[e[1]], n - 1) if n else []
        return []

    def post(self, e, at, m, ex):
        k = e[0]
        if k == "R":
            return self.chs(m, e[1], e[2], ex)
        if k == "Ref":
            return self.nodes(m, e[1]) if self.g.emits(e[1], at) and not self.d.flat else self.look(m, e[1], at)
        if k == "Cat":
            if e[1][0] == "Neg":
                return self.post(e[2], at, m, self.must(e[1][1], 4) + ex)
            return self.post(e[2], at, self.post(e[1], at, m, ex), [])
        if k == "Alt":
            return self.post(e[1], at, m, ex) | self.post(e[2], at, m, ex)
        if k == "Star":
            for _ in range(64):
                p = self.post(e[1], at, m, [])
                if p & ~m == 0:
                    return m
                m |= p
            return MAX
        return m

    def solve(self, rules):
        """rules: names whose bodies are entered in state 0"""
        res = {}
        while True:
            self.changed = False
            for r in rules:
                for at in (False, True):
                    if self.g.emits(r, at):
                        res[(r, at)] = self.post(self.g.body[r], self.g.at_in(r, at), bit(0), [])
            for (r, at, q) in list(self.t):
                v = self.post(self.g.body[r], self.g.at_in(r, at), bit(q), [])
                if v & ~self.t[(r, at, q)]:
                    self.t[(r, at, q)] |= v
                    self.changed = True
            if not self.changed:
                return res


def emit_dfas(g, dfas):
    """dfas: list of (Dfa, {rule: accepting states})"""
    out = []
    dfas = list(dfas)
    lines = [d for d, _ in dfas if getattr(d, "coms", None) is not None]
    if lines:
        # the rules that may stand where a line starts, and the comments themselves
        starts = sorted({r for d in lines for q in d.coms for r in d.nodes[q][0]} - {"EOI"} | {"comment"})
        dfas.append((Dfa("first", 2, [([(10, 10, 63), (13, 13, 63)], 1), ([], 1)], [({}, 63)] * 2, False, True), {r: {1} for r in starts}))
        dfas.append((Dfa("hash", 2, [([(35, 35, 1)], 63), ([(10, 10, 63), (13, 13, 63)], 1)], [({}, 63)] * 2, False, True), {"comment": {1}}))
    chl, nds, tbl = [], [], []
    proofs = []
    facts = set()
    for i, (d, rules) in enumerate(dfas):
        T = Tables(g, d)
        T.solve(list(rules))
        nm = d.name
        out.append("pub open spec fn D_%s() -> int { %d }" % (nm, i))
        arms = []
        for q in range(d.n):
            segs, dflt = d.chars[q]
            t = "CL::End(%d)" % dflt
            for (a, b, x) in reversed(segs):
                t = "CL::C(%d, %d, %d, Box::new(%s))" % (a, b, x, t)
            arms.append("if q == %d { %s }" % (q, t))
        out.append("pub open spec fn chl_%s(q: u64) -> CL { %s }" % (nm, "CL::End(q)" if d.kidlevel else " else ".join(arms) + " else { CL::End(63) }"))
        arms = []
        for q in range(d.n):
            m, dflt = d.nodes[q]
            by = {}
            for r, t in m.items():
                if r in g.ty and t != dflt:
                    by.setdefault(t, []).append(r)
            arms.append("if q == %d { match r { %s_ => %d } }" % (q, "".join("%s => %d, " % (" | ".join("Rule::" + r for r in rs), t) for t, rs in sorted(by.items())), dflt))
        out.append("pub open spec fn nds_%s(q: u64, r: Rule) -> u64 { %s else { 63 } }" % (nm, " else ".join(arms)))
        byr = {}
        for (r, at, q), v in T.t.items():
            byr.setdefault((r, at), {})[q] = v
        arms = []
        for (r, at), qs in sorted(byr.items()):
            arms.append("(Rule::%s, %s) => %s else { u64::MAX }" % (r, "true" if at else "false",
                        " else ".join("if q == %d { 0x%x }" % (q, v) for q, v in sorted(qs.items()))))
        out.append("pub open spec fn tbl_%s(r: Rule, at: bool, q: u64) -> u64 { match (r, at) { %s_ => u64::MAX } }" % (nm, "".join(a + ", " for a in arms)))
        chl.append("if d == %d { chl_%s(q) }" % (i, nm))
        nds.append("if d == %d { nds_%s(q, r) }" % (i, nm))
        tbl.append("if d == %d { tbl_%s(r, at, q) }" % (i, nm))
        p = []
        for (r, at), qs in sorted(byr.items()):
            for q in sorted(qs):
                p.append("    assert(tbl_ok1(%d, Rule::%s, %s, %d)) by(compute_only);" % (i, r, "true" if at else "false", q))
        top = "    assert forall|r: Rule, at: bool, q: u64| q < 63 implies #[trigger] tbl_ok1(%d, r, at, q) by { if tbl(%d, r, at, q) == u64::MAX { lemma_top(%d, r, at, q); } }" % (i, i, i)
        proofs.append("pub proof fn gen_tbl_%s()\n    ensures tbl_ok(%d)\n{\n    hide(post); \n%s\n%s\n}" % (nm, i, "\n".join(p), top))
        proofs.append("pub proof fn gen_small_%s()\n    ensures small(%d)\n{ reveal_with_fuel(cstep, %d); }" % (nm, i, 2 + max([len(c[0]) for c in d.chars] or [0])))
        for r, acc in rules.items():
            a = sum(bit(q) for q in acc)
            proofs.append("/// the items of every match of `%s` lead automaton %s to one of the states %s\npub proof fn gen_%s_%s(n: PNode, s: Str)\n    requires valid(n, s), n.rule == Rule::%s\n    ensures has(0x%x, run(%d, 0, obs(%d, s, n.lo, n.hi, n.out)))\n{ gen_tbl_%s(); gen_small_%s(); assert(rule_ok(%d, Rule::%s, 0x%x)) by(compute_only); lemma_rule(%d, n, s, 0x%x); }"
                          % (r, nm, sorted(acc), nm, r, r, a, i, i, nm, nm, i, r, a, i, a))
            if d.kidlevel:
                fn = r if r not in facts else nm
                facts.add(fn)
                proofs.append("pub proof fn fact_%s(n: PNode, s: Str)\n    requires valid(n, s), n.rule == Rule::%s\n    ensures ({ let q = krun(%d, 0, nkids(n)); %s })\n{ gen_%s_%s(n, s); gen_small_%s(); assert forall|p: u64, c: u32| p < 63 implies #[trigger] cstep(chl(%d, p), c) == p by { }; lemma_krun(%d, 0, n.out); let q = run(%d, 0, n.out); assert(0x%x & (1u64 << q) != 0 ==> (%s)) by(bit_vector) requires q < 64; }"
                              % (fn, r, i, " || ".join("q == %d" % q for q in sorted(acc)), nm, r, nm, i, i, i, a, " || ".join("q == %d" % q for q in sorted(acc))))
    if lines:
        ix = {d.name: i for i, (d, _) in enumerate(dfas)}
        out.append("pub open spec fn com(d: int, q: u64) -> bool { %s }" % (" || ".join("(d == %d && %s)" % (ix[d.name], "(%s)" % " || ".join("q == %d" % q for q in d.coms)) for d in lines if d.coms) or "false"))
        out.append("pub open spec fn starts(r: Rule) -> bool { match r { %s => true, _ => false } }" % " | ".join("Rule::" + r for r in starts))
        proofs.append("proof fn gen_first(n: PNode, s: Str)\n    requires valid(n, s), starts(n.rule)\n    ensures has(2, run(D_first(), 0, fl(s, n.lo, n.hi)))\n{ match n.rule { %s _ => {} } }" % " ".join("Rule::%s => { gen_first_%s(n, s); }" % (r, r) for r in starts))
        for d, rules in [x for x in dfas if x[0] in lines]:
            i = ix[d.name]
            x = ix.get("x_" + d.name)
            if x is not None:
                fuel = 2 + max(len(c[0]) for e in (d, dfas[x][0]) for c in e.chars)
                proofs.append("proof fn gen_sim_%s()\n    ensures sim(%d, %d), !com(%d, 0)\n{ reveal_with_fuel(cstep, %d); }" % (d.name, i, x, i, fuel))
            for r, acc in rules.items():
                a = sum(bit(q) for q in acc)
                out.append("/// what lies between the parts of `%s`: states %s of %s\npub open spec fn L_%s(n: PNode, s: Str) -> bool { %s, 0x%x, n, s) }" % (
                    r, " ".join(d.names[q] for q in sorted(acc)), d.name, r, ("outlined(D_x_%s()" if x is not None else "outlined_all(D_%s()") % d.name, a))
                if x is not None:
                    proofs.append("/// what lies between the parts of `%s`\npub proof fn out_%s(n: PNode, s: Str)\n    requires valid(n, s), n.rule == Rule::%s\n    ensures L_%s(n, s)\n{ gen_%s_%s(n, s); gen_sim_%s(); lemma_valid(n, s); let q = run(%d, 0, n.out); assert(0x%x & (1u64 << q) != 0 ==> q < 63) by(bit_vector) requires q < 64; lemma_outline(%d, %d, n.out, s, n.lo, n.hi); }"
                                  % (r, r, r, r, d.name, r, d.name, i, a, i, x))
                else:
                    proofs.append("/// what lies between the parts of `%s`\npub proof fn out_%s(n: PNode, s: Str)\n    requires valid(n, s), n.rule == Rule::%s\n    ensures L_%s(n, s)\n{ gen_%s_%s(n, s); lemma_valid(n, s); let q = run(%d, 0, n.out); assert(0x%x & (1u64 << q) != 0 ==> q < 63) by(bit_vector) requires q < 64; lemma_outline_all(%d, n.out, s, n.lo, n.hi); }"
                                  % (r, r, r, r, d.name, r, i, a, i))
    head = "\n".join(out)
    head += "\npub open spec fn chl(d: int, q: u64) -> CL { %s else { CL::End(63) } }" % " else ".join(chl or ["if false { CL::End(63) }"])
    head += "\npub open spec fn flat(d: int) -> bool { %s }" % (" || ".join("d == %d" % i for i, (d, _) in enumerate(dfas) if d.flat) or "false")
    head += "\npub open spec fn nds(d: int, q: u64, r: Rule) -> u64 { %s else { 63 } }" % " else ".join(nds or ["if false { 63 }"])
    head += "\npub open spec fn tbl(d: int, r: Rule, at: bool, q: u64) -> u64 { %s else { u64::MAX } }" % " else ".join(tbl or ["if false { u64::MAX }"])
    return head, "\n".join(proofs)
