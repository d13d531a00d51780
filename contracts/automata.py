"""Automata that the contracts of the parsing functions refer to: the order
and number of the pairs inside each pair."""
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from grammar import Dfa

K = [([], q) for q in range(63)]     # characters do not matter


def shape(name, *items, comments=True):
    """items in order, comments anywhere if so said: (rules, '1' | '?' | '*' | '2+')"""
    # a small NFA-free construction: state = (item, count) flattened
    states = [(0, 0)]
    trans, acc = {}, set()
    lo = {"1": 1, "?": 0, "*": 0, "2+": 2, "1+": 1}
    cap = {"1": 1, "?": 1, "*": 1, "2+": 2, "1+": 1}
    many = {"1": False, "?": False, "*": True, "2+": True, "1+": True}
    def acc_of(i, c):
        return c >= lo[items[i][1]] and all(lo[k] == 0 for _, k in items[i + 1:])
    todo = [(0, 0)]
    idx = {(0, 0): 0}
    while todo:
        st = todo.pop(0)
        i, c = st
        m = {"comment": st} if comments else {}
        done = set()
        for j in range(i, len(items)):
            rules, k = items[j]
            n = c if j == i else 0
            if n < cap[k] or many[k]:
                nx = (j, min(n + 1, cap[k]))
                for r in rules.split():
                    if r not in done:
                        m[r] = nx
                        done.add(r)
            if n < lo[k]:
                break
        for nx in m.values():
            if nx not in idx:
                idx[nx] = len(idx)
                todo.append(nx)
        trans[st] = m
    n = len(idx)
    nodes = [None] * n
    for st, q in idx.items():
        nodes[q] = ({r: idx[x] for r, x in trans[st].items()}, 63)
    d = Dfa(name, n, K[:n], nodes, True)
    d.needs = [r for rs, _ in items for r in rs.split()]
    return d, {q for st, q in idx.items() if acc_of(*st)}


def raw(name, n, chars, flat=True):
    d = Dfa(name, n, chars, [({}, 63)] * n, False, flat)
    return d


NL, BL = "\n\r", " \t"


class Outline:
    """What may lie between the parts (pairs) of a pair: characters and parts,
    state by state. Comments are parts here; the expanded automaton, which the
    properties are stated with, reads them as text (from '#' to the line's end)."""

    def __init__(self, name, keyword=""):
        self.name, self.ix, self.c, self.n, self.coms = name, {}, {}, {}, set()
        self.st("0")
        self.at = "0"
        for i, ch in enumerate(keyword):
            nx = "k%d" % (i + 1)
            self.ch(self.at, ch.lower() + ch.upper(), nx)
            self.at = nx

    def st(self, q):
        if q not in self.ix:
            self.ix[q] = len(self.ix)
            self.c[q], self.n[q] = [], {}
        return self.ix[q]

    def ch(self, qs, chars, t):
        self.st(t)
        for q in qs.split():
            self.st(q)
            for x in sorted(set(chars)):
                self.c[q].append((ord(x), ord(x), t))

    def nd(self, qs, rules, t):
        self.st(t)
        for q in qs.split():
            self.st(q)
            for r in rules.split():
                self.n[q][r] = t

    def com(self, q, t):
        """a comment leads from q to t; after it the line ends (the rest of t's
        transitions never happen and are only there for the approximation)"""
        self.nd(q, "comment", t)
        self.coms.add(t)

    def ws(self, frm, p):
        """arg_ws after the states frm; -> the states after it"""
        w, b, n, c = p + "W", p + "B", p + "N", p + "C"
        for q in (w, b, n, c):
            self.st(q)
        self.ch(frm + " " + w, BL, w)
        self.ch("%s %s %s %s" % (frm, w, n, c), "\\", b)
        self.ch(b, BL, b)
        self.ch(b, NL, n)
        self.ch(n, BL + NL, n)
        self.ch(c, NL + BL, n)
        self.com(n, c)
        self.com(c, c)
        return "%s %s %s" % (w, n, c)

    def build(self, acc, rules=None):
        """-> {name: (Dfa, rules), x_name: expanded}"""
        names = sorted(self.ix, key=self.ix.get)
        num = lambda l: [(a, b, self.ix[t]) for a, b, t in l]
        chars = [(num(self.c[q]), 63) for q in names]
        nodes = [({r: self.ix[t] for r, t in self.n[q].items()}, 63) for q in names]
        d = Dfa(self.name, len(names), chars, nodes)
        d.names = names
        d.needs = sorted({r for q in names for r in self.n[q]} | {"comment"})
        xc, xn = [], []
        for q in names:
            if q in self.coms:
                xc.append((num([(a, b, t) for a, b, t in self.c[q] if chr(a) in NL]), self.ix[q]))
                xn.append(({r: self.ix[t] for r, t in self.n[q].items() if r == "EOI"}, 63))
            else:
                m = dict(self.n[q])
                c = list(self.c[q])
                if "comment" in m:
                    c.append((35, 35, m.pop("comment")))
                xc.append((num(c), 63))
                xn.append(({r: self.ix[t] for r, t in m.items()}, 63))
        x = Dfa("x_" + self.name, len(names), xc, xn)
        x.names = names
        x.needs = d.needs
        d.coms = sorted(self.ix[q] for q in self.coms)
        a = {self.ix[q] for q in acc.split()}
        d.accept = a
        rl = (rules or self.name[2:]).split()
        return {self.name: (d, {r: a for r in rl}), "x_" + self.name: (x, {})}


def outlines():
    A = {}
    o = Outline("o_dockerfile")
    INS = "from run arg label copy entrypoint cmd env misc"
    o.ch("0", BL + NL, "0")
    o.nd("0", INS, "A")
    o.com("0", "C")
    o.ch("A", BL, "A")
    o.ch("A", NL, "0")
    o.ch("C", NL, "0")
    o.ch("C", BL, "A")
    o.nd("0 A C", "EOI", "E")
    A.update(o.build("E"))

    o = Outline("o_from", "from")
    w = o.ws(o.at + " F", "a")
    o.nd(w, "from_flag", "F")
    o.nd(w, "from_image", "I")
    w = o.ws("I", "b")
    o.ch(w, "aA", "as1")
    o.ch("as1", "sS", "as2")
    w = o.ws("as2", "c")
    o.nd(w, "from_alias", "L")
    A.update(o.build("I L"))
    o = Outline("o_copy", "copy")
    w = o.ws(o.at + " F", "a")
    o.nd(w, "copy_flag", "F")
    o.nd(w, "copy_pathspec", "P")
    w = o.ws("P", "b")
    o.nd(w, "copy_pathspec", "Q")
    w = o.ws("Q", "c")
    o.nd(w, "copy_pathspec", "Q")
    A.update(o.build("Q"))
    for f in ("from", "copy"):
        o = Outline("o_%s_flag" % f)
        o.ch("0", "-", "1")
        o.ch("1", "-", "2")
        o.nd("2", f + "_flag_name", "N")
        o.ch("N", "=", "E")
        o.nd("E", f + "_flag_value", "V")
        A.update(o.build("V"))
    o = Outline("o_arg", "arg")
    w = o.ws(o.at, "a")
    o.nd(w, "arg_name", "N")
    o.ch("N", "=", "E")
    o.nd("E", "arg_value arg_quoted_value", "V")
    A.update(o.build("N V"))
    for k, single, pair in (("label", "label_single", "label_pair"), ("env", "env_single env_pairs", "")):
        o = Outline("o_" + k, k)
        o.nd(o.at, single, "S")
        if pair:
            w = o.ws(o.at + " P", "a")
            o.nd(w, pair, "P")
            A.update(o.build("S P " + w))
        else:
            A.update(o.build("S"))
    o = Outline("o_env_pairs")
    w = o.ws("0 P", "a")
    o.nd(w, "env_pair", "P")
    A.update(o.build("P " + w))
    for k, a, b in (("label_pair", "label_quoted_name label_name", "label_quoted_value label_value"), ("env_pair", "env_name", "env_pair_quoted_value env_pair_value")):
        o = Outline("o_" + k)
        o.nd("0", a, "N")
        o.ch("N", "=", "E")
        o.nd("E", b, "V")
        A.update(o.build("V"))
    for k, a, b in (("label_single", "label_single_quoted_name label_single_name", "label_quoted_value label_value"), ("env_single", "env_name", "env_single_quoted_value env_single_value")):
        o = Outline("o_" + k)
        w = o.ws("0", "a")
        o.nd(w, a, "N")
        w = o.ws("N", "b")
        o.nd(w, b, "V")
        A.update(o.build("V"))
    for k in ("run", "cmd", "entrypoint"):
        o = Outline("o_" + k, k)
        w = o.ws(o.at, "a")
        o.nd(w, "%s_exec %s_shell" % (k, k), "V")
        A.update(o.build("V"))
    o = Outline("o_array")
    o.ch("0", "[", "O")
    w1 = o.ws("O", "a") + " O"
    o.nd(w1, "string", "S")
    w2 = o.ws("S", "b") + " S"
    o.ch(w2, ",", "K")
    w3 = o.ws("K", "c") + " K"
    o.nd(w3, "string", "S")
    o.ch(w1 + " " + w2 + " " + w3, "]", "E")
    A.update(o.build("E", "run_exec cmd_exec entrypoint_exec"))
    # shell text: the pieces are the comments and the fragments of text
    o = Outline("o_brk")
    for q in "0 b M L R K KR".split():
        if q != "0":
            o.st(q)
        o.ch(q, BL, "b")
        o.nd(q, "comment", "M")
        if q != "b":
            o.nd(q, "any_content", "T")
    o.ch("M", "\n", "L")
    o.ch("M", "\r", "R")
    o.ch("R", "\n", "L")
    o.ch("T", "\\", "B")
    o.ch("B", BL, "B")
    o.ch("B", "\n", "K")
    o.ch("B", "\r", "KR")
    o.ch("KR", "\n", "K")
    A.update(o.build("T M L R", "any_breakable"))
    o = Outline("o_shell")
    o.nd("0", "any_breakable", "V")
    A.update(o.build("V", "run_shell cmd_shell entrypoint_shell env_single_value misc_arguments"))
    o = Outline("o_misc")
    o.nd("0", "misc_instruction", "N")
    o.nd("N", "misc_arguments", "V")
    A.update(o.build("V"))
    return A


KEYWORDS = "from run arg label copy entrypoint cmd env".split()


def keyword(w):
    """w in any case, then a blank or a continuation, then anything"""
    n = len(w)
    c = [([(ord(x), ord(x), i + 1), (ord(x.upper()), ord(x.upper()), i + 1)], 63) for i, x in enumerate(w)]
    bl = [(32, 32), (9, 9)]
    c.append(([(a, b, n + 2) for a, b in bl] + [(92, 92, n + 1)], 63))
    c.append(([(a, b, n + 1) for a, b in bl] + [(10, 10, n + 2), (13, 13, n + 2)], 63))
    c.append(([], n + 2))
    d = raw("kw_" + w, n + 3, c)
    d.needs = [w]
    return d, {w: {n + 2}}


def automata():
    """name -> (Dfa, {rule: accepting states})"""
    A = {}

    def add(name, *items, **kw):
        rules = kw.pop("rules", name).split()
        d, acc = shape(name, *items, **kw)
        d.needs += rules
        A[name] = (d, {r: acc for r in rules})
    INS = "from run arg label copy entrypoint cmd env misc"
    add("dockerfile", (INS, "*"), ("EOI", "?"))
    add("from", ("from_flag", "*"), ("from_image", "1"), ("from_alias", "?"))
    add("from_flag", ("from_flag_name", "1"), ("from_flag_value", "1"), comments=False)
    add("arg", ("arg_name", "1"), ("arg_value arg_quoted_value", "?"))
    add("copy", ("copy_flag", "*"), ("copy_pathspec", "2+"))
    add("copy_flag", ("copy_flag_name", "1"), ("copy_flag_value", "1"), comments=False)
    add("label", ("label_pair label_single", "*"))
    add("lpair", ("label_name label_quoted_name label_single_name label_single_quoted_name", "1"), ("label_value label_quoted_value", "1"),
        rules="label_pair label_single")
    # the two kinds of label pairs, apart
    add("lp1", ("label_name label_quoted_name", "1"), ("label_value label_quoted_value", "1"), rules="label_pair")
    add("lp2", ("label_single_name label_single_quoted_name", "1"), ("label_value label_quoted_value", "1"), rules="label_single")
    add("env", ("env_single env_pairs", "1"), comments=False)
    add("env_single", ("env_name", "1"), ("env_single_value env_single_quoted_value", "1"))
    add("env_pairs", ("env_pair", "*"))
    add("env_pair", ("env_name", "1"), ("env_pair_value env_pair_quoted_value", "1"), comments=False)
    for r in ("run", "cmd", "entrypoint"):
        add(r, ("%s_exec %s_shell" % (r, r), "1"))
    add("array", ("string", "*"), rules="run_exec cmd_exec entrypoint_exec")
    add("misc", ("misc_instruction", "1"), ("misc_arguments", "1"), comments=False)
    # shell text: the pieces (state 2), or one any_breakable (state 1)
    outer = "run_shell cmd_shell entrypoint_shell env_single_value misc_arguments".split()
    d = Dfa("brk", 3, K[:3], [({"any_breakable": 1, "comment": 2, "any_content": 2}, 63), ({}, 63), ({"comment": 2, "any_content": 2}, 63)], True)
    d.needs = ["any_breakable", "comment", "any_content"] + outer
    A["brk"] = (d, dict([("any_breakable", {2})] + [(r, {1}) for r in outer]))
    # texts without a line feed
    A["nonl"] = (raw("nonl", 1, [([(10, 10, 63)], 0)]), {r: {0} for r in ("label_name", "label_single_name", "label_value")})
    # texts enclosed in double (3) or single (4) quotes
    A["encl"] = (raw("encl", 5, [([(34, 34, 1), (39, 39, 2)], 63), ([(34, 34, 3)], 1), ([(39, 39, 4)], 2), ([(34, 34, 3)], 1), ([(39, 39, 4)], 2)]),
                 {r: {3, 4} for r in ("env_pair_quoted_value", "env_single_quoted_value", "label_quoted_name", "label_single_quoted_name", "label_quoted_value")})
    # letters only
    A["alpha"] = (raw("alpha", 2, [([(65, 90, 1), (97, 122, 1)], 63), ([(65, 90, 1), (97, 122, 1)], 63)]), {"misc_instruction": {1}})
    # words: no blank and no line end (and no '=')
    end = [(9, 10, 63), (13, 13, 63), (32, 32, 63)]
    A["word"] = (raw("word", 2, [(end, 1)] * 2), {r: {1} for r in "from_image from_alias from_flag_value copy_flag_value copy_pathspec arg_value label_value env_pair_value".split()})
    A["eqword"] = (raw("eqword", 2, [(end + [(61, 61, 63)], 1)] * 2), {r: {1} for r in "label_name label_single_name".split()})
    al = [(48, 57, 1), (65, 90, 1), (95, 95, 1), (97, 122, 1)]
    A["ident"] = (raw("ident", 2, [(al, 63)] * 2), {r: {1} for r in "from_flag_name copy_flag_name arg_name env_name".split()})
    # quoted strings: a quote inside follows a backslash
    A["qstr"] = (raw("qstr", 9, [([(34, 34, 1), (39, 39, 5)], 63)] + [x for q, b in ((34, 0), (39, 4)) for x in (
        ([(q, q, b + 3), (92, 92, b + 2)], b + 1), ([(q, q, b + 4), (92, 92, b + 2)], b + 1), ([], 63), ([(q, q, b + 3), (92, 92, b + 2)], b + 1))]),
        {r: {3, 4, 7, 8} for r in "string arg_quoted_value label_quoted_name label_single_quoted_name label_quoted_value env_pair_quoted_value env_single_quoted_value".split()})
    # from '[' to ']'
    A["brack"] = (raw("brack", 3, [([(91, 91, 1)], 63), ([(93, 93, 2)], 1), ([(93, 93, 2)], 1)]), {r: {2} for r in "run_exec cmd_exec entrypoint_exec".split()})
    # text on one line
    A["line"] = (raw("line", 2, [([(10, 10, 63), (13, 13, 63)], 1)] * 2), {"any_content": {1}})
    for k in ("line", "nonl", "encl", "alpha", "word", "eqword", "ident", "qstr", "brack"):
        A[k][0].needs = list(A[k][1])
    A.update(outlines())
    for w in KEYWORDS:
        A["kw_" + w] = keyword(w)
    return A
