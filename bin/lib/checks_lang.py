"""C19 to C22: the languages in which expressions are written."""
from registry import check
from matching import *
import pools, itertools, copy
from fractions import Fraction

BINOPS = {"eq", "ne", "lt", "le", "gt", "ge", "like"}
BAD = {"o": "bad", "c": [], "s": []}


def num_codes(g):
    s, m = limbs(Fraction(g))
    return [s] + m


def node(e):
    """the expression which the library gave, as the records of the language specifications"""
    o = e["o"]

    def nd(o, c=(), s=()):
        return {"o": o, "c": list(c), "s": list(s)}
    if o in ("and", "or"):
        return nd(o, s=[node(x) for x in e["e"]])
    if o == "not":
        return nd("not", s=[node(e["e"])])
    if o in BINOPS:
        return nd(o, s=[node(e["l"]), node(e["r"])])
    if o in ("ex", "nex"):
        return nd(o, s=[node(e["l"])])
    if o in ("true", "false"):
        return nd(o)
    if o in ("any", "every", "anyevery"):
        return nd(o, [e["v"]], [node(e["l"]), node(e["b"])])
    if o == "f":
        return nd("f", [e["v"]] if e["v"] else [], [nd("seg", codes(p)) for p in e["p"]])
    if o == "fn":
        return nd(e["n"] if e["n"] else "unnamed", s=[node(x) for x in e["a"]])
    if o == "re":
        return nd("re", codes(e["s"]))
    if o == "time":
        return nd("time", e["c"])
    if o == "v":
        c = e["c"]
        t = c["t"]
        if t == "num":
            return nd("num", num_codes(c["g"]))
        if t in ("str", "bin"):
            return nd(t, c["c"])
        if t == "bool":
            return nd("vtrue" if c["b"] else "vfalse")
        if t == "null":
            return nd("null")
    return BAD


def run_large(ctx, module, kind, rng, n, limit, broken):
    import langs, scale
    texts = langs.large_texts(rng, kind, n, limit, broken) + langs.deep_texts(kind)
    run_lang(ctx, module, kind, "long texts", texts, minslice=8)
    if broken < 1:
        pairs = scale.wide(rng, 6) + scale.deep_ops(rng, 10) + scale.deep_paths(rng, 4) + scale.same_field(rng, 4) + scale.strings(rng, 12)
        langs.in_languages(ctx, rng, pairs, 40, kinds=(kind,))


def run_lang(ctx, module, kind, name, texts, minslice=100):
    cases = [{"op": "parse", "k": kind, "c": codes(t)} for t in texts]
    outs = ctx.run(cases)
    evs, idx = [], []
    for i, o in enumerate(outs):
        if o.get("skipped"):
            continue
        ctx.traces += 1
        p = o.get("p", "?")
        if kind == "json" and p == "C":
            p = "ok"      # a well-formed text of an expression with which nothing can be matched
        evs.append({"t": cases[i]["c"], "p": p, "e": node(o["e"]) if p == "ok" else BAD})
        idx.append(i)
    rej = ctx.validate(module, evs, name=name, minslice=minslice)
    for j in sorted(rej)[:40]:
        i = idx[j]
        o = outs[i]
        why = "%s %r -> %s %s %s; the specification: %s" % (kind, texts[i], o.get("p"), show_expr(o["e"]) if "e" in o else "", o.get("msg", ""), rej[j])
        ctx.violation({"op": "parse", "k": kind, "c": cases[i]["c"], "text": texts[i]}, o, why)
    if evs:
        k = len(evs) // 2
        ctx.sample({"text": texts[idx[k]][:300], "outcome": outs[idx[k]].get("p"), "expression": show_expr(outs[idx[k]]["e"])[:300]})
    return outs


# ---- texts of filter expressions, with the expressions they stand for ----

NAMES = ["a", "b", "cc", "d1", "_x", "NOT", "AND", "IS", "TRUE", "E", "ABS", "EXISTS", "META", "null", "Date", "\u00e9t\u00e9", "\u03a9", "or"]
RAWS = ["a", "a b", "x.y", "\"", "'", "=", "", "[0]", "\u65e5", "-", "(", "NOT", "TRUE", "a\\n", "/*"]
# quoted, these may be taken for the words and signs themselves (see known_findings.jsonl)
WORDS = {"AND", "TRUE", "NOT", "true", "(", "=", "-", "==", "IS", "]"}
FUNCS1 = {"ABS": "mathAbs", "ACOS": "mathAcos", "ASIN": "mathAsin", "ATAN": "mathAtan", "CEIL": "mathCeil", "COS": "mathCos",
          "DEGREES": "mathDegrees", "EXP": "mathExp", "FLOOR": "mathFloor", "LOG": "mathLog", "LN": "mathLn", "SIN": "mathSin",
          "TAN": "mathTan", "RADIANS": "mathRadians", "ROUND": "mathRound", "SQRT": "mathSqrt"}
FUNCS2 = {"ATAN2": "mathAtan2", "POW": "mathPow"}
MATHOPS = {"+": "mathAdd", "-": "mathSubract", "*": "mathMultiply", "/": "mathDivide", "%": "mathModulo"}
OPS = {"=": "eq", "==": "eq", "!=": "ne", "<>": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
STRINGS = ["", "a", "ab", "AND", "TRUE", "x y", "1", "it's", "say \"x\"", "\\", "\n", "\u00e9", "\U0001F600", "(", "//", "/*", "`", "2018-01-01", "-", "==",
           "NOT", "true", "\t", "%s", "]"]
REGEXES = ["a", "a.*b", "^a$", "[a-c]+", "(a|b)*c", "\\d+", "", "x?", "a+?", "[^0-9]"]
BADREGEXES = ["(", ")", "*a", "a**", "[a", "a(b", "a|*", "\\", "+", "(a))", "x++"]
DATES = ["2018", "2018-01", "2018-01-31", "2018-01-31T10:00:00Z", "2018-01-31T10:00:00.5+02:00", "1999", "2020-02-29"]
BADDATES = ["", "abcd", "2018-13", "2018-1-1", "20180101", "2018-01-31 10:00:00", "2018-01-31T10:00:00", "18", "2018-01-32", "2018-", "2018-00-10", "2018-10-00", "2018-00", "2018-01-31T24:00:00Z", "2018-01-31T10:60:00Z", "2018-01-31T10:00:60Z",
            "2019-02-29", "2018-02-30", "2018-04-31", "2018-01-31T10:00:00+25:00", "2018-01-31T10:00:00.Z", "2018-01-31t10:00:00z", " 2018", "2018 ", "02018", "2018/01/31", "2018-01-31T10:00:00,5Z", "2018-01-31T10:00:00.1234567891Z",
            "2018-02-31T10:00:00Z", "2100-02-29", "10000", "2018-01-31T1:00:00Z", "2018-01-31T10:00Z", "2018-01-31T10:00:00+0200"]


def go_quote(rng, t):
    """a string constant as it is written"""
    if len(t) > 1 and "'" not in t and '"' not in t and rng.random() < 0.4:
        q = "'"
    else:
        q = '"'
    out = q
    for ch in t:
        k = rng.random()
        if ch == q or ch == "\\":
            out += "\\" + ch
        elif ch == "\n":
            out += rng.choice(["\\n", "\\u000a", "\\x0a", "\\012"])
        elif ch == "\t":
            out += rng.choice(["\\t", "\t"])
        elif k < 0.04:
            out += "\\u%04x" % ord(ch) if ord(ch) < 0x10000 else "\\U%08x" % ord(ch)
        elif k < 0.06 and ord(ch) < 128:
            out += "\\x%02x" % ord(ch)
        else:
            out += ch
    return out + q


class FilterGen:
    """tokens of a random filter expression"""
    def __init__(self, rng, wild=True, depth=3, quoted=False):
        self.rng = rng
        self.quoted = quoted
        self.wild = wild
        self.depth = depth

    def name(self):
        r = self.rng
        if not self.wild:
            k = r.random()
            n = r.choice(["a", "b", "c", "d"])
            return "`%s`" % n if k < 0.15 else "'%s'" % n if k < 0.2 else n
        k = r.random()
        if k < 0.75:
            return r.choice(NAMES) if k < 0.3 else r.choice(NAMES[:4])
        if k < 0.93:
            return "`" + r.choice(RAWS if self.quoted else [x for x in RAWS if x not in WORDS]) + "`"
        return "'" + r.choice("axz9 ") + "'"

    def path(self):
        r = self.rng
        out = []
        for i in range(r.choice([1, 1, 1, 2, 2, 3])):
            if i:
                out.append(".")
            if r.random() < 0.06:
                out += ["META", "(", ")"]
            else:
                out.append(self.name())
            while r.random() < 0.15:
                out += ["[", str(r.choice([0, 1, 2, 10])), "]"]
        return out

    def signs(self):
        k = self.rng.random()
        return ["-"] * (0 if k < 0.8 else 1 if k < 0.97 else self.rng.choice([2, 3]))

    def field(self):
        return (self.signs() if self.rng.random() < 0.5 else []) + self.path()

    def number(self):
        r = self.rng
        if r.random() < 0.65:
            t = str(r.choice([0, 1, 2, 5, 10, 12, 123, 99999, 2147483648, 9007199254740993, 9223372036854775807, r.choice([1, 9223372036854775808, 18446744073709551616])]
                             if self.wild and r.random() < 0.3 else [0, 1, 2, 3, 5, 10]))
        else:
            t = r.choice(["0.5", "1.5", "2.", ".25", "1e3", "1.5E+2", "2e-3", "0.1", "3.14159", "123456.789", "1e15", "10.0", "0.0", "5e0"])
        return self.signs() + [t]

    def string(self):
        return [go_quote(self.rng, self.rng.choice(STRINGS if self.quoted else [x for x in STRINGS if x not in WORDS]))]

    def value(self):
        return self.number() if self.rng.random() < 0.6 else self.string()

    def fieldmath(self, r0=0.12):
        r = self.rng
        k = r.random()
        if k < 0.55:
            return self.field()
        if k < 0.55 + r0:
            return self.number() + [r.choice(list(MATHOPS))] + self.field()
        out = self.field()
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            out += [r.choice(list(MATHOPS))] + (self.number() if r.random() < 0.55 else self.field())
        return out

    def arg(self, d):
        r = self.rng
        k = r.random()
        if d > 0 and k < 0.3:
            return self.func(d - 1)
        return self.fieldmath() if k < 0.75 else self.value()

    def func(self, d):
        r = self.rng
        s = self.signs() if r.random() < 0.3 else []
        k = r.random()
        if k < 0.12:
            return s + [r.choice(["PI", "E"]), "(", ")"]
        if k < 0.7:
            return s + [r.choice(list(FUNCS1)), "("] + self.arg(d) + [")"]
        if k < 0.85:
            return s + [r.choice(list(FUNCS2)), "("] + self.arg(d) + [","] + self.arg(d) + [")"]
        if r.random() < 0.5:
            return s + ["DATE", "(", go_quote(r, r.choice(DATES)), ")"]
        return s + ["DATE", "("] + self.field() + [")"]

    def lhs(self):
        k = self.rng.random()
        return self.func(2) if k < 0.25 else self.fieldmath() if k < 0.85 else self.value()

    def rhs(self):
        k = self.rng.random()
        if k < 0.15:
            return self.func(2)
        if k < 0.25:
            return [self.rng.choice(["TRUE", "true", "FALSE", "false"])]
        return self.value() if k < 0.7 else self.fieldmath(r0=0.01)

    def operand(self):
        r = self.rng
        k = r.random()
        if k < 0.12:
            return [r.choice(["TRUE", "FALSE", "true", "false"])]
        if k < 0.18:
            return ["REGEXP_CONTAINS", "("] + self.arg(1) + [",", go_quote(r, r.choice(REGEXES)), ")"]
        if k < 0.26:
            return ["EXISTS", "("] + self.field() + [")"]
        if k < 0.4:
            return self.lhs() + ["IS"] + (["NOT"] if r.random() < 0.5 else []) + [r.choice(["NULL", "MISSING"])]
        return self.lhs() + [r.choice(list(OPS))] + self.rhs()

    def condition(self):
        return ["NOT"] * self.rng.choice([0, 0, 0, 0, 1, 1, 2]) + self.operand()

    def term(self, d):
        if d > 0 and self.rng.random() < 0.4:
            return ["("] + self.expr(d - 1) + [")"]
        return self.condition()

    def expr(self, d=None):
        r = self.rng
        if d is None:
            d = self.depth
        out = []
        for i in range(r.choice([1, 1, 2, 2, 3])):
            if i:
                out.append("OR")
            for j in range(r.choice([1, 1, 2, 2, 3])):
                if j:
                    out.append("AND")
                out += self.term(d)
        return out


def wordy(ch):
    return ch.isalnum() or ch == "_" or ch == "."


def join(rng, toks, blank=0.5):
    """the tokens as a text: blanks where they are needed and at random"""
    out = ""
    for t in toks:
        if out and t and (wordy(out[-1]) and wordy(t[0]) and t != "." and not (out[-1] == "." and not t[0].isdigit() and not out[-2:-1].isdigit())
                          or (out[-1] in "=<>!" and t[0] in "=<>!") or (out[-1] == "/" and t[0] in "/*")
                          or (t == "." and out[-1].isdigit() and re.search(r"(^|[^A-Za-z_\w])[\d.]+$", out))):
            out += rng.choice([" ", " ", "\n", "\t", " /* x */ "]) if rng.random() < 0.3 else " "
        elif rng.random() < blank:
            out += rng.choice([" ", " ", " ", "  ", "\t", "\n", "\r\n", "/**/" if out[-1:] != "/" else " ", " // AND\n"]) if rng.random() < 0.25 else " "
        out += t
    if rng.random() < 0.1:
        out = " " + out + "\n"
    return out


JUNK = ["(", ")", "AND", "OR", "NOT", "IS", "NULL", "MISSING", "TRUE", "EXISTS", "(", ")", ",", ".", "=", "<", "!", ">=", "<>", "=>", "=<", "!<", "+", "-", "*",
        "/", "%", "a", "1", "\"x\"", "`y`", "'z'", "ABS", "PI", "POW", "REGEXP_CONTAINS", "META", "DATE", "[", "]", "[1]", "and", "or", "not", "null", "LIKE",
        "ANY", "#", "$", "?", ";", "&&", "||", "{", "}", "~", "^", "\\", "@", "\"", "'", "`", "//", "/*", "*/", "1.2.3", "1e", "0x10", "07", "08", "1_0", "NaN",
        "\U0001F600", "FOO(", "UPPER(a)", "BETWEEN", "IN", "\"\\q\"", "\"\\x4\"", "\"\\u12\"", "'\\''", "IS NOT", "--", "a.b", "a..b", "a.", "-"]


def mutate_tokens(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.random()
        i = rng.randrange(len(toks)) if toks else 0
        if not toks or k < 0.25:
            toks.insert(i, rng.choice(JUNK))
        elif k < 0.5:
            del toks[i]
        elif k < 0.7:
            toks[i] = rng.choice(JUNK)
        elif k < 0.8:
            toks.insert(i, toks[i])
        elif k < 0.9:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k < 0.95:
            toks = toks[:i]
        else:
            toks = toks[i:]
    return toks


def mutate_text(rng, t):
    if not t:
        return t
    k = rng.random()
    i = rng.randrange(len(t))
    if k < 0.4:
        return t[:i] + t[i + 1:]
    if k < 0.7:
        return t[:i] + rng.choice("()\"'`\\.=<>!-+*/%,[] aE09_xANDOR\n\x00#") + t[i:]
    if k < 0.85:
        return t[:i]
    return t[:i] + rng.choice("()\"'`\\.=<>!-+*/%,[] aE09") + t[i + 1:]


def connective_texts(rng, n):
    """expressions whose only operators are AND, OR, NOT and parentheses"""
    def term(d):
        k = rng.random()
        if d > 0 and k < 0.5:
            return ["("] + expr(d - 1) + [")"]
        return ["NOT"] * rng.choice([0, 0, 1, 2]) + rng.choice([["TRUE"], ["FALSE"], ["a", "=", "1"], ["b", "IS", "NULL"], ["c", "<", "-", "2"]])

    def expr(d):
        out = []
        for i in range(rng.choice([1, 2, 3])):
            if i:
                out.append("OR")
            for j in range(rng.choice([1, 2, 3])):
                if j:
                    out.append("AND")
                out += term(d)
        return out
    return sized(lambda: join(rng, expr(rng.choice([1, 2, 3])), 0.3), rng, n)


def sized(make, rng, n):
    """texts of which most are short"""
    out = []
    while len(out) < n:
        t = make()
        if len(t) <= rng.choice([80, 160, 160, 300, 900]):
            out.append(t)
    return out


def all_sequences(alphabet, n):
    for k in range(1, n + 1):
        for c in itertools.product(alphabet, repeat=k):
            yield " ".join(c)


# filter expressions whose meaning on documents is judged: (text tokens, expression)

class MeantGen:
    """random filter expressions together with the expressions of Sem.tla which they mean"""
    def __init__(self, rng):
        self.rng = rng
        self.g = G.Gen(rng, loops=0, keys=["a", "b", "c", "d"])

    def field(self):
        r = self.rng
        p = [r.choice(self.g.keys) for _ in range(r.choice([1, 1, 2]))]
        toks = []
        path = []
        for i, k in enumerate(p):
            toks += (["."] if i else []) + [r.choice([k, k, "`%s`" % k])]
            path.append(k)
            if r.random() < 0.1:
                n = r.randint(0, 2)
                toks += ["[", str(n), "]"]
                path.append("[%d]" % n)
        return toks, G.f(path)

    def number(self):
        v = self.g.numconst()
        t = v["g"]
        if v.get("gt", v.get("k")) == "f" and not re.search("[.e]", t):
            t += ".0"
        return (["-", t[1:]] if t[0] == "-" else [t]), G.c(v)

    def math(self):
        """a sum of products in which * / % bind tighter"""
        r = self.rng
        toks, e = self.field()
        sums, ops = [e], []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            op = r.choice(list(MATHOPS))
            t, x = self.number() if r.random() < 0.6 else self.field()
            toks = toks + [op] + t
            if op in "+-":
                ops.append(op)
                sums.append(x)
            else:
                sums[-1] = G.fn(MATHOPS[op], sums[-1], x)
        e = sums[0]
        for op, x in zip(ops, sums[1:]):
            e = G.fn(MATHOPS[op], e, x)
        return toks, e

    def operand(self):
        r = self.rng
        if r.random() < 0.12:
            f = r.choice(["ABS", "CEIL", "FLOOR", "ROUND"])
            t, e = self.math()
            return [f, "("] + t + [")"], G.fn(FUNCS1[f], e)
        return self.math()

    def const(self):
        r = self.rng
        k = r.random()
        if k < 0.5:
            return self.number()
        if k < 0.85:
            s = r.choice([x for x in self.g.strs if x not in ("true", "TRUE")])
            return ['"%s"' % s], G.c(S(s))
        b = r.random() < 0.5
        return [r.choice(["TRUE", "true"] if b else ["FALSE", "false"])], G.c(TRUE if b else FALSE)

    def leaf(self):
        r = self.rng
        k = r.random()
        if k < 0.08:
            return [r.choice(["TRUE", "true"])], {"o": "true"}
        if k < 0.14:
            return [r.choice(["FALSE", "false"])], {"o": "false"}
        if k < 0.24:
            t, e = self.field()
            return ["EXISTS", "("] + t + [")"], {"o": "ex", "l": e}
        if k < 0.4:
            t, e = self.field()
            j = r.randrange(4)
            nul = G.cmp("eq", e, G.c(NULL))
            return t + ["IS"] + [["NULL"], ["NOT", "NULL"], ["MISSING"], ["NOT", "MISSING"]][j], [
                nul, {"o": "not", "e": nul}, {"o": "nex", "l": e}, {"o": "ex", "l": e}][j]
        if k < 0.46:
            t, e = self.field()
            x = G.rx(r)
            return ["REGEXP_CONTAINS", "("] + t + [",", json.dumps(x["s"]), ")"], {"o": "like", "l": e, "r": x}
        lt, l = self.operand()
        rt, rr = self.const() if r.random() < 0.75 else self.operand()
        o = r.choice(list(OPS))
        return lt + [o] + rt, G.cmp(OPS[o], l, rr)

    def condition(self):
        n = self.rng.choice([0, 0, 0, 1, 1, 2])
        t, e = self.leaf()
        for _ in range(n):
            t, e = ["NOT"] + t, {"o": "not", "e": e}
        return t, e

    def term(self, d):
        if d > 0 and self.rng.random() < 0.45:
            t, e = self.expr(d - 1)
            return ["("] + t + [")"], e
        return self.condition()

    def conj(self, d):
        xs = [self.term(d) for _ in range(self.rng.choice([1, 1, 2, 3]))]
        t = []
        for i, (x, _) in enumerate(xs):
            t += (["AND"] if i else []) + x
        return t, {"o": "and", "e": [e for _, e in xs]}

    def expr(self, d=2):
        xs = [self.conj(d) for _ in range(self.rng.choice([1, 2, 2, 3]))]
        t = []
        for i, (x, _) in enumerate(xs):
            t += (["OR"] if i else []) + x
        return t, {"o": "or", "e": [e for _, e in xs]}


def run_meant(ctx, name, kind, items):
    """items: (text, expression, documents): matching with what the text gives has to have the verdicts of the expression"""
    cases, pairs = [], []
    for t, e, docs in items:
        cases.append({"op": "parse", "k": kind, "c": codes(t), "docs": [b64(doc_bytes(d)) for d in docs], "es": [e]})
        pairs.append(([e], docs))
    outs = ctx.run(cases)
    for c, o in zip(cases, outs):
        o["c"] = o.get("m", "?") if o.get("p") == "ok" else o.get("p", "?")
        c["text"] = text_of(c["c"])
        for x in o.get("r", []):
            x["x"] = []
            if kind == "filter":
                x["st"] = x.get("st", 0)
    judge(ctx, pairs, cases, outs, name)


def meant_filters(rng, n):
    items = []
    for _ in range(n):
        m = MeantGen(rng)
        toks, e = m.expr(rng.choice([0, 1, 1, 2]))
        items.append((join(rng, toks, 0.4), e, [m.g.doc_for([e]) for _ in range(4)]))
    return items


def filter_texts(rng, n, quoted=False):
    return sized(lambda: join(rng, FilterGen(rng, depth=rng.choice([0, 1, 1, 2]), quoted=quoted).expr(), rng.choice([0.0, 0.5, 0.9])), rng, n)


@check
def C19(ctx, rnd):
    rng = ctx.rng("filter%d" % rnd)
    run_lang(ctx, "TraceFilter", "filter", "random filter expressions", filter_texts(rng, 2200))
    run_lang(ctx, "TraceFilter", "filter", "with quoted words", filter_texts(rng, 200, True))
    run_lang(ctx, "TraceFilter", "filter", "connectives", connective_texts(rng, 500))
    run_meant(ctx, "verdicts of filter expressions", "filter", meant_filters(rng, 900))
    run_large(ctx, "TraceFilter", "filter", rng, 20, 1500, 0)


@check
def C20(ctx, rnd):
    rng = ctx.rng("filter%d" % rnd)
    texts = []
    for _ in range(2500):
        g = FilterGen(rng, depth=rng.choice([0, 0, 1]), quoted=rng.random() < 0.1)
        toks = g.expr()
        if len(toks) > 60:
            continue
        if rng.random() < 0.75:
            texts.append(join(rng, mutate_tokens(rng, toks), rng.choice([0.2, 0.9])))
        else:
            texts.append(mutate_text(rng, join(rng, toks)))
    for r in BADREGEXES + REGEXES:
        texts.append("REGEXP_CONTAINS(a, %s)" % json.dumps(r))
        texts.append("a = 1 AND REGEXP_CONTAINS(`b`, %s) OR FALSE" % json.dumps(r))
    for d in BADDATES + DATES:
        texts.append('DATE("%s") = a' % d)
        texts.append('b < DATE("%s") OR a = 1' % d)
    run_lang(ctx, "TraceFilter", "filter", "near misses", texts)
    run_large(ctx, "TraceFilter", "filter", rng, 20, 1500, 1)
    if rnd == 0:
        words = ["a", "1", '"s"', "(", ")", "NOT", "AND", "=", "-", "TRUE", "IS", "NULL"]
        run_lang(ctx, "TraceFilter", "filter", "tables", filter_tables())
        run_lang(ctx, "TraceFilter", "filter", "all short sequences", list(all_sequences(words, ctx.scale(3, 4))))
        run_lang(ctx, "TraceFilter", "filter", "all short sequences of connectives", list(all_sequences(["TRUE", "a=1", "NOT", "AND", "OR", "(", ")"], ctx.scale(4, 5))))


def filter_tables():
    """every small way of being wrong: operators, calls, checks, escapes, numbers, brackets, characters"""
    out = []
    for n in (1, 2, 3):
        for op in itertools.product("=<>!", repeat=n):
            op = "".join(op)
            out += ["a %s 5" % op, "b IS NULL OR ABS(a)%s'xy'" % op] if n < 3 else ["a %s 5" % op]
    for op in ["~", "&", "|", "&&", "||", "^", "=~", "LIKE", "is", "in", "IN", "BETWEEN", "=!", "= =", "< =", "> =", "< >", "! =", "=-", "=+", "=/", ":", ":=", "<=>", "EQ", "CONTAINS"]:
        out += ["a %s 5" % op, "a %s \"x\"" % op]
    args = ["", "a", "1", '"x"', "a, b", "a, 1, 2", "a b", "(a)", "a,", ",a", "a = 1", "TRUE", "NOT a", "*"]
    for f in list(FUNCS1) + list(FUNCS2) + ["PI", "E", "DATE", "EXISTS", "REGEXP_CONTAINS", "META", "abs", "Abs", "FOO", "UPPER", "LENGTH", "POWER", "RAND", "SIGN", "MOD", "NOW", "AND", "NOT", "IS", "mathAbs"]:
        for x in args:
            out.append("%s(%s) = 1" % (f, x))
        out += ["%s = 1" % f, "%s() > 1" % f, "%s(a" % f, "%s a = 1" % f, "%s(a)) = 1" % f, "-%s(a) = 1" % f, "%s(a)" % f, "%s(a) IS NULL" % f, "1 < %s(a)" % f, "a = %s(b)" % f]
    for l in ["a", "1", '"x"', "ABS(a)", "TRUE", "a + 1", "1 + a", "(a)", ""]:
        for k in ["IS NULL", "IS NOT NULL", "IS MISSING", "IS NOT MISSING", "IS", "IS NOT", "IS TRUE", "IS NOT TRUE", "IS NULL NULL", "IS NOT NOT NULL", "NOT NULL", "NULL", "is null", "IS MISSING NOT",
                  "= NULL", "!= NULL", "= MISSING", "IS NULL = TRUE", "IS NOT", "ISNULL", "IS NOTNULL", "EXISTS"]:
            out.append("%s %s" % (l, k))
    for l in ["EXISTS(a)", "EXISTS(a.b[0])", "EXISTS a", "EXISTS", "EXISTS(1)", 'EXISTS("x")', "EXISTS(a, b)", "EXISTS(a = 1)", "EXISTS(a) = TRUE", "EXISTS(ABS(a))", "EXISTS(a + 1)", "NOT EXISTS(a)", "EXISTS(NOT a)", "EXISTS()",
              "EXISTS(-a)", "EXISTS(TRUE)", "EXISTS(META())", "EXISTS((a))"]:
        out.append(l)
    for x in ['a, "b"', "a, 'bb'", "a, b", "a, 1", '"a", "b"', "a", '"b"', 'a "b"', 'a, "b", "c"', 'ABS(a), "b"', 'a + 1, "b"', 'a, "(", "b"', 'a, "("', 'a, ""', "a, `b`", "a, TRUE", 'TRUE, "a"', 'a = 1, "b"', '1, "b"']:
        out += ["REGEXP_CONTAINS(%s)" % x, "REGEXP_CONTAINS(%s) = TRUE" % x, "NOT REGEXP_CONTAINS(%s) AND a = 1" % x]
    for i in range(32, 127):
        c = chr(i)
        out += ['a = "\\%s"' % c, "a = 'x\\%s'" % c, "%s" % c, "a%s= 1" % c, "a = %s1" % c, "a = 1%s" % c, "a = 1 %s b = 2" % c, '%s"x" = a' % c, "a = 1 OR %s" % c, "a.%s = 1" % c, "a[%s] = 1" % c, "(a = 1%s" % c]
    for n in ["0", "1", "00", "01", "1.", ".1", "1.5", "1.5.5", "1e5", "1e", "1e+", "1E-5", "e5", "1e5.5", "0x1f", "0b1", "0o7", "1_000", "+1", "-1", "--1", "---1", "- 1", "1 1", "-", "+", "1-1", "1a", "a1", "1.e5", ".e5", ".",
              "..", "1..2", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999", "Inf", "NaN", "-Inf", "1i", "1'", "1f", "1L", "1.0f", "1,000", "(1)", "1%", "#1", "\u0661"]:
        out += ["a = %s" % n, "a[%s] = 1" % n, "a + %s = 1" % n, "%s = a" % n, "ABS(%s) = a" % n, "a = 1 AND b < %s" % n]
    for p in ["()", "(", ")", "((a = 1))", "((a = 1)", "(a = 1))", "(a) = 1", "a = (1)", "(a = 1) = 1", "(a = 1) (b = 2)", "(a = 1)(b = 2)", "(a = 1) AND", "AND (a = 1)", "(a = 1 AND) b = 2", "NOT (a = 1)", "NOT((a = 1))",
              "(NOT a = 1)", "NOT NOT a = 1", "NOT", "a NOT = 1", "a = NOT 1", "a = 1 NOT", "a AND b", "a OR b", "a", "TRUE", "NOT TRUE", "TRUE FALSE", "TRUE AND", "OR TRUE", "TRUE OR OR FALSE", "TRUE AND AND FALSE", "TRUE AND OR FALSE",
              "TRUE, FALSE", "TRUE; FALSE", "TRUE && FALSE", "true or false", "true AND false", "True", "tRUE OR a = 1", "TRUE AND NOT (FALSE)", "(TRUE) OR (FALSE)", "a = 1 b = 2", "a = 1 = 2", "a < b < c", "1 = 1 = 1", "a = b = TRUE",
              "a = 1 AND b", "a = 1 OR b", "a + b", "a +", "+ a = 1", "a + + b = 1", "a - - b = 1", "a * / b = 1", "a = b +", "a = 1 + ", "(a + b) = 1", "(a + b) * c = 1", "a * (b + c) = 1", "ABS((a)) = 1", "ABS(a)(b) = 1", "ABS(a) + 1 = 2",
              "1 + ABS(a) = 2", "a + ABS(b) = 1", "ABS(a) + ABS(b) = 1", "a = ABS(b) + 1", "a..b = 1", ".a = 1", "a. = 1", "a.b. = 1", "a[ = 1", "a] = 1", "a[] = 1", "a[0 = 1", "a[[0]] = 1", "a[b] = 1", 'a["b"] = 1', "a[0.5] = 1", "a[-1] = 1",
              "a[1+1] = 1", "[0] = 1", "a.[0] = 1", "a[0]b = 1", "a[0].b = 1", "a[0][1] = 1", "`a = 1", "a` = 1", "``a`` = 1", "`a`b = 1", "`a``b` = 1", '"a = 1', 'a" = 1', "'a = 1", "a = '", 'a = "', 'a = "x" "y"', 'a = "x', 'a = x"',
              'a "=" 1', "", " ", "\n", "\t", "// a = 1", "/* a = 1 */", "/* a = 1", "a = 1 // b", "a = 1 /* b", "a /* b */ = 1", "a = 1 */", "a = 1 --", "a = 1 #", "a = 1;", ";", "a = $1", "$a = 1", "@a = 1", "a! = 1", "!a = 1", "!TRUE", "~TRUE",
              "META().id = 1", "META() = 1", "META = 1", "META(a) = 1", "META().id[0].x = 1", "meta().id = 1", "a.META() = 1", "META()META() = 1", "META().META().a = 1", "-META().a = 1", "`META()`.a = 1"]:
        out.append(p)
    return out


# ---- C22: the JSON forms ----

JBIN = {"eq": "equals", "ne": "notequals", "lt": "lessthan", "le": "lessequals", "gt": "greaterthan", "ge": "greaterequals", "like": "like"}
JUN = {"not": "not", "ex": "exists", "nex": "notexists"}
JLOOP = {"any": "anyin", "every": "everyin", "anyevery": "anyeveryin"}


class Raw:
    """a number as it is written"""
    def __init__(self, t):
        self.t = t


def json_form(e):
    o = e["o"]
    if o in ("and", "or"):
        return [o] + [json_form(x) for x in e["e"]]
    if o == "not":
        return ["not", json_form(e["e"])]
    if o in JUN:
        return [JUN[o], json_form(e["l"])]
    if o in JBIN:
        return [JBIN[o], json_form(e["l"]), json_form(e["r"])]
    if o in JLOOP:
        return [JLOOP[o], Raw(str(e["v"])), json_form(e["l"]), json_form(e["b"])]
    if o == "f":
        return ["field"] + ([Raw(str(e["v"]))] if e["v"] else []) + list(e["p"])
    if o == "fn":
        return ["func", e["n"]] + [json_form(x) for x in e["a"]]
    if o == "re":
        return ["regex", e["s"]]
    if o == "time":
        return ["time", text_of(e["c"])]
    c = e["c"]
    return ["value", Raw(c["g"]) if c["t"] == "num" else c["b"] if c["t"] == "bool" else None if c["t"] == "null" else text_of(c["c"])]


def json_str(rng, t, wild=0.05):
    out = '"'
    for ch in t:
        k = rng.random()
        if ch in '"\\':
            out += "\\" + ch
        elif ch < " ":
            out += {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f"}.get(ch, "\\u%04x" % ord(ch)) if k < 0.7 else "\\u%04X" % ord(ch)
        elif k < wild and ord(ch) < 0x10000:
            out += "\\u%04x" % ord(ch)
        elif k < wild and ord(ch) >= 0x10000:
            u = ord(ch) - 0x10000
            out += "\\u%04x\\u%04X" % (0xD800 + (u >> 10), 0xDC00 + (u & 1023))
        elif ch == "/" and k < 0.5:
            out += "\\/"
        else:
            out += ch
    return out + '"'


def json_text(rng, x, blank=0.1):
    def sp():
        return rng.choice([" ", "\n", "\t", "\r\n", "  "]) if rng.random() < blank else ""
    if isinstance(x, Raw):
        t = x.t
    elif x is None:
        t = "null"
    elif x is True:
        t = "true"
    elif x is False:
        t = "false"
    elif isinstance(x, str):
        t = json_str(rng, x)
    elif isinstance(x, dict):
        t = "{" + ",".join(sp() + json_str(rng, k) + sp() + ":" + json_text(rng, v, blank) for k, v in x.items()) + sp() + "}"
    else:
        t = "[" + ",".join(json_text(rng, v, blank) for v in x) + sp() + "]"
    return sp() + t + sp()


JNAMES = list(JBIN.values()) + list(JUN.values()) + list(JLOOP.values()) + ["and", "or", "value", "field", "func", "regex", "time"]
JFUNCS = list(FUNCS1.values()) + list(FUNCS2.values()) + list(MATHOPS.values()) + ["mathNegate", "date"]
JWRONG = ["", "AND", "equal", "Equals", "nott", "any", "every", "true", "false", "exist", "xor", "mathAbs", "value ", "lessThan", "fields", "pcre", "in"]
JWRONGF = ["", "mathabs", "ABS", "mathSubtract", "mathAdd ", "add", "mathPi", "abs", "equals", "Date", "mathSqr"]
JNUMS = ["0", "1", "-1", "2", "10", "0.5", "-2.5", "1e2", "1E-1", "123456789012", "1.5e+3", "-0", "9007199254740993", "1e400", "12345678.125"]


class JsonGen:
    """random JSON forms, not all of which make sense to match with"""
    def __init__(self, rng):
        self.rng = rng

    def sub(self, d):
        r = self.rng
        k = r.random()
        if d <= 0 or k < 0.15:
            j = r.random()
            if j < 0.4:
                return ["field"] + ([Raw(str(r.choice([0, 1, 2, 7, 256, 300, 65537, 1000001])))] if r.random() < 0.3 else []) + [r.choice(NAMES + RAWS) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if j < 0.8:
                v = r.random()
                return ["value", Raw(r.choice(JNUMS[:12])) if v < 0.4 else r.choice(STRINGS) if v < 0.75 else r.choice([True, False, None])]
            if j < 0.9:
                return ["regex", r.choice(REGEXES)]
            return ["time", r.choice(DATES)]
        if k < 0.3:
            return [r.choice(["and", "or"])] + [self.sub(d - 1) for _ in range(r.choice([1, 1, 2, 2, 3]))]
        if k < 0.42:
            return [r.choice(list(JUN.values())), self.sub(d - 1)]
        if k < 0.65:
            return [r.choice(list(JBIN.values())), self.sub(d - 1), self.sub(d - 1)]
        if k < 0.78:
            return [r.choice(list(JLOOP.values())), Raw(str(r.choice([1, 2, 3, 0, 255, 256, 257, 300, 65536, 65537, 1000001]))), self.sub(d - 1), self.sub(d - 1)]
        f = r.choice(JFUNCS)
        n = 2 if f in FUNCS2.values() or f in MATHOPS.values() else 1
        return ["func", f] + [self.sub(d - 1) for _ in range(n)]


def json_mutant(rng, x):
    """a JSON form with one thing wrong, or not"""
    x = copy.deepcopy(x)
    places = []

    def walk(y):
        if isinstance(y, list):
            places.append(y)
            for z in y:
                walk(z)
    walk(x)
    y = rng.choice(places)
    k = rng.random()
    i = rng.randrange(len(y)) if y else 0
    other = rng.choice([None, True, False, {}, {"a": []}, [], "x", "value", Raw("1"), Raw("-1"), Raw("1.5"), Raw("1e400"), [[]], ["value"], ["field"], [None], ["func"],
                        ["func", "mathAbs"], ["value", [Raw("1")]], ["value", {"a": None}], ["not"], ["or"], ["and"], [Raw("5")], ["anyin", Raw("1")],
                        ["regex", rng.choice(BADREGEXES)], ["time", rng.choice(BADDATES)], ["regex", Raw("1")], ["time", None]])
    if not y:
        y.append(other)
    elif k < 0.3:
        del y[i]
    elif k < 0.45:
        y.insert(i, other)
    elif k < 0.55:
        y.append(other)
    elif k < 0.75:
        y[i] = other
    elif k < 0.85:
        y[0] = rng.choice(JWRONG + JNAMES)
    elif k < 0.93 and y[0] == "func" and len(y) > 1:
        y[1] = rng.choice(JWRONGF + JFUNCS)
    else:
        y.insert(i, y[i])
    return x


def all_floats(e):
    """the expression with all numbers as floats, as JSON has no others"""
    if isinstance(e, list):
        return [all_floats(x) for x in e]
    if isinstance(e, dict):
        if e.get("t") == "num":
            return F(Fraction(e["g"]))
        return {k: all_floats(v) for k, v in e.items()}
    return e


@check
def C22(ctx, rnd):
    rng = ctx.rng("json%d" % rnd)
    texts = []
    for _ in range(1200):
        texts.append(json_text(rng, JsonGen(rng).sub(rng.choice([0, 1, 2, 3]))))
    run_lang(ctx, "TraceJsonLang", "json", "random forms", texts)
    texts = []
    for _ in range(1800):
        texts.append(json_text(rng, json_mutant(rng, JsonGen(rng).sub(rng.choice([1, 1, 2, 2, 3])))))
    for _ in range(500):
        t = json_text(rng, JsonGen(rng).sub(rng.choice([1, 2])))
        i = rng.randrange(len(t))
        k = rng.random()
        texts.append(t[:i] if k < 0.25 else t[:i] + t[i + 1:] if k < 0.5 else t[:i] + rng.choice('",[]{}:\\eE+-.0 1tnx\x01') + t[i + (k < 0.7):] if k < 0.95 else t + rng.choice("],} 0"))
    for r in REGEXES + BADREGEXES:
        texts.append(json_text(rng, ["like", ["field", "a"], ["regex", r]]))
    for d in DATES + BADDATES:
        texts.append(json_text(rng, ["equals", ["field", "a"], ["time", d]]))
    run_lang(ctx, "TraceJsonLang", "json", "forms with something wrong", texts)
    if rnd == 0:
        # each form with every number of arguments of each kind
        kinds = [["field", "a"], ["value", Raw("1")], "a", Raw("1"), None, True]
        texts = [json_text(rng, x, 0) for x in kinds] + ["", " ", "[[]]", "[]", "{}", "null", "[\"value\"]", "[[\"value\",1]]"]
        for n in JFUNCS + JWRONGF:
            for k in range(0, 4):
                texts.append(json_text(rng, ["func", n] + [["field", "a"]] * k, 0))
        for n in JNAMES + JWRONG:
            for k in range(0, 4):
                texts.append(json_text(rng, [n] + [["field", "a"]] * k, 0))
            if n in JLOOP.values():
                for k in range(0, 4):
                    texts.append(json_text(rng, [n, Raw("1")] + [["field", "a"]] * k, 0))
        must = len(texts)
        for n in JNAMES + JWRONG:
            for k in range(0, ctx.scale(3, 4) + 1):
                for args in itertools.product(kinds, repeat=k):
                    texts.append(json_text(rng, [n] + list(args), 0))
        for n in JFUNCS + JWRONGF:
            for k in range(0, 4):
                for args in itertools.product(kinds[:3], repeat=k):
                    texts.append(json_text(rng, ["func", n] + list(args), 0))
        if ctx.tier == "quick":
            texts = texts[:must] + rng.sample(texts[must:], 1800)
        run_lang(ctx, "TraceJsonLang", "json", "all small forms", texts)
    items = []
    for _ in range(400):
        g = G.Gen(rng, loops=0.25, bools=0.0)
        e = g.expr(rng.choice([1, 2, 3]))
        if "'true'" in repr(e) or "'false'" in repr(e) or "anynum" in repr(e):
            continue
        e = all_floats(e)
        items.append((json_text(rng, json_form(e)), e, [g.doc_for([e]) for _ in range(4)]))
    run_meant(ctx, "verdicts of JSON expressions", "json", items)
    run_large(ctx, "TraceJsonLang", "json", rng, 20, 800, 0.5)


# ---- C21: simple expressions ----

SNAMES = ["a", "b", "cc", "d1", "_x", "name", "ABS", "e", "\u00e9t\u00e9", "\u03a9", "PI", "true1", "ANDY", "note"]
SRAWS = ["a", "a b", "x.y", "=", "[0]", "-", "(", "NOT", "true", "AND", ")", "a(b", "f(x)", "&&", "\u65e5", "a'b", "1", "x||y", "$doc", " a", "a  b", "a b c", " "]
SSTRINGS = ["", "a", "ab", "x y", "1", "AND", "&&", "(", ")", "a == b", "true", "null", "it is (not) true", "\u00e9", "\U0001F600", "\\", "-", "a.b", "||", "`", "f(x)", "a)", "*", "2018-01-01", "x\\n", "[0]", " x", "x ", "a  b", "  ", " && ", "a\tb", "\n"]
SOPS = {"==": "eq", "=": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
SAND, SOR = ["&&", "AND"], ["||", "OR"]


class SimpleGen:
    def __init__(self, rng, wild=True):
        self.rng = rng
        self.wild = wild

    def path(self, args=False):
        r = self.rng
        out = ""
        for i in range(r.choice([1, 1, 1, 2, 3])):
            out += "." if i else ""
            if r.random() < 0.15:
                out += "`%s`" % r.choice([x for x in SRAWS if not args or not re.search(r"[ ,()]", x)])
            else:
                out += r.choice(SNAMES[:4]) if r.random() < 0.7 else r.choice([n for n in SNAMES])
            while r.random() < 0.12:
                out += "[%d]" % r.choice([0, 1, 2, 10])
        return out

    def number(self):
        r = self.rng
        return r.choice(["", "", "-"]) + r.choice(["0", "1", "2", "5", "10", "123", "99999", "9007199254740993", "9223372036854775807", "0.5", "1.5", "2.25", "10.0", "123456.789", "0.1"])

    def string(self, args=False):
        r = self.rng
        while True:
            t = r.choice(SSTRINGS)
            q = r.choice("'\"")
            if q not in t and not (args and re.search("[ ,()`'\"]", t)):
                return q + t + q

    def func(self, d):
        r = self.rng
        k = r.random()
        if k < 0.15:
            return 'DATE(%s)' % (self.path(True) if r.random() < 0.5 else '"%s"' % r.choice(DATES + BADDATES[:1] if r.random() < 0.95 else BADDATES))
        if k < 0.7:
            return "%s(%s)" % (r.choice(list(FUNCS1)), self.arg(d))
        return "%s(%s,%s)" % (r.choice(list(FUNCS2)), self.arg(d), self.arg(d))

    def arg(self, d):
        k = self.rng.random()
        if d > 0 and k < 0.35:
            return self.func(d - 1)
        return self.path(True) if k < 0.8 else self.number() if k < 0.93 else self.string(True)

    def cond(self):
        r = self.rng
        lhs = self.func(2) if r.random() < 0.2 else self.path()
        k = r.random()
        if k < 0.1:
            return [lhs, "EXISTS"]
        if k < 0.25:
            return [lhs, "IS"] + r.choice([["NULL"], ["NOT", "NULL"], ["MISSING"]])
        if k < 0.4:
            return [lhs] + r.choice([["LIKE"], ["NOT", "LIKE"], ["=~"]]) + [r.choice("\"'") and '"%s"' % r.choice(REGEXES[:6] + REGEXES[7:])]
        op = r.choice(list(SOPS))
        k = r.random()
        if k < 0.12 and op in ("==", "=", "!="):
            return [lhs, op, r.choice(["true", "false"])]
        return [lhs, op, self.number() if k < 0.5 else self.string() if k < 0.85 else self.func(1) if k < 0.95 else r.choice(["PI()", "E()"])]

    def operand(self, d):
        r = self.rng
        k = r.random()
        if d > 0 and k < 0.35:
            return ["("] + self.expr(d - 1) + [")"]
        if k > 0.95:
            return [r.choice(["true", "false"])]
        return self.cond()

    def expr(self, d):
        r = self.rng
        out = self.operand(d)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            out += [r.choice(r.choice([SAND, SOR]))] + self.operand(d)
        return out


SJUNK = ["(", ")", "&&", "||", "AND", "OR", "==", "=", "!=", "<", ">=", "=~", "LIKE", "NOT", "IS", "NULL", "MISSING", "EXISTS", "true", "false", "a", "1", "\"x\"", "'y'", "`z`",
         "ABS(a)", "FOO(a)", "ABS()", "POW(a)", "ABS(a", "POW(a,b)", "PI()", "=!", "===", "<>", "&", "|", "~", "!", "=>", "&&&", "`", "\"", "'", "-", "--1", "1.", ".5", "1e3", "a.", ".a",
         "a..b", "a[", "a]", "a[-1]", "[1]", "and", "or", "not", "is", "null", "#", "$doc", "$", "?", ",", ";", "{", "}", "DATE(\"x\")", "ABS(ABS(a)", "ABS(a))", "()", "(a", "a)", "1a", "007", "+1",
         "a+b", "a*2", "\\", "%", "@", "ABS(1", "AND(", "NOT(a==1)", "\U0001F600", "\t", "a(b)", "ABS(POW(a))", "EXP(\"", "POW(a,b", "TRUE", "FALSE"]


KEYWORDS = {"NULL", "MISSING", "EXISTS", "true", "false", "AND", "OR", "LIKE", "IS", "NOT"}


def sjoin(rng, toks, blank=0.5):
    """lexemes as a text: blanks may be left out beside parentheses and operators which are signs"""
    out = ""
    prev = ""
    for t in toks:
        if out:
            tight = (prev == "(" or t in "()" or (t[0] in "=<>!&|" and prev[-1] not in "\"'" and not prev[-1] in "=<>!&|~")
                     or (prev[-1] in "=<>!&|~" and t[0] not in "=<>!&|"))
            if prev == ")" and t != ")" or prev in KEYWORDS:
                tight = False
            if t == "(" and (prev[-1].isalnum() or prev[-1] in "_`\"'"):
                tight = False
            if t == ")" and prev[-1] in "=<>!&|~":
                tight = False
            if not tight or rng.random() < blank:
                out += " " if rng.random() < 0.95 else rng.choice(["  ", "\t", "\n", "\r\n"])
        out += t
        prev = t
    if rng.random() < 0.05:
        out = " " + out + " "
    return out


def simple_mutant(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.random()
        i = rng.randrange(len(toks)) if toks else 0
        if not toks or k < 0.25:
            toks.insert(i, rng.choice(SJUNK))
        elif k < 0.5:
            del toks[i]
        elif k < 0.7:
            toks[i] = rng.choice(SJUNK)
        elif k < 0.8:
            toks.insert(i, toks[i])
        elif k < 0.9:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k < 0.95:
            toks = toks[:i]
        else:
            toks = toks[i:]
    return toks


class SimpleMeant(MeantGen):
    def sleaf(self):
        r = self.rng
        k = r.random()
        if k < 0.05:
            b = r.random() < 0.5
            return [["false", "true"][b]], {"o": ["false", "true"][b]}
        if k < 0.2:
            t, e = self.sfield()
            return [t, "EXISTS"], {"o": "ex", "l": e}
        if k < 0.35:
            t, e = self.sfield()
            nul = G.cmp("eq", e, G.c(NULL))
            j = r.randrange(3)
            return [t, "IS"] + [["NULL"], ["NOT", "NULL"], ["MISSING"]][j], [nul, {"o": "not", "e": nul}, {"o": "nex", "l": e}][j]
        if k < 0.45:
            t, e = self.sfield()
            x = G.rx(r)
            while '"' in x["s"] or " " in x["s"] or x["s"] == "":
                x = G.rx(r)
            m = {"o": "like", "l": e, "r": x}
            return ([t, "LIKE", '"%s"' % x["s"]], m) if r.random() < 0.6 else ([t, "NOT", "LIKE", '"%s"' % x["s"]], {"o": "not", "e": m})
        t, e = self.sfield()
        if r.random() < 0.2:
            f = r.choice(["ABS", "CEIL", "FLOOR", "ROUND"])
            t, e = "%s(%s)" % (f, t), G.fn(FUNCS1[f], e)
        o = r.choice(list(SOPS))
        k = r.random()
        if k < 0.55:
            n, v = self.number()
            n = "".join(n)
            if re.search("[eE]", n):
                n, v = "3", G.c(I(3))
            return [t, o, n], G.cmp(SOPS[o], e, v)
        if k < 0.9 or o not in ("=", "==", "!="):
            s = r.choice([x for x in self.g.strs if not re.search("[\"'\\s]", x) and x])
            return [t, o, '"%s"' % s], G.cmp(SOPS[o], e, G.c(S(s)))
        b = r.random() < 0.5
        return [t, o, ["false", "true"][b]], G.cmp(SOPS[o], e, G.c(TRUE if b else FALSE))

    def sfield(self):
        t, e = self.field()
        return "".join(t), e

    def sexpr(self, d):
        r = self.rng

        def operand():
            if d > 0 and r.random() < 0.4:
                t, e = self.sexpr(d - 1)
                return (["("] + t + [")"], e) if len(t) > 1 else (t, e)
            return self.sleaf()
        n = r.choice([1, 2, 2, 3, 4])
        t, e = operand()
        while n == 1 and len(t) == 1:
            t, e = operand()
        for _ in range(n - 1):
            t2, e2 = operand()
            op = r.choice(["and", "or"])
            t, e = t + [r.choice(SAND if op == "and" else SOR)] + t2, {"o": op, "e": [e, e2]}
        return t, e


def simple_connectives(rng, n):
    def operand(d):
        if d > 0 and rng.random() < 0.5:
            return ["("] + expr(d - 1) + [")"]
        return rng.choice([["true"], ["false"], ["a", "==", "1"], ["b", "IS", "NULL"], ["c", "<", "-2"], ["d", "EXISTS"], ["`a b`", "!=", "'x y'"], ["a", "==", "ABS(b)"]])

    def expr(d):
        out = operand(d)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            out += [rng.choice(["&&", "||", "AND", "OR"])] + operand(d)
        return out
    return sized(lambda: sjoin(rng, expr(rng.choice([1, 2, 3])), 0.3), rng, n)


@check
def C21(ctx, rnd):
    rng = ctx.rng("simple%d" % rnd)
    g = SimpleGen(rng)
    run_lang(ctx, "TraceSimple", "simple", "random expressions", sized(lambda: sjoin(rng, g.expr(rng.choice([0, 1, 2])), rng.choice([0.0, 0.5, 0.9])), rng, 2200))
    run_lang(ctx, "TraceSimple", "simple", "connectives", simple_connectives(rng, 700))
    texts = []
    for _ in range(2200):
        toks = g.expr(rng.choice([0, 0, 1]))
        if rng.random() < 0.75:
            texts.append(sjoin(rng, [t for t in simple_mutant(rng, toks) if t], rng.choice([0.2, 0.9])))
        else:
            texts.append(mutate_text(rng, sjoin(rng, toks)))
    texts = [t for t in texts if len(t) < 300]
    for r in REGEXES + BADREGEXES:
        texts.append('a LIKE "%s"' % r)
        texts.append('a == 1 || b NOT LIKE "%s" && true' % r)
    for d in DATES + BADDATES:
        texts.append('DATE("%s") == a' % d)
        texts.append('a < DATE("%s") || b == 1' % d)
    run_lang(ctx, "TraceSimple", "simple", "near misses", texts)
    if rnd == 0:
        run_lang(ctx, "TraceSimple", "simple", "tables", simple_tables())
        words = ["a", "1", '"s"', "(", ")", "&&", "OR", "==", "LIKE", "NOT", "IS", "NULL", "EXISTS", "true"]
        run_lang(ctx, "TraceSimple", "simple", "all short sequences", list(all_sequences(words, ctx.scale(3, 4))))
        run_lang(ctx, "TraceSimple", "simple", "all short sequences of connectives", list(all_sequences(["true", "a==1", "b EXISTS", "&&", "||", "(", ")"], ctx.scale(4, 6))))
    items = []
    for _ in range(700):
        m = SimpleMeant(rng)
        toks, e = m.sexpr(rng.choice([0, 1, 2]))
        items.append((sjoin(rng, toks, 0.5), e, [m.g.doc_for([e]) for _ in range(4)]))
    run_meant(ctx, "verdicts of simple expressions", "simple", items)
    run_large(ctx, "TraceSimple", "simple", rng, 20, 1500, 0.5)


def simple_tables():
    """every small way of being wrong in a simple expression: operators, calls, checks, numbers, brackets, characters"""
    out = []
    for n in (1, 2, 3):
        for op in itertools.product("=<>!", repeat=n):
            op = "".join(op)
            out += ["a %s 5" % op, 'b IS NULL || ABS(a) %s "xy"' % op] if n < 3 else ["a %s 5" % op]
    for op in ["~", "&", "|", "&&", "||", "^", "=~", "LIKE", "is", "in", "IN", "BETWEEN", "=!", "= =", "< =", "> =", "< >", "! =", "=-", "=+", ":", ":=", "<=>", "~=", "EQ", "like", "NOT", "NOT NOT LIKE", "NOT =~", "IS NOT LIKE"]:
        out += ["a %s 5" % op, 'a %s "x"' % op, "a %s b" % op, "a %s true" % op]
    args = ["", "a", "1", '"x"', "a,b", "a,1,2", "a,1", "1,2", "a.b", "`a`", "-1", "1.5", "ABS(a)", "ABS(a),b", "POW(a,b)"]
    for f in list(FUNCS1) + list(FUNCS2) + ["PI", "E", "DATE", "abs", "Abs", "FOO", "UPPER", "POWER", "MOD", "mathAbs", "EXISTS", "AND"]:
        for x in args:
            out.append("%s(%s) == 1" % (f, x))
        out += ["%s == 1" % f, "%s() > 1" % f, "%s(a" % f, "%s(a)) == 1" % f, "%s(a)" % f, "%s(a) IS NULL" % f, "%s(a) EXISTS" % f, "a = %s(b)" % f, "a <= %s(b,c) && true" % f, 'a != %s("2018-01-01")' % f,
                "a > %s()" % f, '%s(a) LIKE "x"' % f, "true || %s(a) IS NOT MISSING" % f]
    for l in ["a", "1", '"x"', "ABS(a)", "true", "(a)", "`a b`", "a.b[1]", "NOT a", ""]:
        for k in ["IS NULL", "IS NOT NULL", "IS MISSING", "IS NOT MISSING", "IS", "IS NOT", "IS true", "IS NULL NULL", "IS NOT NOT NULL", "NOT NULL", "NULL", "is null", "IS NULL MISSING", "== NULL", "!= MISSING", "EXISTS", "NOT EXISTS",
                  "EXISTS EXISTS", "IS EXISTS", "EXISTS == true", "ISNULL", "LIKE", 'LIKE "x"', 'NOT LIKE "x"', "LIKE x", "LIKE 1", 'LIKE "("', 'NOT LIKE "["', 'LIKE ""', 'LIKE "x" "y"', 'LIKE NOT "x"', "LIKE true", '== "x"', "== 'x'", "=="]:
            out.append("%s %s" % (l, k))
    for i in range(32, 127):
        c = chr(i)
        out += ['a == "\\%s"' % c, "a == 'x%s'" % c, "%s" % c, "a%s== 1" % c, "a == %s1" % c, "a == 1%s" % c, "a == 1 %s b == 2" % c, "a == 1 && %s" % c, "a.%s == 1" % c, "a[%s] == 1" % c, "( a == 1%s" % c, "`%s` == 1" % c, 'a LIKE "%s"' % c]
    for n in ["0", "1", "00", "01", "1.", ".1", "1.5", "1.5.5", "1e5", "1e", "0x1f", "1_000", "+1", "-1", "--1", "- 1", "1 1", "-", "1-1", "1a", "a1", ".", "..", "1..2", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
              "18446744073709551615", "-0", "0.0", "-0.5", "00.5", "0.50", "Inf", "NaN", "1i", "1'", "1,000", "(1)", "#1", "\u0661"]:
        out += ["a == %s" % n, "a[%s] == 1" % n, "ABS(%s) == a" % n, "a == 1 && b < %s" % n, "%s == a" % n, "a < %s || true" % n]
    for p in ["()", "(", ")", "((a == 1))", "((a == 1)", "(a == 1))", "(a) == 1", "a == (1)", "(a == 1) == 1", "(a == 1) (b == 2)", "(a == 1) &&", "&& (a == 1)", "(a == 1 &&) b == 2", "NOT (a == 1)", "NOT a == 1", "NOT", "a NOT == 1",
              "a == 1 NOT", "a && b", "a", "true", "false", "NOT true", "true false", "true &&", "|| true", "true || || false", "true && && false", "true && || false", "true, false", "TRUE", "True", "true and false", "true AND false",
              "true OR false", "true & false", "true | false", "( true ) || ( false )", "a == 1 b == 2", "a == 1 == 2", "a < b < c", "1 == 1", "a == b", "a == b == true", "a == true", "a == false && true", "a < true", "a >= false",
              "(a == 1 || b == 2) && c == 3", "a == 1 || (b == 2 && c == 3)", "a == 1 || b == 2 && c == 3", "a == 1 && b == 2 || c == 3", "((true) && (false || true))", "a == 1 || true && b == 2 || false", "(a == 1", "a == 1)", ")a == 1(",
              "a..b == 1", ".a == 1", "a. == 1", "a[ == 1", "a] == 1", "a[] == 1", "a[0 == 1", "a[0.5] == 1", "a[-1] == 1", "[0] == 1", "a.[0] == 1", "a[0]b == 1", "a[0].b == 1", "a[0][1] == 1", "a[00] == 1", "`a == 1", "a` == 1", "``a`` == 1",
              "`` == 1", "`a`b == 1", "`a`.`b`[0] == 1", '"a == 1', "'a == 1", "a == '", 'a == "', 'a == "x" "y"', 'a == "x', 'a == x"', 'a == "x\'', "a == 'x\"y'", 'a == "x\'y"', "", " ", "\n", "\t", "a == 1 // b", "a == 1;", "a == $1", "$a == 1",
              "!a == 1", "!true", "~true", "a == 1 =", "a == 1 &&& b == 2", "a==1", "a==1&&b==2", "(a==1)", "a == 1\n&& b == 2", "a\t== 1", "  a == 1  ", "a == \"(\"", "a == \")\" && (b == 1)", "a == \"&&\" || b == ' || '", "`(` == 1", "`)` EXISTS"]:
        out.append(p)
    return out
