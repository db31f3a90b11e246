"""Expressions as texts of the three languages: what the other checks generate is also said in filter, simple and JSON
expressions where these can say it, and matching with what the parsers give has to have the verdicts of the expression."""
import re, copy
from fractions import Fraction
from values import *
import gen as G
import pools
from checks_lang import (FUNCS1, FUNCS2, MATHOPS, KEYWORDS, SAND, SOR, go_quote, join, sjoin, json_text, json_form, all_floats,
                         run_meant)

NAME1 = {v: k for k, v in FUNCS1.items()}
NAME2 = {v: k for k, v in FUNCS2.items()}
MOPS = {v: k for k, v in MATHOPS.items()}
OPS = {"eq": ["=", "=="], "ne": ["!=", "<>"], "lt": ["<"], "le": ["<="], "gt": [">"], "ge": [">="]}
SIMPLEOPS = {"eq": ["=", "=="], "ne": ["!="], "lt": ["<"], "le": ["<="], "gt": [">"], "ge": [">="]}
FWORDS = {"AND", "OR", "NOT", "TRUE", "FALSE", "true", "false", "IS", "NULL", "MISSING", "EXISTS", "META", "REGEXP_CONTAINS", "DATE", "PI", "E"} \
    | set(FUNCS1) | set(FUNCS2)
SIGNS = set("!%()*+,-./<=>[]") | {"==", "!=", "<>", "<=", ">="}
I64 = 2**63


class No(Exception):
    """the language cannot say it, or not in a way which is specified"""


def norm(e, floats=False):
    """the expression with constants of the types which the languages have"""
    if isinstance(e, list):
        return [norm(x, floats) for x in e]
    if not isinstance(e, dict):
        return e
    if e.get("t") == "num" and "g" in e:
        fr = Fraction(e["g"])
        if floats:
            if fr.denominator == 1 and Fraction(float(fr)) != fr:
                raise No
            return F(fr)
        if e["k"] == "f":
            return F(fr)
        if not -I64 < fr < I64:
            raise No
        return I(int(fr))
    if e.get("t") in ("inf", "nan", "bin", "arr", "obj"):
        raise No
    if e.get("o") == "time" and not floats:
        return G.fn("date", G.c({"t": "str", "c": list(e["c"])}))
    if e.get("o") == "re":
        return e
    return {k: norm(v, floats) if isinstance(v, (dict, list)) and k not in ("p", "c") or k == "c" and isinstance(v, dict) else v for k, v in e.items()}


def number(v):
    t = v["g"]
    if not re.fullmatch(r"-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?", t):
        raise No
    if v["k"] == "f" and not re.search("[.eE]", t):
        t += ".0"
    if v["k"] != "f" and re.search("[.eE]", t):
        raise No
    return (["-", t[1:]] if t[0] == "-" else [t])


def text(v):
    t = text_of(v["c"])
    if any(0xD800 <= ord(ch) < 0xE000 or ch == "\r" or ch == "\ufeff" or ch == "\ufffd" for ch in t):
        raise No
    return t


class Filter:
    def __init__(self, rng):
        self.rng = rng

    def name(self, n):
        if re.fullmatch("[A-Za-z_][A-Za-z0-9_]*", n):
            if n in FWORDS:
                raise No
            return n if self.rng.random() < 0.8 else "`" + n + "`"
        if "`" in n or n in SIGNS or n == "" or any(ord(ch) < 32 or 0xD800 <= ord(ch) < 0xE000 or ord(ch) in (0xFEFF, 0xFFFD) for ch in n) or re.match(r"\[\d+\]$", n):
            raise No
        return "`" + n + "`"

    def field(self, e):
        if e["o"] != "f" or e["v"] or not e["p"]:
            raise No
        out = []
        for i, n in enumerate(e["p"]):
            m = re.fullmatch(r"\[(0|[1-9]\d{0,8})\]", n)
            if m and i:
                out += ["[", m.group(1), "]"]
            elif m:
                raise No
            else:
                out += ([".", self.name(n)] if i else [self.name(n)])
        return out

    def string(self, v):
        t = text(v)
        if t in FWORDS or t in SIGNS or any((ord(ch) < 32 or ord(ch) == 127) and ch not in "\n\t" for ch in t):
            raise No
        return [go_quote(self.rng, t)]

    def value(self, e):
        v = e["c"]
        if v["t"] == "num":
            return number(v)
        if v["t"] == "str":
            return self.string(v)
        raise No

    def mathleaf(self, e):
        if e["o"] == "v" and e["c"]["t"] == "num":
            return number(e["c"])
        if e["o"] == "fn" and e["n"] == "mathNegate" and e["a"][0]["o"] == "f":
            return ["-"] + self.field(e["a"][0])
        return self.field(e)

    def chain(self, e, prod=False, first=True):
        """the tokens of a sum of products, and whether it starts with a number"""
        if e["o"] == "fn" and e["n"] in MOPS:
            op = MOPS[e["n"]]
            if op in "+-":
                if prod:
                    raise No
                return self.chain(e["a"][0]) + [op] + self.chain(e["a"][1], True, False)
            if not first and not prod:
                raise No
            return self.chain(e["a"][0], True, first) + [op] + self.mathleaf(e["a"][1])
        if first and e["o"] == "v":
            raise No
        return self.mathleaf(e)

    def fieldmath(self, e):
        if e["o"] == "fn" and e["n"] in MOPS and e["a"][0]["o"] == "v" and e["a"][0]["c"]["t"] == "num":
            if e["a"][1]["o"] == "v" or e["a"][1]["o"] == "fn" and e["a"][1]["n"] != "mathNegate":
                raise No
            return number(e["a"][0]["c"]) + [MOPS[e["n"]]] + self.mathleaf(e["a"][1])
        return self.chain(e)

    def func(self, e):
        if e["n"] == "mathNegate":
            if e["a"][0]["o"] != "fn" or e["a"][0]["n"] == "mathNegate":
                raise No
            return ["-"] + self.func(e["a"][0])
        if e["n"] == "date":
            a = e["a"][0]
            if a["o"] == "v":
                if a["c"]["t"] != "str" or not pools.valid_const(text_of(a["c"]["c"])):
                    raise No
                return ["DATE", "("] + self.value(a) + [")"]
            return ["DATE", "("] + self.field(a) + [")"]
        if e["n"] in NAME1:
            return [NAME1[e["n"]], "("] + self.arg(e["a"][0]) + [")"]
        if e["n"] in NAME2:
            return [NAME2[e["n"]], "("] + self.arg(e["a"][0]) + [","] + self.arg(e["a"][1]) + [")"]
        raise No

    def arg(self, e):
        if e["o"] == "v":
            return self.value(e)
        if e["o"] == "fn" and (e["n"] in NAME1 or e["n"] in NAME2 or e["n"] == "date" or e["n"] == "mathNegate" and e["a"][0]["o"] == "fn"):
            return self.func(e)
        return self.fieldmath(e)

    def operand(self, e, left):
        if e["o"] == "v" and e["c"]["t"] == "bool":
            if left:
                raise No
            return ["TRUE" if e["c"]["b"] else "FALSE"] if self.rng.random() < 0.5 else ["true" if e["c"]["b"] else "false"]
        if not left and e["o"] == "fn" and e["n"] in MOPS and e["a"][0]["o"] == "v":
            raise No
        return self.arg(e)

    def leaf(self, e):
        o = e["o"]
        r = self.rng
        if o in ("true", "false"):
            return [o.upper() if r.random() < 0.5 else o]
        if o == "ex":
            return ["EXISTS", "("] + self.field(e["l"]) + [")"] if r.random() < 0.6 else self.field(e["l"]) + ["IS", "NOT", "MISSING"]
        if o == "nex":
            return self.field(e["l"]) + ["IS", "MISSING"]
        if o == "like":
            t = {"c": codes(e["r"]["s"])}
            if e["l"]["o"] == "v" and e["l"]["c"]["t"] != "str":
                raise No
            return ["REGEXP_CONTAINS", "("] + self.arg(e["l"]) + [","] + self.string(t) + [")"]
        if e["r"]["o"] == "v" and e["r"]["c"]["t"] == "null":
            if o not in ("eq", "ne") or e["l"]["o"] == "v":
                raise No
            return self.arg(e["l"]) + (["IS", "NULL"] if o == "eq" else ["IS", "NOT", "NULL"])
        return self.operand(e["l"], True) + [r.choice(OPS[o])] + self.operand(e["r"], False)

    def cond(self, e):
        if e["o"] == "not":
            return ["NOT"] + self.cond(e["e"])
        if e["o"] in ("and", "or", "any", "every", "anyevery"):
            raise No
        return self.leaf(e)

    def expr(self, e, prec=0):
        o = e["o"]
        if o in ("and", "or"):
            if not e["e"]:
                raise No
            if len(e["e"]) == 1:
                return self.expr(e["e"][0], prec)
            out = []
            for i, x in enumerate(e["e"]):
                out += ([o.upper()] if i else []) + self.expr(x, 1 if o == "or" else 2)
            if prec > (0 if o == "or" else 1) or self.rng.random() < 0.15:
                return ["("] + out + [")"]
            return out
        if o in ("any", "every", "anyevery"):
            raise No
        t = self.cond(e)
        return ["("] + t + [")"] if self.rng.random() < 0.08 else t

    def say(self, e):
        return join(self.rng, self.expr(e), self.rng.choice([0.0, 0.3, 0.9]))


class Simple:
    def __init__(self, rng):
        self.rng = rng

    def field(self, e, arg=False):
        if e["o"] != "f" or e["v"] or not e["p"]:
            raise No
        out = ""
        for i, n in enumerate(e["p"]):
            m = re.fullmatch(r"\[(0|[1-9]\d{0,8})\]", n)
            if m and i:
                out += n
                continue
            if m or n == "" or n in KEYWORDS or n in FUNCS1 or n in FUNCS2 or n in ("PI", "E", "DATE", "TRUE", "FALSE", "META"):
                raise No
            if re.fullmatch("[A-Za-z_][A-Za-z0-9_]*", n):
                out += ("." if i else "") + (n if self.rng.random() < 0.85 else "`%s`" % n)
            elif "`" in n or not re.fullmatch(r"[\w .#@/:-]*[A-Za-z][\w .#@/:-]*", n) or n != n.strip() or arg and re.search(r"[ ,()'\"]", n):
                raise No
            else:
                out += ("." if i else "") + "`%s`" % n
        return out

    def number(self, v):
        t = "".join(number(v))
        if re.search("[eE]", t):
            raise No
        return t

    def string(self, v, arg=False):
        t = text(v)
        qs = [q for q in "\"'" if q not in t]
        if not qs or any(ord(ch) < 32 for ch in t) or arg and re.search("[ ,()`'\"]", t):
            raise No
        q = self.rng.choice(qs)
        return q + t + q

    def func(self, e):
        if e["o"] != "fn":
            raise No
        n = e["n"]
        if n == "date":
            a = e["a"][0]
            if a["o"] == "v":
                if a["c"]["t"] != "str" or not pools.valid_const(text_of(a["c"]["c"])):
                    raise No
                return "DATE(%s)" % self.string(a["c"])
            return "DATE(%s)" % self.field(a, True)
        if n in NAME1:
            return "%s(%s)" % (NAME1[n], self.arg(e["a"][0]))
        if n in NAME2:
            return "%s(%s,%s)" % (NAME2[n], self.arg(e["a"][0]), self.arg(e["a"][1]))
        raise No

    def arg(self, e):
        if e["o"] == "fn":
            return self.func(e)
        if e["o"] == "v":
            if e["c"]["t"] == "num":
                return self.number(e["c"])
            if e["c"]["t"] == "str":
                return self.string(e["c"], True)
            raise No
        return self.field(e, True)

    def lhs(self, e):
        return self.func(e) if e["o"] == "fn" else self.field(e)

    def leaf(self, e):
        o = e["o"]
        if o in ("true", "false"):
            return [o]
        if o == "ex":
            return [self.field(e["l"]), "EXISTS"]
        if o == "nex":
            return [self.field(e["l"]), "IS", "MISSING"]
        if o == "not":
            if e["e"]["o"] == "like":
                t = self.leaf(e["e"])
                if t[1] != "LIKE":
                    t[1] = "LIKE"
                return [t[0], "NOT"] + t[1:]
            if e["e"]["o"] == "eq" and e["e"]["r"]["o"] == "v" and e["e"]["r"]["c"]["t"] == "null":
                return [self.lhs(e["e"]["l"]), "IS", "NOT", "NULL"]
            raise No
        if o == "like":
            if e["r"]["s"] == "":
                raise No
            return [self.lhs(e["l"]), self.rng.choice(["LIKE", "LIKE", "=~"]), self.string({"c": codes(e["r"]["s"])})]
        if o not in SIMPLEOPS:
            raise No
        r = e["r"]
        if r["o"] == "v" and r["c"]["t"] == "null":
            if o not in ("eq", "ne"):
                raise No
            return [self.lhs(e["l"]), "IS"] + (["NULL"] if o == "eq" else ["NOT", "NULL"])
        if r["o"] == "v" and r["c"]["t"] == "bool":
            if o not in ("eq", "ne"):
                raise No
            rt = "true" if r["c"]["b"] else "false"
        elif r["o"] == "v":
            rt = self.number(r["c"]) if r["c"]["t"] == "num" else self.string(r["c"])
        elif r["o"] == "fn":
            rt = self.func(r)
        else:
            raise No
        return [self.lhs(e["l"]), self.rng.choice(SIMPLEOPS[o]), rt]

    def expr(self, e):
        o = e["o"]
        if o in ("and", "or"):
            if not e["e"]:
                raise No
            if len(e["e"]) == 1:
                return self.expr(e["e"][0])
            out = []
            for i, x in enumerate(e["e"]):
                t = self.expr(x)
                if len(t) > 1 and any(w in SAND + SOR for w in t):
                    t = ["("] + t + [")"]
                out += ([self.rng.choice(SAND if o == "and" else SOR)] if i else []) + t
            return out
        return self.leaf(e)

    def say(self, e):
        t = self.expr(e)
        if len(t) == 1:
            raise No
        return sjoin(self.rng, t, self.rng.choice([0.2, 0.9]))


def say(kind, rng, e):
    """(text, expression as the text has it); No if the language cannot"""
    x = norm(copy.deepcopy(e), kind == "json")
    if kind == "filter":
        return Filter(rng).say(x), x
    if kind == "simple":
        return Simple(rng).say(x), x
    if "'true'" in repr(x) or "'false'" in repr(x) or "anynum" in repr(x):
        raise No
    return json_text(rng, json_form(x)), x


def plain_docs(docs):
    return [d for d in docs if not isinstance(d, tuple)] + [d[0] for d in docs if isinstance(d, tuple) and "t" in d[0]]


def in_languages(ctx, rng, pairs, n=300, kinds=("filter", "simple", "json"), single=True):
    """the expressions of pairs, as far as they can be said, in each language, on their documents"""
    for kind in kinds:
        items = []
        order = list(range(len(pairs)))
        rng.shuffle(order)
        for i in order:
            if len(items) >= n:
                break
            es, docs = pairs[i]
            docs = [d for d in plain_docs(docs) if d.get("t") == "obj"][:6]
            if not docs:
                continue
            for e in rng.sample(es, min(len(es), 3)):
                try:
                    t, x = say(kind, rng, e)
                except No:
                    continue
                items.append((t, x, docs))
        if items:
            run_meant(ctx, "as %s expressions" % kind, kind, items)


def deep_texts(kind):
    """brackets, functions, paths and signs which are nested or repeated"""
    out = []
    for d in (5, 12, 25, 40):
        if kind == "filter":
            out += ["(" * d + "a = 1" + ")" * d, "(" * d + "a = 1" + ")" * (d - 1), "(" * d + "a = 1" + ")" * (d + 1), "NOT " * d + "a = 1", "NOT " * (d + 1) + "a = 1",
                    "ABS(" * d + "a" + ")" * d + " = 1", "ABS(" * d + "a" + ")" * (d - 1) + " = 1", "a" + ".b" * d + " = 1", "a" + "[1]" * d + " = 1", "a" + " + b" * d + " = 1",
                    "a" + " - 1 * c" * d + " = 1", "(a = 1 OR " * d + "TRUE" + ")" * d, "(" * d + "TRUE" + " AND a = 1)" * d, "- " * d + "a = 1", "a = " + "-" * d + "1",
                    "(" * (d // 2) + "a = 1" + ")" * (d // 2) + " AND " + "(" * d + "b = 1" + ")" * d, "a" + "." * 2 + "b" * d + " = 1", "a = " + "1" * d, "a = 0." + "1" * d,
                    "POW(" * d + "a" + ", 2)" * d + " > 1"]
        elif kind == "simple":
            out += ["(" * d + "a == 1" + ")" * d, "(" * d + "a == 1" + ")" * (d - 1), "(" * d + "a == 1" + ")" * (d + 1), "ABS(" * d + "a" + ")" * d + " == 1",
                    "ABS(" * d + "a" + ")" * (d - 1) + " == 1", "a" + ".b" * d + " == 1", "a" + "[1]" * d + " == 1", "(a == 1 || " * d + "true" + ")" * d,
                    "(" * d + "true" + " && a == 1)" * d, "(" * (d // 2) + "a == 1" + ")" * (d // 2) + " && " + "(" * d + "b == 1" + ")" * d, "POW(" * d + "a" + ",2)" * d + " > 1",
                    "a == " + "1" * d, "a == 0." + "1" * d]
        else:
            one = '["equals",["field","a"],["value",1]]'
            out += ['["not",' * d + one + "]" * d, '["and",' * d + one + "]" * d, '["not",' * d + one + "]" * (d - 1), '["not",' * d + one + "]" * (d + 1),
                    '["equals",' + '["func","mathAbs",' * d + '["field","a"]' + "]" * d + ',["value",1]]', '["exists",["field"%s]]' % (',"b"' * d),
                    '["or",%s]' % ",".join(['["exists",["field","a"]]'] * d), '["anyin",1,["field","a"],' + '["anyin",2,["field",1],' * d + one + "]" * d + "]"]
    return out


def large_texts(rng, kind, n, limit, broken=0.4):
    """long expressions, and such with something wrong, mostly near the end"""
    import scale
    out = []
    pairs = scale.wide(rng, n) + scale.deep_ops(rng, n) + scale.deep_paths(rng, n // 2) + scale.same_field(rng, n // 2)
    for es, _ in pairs:
        e = rng.choice(es)
        w = 0
        for x in pools.walk(e):
            if x["o"] in ("and", "or"):
                w = max(w, len(x["e"]))
        if kind == "simple" and w > 60:
            e["e"] = e["e"][:60] if "e" in e and isinstance(e["e"], list) else e["e"]
        try:
            t, _ = say(kind, rng, e)
        except No:
            continue
        if len(t) > limit:
            continue
        if rng.random() < broken:
            i = len(t) - 1 - rng.randrange(min(len(t), rng.choice([1, 5, 30, 300])))
            k = rng.random()
            if k < 0.35:
                t = t[:i]
            elif k < 0.6:
                t = t[:i] + t[i + 1:]
            elif k < 0.8:
                t = t + rng.choice([" AND", ")", " x", " 1", "]", ",", " TRUE", " && ", " OR OR a = 1", " )", "\"", " ("])
            else:
                t = t[:i] + rng.choice("()\"'`=<]},.") + t[i:]
        out.append(t)
    return out
