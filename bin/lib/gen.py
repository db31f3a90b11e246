"""Seeded generators of expressions and documents."""
from fractions import Fraction
from values import *


def f(path, v=0):
    return {"o": "f", "v": v, "p": list(path)}


def c(v):
    return {"o": "v", "c": v}


def cmp(o, l, r):
    return {"o": o, "l": l, "r": r}


def fn(n, *a):
    return {"o": "fn", "n": n, "a": list(a)}


CMPS = ["eq", "ne", "lt", "le", "gt", "ge"]
LOOPS = ["any", "every", "anyevery"]

# ---- regular expressions: AST for TLC, text for Go ----


def rx_text(r, prec=0):
    o = r["o"]
    if "text" in r:
        return r["text"]
    if o == "emp":
        return "(?:)"
    if o == "chr":
        ch = chr(r["c"])
        return "\\" + ch if ch in "\\.+*?()|[]{}^$" else ch
    if o == "any":
        return "."
    if o == "cls":
        def one(x):
            ch = chr(x)
            return "\\" + ch if ch in "\\]^-[" else ch
        return "[" + ("^" if r["neg"] else "") + "".join(
            one(a) if a == b else one(a) + "-" + one(b) for a, b in r["s"]) + "]"
    if o == "bol":
        return "^"
    if o == "eol":
        return "$"
    if o == "cat":
        t = "".join(rx_text(x, 1) for x in r["e"])
        return "(?:" + t + ")" if prec > 1 else t
    if o == "alt":
        t = "|".join(rx_text(x, 1) for x in r["e"])
        return "(" + t + ")" if prec > 0 else t
    suf = {"star": "*", "plus": "+", "opt": "?"}[o]
    return rx_text(r["e"], 2) + suf


DIGIT, WORD, BLANK = [[48, 57]], [[48, 57], [65, 90], [95, 95], [97, 122]], [[9, 10], [12, 13], [32, 32]]
CLASSES = [("\\d", DIGIT, False), ("\\D", DIGIT, True), ("\\w", WORD, False), ("\\W", WORD, True), ("\\s", BLANK, False), ("\\S", BLANK, True),
           ("[[:alpha:]]", [[65, 90], [97, 122]], False), ("[^[:digit:]]", DIGIT, True), ("(?s:.)", [], True), ("[\\d_]", DIGIT + [[95, 95]], False),
           ("[^\\w-]", WORD + [[45, 45]], True), ("\\x{e9}", [[233, 233]], False), ("\\x41", [[65, 65]], False), ("\\n", [[10, 10]], False),
           ("\\t", [[9, 9]], False), ("(?i:b)", [[66, 66], [98, 98]], False), ("(?i:[a-c])", [[65, 67], [97, 99]], False), ("[a-cx-z]", [[97, 99], [120, 122]], False)]
ASSERTS = [("mbol", "(?m:^)"), ("meol", "(?m:$)"), ("wb", "\\b"), ("nwb", "\\B"), ("bol", "\\A"), ("eol", "\\z"), ("bol", "(?:^)"), ("eol", "(?:$)")]


def rx_rich(rng, depth, chars="abc1"):
    """more of the syntax: classes, assertions, counted and lazy repetitions, groups, flags; with the text it is written as"""
    k = rng.random()
    if depth <= 0 or k < 0.3:
        j = rng.random()
        if j < 0.5:
            t, s, neg = rng.choice(CLASSES)
            return {"o": "cls", "neg": neg, "s": s, "text": t}
        if j < 0.7:
            o, t = rng.choice(ASSERTS)
            return {"o": o, "text": t}
        return rx_gen(rng, 0, chars)
    if k < 0.6:
        return {"o": "cat", "e": [rx_rich(rng, depth - 1, chars) for _ in range(rng.randint(2, 3))]}
    if k < 0.7:
        return {"o": "alt", "e": [rx_rich(rng, depth - 1, chars) for _ in range(2)]}
    sub = rx_rich(rng, depth - 1, chars)
    t = "(?:" + rx_text(sub) + ")"
    if k < 0.78:
        return {"o": "cat", "e": [sub], "text": rng.choice(["(%s)", "(?P<x" + str(rng.randrange(10**9)) + ">%s)", "(?:%s)"]) % rx_text(sub)}
    if sub["o"] in ("bol", "eol", "emp", "mbol", "meol", "wb", "nwb"):
        sub = {"o": "chr", "c": ord(rng.choice(chars))}
        t = rx_text(sub)
    if k < 0.88:
        o = rng.choice(["star", "plus", "opt"])
        return {"o": o, "e": sub, "text": "(?:" + t + {"star": "*?", "plus": "+?", "opt": "??"}[o] + ")"}
    lo = rng.randint(0, 2)
    hi = lo + rng.randint(0, 2)
    if rng.random() < 0.3:
        return {"o": "cat", "e": [sub] * lo + [{"o": "star", "e": sub}], "text": "(?:%s{%d,})" % (t, lo)}
    opt = {"o": "emp"}
    for _ in range(hi - lo):
        opt = {"o": "opt", "e": {"o": "cat", "e": [sub, opt]}}
    return {"o": "cat", "e": [sub] * lo + [opt], "text": "(?:" + t + ("{%d}" % lo if lo == hi else "{%d,%d}" % (lo, hi)) + ")"}


def rx_gen(rng, depth, chars="abc1"):
    k = rng.random()
    if depth <= 0 or k < 0.35:
        j = rng.random()
        if j < 0.6:
            return {"o": "chr", "c": ord(rng.choice(chars))}
        if j < 0.75:
            return {"o": "any"}
        if j < 0.95:
            a, b = sorted([ord(rng.choice(chars)), ord(rng.choice(chars))])
            s = [[a, b]]
            if rng.random() < 0.3:
                x = ord(rng.choice(chars))
                s.append([x, x])
            return {"o": "cls", "neg": rng.random() < 0.3, "s": s}
        return {"o": rng.choice(["bol", "eol", "emp"])}
    if k < 0.65:
        return {"o": "cat", "e": [rx_gen(rng, depth - 1, chars) for _ in range(rng.randint(2, 3))]}
    if k < 0.8:
        return {"o": "alt", "e": [rx_gen(rng, depth - 1, chars) for _ in range(2)]}
    sub = rx_gen(rng, depth - 1, chars)
    if sub["o"] in ("bol", "eol", "emp", "star", "plus", "opt"):
        sub = {"o": "chr", "c": ord(rng.choice(chars))}
    return {"o": rng.choice(["star", "plus", "opt"]), "e": sub}


def rx(rng, depth=2, chars="abc1"):
    r = rx_gen(rng, depth, chars)
    k = rng.random()
    if k < 0.25:
        r = {"o": "cat", "e": [{"o": "bol"}, r, {"o": "eol"}]}
    elif k < 0.35:
        r = {"o": "cat", "e": [{"o": "bol"}, r]}
    elif k < 0.45:
        r = {"o": "cat", "e": [r, {"o": "eol"}]}
    return {"o": "re", "s": rx_text(r), "r": r}


# ---- profiles ----

INTS = [0, 1, 2, 3, -1, 5, 10]
FLTS = ["0.5", "1.5", "-2.5", "2.0", "1.25", "0.1"]
STRS = ["", "a", "b", "ab", "abc", "1", "5", "-1", "true", "2017", "2018-01-01", "z"]
KEYS = ["a", "b", "c", "d", "e"]


class Gen:
    def __init__(self, rng, **kw):
        self.rng = rng
        self.keys = KEYS
        self.depth = 3            # depth of operators
        self.docdepth = 2
        self.keyprob = 0.4
        self.loops = 0.15         # probability of a loop among the inner nodes
        self.funcs = 0.12
        self.consts_only = 0.02
        self.bools = 0.06
        self.fieldfield = 0.2
        self.likes = 0.05
        self.exists = 0.15
        self.times = 0.03
        self.maxloop = 3
        self.reuse = 0.2         # probability that a loop uses the variable of another one
        self.typed = True
        self.emptykids = 0.0
        self.strs = STRS
        self.__dict__.update(kw)
        self.nextvar = 1
        self.used = []           # (root variable, path) of fields used so far

    # -- values --
    def scalar(self):
        r = self.rng
        k = r.random()
        if k < 0.45:
            return jint(r.choice(INTS))
        if k < 0.55:
            return F(r.choice(FLTS))
        if k < 0.8:
            return S(r.choice(self.strs))
        if k < 0.9:
            return TRUE if r.random() < 0.5 else FALSE
        return NULL

    def value(self, depth):
        r = self.rng
        k = r.random()
        if depth <= 0 or k < 0.45:
            return self.scalar()
        if k < 0.8:
            return self.obj(depth - 1)
        return self.arr(depth - 1)

    def obj(self, depth):
        r = self.rng
        ks = [k for k in self.keys if r.random() < self.keyprob]
        r.shuffle(ks)
        return {"t": "obj", "m": [{"k": k, "v": self.value(depth)} for k in ks]}

    def arr(self, depth):
        r = self.rng
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        if r.random() < 0.6:
            return {"t": "arr", "e": [self.obj(depth) if r.random() < 0.85 else self.scalar() for _ in range(n)]}
        return {"t": "arr", "e": [self.value(depth) for _ in range(n)]}

    def const(self):
        r = self.rng
        k = r.random()
        if k < 0.5:
            n = r.choice(INTS)
            gt = r.choice(["int", "int64", "int32"]) if self.typed else None
            if n >= 0 and r.random() < 0.15:
                return U(n, r.choice(["uint", "uint64"]))
            return I(n, gt)
        if k < 0.62:
            return F(r.choice(FLTS))
        if k < 0.88:
            return S(r.choice(self.strs))
        if k < 0.95:
            return TRUE if r.random() < 0.5 else FALSE
        return NULL

    # -- expressions --
    def path(self, scope):
        """a field of one of the variables in scope; reuses and extends earlier ones"""
        r = self.rng
        if self.used and r.random() < 0.45:
            v, p = r.choice(self.used)
            if v in scope:
                k = r.random()
                if k < 0.2:
                    p = p + [r.choice(self.keys)]
                elif k < 0.35 and len(p) > 1:
                    p = p[:-1]
                elif k < 0.4:
                    p = p + ["[%d]" % r.randint(0, 2)]
                self.used.append((v, p))
                return f(p, v)
        v = r.choice(scope[-2:] if r.random() < 0.8 else scope)
        n = r.choice([1, 1, 2, 2, 3])
        if v != 0 and r.random() < 0.25:
            n = 0
        p = [r.choice(self.keys) for _ in range(n)]
        if n and r.random() < 0.1:
            p.append("[%d]" % r.randint(0, 2))
        self.used.append((v, p))
        return f(p, v)

    def operand(self, scope):
        r = self.rng
        if r.random() < self.funcs:
            return self.func(scope, 2)
        return self.path(scope)

    def func(self, scope, depth):
        r = self.rng

        def arg():
            k = r.random()
            if depth > 1 and k < 0.25:
                return self.func(scope, depth - 1)
            if k < 0.7:
                return self.path(scope)
            return c(self.numconst())
        k = r.random()
        if k < 0.6:
            return fn(r.choice(["mathAdd", "mathSubract", "mathMultiply", "mathDivide", "mathModulo"]), arg(), arg())
        if k < 0.7:
            return fn("mathNegate", arg())
        return fn(r.choice(["mathAbs", "mathCeil", "mathFloor", "mathRound"]), arg())

    def numconst(self):
        r = self.rng
        return I(r.choice(INTS)) if r.random() < 0.7 else F(r.choice(FLTS))

    def leaf(self, scope):
        r = self.rng
        k = r.random()
        if k < self.exists:
            return {"o": r.choice(["ex", "nex"]), "l": self.path(scope)}
        if k < self.exists + self.likes:
            return {"o": "like", "l": self.path(scope), "r": rx(r)}
        if k < self.exists + self.likes + self.times:
            return cmp(r.choice(CMPS), self.path(scope), {"o": "time", "c": codes(r.choice(["2017", "2018-01-01", "2017-06"]))})
        o = r.choice(CMPS + ["eq", "eq"])
        if k > 1 - self.fieldfield:
            return cmp(o, self.operand(scope), self.operand(scope))
        if k > 1 - self.fieldfield - self.consts_only:
            return cmp(o, c(self.const()), c(self.const()))
        l, rr = self.operand(scope), c(self.const())
        if r.random() < 0.12:
            l, rr = rr, l
        return cmp(o, l, rr)

    def expr(self, depth=None, scope=(0,), loops=0):
        r = self.rng
        scope = list(scope)
        if depth is None:
            depth = self.depth
        if depth <= 0:
            return self.leaf(scope)
        k = r.random()
        if k < self.bools:
            return {"o": r.choice(["true", "false"])}
        if k < self.bools + self.loops and loops < self.maxloop:
            if r.random() < self.reuse:
                v = r.randint(1, 3)    # of a loop beside this one or around it, which it then hides
            else:
                v = self.nextvar
                self.nextvar += 1
            tgt = self.path(scope)
            body = self.expr(depth - 1, scope + [v], loops + 1)
            return {"o": r.choice(LOOPS), "v": v, "l": tgt, "b": body}
        if k < 0.3:
            return self.leaf(scope)
        if k < 0.45:
            return {"o": "not", "e": self.expr(depth - 1, scope, loops)}
        n = r.choice([1, 2, 2, 2, 3, 3, 4])
        return {"o": r.choice(["and", "or"]), "e": [self.expr(depth - 1, scope, loops) for _ in range(n)]}

    # -- documents which fit expressions --
    def doc_for(self, es):
        """a random document in which the referenced fields mostly exist, arrays where loops expect them"""
        d = self.obj(self.docdepth)
        for e in es:
            self.fit(d, e, [])
        return d

    def fit(self, d, e, env):
        r = self.rng
        o = e["o"]
        if o in ("and", "or"):
            for x in e["e"]:
                self.fit(d, x, env)
        elif o == "not":
            self.fit(d, e["e"], env)
        elif o in LOOPS:
            tgts = self.put(d, e["l"], env, "arr", None)
            for t in tgts:
                if t["t"] == "arr":
                    if not t["e"] and r.random() < 0.8:
                        n = r.choice([1, 1, 2, 3])
                        t["e"].extend(self.obj(1) if r.random() < 0.85 else self.scalar() for _ in range(n))
                    for i, x in enumerate(t["e"]):
                        self.fit(d, e["b"], env + [(e["v"], x)])
        elif o == "fn":
            for x in e["a"]:
                self.fit(d, x, env)
        elif o in CMPS or o == "like":
            for a, b in ((e["l"], e.get("r")), (e.get("r"), e["l"])):
                if a is None:
                    continue
                if a["o"] == "f":
                    if r.random() < 0.75:
                        want = None
                        if b is not None and b["o"] == "v" and r.random() < 0.6:
                            want = b["c"]
                        if b is not None and b["o"] == "f" and r.random() < 0.5:
                            t = self.get(d, b, env)
                            if t is not None and t["t"] in ("num", "str", "bool", "null"):
                                want = t
                        if b is not None and b["o"] == "time":
                            want = S(r.choice(["2017", "2018-01-01", "2017-06-15T10:00:00Z"]))
                        if o == "like":
                            want = S("".join(r.choice("abc1") for _ in range(r.randint(0, 5))))
                        self.put(d, a, env, "val", want)
                elif a["o"] == "fn":
                    self.fitnum(d, a, env)
        elif o in ("ex", "nex"):
            if r.random() < 0.6:
                self.put(d, e["l"], env, "val", None)

    def fitnum(self, d, e, env):
        for x in e["a"]:
            if x["o"] == "f":
                if self.rng.random() < 0.8:
                    self.put(d, x, env, "val", self.numconst())
            elif x["o"] == "fn":
                self.fitnum(d, x, env)

    def root(self, d, e, env):
        for v, x in reversed(env):
            if v == e["v"]:
                return x
        return d

    def get(self, d, e, env):
        x = self.root(d, e, env)
        for k in e["p"]:
            x = child(x, k)
            if x is None:
                return None
        return x

    def put(self, d, e, env, kind, want):
        """makes the path exist where the shape of the document allows it; returns the value found there"""
        r = self.rng
        x = self.root(d, e, env)
        p = e["p"]
        for i, k in enumerate(p):
            last = i == len(p) - 1
            if r.random() < 0.06:
                return []
            nxt = child(x, k)
            if k.startswith("["):
                if nxt is None:
                    return []
                x = nxt
                continue
            if x["t"] != "obj":
                return []
            if nxt is None or (not last and nxt["t"] not in ("obj", "arr")) or (last and self.replace(nxt, kind, want)):
                if last:
                    nv = self.arr(1) if kind == "arr" else (docval(want) if want is not None else self.value(1))
                else:
                    nv = self.obj(0) if not p[i + 1].startswith("[") else {"t": "arr", "e": [self.obj(0) for _ in range(r.randint(0, 3))]}
                setkey(r, x, k, nv)
                nxt = child(x, k)
            x = nxt
        return [x]

    def replace(self, x, kind, want):
        r = self.rng
        if kind == "arr":
            return x["t"] != "arr" and r.random() < 0.8
        if want is not None:
            return r.random() < 0.5
        return False


def docval(v):
    """a constant as a value of a document"""
    if v["t"] == "num":
        fr = Fraction(v["g"])
        return num("f", fr) if v["k"] == "f" else jint(int(fr))
    if v["t"] in ("inf", "nan"):
        return NULL
    return v


def child(x, k):
    if x["t"] == "obj":
        for m in x["m"]:
            if m["k"] == k:
                return m["v"]
    elif x["t"] == "arr" and k.startswith("["):
        try:
            i = int(k[1:-1])
        except ValueError:
            return None
        if 0 <= i < len(x["e"]):
            return x["e"][i]
    return None


def setkey(rng, x, k, v):
    for m in x["m"]:
        if m["k"] == k:
            m["v"] = v
            return
    x["m"].insert(rng.randint(0, len(x["m"])), {"k": k, "v": v})


def size(e):
    if isinstance(e, dict):
        return 1 + sum(size(v) for v in e.values() if isinstance(v, (dict, list)))
    if isinstance(e, list):
        return sum(size(x) for x in e if isinstance(x, (dict, list)))
    return 0
