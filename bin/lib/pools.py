"""Pools of values, expressions and documents for the checks."""
import copy, itertools, math
from fractions import Fraction
from values import *
import gen as G
from gen import f, c, cmp, fn, CMPS, child

ODDKEYS = ["a", "aa", "ab", "A", "b", "", " ", "a b", "a.b", "a\"b", "\\", "/", "é", "e", "\U0001F600", "\n", "0", "1", "null", "true",
           "\u0001", "name", "nam", "names", "$", "\u00e9\u00e9", "z" * 40, "[", "]", "{}", ":", ","]
TRUEX = {"o": "true"}
FALSEX = {"o": "false"}


# ---- predicates on expressions ----

def walk(e):
    if isinstance(e, dict):
        if "o" in e:
            yield e
        if e.get("o") == "re":
            return          # its nodes are no expressions ("any" is a character there)
        for v in e.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(e, list):
        for x in e:
            yield from walk(x)


def has_loop(e):
    return any(x["o"] in G.LOOPS for x in walk(e))


def any_ff(es):
    """some comparison of two fields"""
    return any(x["o"] in CMPS and x["l"]["o"] != "v" and x["r"]["o"] != "v" and x["r"]["o"] != "time" for x in walk(es))


def compares_containers(e, d):
    """some comparison of two fields which may both hold containers (they are compared as texts)"""
    return any_ff([e]) and any(x["o"] in CMPS and x["l"]["o"] == "f" and x["r"]["o"] == "f" for x in walk(e)) and contains_container(d)


def contains_container(d):
    kids = [m["v"] for m in d["m"]] if d["t"] == "obj" else d["e"] if d["t"] == "arr" else []
    return any(x["t"] in ("obj", "arr") for x in kids)


# ---- noise which an expression over the keys a..e does not refer to ----

NOISEKEYS = ["zz", "zy", "a_", "_a", "AA", "x1", "noise", "q\"q", "\u00fc"]
NASTY = ["}", "]", "{", "[", "\"", "\\", "\\\"", ",", ":", "\"a\":1", "}}]]", "\\\\", "a", "/*", "\u0000", "\u2028"]


def noise_value(rng, depth):
    k = rng.random()
    if depth <= 0 or k < 0.5:
        j = rng.random()
        if j < 0.4:
            return S(rng.choice(NASTY) * rng.randint(1, 3))
        return rng.choice([jint(1), F("2.5"), TRUE, FALSE, NULL, S(""), jint(-7), F("1000000.5"), {"t": "arr", "e": []}, {"t": "obj", "m": []}])
    if k < 0.75:
        ks = rng.sample(["a", "b", "c"] + NOISEKEYS, rng.randint(0, 4))
        return {"t": "obj", "m": [{"k": x, "v": noise_value(rng, depth - 1)} for x in ks]}
    return {"t": "arr", "e": [noise_value(rng, depth - 1) for _ in range(rng.randint(0, 4))]}


def noisy(rng, d):
    """d with more members in its objects"""
    d = copy.deepcopy(d)

    def rec(v):
        if v["t"] == "obj":
            for m in v["m"]:
                rec(m["v"])
            have = {m["k"] for m in v["m"]}
            for k in rng.sample(NOISEKEYS, rng.randint(0, 3)):
                if k not in have:
                    v["m"].insert(rng.randint(0, len(v["m"])), {"k": k, "v": noise_value(rng, rng.randint(0, 4))})
        elif v["t"] == "arr":
            for x in v["e"]:
                rec(x)
    rec(d)
    return d


# ---- broken documents ----

def prefix_doc(b):
    """(value, bytes) of a text which is cut or malformed, or None if it is left out"""
    v, complete, dup, loose = partial(b)
    if dup:
        return None
    if not complete:
        v = dict(v)
        v["cutdoc"] = True
        if loose:
            v["loose"] = True
        if not b.strip(WS):
            return None          # empty documents are outside of the property
    return v, b


def broken(rng, b):
    k = rng.random()
    if k < 0.35 and len(b) > 1:
        return prefix_doc(b[:rng.randint(1, len(b) - 1)])
    for _ in range(8):
        p = rng.randrange(len(b))
        if b[p] < 0x80:
            break
    else:
        return None
    if k < 0.6:
        r = b[:p] + bytes([rng.choice(b'{}[]:,"\\0-9.eEtfnx /\x01')]) + b[p + 1:]
    elif k < 0.8:
        r = b[:p] + b[p + 1:]
    else:
        r = b[:p] + bytes([rng.choice(b'{}[]:,"\\0-9.eEtfnx /\x01')]) + b[p:]
    try:
        r.decode("utf-8")
    except UnicodeDecodeError:
        return None
    return prefix_doc(r)


SOUP = ["{", "}", "[", "]", ":", ",", "\"a\"", "\"b\"", "\"c\"", "1", "-2.5", "true", "null", "\"x\"", " ", "tru", "\"\\u00", "\\", "0",
        "{\"a\":", "[1,", "\"d\":{", "\"e\":[", "},", "]", "\"a\":1,", "\"b\":\"ab\""]


def junk(rng):
    n = rng.randint(1, 14)
    t = "".join(rng.choice(SOUP) for _ in range(n))
    if rng.random() < 0.7:
        t = "{" + t
    return t.encode()


# ---- constant expressions, small lists ----

def const_expr(rng, depth):
    k = rng.random()
    if depth == 0 or k < 0.4:
        return rng.choice([TRUEX, FALSEX])
    if k < 0.6:
        return {"o": "not", "e": const_expr(rng, depth - 1)}
    return {"o": rng.choice(["and", "or"]), "e": [const_expr(rng, depth - 1) for _ in range(rng.randint(1, 3))]}


def small_lists(rng):
    a1, a2, b1 = cmp("eq", f(["a"]), c(I(1))), cmp("eq", f(["a"]), c(I(2))), cmp("eq", f(["b"]), c(I(1)))
    pool = [TRUEX, FALSEX, a1, a2, b1, {"o": "ex", "l": f(["a"])}, {"o": "nex", "l": f(["a"])}, {"o": "not", "e": a1},
            {"o": "and", "e": [a1, b1]}, {"o": "or", "e": [a2, b1]}, {"o": "any", "v": 1, "l": f(["c"]), "b": cmp("eq", f([], 1), c(I(1)))},
            {"o": "every", "v": 1, "l": f(["c"]), "b": cmp("eq", f([], 1), f(["a"]))}, {"o": "not", "e": TRUEX},
            cmp("ne", f(["a"]), c(I(1))), cmp("eq", f(["a", "b"]), c(I(1)))]
    docs = [O(), O(("a", jint(1))), O(("b", jint(1)), ("a", jint(2))), O(("c", A(jint(1), jint(2))), ("a", jint(1))),
            O(("a", O(("b", jint(1)))), ("c", A()))]
    return [([x, y], docs) for x in pool for y in pool]


def look_alikes(rng):
    """lists of expressions which print alike (or nearly) and mean different things, in every order"""
    def ab(x):
        return [f(["a", "b"]), f(["a.b"])][x]
    fam = []
    fam.append([cmp("eq", ab(0), c(I(1))), cmp("eq", ab(1), c(I(1)))])
    fam.append([{"o": "ex", "l": ab(0)}, {"o": "ex", "l": ab(1)}])
    fam.append([cmp("eq", f(["a", "[0]"]), c(I(1))), cmp("eq", f(["a", "[0]", "b"]), c(I(1))), cmp("eq", f(["a", "[0].b"]), c(I(1))), cmp("eq", f(["a.[0]"]), c(I(1)))])
    fam.append([cmp("eq", f(["a"]), c(I(1))), cmp("eq", f(["a"]), c(S("1"))), cmp("eq", f(["a"]), c(F("1.0"))), cmp("eq", f(["a"]), c(S("1.0")))])
    fam.append([cmp("eq", f(["a"]), c(TRUE)), cmp("eq", f(["a"]), c(S("true")))])
    fam.append([cmp("eq", f(["a"]), c(NULL)), cmp("eq", f(["a"]), c(S("null"))), cmp("eq", f(["a"]), c(S("<nil>"))), cmp("eq", f(["a"]), c(S("")))])
    fam.append([cmp("eq", f(["a"]), f(["b"])), cmp("eq", f(["a"]), c(S("$doc.b"))), cmp("eq", f(["a"]), c(S("b")))])
    fam.append([cmp("eq", f(["a"]), c(S("x"))), cmp("eq", f(["a"]), c(S("x "))), cmp("eq", f(["a"]), c(S("X")))])
    fam.append([cmp(o, f(["a"]), c(I(1))) for o in ("lt", "le", "gt", "ge", "ne")])
    fam.append([cmp("lt", f(["a"]), f(["b"])), cmp("gt", f(["a"]), f(["b"])), cmp("lt", f(["b"]), f(["a"]))])
    fam.append([{"o": o, "v": 1, "l": f(["c"]), "b": cmp("eq", f([], 1), c(I(1)))} for o in ("any", "every", "anyevery")])
    fam.append([{"o": "any", "v": 1, "l": f(["c"]), "b": cmp("eq", f(p, v), c(I(1)))} for p, v in (([], 1), (["a"], 1), (["a"], 0))])
    x, y = cmp("eq", f(["a"]), c(I(1))), cmp("eq", f(["b"]), c(I(1)))
    fam.append([{"o": "and", "e": [x, y]}, {"o": "or", "e": [x, y]}, {"o": "and", "e": [x]}, {"o": "not", "e": x}, x])
    fam.append([cmp("eq", fn("mathAbs", f(["a"])), c(I(1))), cmp("eq", f(["a"]), fn("mathAbs", c(I(-1)))), cmp("eq", f(["a"]), c(I(-1)))])
    n1 = [jint(1), F("1.0"), S("1"), S("1.0"), TRUE, S("true"), NULL, S("null"), S(""), S("x"), S("X"), S("$doc.b"), jint(-1), jint(0), O(("b", jint(1))), A(jint(1)),
          A(O(("b", jint(1))))]
    docs = [O(("a", v), ("b", w)) for v in n1 for w in rng.sample([jint(1), jint(0), S("b"), S("1"), NULL], 2)]
    docs += [O(("a.b", jint(1))), O(("a.b", jint(0)), ("a", O(("b", jint(1))))), O(("a.b", jint(1)), ("a", O(("b", jint(0))))), O(("c", A(jint(1), jint(2)))), O(("c", A())),
             O(("c", A(O(("a", jint(1))))), ("a", jint(0))), O(("c", A(O(("a", jint(0))))), ("a", jint(1))), O(("c", A(jint(0)))), O(), O(("b", jint(1)))]
    pairs = []
    for l in fam:
        for _ in range(6):
            es = rng.sample(l, rng.randint(2, len(l)))
            k = rng.random()
            if k < 0.25:
                es = [{"o": "not", "e": e} for e in es]
            elif k < 0.5:
                es = [{"o": rng.choice(["and", "or"]), "e": [e, rng.choice(es)]} for e in es]
            elif k < 0.6:
                es = es + [{"o": "or", "e": es}]
            pairs.append((es, rng.sample(docs, 9)))
        pairs += [([e], docs) for e in l[:2]] + [(list(l), docs), (list(reversed(l)), docs)]
        pairs += [([{"o": o, "e": list(l)}], docs) for o in ("and", "or")]
    return pairs


# ---- all trees of few operators over few leaves ----

def leaves3():
    return [cmp("eq", f(["a"]), c(I(1))), cmp("eq", f(["b"]), c(I(1))), {"o": "ex", "l": f(["a", "b"])},
            cmp("lt", f(["a"]), f(["b"])), TRUEX]


def trees(n, leaves):
    """all trees with n binary operators, some of them negated"""
    if n == 0:
        return leaves
    out = []
    for k in range(n):
        for l in trees(k, leaves):
            for r in trees(n - 1 - k, leaves):
                for o in ("and", "or"):
                    t = {"o": o, "e": [l, r]}
                    out += [t, {"o": "not", "e": t}]
    return out


def small_docs():
    vals = [None, jint(1), jint(0), O(("b", jint(1))), NULL]
    docs = []
    for a, b in itertools.product(vals, vals[:3]):
        kv = ([("a", a)] if a is not None else []) + ([("b", b)] if b is not None else [])
        docs.append(O(*kv))
        if len(kv) == 2:
            docs.append(O(*reversed(kv)))
    return docs


def small_trees(rng, thorough):
    ls = leaves3()
    ls = ls + [{"o": "not", "e": ls[0]}]
    all2 = trees(1, ls) + trees(2, ls[:5])
    if not thorough:
        all2 = rng.sample(all2, min(len(all2), 450))
    docs = small_docs()
    return [([e], docs) for e in all2]


def small_loops(rng, thorough):
    x, y = f([], 1), f(["a"], 1)
    bodies = [cmp("eq", x, c(I(1))), cmp("eq", y, c(I(1))), {"o": "ex", "l": y}, {"o": "nex", "l": y}, cmp("ne", y, c(I(1))),
              cmp("eq", y, f(["b"])), cmp("eq", f(["b"]), c(I(1))), TRUEX, FALSEX, {"o": "not", "e": cmp("eq", y, c(I(1)))},
              {"o": "and", "e": [cmp("eq", y, c(I(1))), cmp("eq", f(["b"], 1), c(I(1)))]},
              {"o": "or", "e": [cmp("eq", y, c(I(1))), cmp("eq", f(["b"]), c(I(1)))]},
              {"o": "any", "v": 2, "l": f(["c"], 1), "b": cmp("eq", f([], 2), c(I(1)))},
              {"o": "every", "v": 2, "l": f(["c"], 1), "b": cmp("eq", f([], 2), f(["a"], 1))},
              {"o": "anyevery", "v": 2, "l": f(["c"]), "b": cmp("eq", f([], 2), f(["a"], 1))},
              {"o": "any", "v": 2, "l": f(["arr"]), "b": cmp("lt", f(["a"], 2), f(["a"], 1))}]
    els = [jint(1), O(("a", jint(1))), O(("a", jint(2)), ("b", jint(1))), O(("c", A(jint(1), jint(2))), ("a", jint(1))), O(), NULL]
    arrs = [A()] + [A(p) for p in els] + [A(p, q) for p in els for q in els]
    arrs += [rng.choice([A(p, q, r) for p in els for q in els for r in els]) for _ in range(20)]
    out = []
    for b in bodies:
        for o in G.LOOPS:
            l = {"o": o, "v": 1, "l": f(["arr"]), "b": b}
            forms = [l, {"o": "not", "e": l}, {"o": "and", "e": [l, cmp("eq", f(["b"]), c(I(1)))]},
                     {"o": "or", "e": [cmp("eq", f(["b"]), c(I(1))), {"o": "not", "e": l}]}]
            for k, e in enumerate(forms):
                docs = []
                for a in rng.sample(arrs, len(arrs) if thorough else (14 if k == 0 else 5)):
                    kv = [("arr", a), ("b", rng.choice([jint(1), jint(2)])), ("c", rng.choice([A(jint(1)), A(), jint(1), A(jint(2), jint(1))]))]
                    kv = [x for x in kv if rng.random() < 0.85 or x[0] == "arr"]
                    rng.shuffle(kv)
                    docs.append(O(*kv))
                docs += [O(), O(("arr", jint(1))), O(("arr", O(("a", jint(1))))), O(("arr", NULL), ("b", jint(1))), O(("b", jint(1)))]
                out.append(([e], docs))
    return out


def small_compacts(rng):
    a = cmp("eq", f(["a"]), c(I(1)))
    l = {"o": "any", "v": 1, "l": f(["arr"]), "b": cmp("eq", f([], 1), c(I(1)))}
    lt = [{"o": o, "v": 1, "l": f(["arr"]), "b": x} for o in G.LOOPS for x in (TRUEX, FALSEX)]
    leaves = [a, TRUEX, FALSEX, l] + lt + [{"o": "not", "e": x} for x in (TRUEX, FALSEX, a)] + [
        {"o": "any", "v": 1, "l": f(["arr"]), "b": {"o": "and", "e": [TRUEX, FALSEX]}},
        {"o": "every", "v": 1, "l": f(["arr"]), "b": {"o": "or", "e": [TRUEX, FALSEX]}},
        {"o": "not", "e": {"o": "any", "v": 1, "l": f(["arr"]), "b": TRUEX}}]
    docs = [O(), O(("a", jint(1))), O(("arr", A())), O(("arr", A(jint(1))), ("a", jint(2))), O(("arr", jint(1))), O(("a", jint(1)), ("arr", A(jint(2))))]
    out = [([x], docs) for x in leaves]
    for x in leaves:
        for y in leaves:
            for o in ("and", "or"):
                out.append(([{"o": o, "e": [x, y]}], docs))
    for _ in range(150):
        x, y, z = (rng.choice(leaves) for _ in range(3))
        o1, o2 = rng.choice(["and", "or"]), rng.choice(["and", "or"])
        out.append(([{"o": o1, "e": [x, {"o": o2, "e": [y, z]}]}], docs))
        out.append(([{"o": o1, "e": [{"o": o2, "e": [x]}, {"o": "not", "e": {"o": o2, "e": [y, z]}}]}], docs))
    return out


# ---- values ----

INT_EDGES = [0, 1, -1, 2, 9, 10, 127, 128, 255, 256, -128, 1000, 65535, 2**31 - 1, 2**31, -2**31, 2**32, 2**53, 2**53 + 1, -2**53, 10**15, 10**18,
             2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64 - 2, 10**19]
FLTS = ["0.5", "-0.5", "1.5", "2.0", "1.0", "0.0", "100.25", "-2.5", "0.1", "0.000001", "123456.75", "1.0000005", "3.14159", "9007199254740992.0",
        "9223372036854775808.0", "-9223372036854775808.0", "1e15", "0.3", "255.0", "1000000000000.0"]


LARGE = ["10000000000.5", "1e10", "1e15", "4503599627370496", "1e18", "9223372036854775808", "18446744073709551616", "1e20", "1e22", "1e30", "123456789.25"]


def any_number(rng):
    k = rng.random()
    if k < 0.55:
        return jint(rng.choice(INT_EDGES) if rng.random() < 0.6 else rng.randint(-300, 300))
    return F(str(Fraction(rng.choice(FLTS)))) if False else num("f", Fraction(rng.choice(FLTS)))


def near_numbers(rng):
    k = rng.random()
    if k < 0.55:
        n = rng.choice(INT_EDGES) if rng.random() < 0.7 else rng.randint(-10**rng.randint(1, 19), 10**rng.randint(1, 19))
        m = n + rng.choice([0, 0, 1, -1, 2, 10, -n, -2 * n])
        if rng.random() < 0.15:
            m = rng.choice(INT_EDGES)
        clamp = lambda v: max(I64MIN, min(U64, v))
        return jint(clamp(n)), jint(clamp(m))
    if k < 0.64:
        # floats closer to each other than the tolerance, or just not
        x = float(rng.choice(FLTS)) if rng.random() < 0.6 else round(rng.uniform(-100, 100), 3)
        y = x + rng.choice([0, 4e-17, 1e-9, -1e-9, 3e-8, -5e-8, 8e-8, 2e-7, -3e-7, 1e-6])
        if rng.random() < 0.2:
            y = math.nextafter(x, rng.choice([math.inf, -math.inf]))
        if abs(y) > 1e-7 or y == 0:
            a, b = flt(x), flt(y)
            return (a, b) if rng.random() < 0.5 else (b, a)
    if k < 0.72:
        # floats which are large, and a small part of their size apart
        x = Fraction(rng.choice(LARGE)) * rng.choice([1, 1, -1])
        y = x + rng.choice([0, 0, 1, -1, x / 10**9, x / 10**6, -x / 10**8, -2 * x])
        y = Fraction(float(y))
        a, b = num("f", x), num("f", y)
        if y.denominator == 1 and rng.random() < 0.4 and I64MIN <= y <= U64:
            b = jint(int(y))
        return (a, b) if rng.random() < 0.5 else (b, a)
    if k < 0.8:
        x = Fraction(rng.choice(FLTS))
        y = x + rng.choice([0, 0, Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(1, 1000), Fraction(-1, 100000), Fraction(3, 10**6), -2 * x])
        a, b = num("f", x), num("f", y)
        if y.denominator == 1 and rng.random() < 0.5 and I64MIN <= y <= U64:
            b = jint(int(y))
        return (a, b) if rng.random() < 0.5 else (b, a)
    n = rng.randint(-2000, 2000)
    a = jint(n)
    y = Fraction(n) + rng.choice([0, 0, Fraction(1, 2), Fraction(-1, 2), Fraction(1, 1000), 1, -1])
    b = num("f", y)
    return (a, b) if rng.random() < 0.5 else (b, a)


def long_numbers(rng):
    """integers of 20 to 309 digits, of the document and as constants, a part of their size apart"""
    for digits in list(range(19, 66)) + [70, 80, 100, 127, 128, 129, 200, 255, 256, 257, 300, 307, 308]:
        x = Fraction(rng.choice([1, -1]) * int(str(rng.randint(1, 9)) + "".join(rng.choice("0123456789") for _ in range(digits - 1))))
        x = Fraction(float(x))
        for d in rng.sample([x, x / 10 ** 9, -x / 10 ** 6, -2 * x, x / 2, -x / 3], 2) + [0]:
            y = Fraction(float(x + d))
            if abs(y) < 10 ** 308:
                yield num("f", x), num("f", y)
        yield num("f", x), jint(rng.choice(INT_EDGES))


def long_spelled(rng):
    """the same numbers in texts of up to 400 bytes: zeros behind the fraction and before the exponent"""
    for n in list(range(1, 40)) + [60, 63, 64, 65, 100, 126, 127, 128, 200, 255, 256, 300, 400]:
        x = F(rng.choice(["2.5", "-0.125", "1000000.5", "-7.000001", "10000000000.5"]))
        yield x, x["g"] + "0" * n
        k = rng.randint(-99, 99)
        yield num("f", k), str(k) + "." + "0" * n
        yield num("f", k), str(k) + rng.choice(["e", "E", "e+", "e-"]) + "0" * n
        yield num("f", 35), "0." + "0" * min(n, 300) + "35" + "e%d" % (min(n, 300) + 2)
        yield num("f", 1200), "1200" + "0" * n + "e-%d" % n


def const_of(rng, v):
    """a constant with the value v, in some representation"""
    t = v["t"]
    if t == "num":
        fr = Fraction(v["g"])
        if v["k"] == "f":
            if fr.denominator in (1, 2, 4) and abs(fr) < 10000 and rng.random() < 0.2:
                return num("f", fr, "float32")
            return dict(v) if rng.random() < 0.8 or "gt" in v else num("f", fr)
        n = int(fr)
        opts = []
        if I64MIN <= n <= I64MAX:
            opts += [I(n, "int"), I(n, "int64"), I(n)]
            for bits, gt in ((8, "int8"), (16, "int16"), (32, "int32")):
                if -(1 << bits - 1) <= n < 1 << bits - 1:
                    opts.append(I(n, gt))
        if 0 <= n <= U64:
            opts += [U(n, "uint"), U(n, "uint64")]
            if n < 1 << 32:
                opts.append(U(n, "uint32"))
            if n < 1 << 16:
                opts.append(U(n, "uint16"))
            if n < 256:
                opts.append(U(n, "uint8"))
        if abs(n) <= 2**53:
            opts.append(num("f", n))
        return rng.choice(opts)
    if t in ("str", "bool", "null"):
        return v
    return rng.choice([jint(1), S("a"), TRUE, NULL])


PLAIN = ["", "a", "b", "ab", "abc", "aB", "B", "A", "1", "12", "5", "-1", "é", "éa", "z", " ", "a b", "\U0001F600", "あ", "true", "null", "10", "9",
         "a\"b", "a\\b", "a\nb", "a\u0000", "a\u007f", "a\u00a0", "a\u2028b", "\"", "\\", "a/b", "\u00ad", "\ufffd", "\uffff", "\U000e0001", "]", "[", "a\tb", "a#"]


def triple(rng):
    k = rng.random()
    if k < 0.4:
        a, b = near_numbers(rng)
        c3 = rng.choice([a, b, any_number(rng), near_numbers(rng)[0]])
        return a, b, c3
    if k < 0.6:
        xs = [rng.choice(PLAIN) for _ in range(3)]
        if rng.random() < 0.5:
            xs[1] = xs[0] + rng.choice(["", "a", "b"])
        return tuple(S(x) for x in xs)
    if k < 0.66:
        return tuple(rng.choice([TRUE, FALSE]) for _ in range(3))
    if k < 0.8:
        t = list(near_container(rng))
        rng.shuffle(t)
        return tuple(t)
    vs = mixed_values()
    return tuple(rng.choice(vs) for _ in range(3))


def near_container(rng):
    """an array or object, and others which differ from it in one place or in none"""
    n = rng.choice([0, 1, 2, 3, 5, 9, 20, 40])
    leaf = lambda: rng.choice([jint(rng.randint(0, 9)), jint(rng.randint(10, 12)), S(rng.choice(["a", "b", "ab", "", "z", "\u00e9", "\"", "x" * 30])), TRUE, FALSE, NULL, F("1.5"),
                               F("2.5"), A(), A(jint(1)), A(jint(2)), O(), O(("k", jint(1))), O(("k", jint(2)))])
    arr = rng.random() < 0.5
    es = [leaf() for _ in range(n)]
    ks = ["k%d" % i for i in range(n)]
    mk = (lambda xs, names=ks: A(*xs)) if arr else (lambda xs, names=ks: O(*zip(names, xs)))

    at = rng.choice([0, n - 1, rng.randrange(n)]) if n else 0
    twin = [lambda: jint(rng.randint(0, 9)), lambda: S(rng.choice("abcxyz")), lambda: S("q" * 30 + rng.choice("abcxyz")), lambda: O(("k", jint(rng.randint(0, 9)))),
            lambda: A(jint(rng.randint(0, 9)))][rng.randrange(5)]
    if n:
        es[at] = twin()

    def near():
        k = rng.random()
        if k < 0.4 and n:
            # as long as the first one, and different in one place
            xs = list(es)
            xs[at] = twin()
            return mk(xs)
        if k < 0.55:
            return mk([copy.deepcopy(x) for x in es])
        if k < 0.8 and n:
            xs = list(es)
            xs[rng.choice([0, n - 1, rng.randrange(n)])] = leaf()
            return mk(xs)
        if k < 0.85 and n:
            return mk(es[:-1], ks[:-1])
        if k < 0.93 and n and not arr:
            names = list(ks)
            names[rng.choice([0, n - 1, rng.randrange(n)])] = "j"
            return mk(es, names)
        return mk(es + [leaf()], ks + ["l"])
    return mk(es), near(), near()


def mixed_values():
    return [NULL, TRUE, FALSE, jint(0), jint(1), jint(-1), jint(5), jint(2017), jint(2**63), jint(2**64 - 1), jint(-2**63), F("0.0"), F("1.0"), F("2.5"), F("-2.5"),
            F("5.0"), S(""), S("a"), S("5"), S("+5"), S("-1"), S("05"), S("5.0"), S("2.5"), S("true"), S("false"), S("null"), S("2017"), S("2017-06"),
            S("2017-06-01T00:00:00Z"), S("2.5E+00"), S("0E+00"), S("18446744073709551615"), S("9223372036854775808"), S("99999999999999999999"), S("é"),
            A(), A(jint(1)), A(jint(1), jint(2)), O(), O(("a", jint(1))), O(("b", TRUE)), S("0"), S("1"), S(" 5"), S("5 ")]


def mixed_consts():
    return [NULL, TRUE, FALSE, I(0, "int"), I(1, "int64"), I(-1), I(5, "int32"), I(2017), U(5, "uint64"), U(2**63, "uint64"), U(2**64 - 1, "uint64"), U(0, "uint"),
            F("0.0"), F("1.0"), F("2.5"), F("-2.5"), F("5.0"), S(""), S("a"), S("5"), S("-1"), S("05"), S("2.5"), S("true"), S("2017"), S("2.5E+00"), S("é"), S("0"), S("1"),
            S("18446744073709551615"), B("a"), B("")]


def time(rng):
    return {"o": "time", "c": codes(rng.choice(["2017", "2017-06", "2017-06-01", "2017-06-01T00:00:00Z", "2018", "2017-05-31T23:59:59Z"]))}


def presence_values():
    return [NULL, NULL, jint(0), S(""), FALSE, F("0.0"), {"t": "arr", "e": []}, {"t": "obj", "m": []}, TRUE, jint(1), S("a"), S("null")]


def exists_table():
    vals = presence_values()[1:] + [A(NULL), O(("a", NULL)), O(("b", jint(1))), A(O(("a", NULL))), O(("[0]x", jint(1)))]
    paths = [["a"], ["a", "b"], ["a", "a"], ["a", "[0]"], ["a", "[1]"], ["a", "[0]", "a"], ["b"], ["a", "b", "c"], ["a", ""]]
    out = []
    for p in paths:
        x = f(p)
        es = [{"o": "ex", "l": x}, {"o": "nex", "l": x}, {"o": "not", "e": {"o": "ex", "l": x}}, {"o": "not", "e": {"o": "nex", "l": x}}]
        es += [cmp(o, x, c(NULL)) for o in CMPS] + [cmp(o, c(NULL), x) for o in CMPS] + [{"o": "not", "e": cmp("eq", x, c(NULL))}]
        docs = [O(("a", v)) for v in vals] + [O(("x", jint(1)), ("a", v), ("b", NULL)) for v in vals] + [O(), O(("b", jint(1)))]
        for e in es:
            out.append(([e], docs))
        out.append((es, docs))
    return out


def exists_beside_table():
    """tests for presence of a value which something else looks at too: a loop, a path into it, a comparison with what follows it"""
    x = f(["a"])
    one = c(I(1))
    tests = [{"o": "ex", "l": x}, {"o": "nex", "l": x}, cmp("eq", x, c(NULL)), cmp("ne", x, c(NULL))]
    uses = [{"o": o, "v": 1, "l": x, "b": b} for o in ("any", "every", "anyevery") for b in (cmp("eq", f([], 1), one), {"o": "nex", "l": f(["b"], 1)})]
    uses += [cmp("eq", f(["a", "b"]), one), {"o": "ex", "l": f(["a", "b"])}, {"o": "nex", "l": f(["a", "[0]"])}, cmp("ne", f(["a", "[1]"]), one),
             cmp("eq", x, f(["z"])), cmp("lt", f(["a", "b"]), f(["z"])), cmp("eq", x, f(["a", "b"])),
             {"o": "any", "v": 1, "l": x, "b": cmp("eq", f([], 1), f(["z"]))}, {"o": "every", "v": 1, "l": f(["z"]), "b": cmp("ne", f([], 1), x)},
             {"o": "any", "v": 1, "l": f(["a", "b"]), "b": {"o": "ex", "l": x}}]
    vals = [A(), O(), NULL, jint(1), S(""), A(jint(1)), A(NULL), A(jint(2), jint(1)), A(O(("b", jint(1)))), O(("b", jint(1))), O(("b", NULL)), O(("b", A())), O(("b", A(jint(1)))), A(A())]
    docs = [O(("a", v)) for v in vals] + [O(("z", jint(1)), ("a", v)) for v in vals[:6]] + [O(("a", v), ("z", A(jint(1)))) for v in vals[:6]] + [O(), O(("z", jint(1)))]
    out = []
    for i, t in enumerate(tests):
        for j, u in enumerate(uses):
            if (i + j) % 2 == 0:
                t, u = u, t
            out.append(([{"o": "and", "e": [t, u]}], docs))
            out.append(([{"o": "or", "e": [u, t]}], docs))
            out.append(([t, u], docs))
    return out


# ---- paths ----

class PathGen(G.Gen):
    """Documents whose scalars are all different, and comparisons with the scalars that are there"""

    def __init__(self, rng, **kw):
        super().__init__(rng, **kw)
        self.n = 0
        self.base = self.tree(4)
        self.all = list(self.leaves_of(self.base, []))

    def tree(self, depth):
        r = self.rng
        if depth == 0 or (depth < 4 and r.random() < 0.25):
            self.n += 1
            return jint(self.n)
        if depth == 4 or r.random() < 0.65:
            ks = [k for k in self.keys if r.random() < 0.7] or [self.keys[0]]
            r.shuffle(ks)
            return {"t": "obj", "m": [{"k": k, "v": self.tree(depth - 1)} for k in ks]}
        return {"t": "arr", "e": [self.tree(depth - 1 if r.random() < 0.7 else 0) for _ in range(r.choice([0, 1, 2, 3, 12 if depth < 3 else 3]))]}

    def leaves_of(self, v, p):
        if v["t"] == "obj":
            for m in v["m"]:
                yield from self.leaves_of(m["v"], p + [m["k"]])
        elif v["t"] == "arr":
            for i, x in enumerate(v["e"]):
                yield from self.leaves_of(x, p + ["[%d]" % i])
        else:
            yield p, v

    def leaf(self, scope):
        r = self.rng
        if not self.all:
            return {"o": "ex", "l": f([self.keys[0]])}
        p, v = r.choice(self.all)
        k = r.random()
        if k < 0.15:
            p = p[:-1] or p
            return {"o": "ex", "l": f(p)}
        if k < 0.3:
            p = p + [r.choice(self.keys + ["[0]", "[1]"])]
            return {"o": r.choice(["ex", "nex"]), "l": f(p)}
        if k < 0.5:
            p = list(p)
            i = r.randrange(len(p))
            p[i] = "[%d]" % r.randint(0, 12) if p[i].startswith("[") and p[i].endswith("]") else r.choice(self.keys)
        if k < 0.6:
            q, w = r.choice(self.all)
            return cmp(r.choice(["eq", "lt", "ne"]), f(p), f(q))
        if k < 0.75:
            v = r.choice(self.all)[1]
        return cmp(r.choice(["eq", "eq", "eq", "ne"]), f(p), c(I(int(v["g"]))))

    def expr(self, depth=1, scope=(0,), loops=0):
        r = self.rng
        if depth <= 0:
            return self.leaf(scope)
        return {"o": r.choice(["and", "or"]), "e": [self.expr(depth - 1) for _ in range(r.randint(1, 3))]}

    def doc_for(self, es):
        """the base document with some subtrees removed, exchanged or replaced"""
        d = copy.deepcopy(self.base)
        r = self.rng

        def rec(v):
            if v["t"] == "obj":
                if len(v["m"]) > 1 and r.random() < 0.12:
                    i, j = r.sample(range(len(v["m"])), 2)
                    v["m"][i]["v"], v["m"][j]["v"] = v["m"][j]["v"], v["m"][i]["v"]
                if v["m"] and r.random() < 0.06:
                    v["m"].pop(r.randrange(len(v["m"])))
                r.shuffle(v["m"])
                for m in v["m"]:
                    if r.random() < 0.04:
                        m["v"] = r.choice([NULL, S("x"), {"t": "arr", "e": []}, {"t": "obj", "m": []}, A(jint(1), O((self.keys[0], jint(2))))])
                    rec(m["v"])
            elif v["t"] == "arr":
                if v["e"] and r.random() < 0.12:
                    v["e"].insert(r.randint(0, len(v["e"])), r.choice([NULL, A(jint(1), jint(2)), O((self.keys[0], jint(3))), S("],[")]))
                for x in v["e"]:
                    rec(x)
        if r.random() < 0.85:
            rec(d)
        return d


# ---- escapes ----

SIMPLE_ESC = {'\\"': 0x22, "\\\\": 0x5C, "\\/": 0x2F, "\\b": 8, "\\f": 12, "\\n": 10, "\\r": 13, "\\t": 9}
HEXPTS = [0, 1, 0x1F, 0x22, 0x2F, 0x41, 0x5C, 0x61, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xABCD, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x2028, 0xDEF]
SURR = [0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD83D, 0xDE00]


TWINS = [(["a", "b"], ["a.b"]), (["ab"], ["a", "b"]), (["a", "[0]"], ["a[0]"]), (["a", ""], ["a"]), (["a", ""], ["a."]), (["", ""], [""]), (["a", "b", "c"], ["a", "b.c"]),
         (["a", "b", "c"], ["a.b", "c"]), (["a", "b"], ["a/b"]), (["a", "b"], ["a,b"]), (["a", "b"], ["a b"]), (["a", "b"], ["a\u0000b"]), (["a", "b"], ["a:b"]),
         (["a", "b"], ["a|b"]), (["a", "b"], ["a\"b"]), (["A"], ["a"]), (["é"], ["e\u0301"]), (["a"], ["a "]), (["1"], ["01"]), (["a", "[1]"], ["a", "[01]"]),
         (["a", "[1]"], ["a", "[10]"]), (["a", "[1]", "b"], ["a", "[10]", "b"]), (["aa", "a"], ["a", "aa"]), (["$"], ["$", "a"]), (["$.a"], ["a"]), (["a", "b"], ["b", "a"]),
         (["abcdefgh1"], ["abcdefgh2"]), (["k" * 64 + "x"], ["k" * 64 + "y"]), (["k" * 70], ["k" * 71]), (["0"], ["[0]", "a"]), (["a", "b", "a", "b"], ["a", "b"])]


def twin_cases(rng):
    """two paths which look alike, compared with each other and with constants, in documents which have one, both or neither"""
    def put(d, p, v):
        x = d
        for i, k in enumerate(p):
            last = i == len(p) - 1
            if k.startswith("[") and k.endswith("]") and len(k) > 2:
                if x["t"] != "arr" or not k[1:-1].isdigit() or k[1] == "0" and len(k) > 3:
                    return
                n = int(k[1:-1])
                while len(x["e"]) <= n:
                    x["e"].append(NULL)
                if last:
                    x["e"][n] = v
                elif x["e"][n]["t"] == "null":
                    x["e"][n] = {"t": "obj", "m": []}
                x = x["e"][n]
                continue
            if x["t"] != "obj":
                return
            nxt = child(x, k)
            if last:
                if nxt is None or nxt["t"] not in ("obj", "arr"):
                    G.setkey(rng, x, k, v)
                return
            if nxt is None or nxt["t"] not in ("obj", "arr"):
                nxt = {"t": "arr", "e": []} if p[i + 1].startswith("[") and len(p[i + 1]) > 2 else {"t": "obj", "m": []}
                G.setkey(rng, x, k, nxt)
            x = nxt
    pairs = []
    for p, q in TWINS:
        for p, q in ((p, q), (q, p)):
            a, b = f(p), f(q)
            vs = {}
            docs = []
            for va, vb in ((1, 1), (1, 2), (2, 1), (1, None), (None, 1), (None, None), (2, 2)):
                for first in (0, 1):
                    d = O(("z", jint(9)))
                    for w, v in ((p, va), (q, vb))[::1 if first else -1]:
                        if v is not None:
                            put(d, w, jint(v))
                    docs.append(d)
            one = c(I(1))
            es = [cmp("eq", a, b), cmp("lt", a, b), cmp("ne", a, b), cmp("ge", a, b), {"o": "ex", "l": a}, {"o": "nex", "l": b},
                  {"o": "and", "e": [cmp("eq", a, one), cmp("eq", b, one)]}, {"o": "or", "e": [cmp("eq", a, c(I(2))), cmp("eq", b, c(I(2)))]},
                  {"o": "and", "e": [cmp("eq", a, one), cmp("eq", b, c(I(2)))]}, {"o": "and", "e": [{"o": "ex", "l": a}, {"o": "nex", "l": b}]}]
            pairs += [([e], docs) for e in es] + [(es, docs)]
    return pairs


def long_arrays(rng, n):
    """indexes beyond those of small arrays"""
    pairs = []
    for _ in range(n):
        size = rng.choice([20, 70, 130, 257, 300, 520, 1025])
        elems = [jint(i) for i in range(size)]
        es = []
        deep = rng.random() < 0.5
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.choice([size - 1, size - 1, size, rng.randrange(size), 9, 10, 15, 16, 63, 64, 127, 128, 255, 256, 257])
            k = rng.random()
            p = ["a", "[%d]" % i]
            if deep and i < size and k < 0.4:
                elems[i] = O(("x", A(jint(i), jint(i + 1))))
                e = cmp("eq", f(p + ["x", "[1]"]), c(I(i + 1)))
            elif k < 0.6:
                e = cmp(rng.choice(["eq", "ge"]), f(p), c(I(i)))
            elif k < 0.75:
                e = {"o": rng.choice(["ex", "nex"]), "l": f(p)}
            else:
                e = cmp("lt", f(p), f(["a", "[%d]" % rng.randrange(size)]))
            es.append(e)
        pairs.append((es, [O(("z", A(jint(5))), ("a", {"t": "arr", "e": elems}))]))
    return pairs


def hexesc(rng, x):
    h = "%04x" % x
    return "\\u" + "".join(ch.upper() if rng.random() < 0.4 else ch for ch in h)


def esc_piece(rng):
    """(text within the quotes, UTF-16 units or code points)"""
    k = rng.random()
    if k < 0.3:
        t = rng.choice(["a", "b", "u", "n", "0041", "é", "\U0001F600", " ", "/", "DC00", "x" * rng.choice([1, 5, 40])])
        return t, codes(t)
    if k < 0.5:
        t = rng.choice(list(SIMPLE_ESC))
        return t, [SIMPLE_ESC[t]]
    if k < 0.7:
        x = rng.choice(HEXPTS)
        return hexesc(rng, x), [("u", x)]
    if k < 0.85:
        x = rng.choice([0x10000, 0x1F600, 0x10FFFF, 0x10FC00, 0x103FF])
        d = x - 0x10000
        return hexesc(rng, 0xD800 + (d >> 10)) + hexesc(rng, 0xDC00 + (d & 0x3FF)), [("u", 0xD800 + (d >> 10)), ("u", 0xDC00 + (d & 0x3FF))]
    x = rng.choice(SURR)
    return hexesc(rng, x), [("u", x)]


def esc_string(rng, n):
    ts, us = "", []
    for _ in range(n):
        t, u = esc_piece(rng)
        ts += t
        us += u
    return ts, surr(us)


def escape_cases(rng, n, table):
    pairs = []
    strings = []
    if table:
        strings += [(t, [x]) for t, x in SIMPLE_ESC.items()]
        strings += [(hexesc(rng, x), surr([("u", x)])) for x in HEXPTS + SURR]
        for x in SURR:
            for y in SURR + [0x41]:
                strings.append((hexesc(rng, x) + hexesc(rng, y), surr([("u", x), ("u", y)])))
                strings.append((hexesc(rng, x) + rng.choice(["", "a", "\\n", "\\\\", "u"]) + hexesc(rng, y), None))
        strings = [(t, cs if cs is not None else partial(('"%s"' % t).encode())[0]["c"]) for t, cs in strings]
    while len(strings) < n:
        strings.append(esc_string(rng, rng.choice([1, 1, 2, 3, 5, 8, 30, 300])))
    for t, cs in strings:
        if len(cs) > 400:
            t, cs = t[:0] + "\\n" * 200, [10] * 200
        s = {"t": "str", "c": cs}
        other = list(cs)
        k = rng.random()
        if other and k < 0.4:
            i = rng.randrange(len(other))
            other[i] = 0x62 if other[i] != 0x62 else 0x63
        elif other and k < 0.7:
            other.pop(rng.randrange(len(other)))
        else:
            other.insert(rng.randint(0, len(other)), 0x5C)
        o = {"t": "str", "c": other}
        es = [cmp("eq", f(["s"]), c(s)), cmp("eq", f(["s"]), c(o)), cmp("ne", c(s), f(["s"])), cmp("eq", f(["s"]), f(["w"])), cmp("eq", f(["t"]), f(["w"]))]
        es += [cmp(rng.choice(["lt", "le", "gt", "ge"]), f(["s"]), c(o)), cmp(rng.choice(["lt", "le", "gt", "ge"]), c(o), f(["w"]))]
        key = text_of(cs)
        okkey = not (key.startswith("[") and key.endswith("]")) and key not in ("s", "w", "t", "k") and len(cs) < 60
        if okkey:
            es += [{"o": "ex", "l": f([key])}, cmp("eq", f(["k", key]), c(I(1))), {"o": "ex", "l": f([text_of(other)])}]
        if len(cs) < 40 and 10 not in cs:
            es.append({"o": "like", "l": f(["s"]), "r": lit_rx(cs, True)})
            if cs:
                es.append({"o": "like", "l": f(["s"]), "r": {"o": "re", "s": "^.{%d}$" % len(cs), "r": {"o": "cat", "e": [{"o": "bol"}] + [{"o": "any"}] * len(cs) + [{"o": "eol"}]}}})
        canon = jstr(cs, Style())
        parts = ['"s":"%s"' % t, '"w":%s' % canon, '"t":"%s"' % t]
        m = [("s", s), ("w", s), ("t", s)]
        if okkey:
            parts += ['"%s":true' % t, '"k":{"x":2,"%s":1}' % t]
            m += [(key, TRUE), ("k", O(("x", jint(2)), (key, jint(1))) if key != "x" else O(("x", jint(1))))]
            if key == "x":
                parts[-1] = '"k":{"%s":1}' % t
        idx = list(range(len(parts)))
        rng.shuffle(idx)
        text = "{" + ",".join(parts[i] for i in idx) + "}"
        pairs.append((es, [(O(*[m[i] for i in idx]), text.encode("utf-8", "surrogatepass"))]))
    return pairs


def lit_rx(cs, anchored):
    r = {"o": "cat", "e": [{"o": "bol"}] + [{"o": "chr", "c": x} for x in cs] + [{"o": "eol"}]}
    return {"o": "re", "s": G.rx_text(r), "r": r}


# ---- functions ----

TABLEARGS = ["0", "1", "-1", "0.5", "-0.5", "2", "-2", "0.25", "3", "10", "100", "1.5", "45", "90", "180", "-90", "0.1", "7", "360", "1000"]
PYF = {"mathAcos": math.acos, "mathAsin": math.asin, "mathAtan": math.atan, "mathCos": math.cos, "mathSin": math.sin, "mathTan": math.tan,
       "mathExp": math.exp, "mathLn": math.log, "mathLog": math.log10, "mathSqrt": math.sqrt, "mathDegrees": math.degrees, "mathRadians": math.radians}
ARITH = ["mathAdd", "mathSubract", "mathMultiply", "mathDivide", "mathModulo"]
FINTS = [0, 1, 2, 3, 7, 10, -1, -2, -7, 100, 12345, -10]
BIGINTS = [2**31, 2**53, 2**63 - 1, -2**63, -2**63 + 1, 2**63, 2**64 - 1, 10**18, 2**62, 3037000500, 4294967296, -4294967297]
HUGEFLTS = ["1e20", "-1e20", "1e19", "18446744073709551616", "9223372036854775808", "-9223372036854775808", "1e22", "1e30", "-3e25", "123456789.5", "-4294967296.25",
            "1e15", "4503599627370497.5", "1e10"]
FFLTS = ["0.5", "-0.5", "1.5", "2.5", "-2.5", "0.25", "10.125", "3.0", "-1.0", "0.0", "0.1", "99.9", "-7.75"]


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def pyeval(e, env):
    """roughly the value of a function on the document: (kind, value) or None.  Only used to choose constants"""
    if e["o"] == "f":
        v = env.get(tuple(e["p"]))
    elif e["o"] == "v":
        v = e["c"]
    else:
        a = [pyeval(x, env) for x in e["a"]]
        if any(x is None for x in a):
            return None
        try:
            n = e["n"]
            if n in ARITH:
                (ka, x), (kb, y) = a
                if ka == "i" and kb == "i":
                    if n == "mathDivide":
                        return "i", Fraction(trunc_div(int(x), int(y)))
                    if n == "mathModulo":
                        return "i", x - y * trunc_div(int(x), int(y))
                    k = "i"
                else:
                    k = "f"
                    if n == "mathModulo":
                        return None
                r = {"mathAdd": lambda: x + y, "mathSubract": lambda: x - y, "mathMultiply": lambda: x * y, "mathDivide": lambda: x / y}[n]()
                return k, r
            k, x = a[0]
            if n == "mathNegate":
                return k, -x
            if n == "mathAbs":
                return k, abs(x)
            if n == "mathCeil":
                return "f", Fraction(math.ceil(x))
            if n == "mathFloor":
                return "f", Fraction(math.floor(x))
            if n == "mathRound":
                return k, Fraction(math.floor(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1)
            if n == "mathPow":
                return "f", Fraction(float(a[0][1]) ** float(a[1][1]))
            if n == "mathAtan2":
                return "f", Fraction(math.atan2(float(a[0][1]), float(a[1][1])))
            return "f", Fraction(PYF[n](float(x)))
        except (ArithmeticError, ValueError, TypeError, KeyError):
            return None
    if v is None or v["t"] != "num":
        return None
    return ("f" if v["k"] == "f" else "i"), Fraction(v["g"])


def fnum(rng, big):
    k = rng.random()
    if big and k < 0.4:
        return jint(rng.choice(BIGINTS))
    if big and k < 0.6:
        return num("f", Fraction(rng.choice(HUGEFLTS)))
    if k < 0.7:
        return jint(rng.choice(FINTS))
    return num("f", Fraction(rng.choice(FFLTS)))


def func_tree(rng, depth, env, big):
    def arg(d):
        k = rng.random()
        if d > 0 and k < 0.35:
            return func_tree(rng, d, env, big)
        v = fnum(rng, big)
        if k < 0.75:
            key = rng.choice(["a", "b", "c", "d"])
            if (key,) not in env:
                j = rng.random()
                env[(key,)] = v if j < 0.93 else rng.choice([S("5"), NULL, TRUE, A(jint(1)), None, S("x")])
            return f([key])
        return c(const_of(rng, v))
    k = rng.random()
    if k < 0.5:
        return fn(rng.choice(ARITH), arg(depth - 1), arg(depth - 1))
    if k < 0.58:
        return fn("mathNegate", arg(depth - 1))
    if k < 0.82:
        return fn(rng.choice(["mathAbs", "mathCeil", "mathFloor", "mathRound"]), arg(depth - 1))
    if k < 0.88:
        p = fn("mathPow", c(rng.choice([jint(2), jint(3), jint(-2), num("f", Fraction(1, 2)), jint(10), num("f", Fraction(4))])),
               c(rng.choice([jint(0), jint(1), jint(2), jint(3), num("f", Fraction(1, 2)), num("f", Fraction(2))])))
    elif k < 0.91:
        p = fn("mathAtan2", c(tnum(rng, ["0", "1", "-1", "2"])), c(tnum(rng, ["0", "1", "-1", "0.5"])))
    else:
        p = fn(rng.choice(list(PYF)), c(tnum(rng, TABLEARGS)))
    # usually over fields
    for i, x in enumerate(p["a"]):
        key = rng.choice(["e", "g", "h", "i"])
        if rng.random() < 0.85 and (key,) not in env:
            env[(key,)] = docnum(x["c"])
            p["a"][i] = f([key])
    return p


def tnum(rng, l):
    t = rng.choice(l)
    fr = Fraction(t)
    if fr.denominator == 1 and rng.random() < 0.6:
        return jint(int(fr))
    return num("f", fr)


def docnum(v):
    return num("f", Fraction(v["g"])) if v["k"] == "f" else jint(int(Fraction(v["g"])))


def func_cases(rng, n):
    pairs = []
    for i in range(n):
        env = {}
        big = rng.random() < 0.3
        e = func_tree(rng, rng.choice([1, 1, 2, 3]), env, big)
        val = pyeval(e, env)
        cands = []
        if val is not None:
            k, x = val
            if k == "i" and x.denominator == 1:
                for d in (0, 1, -1):
                    m = int(x) + d
                    if I64MIN <= m <= U64:
                        cands.append(const_of(rng, jint(m)))
            if abs(x) >= 10**6 and abs(x) < 10**39 and k == "f":
                for q in (x, x * Fraction(1001, 1000), x * Fraction(999, 1000)):
                    cands.append(num("f", Fraction(float(q))))
            if abs(x) < 10**9:
                q = Fraction(round(x * 10**6), 10**6) if x.denominator > 10**6 else x
                for d in (0, Fraction(1, 100), Fraction(-1, 100), Fraction(1, 1000)):
                    cands.append(num("f", Fraction(round((q + d) * 10**9), 10**9)))
        cands.append(const_of(rng, fnum(rng, big)))
        if val is None:
            cands += [rng.choice([S("a"), NULL, TRUE, S("5")]), I(0), I(1)]
        es = []
        for cc in rng.sample(cands, min(3, len(cands))) + cands[:1]:
            es += [cmp(o, e, c(cc)) for o in CMPS]
        es += [cmp(rng.choice(["lt", "gt", "eq"]), c(cands[0]), e)]
        if rng.random() < 0.3:
            env2 = dict(env)
            e2 = func_tree(rng, 1, env2, big)
            env = env2
            es += [cmp(o, e, e2) for o in ("eq", "lt", "ge")]
        kv = [(k[0], v) for k, v in env.items() if v is not None]
        rng.shuffle(kv)
        docs = [O(*kv)]
        if kv and rng.random() < 0.3:
            docs.append(O(*kv[1:]))
        if kv and rng.random() < 0.4:
            docs.append(O(*[(k, fnum(rng, big)) if rng.random() < 0.6 else (k, v) for k, v in kv]))
        pairs.append((es, docs))
    return pairs


# ---- regular expressions ----

BADRX = ["(", ")", "[", "a(", "[a", "*", "+a", "?", "a**", "(?P<", "\\", "a{2,1}", "[z-a]", "(?<!a)b", "x{1001}", "(a", "[[:foo:]]", "\\8"]


def bad_regexes(rng):
    return BADRX


def rx_sample(rng, r, budget=12):
    """some string of the language, as codes"""
    o = r["o"]
    if o in ("emp", "bol", "eol", "wb", "nwb"):
        return []
    if o in ("mbol", "meol"):
        return rng.choice([[], [10]])
    if o == "chr":
        return [r["c"]]
    if o == "any":
        return [ord(rng.choice("abc1 z"))]
    if o == "cls":
        if not r["neg"]:
            a, b = rng.choice(r["s"])
            x = rng.randint(a, b)
            return [b if 0xD800 <= x < 0xE000 else x]
        for _ in range(10):
            x = ord(rng.choice("abc1 zXé"))
            if not any(a <= x <= b for a, b in r["s"]):
                return [x]
        return []
    if o == "cat":
        return [x for y in r["e"] for x in rx_sample(rng, y)]
    if o == "alt":
        return rx_sample(rng, rng.choice(r["e"]))
    n = {"star": rng.choice([0, 1, 2, 3]), "plus": rng.choice([1, 2, 3]), "opt": rng.choice([0, 1])}[o]
    return [x for _ in range(n) for x in rx_sample(rng, r["e"])]


def regex_cases(rng, n, rich=False):
    pairs = []
    for i in range(n):
        chars = rng.choice(["ab", "abc1", "a.b", "a\\\"", "aé\U0001F600", "ab\n", "a b"]) if not rich else rng.choice(["ab1", "aB_-", "ab \n", "aé1", "AbC 9"])
        es = []
        rs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rich:
                r = G.rx_rich(rng, rng.choice([0, 1, 2, 3]), chars)
                at = rng.choice(["", "", "^", "$", "^$"])
                r = {"o": "cat", "e": [{"o": "bol"}] * ("^" in at) + [r] + [{"o": "eol"}] * ("$" in at)} if at else r
                r = {"o": "re", "r": r, "s": G.rx_text(r)}
            else:
                r = G.rx(rng, rng.choice([0, 1, 2, 3, 4]), chars)
            rs.append(r)
            l = {"o": "like", "l": f(rng.choice([["s"], ["s"], ["o", "s"], ["arr", "[0]"]])), "r": r}
            k = rng.random()
            if k < 0.2:
                l = {"o": "not", "e": l}
            elif k < 0.3:
                l = {"o": rng.choice(["and", "or"]), "e": [l, {"o": "ex", "l": f(["t"])}]}
            elif k < 0.4:
                l = {"o": rng.choice(G.LOOPS), "v": 1, "l": f(["arr"]), "b": {"o": "like", "l": f([], 1), "r": r}}
            es.append(l)
        docs = []

        def string():
            k = rng.random()
            if k < 0.5:
                cs = rx_sample(rng, rng.choice(rs)["r"])[:14]
                if rng.random() < 0.35:
                    cs = [ord(rng.choice(chars))] * rng.randint(0, 2) + cs + [ord(rng.choice(chars))] * rng.randint(0, 2)
                return {"t": "str", "c": cs}
            if k < 0.85:
                return {"t": "str", "c": [ord(rng.choice(chars)) for _ in range(rng.choice([0, 1, 2, 3, 5]))]}
            return rng.choice([NULL, TRUE, jint(1), F("1.5"), A(S("a")), O(("a", S("a"))), jint(11)])
        for _ in range(5):
            kv = [("s", string()), ("o", O(("s", string()))), ("arr", A(*[string() for _ in range(rng.randint(0, 3))])), ("t", jint(1))]
            kv = [x for x in kv if rng.random() < 0.85]
            d = O(*kv)
            docs.append((d, doc_bytes(d, Style(rng, 0, rng.choice([0, 0.4])))))
        pairs.append((es, docs))
    return pairs


# ---- dates ----

def date_text(rng, kind=None):
    y = rng.choice([1999, 2000, 2016, 2017, 2017, 2017, 2018, 2020, 1900])
    m = rng.choice([1, 2, 2, 3, 6, 12, 11])
    d = rng.choice([1, 1, 2, 15, 28, 29, 30, 31])
    if rng.random() < 0.8:
        import calendar
        d = min(d, calendar.monthrange(y, m)[1])
    h, mi, s = rng.choice([0, 0, 1, 12, 22, 23]), rng.choice([0, 0, 30, 59]), rng.choice([0, 0, 1, 59])
    k = kind or rng.choice(["y", "ym", "ymd", "rfc", "rfc", "rfc", "rfcf", "cb", "bad"])
    if k == "y":
        return "%04d" % y
    if k == "ym":
        return "%04d-%02d" % (y, m)
    if k == "ymd":
        return "%04d-%02d-%02d" % (y, m, d)
    if k == "cb":
        return "%04d-%02d-%02d%s%02d:%02d:%02d" % (y, m, d, " " * rng.choice([1, 1, 1, 2, 4]), h, mi, s)
    if k in ("rfc", "rfcf"):
        fr = ""
        if k == "rfcf":
            fr = "." + rng.choice(["0", "5", "50", "500000000", "000000001", "123456789", "1", "999999999", "100"])
        z = rng.choice(["Z", "Z", "+00:00", "-00:00", "+01:00", "-01:00", "+05:30", "-08:00", "+14:00", "-23:59", "+23:59"])
        return "%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (y, m, d, h, mi, s, fr, z)
    t = list(date_text(rng, rng.choice(["y", "ym", "ymd", "rfc", "cb"])))
    j = rng.random()
    p = rng.randrange(len(t))
    if j < 0.4:
        t[p] = rng.choice("0123456789")
    elif j < 0.6:
        t.pop(p)
    elif j < 0.8:
        t.insert(p, rng.choice("0 9x"))
    else:
        return rng.choice(["", "x", "2017-13", "2017-00-01", "2017-02-30", "2017-06-01T24:00:00Z", "2017-06-01T10:60:00Z", "3017", "17", "2017-06-01T10:00:00",
                           "2017-06-01 10:00:00Z", "2017-6-1", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "1815-06-18T12:00:00Z"])
    return "".join(t)


def avoid_date(t):
    """forms on which Go's parser is more liberal than RFC 3339"""
    import re
    if re.search(r"T\d:|T\d\d:\d:|\d[.,]\d{10,}|,|[+-](24:\d\d|\d\d:60)$", t):
        return True
    return bool(re.search(r"\d\d\d\d[ /.]\d\d", t)) and not re.match(r"^\d{4}-\d\d-\d\d +\d\d:\d\d:\d\d", t)


def a_date(rng, kind=None):
    while True:
        t = date_text(rng, kind)
        if not avoid_date(t):
            return t


def date_cases(rng, n):
    pairs = []
    for i in range(n):
        es = []
        texts = [a_date(rng) for _ in range(4)]
        for _ in range(3):
            const = a_date(rng, rng.choice(["y", "ym", "ymd", "rfc", "rfcf"]))
            if not valid_const(const):
                const = "2017-06-01"
            t = {"o": "time", "c": codes(const)}
            da, db = fn("date", f(["a"])), fn("date", f(["b"]))
            k = rng.random()
            l, r = (f(["a"]), t) if k < 0.3 else (da, t) if k < 0.5 else (da, db) if k < 0.7 else (t, da) if k < 0.8 else \
                (da, fn("date", c(S(rng.choice(texts))))) if k < 0.9 else (t, {"o": "time", "c": codes("2017-06-01T00:00:00Z")})
            es += [cmp(o, l, r) for o in (CMPS if rng.random() < 0.3 else rng.sample(CMPS, 2))]
            if l["o"] == "f":
                texts.append(const)
        if rng.random() < 0.3:
            es = es[:1]
        docs = []
        for _ in range(6):
            va, vb = S(rng.choice(texts)), S(rng.choice(texts))
            if rng.random() < 0.12:
                va = rng.choice([jint(2017), NULL, TRUE, A(), O(), F("2017.0")])
            kv = [("a", va), ("b", vb)]
            rng.shuffle(kv)
            docs.append(O(*kv[:2 if rng.random() < 0.9 else 1]))
        pairs.append((es, docs))
    return pairs


def instant_text(rng, t, ns):
    """the point in time t (UTC) and ns nanoseconds, in one of its spellings"""
    import datetime
    forms = ["rfc"] * 3 + ["off"] * 3
    if ns == 0 and 1900 <= t.year <= 2099:
        forms += ["cb"] * 2
        if (t.hour, t.minute, t.second) == (0, 0, 0):
            forms += ["ymd"] * 3
            if t.day == 1:
                forms += ["ym"] * 3
                if t.month == 1:
                    forms += ["y"] * 3
    k = rng.choice(forms)
    if k == "y":
        return "%04d" % t.year
    if k == "ym":
        return "%04d-%02d" % (t.year, t.month)
    if k == "ymd":
        return "%04d-%02d-%02d" % (t.year, t.month, t.day)
    if k == "cb":
        return "%04d-%02d-%02d%s%02d:%02d:%02d" % (t.year, t.month, t.day, " " * rng.choice([1, 1, 2]), t.hour, t.minute, t.second)
    z = "Z"
    if k == "off":
        sign, h, m = rng.choice([1, -1]), rng.choice([0, 1, 2, 5, 9, 10, 12, 14, 19, 20, 23]), rng.choice([0, 0, 15, 30, 45, 59, 1])
        t = t + sign * datetime.timedelta(hours=h, minutes=m)
        z = "%s%02d:%02d" % ("+" if sign > 0 else "-", h, m)
    fr = ""
    if ns or rng.random() < 0.1:
        fr = ".%09d" % ns
        if rng.random() < 0.6:
            fr = fr.rstrip("0") if ns else ".0"
    return "%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (t.year, t.month, t.day, t.hour, t.minute, t.second, fr, z)


def date_neighbours(rng, n):
    """points in time which are next to one another, or the same, in all spellings"""
    import datetime
    pairs = []
    deltas = [0, 0, 1, 2, 999, 1000, 1001, 999999, 10 ** 6, 10 ** 6 + 1, 10 ** 9 - 1, 10 ** 9, 10 ** 9 + 1, 60 * 10 ** 9, 3600 * 10 ** 9, 86400 * 10 ** 9, 86399 * 10 ** 9]
    for _ in range(n):
        y = rng.choice([1900, 1904, 1969, 1970, 1999, 2000, 2001, 2016, 2019, 2020, 2037, 2038, 2039, 2099, 1500, 1677, 1678, 1815, 2100, 2262, 2263, 2400, 3017, 9000])
        t = rng.choice([datetime.datetime(y, 1, 1), datetime.datetime(y, 3, 1), datetime.datetime(y, 12, 31, 23, 59, 59), datetime.datetime(y, rng.randint(1, 12), 1),
                        datetime.datetime(y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)),
                        datetime.datetime(y, rng.randint(1, 12), rng.randint(1, 28))])
        ns0 = rng.choice([0, 0, 0, 1, 999999999, 500000000, 123456789])

        def at(d):
            k = t.replace(microsecond=0)
            total = ns0 + d
            return instant_text(rng, k + datetime.timedelta(seconds=total // 10 ** 9), total % 10 ** 9)
        base = at(0)
        texts = [base] + [at(rng.choice([1, -1]) * d) for d in rng.sample(deltas, 5)]
        const = next(x for x in (at(0) for _ in range(60)) if valid_const(x))
        da, db, tc = fn("date", f(["a"])), fn("date", f(["b"])), {"o": "time", "c": codes(const)}
        es = [cmp(o, da, tc) for o in rng.sample(CMPS, 3)] + [cmp(rng.choice(CMPS), tc, da), cmp(rng.choice(CMPS), da, db), cmp(rng.choice(["lt", "eq", "ge"]), da, db)]
        docs = [O(("a", S(x)), ("b", S(rng.choice(texts)))) for x in texts]
        pairs.append((es, docs))
    return pairs


def date_tables(rng):
    """every year, month, day, hour, minute and second of the forms, valid and not, against its neighbours"""
    pairs = []

    def add(texts, const):
        da, tc = fn("date", f(["a"])), {"o": "time", "c": codes(const)}
        pairs.append(([cmp(o, da, tc) for o in ("lt", "eq", "gt")], [O(("a", S(x))) for x in texts if not avoid_date(x)]))
    for y in range(1895, 2106):
        add(["%d" % y, "%d-01" % y, "%d-12-31" % (y - 1), "%d-02-29" % y], "%d-01-01T00:00:00Z" % y)
    for y in (2019, 2020, 1900, 2000):
        for m in range(0, 14):
            ym = "%d-%02d" % (y, m)
            add([ym] + [ym + "-%02d" % d for d in range(0, 33)], "%d-%02d-15" % (y, min(12, max(1, m))))
    for k in range(0, 25):
        for z, p in (("T%sZ", "Z"), (" %s", ""), ("T%s+00:00", "")):
            add(["2019-03-10" + z % ("%02d:%02d:00" % (k, mi)) for mi in (0, 1, 29, 59, 60)], "2019-03-10T%02d:29:00Z" % min(23, k))
    for k in range(0, 61):
        for z in ("T10:%02d:00Z", " 10:%02d:00", "T10:10:%02dZ", " 10:10:%02d", "T10:10:%02d.5Z"):
            add(["2019-03-10" + z % j for j in (k, (k + 1) % 60, (k + 59) % 60)], "2019-03-10T10:%s:00Z" % ("%02d" % (k % 60) if ":00" in z else "10") if rng.random() < 0.5 else "2019-03-10T10:10:%02dZ" % (k % 60))
    for h in range(0, 25):
        for m in (0, 15, 30, 59, 60):
            for s in "+-":
                add(["2019-03-10T12:00:00%s%02d:%02d" % (s, h, m)], "2019-03-10T%02d:%02d:00Z" % ((12 + h) % 24 if s == "-" else (36 - h) % 24, m % 60 if s == "-" else (60 - m) % 60))
    for b in ("1", "20", "201", "20190", "0999", "1899", "2100", "20 9", "2O19", "2019-", "-2019", "2019-1", "2019-001", "2019-01-1", "2019-01-001", " 2019", "2019 ", "2019-01-01T", "2019-01-01 ",
              "2019-01-01 10:10", "2019-01-01 1:10:10", "2019-01-01 10:10:1", "2019-01-01 10:10:100", "2019-01-01 10:10:10Z", "2019-01-01 10:10:10.5", "2019-01-01T10:10Z", "2019-01-01T10:10:10z",
              "2019-01-01t10:10:10Z", "2019-01-01T10:10:10+1:00", "2019-01-01T10:10:10+0100", "2019-01-01T10:10:10+01", "2019-01-01T10:10:10.Z", "2019-01-01T10:10:10Z ", "x2019-01-01T10:10:10Z",
              "2019-01-01T10:10:10ZZ", "2019-01-01T10:10:10", "2019-02-29T10:10:10Z", "2019-04-31T10:10:10Z", "2019-13-01T10:10:10Z", "2019-00-01T10:10:10Z", "2019-01-00T10:10:10Z", "12019-01-01T10:10:10Z",
              "2019-01-01\n", "\n2019", "2019\n", "2019-01-01 10:10:10\n", "2019-01-01\t10:10:10", "20190101", "2019-02-30 10:10:10", "2019-04-31 00:00:00", "2019-01-01 24:00:00"):
        add([b], rng.choice(["2019-01-01", "2019"]))
    return pairs


def valid_const(t):
    import re, datetime
    try:
        if re.fullmatch(r"(19|20)\d\d", t):
            return True
        if re.fullmatch(r"(19|20)\d\d-\d\d", t):
            datetime.date(int(t[:4]), int(t[5:]), 1)
            return True
        if re.fullmatch(r"(19|20)\d\d-\d\d-\d\d", t):
            datetime.date(int(t[:4]), int(t[5:7]), int(t[8:]))
            return True
        m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d{1,9})?(Z|[+-](\d\d):(\d\d))", t)
        if m:
            datetime.datetime(*[int(x) for x in m.groups()[:6]])
            return m.group(9) is None or (int(m.group(9)) < 24 and int(m.group(10)) < 60)
    except ValueError:
        pass
    return False


# ---- what the slow matcher supports ----

def slow_cases(rng, n):
    return [p for _ in range(n // 20) for p in slow_group(rng, 20)]


def slow_group(rng, n):
    """documents of a fixed shape, so that every comparison is one of present fields of the same type"""
    nums = [F("0.0"), F("1.0"), F("2.0"), F("-1.5"), F("100.25")]
    strs = [S(x) for x in ["", "a", "ab", "b", "é", "x\"y", "a/b"]]
    if rng.random() < 0.4:
        nums = [F(x) for x in rng.sample(["0.0", "-0.5", "0.25", "3e19", "1e19", "2e19", "-3e19", "1e18", "4294967296.5", "4294967296.0", "1e15", "1000000.25", "1000000.5", "-1000000.5", "1024.0"], 5)]
    if rng.random() < 0.4:
        strs = [S(x) for x in rng.sample(PLAIN, 6)]
    kinds = {"n": nums, "s": strs, "b": [TRUE, FALSE], "z": [NULL]}
    base = [k + i for k in kinds for i in "12"] + ["o", "l"]
    names = dict(zip(base, rng.sample(ODDKEYS, len(base)) if rng.random() < 0.3 else base))

    def obj(d):
        m = [(names[k + i], rng.choice(vs) if not (k == "n" and rng.random() < 0.5) else jint(rng.choice([0, 1, 2, -1]))) for k, vs in kinds.items() for i in "12"]
        if d > 0:
            m += [(names["o"], obj(d - 1)), (names["l"], A(*[obj(d - 1) for _ in range(rng.choice([0, 1, 2, 3]))]))]
        rng.shuffle(m)
        return O(*m)

    def field(k, scope):
        v, d = rng.choice(scope)
        p = []
        while d > 0 and rng.random() < 0.4:
            p.append(names["o"])
            d -= 1
        return f(p + [names[k + rng.choice("12")]], v)

    def expr(depth, scope, nv):
        k = rng.random()
        if depth == 0 or k < 0.25:
            t = rng.choice("nnnsssbbz")
            l = field(t, scope)
            r = field(t, scope) if rng.random() < 0.3 else c(rng.choice(kinds[t]))
            return cmp(rng.choice(CMPS), l, r)
        loopable = [(v, d) for v, d in scope if d > 0]
        if k < 0.5 and loopable:
            v, d = rng.choice(loopable)
            w = rng.randint(1, 2) if rng.random() < 0.25 else nv    # hides the variable of a loop around it
            return {"o": "any", "v": w, "l": f([names["l"]], v), "b": expr(depth - 1, [x for x in scope if x[0] != w] + [(w, d - 1)], nv + 1)}
        return {"o": rng.choice(["and", "or"]), "e": [expr(depth - 1, scope, nv + 10 * i + 10) for i in range(rng.randint(1, 3))]}

    def doc():
        d = obj(2)
        return (d, doc_bytes(d if len(set(ODDKEYS) & set(names.values())) else noisy(rng, d) if rng.random() < 0.3 else d,
                             Style() if rng.random() < 0.5 else Style(rng, 0.3, 0.3, True, 0.3)))

    def exprs():
        if rng.random() < 0.8:
            return [expr(rng.choice([1, 2, 3]), [(0, 2)], 1)]
        return [rng.choice([TRUEX, FALSEX]) if rng.random() < 0.15 else expr(rng.choice([0, 1, 2]), [(0, 2)], 100 * i + 1) for i in range(rng.choice([1, 2, 2, 3]))]
    return [(exprs(), [doc() for _ in range(4)]) for _ in range(n)]


def slow_mixed(rng, n):
    """what the slow matcher does not support as well: values of other types, containers, missing fields, loops over values which
    are not arrays, integer constants, and documents which are cut off"""
    vals = [NULL, TRUE, FALSE, jint(0), jint(1), jint(2**60), F("1.0"), F("0.0"), F("2.5"), S(""), S("a"), S("1"), S("true"), A(), A(jint(1)), A(S("a"), NULL),
            O(), O(("a", jint(1))), O(("a", S("a")), ("b", A(jint(1))))]
    consts = [F("1.0"), F("0.0"), F("2.5"), S(""), S("a"), S("1"), TRUE, FALSE, NULL, I(1), I(0)]

    def field(scope):
        return f(rng.choice([["a"], ["b"], ["c"], ["a", "a"], ["a", "b"], ["b", "a"], ["x"], ["a", "a", "a"], ["c", "[0]"]]), rng.choice(scope))

    def expr(d, scope, nv):
        k = rng.random()
        if d == 0 or k < 0.3:
            ops = [field(scope) if rng.random() < 0.9 or scope == [0] else f([], scope[-1]), c(rng.choice(consts)) if rng.random() < 0.65 else field(scope)]
            if rng.random() < 0.2:
                ops.reverse()
            return cmp(rng.choice(CMPS), *ops)
        if k < 0.55:
            w = rng.randint(1, 2) if rng.random() < 0.25 else nv
            return {"o": "any", "v": w, "l": field(scope), "b": expr(d - 1, scope + [w], nv + 1)}
        return {"o": rng.choice(["and", "or"]), "e": [expr(d - 1, scope, nv + 10 * i + 10) for i in range(rng.randint(1, 3))]}

    def doc():
        ks = [x for x in "abc" if rng.random() < 0.85]
        d = O(*[(x, rng.choice(vals) if rng.random() < 0.75 else A(*[rng.choice(vals) for _ in range(rng.randint(0, 3))])) for x in ks])
        b = doc_bytes(d)
        if rng.random() < 0.1:
            return prefix_doc(b[:rng.randrange(1, len(b))])
        return d, b
    pairs = []
    for _ in range(n):
        es = [expr(rng.choice([0, 1, 2, 3]), [0], 100 * i + 1) for i in range(rng.choice([1, 1, 1, 2, 3]))]
        pairs.append((es, [d for d in (doc() for _ in range(5)) if "cutdoc" not in d[0] or not any_ff(es)]))
    return pairs


def hidden_variables(loops=("any",)):
    """loops with the variable of the loop around them, which is visible again behind them"""
    out = []
    x1, two = f([], 1), c(F("2.0"))
    arrs = [A(), A(jint(1)), A(jint(2)), A(jint(1), jint(2)), A(jint(3), jint(2), jint(1))]
    for conj, lo in [(x, y) for x in ("and", "or") for y in loops]:
        for op in CMPS:
            for l, docs in ((f(["b"]), [O(("a", x), ("b", y)) for x in arrs for y in arrs]),
                            (x1, [O(("a", A(x, y))) for x in arrs for y in arrs])):
                inner = {"o": lo, "v": 1, "l": l, "b": cmp("eq", x1, c(F("1.0")))}
                for es in ([inner, cmp(op, x1, two)], [cmp(op, x1, two), inner]):
                    out.append(([{"o": lo, "v": 1, "l": f(["a"]), "b": {"o": conj, "e": es}}], docs))
            e = {"o": lo, "v": 1, "l": f(["a"]), "b": {"o": conj, "e": [
                {"o": lo, "v": 1, "l": f(["x"], 1), "b": {"o": conj, "e": [{"o": lo, "v": 1, "l": f(["x"], 1), "b": cmp(op, x1, two)}, cmp(op, f(["y"], 1), two)]}},
                cmp(op, f(["y"], 1), two)]}}
            ys = [jint(1), jint(2), jint(3)]
            out.append(([e], [O(("a", A(O(("x", A(O(("x", A(p)), ("y", q)))), ("y", r)), O(("y", p), ("x", A(O(("y", r), ("x", A(q)))))))))
                              for p in ys for q in ys for r in ys]))
    return out


def slow_tables(rng):
    """every pair of values of a type, with every operator, as constants and as fields"""
    strs = [S(x) for x in ["", "a", "b", "A", "aa", "ab", "a ", " a", "a\u0000", "\u0000", "é", "z", "\uffff", "\U0001F600", "10", "9", "a\nb", "\"", "\\"]]
    nums = [F(x) for x in ["0.0", "1.0", "-1.0", "0.5", "-0.5", "1.5", "2.0", "10.0", "9.0", "100.25", "-100.25", "1e15", "-1e15", "1e20", "123456.789"]]
    pairs = []
    for vs in (strs, nums, [TRUE, FALSE], [NULL]):
        for op in CMPS:
            for y in vs:
                docs = [O(("a", x), ("b", y)) for x in vs]
                pairs.append(([cmp(op, f(["a"]), c(y))], docs))
                pairs.append(([cmp(op, c(y), f(["a"]))], docs))
                if rng.random() < 0.3:
                    pairs.append(([cmp(op, f(["a"]), f(["b"]))], docs))
                    pairs.append(([cmp(op, f(["b"]), f(["a"]))], docs))
                if rng.random() < 0.3:
                    pairs.append(([{"o": "any", "v": 1, "l": f(["l"]), "b": cmp(op, f([], 1), c(y))}], [O(("l", A(*rng.sample(vs, rng.randint(0, len(vs)))))) for _ in range(6)]))
    return pairs


# ---- tables of functions ----

ROUNDARGS = ["0.49999", "0.5", "0.50001", "1.49999", "1.5", "2.5", "3.5", "-0.49999", "-0.5", "-0.50001", "-1.5", "-2.5", "-3.5", "-2.50001",
             "0.00002", "-0.00002", "0.99999", "-0.99999", "1000.5", "-1000.5", "123456.5", "999999.99", "0.25", "-7.75", "3.0", "-3.0", "0.0"]
EDGEINTS = [0, 1, -1, 2, -2, 3, -3, 7, -7, 2**31, -2**31, 2**53 + 1, 2**62, -2**62, 2**63 - 1, -2**63, -2**63 + 1, 2**63, 2**63 + 2, 2**64 - 2, 2**64 - 1]
EDGEFLTS = ["0.5", "-0.5", "2.5", "-1.25", "0.0", "3.0", "-4.0", "0.1", "1e15", "1e20"]
NONNUM = [S("5"), S(""), S("2019"), S("2019-01-02"), NULL, TRUE, FALSE, A(), A(jint(1)), O(), O(("x", jint(1)))]
DATEARGS = ["2019", "2019-01", "2019-01-02", "2019-01-02T03:04:05Z", "2019-01-02 03:04:05", "2019-01-02T03:04:05.5+01:00", "2019-13", "19", "x"]
UNARY = ["mathNegate", "mathAbs", "mathCeil", "mathFloor", "mathRound"] + list(PYF)


def around(rng, val):
    """constants at and around a result"""
    if val is None:
        return [I(0), I(1), NULL, S(""), S("5")]
    k, x = val
    r = []
    if k == "i" and x.denominator == 1:
        for d in (0, 1, -1):
            m = int(x) + d
            if I64MIN <= m <= U64:
                r.append(const_of(rng, jint(m)))
    if k == "f" and abs(x) >= 10**6 and abs(x) < 10**39:
        r += [num("f", Fraction(float(q))) for q in (x, x * Fraction(1001, 1000), x * Fraction(999, 1000))]
    elif abs(x) < 10**6:
        q = Fraction(round(x * 10**6), 10**6) if x.denominator > 10**6 else x
        r += [num("f", Fraction(round((q + d) * 10**9), 10**9)) for d in (0, Fraction(1, 2), Fraction(-1, 2), Fraction(1, 1000), Fraction(-1, 1000))]
        if x.denominator == 1:
            r += [const_of(rng, jint(int(x)))]
    return r or [I(0)]


def func_tables(rng, share):
    """every function on every one of a list of values and pairs of values"""
    pairs = []
    a, b = f(["a"]), f(["b"])
    vals = [jint(n) for n in sorted(set(FINTS + BIGINTS + EDGEINTS))] + [num("f", Fraction(t)) for t in ROUNDARGS + HUGEFLTS]
    for n in UNARY:
        trans = n in PYF
        vs = [tnum(rng, [t]) for t in TABLEARGS] if trans else vals
        for v in vs + NONNUM:
            if trans and v["t"] != "num" and rng.random() > 0.3:
                continue
            es = []
            env = {("a",): v}
            form = [fn(n, a)]
            if v["t"] == "num" and rng.random() < 0.5:
                form.append(fn(n, c(const_of(rng, v))))
            for e in form:
                cs = around(rng, pyeval(e, env))
                es += [cmp("eq", e, c(x)) for x in cs] + [cmp(o, e, c(x)) for o in ("lt", "gt") for x in cs[:3]] + \
                      [cmp(rng.choice(["le", "ge", "ne"]), e, c(x)) for x in cs[:2]] + [cmp(rng.choice(["lt", "ge", "eq"]), c(cs[0]), e)]
            pairs.append((es, [O(("a", v))]))
        pairs.append(([cmp(o, fn(n, a), c(I(0))) for o in CMPS], [O(("b", jint(1))), O(("a", NULL)), O(("a", TRUE)), A(jint(1))]))
    nums = [jint(n) for n in EDGEINTS] + [num("f", Fraction(t)) for t in EDGEFLTS]
    for x in nums + NONNUM[:6]:
        for y in nums + NONNUM[:6]:
            if (x["t"] != "num" and y["t"] != "num") or rng.random() > share:
                continue
            env = {("a",): x, ("b",): y}
            es = []
            for n in ARITH:
                l = a if x["t"] != "num" or rng.random() < 0.75 else c(const_of(rng, x))
                r = b if y["t"] != "num" or rng.random() < 0.75 else c(const_of(rng, y))
                e = fn(n, l, r)
                cs = around(rng, pyeval(e, env))
                es += [cmp("eq", e, c(q)) for q in cs[:3]] + [cmp("lt", e, c(cs[-1])), cmp("gt", e, c(cs[0])), cmp("ge", c(cs[0]), e)]
            pairs.append((es, [O(("a", x), ("b", y))]))
    return pairs
