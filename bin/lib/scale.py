"""Expressions and documents of a size which samples do not have: many operands, operators on one field, expressions, elements, long
strings and keys, and deep nesting on either side.  Widths step over the sizes at which counters, stacks and buffers usually end."""
import copy
import sys
sys.setrecursionlimit(5000)
from values import *
import gen as G
from gen import f, c, cmp, fn
import pools

WIDTHS = [7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 70, 127, 129, 140, 200, 257]
I = pools.I


def eq1(k, v=0):
    return cmp("eq", f([k] if isinstance(k, str) else k, v), c(I(1)))


def flags(rng, n, p=0.5, name="f"):
    """a document with members f0.., each 1 or 0, some missing"""
    kv = [("%s%d" % (name, i), jint(1 if rng.random() < p else 0)) for i in range(n) if rng.random() < 0.93 or p in (0, 1)]
    rng.shuffle(kv)
    return kv


def balanced(rng, leaves):
    if len(leaves) == 1:
        return leaves[0]
    k = rng.choice([2, 2, 3])
    m = max(1, len(leaves) // k)
    parts = [leaves[i:i + m] for i in range(0, len(leaves), m)]
    e = {"o": rng.choice(["and", "or"]), "e": [balanced(rng, p) for p in parts]}
    return {"o": "not", "e": e} if rng.random() < 0.15 else e


def one_off(rng, n):
    """documents of n flags: all set, none, and all but one"""
    out = []
    for base in (0, 1):
        for k in (None, 0, n - 1, rng.randrange(n)):
            kv = [("f%d" % i, jint(1 - base if i == k else base)) for i in range(n)]
            if rng.random() < 0.5:
                rng.shuffle(kv)
            out.append(O(*kv))
    return out


def wide(rng, n):
    pairs = []
    for _ in range(n):
        w = rng.choice(WIDTHS)
        ls = [eq1("f%d" % i) for i in range(w)]
        rng.shuffle(ls)
        k = rng.random()
        if k < 0.5:
            e = {"o": rng.choice(["and", "or"]), "e": ls}
            docs = one_off(rng, w)
        elif k < 0.75:
            e = balanced(rng, ls)
            docs = [O(*flags(rng, w, p)) for p in (0.2, 0.5, 0.8, 0.97, 1, 0)]
        else:
            ls = [{"o": "not", "e": x} if rng.random() < 0.5 else x for x in ls]
            e = {"o": rng.choice(["and", "or"]), "e": ls}
            docs = [O(*flags(rng, w, p)) for p in (0.1, 0.5, 0.9)]
            # the ones which just decide it
            val = 1 if e["o"] == "and" else 0
            kv = [("f%s" % (x["e"] if x["o"] == "not" else x)["l"]["p"][0][1:], jint(val if x["o"] != "not" else 1 - val)) for x in ls]
            rng.shuffle(kv)
            docs.append(O(*kv))
            docs.append(O(*(kv[:-1] + [(kv[-1][0], jint(1 - int(kv[-1][1]["g"])))])))
        if rng.random() < 0.2:
            e = {"o": "not", "e": e}
        pairs.append(([e], docs))
    return pairs


def same_field(rng, n):
    """many operators on one field, and on the fields below it"""
    pairs = []
    for _ in range(n):
        w = rng.choice(WIDTHS)
        p = rng.choice([["a"], ["a", "b"], ["a", "[0]"]])
        other = rng.random() < 0.4
        ls = []
        for i in range(w):
            x = cmp(rng.choice(["eq", "lt", "gt", "ne"]), f(p), c(I(i)))
            if other and rng.random() < 0.5:
                x = cmp(rng.choice(["eq", "lt", "ge"]), f(p), f(["k%d" % (i % 40)]))
            ls.append(x)
        e = balanced(rng, ls) if rng.random() < 0.6 else {"o": rng.choice(["and", "or"]), "e": ls}
        docs = []
        for _ in range(5):
            v = jint(rng.choice([0, w - 1, w, rng.randrange(w), -1]))
            d = v if p == ["a"] else O(("b", v)) if p[1] == "b" else A(v)
            kv = [("a", d)] + ([("k%d" % i, jint(rng.choice([0, 5, w]))) for i in range(40) if rng.random() < 0.8] if other else [])
            rng.shuffle(kv)
            docs.append(O(*kv))
        pairs.append(([e], docs))
    return pairs


def deep_ops(rng, n):
    pairs = []
    for _ in range(n):
        d = rng.choice([10, 20, 40, 60])
        e = eq1("f0")
        for i in range(1, d):
            k = rng.random()
            if k < 0.3:
                e = {"o": "not", "e": e}
            else:
                x = eq1("f%d" % i)
                e = {"o": rng.choice(["and", "or"]), "e": [x, e] if rng.random() < 0.5 else [e, x]}
        pairs.append(([e], [O(*flags(rng, d, p)) for p in (0.5, 0.5, 0.8, 0.2, 0, 1)]))
    return pairs


def nest(path, v, rng=None, noise=0.0):
    """the document in which the path leads to v"""
    for k in reversed(path):
        if k.startswith("["):
            v = A(*[jint(7) for _ in range(int(k[1:-1]))], v)
        else:
            m = [(k, v)]
            if rng is not None and rng.random() < noise:
                m.insert(rng.randint(0, 1), ("zz", pools.noise_value(rng, 2)))
            v = O(*m)
    return v


def deep_paths(rng, n):
    pairs = []
    for _ in range(n):
        d = rng.choice([5, 12, 20, 33, 48])
        p = [rng.choice(["a", "b", "ab"]) if i == 0 or rng.random() < 0.75 else "[%d]" % rng.choice([0, 1, 2]) for i in range(d)]
        q = p[:rng.randint(1, d - 1)]
        q = q + [rng.choice(["a", "b", "c"])]
        es = [cmp("eq", f(p), c(I(1))), {"o": "and", "e": [cmp("eq", f(p), c(I(1))), {"o": "nex", "l": f(q)}]},
              {"o": "or", "e": [{"o": "ex", "l": f(p + ["x"])}, cmp("ge", f(p), c(I(1)))]}, {"o": "ex", "l": f(q)},
              {"o": "ex", "l": f(p[:-1])}]
        docs = [nest(p, jint(1), rng, 0.3), nest(p, jint(2)), nest(p, O(("x", jint(1)))), nest(p[:-1], NULL), nest(q, jint(1), rng, 0.3)]
        pairs.append((es if rng.random() < 0.4 else [rng.choice(es)], docs))
    # things which are skipped; the specification need not see what is in them
    st = Style()
    for _ in range(n):
        v = jint(1)
        for i in range(rng.choice([20, 60, 130, 300])):
            v = O((rng.choice(["a", "b", "x"]), v)) if rng.random() < 0.5 else A(v)
        v = O(("x", v))
        big = A(*[O(("b", jint(i)), ("a", S("}]"))) for i in range(rng.choice([1, 40, 300]))])
        docs = []
        for k in range(5):
            def doc(v, big):
                return [O(("x", v), ("b", jint(1))), O(("b", jint(1)), ("x", v)), O(("x", O(("y", v), ("b", jint(2)))), ("b", jint(1))),
                        O(("x", big), ("b", jint(1))), O(("x", v), ("b", jint(0)))][k]
            docs.append((doc(O(), A()), doc_bytes(doc(v, big), st)))
        pairs.append(([cmp("eq", f(["b"]), c(I(1)))], docs))
        pairs.append(([{"o": "and", "e": [cmp("eq", f(["b"]), c(I(1))), {"o": "nex", "l": f(["x", "b"])}]}], docs))
    return pairs


SKIPS = [100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1023, 1025, 2049, 5000, 66000]


def skipped(rng, n):
    """values of great depth which no path of the expression enters; the specification need not see what is in them"""
    pairs = []
    sizes = rng.sample(SKIPS[:-1], min(n, len(SKIPS) - 1)) + SKIPS[-1:]
    sizes[0] = rng.choice([257, 300, 513])
    for w in sizes:
        k = rng.random()
        open_ = [b"[" if k < 0.3 else b'{"b":' if k < 0.6 else rng.choice([b"[", b'{"b":', b'{"a":1,"x":', b"[1,"]) for _ in range(w)]
        t = b"".join(open_) + rng.choice([b"1", b"[]", b'"]}"', b"{}"]) + b"".join(b"]" if x[:1] == b"[" else b"}" for x in reversed(open_))
        b1, b0 = jint(1), jint(0)
        docs = []
        for kv in ((("x", t), ("b", b1)), (("b", b1), ("x", t)), (("y", O(("b", b0))), ("x", t), ("b", b0), ("c", b1)),
                   (("b", b1), ("y", A(A())), ("x", t), ("c", NULL)), (("a", b1), ("x", t)), (("a", A(b0, b1)), ("x", t), ("b", b1))):
            v = O(*[(a, O() if isinstance(z, bytes) else z) for a, z in kv])
            docs.append((v, b"{" + b",".join(doc_bytes(S(a)) + b":" + (z if isinstance(z, bytes) else doc_bytes(z)) for a, z in kv) + b"}"))
        es = [cmp("eq", f(["b"]), c(I(1))), {"o": "and", "e": [eq1("b"), {"o": "nex", "l": f(["x", "zz"])}]},
              {"o": "or", "e": [eq1("b"), {"o": "ex", "l": f(["c"])}]}, {"o": "not", "e": {"o": "or", "e": [cmp("eq", f(["b"]), c(I(0))), {"o": "ex", "l": f(["c"])}]}},
              {"o": "ex", "l": f(["x", "zz", "b"])}]
        pairs.append((es if rng.random() < 0.5 else [rng.choice(es)], docs))
        # in an array over which a loop runs
        arr = b"[0," + t + b",1]"
        docs = []
        for last in (1, 0):
            arr = b"[0," + t + b",%d]" % last
            docs.append((O(("a", A(b0, A() if t[:1] == b"[" else O(), jint(last))), ("b", b1)), b'{"a":' + arr + b',"b":1}'))
        lv = {"o": rng.choice(["any", "every", "anyevery"]), "v": 1, "l": f(["a"]), "b": cmp(rng.choice(["eq", "lt"]), f([], 1), c(I(1)))}
        pairs.append(([rng.choice([{"o": "and", "e": [lv, eq1("b")]}, lv, {"o": "or", "e": [lv, eq1("b")]}])], docs))
    return pairs


def loops(rng, n):
    pairs = []
    for _ in range(n):
        k = rng.random()
        if k < 0.35:
            # nested
            d = rng.choice([3, 4, 5, 6])
            body = cmp("eq", f([], d), c(I(1)))
            os_ = [rng.choice(G.LOOPS) for _ in range(d)]
            outer = rng.random() < 0.4
            for i in range(d, 0, -1):
                t = f([], i - 1) if i > 1 else f(["a"])
                if outer and i > 1 and rng.random() < 0.5:
                    body = {"o": rng.choice(["and", "or"]), "e": [body, {"o": "ex", "l": f(["[0]"], i - 1)}]}
                body = {"o": os_[i - 1], "v": i, "l": t, "b": body}

            def arr(j, p):
                if j == 0:
                    return jint(1 if rng.random() < p else 0)
                return A(*[arr(j - 1, p) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))])
            pairs.append(([body], [O(("a", arr(d, p))) for p in (0.5, 0.9, 0.1, 1, 0, 0.7)]))
        elif k < 0.6:
            # long arrays, which one element decides
            w = rng.choice(WIDTHS)
            o = rng.choice(G.LOOPS)
            if rng.random() < 0.5:
                body, t, u = cmp("eq", f([], 1), c(I(1))), jint(1), jint(0)
            else:
                body, t, u = {"o": "and", "e": [eq1("x", 1), {"o": "ex", "l": f(["y"], 1)}]}, O(("x", jint(1)), ("y", NULL)), O(("x", jint(1)))
            e = {"o": o, "v": 1, "l": f(["a"]), "b": body}
            docs = []
            for base, odd in ((t, u), (u, t)):
                for pos in (None, 0, w - 1, rng.randrange(w)):
                    docs.append(O(("a", A(*[odd if i == pos else base for i in range(w)])), ("b", jint(1))))
            e = e if rng.random() < 0.6 else {"o": rng.choice(["and", "or"]), "e": [e, eq1("b")]} if rng.random() < 0.6 else {"o": "not", "e": e}
            pairs.append(([e], docs))
        elif k < 0.8:
            # many loops over one array
            w = rng.choice([5, 12, 20, 33])
            ls = [{"o": rng.choice(G.LOOPS), "v": i + 1, "l": f(["a"]), "b": cmp(rng.choice(["eq", "ne", "lt"]), f([], i + 1), c(I(i % 7)))} for i in range(w)]
            e = balanced(rng, ls)
            docs = [O(("a", A(*[jint(rng.randrange(7)) for _ in range(rng.choice([0, 1, 2, 4, 8]))]))) for _ in range(6)]
            pairs.append(([e], docs))
        else:
            # wide bodies
            w = rng.choice([8, 17, 33, 65])
            ls = [eq1("f%d" % i, 1) for i in range(w)]
            e = {"o": rng.choice(G.LOOPS), "v": 1, "l": f(["a"]), "b": {"o": rng.choice(["and", "or"]), "e": ls}}
            docs = []
            for _ in range(4):
                docs.append(O(("a", A(*[O(*flags(rng, w, rng.choice([0, 1, 0.5, 0.95]))) for _ in range(rng.choice([1, 2, 3]))]))))
            docs.append(O(("a", A(rng.choice(one_off(rng, w)), rng.choice(one_off(rng, w))))))
            pairs.append(([e], docs))
    return pairs


def lists(rng, n):
    """many expressions in one definition"""
    pairs = []
    for _ in range(n):
        w = rng.choice([16, 17, 31, 33, 63, 64, 65, 70, 100, 129, 200])
        es = []
        g = G.Gen(rng, keys=["a", "b", "c", "d"], loops=0.15 if w < 40 else 0.02)
        for i in range(w):
            k = rng.random()
            if k < 0.5:
                es.append(eq1("f%d" % i))
            elif k < 0.55:
                es.append(rng.choice([pools.TRUEX, pools.FALSEX]))
            elif k < 0.7:
                es.append({"o": rng.choice(["and", "or"]), "e": [eq1("f%d" % rng.randrange(w)), eq1("f%d" % rng.randrange(w))]})
            elif k < 0.8:
                es.append(cmp(rng.choice(G.CMPS), f(["f0"]), f(["f%d" % i])))
            else:
                es.append(g.expr(1))
        docs = []
        for p in (0, 0.3, 0.9):
            kv = flags(rng, w, p)
            d = g.obj(1)
            docs.append(O(*(kv + [(m["k"], m["v"]) for m in d["m"]])))
        pairs.append((es, docs))
        # none but one holds
        es = [eq1("f%d" % i) for i in range(w)]
        pairs.append((es, one_off(rng, w)[:4]))
    return pairs


LENS = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000]
BITS = ["a", "b", "\n", "\"", "\\", "/", "\u00e9", "\u20ac", "\U0001F600", "\u0001", " "]


def long_string(rng):
    n = rng.choice(LENS)
    k = rng.random()
    if k < 0.4:
        return codes("x" * n)
    if k < 0.7:
        cs = codes("x" * (n - 1))
        cs.insert(rng.choice([0, n - 1, rng.randrange(n)]), ord(rng.choice(BITS)))
        return cs
    return [ord(rng.choice(BITS)) for _ in range(n)]


def strings(rng, n, keys=True):
    pairs = []
    for _ in range(n):
        cs = long_string(rng)
        s = {"t": "str", "c": cs}
        other = list(cs)
        k = rng.random()
        i = rng.choice([0, len(cs) - 1, rng.randrange(len(cs))])
        if k < 0.4:
            other[i] = 0x79 if other[i] != 0x79 else 0x7A
        elif k < 0.7:
            other.pop(i)
        else:
            other.insert(i, 0x79)
        o = {"t": "str", "c": other}
        es = [cmp("eq", f(["s"]), c(s)), cmp("ne", f(["s"]), c(o)), cmp(rng.choice(["lt", "ge"]), f(["s"]), c(o)), cmp("eq", f(["s"]), f(["w"])),
              cmp("eq", f(["s"]), f(["v"])), cmp(rng.choice(["lt", "gt"]), f(["v"]), f(["w"]))]
        kv = [("s", s), ("w", s), ("v", o)]
        if keys and len(cs) < 600:
            key, okey = text_of(cs), text_of(other)
            kv += [(key, jint(1)), ("k", O((okey, jint(3)), (key, jint(2))))]
            es += [{"o": "ex", "l": f([okey])}, cmp("eq", f([key]), c(I(1))), cmp("eq", f(["k", key]), c(I(2)))]
        rng.shuffle(kv)
        d = O(*kv)
        pairs.append((es, [(d, doc_bytes(d, Style(rng, 0, e))) for e in (0, 0.1, 0.9)]))
    return pairs


def objects(rng, n):
    """large objects, with what is to be removed from them"""
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.4:
            w = rng.choice(WIDTHS + [400])
            keys = ["k%d" % i for i in range(w)]
            rng.shuffle(keys)
            v = O(*[(x, rng.choice([jint(1), S("x"), O(("k1", jint(2)), ("z", NULL)), A(O(("k2", jint(1)), ("y", TRUE)), jint(3)), O()])) for x in keys])
            rm = rng.choice([[], keys[:1], keys[-1:], keys, keys[:-1], keys[1:], rng.sample(keys, w // 2), keys[::2], keys[1::2],
                             ["k1", "k2"], rng.sample(keys, min(w, 20)) + ["zz"] * 20])
        elif k < 0.6:
            d = rng.choice([10, 30, 70, 200])
            v = jint(1)
            for i in range(d):
                m = [("n%d" % (i % 7), v)]
                if rng.random() < 0.5:
                    m.insert(rng.randint(0, 1), ("x%d" % (i % 5), S("}")))
                v = O(*m) if rng.random() < 0.7 else O(("a", A(v))) if rng.random() < 0.5 else O(("a", A(jint(1), A(O(*m)))))
            rm = rng.choice([["x1"], ["x0", "x1", "x2", "x3", "x4"], ["n3"], ["a"], ["n%d" % ((d - 1) % 7)], [], ["x2", "n5"]])
        else:
            cs = long_string(rng)
            key = text_of(long_string(rng)[:rng.choice(LENS)])
            v = O(("a", {"t": "str", "c": cs}), (key, jint(1)), ("b", O((key, S("y")), ("c", {"t": "str", "c": cs}))), ("d", A(*[jint(i) for i in range(rng.choice([1, 200]))])))
            rm = rng.choice([["a"], [key], ["b"], ["c"], ["d"], [key, "a"], [], ["a", "b", "d", key], [key[:-1]], [key + "x"]])
        out.append((v, rm))
    return out


def long_keys(rng, n):
    """keys which differ only in length or after a long common beginning, with what is to be removed"""
    out = []
    for _ in range(n):
        w = rng.choice([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 260, 300, 511, 512, 513, 768, 1024, 1025])
        base = rng.choice(["k", "x", "\u00e9"]) * (w - 1)
        keys = [base + "a", base + "b", base, base + "aa", "k" + base + "a", base[: w // 2], base + "a" * rng.choice([1, 255, 256, 257]), "k", ""]
        ks = rng.sample(keys, rng.randint(2, len(keys)))
        ks = list(dict.fromkeys(ks))
        v = O(*[(k, rng.choice([jint(1), S("x"), O((rng.choice(keys), jint(2)), ("z", NULL)), A(O((rng.choice(keys), TRUE)), jint(3))])) for k in ks])
        for _ in range(2):
            rm = rng.sample(keys + [base + "c", base + "\u00e9"], rng.choice([1, 1, 2, 3, 5]))
            out.append((v, rm))
    return out


def long_tokens(rng, n):
    out = []
    for _ in range(n):
        t = b""
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.random()
            w = rng.choice(LENS[:-3])
            if k < 0.4:
                t += b'"' + b"".join(rng.choice([b"a", b"\\n", b"\\u00e9", b"\xc3\xa9", b"\\\\", b"x", b"y", b"z"]) for _ in range(w)) + b'"'
            elif k < 0.6:
                t += b" " + rng.choice([b"", b"-"]) + b"1" * w + rng.choice([b"", b".", b".5", b"e", b"e5"]) + b" "
            elif k < 0.7:
                t += b" 0." + b"0" * w + b"1" + rng.choice([b",", b"e-3}", b"-"])
            elif k < 0.85:
                t += rng.choice([b" ", b"\n", b"\t", b" \r\n"]) * w
            else:
                t += rng.choice([b"[", b"{", b"]", b",", b":", b"true,", b"null"]) * w
        out.append(t)
    return out


def bulk(rng):
    """one or more members of an object, of a total size of thousands of bytes"""
    k = rng.random()
    big = rng.choice([3000, 5000, 9000, 33000, 66000, 140000])
    if k < 0.25:
        return '"zz":"' + "x" * big + '"'
    if k < 0.35:
        return '"zz":"' + "\\n\\u00e9" * (big // 8) + '"'
    if k < 0.5:
        return ",".join('"zz%d":%d' % (i, i) for i in range(big // 16))
    if k < 0.65:
        return '"zz":[' + ",".join("%d" % (i % 100) for i in range(big // 3)) + "]"
    if k < 0.8:
        return '"zz":[' + ",".join('{"a":[%d,"]"],"b":{}}' % (i % 10) for i in range(big // 22)) + "]"
    if k < 0.9:
        return '"zz":' + " \n\t\r" * (big // 4) + "0"
    return '"zz":{' + ",".join('"a%d":{"a":1}' % i for i in range(big // 14)) + "}"


def vast(rng, n):
    """documents of many thousand bytes, few of which matter; the specification sees a document without the others"""
    pairs = []
    for _ in range(n):
        g = G.Gen(rng, loops=0.25, fieldfield=0.45, likes=0, times=0, docdepth=3)
        es = [g.expr(rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 1, 2]))]
        docs = []
        for _ in range(5):
            d = g.doc_for(es)
            if d["t"] != "obj" or any(pools.compares_containers(e, d) for e in es):
                continue
            at = []

            def put(v, depth=0):
                if v["t"] == "obj":
                    m = [{"k": x["k"], "v": put(x["v"], depth + 1)} for x in v["m"]]
                    if depth == 0 or rng.random() < 0.15:
                        for _ in range(rng.choice([1, 1, 2])):
                            k = "~BULK%d~" % len(at)
                            at.append(k)
                            m.insert(rng.randint(0, len(m)) if rng.random() < 0.6 else 0, {"k": k, "v": jint(0)})
                    return {"t": "obj", "m": m}
                if v["t"] == "arr":
                    return {"t": "arr", "e": [put(x, depth + 1) for x in v["e"]]}
                return v
            b = doc_bytes(put(d)).decode("utf-8")
            for k in at[:4]:
                b = b.replace('"%s":0' % k, bulk(rng))
            docs.append((d, b.encode("utf-8")))
        if docs:
            pairs.append((es, docs))
    return pairs


def long_arrays(rng):
    pairs = []
    for w in (1025, 2050, 2500, 5000):
        o = rng.choice(G.LOOPS)
        e = {"o": o, "v": 1, "l": f(["a"]), "b": cmp("eq", f([], 1), c(I(1)))}
        docs = [O(("a", A(*[jint(1 - base if i == at else base) for i in range(w)])), ("b", jint(1))) for base in (0, 1) for at in (None, w - 1)]
        pairs.append(([{"o": "and", "e": [e, eq1("b")]}], docs))
        pairs.append(([cmp("eq", f(["a", "[%d]" % (w - 1)]), c(I(1)))], docs[1:3]))
    return pairs


def histories(rng, n):
    """matchers which are used many times: 40, 70, 150 and 300 documents"""
    pairs = []
    for i in range(n):
        g = G.Gen(rng, loops=rng.choice([0.1, 0.5]), likes=0.02)
        es = [g.expr(rng.choice([2, 3])) for _ in range(rng.choice([1, 1, 2]))]
        docs = []
        for _ in range(6):
            d = g.doc_for(es)
            docs.append((d, doc_bytes(d)))
        bad = pools.broken(rng, docs[0][1])
        if bad is not None:
            if any(pools.compares_containers(e, bad[0]) for e in es):
                bad[0]["loose"] = True
            docs.append(bad)
        pairs.append((es, [rng.choice(docs) for _ in range((40, 70, 150, 300)[i % 4])]))
    return pairs


def wide_ops(rng):
    pairs = []
    for w in (260, 300, 513, 1030):
        ls = [eq1("f%d" % i) for i in range(w)]
        e = {"o": rng.choice(["and", "or"]), "e": ls}
        pairs.append(([e], one_off(rng, w)[:8:2] + one_off(rng, w)[1:8:2]))
    return pairs


def vast_tables(rng):
    """the sizes once each: operands, fields which are stored, elements, and long strings and keys"""
    pairs = wide_ops(rng) + long_arrays(rng)
    for w in (66, 130, 140, 260):
        # fields which are compared with one another
        e = {"o": rng.choice(["and", "or"]), "e": [cmp("eq", f(["p%d" % i]), f(["q%d" % i])) for i in range(w)]}
        docs = []
        for base in (0, 1):
            for at in (None, 0, w - 1, rng.randrange(w)):
                kv = [("p%d" % i, jint(i)) for i in range(w)] + [("q%d" % i, jint(i if (base == 1) != (i == at) else -1)) for i in range(w)]
                if rng.random() < 0.5:
                    rng.shuffle(kv)
                docs.append(O(*kv))
        pairs.append(([e], docs))
    for w in (4096, 4097, 9000, 70000):
        s, t, u = S("x" * w), S("x" * (w - 1) + "y"), S("x" * (w - 1))
        es = [cmp("eq", f(["a"]), f(["b"])), cmp("lt", f(["a"]), f(["b"]))]
        pairs.append((es, [O(("a", s), ("b", s)), O(("a", s), ("b", t)), O(("b", u), ("a", s)), O(("b", s), ("a", u))]))
    for w in (255, 256, 257, 300, 1025, 5000):
        k, k2 = "k" * w, "k" * (w - 1) + "j"
        es = [eq1(k), cmp("eq", f(["a", k]), c(I(2))), {"o": "ex", "l": f([k2])}, {"o": "nex", "l": f([k[:-1]])}, {"o": "ex", "l": f([k[:255]])}]
        pairs.append((es, [O((k, jint(1))), O((k2, jint(1))), O((k2, jint(3)), (k, jint(1)), ("a", O((k2, jint(1)), (k, jint(2))))), O((k + "k", jint(1)), (k[:-1], jint(1)))]))
    return pairs


def func_chains(rng, n):
    """functions of functions of functions"""
    pairs = []
    for _ in range(n):
        d = rng.choice([3, 4, 5, 8, 12, 20])
        e = f(["a"])
        same = rng.random() < 0.4
        name = rng.choice(["mathNegate", "mathAbs", "mathCeil", "mathFloor", "mathRound", "add"])
        for i in range(d):
            k = name if same else rng.choice(["mathNegate", "mathNegate", "mathAbs", "mathCeil", "mathFloor", "mathRound", "add", "sub"])
            if k == "add":
                e = fn("mathAdd", *rng.sample([e, c(I(rng.choice([1, 2, -3])))], 2)) if rng.random() < 0.8 else fn("mathAdd", e, f(["b"]))
            elif k == "sub":
                e = fn("mathSubract", *rng.sample([e, c(I(rng.choice([1, 2, -3])))], 2))
            else:
                e = fn(k, e)
        es = [cmp("eq", e, c(I(x))) for x in rng.sample(range(-6, 7), 4)] + [cmp("lt", e, c(I(0))), cmp("ge", e, f(["a"]))]
        docs = [O(("a", x), ("b", jint(2))) for x in (jint(2), jint(-2), pools.F("2.5"), pools.F("-0.5"), jint(0))] + [O(("b", jint(1)))]
        pairs.append((es, docs))
    return pairs


# ---- the fragment which the slow matcher supports ----

def slow(rng, n):
    pairs = []

    def leaf(i, v=0):
        return cmp(rng.choice(["eq", "eq", "ge", "gt"]), f(["f%d" % i], v), c(pools.F("1.0")))

    def tree(ls):
        e = balanced(rng, ls)

        def plain(e):
            return plain(e["e"]) if e["o"] == "not" else dict(e, e=[plain(x) for x in e["e"]]) if e["o"] in ("and", "or") else e
        return plain(e)
    for _ in range(n):
        w = rng.choice(WIDTHS)
        k = rng.random()
        if k < 0.35:
            ls = [leaf(i) for i in range(w)]
            rng.shuffle(ls)
            e = tree(ls) if rng.random() < 0.5 else {"o": rng.choice(["and", "or"]), "e": ls}
            docs = one_off(rng, w)
        elif k < 0.65:
            m = rng.choice([1, 3, 9])
            e = {"o": "any", "v": 1, "l": f(["l"]), "b": tree([leaf(i, 1) for i in range(m)])}
            if rng.random() < 0.4:
                e = {"o": rng.choice(["and", "or"]), "e": [e, {"o": "any", "v": 2, "l": f(["k"]), "b": tree([leaf(i, 2) for i in range(m)])}]}
            docs = []
            for _ in range(5):
                def elems():
                    hit = rng.choice([None, 0, w - 1, rng.randrange(w)])
                    return A(*[O(*[("f%d" % i, jint(1 if j == hit else 0)) for i in range(m)]) for j in range(w)])
                docs.append(O(("l", elems()), ("k", elems())))
        else:
            d = rng.choice([5, 20, 60])
            p = [rng.choice(["a", "b", "ab"]) for _ in range(d)]
            e = cmp(rng.choice(["eq", "lt", "ge"]), f(p), c(pools.F("1.0")))
            docs = [nest(p, jint(v), rng, 0.3) for v in (0, 1, 2)]
        pairs.append(([e], docs))
    return pairs
