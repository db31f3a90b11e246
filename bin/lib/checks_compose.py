"""C17 and C18: removing keys from objects."""
from registry import check
from matching import *
import pools, scale, base64, itertools, json, re

KEYS = ["a", "b", "c", "d", "", "a b", "\u00e9", "a\"b", "k/y", "\n", "\U0001F600", "[0]", "aa", "\\", "{", "}", ",", ":"]
NASTY = ["", "a", "b", "}", "{", "]", ",", "\"", "\\", "\\\"", "a\":1", "\u00e9", "},{", "x y", "\U0001F600", "\n"]


def value(rng, depth, keys):
    k = rng.random()
    if depth <= 0 or k < 0.5:
        return rng.choice([S(rng.choice(NASTY)), S(rng.choice(KEYS)), jint(rng.choice([0, -1, 12])), F("2.5"), TRUE, FALSE, NULL,
                           {"t": "arr", "e": []}, {"t": "obj", "m": []}])
    if k < 0.78:
        return obj(rng, depth - 1, keys)
    return A(*[value(rng, depth - 1, keys) for _ in range(rng.randint(0, 4))])


def obj(rng, depth, keys):
    return O(*[(k, value(rng, depth, keys)) for k in rng.sample(keys, rng.randint(0, min(5, len(keys))))])


def all_keys(v):
    if v["t"] == "obj":
        for m in v["m"]:
            yield m["k"]
            yield from all_keys(m["v"])
    elif v["t"] == "arr":
        for x in v["e"]:
            yield from all_keys(x)


def look_alike(rng, k, b):
    """a text which is not the key k, but close to it: the way in which a key is written, a part of it, ..."""
    raw = re.findall(r'"((?:[^"\\]|\\.)+)"\s*:', b.decode("utf-8", "replace"))
    esc = [x for x in raw if "\\" in x]
    return rng.choice([rng.choice(esc or raw or [k]), json.dumps(k)[1:-1], json.dumps(k), "".join("\\u%04x" % ord(c) if ord(c) < 65536 else c for c in k),
                       k.upper(), k[:-1], k + k, k + "\0", " " + k, k[::-1], "." + k, "`%s`" % k])


def removal(rng, v, b=b""):
    ks = list(all_keys(v))
    out = []
    while ks and rng.random() < 0.25:
        out.append(look_alike(rng, rng.choice(ks), b))
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 5])):
        k = rng.random()
        out.append(rng.choice(ks) if ks and k < 0.75 else rng.choice(KEYS + ["zz", "A", "a ", "1", "true"]))
    if out and rng.random() < 0.15:
        out.append(rng.choice(out))
    rng.shuffle(out)
    return out


def case(src, keys, size, mode=""):
    return {"op": "compose", "src": b64(src), "keys": [[ord(x) for x in k] for k in keys], "size": size, "cap": mode}


def run_compose(ctx, name, cases, minslice=100):
    outs = ctx.run(cases)
    evs, idx = [], []
    for i, (c, o) in enumerate(zip(cases, outs)):
        if o.get("skipped"):
            continue
        ctx.traces += 1
        b = base64.b64decode(c["src"])
        size = len(b) if c["cap"] == "nil" else c["size"]
        evs.append({"b": list(b), "keys": c["keys"], "size": size, "mode": c["cap"] or "plain", "v": o.get("v", "?"), "n": o.get("n", 0),
                    "out": list(base64.b64decode(o.get("out", ""))), "cnt": o.get("cnt", 0), "left": o.get("left", False),
                    "removed": [{"k": x["k"], "v": list(base64.b64decode(x["v"]))} for x in o.get("removed", [])],
                    "extra": o.get("extra", 0), "intact": o.get("intact", False), "again": o.get("again", False)})
        idx.append(i)
    rej = ctx.validate("TraceComposer", evs, name=name, minslice=minslice)
    for j in sorted(rej)[:40]:
        i = idx[j]
        c, o = cases[i], outs[i]
        r = dict(o)
        if "out" in r:
            r["out"] = base64.b64decode(r["out"]).decode("utf-8", "replace")
        r["removed"] = [(text_of(x["k"]), base64.b64decode(x["v"]).decode("utf-8", "replace")) for x in o.get("removed", [])]
        why = "removing %r from %r into %d bytes (%s): %s" % (["".join(map(chr, k)) for k in c["keys"]],
                                                               base64.b64decode(c["src"]).decode("utf-8", "replace"), c["size"], c["cap"], r)
        c = {k: v for k, v in c.items() if k != "id"}
        ctx.violation(c, o, why)
    if evs:
        k = len(evs) // 2
        ctx.sample({"source": bytes(evs[k]["b"]).decode("utf-8", "replace")[:300], "keys": ["".join(map(chr, x)) for x in evs[k]["keys"]],
                    "size": evs[k]["size"], "result": evs[k]["v"], "out": bytes(evs[k]["out"]).decode("utf-8", "replace")[:300]})


def random_sources(rng, n, depth=3):
    for _ in range(n):
        keys = rng.choice([["a", "b", "c", "d"], KEYS])
        v = obj(rng, rng.choice([0, 1, 2, depth]), keys)
        b = doc_bytes(v, Style(rng, rng.choice([0, 0, 0.2]), rng.choice([0, 0, 0.3]))).strip(b" \t\r\n")
        yield v, b


def model_cases(ctx, nodes):
    out = ctx.model_check("ComposerMC", "SPECIFICATION Spec\nCONSTANTS MaxNodes = %d\n Export = TRUE\nINVARIANTS Correct Idempotent Composes\n" % nodes,
                          name="ComposerMC, algorithm and requirement", min_states=500)
    flat = re.sub(r"\s+", " ", out)
    res = set()
    for m in re.finditer(r'<<\s*"SRC", <<([\d, ]*)>>, \{([^}]*)\}\s*>>', flat):
        src = bytes(int(x) for x in re.findall(r"\d+", m.group(1)))
        res.add((src, tuple(chr(int(x)) for x in re.findall(r"\d+", m.group(2)))))
    return sorted(res)


def large_cases(rng, n, size):
    cases = []
    for v, rm in scale.objects(rng, n) + scale.long_keys(rng, n // 3):
        b = doc_bytes(v, Style(rng, rng.choice([0, 0.1]), rng.choice([0, 0.1])) if rng.random() < 0.5 else Style()).strip(b" \t\r\n")
        cases.append(case(b, rm, size(len(b)), rng.choice(["", "", "exact", "nomap", "nil"])))
    return cases


@check
def C17(ctx, rnd):
    rng = ctx.rng("rm%d" % rnd)
    if rnd == 0:
        cs = model_cases(ctx, ctx.scale(4, 5))
        if len(cs) < 500:
            raise Infra("only %d sources were exported" % len(cs))
        run_compose(ctx, "all small objects", [case(b, ks, len(b)) for b, ks in cs])
    cases = []
    for v, b in random_sources(rng, 3500):
        cases.append(case(b, removal(rng, v, b), len(b) + rng.choice([0, 0, 0, 1, 40]), rng.choice(["", "", "exact", "nomap", "nil"])))
    run_compose(ctx, "random objects", cases)
    run_compose(ctx, "large objects", large_cases(rng, 40, lambda n: n + rng.choice([0, 0, 1])), minslice=4)


@check
def C18(ctx, rnd):
    rng = ctx.rng("rm%d" % rnd)
    cases = []
    # all sizes
    for v, b in random_sources(rng, 110, 2):
        if len(b) > 70:
            continue
        ks = removal(rng, v)
        for size in range(0, len(b) + 2):
            cases.append(case(b, ks, size, rng.choice(["", "exact"])))
    run_compose(ctx, "every size of the destination", cases)
    # cut, changed, and no objects
    cases = []
    for v, b in random_sources(rng, 1500):
        ks = removal(rng, v)
        for _ in range(2):
            x = mutate(rng, b)
            if x is not None:
                cases.append(case(x, ks, len(x) + rng.choice([0, 0, 5]), rng.choice(["", "exact", "nil", "nomap"])))
    for b in (b"", b"{", b"}", b"{}", b"[]", b"1", b"\"a\"", b"null", b" {}", b"{} ", b"{}{}", b"{}}", b"{{}", b"{]}", b"{[}", b"{\"a\"}", b"{\"a\":}",
              b"{\"a\":1,}", b"{,}", b"{\"a\":{}", b"{\"a\":[}", b"{\"a\":]}", b"{\"a\" 1}", b"{\"a\":1 \"b\":2}", b"{\"a\":{\"a\":{\"a\":1}}}", b"{\"}",
              b"{\"a\":\"}", b"{\"a\":tru}", b"{\"a\":1.}", b"{\"\\x\":1}", b"{\"a\":1]}", b"{\"a\":[1,2}}", b"{1:2}", b"{:}", b"{\"a\"::1}"):
        for ks in ([], ["a"], ["a", "b"], [""], ["a", "a"]):
            for size in (0, 1, 2, len(b), len(b) + 10):
                cases.append(case(b, ks, size))
            cases.append(case(b, ks, len(b), "nil"))
    run_compose(ctx, "cut and malformed sources", cases)
    # brackets and tokens in every order
    cases = []
    toks = [b"{", b"}", b"[", b"]", b"\"a\"", b"\"b\"", b":", b",", b"1"]
    texts = [b"{" + b"".join(m) + b"}" for n in range(0, 6) for m in itertools.product([b"{", b"}"], repeat=n)]
    texts += [b"{" + b"".join(m) + b"}" for n in range(1, 4) for m in itertools.product(toks[:5], repeat=n)]
    texts += [b"{\"a\"" + b"".join(m) + b"}" for n in range(1, 4) for m in itertools.product(toks, repeat=n) if rng.random() < 0.35]
    for _ in range(ctx.scale(500, 3000)):
        texts.append(b"{" + b"".join(rng.choice(toks) for _ in range(rng.randint(1, 9))) + b"}")
    for b in texts:
        cases.append(case(b, rng.choice([[], ["a"], ["a"], ["b"], ["a", "b"]]), len(b), rng.choice(["", "nil"])))
    run_compose(ctx, "tokens in every order", cases)
    run_compose(ctx, "large objects", large_cases(rng, 30, lambda n: max(0, n - rng.choice([0, 1, 2, n // 3, n // 2, n - 2, n]))), minslice=4)


def mutate(rng, b):
    k = rng.random()
    if k < 0.25:
        x = b[:rng.randint(0, len(b))]
        if rng.random() < 0.6:
            x += b"}"
    elif k < 0.35:
        x = b + rng.choice([b"}", b"{}", b",", b"]}", b" ", b"\"}", b"1}"])
    else:
        p = rng.randrange(len(b))
        if b[p] >= 0x80:
            return None
        c = bytes([rng.choice(b'{}[]:,"\\0-9.etfnx \x01')])
        x = b[:p] + (c if k < 0.6 else b"" if k < 0.8 else c + b[p:p + 1]) + b[p + 1:]
    try:
        x.decode("utf-8")
    except UnicodeDecodeError:
        return None
    return x
