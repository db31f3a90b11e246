"""One function per property: what is generated, run and validated.  Each takes the context and the number of the round; the
thorough tier repeats the random part with other seeds (and larger inputs)."""
import copy
from registry import CHECKS, check
from matching import *
import pools, scale
from gen import f, c, cmp
from langs import in_languages

def gen_pairs(rng, n, ndocs, extra=None, **kw):
    pairs = []
    for i in range(n):
        g = G.Gen(rng, **kw)
        e = g.expr()
        pairs.append(([e], [g.doc_for([e]) if rng.random() < 0.9 else g.value(2) for _ in range(ndocs)]))
    return pairs


# ---- C01: verdict = meaning ----

@check
def C01(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = gen_pairs(rng, 2200, 5, loops=0.08)
    run_match(ctx, "random", pairs)
    in_languages(ctx, rng, pairs, 150)
    run_match(ctx, "shared fields", gen_pairs(rng, 700, 5, loops=0.03, keys=["a", "b"], fieldfield=0.5, docdepth=2, keyprob=0.7))
    if rnd == 0:
        small = pools.small_trees(rng, ctx.thorough)
        run_match(ctx, "all small trees", small)
        model_matcher(ctx, "small trees", rng.sample(small, ctx.scale(200, len(small))), faults=("late",))
        model_matcher(ctx, "random expressions", rng.sample(pairs, ctx.scale(120, 1500)))
    big = scale.wide(rng, 10) + scale.same_field(rng, 10) + scale.deep_ops(rng, 20) + scale.deep_paths(rng, 6) + scale.skipped(rng, 4)
    run_match(ctx, "large expressions and documents", big, minslice=6)
    run_match(ctx, "documents of many bytes", scale.vast(rng, 60))
    if rnd == 0:
        run_match(ctx, "tables of sizes", scale.vast_tables(rng), minslice=2)


# ---- C02: only the value matters ----

@check
def C02(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = []
    for i in range(1100):
        odd = rng.random() < 0.3
        keys = rng.sample(pools.ODDKEYS, 5) if odd else G.KEYS
        g = G.Gen(rng, loops=0.1, fieldfield=0.12, keys=keys, strs=G.STRS + ["\u00e9", "a\"b", "\\", "\n", "\U0001F600"])
        e = g.expr()
        d = g.doc_for([e])
        docs = []
        texts = set()
        for k in range(5):
            st = [Style(), Style(rng, ws=0.5), Style(rng, esc=0.5), Style(rng, shuffle=True), Style(rng, 0.4, 0.4, True)][k]
            docs.append((d, doc_bytes(d, st)))
        for k in range(3):
            nd = pools.noisy(rng, d)
            docs.append((d, doc_bytes(nd, Style(rng, 0.2, 0.2, True))))
        if not pools.compares_containers(e, d):
            pairs.append(([e], docs))

    def same(i, o):
        o["same"] = True
    run_match(ctx, "texts of one value", pairs, adapt=same)
    # numbers spelled differently
    pairs = []
    for i in range(400):
        g = G.Gen(rng, loops=0.05, fieldfield=0.1, consts_only=0, likes=0)
        e = g.expr(2)
        d = g.doc_for([e])
        pairs.append(([e], [(d, doc_bytes(d, Style(rng, spell=0.8))) for _ in range(5)]))
    pairs = [p for p in pairs if not pools.compares_containers(p[0][0], p[1][0][0])]
    run_match(ctx, "spellings of numbers", pairs)
    # long strings and keys, deep and wide things which are not referred to
    pairs = scale.strings(rng, 12)
    for es, docs in scale.deep_paths(rng, 6):
        docs = [d for d in docs if not isinstance(d, tuple)]
        if not docs:
            continue
        for d in rng.sample(docs, 2):
            pairs.append((es, [(d, doc_bytes(d, st)) for st in (Style(), Style(rng, ws=0.3), Style(rng, esc=0.5), Style(rng, shuffle=True))]))
    run_match(ctx, "long and deep texts", pairs, adapt=same, minslice=6)
    run_match(ctx, "deep values which are skipped", scale.skipped(rng, 8), minslice=6)
    run_match(ctx, "documents of many bytes", scale.vast(rng, 60))


# ---- C03: loops ----

@check
def C03(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    kw = dict(loops=0.5, bools=0.04, exists=0.2, likes=0.02, times=0.0)
    pairs = []
    for i in range(1800):
        g = G.Gen(rng, keys=["a", "b", "c"] if rng.random() < 0.5 else G.KEYS, docdepth=3, **kw)
        e = g.expr(rng.choice([2, 3, 4]))
        while not pools.has_loop(e):
            e = g.expr(3)
        pairs.append(([e], [g.doc_for([e]) for _ in range(5)]))
    run_match(ctx, "random", pairs)
    in_languages(ctx, rng, pairs, 300, kinds=("json",))
    if rnd == 0:
        small = pools.small_loops(rng, ctx.thorough)
        run_match(ctx, "all small loops", small)
        run_match(ctx, "hidden variables", rng.sample(pools.hidden_variables(G.LOOPS), 60 if not ctx.thorough else 156))
        model_matcher(ctx, "small loops", rng.sample(small, ctx.scale(150, len(small))), faults=("slots", "unresolved"))
        model_matcher(ctx, "random loops", rng.sample(pairs, ctx.scale(100, 1500)))
        run_match(ctx, "long arrays", scale.long_arrays(rng), minslice=1)
    run_match(ctx, "large loops", scale.loops(rng, 60), minslice=6)


# ---- C05: reset ----

@check
def C05(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = []
    for i in range(1000):
        g = G.Gen(rng, loops=rng.choice([0.05, 0.4]))
        es = [g.expr(rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 1, 2, 3]))]
        docs = []
        for k in range(7):
            d = g.doc_for(es)
            b = doc_bytes(d, Style(rng, 0.1, 0.1))
            docs.append((d, b))
        docs0 = list(docs)
        k = rng.randint(2, 4)
        for _ in range(k):
            docs.insert(rng.randint(0, len(docs)), pools.broken(rng, docs0[0][1]))
        docs = [x for x in docs if x is not None]
        for v, _ in docs:
            if "cutdoc" in v and any(pools.compares_containers(e, v) for e in es):
                v["loose"] = True
        for _ in range(2):      # documents seen before come again
            docs.append(rng.choice(docs))
        pairs.append((es, docs))

    def adapt(i, o):
        if "f" in o:
            o["fresh"] = o["f"]
            o["asserts"] = [o.pop("same")]
    for es, docs in scale.wide(rng, 5) + scale.loops(rng, 15) + scale.lists(rng, 2) + scale.same_field(rng, 5) + scale.strings(rng, 5, False):
        docs = [d if isinstance(d, tuple) else (d, doc_bytes(d)) for d in docs]
        docs.insert(rng.randint(0, len(docs)), pools.broken(rng, docs[0][1]))
        pairs.append((es, [x for x in docs if x is not None] + [rng.choice(docs)] if rng.random() < 0.5 else docs[:-1] + docs[:1]))
        pairs[-1] = (es, [x for x in pairs[-1][1] if x is not None])
    if rnd == 0:
        model_matcher(ctx, "a second document after a reset", rng.sample(pools.small_loops(rng, False), ctx.scale(50, 192)), True, ("reset", "stuck"))
    pairs += scale.histories(rng, 24)
    # containers compared as raw text are left open, but must not depend on the history either
    run_match(ctx, "histories", pairs, op="hist", adapt=adapt)


# ---- C07: several expressions ----

@check
def C07(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = []
    for i in range(1300):
        g = G.Gen(rng, loops=rng.choice([0.05, 0.3]), bools=0.1)
        n = rng.choice([2, 2, 3, 3, 4, 6, 9])
        es = []
        for _ in range(n):
            k = rng.random()
            if es and k < 0.12:
                e = copy.deepcopy(rng.choice(es))
            elif k < 0.22:
                e = {"o": rng.choice(["true", "false"])}
            elif k < 0.3:
                e = pools.const_expr(rng, 2)
            else:
                e = g.expr(rng.choice([0, 1, 2, 3]))
            es.append(e)
        pairs.append((es, [g.doc_for(es) for _ in range(4)]))
    run_match(ctx, "lists of expressions", pairs)
    if rnd == 0:
        small = pools.small_lists(rng)
        run_match(ctx, "all pairs of small expressions", small)
        model_matcher(ctx, "lists", rng.sample(small, ctx.scale(150, len(small))) + rng.sample(pairs, ctx.scale(60, 800)))
    run_match(ctx, "expressions which print alike", pools.look_alikes(rng))
    run_match(ctx, "long lists", scale.lists(rng, 8), minslice=6)


# ---- C08, C09, C10: comparisons ----

@check
def C08(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = []
    for i in range(900):
        a, b, c3 = pools.triple(rng)
        es = []
        fa, fb, fc = G.f(["a"]), G.f(["b"]), G.f(["c"])
        for l, r in ((fa, fb), (fb, fa), (fb, fc), (fc, fb), (fa, fc), (fc, fa)):
            es += [G.cmp(o, l, r) for o in G.CMPS]
        for l, r in ((fa, G.c(pools.const_of(rng, b))), (fb, G.c(pools.const_of(rng, c3)))):
            es += [G.cmp(o, l, r) for o in G.CMPS] + [G.cmp(o, r, l) for o in G.CMPS]
        d = O(("a", a), ("b", b), ("c", c3))
        pairs.append((es, [d]))
    run_match(ctx, "pairs and triples of values", pairs)
    run_order(ctx, pairs)
    in_languages(ctx, rng, pairs, 250)


def run_order(ctx, pairs):
    """How the operators fit together, whatever the values are"""
    cases = match_cases(pairs)
    outs = ctx.run(cases)
    evs, idx = [], []
    for i, ((es, docs), o) in enumerate(zip(pairs, outs)):
        if o.get("skipped"):
            continue
        vs = [child(docs[0], k) for k in "abc"]
        evs.append(slim({"c": o.get("c", "?"), "vals": vs, "x": o["r"][0]["x"] if o.get("r") else []}))
        idx.append(i)
        ctx.traces += 1
    rej = ctx.validate("TraceOrder", evs, name="consistency of operators")
    for j in rej:
        i = idx[j]
        case = dict(cases[i])
        case.pop("id", None)
        ctx.violation(readable_case(case), outs[i], "operators are not consistent on %s: %s" % (readable_case(case).get("docs_text"), rej[j]))


def child(d, k):
    return G.child(d, k)


@check
def C09(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = []
    vals_ = pools.mixed_values()
    # every document value against every kind of constant, and as two fields
    cs = pools.mixed_consts()
    for a in vals_:
        es = []
        for b in cs:
            es = [G.cmp(o, G.f(["a"]), G.c(b)) for o in G.CMPS] + [G.cmp(o, G.c(b), G.f(["a"])) for o in ("lt", "eq", "ge")]
            if rnd == 0 and rng.random() < 0.5:
                pairs.append((es, [O(("a", a))]))
    for a in vals_:
        for b in vals_:
            if rnd == 0 and rng.random() < 0.5:
                pairs.append(([G.cmp(o, G.f(["a"]), G.f(["b"])) for o in G.CMPS], [O(("a", a), ("b", b)), O(("b", b), ("a", a))]))
    run_match(ctx, "values of all kinds", pairs)
    # the flag of single comparisons, and within larger expressions
    pairs = []
    for i in range(900):
        a, b = rng.choice(vals_), rng.choice(vals_)
        o = rng.choice(G.CMPS)
        k = rng.random()
        if k < 0.4:
            e = G.cmp(o, G.f(["a"]), G.c(rng.choice(cs)))
        elif k < 0.5:
            e = G.cmp(o, G.c(rng.choice(cs)), G.f(["a"]))
        elif k < 0.6:
            e = G.cmp(o, G.f(["a"]), pools.time(rng))
        else:
            e = G.cmp(o, G.f(["a"]), G.f(["b"]))
        pairs.append(([e], [O(("a", a), ("b", b)), O(("b", b), ("a", a)), O(("a", rng.choice(vals_)), ("b", b))]))
    run_match(ctx, "single comparisons", pairs)
    in_languages(ctx, rng, pairs, 250)
    pairs = []
    for i in range(700):
        g = G.Gen(rng, loops=0.1, fieldfield=0.3)
        g.scalar = lambda: copy.deepcopy(rng.choice(vals_))
        g.const = lambda: rng.choice(cs[:-2])
        e = g.expr(2)
        pairs.append(([e], [g.doc_for([e]) for _ in range(4)]))
    run_match(ctx, "within expressions", pairs)


@check
def C10(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = []
    for i in range(900):
        a, b = pools.near_numbers(rng)
        ca = pools.const_of(rng, b)
        es = [G.cmp(o, G.f(["a"]), G.c(ca)) for o in G.CMPS] + [G.cmp(o, G.c(ca), G.f(["a"])) for o in ("lt", "le", "eq")] + \
             [G.cmp(o, G.f(["a"]), G.f(["b"])) for o in G.CMPS]
        d = O(("a", a), ("b", b))
        pairs.append((es, [(d, doc_bytes(d, Style(rng, spell=s))) for s in (0, 0.8)]))
    for a, b in pools.long_numbers(rng):
        ca = pools.const_of(rng, b)
        es = [G.cmp(o, G.f(["a"]), G.c(ca)) for o in G.CMPS] + [G.cmp(o, G.f(["a"]), G.f(["b"])) for o in G.CMPS] + [G.cmp("eq", G.fn("mathAbs", G.f(["a"])), G.f(["b"]))]
        pairs.append((es, [O(("a", a), ("b", b)), O(("b", a), ("a", b))]))
    for v, text in pools.long_spelled(rng):
        for o in rng.sample(G.CMPS, 3):
            c = G.c(pools.const_of(rng, v) if rng.random() < 0.6 else jint(rng.randint(-99, 99)))
            d = O(("a", v), ("b", jint(1)))
            pairs.append(([G.cmp(o, G.f(["a"]), c), G.cmp("eq", G.f(["b"]), G.c(I(1)))], [(d, ('{"a":%s,"b":1}' % text).encode()), (d, ('{"b":1,"a":%s}' % text).encode())]))
    run_match(ctx, "numbers close to each other", pairs)
    in_languages(ctx, rng, [(es, ds[:1]) for es, ds in pairs], 300)


# ---- C11: functions ----

@check
def C11(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = pools.func_cases(rng, 900)
    run_match(ctx, "results", pairs)
    in_languages(ctx, rng, pairs, 300)
    table = pools.func_tables(rng, ctx.scale(0.5, 1) if rnd == 0 else 0.2)
    run_match(ctx, "tables of functions", table)
    run_match(ctx, "chains of functions", scale.func_chains(rng, 60))
    in_languages(ctx, rng, table, 150)
    pairs = gen_pairs(rng, 500, 4, funcs=0.7, loops=0.05, likes=0, times=0)
    run_match(ctx, "within expressions", pairs)


# ---- C12: exists, missing, null ----

@check
def C12(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    if rnd == 0:
        table = pools.exists_table()
        run_match(ctx, "all small cases", table)
        in_languages(ctx, rng, table, 400)
        run_match(ctx, "beside other uses", pools.exists_beside_table())
    pairs = []
    for i in range(1100):
        g = G.Gen(rng, exists=0.55, loops=0.15, likes=0, times=0, keys=["a", "b", "c"], funcs=0.05)
        vs = pools.presence_values()
        g.scalar = lambda: copy.deepcopy(rng.choice(vs))
        g.const = lambda: rng.choice([NULL, NULL, jint(0), S(""), FALSE, TRUE])
        e = g.expr(rng.choice([1, 2, 3]))
        pairs.append(([e], [g.doc_for([e]) for _ in range(5)]))
    run_match(ctx, "random", pairs)
    in_languages(ctx, rng, pairs, 150)


# ---- C13: paths ----

@check
def C13(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = []
    for i in range(1300):
        keys = rng.sample(pools.ODDKEYS, 4) if rng.random() < 0.6 else ["a", "aa", "ab", "b"]
        g = pools.PathGen(rng, keys=keys)
        es = [g.expr(rng.choice([0, 1, 1, 2])) for _ in range(rng.choice([1, 2, 4]))]
        docs = []
        for k in range(4):
            d = g.doc_for(es)
            docs.append((d, doc_bytes(d, Style(rng, 0.1, rng.choice([0, 0.5]), True))))
        pairs.append((es, docs))
    run_match(ctx, "random", pairs)
    in_languages(ctx, rng, pairs, 200)
    run_match(ctx, "long arrays", pools.long_arrays(rng, ctx.scale(60, 200)))
    if rnd == 0:
        twins = pools.twin_cases(rng)
        run_match(ctx, "paths which look alike", twins)
        in_languages(ctx, rng, twins, 150)
    run_match(ctx, "deep paths", scale.deep_paths(rng, 12), minslice=6)
    run_match(ctx, "tables of sizes", scale.vast_tables(rng), minslice=2)


# ---- C14: escapes ----

@check
def C14(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    run_match(ctx, "strings and keys", pools.escape_cases(rng, 1200, rnd == 0))
    run_match(ctx, "long strings", scale.strings(rng, 30), minslice=6)


# ---- C16: malformed and truncated documents ----

def depth(v):
    kids = [m["v"] for m in v["m"]] if v["t"] == "obj" else v["e"] if v["t"] == "arr" else []
    return 1 + max(map(depth, kids), default=0)


def any_bytes(b):
    """(value, bytes); texts which are not UTF-8 are judged for termination only"""
    try:
        b.decode("utf-8")
    except UnicodeDecodeError:
        return {"t": "cut", "cutdoc": True, "loose": True}, b
    return pools.prefix_doc(b)


@check
def C16(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = []
    for i in range(260):
        g = G.Gen(rng, loops=rng.choice([0.0, 0.3]), fieldfield=0, consts_only=0, funcs=0, likes=0.02, times=0,
                  strs=["", "a", "ab", "5", "\u00e9", "x\"y"], docdepth=2)
        e = g.expr(rng.choice([1, 2, 3]))
        d = g.doc_for([e])
        b = doc_bytes(d, Style(rng, 0.2, 0.2))
        docs = []
        cuts = list(range(1, len(b)))
        if len(cuts) > 40:
            cuts = sorted(rng.sample(cuts, 40))
        for k in cuts:
            docs.append(pools.prefix_doc(b[:k]))
        for k in range(30):
            docs.append(pools.broken(rng, b))
        pairs.append(([e], [x for x in docs if x is not None]))
    run_match(ctx, "cut and changed documents", pairs)
    # documents which decide loops, cut at every byte
    pairs = []
    loops = [p for p in pools.small_loops(rng, False) if not pools.any_ff(p[0])]
    for es, ds in rng.sample(loops, min(len(loops), 110)):
        docs = []
        for d in rng.sample(ds, min(len(ds), 4)):
            b = doc_bytes(d, Style(rng, 0.1))
            docs += [pools.prefix_doc(b[:k]) for k in range(1, len(b))]
            docs += [pools.broken(rng, b) for _ in range(4)]
        docs = [x for x in docs if x is not None]
        if docs:
            pairs.append((es, docs))
    run_match(ctx, "loops which are cut", pairs)
    if rnd == 0:
        # every byte in every place of a small document
        pairs = []
        b = b'{"a":-1.5e1,"b":[true,{"c":"x\\n\\u0041"}],"d":null}'
        es = [cmp("eq", f(["d"]), c(NULL)), cmp("eq", f(["b", "[1]", "c"]), c(S("x\nA"))), {"o": "ex", "l": f(["zz"])},
              {"o": "any", "v": 1, "l": f(["b"]), "b": cmp("eq", f(["c"], 1), c(S("y")))}, cmp("lt", f(["a"]), c(pools.I(0)))]
        for p in range(len(b)):
            for e in es if ctx.thorough else rng.sample(es, 2):
                docs = [any_bytes(b[:p] + bytes([k]) + b[p + rng.choice([0, 1, 1]):]) for k in range(256)]
                for k in range(0, 256, 64):
                    pairs.append(([e], [x for x in docs[k:k + 64] if x is not None]))
        run_match(ctx, "every byte in every place", pairs)
    # documents of some size, cut anywhere
    pairs = []
    for es, docs in scale.deep_paths(rng, 8) + scale.wide(rng, 4) + scale.loops(rng, 8) + scale.strings(rng, 5, False):
        if any(pools.any_ff([e]) for e in es):
            continue
        cut = []
        for d in rng.sample(docs, min(len(docs), 3)):
            b = d[1] if isinstance(d, tuple) else doc_bytes(d)
            cut += [pools.prefix_doc(b[:k]) for k in sorted(rng.sample(range(1, len(b)), min(5, len(b) - 1)))]
            cut += [pools.prefix_doc(b[:-1])] + [pools.broken(rng, b) for _ in range(3)]
        pairs.append((es, [x for x in cut if x is not None and depth(x[0]) < 70]))      # the reader of traces has a limit
    run_match(ctx, "large documents which are cut", pairs, minslice=6)
    # bytes at random: no panic, no hang
    pairs = []
    for i in range(120):
        g = G.Gen(rng, loops=0.3)
        e = g.expr(2)
        docs = []
        for k in range(12):
            b = bytearray(doc_bytes(g.doc_for([e]), Style(rng, 0.1, 0.2)) if rng.random() < 0.7 else pools.junk(rng))
            for _ in range(rng.choice([1, 1, 2, 5])):
                p = rng.randrange(len(b))
                b[p:p + rng.choice([0, 0, 1, 3])] = bytes([rng.choice([0, 0x7F, 0x80, 0xBF, 0xC3, 0xE2, 0xED, 0xF0, 0xF4, 0xFF, rng.randrange(256)]) for _ in range(rng.choice([1, 1, 2]))])
            docs.append(({"t": "cut", "cutdoc": True, "loose": True}, bytes(b)))
        pairs.append(([e], docs))
    run_match(ctx, "bytes which are no text", pairs)
    pairs = []
    for i in range(300):
        g = G.Gen(rng, loops=0.3)
        e = g.expr(2)
        docs = []
        for k in range(8):
            b = pools.junk(rng)
            x = pools.prefix_doc(b)
            if x is not None:
                docs.append(x)
        pairs.append(([e], docs))
    pairs = [p for p in pairs if not pools.any_ff(p[0])]
    run_match(ctx, "token soup", pairs)


# ---- C23: regular expressions ----

@check
def C23(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = pools.regex_cases(rng, 1100)
    run_match(ctx, "random", pairs)
    in_languages(ctx, rng, pairs, 250)
    rich = pools.regex_cases(rng, 900, True)
    run_match(ctx, "more of the syntax", rich)
    in_languages(ctx, rng, rich, 150)
    bad = pools.bad_regexes(rng)
    cases = [{"op": "match", "es": [G.cmp("like", G.f(["a"]), {"o": "re", "s": s})], "docs": []} for s in bad]
    outs = ctx.run(cases)
    evs = [{"ok": o.get("c") == "P"} for o in outs]
    for c, o in zip(cases, outs):
        ctx.traces += 1
        if o.get("c") != "P":
            ctx.violation(c, o, "an invalid regular expression was compiled: %r" % c["es"][0]["r"]["s"])


# ---- C24: dates ----

@check
def C24(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = pools.date_cases(rng, 1000)
    run_match(ctx, "dates", pairs)
    near = pools.date_neighbours(rng, 500)
    run_match(ctx, "dates next to one another", near)
    if rnd == 0:
        run_match(ctx, "every part of a date", pools.date_tables(rng))
    in_languages(ctx, rng, pairs + near, 250)


# ---- C25: compilation ----

@check
def C25(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    cases, specs = [], []
    for i in range(350):
        sets = []
        g = G.Gen(rng, loops=0.25)
        for _ in range(rng.choice([2, 3, 4])):
            if rng.random() < 0.5:
                g = G.Gen(rng, loops=0.25, keys=rng.choice([G.KEYS, ["a", "b"]]))
            sets.append([g.expr(rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 1, 2, 3]))])
        docs = [g.doc_for([e for s in sets for e in s]) for _ in range(3)]
        cases.append({"op": "compile", "sets": sets, "docs": [b64(doc_bytes(d)) for d in docs]})
        specs.append((sets, docs))
    for es, docs in scale.wide(rng, 6) + scale.loops(rng, 8) + scale.same_field(rng, 4) + scale.deep_ops(rng, 6):
        g = G.Gen(rng, loops=0.25)
        sets = [es, [g.expr(2)]]
        rng.shuffle(sets)
        if rng.random() < 0.5:
            sets.append([g.expr(2), g.expr(1)])
        docs = [d for d in docs if not isinstance(d, tuple)][:3]
        cases.append({"op": "compile", "sets": sets, "docs": [b64(doc_bytes(d)) for d in docs]})
        specs.append((sets, docs))
    outs = ctx.run(cases)
    # one event per set: what its matchers did, and what the history of compilations must not change
    evs, idx = [], []
    for i, ((sets, docs), o) in enumerate(zip(specs, outs)):
        if o.get("skipped"):
            continue
        ctx.traces += 1
        for k, s in enumerate(sets):
            if "determ" in o:
                ev = event(s, docs, {"c": "ok", "r": o["r"][k], "asserts": [o["determ"], o["stable"], o["agree"], o["same"]]})
            else:
                ev = event(s, docs, {"c": o.get("c", "?"), "r": []})
            evs.append(ev)
            idx.append((i, k))
    rej = ctx.validate("TraceMatch", evs, name="histories of compilations")
    for j in sorted(rej):
        i, k = idx[j]
        o = outs[i]
        case = dict(cases[i])
        case.pop("id", None)
        ctx.violation(readable_case(case), o, "compiling: deterministic %s, earlier definitions stable %s, same results %s, expression "
                      "unchanged %s, outcome %s; rejected %s for %s" % (o.get("determ"), o.get("stable"), o.get("agree"), o.get("same"),
                                                          o.get("msg", ""), rej[j], show_expr(specs[i][0][k])))
    ctx.sample({"sets": [show_expr(s) for s in specs[0][0]], "outcome": {k: outs[0].get(k) for k in ("determ", "stable", "agree", "same")}})


# ---- C26: compacting ----

@check
def C26(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    pairs = []
    for i in range(1100):
        g = G.Gen(rng, loops=0.2, bools=0.25 if rng.random() < 0.7 else 0.05, loop_consts=True)
        e = g.expr(rng.choice([2, 3, 4]))
        pairs.append(([e], [g.doc_for([e]) for _ in range(4)]))
    if rnd == 0:
        pairs += pools.small_compacts(rng)

    def adapt(i, o):
        if "same" in o:
            same = o.pop("same")
            o["asserts"] = [same, o["idem"]]
    run_match(ctx, "compacted expressions", pairs, op="compact", adapt=adapt)
    big = scale.deep_ops(rng, 15) + scale.wide(rng, 6)
    for es, docs in big:
        for e in list(pools.walk(es)):
            if e["o"] in ("and", "or") and rng.random() < 0.3:
                k = rng.randrange(len(e["e"]))
                e["e"][k] = rng.choice([pools.TRUEX, pools.FALSEX, {"o": e["o"], "e": [e["e"][k]]}, {"o": "not", "e": {"o": "not", "e": e["e"][k]}}])
    run_match(ctx, "large expressions", big, op="compact", adapt=adapt, minslice=6)


# ---- C27: slow matcher ----

@check
def C27(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    run_match(ctx, "both matchers", pools.slow_cases(rng, 1400), op="slow")
    run_match(ctx, "supported or not", pools.slow_mixed(rng, 900), op="slow")
    if rnd == 0:
        run_match(ctx, "every pair of values", pools.slow_tables(rng), op="slow")
        run_match(ctx, "hidden variables", pools.hidden_variables(), op="slow")
    run_match(ctx, "large expressions and documents", scale.slow(rng, 30), op="slow", minslice=6)


import checks_tree, checks_conc, checks_lex, checks_compose, checks_lang, checks_stats
