"""C06: matchers side by side."""
from registry import check
from matching import *
import copy
import pools, scale

CFG = "SPECIFICATION Spec\nCONSTANTS Procs = {1, 2%s}\n Shared = %s\n Runs = %d\nINVARIANTS Correct ReadOnly\n"
TEXTS = [("filter", "a = 1 AND (b > 2.5 OR NOT c = 'abc')"), ("filter", "REGEXP_CONTAINS(a, 'x+y') OR EXISTS b.c[1]"),
         ("filter", "ABS(a) >= 5 AND DATE(b) < DATE('2019-01-01')"), ("filter", "a = ("), ("filter", "META().id = 'ab' AND `x y` != TRUE"),
         ("simple", "a == 1 && b > 5 || c == \"xy\""), ("simple", "(a == 1 || b < 2) && c EXISTS"), ("simple", "abs(a) == 3"),
         ("simple", "a == && b"), ("json", '["and",["equals",["field","a"],["value",1]],["exists",["field","b"]]]'),
         ("json", '["anyin",1,["field","a"],["lessthan",["field",1,"b"],["value","x"]]]'), ("json", '["bad"]')]


def conc_cases(rng, n):
    pairs = []
    for i in range(n):
        g = G.Gen(rng, loops=rng.choice([0.0, 0.15, 0.4]), fieldfield=0.25, keys=["a", "b", "c"], likes=0.12, times=0.1)
        es = [g.expr(rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 1, 2, 4]))]
        docs = [g.doc_for(es) for _ in range(6)]
        if any(pools.compares_containers(e, d) for e in es for d in docs):
            continue
        pairs.append((es, docs))
    for n in range(12):         # numbers are converted to text and back
        o = rng.choice(["eq", "ne", "lt", "ge"])
        e = {"o": rng.choice(["and", "or"]), "e": [pools.cmp(o, pools.f(["a"]), pools.c(S("5"))), pools.cmp("eq", pools.f(["b"]), pools.c(S("1.5"))),
                                                   pools.cmp("gt", pools.f(["a"]), pools.f(["c"]))]}
        docs = [O(("a", x), ("b", y), ("c", z)) for x, y, z in
                ((jint(5), F("1.5"), S("4")), (F("5.25"), F("2.5"), S("77")), (jint(123456789), jint(1), S("1234567890")), (S("5"), S("1.5"), jint(6)),
                 (jint(-77), F("-1.5"), S("a")))]
        pairs.append(([e], docs))
    return pairs


def variant(rng, e):
    """the expression with another constant, operator or variable somewhere: what caches by shape or text would take for the same"""
    e = copy.deepcopy(e)
    nodes = [x for x in pools.walk(e)]
    for _ in range(rng.choice([1, 2])):
        x = rng.choice(nodes)
        if x["o"] in pools.CMPS:
            k = rng.random()
            if k < 0.4:
                x["o"] = rng.choice(pools.CMPS)
            elif k < 0.8 and x["r"]["o"] == "v" and x["r"]["c"]["t"] == "num":
                x["r"] = pools.c(rng.choice([pools.I(2), pools.I(7), F("2.5")]))
            elif x["r"]["o"] == "v" and x["r"]["c"]["t"] == "str":
                x["r"] = pools.c(S(rng.choice(G.STRS)))
        elif x["o"] in ("and", "or"):
            x["o"] = {"and": "or", "or": "and"}[x["o"]]
        elif x["o"] in G.LOOPS:
            x["o"] = rng.choice(list(G.LOOPS))
    return e


def run_conc(ctx, name, pairs, n, rounds, race, rng):
    cases = match_cases(pairs, Style(rng, 0.1, 0.2), "conc")
    for c in cases:
        es = c.pop("es")
        c["sets"] = [es]
        if rng.random() < 0.6:
            c["sets"].append([variant(rng, e) for e in es])
        if rng.random() < 0.3:
            c["sets"].append(pairs[rng.randrange(len(pairs))][0])
        c.update(n=n, rounds=rounds, compose=rng.random() < 0.5, texts=[{"k": k, "c": [ord(x) for x in t]} for k, t in rng.sample(TEXTS, 4)])
    outs = ctx.run(cases, race=race, procs=3 if race else 4, hang=120, env={"GORACE": "halt_on_error=1 exitcode=66"})
    ps, cs, os_ = [], [], []
    for (es, docs), c, o in zip(pairs, cases, outs):
        for k, s in enumerate(c["sets"]):
            if any(pools.compares_containers(e, d[0] if isinstance(d, tuple) else d) for e in s for d in docs):
                continue
            o1 = o
            if o.get("c") == "ok":
                o1 = {"c": "ok", "seen": [x["seen"] for x in o["sets"][k]["r"]], "asserts": [o["agree"], not o["bad"]]}
            ps.append((s, vals(docs)))
            cs.append(dict(c, es=s))
            os_.append(o1)
    judge(ctx, ps, cs, os_, name, reduce=False)


@check
def C06(ctx, rnd):
    rng = ctx.rng("conc%d" % rnd)
    if rnd == 0:
        ctx.model_check("Conc", CFG % (", 3" if ctx.thorough else "", "FALSE", ctx.scale(2, 2)), min_states=200)
        rc, out, gen, dist = ctx.tlc("Conc", CFG % ("", "TRUE", 1))
        if "Invariant Correct is violated" not in out:
            raise Infra("the model of a shared buffer is not refuted\n" + tail(out))
        ctx.notes["refuted"] = "Conc with Shared = TRUE"
    run_conc(ctx, "with the race detector", conc_cases(rng, 90), 4, 4, True, rng)
    run_conc(ctx, "results", conc_cases(rng, 220), 9, 30, False, rng)
    big = scale.wide(rng, 3) + scale.loops(rng, 6) + scale.deep_ops(rng, 3) + scale.strings(rng, 4, False)
    run_conc(ctx, "large expressions and documents", [(es, docs[:6]) for es, docs in big], 6, 12, False, rng)
