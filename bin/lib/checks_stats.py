"""C28: statistics of expressions."""
from registry import check
from matching import *
import gen as G
import pools, scale


def run_stats(ctx, name, lists, minslice=100):
    cases = [{"op": "stats", "es": es} for es in lists]
    outs = ctx.run(cases)
    evs = []
    for c, o in zip(cases, outs):
        if not o.get("skipped"):
            ctx.traces += 1
        evs.append({"es": [strip(e) for e in c["es"]], "v": "ok" if o.get("skipped") else o.get("v", "?"), "same": o.get("same", False), "obs": o.get("obs", [])})
    keep = [i for i, o in enumerate(outs) if not o.get("skipped")]
    rej = ctx.validate("TraceStats", [evs[i] for i in keep], name=name, minslice=minslice)
    for j in sorted(rej)[:40]:
        c, o = cases[keep[j]], outs[keep[j]]
        ctx.violation({k: v for k, v in c.items() if k != "id"}, o, "statistics of %s: %s" % (str([strip(e) for e in c["es"]])[:600], str(o)[:300]))
    if keep:
        k = keep[len(keep) // 2]
        ctx.sample({"expressions": str(evs[k]["es"])[:300], "statistics": evs[k]["obs"]})


def strip(e):
    """without values and patterns, which do not matter"""
    if isinstance(e, dict):
        if e.get("o") == "v":
            return {"o": "v"}
        if e.get("o") in ("time", "re"):
            return {"o": e["o"]}
        return {k: strip(v) for k, v in e.items() if k not in ("p", "n", "v")}
    if isinstance(e, list):
        return [strip(x) for x in e]
    return e


@check
def C28(ctx, rnd):
    rng = ctx.rng("gen%d" % rnd)
    lists = []
    for _ in range(2500):
        g = G.Gen(rng, loops=rng.choice([0.05, 0.5]), bools=0.1, exists=0.1, likes=rng.choice([0, 0.1]), times=rng.choice([0, 0.1]), funcs=rng.choice([0, 0.5]))
        lists.append([g.expr(rng.choice([1, 2, 3, 4])) for _ in range(rng.choice([1, 1, 1, 2, 3, 5]))])
    run_stats(ctx, "random lists", lists)
    if rnd == 0:
        # every form within every other one
        x, one = G.f(["a"]), G.c(I(1))
        leaves = [G.cmp(o, x, one) for o in G.CMPS] + [{"o": "ex", "l": x}, {"o": "nex", "l": x}, pools.TRUEX, pools.FALSEX,
                  {"o": "like", "l": x, "r": {"o": "re", "s": "a", "r": {"k": "lit", "c": 97}}}, G.cmp("lt", x, pools.time(rng)),
                  G.cmp("eq", G.fn("mathAdd", x, G.fn("mathAbs", one)), G.f(["b"])), G.cmp("gt", one, one)]

        def wrap(e):
            yield {"o": "not", "e": e}
            for o in ("and", "or"):
                yield {"o": o, "e": []}
                yield {"o": o, "e": [e]}
                yield {"o": o, "e": [leaves[0], e]}
                yield {"o": o, "e": [e, e, leaves[7]]}
            for o in G.LOOPS:
                yield {"o": o, "v": 1, "l": x, "b": e}
        one_ = [w for e in leaves for w in wrap(e)]
        two = [w for e in one_ for w in wrap(e)]
        three = [w for e in rng.sample(two, ctx.scale(120, 600)) for w in wrap(e)]
        run_stats(ctx, "forms within each other", [[e] for e in leaves + one_ + two + three])
    big = scale.wide(rng, 10) + scale.loops(rng, 20) + scale.lists(rng, 4) + scale.func_chains(rng, 5) + scale.deep_ops(rng, 10)
    run_stats(ctx, "large expressions", [es for es, _ in big], minslice=6)
