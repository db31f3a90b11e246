"""C04: the binary operator tree.  TLC enumerates the transitions of the specified tree; walks that cover all of them are replayed
into binTreeState."""
from collections import deque
from registry import check
from matching import *
import pools, scale


def edges_of(out):
    """tree -> state -> [(op, node, value, state', seen)]"""
    trees = {}
    for line in out.splitlines():
        if not line.startswith('"EDGE|'):
            continue
        _, t, s, op, i, v, s2, seen = line.strip('"\n').split("|")
        trees.setdefault(t, {}).setdefault(s, {})[(op, int(i), v)] = (s2, seen)
    return trees


def walks(rng, t, g, limit=400):
    """walks which together take every transition of the graph at least once: [[(op, node, value, seen)]]"""
    start = "U" * len(t) + "/"
    todo = {(s, a) for s in g for a in g[s]}
    out, cur, s = [], [], start
    left = {s: set(g[s]) for s in g}
    while todo:
        if left.get(s):
            a = rng.choice(sorted(left[s]))
        else:
            # the way to the nearest state with something left
            prev = {s: None}
            q = deque([s])
            goal = None
            while q:
                x = q.popleft()
                if left.get(x):
                    goal = x
                    break
                for a2 in sorted(g[x]):
                    y = g[x][a2][0]
                    if y not in prev:
                        prev[y] = (x, a2)
                        q.append(y)
            if goal is None:
                raise Infra("transition graph of %s is not connected" % t)
            path = []
            x = goal
            while prev[x] is not None:
                path.append(prev[x])
                x = prev[x][0]
            for x, a2 in reversed(path):
                cur.append((a2[0], a2[1], a2[2], g[x][a2][1]))
            s = goal
            a = rng.choice(sorted(left[s]))
        left[s].discard(a)
        todo.discard((s, a))
        s2, seen = g[s][a]
        cur.append((a[0], a[1], a[2], seen))
        s = s2
        if s == start and len(cur) > limit:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def fits(exp, got):
    return len(exp) == len(got) and all(e == g or (e == "?" and g in "TN") for e, g in zip(exp, got))


def tree_cfg(n, loops, export, props=True):
    return ("SPECIFICATION Spec\nCONSTANTS MaxNodes = %d\n WithLoops = %s\n Export = %s\n" % (n, loops, export)
            + ("INVARIANTS Refines Sound Tight\nPROPERTIES Final Forgets\n" if props else ""))


@check
def C04(ctx, rnd):
    rng = ctx.rng("walk%d" % rnd)
    if rnd > 0:
        public_part(ctx, rng)
        return
    n1, n2 = ctx.scale((6, 8), (7, 9))
    ctx.model_check("BinTree", tree_cfg(ctx.scale(6, 7), "TRUE", "FALSE"), name="BinTree, trees with loops", min_states=5000)
    if ctx.thorough:
        ctx.model_check("BinTree", tree_cfg(8, "FALSE", "FALSE"), name="BinTree, larger trees without loops", min_states=5000)
    private = True
    try:
        ctx.driver(files=("core_verif_test.go", "tree_verif_test.go"))
    except Infra as e:
        # the operations of the tree are internal: if they were renamed only the public part decides
        ctx.notes["internal_api"] = "binTreeState could not be driven directly: " + str(e)[:400]
        private = False
    if private:
        seen = {}
        for n, loops in ((n1, "TRUE"), (n2, "FALSE")):
            out = ctx.model_check("BinTree", tree_cfg(n, loops, "TRUE", False), name="BinTree, exported transitions", min_states=1000)
            for t, g in edges_of(out).items():
                seen.setdefault(t, g)
        cases, exps = [], []
        edges = 0
        for t in sorted(seen):
            edges += sum(len(x) for x in seen[t].values())
            for w in walks(rng, t, seen[t]):
                cases.append({"op": "tree", "t": t, "steps": [[o, i, v] for o, i, v, _ in w]})
                exps.append([x for _, _, _, x in w])
        ctx.notes["replayed"] = {"trees": len(seen), "transitions": edges, "walks": len(cases), "steps": sum(len(c["steps"]) for c in cases)}
        outs = ctx.run(cases, files=("core_verif_test.go", "tree_verif_test.go"))
        for c, e, o in zip(cases, exps, outs):
            if o.get("skipped"):
                continue
            ctx.traces += 1
            obs = o.get("obs", [])
            bad = next((k for k in range(len(e)) if k >= len(obs) or not fits(e[k], obs[k])), None)
            if bad is None and o.get("v") == "ok":
                continue
            k = bad if bad is not None else len(e) - 1
            # the steps since the last reset
            j = max([x for x in range(k) if c["steps"][x][0] == "reset"], default=-1) + 1
            ctx.violation({"op": "tree", "t": c["t"], "steps": c["steps"][:k + 1]}, {"outcome": o.get("v"), "msg": o.get("msg", "")},
                          "tree %s (kinds in preorder) after %s: seen %s, specified %s %s" % (
                              c["t"], " ".join("%s(%s%s)" % (s[0], s[1], s[2]) for s in c["steps"][j:k + 1]),
                              obs[k] if k < len(obs) else o.get("v"), e[k], o.get("msg", "")))
        if cases:
            ctx.sample({"tree": cases[len(cases) // 2]["t"], "steps": cases[len(cases) // 2]["steps"][:8],
                        "seen": outs[len(cases) // 2].get("obs", [])[:8]})
    public_part(ctx, rng)


# ---- through the matcher: the members of the document are the results, their order is the order of arrival ----

def public_tree(rng, n, names, depth=0):
    """an expression with n leaves over distinct fields"""
    if rng.random() < 0.25:
        return {"o": "not", "e": public_tree(rng, n, names, depth)} if depth < 3 else public_tree(rng, n, names, depth)
    if n == 1:
        k = names.pop()
        if rng.random() < 0.15:
            return {"o": rng.choice(G.LOOPS), "v": int(k[1:]), "l": pools.f([k]),
                    "b": public_loop_body(rng, int(k[1:]))}
        return pools.cmp("eq", pools.f([k]), pools.c(pools.I(1)))
    j = rng.randint(1, n - 1)
    return {"o": rng.choice(["and", "or"]), "e": [public_tree(rng, j, names, depth + 1), public_tree(rng, n - j, names, depth + 1)]}


def public_loop_body(rng, v):
    x = [pools.cmp("eq", pools.f([k], v), pools.c(pools.I(1))) for k in ("x", "y", "z")]
    x = [{"o": "not", "e": e} if rng.random() < 0.3 else e for e in x]
    return {"o": rng.choice(["and", "or"]), "e": [x[0], {"o": rng.choice(["and", "or"]), "e": x[1:]}]}


def public_part(ctx, rng):
    pairs = []
    for i in range(900):
        n = rng.choice([2, 3, 4, 5, 6, 8])
        names = ["f%d" % k for k in range(1, n + 1)]
        order = list(names)
        rng.shuffle(names)
        k = rng.choice([1, 1, 2, 3]) if n > 2 else 1
        cut = sorted(rng.sample(range(1, n), k - 1)) + [n]
        es, last = [], 0
        for c in cut:
            es.append(public_tree(rng, c - last, names))
            last = c
        loops = {e["l"]["p"][0] for x in es for e in pools.walk(x) if e["o"] in G.LOOPS}
        docs = []
        for _ in range(6):
            rng.shuffle(order)
            kv = []
            for key in order:
                if rng.random() < 0.12:
                    continue
                if key in loops:
                    kv.append((key, A(*[O(*[(z, jint(rng.randint(0, 1))) for z in rng.sample("xyz", rng.randint(0, 3))])
                                        for _ in range(rng.randint(0, 3))])))
                else:
                    kv.append((key, jint(rng.randint(0, 1))))
            docs.append(O(*kv))
        pairs.append((es, docs))
    run_match(ctx, "results arriving in any order", pairs)
    run_match(ctx, "large trees", scale.wide(rng, 8) + scale.deep_ops(rng, 15) + scale.lists(rng, 2), minslice=6)
    run_match(ctx, "trees of hundreds of nodes", scale.wide_ops(rng), minslice=1)
