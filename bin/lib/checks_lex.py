"""C15: the tokenizer against the lexical grammar."""
from registry import check
from matching import *
import pools, scale, itertools

MC = "SPECIFICATION Spec\nCONSTANTS Alphabet = {%s}\n MaxLen = %d\n Export = %s\n%s\n"
NUMS = b" ,-05.eE+x"
STRS = b'"\\ub0Fg\x1f\xc8'
LITS = b"truefalsn "
FILES = ("core_verif_test.go", "lex_verif_test.go")


def alpha(bs):
    return ",".join(str(x) for x in sorted(set(bs)))


def w_method(rng, out, k, nbytes):
    """the texts which lead to each state of the automaton, followed by every byte, followed by each of some continuations which
    tell the states apart"""
    access = {()}
    for m in re.finditer(r'<<"ACCESS", <<([\d, \n]*)>>>>', out):
        access.add(tuple(int(x) for x in re.findall(r"\d+", m.group(1))))
    if len(access) < 20:
        raise Infra("only %d states of the automaton were exported" % len(access))
    conts = [b"", b'"', b"0", b"5,", b'e"', b"ue", b"l", b'0"', b" 1", b',"a"', b"00\"", b"000\"", b"rue]", b"e+1 ", b".5}", b"\\", b"x"]
    texts = []
    for a in sorted(access):
        for c in range(256):
            if nbytes < 256 and rng.random() * 256 > nbytes and c not in b'"\\/bfnrtu0159aAfFgG.eE+-{}[]:, \t\n\r\x1f\x7f\x80tfn':
                continue
            for z in rng.sample(conts, k):
                texts.append(bytes(a) + bytes([c]) + z)
    return len(access), texts


def pieces(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice([b"{", b"}", b"[", b"]", b":", b","])
    if k < 0.4:
        return rng.choice([b" ", b"\t", b"\r\n", b"  "])
    if k < 0.55:
        return rng.choice([b"true", b"false", b"null"])
    if k < 0.75:
        return rng.choice([b"0", b"-0", b"7", b"-12", b"3.25", b"-0.5e-7", b"1E9", b"2e+05", b"123456789012345678901234567890", b"0.0", b"10"])
    if k < 0.95:
        cs = [rng.choice([b"a", b"\xc3\xa9", b"\\n", b"\\\"", b"\\\\", b"\\u00e9", b"\\uD83D\\uDE00", b"}", b"[", b",", b" ", b"\\/", b"\x7f"])
              for _ in range(rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31]))]
        return b'"' + b"".join(cs) + b'"'
    return rng.choice([b"nul", b"tru ", b"-", b"1.", b"1e", b"01", b"+1", b"\"\n\"", b"\"\\x\"", b"\"\\u12G4\"", b"'a'", b"NaN", b"\x00", b"\"a", b"\\"])


def validate_lex(ctx, name, texts, files=FILES, per=40):
    groups = [texts[i:i + per] for i in range(0, len(texts), per)]
    cases = [{"op": "lex", "texts": [b64(t) for t in g], "seek": 1} for g in groups]
    outs = ctx.run(cases, files=files)
    evs, idx = [], []
    for i, (g, o) in enumerate(zip(groups, outs)):
        if o.get("skipped"):
            continue
        ctx.traces += len(g)
        if o.get("v") != "ok":
            ctx.violation({"op": "lex", "texts": cases[i]["texts"]}, o, "the tokenizer did not finish: %s %s on one of %r" % (
                o.get("v"), o.get("msg", ""), g[:40]))
            continue
        evs.append({"texts": [{"b": list(t), "toks": [[x["t"], x["s"], x["n"]] for x in r["toks"]],
                               "flags": r["exact"] and r["ended"] and r["again"]} for t, r in zip(g, o["texts"])]})
        idx.append(i)
    rej = ctx.validate("TraceLex", evs, name=name, minslice=20 if per > 20 else 4)
    for j in sorted(rej):
        i = idx[j]
        for n in [int(x) for x in re.findall(r"\d+", rej[j])][:2]:
            if len(ctx.violations) < 40:
                r = outs[i]["texts"][n - 1]
                ctx.violation({"op": "lex", "texts": [cases[i]["texts"][n - 1]], "seek": 1}, r,
                              "tokens of %r: %s exact bytes %s, end stays the end %s, same after Seek %s" % (
                                  groups[i][n - 1], [(x["t"], x["s"], x["n"]) for x in r["toks"]], r["exact"], r["ended"], r["again"]))
    if evs:
        ctx.sample({"text": repr(groups[idx[-1]][0]), "tokens": evs[-1]["texts"][0]["toks"][:12]})


@check
def C15(ctx, rnd):
    rng = ctx.rng("lex%d" % rnd)
    private = True
    try:
        ctx.driver(files=FILES)
    except Infra as e:
        ctx.notes["internal_api"] = "jsonTokenizer could not be driven directly: " + str(e)[:400]
        private = False
    if rnd == 0:
        for name, a, n in (("numbers", NUMS, ctx.scale(4, 5)), ("strings", STRS, ctx.scale(4, 6)), ("literals", LITS, ctx.scale(3, 5))):
            ctx.model_check("LexMC", MC % (alpha(a), n, "FALSE", "INVARIANT Agree"), name="LexMC, grammar = automaton, " + name, min_states=500)
    if private:
        if rnd == 0:
            out = ctx.model_check("LexMC", MC % (alpha(NUMS + STRS + LITS + b"{}[]:"), 8, "TRUE", "VIEW StateView"), name="LexMC, states of the automaton",
                                  min_states=20, workers=1)
            n, texts = w_method(rng, out, ctx.scale(2, 8), ctx.scale(40, 256))
            ctx.notes["automaton_states"] = n
            validate_lex(ctx, "every state, byte and continuation", texts)
            short = [bytes(x) for k in range(1, ctx.scale(5, 6)) for x in itertools.product(sorted(set(b'"\\u0-.e1,t ')), repeat=k)]
            validate_lex(ctx, "all short texts", short)
        validate_lex(ctx, "random token sequences", [b"".join(pieces(rng) for _ in range(rng.randint(1, 14))) for _ in range(5000)])
        validate_lex(ctx, "random bytes", [bytes(rng.choice([rng.randrange(256), rng.choice(b'"\\{}[]:,tfn0-')]) for _ in range(rng.randint(0, 12)))
                                           for _ in range(3000)])
        validate_lex(ctx, "long tokens", scale.long_tokens(rng, 160), per=5)
    # through the matcher: a text which is not a value is an error, and what follows a value is found
    pairs = []
    e = pools.cmp("eq", pools.f(["b"]), pools.c(pools.I(1)))
    for i in range(500):
        docs = []
        for _ in range(8):
            t = rng.choice([pieces(rng), pieces(rng) + pieces(rng), b"[" + pieces(rng) + b"," + pieces(rng) + b"]"])
            b = b'{"a":' + t + b',"b":1}'
            try:
                b.decode("utf-8")
            except UnicodeDecodeError:
                continue
            d = pools.prefix_doc(b)
            if d is not None:
                docs.append(d)
        pairs.append(([e], docs))
    run_match(ctx, "values which are skipped", pairs)
