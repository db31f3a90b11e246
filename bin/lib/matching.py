"""Checks which match documents: generation of cases, the driver, and trace validation with TraceMatch."""
import hashlib
import json
import os
import re
import shutil
import sys
import tempfile
import time
from core import *
from values import *
import gen as G
from pools import any_ff


def match_cases(pairs, style=None, op="match"):
    """pairs: (expressions, documents as values or (value, bytes)).  Returns driver cases"""
    cases = []
    st = style or Style()
    for es, docs in pairs:
        cases.append({"op": op, "es": es, "docs": [b64(d[1] if isinstance(d, tuple) else doc_bytes(d, st)) for d in docs]})
    return cases


MATCHER_CFG = "SPECIFICATION Spec\nCONSTANTS Again = %s\n Fault = \"%s\"\nINVARIANTS Formed Sound NoPanic Operands Stalled Refines\nPROPERTIES Fresh\n"


def model_matcher(ctx, name, pairs, again=False, faults=(), min_states=1000):
    """Checks with TLC that the matcher's algorithm (Matcher.tla) refines the meaning on these expressions and documents, and that
    it does not with a part of it left out"""
    d = tempfile.mkdtemp(dir=ctx.scratch)
    log = os.path.join(d, "cases.ndjson")
    with open(log, "w") as fh:
        for es, docs in pairs:
            fh.write(json.dumps(slim({"es": es, "docs": vals(docs)}), separators=(",", ":")) + "\n")
    t0 = time.time()
    ctx.model_check("Matcher", MATCHER_CFG % ("TRUE" if again else "FALSE", ""), name="Matcher, " + name, min_states=min_states,
                    env={"VERIF_LOG": log})
    for f in faults:
        rc, out, gen, dist = ctx.tlc("Matcher", MATCHER_CFG % ("TRUE" if again else "FALSE", f), env={"VERIF_LOG": log})
        if not re.search(r"(Invariant|Action property|property) \w+ is violated|is violated", out):
            raise Infra("the matcher without %s is not refuted\n%s" % (f, tail(out)))
        ctx.notes.setdefault("refuted", []).append("Matcher without %s: %s" % (f, re.search(r"(\w+) is violated", out).group(1)))
    if os.environ.get("VERIF_DEBUG"):
        sys.stderr.write("model matcher %s: %d cases %.1f s %s\n" % (name, len(pairs), time.time() - t0, ctx.notes.get("refuted")))
    shutil.rmtree(d, ignore_errors=True)


def vals(docs):
    return [d[0] if isinstance(d, tuple) else d for d in docs]


def with_texts(v):
    """the value with the text of every array and object in it (x), for comparisons of those; the text is the compact one"""
    if v["t"] == "arr":
        w = {**v, "e": [with_texts(y) for y in v["e"]]}
    elif v["t"] == "obj":
        w = {**v, "m": [{**m, "v": with_texts(m["v"])} for m in v["m"]]}
    else:
        return v
    if "open" not in v:
        w["x"] = hashlib.md5(doc_bytes(v)).hexdigest()[:12]
    return w


def run_match(ctx, name, pairs, style=None, op="match", adapt=None, limit=6000, minslice=100):
    """Runs the cases and validates what they did; adapt: function (index, outcome) that adds what the event asserts"""
    for k in range(0, len(pairs), limit):
        part = pairs[k:k + limit]
        cases = match_cases(part, style, op)
        outs = ctx.run(cases)
        if adapt:
            for i, o in enumerate(outs):
                adapt(k + i, o)
        judge(ctx, [(es, [with_texts(d) if style is None and any_ff(es) and not isinstance(d, tuple) else d[0] if isinstance(d, tuple) else d
                          for d in docs]) for es, docs in part], cases, outs, name, minslice=minslice)


def event(es, docs, o):
    ev = {"es": es, "docs": docs, "c": o.get("c", "?")}

    def rs(l):
        return [{"v": x["v"], "st": x["st"], "x": x["x"]} for x in l]
    if "seen" in o:
        ev["seen"] = [rs(x) for x in o["seen"]]
    else:
        ev["r"] = rs(o.get("r", []))
    for k in ("fresh", "slow"):
        if k in o:
            ev[k] = rs(o[k])
    for k in ("asserts", "same"):
        if k in o:
            ev[k] = o[k]
    return slim(ev)


def readable_case(case):
    c = dict(case)
    if "docs" in c:
        import base64
        c["docs_text"] = [base64.b64decode(d).decode("utf-8", "replace") for d in c["docs"]]
    return c


def judge(ctx, pairs, cases, outs, name, module="TraceMatch", kinds=None, reduce=True, minslice=100):
    """Trace validation of match outcomes; violations are recorded with their smallest failing document"""
    evs, idx = [], []
    for i, ((es, docs), o) in enumerate(zip(pairs, outs)):
        if o.get("skipped"):
            continue
        evs.append(event(es, docs, o))
        idx.append(i)
        ctx.traces += 1
    rej = ctx.validate(module, evs, name=name, minslice=minslice)
    for j in sorted(rej):
        i = idx[j]
        docs = [int(x) for x in re.findall(r"\d+", rej[j])]
        case = dict(cases[i])
        case.pop("id", None)
        if len(ctx.violations) >= 50:
            break
        ds = [d for d in docs if d > 0]
        if ds and "docs" in case and reduce:
            case["docs"] = [case["docs"][d - 1] for d in ds[:3]]
        why = "not allowed by the specification: " + show_expr(case.get("es"))
        if outs[i].get("c") != "ok":
            why += " -> compile/match outcome %s %s" % (outs[i].get("c"), outs[i].get("msg", ""))
        for d in ds[:2]:
            import base64
            got = {k: outs[i][k][d - 1] for k in ("r", "fresh", "slow", "seen") if k in outs[i] and len(outs[i][k]) >= d}
            why += " on %s -> %s" % (base64.b64decode(cases[i]["docs"][d - 1]).decode("utf-8", "replace")[:300],
                                     json.dumps(got)[:400])
        ctx.violation(readable_case(case), {"outcome": outs[i], "rejected_docs": docs}, why)
    if evs:
        k = len(evs) // 2
        ctx.sample({"expression": show_expr(cases[idx[k]]["es"]), "doc": readable_case(cases[idx[k]]).get("docs_text", [""])[0][:400],
                    "outcome": outs[idx[k]]["r"][:1] if outs[idx[k]].get("r") else outs[idx[k]].get("c")})
    return rej


def show_expr(e):
    """short text of an expression"""
    if e is None:
        return ""
    if isinstance(e, list):
        return "[" + "; ".join(show_expr(x) for x in e) + "]"
    o = e["o"]
    sym = {"eq": "=", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "like": "~"}
    if o in ("and", "or"):
        return o.upper() + "(" + ", ".join(show_expr(x) for x in e["e"]) + ")"
    if o == "not":
        return "NOT(" + show_expr(e["e"]) + ")"
    if o in sym:
        return show_expr(e["l"]) + sym[o] + show_expr(e["r"])
    if o == "ex":
        return "EXISTS " + show_expr(e["l"])
    if o == "nex":
        return "NOTEXISTS " + show_expr(e["l"])
    if o in ("any", "every", "anyevery"):
        return "%s $%d IN %s {%s}" % (o.upper(), e["v"], show_expr(e["l"]), show_expr(e["b"]))
    if o == "f":
        return ("$%d" % e["v"] if e["v"] else "") + "." + ".".join(e["p"])
    if o == "v":
        c = e["c"]
        if c["t"] == "num":
            return "%s:%s" % (c.get("g"), c.get("gt", c["k"]))
        if c["t"] == "str":
            return json.dumps(text_of(c["c"]))
        return str(c.get("b", c["t"]))
    if o == "fn":
        return e["n"] + "(" + ", ".join(show_expr(x) for x in e["a"]) + ")"
    if o == "time":
        return "DATE(" + text_of(e["c"]) + ")"
    if o == "re":
        return "/" + e["s"] + "/"
    return o
