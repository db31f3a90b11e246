"""The checks by property.  Each takes the context and the number of the round; the thorough tier repeats the random part with
other seeds (and larger inputs)."""
import os

CHECKS = {}


def check(fn):
    def run(ctx):
        for r in range(ctx.scale(1, int(os.environ.get("VERIF_ROUNDS", "12")))):
            fn(ctx, r)
            if ctx.violations:
                break
    CHECKS[fn.__name__] = run
    return fn
