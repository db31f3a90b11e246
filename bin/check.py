#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decides one property on /repo's working tree."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, checks


def main():
    prop = sys.argv[1]
    ctx = core.Ctx(prop)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            rep = json.load(open(sys.argv[3]))
            print(rep["why"])
            case = {k: v for k, v in rep["case"].items() if k != "docs_text"}
            print(json.dumps(ctx.run([case], files=rep.get("files", ["core_verif_test.go"]))[0], indent=1))
            return 0
        checks.CHECKS[prop](ctx)
        return core.finish(ctx)
    except core.Infra as e:
        sys.stderr.write("ERROR in the check of %s: %s\n" % (prop, e))
        print("ERROR: no answer for %s" % prop)
        return 3
    finally:
        if not os.environ.get("VERIF_KEEP"):
            ctx.close()


if __name__ == "__main__":
    sys.exit(main())
