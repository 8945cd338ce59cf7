"""python -m mc check <id> | replay <file> | list"""
import importlib
import json
import os
import sys
import traceback

from . import core


def module(pid):
    return importlib.import_module("mc.checks." + pid.lower())


def known_findings(ctx, mod):
    """Every listed finding of this property is demonstrated again on the current tree."""
    probe = getattr(mod, "probe", None)
    for f in core.load_known():
        if f["property"] != ctx.pid or f.get("status") != "open":
            continue
        try:
            broken = probe(f) if probe else None
        except Exception:
            broken = None
        if broken:
            print(f"KNOWN-FINDING: property={ctx.pid} {f['what']}")
        else:
            print(f"# listed finding no longer reproduces: {f['key']}")


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Context(pid, tier, seed)
    mod = module(pid)
    known_findings(ctx, mod)
    mod.run(ctx)
    return core.report(ctx)


def replay(path):
    data = json.load(open(path))
    mod = module(data["property"])
    r = core.Result()
    mod.replay(r, data["payload"])
    for v in r.violations:
        print(json.dumps(v, indent=1))
        print(f"VIOLATION property={data['property']} replay={path}")
    print("reproduced" if r.violations else "not reproduced")
    return 1 if r.violations else 0


def main(argv):
    sys.setrecursionlimit(10000)
    if argv[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        for a in argv[2:]:
            if a.startswith("--tier="):
                tier = a[7:]
        return check(argv[1], tier)
    if argv[0] == "replay":
        return replay(argv[1])
    raise SystemExit(__doc__)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
