"""Storing and reloading: every combination of up to k constructs, every pickle protocol, in this and
in a fresh interpreter, compared with the original in every respect a user can see."""
import copy
import itertools
import json
import os
import pickle
import subprocess
import sys

from .. import canon, core, gallery, impl
from ..core import first_difference, guarded, jsonable

FILTERS = ["ip src 10.0.0.1", "ip src any", "ip dst ANY", "id A", "id /[A-C1]*/ ip dst 10.2.0.1", "ip src 10.0.0.0/8 except id B union ip dst 2001:db8::/32",
           "ip src ANY4 ip dst ANY6"]


def things(config):
    return list(config.rules.rules) + [n for p in (1, 2, 3) for n in config.nat[p]]


def selections(config, filters):
    r = []
    at = {id(o): i for i, o in enumerate(things(config))}
    for f in filters:
        r.append(sorted(at[id(o)] for o in impl._quiet(config.filter, f)))
    return r


def resolved(config):
    """What the rules refer to, by label or form."""
    d = canon.definitions(config)
    got = impl._quiet(config.resolve, set(things(config)))
    return sorted(d[id(o)] for o in got if id(o) in d)


def extra(config):
    return {"kind": type(config).__name__, "version": getattr(config, "version", None), "timestamp": str(config.timestamp),
            "captions": [[(c.text, c.bg) for c in (r.head or [])] for r in config.rules.rules]}


def seen(config):
    return {
        "everything": jsonable(canon.everything(config)),
        "shared": canon.shared(config),
        "selected": selections(config, [impl.caf(f) for f in FILTERS]),
        "resolved": resolved(config),
        "repr": repr(config.rules.rules) + repr(sorted(canon.groups(config))),
        "extra": extra(config),
    }


def after_expand(config):
    config.expand()
    return seen(config)


def remote():
    """Runs in a fresh interpreter: pickles on standard input, what they contain on standard output."""
    out = []
    for data in pickle.loads(sys.stdin.buffer.read()):
        status, v = guarded(lambda: seen(pickle.loads(data)))
        out.append(v if status == "ok" else "error: " + v)
    sys.stdout.write(json.dumps(jsonable(out)))


def elsewhere(blobs):
    env = dict(os.environ)
    p = subprocess.run([sys.executable, "-c", "from mc.checks import c26; c26.remote()"], input=pickle.dumps(blobs), stdout=subprocess.PIPE,
                       cwd=core.VERIF, env=env, timeout=600)
    return json.loads(p.stdout)


WAYS = [(f"pickle protocol {n}", (lambda n: lambda c: pickle.loads(pickle.dumps(c, n)))(n)) for n in range(pickle.HIGHEST_PROTOCOL + 1)]
WAYS.append(("pickled twice", lambda c: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(c))))))
WAYS.append(("deepcopy", copy.deepcopy))


def used(c):
    """Reading operations first: what they leave behind must not get in the way."""
    seen(c)
    impl._quiet(c.filter, impl.caf("ip src any"))
    return pickle.loads(pickle.dumps(c))


def with_selection(c):
    r = impl._quiet(c.filter, impl.caf("ip src any"))
    n = len(r)
    c2, r2 = pickle.loads(pickle.dumps((c, r)))
    if len(r2) != n or not r2 <= set(things(c2)):
        raise AssertionError("a selection stored along with its configuration does not belong to it any more")
    return c2


WAYS += [("after use", used), ("with a selection", with_selection)]


def differs(dialect, names):
    config = impl.parse(dialect, gallery.config(dialect, names))
    want = seen(config)
    for name, f in WAYS:
        status, c = guarded(f, config)
        if status != "ok":
            return f"{name}: {c}", None, None
        status, s = guarded(seen, c)
        if status != "ok" or s != want:
            return f"{name}: {first_difference(want, s) if status == 'ok' else s}", None, None
    if seen(config) != want:
        return "storing changed the configuration", None, None
    # independent of one another
    blob = pickle.dumps(config)
    one, two = pickle.loads(blob), pickle.loads(blob)
    e = after_expand(one)
    del one.rules.rules[:]
    one.groups.network.clear()
    for o in (two, config):
        if seen(o) != want:
            return "a reloaded configuration shares parts with another one", None, None
    status, w = guarded(after_expand, impl.parse(dialect, gallery.config(dialect, names)))
    if status == "ok":
        e["extra"]["timestamp"] = w["extra"]["timestamp"] = ""
        if e != w:
            return f"expanding after reloading: {first_difference(w, e)}", None, None
    return None, blob, want


def job(result, dialect, sets, far):
    blobs, wants = [], []
    for names in sets:
        result.traces += len(WAYS)
        result.transitions += 2 * len(WAYS)
        result.state((dialect, tuple(names)))
        status, d = guarded(differs, dialect, names)
        d, blob, want = d if status == "ok" else (d, None, None)
        if d is not None:
            result.violation(f"{dialect} {list(names)}: {d}"[:1500], {"dialect": dialect, "names": list(names)})
            if result.full():
                return
            continue
        blobs.append(blob)
        wants.append((names, want))
    result.outcome(dialect, len(sets))
    if far and blobs:
        for (names, want), got in zip(wants, elsewhere(blobs)):
            result.traces += 1
            if got != jsonable(want):
                d = got if isinstance(got, str) else first_difference(jsonable(want), got)
                result.violation(f"{dialect} {list(names)} reloaded by another process: {d}"[:1500], {"dialect": dialect, "names": list(names)})
        result.outcome("reloaded in another process", len(blobs))
    result.samples.append({"dialect": dialect, "constructs": list(sets[-1])[:6]})


LEAVES = ["ip src 10.0.0.1", "ip src 10.0.0.0/8 10.2.0.1", "ip dst any", "ip src any4", "ip src ANY", "ip dst ANY4", "ip dst ANY6", "ip src any6",
          "id A", "id /[B-C]*/", "ip src 2001:db8::/32 ip dst any", "id A ip src 10.0.0.1 ip dst 10.2.0.0/16"]


def caf_job(result, texts):
    config = impl.parse("asa", gallery.config("asa"))
    for t in texts:
        caf = impl.caf(t)
        want = selections(config, [caf])
        for name, f in WAYS[:-2]:
            result.traces += 1
            result.transitions += 1
            status, c = guarded(f, caf)
            status, got = guarded(selections, config, [c]) if status == "ok" else (status, c)
            if got != want or repr(c) != repr(caf):
                result.violation(f"filter {t!r} {name}: selects {got} instead of {want}", {"filter": t})
                break
        result.state(t)
    result.outcome("filters", len(texts))


def run(ctx):
    for d in gallery.TABLES:
        names = gallery.names(d)
        status, c = guarded(impl.parse, d, gallery.config(d))
        if status != "ok":
            ctx.total.violation(f"{d}: {c}", {"dialect": d, "names": names})
            continue
        k = ctx.pick(1 if d == "asa" else 2, 2 if d == "asa" else 3)
        sets = [()] if d == "pf" else []
        sets += [s for n in range(1, k + 1) for s in itertools.combinations(names, n)]
        sets += [tuple(x for x in names if x not in drop and not set(gallery.close(d, [x])) & set(drop)) for drop in itertools.combinations(names, 1)]
        sets.append(tuple(names))
        ctx.bounds[d] = {"constructs": len(names), "together": k, "configurations": len(sets)}
        parts = 16 if ctx.quick else 64
        ctx.map(job, [(d, sets[i::parts], True) for i in range(min(parts, len(sets)))])
    ops = [f"({x}) {o} ({y})" for x in LEAVES for y in LEAVES for o in ("union", "intersect", "except")]
    texts = LEAVES + ops
    if not ctx.quick:
        texts += [f"id A (({x}) {o} ({y})) {p} {z}" for x in LEAVES[:6] for y in LEAVES[4:] for z in LEAVES[::3] for o in ("union", "except") for p in ("intersect", "except")]
    ctx.bounds["filters"] = len(texts)
    ctx.map(caf_job, [(texts[i::16],) for i in range(16)])
    ctx.assumptions.append("the reloading process imports the same version of the library")


def replay(result, p):
    if "filter" in p:
        caf_job(result, [p["filter"]])
    else:
        job(result, p["dialect"], [tuple(p["names"])], True)
