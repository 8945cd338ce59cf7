"""Reading operations in any order: every window of k operations of a de Bruijn walk, on one
configuration, with the outcome of every operation and the state after it compared with the
outcome and state on a configuration nothing was done to before."""
import io
import os
import pickle
import re

from .. import canon, core, impl
from ..core import guarded, jsonable
from . import c07

FILTERS = {
    "asa": ["ip src 10.0.0.9", "ip src any ip dst any", "id A", "id /[B-C]*/ ip dst 10.1.0.0/16", "ip src ANY", "ip src any except id A",
            "id D ip src any ip dst any intersect ip src 10.0.0.0/24 union id /E/"],
    "ios": ["ip src 10.1.0.1", "id 101", "ip src ANY", "id /1*/ ip dst 10.1.1.1", "(ip src 10.2.0.0/16) except id L"],
    "pf": ["ip src 10.0.0.1", "ip dst 10.1.0.0/16", "ip src ANY", "id wan", "ip src any except (ip dst 10.9.9.9)"],
}
WORLDS = {
    "asa": lambda: impl.parse("asa", c07.WORLDS["asa"]()),
    "ios": lambda: impl.parse("ios", c07.WORLDS["ios"]()),
    "pf": lambda: impl.parse("pf", c07.WORLDS["pf"]()),
}


def expanded(world):
    def make():
        c = WORLDS[world]()
        c.expand()
        return c

    return make


for _w in ("asa", "ios", "pf"):
    WORLDS[_w + " expanded"] = expanded(_w)
    FILTERS[_w + " expanded"] = FILTERS[_w]


def things(config):
    return list(config.rules.rules) + [n for p in (1, 2, 3) for n in config.nat[p]]


def chosen(config, result):
    at = {id(o): i for i, o in enumerate(things(config))}
    return sorted(at.get(id(o), "something else") for o in result)


ADDRESS = re.compile(r"0x[0-9a-f]+|\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?")  # and the time of the parse


def words(objects):
    return sorted(ADDRESS.sub("", repr(o)) for o in objects)


def named(config):
    for kind in canon.GROUPS:
        for k, g in getattr(config.groups, kind).items():
            yield kind, k, g


def op_filter(n, spoil=False):
    def op(config, kept):
        caf = kept.setdefault(n, None) or impl.caf(kept["filters"][n])
        kept[n] = caf  # the same filter object is used again and again
        r = impl._quiet(config.filter, caf)
        seen = chosen(config, r)
        if spoil:
            r.clear()  # the answer belongs to the caller
        return seen

    return op


def op_resolve(n):
    def op(config, kept):
        everything = things(config)
        r = set(everything if n is None else impl._quiet(config.filter, impl.caf(kept["filters"][n])))
        got = impl._quiet(config.resolve, r)
        out = words(got)
        got.clear()
        return out

    return op


def op_copy(method, then=None):
    def op(config, kept):
        out = []
        for kind, k, g in named(config):
            if not hasattr(g, method):
                continue
            try:
                c = getattr(g, method)(insitu=False)
            except (NotImplementedError, ValueError) as e:
                out.append((kind, k, type(e).__name__))
                continue
            out.append((kind, k, jsonable(canon.group(c))))
            if then == "clear":
                del c.objects[:]
            elif then == "append":
                c.objects.extend(c.objects)
            elif then and hasattr(c, then):
                try:
                    getattr(c, then)()
                except (NotImplementedError, ValueError):
                    pass
        return out

    return op


def op_repr(config, kept):
    out = words(things(config)) + words(g for _, _, g in named(config)) + words(config.interfaces.values())
    out += words(config.objects.network.values()) + words(config.objects.service.values()) + words(config.objects.time.values())
    return out + [str(i) for i in words([config.names])]


def op_pickle(config, kept):
    c = pickle.loads(pickle.dumps(config))
    out = jsonable(canon.everything(c))
    c.expand()
    c.rules.rules.clear()
    return out


def op_and(config, kept):
    """Rules and NAT rules compared with one another."""
    t = things(config)[::7]
    return [bool(a & b) for a in t for b in t if "ACLRule" in canon.kinds(a)]


def template():
    """The page template of the example, when the libraries it needs are there."""
    try:
        import jinja2

        env = jinja2.Environment(
            loader=jinja2.FileSystemLoader(os.path.join(core.REPO, "examples", "render", "tpl")), extensions=["jinja2.ext.loopcontrols"]
        )
        return env.get_template("static.jinja2")
    except Exception:
        return None


class Args:
    show_not_selected = False
    expand = False
    sort = False
    time = None
    acls = caf = "x"


def op_render(n):
    def op(config, kept):
        t = kept.get("template") or template()
        kept["template"] = t
        if t is None:
            return None
        sel = None
        if n is not None:
            sel = impl._quiet(config.resolve, impl._quiet(config.filter, impl.caf(kept["filters"][n])))
        return ADDRESS.sub("", t.render(aclconfig=config, selection=sel, caf="", args=Args))

    return op


def operations(world):
    n = len(FILTERS[world])
    ops = {f"filter {i}": op_filter(i) for i in range(n)}
    ops["filter 0, answer emptied"] = op_filter(0, True)
    ops["resolve all"] = op_resolve(None)
    ops["resolve filter 2"] = op_resolve(2)
    ops["copy by expand, emptied"] = op_copy("expand", "clear")
    ops["copy by expand, sorted"] = op_copy("expand", "sort")
    ops["copy by expand, collapsed"] = op_copy("expand", "collapse")
    ops["copy by sort, appended to"] = op_copy("sort", "append")
    ops["copy by collapse, emptied"] = op_copy("collapse", "clear")
    ops["repr"] = op_repr
    ops["pickle"] = op_pickle
    ops["compare"] = op_and
    if template() is not None:
        ops["render"] = op_render(None)
        ops["render filter 1"] = op_render(1)
    return ops


def de_bruijn(n, k):
    """Cyclic sequence with every window of length k over range(n) exactly once."""
    a, seq = [0] * n * k, []

    def db(t, p):
        if t > k:
            if k % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, n):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq


def state(config):
    return jsonable(canon.everything(config)), canon.shared(config)


def baseline(world, op):
    c = WORLDS[world]()
    return operations(world)[op](c, {"filters": FILTERS[world]})


def walk(world, sequence, expected, start):
    """-> None or (position, what differs).  state: after every operation."""
    config = WORLDS[world]()
    kept = {"filters": FILTERS[world]}
    ops = operations(world)
    for i, name in enumerate(sequence):
        status, got = guarded(ops[name], config, kept, seconds=30)
        if status != "ok":
            got = "error: " + got
        if got != expected[name]:
            return i, f"{name} does not give what it gives on a fresh configuration: " + str(core.first_difference(jsonable(expected[name]), jsonable(got)))[:600]
        status, now = guarded(state, config)
        if status != "ok" or now[0] != start[0]:
            return i, f"{name} changed the configuration: {core.first_difference(start[0], now[0]) if status == 'ok' else now}"[:900]
        if now[1] != start[1]:
            return i, f"{name} changed what references are bound to: {core.first_difference(start[1], now[1])}"[:900]
    return None


KNOWN = {}


def expect(world, names):
    if all((world, n) in KNOWN for n in names):
        return {n: KNOWN[world, n] for n in names}
    expected = {}
    for n in names:
        status, v = guarded(baseline, world, n, seconds=30)
        expected[n] = v if status == "ok" else "error: " + v
        KNOWN[world, n] = expected[n]
    return expected


def job(result, world, sequence):
    expected = expect(world, sorted(set(sequence)))
    start = state(WORLDS[world]())
    d = walk(world, sequence, expected, start)
    result.traces += 1
    result.transitions += len(sequence) if d is None else d[0] + 1
    for i in range(len(sequence)):
        result.state((world, tuple(sequence[max(0, i - 2) : i + 1])))
    result.outcome(world, len(sequence))
    result.samples.append({"world": world, "operations": list(sequence[:6])})
    if d is not None:
        # the shortest ending of the history which does it on a fresh configuration
        i = d[0]
        for n in (1, 2, 3, 4, 8, 16, i + 1):
            tail = sequence[max(0, i + 1 - n) : i + 1]
            e = walk(world, tail, expected, start)
            if e is not None:
                result.violation(f"{world}: after {list(tail[:-1])}: {e[1]}", {"world": world, "sequence": list(tail)})
                return
        result.violation(f"{world}: {d[1]}", {"world": world, "sequence": list(sequence[: i + 1])})


def run(ctx):
    for w in WORLDS:
        status, start = guarded(lambda: state(WORLDS[w]()))
        if status != "ok":
            ctx.total.violation(f"{w}: {start}", {"world": w, "sequence": []})
            return
        names = sorted(operations(w))
        bad = [v for v in expect(w, names).items() if str(v[1]).startswith("error: ")]
        if bad:
            ctx.total.violation(f"{w}: {bad[0]}", {"world": w, "sequence": [bad[0][0]], "fails": True})
            return
        k = ctx.pick(3 if w == "ios" else 2, 4 if w == "ios" else 3)
        seq = [names[i] for i in de_bruijn(len(names), k)]
        seq += seq[: k - 1]
        parts = ctx.pick(16, 48)
        size = -(-len(seq) // parts)
        ctx.bounds[w] = {"operations": len(names), "window": k, "steps": len(seq)}
        ctx.map(job, [(w, seq[i : i + size + k - 1]) for i in range(0, len(seq), size)])


def replay(result, p):
    for n, v in expect(p["world"], p["sequence"]).items():
        if str(v).startswith("error: "):
            result.violation(f"{n}: {v}", p)
    job(result, p["world"], p["sequence"])
