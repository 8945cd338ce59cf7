"""pfSense interfaces, floating rules and separators: all interleavings of rules of several interfaces
with all placements of separators, replayed on the parser."""
import itertools

from .. import configs, pf
from ..core import Choice, explore

configs.EXTRA.update(pf.SLICES)
SLICES = ("ids", "captions", "interfaces", "pf rules")

# tag, description, address
WORLDS = {
    "usual": [("wan", "WAN", "dhcp"), ("lan", "LAN", "10.0.0.1/24"), ("opt1", "DMZ", None), ("opt2", None, "10.0.2.1/24")],
    "optional first": [("opt1", "lan 2", "10.0.1.1/16"), ("wan", None, None), ("opt10", "Gäste & <Co>", None), ("opt11", "opt1", "dhcp"), ("lan", "", "192.168.0.1/32")],
}


def world(name, style="plain"):
    m = pf.Pf()
    m.style = style
    for n, (tag, descr, address) in enumerate(WORLDS[name]):
        m.interface(tag, f"em{n}", descr, address)
    return m


def add(m, who, n):
    if who.startswith("floating"):
        m.rule({"floating": "wan", "floating2": "opt1,wan"}[who], floating="yes", direction=("any", "in", "out")[n % 3], descr=f"rule {n}")
    else:
        m.rule(who, descr=f"rule {n}")


def sep_key(who):
    return "floatingrules" if who.startswith("floating") else who


def interleavings(result, world_name, whos, n, nseps, first):
    """All sequences of n rules over whos which start as given, with all sets of nseps separators."""
    rows = range(n + 1)
    keys = []
    for w in whos:
        if sep_key(w) not in keys:
            keys.append(sep_key(w))
    places = [(k, r) for k in keys for r in rows]
    for seq in itertools.product(whos, repeat=n):
        if seq[: len(first)] != first:
            continue
        for seps in itertools.combinations(places, nseps):
            m = world(world_name)
            for i, w in enumerate(seq):
                add(m, w, i)
            for i, (k, r) in enumerate(seps):
                m.separator(k, r, f"text {i} <&> {k}", f"bg-{i}")
            m.place_separators()
            configs.check(result, "pf", m.text, m.state("ids", "captions"), "separators", n)
            if result.full():
                return
    result.samples.append({"rules": seq, "separators": seps})


def details(ch):
    """Everything else about separators and interfaces, by departures from a plain file."""
    w = ch("interfaces", sorted(WORLDS, reverse=True))
    m = world(w, ch("spelling", pf.Pf.STYLES))
    tags = [t for t, _, _ in WORLDS[w]]
    n = ch("rules", [3, 1, 2, 4, 5, 0])
    whos = tags + ["floating", "floating2"]
    for i in range(n):
        add(m, ch(f"rule {i}", whos[i % 2 :] + whos[: i % 2]), i)
    for j in range(ch("separators", [1, 2, 3])):
        m.separator(ch(f"interface of separator {j}", tags + ["floatingrules"]), ch(f"row {j}", [0, 1, 2, 3]),
                    ch(f"text {j}", ["a", "", "<b>&", "ü"]), ch(f"color {j}", ["bg-info", "bg-danger"]))
    m.place_separators(ch("place of the element", [None] + list(range(n))))
    m.order = list(ch("order of sections", list(itertools.permutations(pf.Pf.SECTIONS))))
    return m


def details_job(result, vectors):
    for v in vectors:
        m = details(Choice(v))
        configs.check(result, "pf", m.text, m.state(*SLICES), "file", len(m.rules))
        if result.full():
            return


# interfaces: all orders and kinds
TAGS = ["wan", "lan", "opt1", "opt2", "opt12"]
DESCR = [None, "", "Name", "wan", "N <1>", "opt2"]
ADDR = [None, "dhcp", "10.1.1.1/24", "192.0.2.255/31"]


def interface_job(result, sets):
    for s in sets:
        m = pf.Pf()
        for n, (tag, descr, address) in enumerate(s):
            m.interface(tag, f"em{n}.{n}", descr, address)
        names = [m.map[t] for t, _, _ in s]
        if len(set(names)) != len(names):
            continue  # two interfaces of one name
        for t, _, _ in s:
            m.rule(t, source=("network", s[0][0]))
        m.rule(",".join(t for t, _, _ in s), floating="yes", direction="out")
        m.rule("gone")  # an interface which is not there any more keeps its name
        configs.check(result, "pf", m.text, m.state("ids", "interfaces", "pf rules"), "interfaces", len(s))
        if result.full():
            return


def run(ctx):
    whos = ["wan", "opt1", "floating"]
    n = ctx.pick(5, 6)
    ctx.bounds["rules in all orders over three interfaces"] = n
    jobs = []
    for length in range(1, n + 1):
        firsts = list(itertools.product(whos, repeat=min(2, length)))
        for k in (1, 2) if length < n or not ctx.quick else (1,):
            jobs += [("usual", whos, length, k, f) for f in firsts]
        if length <= ctx.pick(2, 4):
            jobs += [("usual", whos, length, 3, f) for f in firsts]
    five = ["lan", "wan", "opt10", "opt11", "floating2"]
    jobs += [("optional first", five, length, 1, f) for length in range(1, ctx.pick(4, 5) + 1) for f in itertools.product(five, repeat=min(2, length))]
    ctx.map(interleavings, jobs)
    vectors = [v for v, _ in explore(details, ctx.pick(3, 4))]
    ctx.bounds["other files"] = len(vectors)
    ctx.map(details_job, [(vectors[i::32],) for i in range(32)])
    kinds = list(itertools.product(DESCR, ADDR))
    sets = [((t,) + k,) for t in TAGS for k in kinds]
    sets += [((s,) + k, (t,) + l) for s, t in itertools.permutations(TAGS, 2) for k in kinds for l in (kinds if not ctx.quick else kinds[::3])]
    sets += [tuple((t,) + kinds[(7 * i + 5 * j) % len(kinds)] for i, t in enumerate(p)) for p in itertools.permutations(TAGS) for j in range(4)]
    ctx.bounds["interface sections"] = len(sets)
    ctx.map(interface_job, [(sets[i::32],) for i in range(32)])
    ctx.assumptions.append("interfaces have different names; a separator after the last rule of its interface belongs to no rule")


def replay(result, p):
    configs.replay(result, p)
