"""A filter leaf (id pattern, source and destination addresses) selects exactly the matching rules."""
import itertools

from .. import cafref, impl, pf
from ..asa import mask

# -------------------------------------------------------------------------------------------
# worlds: (configuration text, rules as reference terms)
HOST, NET, OBJ, GRP = "host", "net", "obj", "grp"


def h4(a):
    import ipaddress

    i = ipaddress.ip_address(a)
    return ("host", i.version, int(i))


def n4(a, p):
    import ipaddress

    i = ipaddress.ip_address(a)
    return ("net", i.version, int(i), p, "str")


def asa_terms():
    """-> preamble, [(text, term)]"""
    o_host = ("obj", "oh", "host", 4, h4("10.1.2.3")[2])
    o_net = ("obj", "on", "subnet", 4, n4("10.1.0.0", 16)[2], 16)
    o_rng = ("obj", "orr", "range", 4, h4("10.1.2.3")[2], h4("10.1.2.9")[2])
    o_v6 = ("obj", "o6", "subnet", 6, h4("2001:db8::")[2], 32)
    pre = (
        "object network oh\n host 10.1.2.3\nobject network on\n subnet 10.1.0.0 255.255.0.0\n"
        "object network orr\n range 10.1.2.3 10.1.2.9\nobject network o6\n subnet 2001:db8::/32\n"
        "object network of\n fqdn www.example.org\n"
        "object-group network g1\n network-object host 10.1.2.4\n network-object object o6\n"
        "object-group network g2\n network-object 192.168.0.0 255.255.0.0\n group-object g1\n"
    )
    g1 = ("grp", "g1", (h4("10.1.2.4"), o_v6))
    g2 = ("grp", "g2", (n4("192.168.0.0", 16), g1))
    t = [
        ("any", ("any",)), ("any4", ("any4",)), ("any6", ("any6",)),
        ("host 10.1.2.3", h4("10.1.2.3")), ("host 10.1.2.4", h4("10.1.2.4")),
        ("10.1.2.0 255.255.255.0", n4("10.1.2.0", 24)), ("10.0.0.0 255.0.0.0", n4("10.0.0.0", 8)),
        ("0.0.0.0 0.0.0.0", n4("0.0.0.0", 0)), ("10.1.3.0 255.255.255.128", n4("10.1.3.0", 25)),
        ("host 2001:db8::1", h4("2001:db8::1")), ("2001:db8:0:1::/64", n4("2001:db8:0:1::", 64)),
        ("interface outside", ("iface", "outside")),
        ("object oh", o_host), ("object on", o_net), ("object orr", o_rng), ("object o6", o_v6),
        ("object of", ("obj", "of", "fqdn", None)), ("object-group g1", g1), ("object-group g2", g2),
    ]
    return pre, t


def world_asa():
    text, terms = asa_terms()
    rules = []
    for (a, x), (b, y) in itertools.product(terms, repeat=2):
        text += f"access-list x extended permit ip {a} {b}\n"
        rules.append(("x", x, y))
    for a, x in terms:
        if x[0] not in ("any4", "any6") and x[0] in ("any", "host", "net"):
            text += f"access-list s standard permit {a}\n"
            rules.append(("s", x, ("any",)))
    text += "access-list w webtype permit url http://www.example.org/\naccess-list w webtype deny url any\n"
    rules += [("w", ("any",), ("url", "u")), ("w", ("any",), ("url", "any"))]
    return "asa", text, rules


def world_ios():
    terms = [("any", ("any",)), ("host 10.1.2.3", h4("10.1.2.3")), ("10.1.2.0 0.0.0.255", n4("10.1.2.0", 24)),
             ("10.1.0.3 0.0.255.0", ("wild", h4("10.1.0.3")[2], h4("0.0.255.0")[2])),
             ("10.0.2.0 0.255.0.255", ("wild", h4("10.0.2.0")[2], h4("0.255.0.255")[2])),
             ("10.1.2.4 0.0.0.253", ("wild", h4("10.1.2.4")[2], h4("0.0.0.253")[2])),
             ("0.0.0.0 255.255.255.254", ("wild", 0, h4("255.255.255.254")[2])),
             ("object-group g", ("grp", "g", (h4("10.1.2.4"), n4("192.168.0.0", 16))))]
    text = "object-group network g\n host 10.1.2.4\n 192.168.0.0 255.255.0.0\n!\nip access-list extended x\n"
    rules = []
    for (a, x), (b, y) in itertools.product(terms, repeat=2):
        text += f" permit ip {a} {b}\n"
        rules.append(("x", x, y))
    return "ios", text, rules


POOL = ["any", "any4", "any6", "ANY", "ANY4", "ANY6", "10.1.2.3", "10.1.2.4", "10.1.2.10", "10.1.77.3", "192.168.1.1",
        "10.1.2.0/24", "10.1.2.8/29", "10.1.2.3/32", "10.0.0.0/8", "10.1.2.4/30", "10.1.2.9/24", "192.168.0.0/15", "0.0.0.0/0",
        "172.16.0.0/12", "2001:db8::1", "2001:db8:0:1::/64", "2001:db8::/16", "::/0", "2001:db9::1", "fe80::/10"]


def address_filters(pool, pairs):
    for d in ("src", "dst"):
        for a in pool:
            yield ["ip", d, a]
    for a, b in itertools.product(pool, repeat=2):
        yield ["ip", "src", a, "ip", "dst", b]
        for d in ("src", "dst") if pairs else ():
            yield ["ip", d, a, b]
            yield ["ip", d, a, "ip", d, b]
    for a, b, c in itertools.product(pool[::5] + ["ANY4"], pool[2::6], pool[1::7]):
        yield ["ip", "src", a, b, c]
        yield ["ip", "dst", a, "ip", "src", b, "ip", "dst", c]
        yield ["id", "x", "ip", "src", a, b, "ip", "dst", c]
        yield ["id", "/[!x]/", "ip", "dst", a, b, "ip", "src", c]


def clause_filters(top, pools):
    """Every way to spread addresses over ip clauses: each clause has a direction and one or two addresses."""
    shapes = [(d, n) for d in ("src", "dst") for n in (1, 2)]
    for n in range(2, top + 1):
        for form in itertools.product(shapes, repeat=n):
            for k, pool in enumerate(pools):
                addresses = itertools.cycle(pool)
                tokens = [] if k % 2 else ["id", "x"]
                for d, size in form:
                    tokens += ["ip", d] + [next(addresses) for _ in range(size)]
                yield tokens


# no address of a pool matches all that another one does
CLAUSE_POOLS = [["10.1.2.3", "10.1.2.4", "192.168.0.0/15", "2001:db8::1", "10.1.2.8/29"],
                ["2001:db8:0:1::/64", "10.1.77.3", "ANY6", "192.168.1.1", "10.1.2.4/30"],
                ["ANY4", "10.1.2.3", "fe80::/10", "10.1.2.4", "172.16.0.1"]]


# -------------------------------------------------------------------------------------------
def patterns(top, letters, meta):
    """All delimited shell patterns over a small alphabet, and all plain ids."""
    alphabet = letters + meta
    for n in range(1, top + 1):
        for p in itertools.product(alphabet, repeat=n):
            yield ["id", "/" + "".join(p) + "/"]
    for n in range(1, 4):
        for p in itertools.product(letters + "*/", repeat=n):
            yield ["id", "".join(p)]


def world_ids():
    ids = [x for n in (1, 2, 3) for x in map("".join, itertools.product("aB-", repeat=n))]
    ids += ["aBa", "a.B", "aaBB", "_a", "0", "10", "1"]
    ids = [i for i in dict.fromkeys(ids)]
    text = "".join(f"access-list {i} extended permit ip any any\n" for i in ids)
    return "asa", text, [(i, ("any",), ("any",)) for i in ids]


def world_pf():
    """Aliases (also of a url, which may be anything), addresses and any on every side."""
    m = pf.Pf()
    m.interface("wan", "em0", "WAN")
    m.alias("hosts", "host", ("10.1.2.3", "2001:db8::1"))
    m.alias("nets", "network", ("192.168.0.0/16", "10.1.0.0/16"))
    m.alias("url", "urltable", "http://127.0.0.1/x")
    sides = [("any",), ("address", "10.1.2.3"), ("address", "10.1.2.0/24"), ("address", "2001:db8::/32"), ("address", "hosts"), ("address", "nets"), ("address", "url")]
    for a, b in itertools.product(sides, repeat=2):
        m.rule("wan", source=a, destination=b)
    rules = [(r["id"], r["src"], r["dst"]) for r in m.rules]
    return "pf", m.text, [(i, cafref.plain_term(a), cafref.plain_term(b)) for i, a, b in rules]


BASES = {"10.170.85.90": 32, "2001:db8:aaaa:5555:f0f:a5a5:3333:cccc": 128}


def world_lengths():
    """Hosts which differ from an address in one bit, or in all bits behind one."""
    import ipaddress

    text, rules = "", []
    for a, bits in BASES.items():
        n = int(ipaddress.ip_address(a))
        make = ipaddress.IPv4Address if bits == 32 else ipaddress.IPv6Address
        hosts = [n] + [n ^ (1 << k) for k in range(bits)] + [n ^ ((1 << k) - 1) for k in range(2, bits + 1)]
        for i, h in enumerate(hosts):
            both = [str(make(h)), "any"]
            for x, y in (both, both[::-1]) if i < 3 else (both,):
                text += "access-list x extended permit ip " + " ".join(z if z == "any" else f"host {z}" for z in (x, y)) + "\n"
                rules.append(("x", *(("any",) if z == "any" else h4(z) for z in (x, y))))
    return "asa", text, rules


def length_filters():
    """Networks of every length, of the address itself and of its neighbours."""
    for a, bits in BASES.items():
        for p in range(bits + 1):
            yield ["ip", "src", f"{a}/{p}"]
            yield ["ip", "dst", f"{a}/{p}"]
            yield ["ip", "src", f"{a}/{p}", f"{a}/{bits - p}"]
            if p not in (0, bits):
                yield ["id", "x", "ip", "src", f"{a}/{p}", "ip", "dst", f"{a}/{bits - p}"]


MEMBERS = {"a4": ("any4",), "a6": ("any6",), "a": ("any",)}


def world_groups():
    """Groups whose members are any, any4 or any6, at any depth: no text makes them, users of the library can (see `furnish`)."""
    names = ["a", "a4", "a6", "n"]
    text = "".join(f"object-group network {n}\n network-object host 172.16.0.1\n" for n in names)
    text += "".join(f"object-group network o{n}\n group-object {n}\n" for n in names)
    text += "".join(f"object-group network oo{n}\n network-object 172.20.0.0 255.255.0.0\n group-object o{n}\n" for n in names)
    terms = {}
    for n in names:
        terms[n] = ("grp", n, (h4("172.16.0.1"),) + ((MEMBERS[n],) if n in MEMBERS else ()))
        terms[f"o{n}"] = ("grp", f"o{n}", (terms[n],))
        terms[f"oo{n}"] = ("grp", f"oo{n}", (n4("172.20.0.0", 16), terms[f"o{n}"]))
    rules = []
    for a, b in itertools.product(terms, repeat=2):
        text += f"access-list x extended permit ip object-group {a} object-group {b}\n"
        rules.append(("x", terms[a], terms[b]))
    return "asa", text, rules


def furnish(config):
    from acltk import aclObjects

    for n, c in (("a", aclObjects.NetworkAny), ("a4", aclObjects.NetworkAny4), ("a6", aclObjects.NetworkAny6)):
        config.groups.network[n].add(c())


WORLDS = {"lengths": world_lengths, "pf": world_pf, "groups": world_groups, "asa": world_asa, "ios": world_ios, "ids": world_ids}


def job(result, group, which):
    dialect, text, rules = WORLDS[which]()
    config = impl.parse(dialect, text)
    if which == "groups":
        furnish(config)
    if len(config.rules.rules) != len(rules):
        result.violation("the configuration under the filters lost rules", {"world": which, "tokens": ["ip", "src", "any"]})
        return
    for tokens in group:
        outcome, d = cafref.judge(config, rules, tokens)
        result.traces += 1
        result.transitions += len(tokens)
        result.state((which, tuple(tokens)))
        result.outcome(outcome)
        if d is not None:
            result.violation(f"{cafref.text(tokens)}: {d}", {"world": which, "tokens": tokens})
            if result.full():
                return
    result.samples.append({"filter": cafref.text(tokens), "outcome": outcome})


def run(ctx):
    for w, filters in (
        ("asa", list(clause_filters(ctx.pick(3, 4), CLAUSE_POOLS)) + list(address_filters(POOL, not ctx.quick))),
        ("ios", list(clause_filters(ctx.pick(3, 4), CLAUSE_POOLS)) + list(address_filters(POOL, True))),
        ("pf", list(address_filters(POOL, not ctx.quick))),
        ("groups", list(address_filters(POOL, not ctx.quick))),
        ("lengths", list(length_filters())),
        ("ids", list(patterns(ctx.pick(4, 5), "aB-", "*?[]!"))),
    ):
        ctx.batches(job, filters, 100, w)
        ctx.bounds[w] = {"filters": len(filters), "rules": len(WORLDS[w]()[2])}
    ctx.bounds["addresses"] = len(POOL)


def replay(result, p):
    job(result, [p["tokens"]], p["world"])
