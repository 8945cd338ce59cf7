"""NAT rules are read as written and kept in the section and order they are evaluated in."""
import itertools

from .. import configs
from ..asa import ANY, Asa, op, rng
from ..canon import net
from ..core import explore

SLICES = ("nat", "network_objects")


def new():
    m = Asa()
    m.interface("Ethernet0/0", "inside")
    m.interface("Ethernet0/1", "inside2")
    m.interface("Ethernet0/2", "outside")
    m.interface("dmz")
    m.object_network("net", "subnet", "10.1.0.0", 16)
    m.object_network("net1", "host", "10.2.0.1")
    m.object_network("net10", "range", "10.3.0.1", "10.3.0.6")
    m.object_network("any1", "host", "10.4.0.1")
    m.object_network("interface1", "subnet", "2001:db8::", 64)
    for n, o in (("grp", "net"), ("grp1", "net10"), ("net-g", "any1")):
        m.group("network", n, [("network-object object " + o, ("obj", o, m.netobj[o]))])
    m.object_service("src", "tcp", op("eq", 80))
    m.object_service("src1", "tcp", rng(8080, 8090))
    m.object_service("dst", "udp", None, op("eq", 53))
    m.object_service("dst1", "udp", None, op("gt", "domain"))
    return m


IFACES = ["inside", "outside", "inside2", "dmz", "any"]
FALLBACKS = [None, "interface", "interface ipv6"]


def obj(m, n):
    return n, ("obj", n, m.netobj[n])


def grp(m, n):
    return n, m.groups["network"][n]


def pool(t, *words):
    return " ".join(("pat-pool", t[0]) + words), t[1]


def subsets(l):
    return [c for n in range(len(l) + 1) for c in itertools.permutations(l, n)]


def nodes(m):
    return [obj(m, "net"), obj(m, "net1"), obj(m, "net10"), grp(m, "grp"), grp(m, "grp1"), obj(m, "any1"), obj(m, "interface1"), grp(m, "net-g")]


WORDS = [(), ("round-robin",), ("extended",), ("flat",), ("flat include-reserve",), ("round-robin", "extended"),
         ("round-robin", "extended", "flat"), ("extended", "flat include-reserve")]


def twice_driver(ch):
    m = new()
    n = nodes(m)
    real, mapped = ch("real interface", IFACES), ch("mapped interface", ["outside"] + [i for i in IFACES if i != "outside"])
    after = ch("section", [None, "after-auto", "after-object", "after-auto 1", "after-auto 17"])
    kind = ch("kind", ["static", "dynamic"])
    src = ch("real source", n + [ANY])
    keyword = ("interface", "interface") if mapped != "any" else None
    if kind == "static":
        to = ch("mapped source", n + [t for t in (keyword, ANY) if t])
        fallback = None
    else:
        to = ch("mapped source", n + [t for t in (keyword,) if t] + [pool(t, *w) for t, w in
                [(n[2], w) for w in WORDS] + [(n[4], w) for w in WORDS[:3]]])
        fallback = ch("fallback", FALLBACKS) if to is not keyword and mapped != "any" else None
    mdst = ch("mapped destination", [None] + n + [t for t in (keyword, ANY) if t])
    rdst = ch("real destination", n) if mdst else None
    s = lambda name: (("proto", m.svcobj[name][0][1]),) + m.svcobj[name][1:]
    services = [None] + [(f"{a} {b}", s(b), s(a)) for a in ("dst", "dst1") for b in ("dst", "dst1")]
    if kind == "static":
        services += [(f"{a} {b}", s(a), s(b)) for a in ("src", "src1") for b in ("src", "src1")]
    service = ch("service", services)
    if kind == "static":
        opts = [(o,) for o in ("net-to-net", "dns", "unidirectional", "no-proxy-arp", "inactive", "route-lookup")]
        opts += [("no-proxy-arp", "route-lookup", "inactive"), ("net-to-net", "dns"), ("unidirectional", "inactive")]
    else:
        opts = [("dns",), ("unidirectional",), ("inactive",), ("dns", "unidirectional", "inactive")]
    options = ch("options", [()] + opts)
    description = ch("description", [None, "words and more", "dns", "source static any any"])

    def case(m, i):
        m.twice_nat(real, mapped, kind, src, to, fallback, mdst and (mdst, rdst), service, options, description, after)

    return case


def object_driver(ch):
    m = new()
    n = nodes(m)
    real, mapped = ch("real interface", IFACES), ch("mapped interface", ["outside"] + [i for i in IFACES if i != "outside"])
    kind = ch("kind", ["static", "dynamic"])
    terms = n + [("10.9.0.1", net("10.9.0.1")), ("2001:db8:9::1", net("2001:db8:9::1")), ("2001:db8:9::/96", net("2001:db8:9::/96"))]
    if mapped != "any":
        terms.append(("interface", "interface"))
    if kind == "dynamic":
        terms += [pool(n[2], *w) for w in WORDS] + [pool(n[4], *w) for w in WORDS[:3]]
    to = ch("mapped", terms)
    fallback = ch("fallback", FALLBACKS) if kind == "dynamic" and to[1] != "interface" and mapped != "any" else None
    service = None
    if kind == "static":
        service = ch("service", [None, ("tcp", 80, 8080), ("udp", "domain", 5353), ("tcp", "www", "https"), ("tcp", 0, 65535)])
    opts = [("dns",)]
    if kind == "static":
        opts += [("no-proxy-arp",), ("no-proxy-arp", "route-lookup"), ("route-lookup",)]
        if service is None:
            opts += [("dns", "no-proxy-arp")]
        else:
            opts = opts[1:]
    options = ch("options", [()] + opts)
    define = ch("object", [("host", "10.0.0.5"), ("subnet", "10.5.0.0", 24), ("range", "10.5.0.1", "10.5.0.3"), ("subnet", "2001:db8:5::", 64),
                           "re-opened", "re-opened later"])

    def case(m, i):
        args = (real, mapped, kind, to, fallback, service, options)
        if isinstance(define, str):
            m.object_network(f"o{i}", "host", "10.0.0.6")
            if define.endswith("later"):
                m.object_network(f"p{i}", "host", "10.0.0.7")
            m.object_nat(f"o{i}", *args, reopen=True)
        else:
            m.object_nat(f"o{i}", *args, type=define[0], args=define[1:])

    return case


# -- order: sequences of NAT commands of every section, mixed with other commands
def sequence_events(m):
    n = nodes(m)
    return [
        lambda m, i: m.twice_nat("inside", "outside", "static", n[0], n[1]),
        lambda m, i: m.twice_nat("inside", "outside", "dynamic", n[3], n[2], "interface", after="after-auto"),
        lambda m, i: m.twice_nat("inside2", "outside", "static", n[1], n[2], after="after-object"),
        lambda m, i: m.object_nat(f"o{i}", "inside", "outside", "static", n[1], type="host", args=("10.0.0.8",)),
        lambda m, i: m.object_nat("net10", "inside2", "any", "dynamic", n[2], reopen=True),
        lambda m, i: m.twice_nat("any", "any", "dynamic", ANY, n[4]),
        lambda m, i: m.say("nat (inside) 1 10.10.10.0 255.255.255.0"),
        lambda m, i: m.rule("acl", "permit", ("ip", ("proto", "ip")), ANY, ANY),
        lambda m, i: m.object_network(f"q{i}", "host", "10.0.0.9"),
    ]


def sequence(seq):
    m = new()
    ev = sequence_events(m)
    for i, e in enumerate(seq):
        ev[e](m, i)
    return m


def job(result, kind, cases):
    configs.check_events(result, "asa", new, cases, SLICES, kind)


def vectors_job(result, kind, vectors):
    from ..core import Choice

    drv = {"twice NAT": twice_driver, "object NAT": object_driver}[kind]
    configs.check_events(result, "asa", new, [drv(Choice(v)) for v in vectors], SLICES, kind)
    if len(result.samples) < 1:
        m = new()
        n = len(m.text)
        drv(Choice(vectors[-1]))(m, 0)
        result.samples.append(m.text[n:])


def sequence_job(result, seqs):
    for s in seqs:
        m = sequence(s)
        configs.check(result, "asa", m.text, m.state("nat", "rules"), "NAT sequence", events=len(s))
        if result.full():
            return


def run(ctx):
    jobs = []
    bound = ctx.pick(2, 3)
    for kind, drv in (("twice NAT", twice_driver), ("object NAT", object_driver)):
        vs = [v for v, _ in explore(drv, bound)]
        ctx.bounds[kind] = {"deviations": bound, "commands": len(vs)}
        jobs += [(kind, vs[i:i + 60]) for i in range(0, len(vs), 60)]
    ctx.map(vectors_job, jobs)
    depth = ctx.pick(3, 4)
    seqs = [s for n in range(1, depth + 1) for s in itertools.product(range(len(sequence_events(new()))), repeat=n)]
    ctx.bounds["sequences"] = {"depth": depth, "sequences": len(seqs)}
    ctx.batches(sequence_job, seqs, 40)


replay = configs.replay
