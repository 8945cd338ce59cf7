"""IOS IPv4 access-list rules carry exactly what the line says."""
from .. import canon, configs, vocab
from ..asa import icmp, op, proto, rng
from ..canon import net
from ..core import explore
from ..ios import ANY, Ios, bare, extended, host, masked, member, standard

NAMES = ["x", "x-1", "a.b_C+2", "101", "42", "permit", "extended"]
STANDARD_IDS = [str(i) for i in range(1, 100)] + [str(i) for i in range(1300, 1400)]
EXTENDED_IDS = [str(i) for i in range(100, 200)] + [str(i) for i in range(2000, 2700)]


def world():
    m = Ios()
    m.group("network", "grp", [("host 10.4.0.1", net("10.4.0.1"))])
    m.group("network", "grp1", [member("10.5.0.0", "255.255.0.0"), ("group-object grp", m.groups["network"]["grp"])])
    m.group("network", "grp-1", [("host 10.6.0.1", net("10.6.0.1"))])
    svc = lambda p, s, d: ("svc", ("proto", p), s, d, None, None)
    m.group("service", "sg", [("tcp destination eq 443", svc("tcp", None, ("port", "eq", 443)))])
    m.group("service", "sg1", [("udp source eq 53", svc("udp", ("port", "eq", 53), None)), ("group-object sg", m.groups["service"]["sg"])])
    m.raw("!\n")
    return m


def opt(name, value=None):
    return (name if value is None else f"{name} {value}"), name, value


def menus(m, full):
    wilds = [("10.1.0.0", "0.0.255.255"), ("10.1.2.3", "0.0.0.0"), ("10.1.0.5", "0.0.254.0"), ("10.1.2.0", "0.0.0.254")]
    if full:
        wilds += [("0.0.0.0", "255.255.255.255"), ("10.1.2.3", "0.0.0.1"), ("10.1.2.3", "0.0.0.2"), ("10.1.2.255", "0.0.1.255"),
                  ("128.0.0.1", "127.255.255.255"), ("10.0.0.1", "255.0.0.0"), ("1.2.3.4", "255.255.255.254"), ("10.1.2.3", "0.255.0.255"),
                  ("255.255.255.255", "128.0.0.1"), ("10.1.2.3", "0.0.3.0")]
        wilds += [("10.99.199.249", str(canon.ipaddress.IPv4Address((1 << n) - 1))) for n in range(33)]
        wilds += [("10.99.199.249", str(canon.ipaddress.IPv4Address(1 << n))) for n in range(1, 32)]
    hosts = [ANY, host("10.0.0.1"), masked(*wilds[0]), bare("10.0.0.9"), m.grp("grp")] + [masked(*w) for w in wilds[1:]]
    if full:
        hosts += [host("0.0.0.0"), host("255.255.255.255"), bare("255.255.255.255"), bare("0.0.0.0"), m.grp("grp1"), m.grp("grp-1"),
                  host("192.99.249.10"), bare("9.19.119.219")]
    ports = [None, op("eq", 80), op("gt", 1023), op("lt", "bgp"), op("neq", "ssh"), rng(1, 65535), rng("ftp-data", "ftp")]
    if full:
        ports += [op("eq", 0), op("eq", 65535), rng(9, 10), rng(80, "https"), rng("www", 443)] + [op("eq", n) for n in vocab.PORTS]
    protos = [proto("tcp"), proto("udp"), proto("ip"), proto(6), ("object-group sg", m.groups["service"]["sg"])]
    if full:
        protos += [proto(p) for p in vocab.PROTOCOLS if p not in ("tcp", "udp", "ip", "icmp", "icmp6")]
        protos += [proto(n) for n in (0, 1, 17, 58, 255)] + [("object-group sg1", m.groups["service"]["sg1"])]
    icmps = [None, icmp("echo"), icmp(8), icmp(3, 1), icmp(3, 0), icmp(0), icmp("unreachable", 255)]
    if full:
        icmps += [icmp(n) for n in vocab.ICMP if n != "echo"] + [icmp(255), icmp(0, 0), icmp("echo", 0), icmp(255, 255)]
    opts = [(), (opt("log"),), (opt("established"),), (opt("fragments"),), (opt("log-input"),), (opt("log", "cookie"),),
            (opt("dscp", "af11"), opt("fragments"), opt("log")), (opt("precedence", "critical"), opt("tos", "max-reliability"))]
    if full:
        opts += [(opt("dscp", v),) for v in ("cs1", "ef", "default")] + [(opt("tos", "normal"),), (opt("log-input", "tag"),),
                 (opt("time-range", "tr"),), (opt("time-range", "tr-1.x"), opt("log")), (opt("established"), opt("log")),
                 (opt("established"), opt("log-input", "word")), (opt("fragments"), opt("time-range", "t"), opt("log-input")),
                 (opt("precedence", "internet"), opt("dscp", "ef"), opt("time-range", "log"), opt("established"), opt("log"))]
    return hosts, ports, protos, icmps, opts


ROOTS = [(s, k) for s in ("named extended", "numbered extended") for k in ("port", "icmp")] + [("named standard", None), ("numbered standard", None)]


def driver(m, full, style, kind):
    hosts, ports, protos, icmps, opts = menus(m, full)
    std_opts = [(), (opt("log"),), (opt("log", "word"),)]

    # an address without mask is a host of a standard list only: in front of another address it would read as address and mask
    full_hosts = [h for h in hosts if len(h[0].split()) > 1 or h is ANY]

    def run(ch):
        seq = None
        if style.startswith("named"):
            acl = ch("name", NAMES)
            seq = ch("sequence", [None, 1, 10, 2147483647])
        else:
            ids = EXTENDED_IDS if style.endswith("extended") else STANDARD_IDS
            acl = ch("number", ids if full else ids[:2] + ids[-1:])
        mode = ch("mode", ["permit", "deny"])
        if style.endswith("standard"):
            body = standard(ch("source", hosts), ch("options", std_opts))
        elif kind == "icmp":
            body = extended(proto("icmp"), ch("source", full_hosts), ch("destination", full_hosts), icmp=ch("icmp", icmps), options=ch("options", opts))
        else:
            p = ch("protocol", protos)
            src, sport = ch("source", full_hosts), ch("source port", ports)
            body = extended(p, src, ch("destination", full_hosts), sport, ch("destination port", ports), options=ch("options", opts))
        sep = ch("blanks", [" ", "  ", "\t"])
        n = Ios()
        if style.startswith("named"):
            n.named(style.split()[1], acl)
            n.text = ""
            n.rule(mode, body, seq)
            line = " " + sep.join(n.text[1:].split(" "))
            line = f"ip access-list {style.split()[1]} {acl}\n" + line
        else:
            n.rule(mode, body, acl=acl)
            line = sep.join(n.text.split(" "))
        return line, n.rules[0]

    return run


def job(result, cases, preamble):
    configs.check_rule_lines(result, "ios", preamble, cases, "access-list rule")
    if len(result.samples) < 1:
        result.samples.append({"line": cases[0][0], "rule": configs.jsonable(cases[0][1])})


def lists(depth, m):
    """Sequences of rules, each with every mix of options, in one list and across lists: a rule has nothing of its neighbours."""
    ext = [extended(proto("tcp"), ANY, host("10.0.0.1"), None, op("eq", 22)), extended(proto("ip"), masked("10.0.0.0", "0.0.0.255"), ANY, options=(opt("log"),)),
           extended(proto("icmp"), ANY, ANY, icmp=icmp(3, 0)), extended(proto("udp"), ANY, m.grp("grp"), rng(1, 2), None, options=(opt("dscp", "ef"), opt("log-input")))]
    std = [standard(bare("10.0.0.1")), standard(host("10.0.0.2"), (opt("log"),)), standard(masked("10.0.0.0", "0.0.0.254")), standard(ANY, (opt("log", "word"),))]

    def run(ch):
        n = Ios()
        kind, name = None, None
        for i in range(depth):
            what = ch("event", ["rule", "extended x", "standard y", "standard x1", "101", "7", "end"] if i else ["extended x", "standard y", "101", "7"])
            if what == "end":
                break
            if what in ("101", "7"):
                kind, name = None, None
                n.rule(ch("mode", ["permit", "deny"]), ch("body", std if what == "7" else ext), acl=what)
                continue
            if what != "rule":
                kind, name = what.split()
                n.named(kind, name)
            if kind is None:
                return None
            n.rule(ch("mode", ["permit", "deny"]), ch("body", std if kind == "standard" else ext), ch("sequence", [None, 10 * i + 10]))
        return n

    return run


def traces(result, cases):
    for text, want in cases:
        configs.check(result, "ios", text, want, "lists")


def run(ctx):
    m = world()
    cases, seen = [], set()
    bounds = ((True, ctx.pick(1, 2)), (False, ctx.pick(2, 4)))
    for full, bound in bounds:
        for style, kind in ROOTS:
            for _, (line, rule) in explore(driver(m, full, style, kind), bound):
                if line not in seen:
                    seen.add(line)
                    cases.append((line, rule))
    ctx.bounds = {"full vocabulary: deviations": bounds[0][1], "core vocabulary: deviations": bounds[1][1], "distinct lines": len(cases)}
    ctx.batches(job, cases, 100, m.text)
    seqs = {}
    depth, dev = ctx.pick(3, 4), ctx.pick(3, 4)
    for _, n in explore(lists(depth, m), dev):
        seqs[m.text + n.text] = n.state("rules")
    ctx.batches(traces, seqs.items(), 60)
    ctx.bounds.update({"lists: rules": depth, "lists: deviations": dev, "lists: configurations": len(seqs)})


replay = configs.replay
